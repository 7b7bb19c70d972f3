#!/bin/bash
# run.sh ID [quick|thorough]: builds the check of property ID from /repo's working tree and runs it.
# Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Other: the check itself failed.
set -u
cd "$(dirname "$0")" || exit 2
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_DIR=$PWD VERIF_TIER=$TIER VERIF_SEED=${VERIF_SEED:-1}
. ./env.sh
S=$(mktemp -d /tmp/verif-$ID-XXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
export VERIF_SCRATCH=$S
lc=$(echo "$ID" | tr 'A-Z' 'a-z')
bash ./overlay.sh "$S" "$lc" || exit 2
race=
[ -f "mc/cmd/$lc/RACE" ] && race=-race
(cd mc && go build $race -overlay "$S/overlay.json" -o "$S/check" "./cmd/$lc") || exit 2
[ -f "mc/cmd/$lc/GOMAXPROCS1" ] && export GOMAXPROCS=1
export GORACE="exitcode=0 log_path=$S/race suppress_equal_stacks=0 suppress_equal_addresses=0 atexit_sleep_ms=0"
"$S/check" >"$S/out" 2>"$S/err"
rc=$?
cat "$S/out"
grep -v '^ERROR: logging before flag.Parse' "$S/err" | tail -c 3000 >&2
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
    # The process died: a crash of the code under test that no harness can catch (stack overflow, fatal error).
    if grep -qE '^(fatal error:|panic:|runtime: goroutine stack exceeds|SIGSEGV|unexpected fault)' "$S/err"; then
        mkdir -p evidence/replay
        head -c 20000 "$S/err" >"evidence/replay/$ID-crash.txt"
        echo "VIOLATION property=$ID replay=$PWD/evidence/replay/$ID-crash.txt"
        exit 1
    fi
fi
exit $rc
