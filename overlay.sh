#!/bin/bash
# overlay.sh SCRATCH check-id: prepares SCRATCH/overlay.json for the check.
#  - the .pb.go files git ignores are generated anew from /repo's .proto files into SCRATCH and laid over /repo
#  - mc/bridge/<pkg>/*.go are laid into /repo/<pkg>
#  - mc/cmd/<id>/INSTRUMENT names the packages to be instrumented for the scheduler
set -u
S=$1; lc=$2
M=github.com/google/xtoproto
mkdir -p "$S/root/github.com/google" "$S/pb" "$S/instr"
ln -sfn /repo "$S/root/$M"
: >"$S/map"
(cd /repo && go build -o "$S/protoc-gen-go" github.com/golang/protobuf/protoc-gen-go) || exit 2
while IFS= read -r p; do
    p=${p#./}
    protoc -I"$S/root" --plugin=protoc-gen-go="$S/protoc-gen-go" \
        --go_out="plugins=grpc,paths=source_relative,M$M/$p=$M/$(dirname "$p"):$S/pb" "$M/$p" || exit 2
    printf '%s\t%s\n' "/repo/${p%.proto}.pb.go" "$S/pb/$M/${p%.proto}.pb.go" >>"$S/map"
done < <(cd /repo && find . -name .git -prune -o -name '*.proto' -print | sort)
for f in $(cd mc/bridge 2>/dev/null && find . -name '*.go'); do
    f=${f#./}
    printf '%s\t%s\n' "/repo/$(dirname "$f")/zz_verif_$(basename "$f")" "$PWD/mc/bridge/$f" >>"$S/map"
done
if [ -f "mc/cmd/$lc/INSTRUMENT" ]; then
    (cd mc && go build -o "$S/instrbin" ./cmd/instr) || exit 2
    (cd /repo && "$S/instrbin" "$S/instr" $(sed 's|^|/repo/|' "$OLDPWD/mc/cmd/$lc/INSTRUMENT")) >>"$S/map" || exit 2
fi
python3 - "$S" <<'P'
import json, sys
s = sys.argv[1]
m = dict(l.rstrip("\n").split("\t") for l in open(s + "/map") if l.strip())
json.dump({"Replace": m}, open(s + "/overlay.json", "w"), indent=1)
P
