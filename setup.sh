#!/bin/bash
# Checks the toolchain and warms the build cache; every check builds what it needs by itself.
cd "$(dirname "$0")" || exit 2
. ./env.sh
command -v protoc >/dev/null && go version || exit 2
(cd mc && go vet ./kit ./vsched ./vsync) || exit 2
for id in $(ls mc/cmd); do
    case $id in c[0-9]*) ;; *) continue ;; esac
    S=$(mktemp -d /tmp/verif-setup-XXXXXX) || exit 2
    race=; [ -f "mc/cmd/$id/RACE" ] && race=-race
    bash ./overlay.sh "$S" "$id" && (cd mc && go build $race -overlay "$S/overlay.json" -o "$S/check" "./cmd/$id")
    rc=$?
    rm -rf "$S"
    [ $rc -eq 0 ] || exit 2
done
