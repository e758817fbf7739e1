#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's working tree.
# check.sh --build only builds the engine.
root="$(cd "$(dirname "$0")" && pwd)" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB='*' GONOSUMCHECK=1
mkdir -p "$root/.build" "$root/evidence" || exit 2
bin="$root/.build/engine.$$"
( cd "$root/engine" && go build -buildvcs=false -o "$bin" . ) || { echo "cannot build the engine" >&2; exit 2; }
if [ "$1" = --build ]; then mv -f "$bin" "$root/.build/engine"; exit 0; fi
tier="${2:-${VERIF_TIER:-quick}}"
"$bin" -prop "$1" -tier "$tier" -seed "${VERIF_SEED:-1}" -dir "$root/harness" -root "$root"
rc=$?
unlink "$bin"
exit $rc
