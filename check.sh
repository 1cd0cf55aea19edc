#!/bin/bash
# check.sh <property> [quick|thorough]      run the check of one property against /repo's working tree
# check.sh worker <property> <job> <k>      run one job again (what a replay file says)
# The harness is built from a scratch copy, so neither /repo nor /verif/harness is written to.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
export QV_DIR="$here" QV_REPO="${QV_REPO:-/repo}"
mode=check
prop=${1:?property}
if [ "$prop" = worker ]; then
    mode=worker
    prop=${2:?property}
else
    case "${2:-}" in quick | thorough) export VERIF_TIER=$2 ;; esac
fi
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
b=$(mktemp -d /tmp/qvb.XXXXXX) || exit 2
trap 'rm -rf "$b"' EXIT
cp -r "$here/harness" "$b/h" || exit 2
cd "$b/h" || exit 2
sed -i "s,=> /repo$,=> $QV_REPO," go.mod
race=
[ "$prop" = C26 ] && race=-race
if ! go build $race -o "$b/qv" . > "$b/build.log" 2>&1; then
    echo "ERROR: the harness does not build against $QV_REPO"
    tail -n 40 "$b/build.log"
    exit 2
fi
if [ "$prop" = C31 ]; then
    cp "$QV_REPO/go.mod" "$b/tools.mod" && cp "$QV_REPO/go.sum" "$b/tools.sum" && mkdir "$b/tools" || exit 2
    if ! (cd "$QV_REPO" && go build -modfile="$b/tools.mod" -o "$b/tools/" ./tool/packet ./tool/qrpcurl) > "$b/build.log" 2>&1; then
        echo "ERROR: the tools do not build"
        tail -n 40 "$b/build.log"
        exit 2
    fi
    export QV_TOOLS="$b/tools"
fi
export QV_H="$b/h" QV_TMP="$b/tmp"
mkdir -p "$QV_TMP" && cd "$QV_TMP" || exit 2
if [ $mode = worker ]; then
    "$b/qv" worker "$prop" "$3" "$4"
    exit $?
fi
"$b/qv" check "$prop"
exit $?
