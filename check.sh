#!/bin/bash
# check.sh ID: rebuilds the instrumented tracker from /repo's working tree and explores the property's scenarios.
set -u
ID=${1:?usage: check.sh ID [replay FILE]}
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export VERIF_DIR=$VERIF VERIF_T0=$(date +%s)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB=* GOFLAGS=-mod=mod LANG=C.UTF-8
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
for v in $(compgen -v TRAKX_); do unset "$v"; done
unset PORT DATABASE_URL XDG_CONFIG_HOME XDG_CACHE_HOME
WORK=$(mktemp -d /tmp/vmc.XXXXXXXX) || exit 2
trap 'chmod -R u+w "$WORK" 2>/dev/null; rm -rf -- "$WORK"' EXIT
trap 'exit 2' INT TERM HUP
export VERIF_SCRATCH=$WORK HOME=$WORK/home
mkdir -p "$WORK/home" "$WORK/cwd"

TAGS= RACE= VETRACE= ALT=
case $ID in
C23) TAGS=heroku ;;
C34) TAGS=fast ;;
esac
case $ID in
C05 | C19 | C22 | C25 | C31) ALT=heroku ;;
esac
case $ID in
C05) RACE=-race; VETRACE='-gcflags=github.com/crimist/trakx/zzv/...=-race=false -l' ;;
esac
export VERIF_BUILD="tags=$TAGS race=$RACE"

die() { echo "check.sh: $*" >&2; exit 2; }
(cd "$VERIF/mc/instr" && go build -o "$WORK/instr" .) > "$WORK/instr.log" 2>&1 || { cat "$WORK/instr.log" >&2; die "building instr failed"; }
# build SRC TAGS OUT: copies the tree, instruments it under the build tags and compiles the harness
build() {
    mkdir -p "$WORK/$1"
    (cd "$REPO" && find . -path ./.git -prune -o -type f ! -name '*_test.go' -print0 | tar --null -cf - -T -) | tar -xf - -C "$WORK/$1" || die "copy failed"
    cd "$WORK/$1" || exit 2
    # the commands, as a package the harness can import
    mkdir zzcli || die "copy"
    for f in *.go; do
        sed 's/^package main\b/package zzcli/; s/^func main()/func Main()/' "$f" > "zzcli/$f"
    done
    go list -export -deps $RACE -tags "$2" -json=ImportPath,Dir,Export,GoFiles,Standard ./tracker/... ./controller ./config ./bencoding ./pools ./zzcli > "$WORK/list.$1" 2> "$WORK/list.err" || { cat "$WORK/list.err" >&2; die "the repository does not build"; }
    "$WORK/instr" -list "$WORK/list.$1" || die "instrumentation failed"
    cp -r "$VERIF/mc/zzv" zzv || die "copy"
    go build $RACE ${VETRACE:+"$VETRACE"} -tags "$2" -o "$WORK/$3" ./zzv/h > "$WORK/build.log.$1" 2>&1 || { head -50 "$WORK/build.log.$1" >&2; die "building the harness failed"; }
}
if [ -n "$ALT" ]; then
    (build src2 "$ALT" halt) & AB=$!
    export VERIF_ALT_BIN=$WORK/halt
fi
build src "$TAGS" h
[ -z "$ALT" ] || wait $AB || exit 2
cd "$WORK/cwd" || exit 2
if [ "${2:-}" = replay ]; then
    GOMAXPROCS=1 GORACE="halt_on_error=0 atexit_sleep_ms=0 exitcode=0" "$WORK/h" replay "$3"
    exit $?
fi
"$WORK/h" check "$ID"
exit $?
