#!/bin/bash
# check.sh ID [quick|thorough]: build /repo's current tree and the monitors,
# run the check of one property. Exit 0 held, 1 violation, 2 no verdict.
ID=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}} VERIF_SEED=${VERIF_SEED:-1}
export VERIF_DIR=$(cd "$(dirname "$0")" && pwd) VERIF_REPO=${VERIF_REPO:-/repo}
. /opt/vp/env.sh || exit 2
export TMPDIR=${TMPDIR:-/tmp}
D=$(mktemp -d "$TMPDIR/vh-build-XXXXXX") || exit 2
trap 'rm -rf "$D"' EXIT
trap 'exit 2' INT TERM
mkdir -p "$VERIF_DIR/evidence" "$D/bin"
fail() { echo "CHECK-ERROR: $*" >&2; exit 2; }
gobuild() { (cd "$VERIF_REPO/go" && go build "$@") >"$D/log" 2>&1 || { cat "$D/log" >&2; fail "building /repo"; }; }
vhbuild() { # name [flags]: the monitors, against the current tree
  sed "s#=> /repo/go#=> $VERIF_REPO/go#" "$VERIF_DIR/harness/go.mod" >"$D/go.mod"
  cp "$VERIF_DIR/harness/go.sum" "$D/go.sum"
  local n=$1; shift
  (cd "$VERIF_DIR/harness" && go build -modfile "$D/go.mod" "$@" -o "$D/bin/" "./cmd/$n") >"$D/log" 2>&1 || { cat "$D/log" >&2; fail "building $n"; }
}
case $ID in
C01|C02|C03|C04|C20|C22|C33) M=vct; gobuild -o "$D/bin/" ./cmd/ct-fetch ;;
C05|C06|C07|C08|C09|C10|C16|C21) M=vstore; gobuild -o "$D/bin/" ./cmd/... ;;
C11|C12|C13|C14|C15|C19) M=vcrl; gobuild -o "$D/bin/" ./cmd/... ;;
C18) M=vconf; gobuild -o "$D/bin/" ./cmd/... ;;
C17) M=vrace; gobuild -race -o "$D/bin/" ./cmd/... ;;
C2[3-8]|C31) exec_py=1 ;;
C29|C30) exec_py=1 exec_rs=1 ;;
C32) exec_py=1 exec_rs=1 exec_rq=1 ;;
C34|C35) exec_py=1 exec_rq=1 ;;
*) fail "unknown property $ID" ;;
esac
if [ -n "$exec_rs" ]; then
  bash "$VERIF_DIR/rsharness/build.sh" "$D" || fail "building rust-create-cascade"
  export VH_RS="$D/rust-create-cascade"
fi
if [ -n "$exec_rq" ]; then
  bash "$VERIF_DIR/rsharness/build.sh" "$D" query || fail "building rust-query-crlite"
  export VH_RQ="$D/rust-query-crlite"
fi
if [ -n "$exec_py" ]; then
  TMPDIR="$D" python3 -B "$VERIF_DIR/pyharness/main.py" "$ID" --scratch "$D"; exit $?
fi
if [ $M = vrace ]; then vhbuild vct; vhbuild vstore; vhbuild vcrl; vhbuild vrace -race; elif [ $M = vconf ]; then CGO_ENABLED=0 vhbuild vconf; else vhbuild $M; fi
VH_BIN="$D/bin" TMPDIR="$D" "$D/bin/$M" "$ID"
exit $?
