#!/bin/bash
# run.sh <PROPERTY> <quick|thorough>   explore one property against /repo's working tree
# run.sh replay <artefact.json>        re-run one recorded case
# run.sh build                         only build the harness
set -u
export HOME=${HOME:-/root}
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; else
  export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off; fi
ROOT=$(cd "$(dirname "$0")" && pwd)
TMP=$(mktemp -d /tmp/verif-run.XXXXXX) || exit 3
trap 'rm -rf "$TMP"' EXIT
mkdir -p "$TMP/h" && cp -r "$ROOT/harness/." "$TMP/h/" || exit 3
# The harness follows /repo's own dependency versions.
cp /repo/go.sum "$TMP/h/go.sum" || exit 3
{ printf 'module verif\n\n'; grep -E '^(go|toolchain) ' /repo/go.mod
  printf '\nrequire github.com/substrait-io/substrait-go/v8 v8.0.0\nreplace github.com/substrait-io/substrait-go/v8 => /repo\n'
  sed -n '/^require/,$p' /repo/go.mod | grep -v '^replace'; } > "$TMP/h/go.mod"
FLAGS=()
case "${1:-}" in
  C24) FLAGS+=(-race); export CGO_ENABLED=1 ;;
  replay) grep -q '"property": *"C24"' "${2:-/dev/null}" && { FLAGS+=(-race); export CGO_ENABLED=1; set -- replay "$2" C24; } ;;
esac
if [ "${1:-}" = C24 ] || [ "${3:-}" = C24 ]; then
  # A second build in which every statement of the library is a scheduling point.
  export MC_SCHED=$TMP/mc-sched MC_RACELOG=$TMP/race
  export GORACE="halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path=$TMP/race"
  mkdir -p "$TMP/instr" "$TMP/overlay" && cp -r "$ROOT/tools/instr/." "$TMP/instr/" || exit 3
  (cd "$TMP/instr" && go build -o "$TMP/instr/instr" .) || exit 4
  "$TMP/instr/instr" /repo "$TMP/overlay" github.com/substrait-io/substrait-go/v8 \
    . types types/parser types/parser/util types/integer_parameters extensions functions expr plan plan/internal literal testcases/parser || exit 4
  (cd "$TMP/h" && CGO_ENABLED=0 go build -overlay "$TMP/overlay/overlay.json" -tags mcsched -o "$MC_SCHED" . ) || { echo "instrumented build failed" >&2; exit 4; }
fi
(cd "$TMP/h" && go build "${FLAGS[@]}" -o "$TMP/mc" . ) || { echo "harness build failed" >&2; exit 4; }
case "${1:-}" in
  build) exit 0 ;;
  replay) "$TMP/mc" -root "$ROOT" -replay "$2"; exit $? ;;
  *) "$TMP/mc" -root "$ROOT" -prop "$1" -tier "${2:-quick}"; exit $? ;;
esac
