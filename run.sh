#!/bin/bash
# run.sh <property> [quick|thorough] [harness flags]   build from /repo's working tree and check one property
# run.sh replay <file>                                  replay a recorded violation with a trace
# run.sh build                                          build only
set -u
V="$(cd "$(dirname "$0")" && pwd)"
R="${VERIF_REPO:-/repo}"
. /opt/vp/env.sh >/dev/null 2>&1
B="$V/.build"
mkdir -p "$B"
# build [cli]: the harness; with the command line tools instrumented as well if cli
build() {
  local s="${1:+-$1}" dirs="."
  [ "${1:-}" = cli ] && dirs=". command/healer/cmd command/healer/cmd/apicontrollers"
  ( flock 9
    cd "$V/mc/instr" && go build -o "$B/instr" . || exit 3
    cp "$R/go.mod" "$R/go.sum" "$B/" || exit 3
    rm -rf "$V/.build/inst$s"
    "$B/instr" -repo "$R" -out "$B/inst$s" -overlay "$B/overlay$s.json" -add vrt="$V/mc/vrt" -add kref="$V/mc/kref" -add kfake="$V/mc/kfake" -add vharness="$V/mc/harness" $dirs >"$B/instr$s.log" 2>&1 || { cat "$B/instr$s.log"; exit 3; }
    cd "$R" && go build -overlay "$B/overlay$s.json" -modfile "$B/go.mod" -tags "${1:-none}" -o "$B/harness$s" ./vharness || exit 3
  ) 9>"$B/lock"
}
case "${1:-}" in
build) build && build cli; exit $?;;
replay) k=; grep -qE '"P2[3456]"' "$2" && k=cli; build $k || exit 3; exec "$B/harness${k:+-$k}" -verif "$V" -replay "$2";;
"") echo "usage: run.sh <property> [tier]"; exit 2;;
esac
P="$1"; T="${2:-${VERIF_TIER:-quick}}"; shift; [ $# -gt 0 ] && shift
k=; case "$P" in P23|P24|P25|P26) k=cli;; esac
build $k || { echo "build failed"; exit 3; }
exec "$B/harness${k:+-$k}" -verif "$V" -prop "$P" -tier "$T" "$@"
