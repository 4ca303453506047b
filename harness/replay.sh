#!/bin/bash
# replay.sh PROPERTY HARNESS_SEED SECONDS [LITS HINTS]: reruns the harness run that found a failing input, against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/vhr.XXXXXX)
trap 'rm -rf "$w"' EXIT
"$here/../bin/engine" trace-file > "$w/trace.go" || exit 2
echo "{\"Replace\":{\"/repo/zz_vh_trace.go\":\"$w/trace.go\"}}" > "$w/ov.json"
bash "$here/build.sh" "$w/vh" "$w/ov.json" || exit 2
"$w/vh" -prop "$1" -seed "$2" -secs "$3" ${4:+-lits "$4"} ${5:+-hints "$5"}
