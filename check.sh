#!/bin/bash
# check.sh <property> <quick|thorough> [gvc options]
here=$(cd "$(dirname "$0")" && pwd)
"$here/setup.sh" >/dev/null 2>&1 || { "$here/setup.sh"; echo "cannot build gvc"; exit 2; }
p=$1; t=$2; shift 2
exec "$here/bin/gvc" check -repo "${GVC_REPO:-/repo}" -verif "$here" -prop "$p" -tier "$t" "$@"
