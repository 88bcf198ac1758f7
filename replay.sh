#!/bin/bash
# replay.sh FILE: re-executes a recorded violation against /repo's working tree.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
work=$(mktemp -d "${TMPDIR:-/tmp}/dstreplay.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
bash "$here/build.sh" "$work" || exit 2
"$work/dst" replay "$1"
