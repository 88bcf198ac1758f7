#!/bin/bash
# Builds the framework once (warms the build cache); every check builds again from /repo.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
work=$(mktemp -d "${TMPDIR:-/tmp}/dstsetup.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
bash "$here/build.sh" "$work" && "$work/dst" list
