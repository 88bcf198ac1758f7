#!/bin/bash
# check.sh PROPERTY quick|thorough [extra arguments of dst check]
# exit 0: held on everything explored; 1: VIOLATION; 2: no answer.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift 2
work=$(mktemp -d "${TMPDIR:-/tmp}/dstcheck.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
bash "$here/build.sh" "$work" || exit 2
TMPDIR="$work" "$work/dst" check -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -replays "$here/replays" \
  -evidence "$here/evidence/$prop.json" -known "$here/known-findings.txt" -rewritten "$work/rewritten" "$@"
