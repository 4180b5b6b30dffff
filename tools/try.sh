#!/bin/bash
# tools/try.sh PATCH|- CHECK...: runs checks against a scratch copy of /repo
# with PATCH applied ("-": unchanged copy).
P=$1; shift
W=$(mktemp -d /tmp/mcrepo.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
if [ "$P" != - ]; then git -C "$W/repo" apply "$(realpath "$P")" || exit 3; fi
cd "$(dirname "$0")/.." || exit 2
for c in "$@"; do
  MC_REPO="$W/repo" ./check "$c" | tail -${LINES_OUT:-3} | cut -c1-${COLS_OUT:-600}
done
