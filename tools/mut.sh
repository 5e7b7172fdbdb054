#!/bin/bash
# mut.sh <patch> <prop...>: run checks against a scratch copy of /repo with the patch
p=$(readlink -f "$1"); shift
d=$(mktemp -d /tmp/mutXXXXXX)
cp -a /repo "$d/repo" && rm -rf "$d/repo/.git"
(cd "$d/repo" && patch -p1 ${REV:+-R} -s < "$p") || { echo "PATCH FAILS"; rm -rf "$d"; exit 3; }
for c in "$@"; do
  DST_REPO="$d/repo" /verif/check.sh $c ${ARGS} 2>&1 | cut -c1-${W:-500} | tail -${L:-5}
done
rm -rf "$d"
