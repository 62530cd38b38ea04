#!/bin/bash
# usage: mutate.sh CHECK FILE SED_EXPR   (development aid: runs a check against a mutated scratch copy)
set -e
d=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/src "$d/src"
sed -i -E "$3" "$d/src/lib/sup/oac-tree/$2"
diff -ru /repo/src "$d/src" | grep '^[+-]' | grep -v '^+++\|^---' || echo "NO CHANGE"
OAC_REPO=$d timeout 900 python3 /verif/tools/check.py $1 | cut -c1-600 || true
rm -rf "$d"
