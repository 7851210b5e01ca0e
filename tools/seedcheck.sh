#!/bin/bash
# seedcheck.sh SEED_ID [nocheck]: confirm one planted bug in a private mount namespace, then run its property's check against it.
# Prints: build, tests, demo on the clean tree, demo with the patch, check.
S=/verif/seeded/$1
D=$(mktemp -d /tmp/seed.XXXXXX); chmod 755 "$D"
trap 'rm -rf "$D"' EXIT
cp -a /repo "$D/repo"
cp -a "$S" "$D/demo"
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cat > "$D/go.sh" <<X
mount --bind "$D/repo" /repo
cd /repo
bash "$D/demo/demo.sh" >"$D/clean.out" 2>&1; a=\$?
git apply "$S/patch.diff" || { echo "$1: DOES NOT APPLY"; exit; }
bash /opt/vp/build.sh >"$D/build.out" 2>&1; b=\$?
bash /opt/vp/test.sh "$D/t.json" >"$D/test.out" 2>&1
t=\$(python3 - <<Y
import json
base=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('$D/t.json'))
print(len(set(base)-set(t['passed'])))
Y
)
bash "$D/demo/demo.sh" >"$D/bug.out" 2>&1; d=\$?
echo "$1: build \$b, baseline tests lost \$t, demo clean \$a, demo with bug \$d"
[ \$a = 0 ] || cat "$D/clean.out"
[ "$2" = demo ] && cat "$D/bug.out"
[ "$2" = nocheck ] && exit
cd /verif
VERIF_SEED=1 ./check $P quick --out "$D" $3 $4 >"$D/check.out" 2>&1; c=\$?
echo "$1: check $P exit \$c \$(grep -c '^VIOLATION property=$P' "$D/check.out") \$(grep -E ' runs, |HARNESS' "$D/check.out" | cut -c1-100) :: \$(grep -B2 '^VIOLATION' "$D/check.out" | head -1 | cut -c1-260)"
X
unshare -m bash "$D/go.sh"
