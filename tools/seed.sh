#!/bin/bash
# usage: seed.sh <id> <property> <needs> <what_it_breaks>  < main.rs
# with the change applied in /repo: records it under seeded/<id>, confirms tests/demo/check, reverts /repo.
id=$1; prop=$2; d=/verif/seeded/$id
mkdir -p "$d"
[ -n "$SEED_REUSE" ] || cat >"$d/main.rs"
git -C /repo diff >"$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change in /repo"; exit 1; }
cp /verif/tools/demo/demo.sh /verif/tools/demo/Cargo.toml /verif/tools/demo/Cargo.lock "$d/"
[ -f /verif/seeded/$id/Cargo.override ] && cp /verif/seeded/$id/Cargo.override "$d/Cargo.toml"
python3 - "$d" "$prop" "$3" "$4" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+'/meta.json','w'),indent=1)
P
cd /repo
bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1 || echo "BUILD FAILS"
bash /opt/vp/test.sh /tmp/seed-o.json | tail -1
bash "$d/demo.sh"; echo "demo with patch: $? (want nonzero, not 3)"
for p in $prop; do VERIF_TIER=quick bash /verif/check.sh $p | tail -4; done
git -C /repo checkout -- .
bash "$d/demo.sh"; echo "demo without patch: $? (want 0)"
