#!/bin/bash
# validates a planted bug in a private mount namespace (a copy of /repo is mounted over /repo): tools/seed.sh <id>... [NOCHECK=1]
one() { id=$1; d=/verif/seeded/$id; s=/tmp/seed/$id; mkdir -p $s; cp -a /repo $s/repo; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
unshare -Urm bash -c '
id=$1; d=$2; s=$3; prop=$4; mount --bind $s/repo /repo; mkdir -p $s/ev; mount --bind $s/ev /verif/evidence; cd /repo; export PATH
bash $d/demo.sh >$s/demo0.log 2>&1; a=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit; }
bash /opt/vp/test.sh $s/t.json >$s/test.log 2>&1
t=$(python3 -c "
import json,sys
b=json.load(open(\"/opt/vp/BASELINE.json\")); b=b[\"stable\"]
p=set(json.load(open(\"$s/t.json\"))[\"passed\"]); m=[x for x in b if x not in p]; print(\"ok\" if not m else \"BROKEN:\"+\",\".join(m[:3]))")
cd /repo; bash $d/demo.sh >$s/demo1.log 2>&1; b=$?
if [ -z "$NOCHECK" ]; then VERIF_BUILD=$s/b; export VERIF_BUILD; mkdir -p $s/b; cp /verif/build/cxport* $s/b/ 2>/dev/null; cd /verif; timeout 900 python3-vt check.py $prop >$s/check.log 2>&1; c=$?; fi
echo "$id ($prop): demo clean=$a mutant=$b tests=$t check=$c $(grep -h "^VIOLATION" $s/check.log 2>/dev/null | grep -o "no-failing.*") | $(grep -hE "^  (driver|obligation):|undecided" $s/check.log 2>/dev/null | head -2 | cut -c1-200 | tr "\n" ";")"
' _ $id $d $s $prop; cp $s/*.log /tmp/seed/ 2>/dev/null; rm -rf $s/repo $s/b; }
for i in "$@"; do one $i; done
