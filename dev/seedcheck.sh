#!/bin/bash
# dev: verify a seeded bug: seedcheck.sh ID [PROP...]   (works on a scratch copy; records dev/seed_results.json)
id=$1; shift
d=/verif/seeded/$id
w=/tmp/seed.$id.$$
cp -a /repo $w
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cp -r $d /tmp/seed.d.$id.$$; sed -i "s#/repo#$w#g" /tmp/seed.d.$id.$$/demo.sh
a=$(cd $w; bash /tmp/seed.d.$id.$$/demo.sh >/dev/null 2>&1; echo $?)
(cd $w && git apply $d/patch.diff) || { echo "$id: PATCH DOES NOT APPLY"; rm -rf $w /tmp/seed.d.$id.$$; exit 2; }
b=$(cd $w; bash /tmp/seed.d.$id.$$/demo.sh >/dev/null 2>&1; echo $?)
t=$(cd $w && /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -1)
out=""; caught=""
for p in ${@:-$prop}; do
  SX_EVIDENCE=/tmp/seed.ev.$id SX_REPO=$w timeout 900 python3-vt /verif/run.py $p --tier quick > /tmp/seed.out.$id.$p 2>&1; rc=$?
  out="$out $p:rc=$rc($(grep -c '^VIOLATION' /tmp/seed.out.$id.$p))"
  [ $rc = 1 ] && caught="$caught $p"
done
echo "$id demo clean=$a patched=$b tests=[$t] checks:$out"
[ -z "$caught" ] && caught=" MISSED"
flock /tmp/seedres.lock python3 - "$id" "$caught" <<'P'
import json,os,sys
p="/verif/dev/seed_results.json"
d=json.load(open(p)) if os.path.exists(p) else {}
d[sys.argv[1]]=sys.argv[2].strip()
json.dump(d,open(p,"w"),indent=1,sort_keys=True)
P
rm -rf $w /tmp/seed.d.$id.$$ /tmp/seed.ev.$id
