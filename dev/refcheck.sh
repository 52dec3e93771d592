#!/bin/bash
# dev: refcheck.sh NAME,NAME,... [PROP...]: run the checks (strict) on a copy with these rewrites
n=$1; shift
w=/tmp/rf.$$; cp -a /repo $w; python3 /verif/dev/refactors.py $n $w || exit 2
for p in ${@:-$(seq -f 'C%02g' 1 25)}; do
  SX_EVIDENCE=/tmp/rf.ev.$$ SX_REPO=$w timeout 900 python3-vt /verif/run.py $p --tier quick --strict > /tmp/rf.out.$$.$p 2>&1
  echo "$p rc=$? $(grep -cE '^VIOLATION' /tmp/rf.out.$$.$p) viol; $(grep -E 'INCONCLUSIVE' /tmp/rf.out.$$.$p | head -2 | cut -c1-300 | tr '\n' '|') $(grep -E 'harnesses' /tmp/rf.out.$$.$p | grep -o 'wall.*') out=/tmp/rf.out.$$.$p"
done
rm -rf $w /tmp/rf.ev.$$
