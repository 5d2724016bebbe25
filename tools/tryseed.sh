#!/bin/bash
# tryseed.sh ID [check...]: demo on the unchanged tree and on a patched copy, then the property's check (or the given ones) on the copy
V=$(dirname "$(dirname "$(readlink -f "$0")")"); id=$1; shift; W=/tmp/tryseed_$id; D=/tmp/tryseed_demo_$id
mkdir -p $W $D; git -C /repo archive HEAD | tar x -C $W; cp -a $V/seeded/$id/. $D/; rm -f $D/patch.diff $D/meta.json
(cd $W && bash $D/demo.sh >$D.log 2>&1); a=$?
(cd $W && git init -q . && git apply --whitespace=nowarn $V/seeded/$id/patch.diff) || echo "PATCH DOES NOT APPLY"
(cd $W && bash $D/demo.sh >>$D.log 2>&1); b=$?
echo "$id demo: unchanged $a, patched $b"; if [ $a != 0 -o $b = 0 ]; then echo "  DEMO BAD"; tail -5 $D.log; fi
P=${@:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'].lower())")}
for p in $P; do VERIF_REPO=$W $([[ $p < c08 ]] && echo python3 || echo python3-vt) $V/checks/$p.py >$D.chk 2>&1; r=$?; echo "  $p: exit $r $(grep -m1 -A1 ^VIOLATION $D.chk | tail -1 | cut -c1-200)"; [ $r -gt 1 ] && tail -5 $D.chk; done
rm -rf $W $D $D.log $D.chk
