#!/bin/bash
# mk.sh ID: completes /verif/seeded/ID (patch.diff, demo.cpp, sources, meta.json already there) and validates it
# in a scratch copy of /repo.  mk.sh -n ID: only validate the demo on the unchanged and the changed tree.
K=$(cd "$(dirname "$0")" && pwd); V=$(cd "$K/../.." && pwd); id=$1; S=$V/seeded/$id
cp $K/demo.sh $S/demo.sh; chmod +x $S/demo.sh
grep -q demo_lib.h $S/demo.cpp 2>/dev/null && cp $K/demo_lib.h $S/
if [ -f $S/sources ]; then mkdir -p $S/stubs; cp -r $V/stubs/folly $V/stubs/emp-ot $V/stubs/emp-tool $S/stubs/; cp $K/noengine.cpp $S/stubs/; [ ! -f $S/stubs_extra ] || for x in $(cat $S/stubs_extra); do mkdir -p $S/stubs/$(dirname $x); cp -r $([ -e $V/stubs/$x ] && echo $V/stubs/$x || echo $K/$x) $S/stubs/$(dirname $x)/; done; find $S/stubs -name emp_stub.cpp -delete; [ -f $S/stubs/dsim.h ] || find $S/stubs -name aws_stub.cpp -delete; fi
W=/tmp/seedcheck.$$; mkdir $W; cp -a /repo $W/repo; cd $W/repo
git checkout -q -- . 
$S/demo.sh >$W/clean.log 2>&1; c=$?
git apply $S/patch.diff || { echo "$id: patch does not apply"; find $W -delete; exit 1; }
$S/demo.sh >$W/bug.log 2>&1; b=$?
echo "$id: clean=$c bug=$b"; [ $c != 0 ] && tail -5 $W/clean.log; tail -3 $W/bug.log
find $W -delete
[ $c = 0 ] && [ $b != 0 ] && [ $b != 98 ] && [ $b != 99 ]
