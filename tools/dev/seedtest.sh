# seedtest.sh ID [PROP]: checks a planted bug in scratch copies of /repo
set -u
ID=$1; S=/verif/seeded/$ID; W=/tmp/seed
mkdir -p $W
mk() { (cd $1 && LC_ALL=C make CC=gcc variant=debug -j8 firm >$W/$ID.build 2>&1); }
H=$(cd /repo && git rev-parse HEAD)
if [ "$(cat $W/clean.head 2>/dev/null)" != "$H" ]; then rm -rf $W/clean; cp -a /repo $W/clean; mk $W/clean || exit 9; echo $H > $W/clean.head; fi
rm -rf $W/bug; cp -a $W/clean $W/bug
(cd $W/bug && git apply $S/patch.diff) || { echo "$ID: patch does not apply"; exit 9; }
mk $W/bug || { echo "$ID: does not build"; tail -5 $W/$ID.build; exit 9; }
mkdir -p $W/d; rm -rf $W/d/*; cp $S/* $W/d/; rm -f $W/d/*.diff $W/d/meta.json
(cd $W/clean && sh $W/d/demo.sh >$W/$ID.clean 2>&1); c=$?
(cd $W/bug && sh $W/d/demo.sh >$W/$ID.bug 2>&1); b=$?
u=$(cd $W/bug; for t in unittests/*.c; do n=$(basename $t .c); rm -f build/debug/$n.exe; LC_ALL=C make CC=gcc variant=debug build/debug/$n.exe >/dev/null 2>&1 && timeout 60 build/debug/$n.exe >/dev/null 2>&1 || echo -n "$n "; done)
echo "$ID: demo clean=$c bug=$b; failing unit tests: [$u]"
tail -2 $W/$ID.bug
P=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
for p in $P; do
mkdir -p $W/ev $W/rp
(cd /verif; VERIF_REPO=$W/bug python3 tools/check.py $p quick --evidence $W/ev/$p.json --replay-dir $W/rp > $W/$ID.$p.log 2>&1; echo "$ID: check $p rc=$?"; grep -m1 "^VIOLATION" $W/$ID.$p.log; grep -m1 "failure in" $W/$ID.$p.log | cut -c1-200)
done
