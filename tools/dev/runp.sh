# runp.sh prop scale
S=$(ls -t /verif/build/${H:-sem}-opt-*|head -1); p=$1; shift
[ -n "$KEEP" ] || rm -f /tmp/rp/$p-*
VERIF_SHRINK_S=${SH:-6} timeout 800 $S $p --keep-going --known /verif/known_findings.jsonl --wall 60 --replay-dir /tmp/rp "$@" > /tmp/$p.log 2>&1; grep "failure in" /tmp/$p.log | sed 's/case [0-9]*//; s/node [0-9]*/node N/; s/[0-9]\{4,\}/NN/g' | cut -c1-150 | sort | uniq -c | sort -rn | head -20; grep "quick:\|^note" /tmp/$p.log
for r in $(ls -S -r /tmp/rp/$p-* 2>/dev/null); do k=$(grep -h "^kind" $r | cut -c1-30)$(grep -m1 -o "Assertion.*\|panic.*\|verif-stage.*" $r | cut -c1-60);  echo "$k|$r"; done | sort -t'|' -k1,1 -u
