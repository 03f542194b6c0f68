# runh.sh harness prop [args]
cd /verif; T=$(python3 tools/build.py --harness $1 ${CFG:-opt}) || { echo "$T"; exit 1; }; p=$2; shift 2
rm -f /tmp/rp/$p-*
VERIF_SHRINK_S=${SH:-6} timeout 800 $T $p --keep-going --known /verif/known_findings.jsonl --wall ${WALL:-60} --replay-dir /tmp/rp "$@" > /tmp/$p.log 2>&1; grep "failure in" /tmp/$p.log | sed 's/case [0-9]*//; s/node [0-9]*/node N/; s/[0-9]\{4,\}/NN/g' | cut -c1-${W:-150} | sort | uniq -c | sort -rn | head -${N:-20}; grep "^note" /tmp/$p.log | head -3 | cut -c1-250; grep "quick:" /tmp/$p.log
