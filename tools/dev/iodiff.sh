# classes of differences in the replays of P30
for F in /tmp/rp/P30*; do
 python3 - $F <<'P'
import sys,re
t=open(sys.argv[1]).read()
m=re.search(r"line \d+ is\n  (.*)\nbefore and\n  (.*)\nafter",t)
if not m: print(re.search(r"kind=(.*)",t).group(1), t.split('--- message')[1][:200].replace('\n',' ')); sys.exit()
a,b=m.group(1).split(),m.group(2).split()
for i,(x,y) in enumerate(zip(a,b)):
    if x!=y: print(a[0],a[2] if len(a)>2 else '','|',' '.join(a[max(0,i-1):i+2]),'|',' '.join(b[max(0,i-1):i+2])); break
else: print("len",a[-6:],b[-6:])
P
done | sed 's/[et][0-9]\+/N/g' | sort | uniq -c | sort -rn | head -${N:-25}
