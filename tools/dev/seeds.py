"""seeds.py FILE.py...: each file holds one or more calls seed(id=..., property=..., needs=..., breaks=..., edits=[(file, old, new)], demo=..., main=None, flags=None)"""
import sys, os, json, shutil, difflib
D = os.path.dirname(os.path.abspath(__file__)) + "/demo/"
def seed(id, property, needs, breaks, edits, demo, main=None, flags=None):
    S = "/verif/seeded/" + id
    shutil.rmtree(S, ignore_errors=True); os.makedirs(S)
    files, out = {}, ""
    for f, old, new in edits:
        s = files.get(f) or open("/repo/" + f).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        files[f] = s.replace(old, new)
    for f, s in files.items():
        out += "".join(difflib.unified_diff(open("/repo/" + f).read().splitlines(True), s.splitlines(True), "a/" + f, "b/" + f))
    open(S + "/patch.diff", "w").write(out)
    shutil.copy(D + "run.sh", S + "/demo.sh"); shutil.copy(D + "demo.h", S)
    inc = '#include "demo.h"\n'
    if "dual_" in demo: shutil.copy(D + "dual.h", S); inc += '#include "dual.h"\n'
    open(S + "/demo.c", "w").write(inc + demo.strip() + "\n")
    if main: open(S + "/main.c", "w").write(main)
    if flags: open(S + "/flags", "w").write(flags)
    json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, open(S + "/meta.json", "w"), indent=1)
    print(id)
for f in sys.argv[1:]: exec(open(f).read())
