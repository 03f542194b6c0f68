#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough [extra engine options]

Builds libfirm from /repo's working tree with the harness that decides PROPERTY
and runs it.  Exit 0: held; exit 1 with VIOLATION lines: broken; else: error."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from catalog import CHECKS

def main():
    prop, tier = sys.argv[1], sys.argv[2]
    c = CHECKS[prop]
    env = dict(os.environ, VERIF_TIER=tier)
    env.setdefault("VERIF_SEED", "1")
    cfg = c.get("cfg", "opt")
    r = subprocess.run([sys.executable, HERE + "/build.py", "--harness", c["harness"], cfg], stdout=subprocess.PIPE, env=env)
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode(errors="replace"))
        return 2
    exe = r.stdout.decode().split()[-1]
    ev = os.path.join(VERIF, "evidence")
    rp = os.path.join(VERIF, "replays")
    os.makedirs(ev, exist_ok=True)
    os.makedirs(rp, exist_ok=True)
    cmd = [exe, prop, "--seed", env["VERIF_SEED"], "--known", VERIF + "/known_findings.jsonl",
           "--evidence", "%s/%s.json" % (ev, prop), "--replay-dir", rp]
    if tier == "thorough":
        cmd += ["--wall", "780"]
    else:
        cmd += ["--wall", str(c.get("wall", 400))]
    env["VERIF_DIR"] = VERIF
    rc = subprocess.run(cmd + sys.argv[3:], env=env).returncode
    return rc if rc in (0, 1) else 2

sys.exit(main())
