#!/usr/bin/env python3
"""Builds libfirm from /repo's working tree plus the harness, content-addressed.

  build.py CFG            CFG in: opt (gcc -O1, asserts on), asan (gcc -O1 + ASan/UBSan)
  build.py --harness NAME CFG   links /verif/src harness binary NAME against libfirm of CFG

Nothing is written below /repo.  Objects are cached by a hash of compiler flags,
the source text and the text of every header, so timestamps never matter."""
import fcntl, glob, hashlib, os, subprocess, sys, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
BACKENDS = "amd64 arm ia32 mips riscv sparc TEMPLATE".split()
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", LC_ALL="C", PERL_HASH_SEED="0")

BASE = ["-std=c99", "-DHAVE_FIRM_REVISION_H", "-w", "-fno-strict-aliasing"]
CFGS = {
    "opt":  dict(cc="gcc", cxx="g++", flags=["-O1", "-g1", "-DDEBUG_libfirm"], ld=[]),
    "asan": dict(cc="gcc", cxx="g++", flags=["-O1", "-g1", "-DDEBUG_libfirm", "-fsanitize=address"],
                 ld=["-fsanitize=address"]),
    "cov":  dict(cc="gcc", cxx="g++", flags=["-O0", "-g1", "-DDEBUG_libfirm", "--coverage"], ld=["--coverage"]),
}
KEEP = 3  # generations of cached libraries kept per configuration


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)
    if r.returncode != 0:
        sys.stdout.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd)[:400], r.stdout.decode(errors="replace")[-6000:]))
        raise SystemExit(2)
    return r.stdout


def atomic_write(path, data):
    tmp = "%s.%d.tmp" % (path, os.getpid())
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)


def files_under(*tops, ext=None):
    res = []
    for top in tops:
        for d, ds, fs in os.walk(top):
            ds[:] = [x for x in ds if x != "__pycache__"]
            for f in fs:
                if ext is None or f.endswith(ext):
                    res.append(os.path.join(d, f))
    return sorted(res)


def generate():
    """Runs the IR and back-end generators; returns the generated tree's directory."""
    inputs = files_under(REPO + "/scripts") + files_under(REPO + "/ir/be/scripts") \
        + [p for b in BACKENDS for p in glob.glob("%s/ir/be/%s/*.pl" % (REPO, b))]
    key = sha(*[x for p in sorted(set(inputs)) for x in (os.path.relpath(p, REPO), read(p))])
    gen = os.path.join(OUT, "gen-" + key)
    if os.path.exists(gen + "/.done"):
        os.utime(gen)
        return gen
    shutil.rmtree(gen, ignore_errors=True)
    jobs = []
    for b in BACKENDS:
        d = "%s/ir/be/%s" % (gen, b)
        os.makedirs(d)
        spec = "%s/ir/be/%s/%s_spec.pl" % (REPO, b, b)
        for g in ("generate_emitter.pl", "generate_regalloc_if.pl", "generate_new_opcodes.pl"):
            jobs.append((["perl", "%s/ir/be/scripts/%s" % (REPO, g), spec, d], None))
    os.makedirs(gen + "/ir/ir")
    os.makedirs(gen + "/include/libfirm")
    for dst in ("include/libfirm/nodes.h", "ir/ir/gen_proj_names.h", "ir/ir/gen_irnode.h",
                "ir/ir/gen_irnode.c", "ir/ir/gen_irio.c"):
        tmpl = "%s/scripts/templates/%s" % (REPO, os.path.basename(dst))
        jobs.append((["python3", REPO + "/scripts/gen_ir.py", REPO + "/scripts/ir_spec.py", tmpl], "%s/%s" % (gen, dst)))

    def one(j):
        cmd, dst = j
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=REPO)
        if r.returncode != 0:
            return "GEN FAILED %s\n%s" % (" ".join(cmd), r.stderr.decode()[-3000:])
        if dst:
            with open(dst, "wb") as f:
                f.write(r.stdout)
        return None
    with ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        print("\n".join(errs))
        raise SystemExit(2)
    with open(gen + "/firm_revision.h", "w") as f:
        f.write('#define libfirm_VERSION_REVISION "verif"\n')
    open(gen + "/.done", "w").close()
    return gen


def sources(gen):
    src = glob.glob(REPO + "/ir/*/*.c")
    for b in BACKENDS:
        src += glob.glob("%s/ir/be/%s/*.c" % (REPO, b))
    return sorted(src) + files_under(gen, ext=".c")


def include_dirs(gen):
    dirs = sorted({os.path.dirname(p) for p in glob.glob(REPO + "/ir/*/*.c")})
    dirs += [REPO + "/ir/be/" + b for b in BACKENDS]
    dirs += [REPO + "/include/libfirm", REPO + "/include/libfirm/adt"]
    dirs += ["%s/ir/be/%s" % (gen, b) for b in BACKENDS] + [gen + "/ir/ir", gen + "/include/libfirm", gen]
    return dirs


def prune(pattern, keep):
    ps = sorted(glob.glob(pattern), key=lambda p: os.stat(p).st_mtime, reverse=True)
    for p in ps[keep:]:
        if os.path.isdir(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            try:
                os.unlink(p)
            except OSError:
                pass


def build_lib(cfg):
    c = CFGS[cfg]
    gen = generate()
    hdrs = files_under(REPO + "/ir", ext=(".h", ".def")) + files_under(REPO + "/include") + files_under(gen, ext=".h")
    rel = lambda p: p.replace(gen, "GEN").replace(REPO, "REPO")
    hkey = sha(*[x for p in hdrs for x in (rel(p), read(p))])
    # some .c files are included by others (hashset.c.h ends in .h); plain .c are units of their own
    flags = BASE + c["flags"]
    fkey = sha(c["cc"], *flags)
    inc = ["-I" + d for d in include_dirs(gen)]
    objdir = os.path.join(OUT, "obj-" + cfg)
    os.makedirs(objdir, exist_ok=True)
    todo, objs = [], []
    for s in sources(gen):
        o = os.path.join(objdir, sha(fkey, hkey, rel(s), read(s)) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            todo.append((s, o))
        else:
            os.utime(o)
    lib = os.path.join(OUT, "libfirm-%s-%s.a" % (cfg, sha(*[os.path.basename(o) for o in objs])))

    def cc(so):
        s, o = so
        tmp = "%s.%d.tmp.o" % (o, os.getpid())
        extra = []
        if c["ld"] == ["--coverage"]:
            tmp = o
        r = subprocess.run([c["cc"]] + flags + extra + inc + ["-c", s, "-o", tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
        if r.returncode != 0:
            return "CC FAILED %s\n%s" % (s, r.stdout.decode(errors="replace")[-3000:])
        if tmp != o:
            os.replace(tmp, o)
        return None
    if todo:
        todo.sort(key=lambda so: -os.path.getsize(so[0]))
        with ThreadPoolExecutor(JOBS) as ex:
            errs = [e for e in ex.map(cc, todo) if e]
        if errs:
            print("\n".join(errs[:5]))
            raise SystemExit(2)
    if not os.path.exists(lib):
        tmp = "%s.%d.tmp" % (lib, os.getpid())
        run(["ar", "-crs", tmp] + objs)
        os.replace(tmp, lib)
    else:
        os.utime(lib)
    prune(os.path.join(OUT, "libfirm-%s-*.a" % cfg), KEEP)
    prune(os.path.join(OUT, "gen-*"), KEEP)
    prune(os.path.join(objdir, "*.o"), len(objs) * 4)
    return lib, gen, hkey


def build_harness(name, cfg):
    """Harness NAME: /verif/src/NAME.srcs lists its C/C++ files (relative to src)."""
    c = CFGS[cfg]
    lib, gen, hkey = build_lib(cfg)
    srcdir = os.path.join(VERIF, "src")
    srcs = read(os.path.join(srcdir, name + ".srcs")).decode().split()
    vh = sha(*[x for p in files_under(srcdir, ext=(".h", ".inc")) for x in (os.path.relpath(p, srcdir), read(p))])
    inc = ["-I" + d for d in include_dirs(gen) + [REPO + "/include", gen + "/include", srcdir]]
    objdir = os.path.join(OUT, "hobj-" + cfg)
    os.makedirs(objdir, exist_ok=True)
    objs, todo = [], []
    san = [f for f in c["flags"] if f.startswith("-fsanitize")]
    for s in srcs:
        p = os.path.join(srcdir, s)
        if s.endswith(".c"):
            cmd = [c["cc"], "-std=gnu99", "-O1", "-g1", "-w", "-DDEBUG_libfirm", "-fno-strict-aliasing"] + san
        else:
            cmd = [c["cxx"], "-std=c++20", "-O1", "-g1", "-Wall", "-Wno-unused-function", "-DDEBUG_libfirm",
                   "-fno-strict-aliasing"] + san
        o = os.path.join(objdir, sha(*cmd, vh, hkey, s, read(p)) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            todo.append((cmd, p, o))
        else:
            os.utime(o)

    def cc(j):
        cmd, p, o = j
        tmp = "%s.%d.tmp.o" % (o, os.getpid())
        r = subprocess.run(cmd + inc + ["-c", p, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
        if r.returncode != 0:
            return "CC FAILED %s\n%s" % (p, r.stdout.decode(errors="replace")[-6000:])
        os.replace(tmp, o)
        w = r.stdout.decode(errors="replace")
        if w and os.environ.get("VERIF_WARN"):
            print(w)
        return None
    if todo:
        with ThreadPoolExecutor(JOBS) as ex:
            errs = [e for e in ex.map(cc, todo) if e]
        if errs:
            print("\n".join(errs))
            raise SystemExit(2)
    exe = os.path.join(OUT, "%s-%s-%s" % (name, cfg, sha(os.path.basename(lib), *[os.path.basename(o) for o in objs])[:16]))
    if not os.path.exists(exe):
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        run([c["cxx"], "-o", tmp] + objs + [lib] + c["ld"] + ["-lm", "-ldl", "-lpthread"])
        os.replace(tmp, exe)
    else:
        os.utime(exe)
    prune(os.path.join(OUT, "%s-%s-*" % (name, cfg)), KEEP)
    prune(os.path.join(objdir, "*.o"), 120)
    return exe


def main():
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if sys.argv[1] == "--harness":
            print(build_harness(sys.argv[2], sys.argv[3]))
        else:
            print(build_lib(sys.argv[1])[0])


if __name__ == "__main__":
    main()
