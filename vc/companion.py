"""Bounded stand-in and replay search: random programs run on the real interpreter (built from /repo's sources with the
address sanitizer and one heap block per cell) against the executable reading of the specification (comp/ref.py).
Never counted as proof; a difference is a concrete failing input."""
import os, sys, subprocess, tempfile, shutil, glob, time, random, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "comp"))
REPO = os.environ.get("VERIF_REPO", "/repo")
from concurrent.futures import ThreadPoolExecutor
DEFS = ['-DMNML_COMPILER_ID="clang"', '-DMNML_COMPILER_VERSION="18"', '-DMNML_BUILD_TIMESTAMP="0"', '-DMNML_VERSION="0"', "-D_GNU_SOURCE", "-DYYNOERRORRECOVERY", "-DLISP_ENABLE_DEBUG"]
CF = ["clang", "-std=gnu99", "-g", "-O1", "-w", "-fPIC", "-fno-omit-frame-pointer", "-fsanitize=address", "-fsanitize-address-use-after-return=never", "-I" + REPO + "/include", "-I" + REPO]
def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300, **kw)
    if p.returncode: raise RuntimeError("%s: %s" % (" ".join(cmd)[:200], p.stdout.decode("utf8", "replace")[-800:]))
def build(d):
    """d/drv (one malloc per cell), d/drvs (the real slab), d/mods/lib*.so"""
    os.makedirs(d + "/g"); os.makedirs(d + "/mods"); os.makedirs(d + "/o"); os.makedirs(d + "/home/.mnml")
    for f in ("parser.y", "lexer.rl"): shutil.copy(REPO + "/lib/grammar/" + f, d + "/g/" + f)
    sh(["lemon", "-T/usr/share/lemon/lempar.c", "parser.y"], cwd=d + "/g")
    sh(["ragel", "-C", "lexer.rl", "-o", "lexer.c"], cwd=d + "/g")
    core = sorted(glob.glob(REPO + "/lib/core/*.c"))
    jobs = []
    for f in core: jobs.append((f, d + "/o/core_" + os.path.basename(f)[:-2] + ".o"))
    jobs += [(d + "/g/lexer.c", d + "/o/lexer.o"), (HERE + "/comp/drv.c", d + "/o/drv.o"), (HERE + "/comp/dslab.c", d + "/o/dslab.o")]
    for m in ("std", "math", "logic", "io", "sys", "unix"):
        for f in glob.glob(REPO + "/lib/mnml/%s/*.c" % m): jobs.append((f, d + "/o/m_%s_%s.o" % (m, os.path.basename(f)[:-2])))
    def comp(j): sh(CF + DEFS + ["-I" + d + "/g", "-c", j[0], "-o", j[1]])
    with ThreadPoolExecutor(8) as ex: list(ex.map(comp, jobs))
    os_ = [o for f, o in jobs if "/o/m_unix_" in o or o.endswith("m_std_quit.o")]
    red = [a for n in STANDIN for a in ("--redefine-sym", "%s=mk_%s" % (n, n))]
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda o: sh(["objcopy"] + red + [o]), os_))
    base = [o for f, o in jobs if "/o/m_" not in o and not o.endswith("dslab.o")]
    nos = [o for o in base if not o.endswith("core_slab.o")]
    links = [CF + ["-rdynamic", "-o", d + "/drvs"] + base + ["-ldl"], CF + ["-rdynamic", "-o", d + "/drv"] + nos + [d + "/o/dslab.o", "-ldl"]]
    for m in ("std", "math", "logic", "io", "sys", "unix"):
        links.append(["clang", "-shared", "-o", d + "/mods/lib%s.so" % m] + sorted(o for f, o in jobs if "/o/m_%s_" % m in o))
    with ThreadPoolExecutor(8) as ex: list(ex.map(sh, links))

STANDIN = ("pipe fork waitpid unlink socket setsockopt bind listen accept getaddrinfo freeaddrinfo connect dup dup2 close select execve exit kill getpid").split()
def drive(d, exe, cases, timeout):
    """cases: list of byte strings (body of a case) -> list of (status, output) or None"""
    data = b"".join(b"CASE\n" + c for c in cases) + b"END\n"
    env = dict(PATH="/usr/bin:/bin", HOME=d + "/home", MNML_MODULE_PATH=d + "/mods", PWD=d + "/cwd", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16", LANG="C.UTF-8")
    os.makedirs(d + "/cwd", exist_ok=True)
    err = tempfile.TemporaryFile()
    p = subprocess.Popen([d + "/" + exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, env=env, cwd=d + "/cwd", start_new_session=True)
    tm = threading.Timer(timeout, lambda: os.killpg(p.pid, 9)); tm.start()
    try: out, _ = p.communicate(data)
    finally:
        tm.cancel()
        try: os.killpg(p.pid, 9)
        except OSError: pass
    res, i = [None] * len(cases), 0
    while i < len(out):
        j = out.index(b"\n", i)
        k, st, n = (int(x) for x in out[i:j].split())
        res[k] = (st, out[j + 1:j + 1 + n])
        i = j + 1 + n + 1
    err.seek(0)
    return res, err.read()[-60000:]

def mkcase(exprs):
    import ref
    out = []
    for e in exprs:
        t = ref.text(e).encode("latin1")
        out.append(b"E %d\n%s\n" % (len(t), t))
    return b"".join(out)
def expected(exprs, mk=0, g=None):
    import ref
    it = ref.Interp()
    it.mk = mk
    io = g is not None and hasattr(g, "fs")
    if io: it.fs = dict(g.fs); it.fs["main.in"] = g.main; it.chan = [ref.Chan(g.main, "")]
    out = []
    for e in exprs:
        it.out = []
        try: r = it.eval(ref.NIL, e)
        except ref.Exit:
            out.append(b"\1" + b"".join(it.out))
            break
        out.append(b"\1" + b"".join(it.out) + b"\2" + ref.render(r) + b"\3")
    if io:
        for n in g.outs: out.append(b"[%s:%s]" % (n.encode(), it.fs[n].text if n in it.fs else b"-"))
        out.append(b"<0 1 1>")
    return b"".join(out)
def files(g):
    fs = dict(g.fs); fs["main.in"] = g.main
    return b"C\n" + b"".join(b"F %s %d\n%s\n" % (n.encode(), len(f.text), f.text) for n, f in fs.items()) + b"I main.in .\n"

def gencases(prop, seed, n):
    import gen, ref
    rng = random.Random(seed * 1000003 + sum(map(ord, prop)) * 7919)
    out = []
    tries = 0
    while len(out) < n and tries < 4 * n:
        tries += 1
        g = gen.G(random.Random(rng.getrandbits(48)))
        try:
            es = gen.PROFILES[prop](g)
            body = (b"R\n" if getattr(g, "fresh", False) else b"") + (b"M %d\n" % g.mkseed if hasattr(g, "mkseed") else b"") + (files(g) if hasattr(g, "fs") else b"") + mkcase(es)
            if hasattr(g, "fs"): body += b"".join(b"O %s\n" % n.encode() for n in g.outs) + b"Z\n"
            if len(body) > 60000: continue
            try: exp = expected(es, getattr(g, "mkseed", 0), g)
            except AttributeError: continue           # an ill-formed function value or association list
        except (ref.Skip, ref.Fuel, RecursionError): continue
        out.append((body, exp))
    if len(out) < n // 4: raise RuntimeError('%s: the generator yields %d of %d programs' % (prop, len(out), n))
    return out

def judge(prop, body, exp, r, err=b""):
    "a description of the failure, or None"
    if r is None: return None
    st, out = r
    if st in (1009, 1014): return None       # killed / out of time: no verdict
    k = out.rfind(b"CELLS ")
    crash = st != 0 or k < 0
    if prop in ("C02", "C03"):
        if crash: return "the interpreter dies with status %d" % st
        if prop == "C02" and not out[k:].startswith(b"CELLS 0 "): return "cells left after everything is released: %s" % out[k:].decode().strip()
        return None
    if crash: return "the interpreter dies with status %d after %r" % (st, out[-200:])
    if out[:k] != exp: return "output %r, expected %r" % (out[:k][:1500], exp[:1500])
    return None

SELF = dict(C01=("slab", "drvs"), C07=("tree", "drvs"), C18=("closure", "drvs"))
def search(P, seed, tier, budget):
    sys.setrecursionlimit(20000)
    threading.stack_size(256 << 20)
    res = {}
    def go():
        try: res["v"] = search_(P.id, seed, tier, budget)
        except Exception as e: res["e"] = e
    t = threading.Thread(target=go); t.start(); t.join()
    if "e" in res: raise res["e"]
    return res["v"]
def search_(prop, seed, tier, budget):
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="vc-comp-")
    try:
        build(d)
        n = {"quick": 1600, "thorough": 24000}[tier]
        cases, label = [], []
        import gen
        rounds = []
        if prop in gen.PROFILES: rounds.append(("programs", "drv"))
        if prop in SELF: rounds.append((SELF[prop][0], SELF[prop][1]))
        fails, total, distinct, samples = [], 0, 0, []
        for what, exe in rounds:
            if what == "programs":
                def batch(k): 
                    cs = gencases(prop, seed * 100 + k, n // 8)
                    return cs
                # generation is Python-bound: fork one process per batch
                import multiprocessing
                ctx = multiprocessing.get_context("fork")
                with ctx.Pool(8) as pool: bs = pool.starmap(gencases, [(prop, seed * 100 + k, n // 8) for k in range(8)])
                cs = [c for b in bs for c in b]
            else:
                m = {"quick": 240, "thorough": 4000}[tier]
                cs = [(b"T %s %d %d\n" % (what.encode(), seed * 10000 + k, (2 if k % 80 == 0 else k % 12 == 4) if what == "slab" else k % 2), b"ok\n") for k in range(m)]
            parts = [cs[k::8] for k in range(8)]
            with ThreadPoolExecutor(8) as ex: rs = list(ex.map(lambda p: drive(d, exe, [c[0] for c in p], max(30, min(budget - (time.time() - t0), 240))), parts))
            for p, (r, err) in zip(parts, rs):
                for (b, e), x in zip(p, r):
                    if x is None: continue
                    total += 1
                    msg = judge(prop, b, e, x) if what == "programs" else judge("", b, e, x)
                    if msg and len(fails) < 3:
                        fails.append(dict(signature=msg[:120], text="property %s\nfailing input (%s):\n%s\n\n%s\n\nstderr of the run:\n%s\n" % (prop, exe, b.decode("latin1"), msg, asan(d, exe, b))))
            distinct += len({c[0] for c in cs})
            samples += [c[0].decode("latin1")[:300] for c in cs[:3]]
        return dict(failures=fails, summary="%d cases, %d failures" % (total, len(fails)), what="random %s run on the real interpreter and compared with the executable specification" % ", ".join(w for w, _ in rounds), evaluations=total, distinct=distinct,
                    rule="a case counts once per distinct program text; programs the reference cannot evaluate are dropped", samples=samples)
    finally: shutil.rmtree(d, ignore_errors=True)
def asan(d, exe, body):
    _, err = drive(d, exe, [body], 30)
    return err.decode("latin1")[-4000:]
if __name__ == "__main__":
    class Q: pass
    for p in sys.argv[1:]:
        q = Q(); q.id = p
        t = time.time()
        v = search(q, int(os.environ.get("SEED", "1")), os.environ.get("TIER", "quick"), 300)
        print(p, v["summary"], "%.1f s" % (time.time() - t))
        for f in v["failures"]: print(f["text"][:2500])
