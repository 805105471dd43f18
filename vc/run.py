#!/usr/bin/env python3-vt
"""Check driver:  run.py PROPERTY [--tier quick|thorough]

1. extracts LLVM IR of /repo's current sources, generates every obligation of the functions the property depends on and
   has the solver discharge them (attempt A: callee contracts and inferred loop invariants; when an obligation of A is not
   discharged, attempt B: static helpers inlined, loops unrolled to a stated bound - labelled bounded);
2. runs the property's bounded stand-ins / concrete replay search on the real code (companion);
3. writes evidence/<id>.json, prints VIOLATION / KNOWN-FINDING lines."""
import sys, os, time, json, pickle, select, traceback, signal, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import units, externs, contracts, theory, flat, treev, treec
from engine import *

OK = ("trivial", "syntactic", "proved")
SPLIT = 6         # obligations per discharge worker

def summary(o): return dict(tag=o.tag, desc=o.desc, status=o.status, time=round(o.time, 3), bounded=list(o.bounded))

import ctypes
LIBC = ctypes.CDLL(None)
class Pool:
    """at most `n` forked workers; each returns one pickled value"""
    def __init__(s, n): s.n, s.live, s.queue = n, {}, []
    def submit(s, prio, fn, done): s.queue.append((prio, len(s.queue), fn, done)); s.queue.sort(key=lambda t: (-t[0], t[1]))
    def start(s):
        while s.queue and len(s.live) < s.n:
            _, _, fn, done = s.queue.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                LIBC.prctl(1, 9)       # die with the parent
                try: v = fn()
                except BaseException: v = ("crash", traceback.format_exc()[-1500:])
                data = pickle.dumps(v)
                with os.fdopen(w, "wb") as f: f.write(data)
                os._exit(0)
            os.close(w)
            s.live[r] = (pid, done, bytearray())
    def run(s, deadline):
        s.deadline = deadline
        s.start()
        while s.live:
            deadline = s.deadline
            rs, _, _ = select.select(list(s.live), [], [], max(0.1, min(5, deadline - time.time())))
            if time.time() > deadline:
                live, s.live = s.live, {}
                for fd, (pid, done, buf) in live.items():
                    try: os.kill(pid, signal.SIGKILL)
                    except OSError: pass
                    os.waitpid(pid, 0); os.close(fd); done(("timeout", "time budget used up"))
                while s.queue:           # what these callbacks submit is not run either
                    q, s.queue = s.queue, []
                    for _, _, fn, done in q: done(("timeout", "time budget used up"))
                return
            for fd in rs:
                pid, done, buf = s.live[fd]
                b = os.read(fd, 1 << 20)
                if b: buf += b; continue
                os.close(fd); os.waitpid(pid, 0); del s.live[fd]
                try: v = pickle.loads(bytes(buf))
                except Exception: v = ("crash", "worker died")
                done(v)
            s.start()

def attempt(prog, u, mode, want, deadline):
    """worker: generate and discharge.  Obligations are discharged in forked children, SPLIT at a time"""
    t = time.time()
    if isinstance(u.contract, flat.FContract): return attempt_flat(prog, u, mode, want, deadline)
    if isinstance(u.contract, treec.TContract): return attempt_tree(prog, u, mode, want, deadline)
    statics = set()
    if mode == "B":
        statics = {n for n, c in contracts.C.items() if not c.special and n in prog and prog[n].internal and not prog[n].inline_hdr}
    e = Engine(prog, contracts.C, externs.EXT, dict(force_unroll=mode == "B", no_contract=statics - {u.fn.name}))
    try: obls = verify(e, u.fn, u.contract)
    except Unsupported as x: return ("unsupported", dict(reason=str(x), gen=time.time() - t))
    except RecursionError as x: return ("unsupported", dict(reason="recursion limit in the generator", gen=time.time() - t))
    gen = time.time() - t
    # vacuity: some exit must be reachable
    vac = "no exit" if not e.exits else None
    if e.exits:
        vac = "unreachable"
        for x, _ in e.exits[:6]:
            b = list(x.pc) + x.vfacts(e.refs_in(list(x.pc), x))
            r, _s = check(b + unfold(b, u.contract.groups, 1), 3000)
            if r != unsat: vac = None; break
    return finish(e, obls, want, deadline, t, gen, vac, discharge, sorted(e.used_contracts))

def attempt_flat(prog, u, mode, want, deadline):
    t = time.time()
    if mode == "B": return ("unsupported", dict(reason="no second attempt", gen=0))
    try: e, obls = flat.verify(prog, u.fn, u.contract)
    except Unsupported as x: return ("unsupported", dict(reason=str(x), gen=time.time() - t))
    except (KeyError, IndexError, AttributeError, Z3Exception) as x: return ("unsupported", dict(reason="generator: %r" % x, gen=time.time() - t))
    vac = None if any(e.sat(x) for x in e.exits) else "no exit"
    return finish(e, obls, want, deadline, t, time.time() - t, vac, lambda e, o: flat.discharge(o, 60000), [])

def attempt_tree(prog, u, mode, want, deadline):
    t = time.time()
    if mode == "B": return ("unsupported", dict(reason="no second attempt", gen=0))
    e = None
    try:
        e = treev.Verifier(prog, u.fn, treec.SPECS[u.name]())
        e.verify(deadline=deadline - time.time())
    except (Unsupported, treev.Unsupported) as x: return ("unsupported", dict(reason=str(x), gen=time.time() - t))
    except (KeyError, IndexError, AttributeError, TypeError, AssertionError, ValueError, Z3Exception, RecursionError) as x: return ("unsupported", dict(reason="generator: %r" % x, gen=time.time() - t))
    finally:
        import shutil
        if e is not None and getattr(e, "claims", None): shutil.rmtree(e.claims, ignore_errors=True)
    e.invlog = [str(x) for x in e.invlog.values()]
    failed = any(o.status not in OK for o in e.obls)
    return finish(e, e.obls, want, deadline, t, time.time() - t, None if e.exits or failed else "no exit", lambda e, o: None, sorted(e.used))

def finish(e, obls, want, deadline, t, gen, vac, discharge, used):
    todo = [k for k, o in enumerate(obls) if o.status not in OK and want(o)]
    skipped = sum(1 for o in obls if o.status not in OK and not want(o))
    pool = Pool(min(8, max(1, len(todo) // SPLIT)))
    def part(ks):
        def fn():
            out = []
            for k in ks:
                o = obls[k]
                discharge(e, o)
                m = None
                if o.status == "failed" and o.model is not None:
                    try: m = str(o.model)[:4000]
                    except Exception: m = None
                out.append((k, o.status, o.time, m))
            return ("ok", out)
        return fn
    models = {}
    st0 = dict(theory.STATS)
    def done(v):
        if v[0] != "ok": return
        for k, s_, tm, m in v[1]:
            obls[k].status, obls[k].time = s_, tm
            if m: models[k] = m
    nw = max(1, min(8, len(todo) // SPLIT))
    for k in range(nw):
        ks = todo[k::nw]
        if ks: pool.submit(0, part(ks), done)
    pool.run(deadline)
    res = dict(gen=gen, wall=time.time() - t, solver=sum(o.time for o in obls), n=len(obls) - skipped,
               trivial=sum(1 for o in obls if o.status in ("trivial", "syntactic")), proved=sum(1 for o in obls if o.status == "proved"),
               bounded=sorted(e.boundedflags), inv=e.invlog, assumed=sorted(e.assumed), used=used, inlined=sorted(e.inlined), vac=vac, exits=len(e.exits),
               bad=[dict(summary(obls[k]), model=models.get(k), goal=str(obls[k].goal)[:1500]) for k in todo if obls[k].status not in OK])
    return ("ok", res)

def load_findings():
    p = os.path.join(ROOT, "KNOWN_FINDINGS.json")
    return json.load(open(p)) if os.path.exists(p) else dict(findings=[])

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    budget = 840 if tier == "quick" else 860
    deadline = t0 + budget
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import props
    P = props.PROPS[prop]
    fails, notes, results = [], [], {}
    prog, us = {}, []
    try:
        prog, us, notes, regs = units.build()
    except Exception as x:
        notes.append("extraction failed: %s" % str(x)[-400:]); regs = []
    sel = [u for u in us if P.selects(u)]
    def want(u): return lambda o: P.wants(u, o.tag)
    pool = Pool(8)
    todoB = []
    def launch(u, mode):
        def done(v):
            results.setdefault(u.name, {})[mode] = v
            if mode == "A" and (v[0] != "ok" or v[1]["bad"] or v[1]["vac"]): launch(u, "B")
        pool.submit(u.contract.weight if mode == "A" else 1000, lambda: attempt(prog, u, mode, want(u), deadline - 20), done)
    for u in sel: launch(u, "A")
    comp = None
    if P.companion:
        def compfn():
            import companion
            return ("ok", companion.search(P, seed, tier, max(60, deadline - time.time() - 120)))
        def cdone(v):
            nonlocal comp
            comp = v
            # a failing input settles the verdict: do not spend the whole budget on the remaining obligations
            if v[0] == "ok" and v[1].get("failures"): pool.deadline = min(pool.deadline, time.time() + (45 if tier == "quick" else 300))
        pool.submit(5000, compfn, cdone)
    pool.run(deadline)
    # ------------------------------------------------------------ verdict
    viol = []
    ev_units, undecided, boundedfns = [], [], []
    for u in sel:
        r = results.get(u.name, {})
        a, b = r.get("A"), r.get("B")
        row = dict(function=u.fn.name, unit=u.name, file=os.path.relpath(u.file, units.ir.REPO), contract=[])
        if a and a[0] == "ok" and not a[1]["bad"] and not a[1]["vac"]:
            row.update(status="proved" if not a[1]["bounded"] else "bounded", **{k: a[1][k] for k in ("n", "trivial", "proved", "gen", "solver", "bounded", "inv", "assumed", "inlined", "used")})
            if a[1]["bounded"]: boundedfns.append(u.name)
        else:
            fa = a[1]["bad"] if a and a[0] == "ok" else []
            if b and b[0] == "ok" and not b[1]["bad"] and not b[1]["vac"]:
                row.update(status="bounded", note="proved with loops unrolled / helpers inlined only: %s" % "; ".join(b[1]["bounded"]), n=b[1]["n"], trivial=b[1]["trivial"], proved=b[1]["proved"],
                           unproved_modular=[x["desc"] for x in fa][:5], **{k: b[1][k] for k in ("gen", "solver", "bounded", "inv", "assumed", "inlined", "used")})
                boundedfns.append(u.name)
            else:
                src = None
                for x in (b, a):
                    if x and x[0] == "ok" and any(o["status"] == "failed" for o in x[1]["bad"]): src = x[1]; break
                vac = [x[1]["vac"] for x in (a, b) if x and x[0] == "ok" and x[1]["vac"]]
                if src is not None and (a and a[0] == "ok" and (fa or a[1]["vac"])):
                    row.update(status="failed", failed=[dict(tag=o["tag"], desc=o["desc"], status=o["status"]) for o in src["bad"]][:20])
                    viol.append((u, src["bad"]))
                else:
                    why = "; ".join("%s: %s" % (m, (x[1].get("reason") if isinstance(x[1], dict) else x[1]) or ("undischarged: %s" % [o["desc"] for o in x[1].get("bad", [])][:3] + (" vacuous: %s" % x[1]["vac"] if x[1].get("vac") else "")) if x[0] in ("ok", "unsupported") else x[0] + " " + str(x[1])[-300:]) for m, x in (("A", a), ("B", b)) if x)
                    row.update(status="undecided", why=why[:800])
                    undecided.append(u.name)
        ev_units.append(row)
    out = os.path.join(ROOT, "out"); os.makedirs(out, exist_ok=True)
    lines, rc = [], 0
    concrete = []
    if comp is not None and comp[0] == "ok": concrete = comp[1].get("failures", [])
    elif comp is not None: notes.append("companion: %s %s" % (comp[0], str(comp[1])[-600:]))
    known = [f for f in load_findings().get("findings", []) if f.get("property") == prop]
    newc = []
    for f in concrete:
        k = [q for q in known if q.get("signature") == f.get("signature")]
        if not k: newc.append(f)
    for q in known:
        lines.append("KNOWN-FINDING: property=%s %s" % (prop, q["what"]))
    for k, f in enumerate(newc[:5]):
        rp = os.path.join(out, "%s-replay-%d.txt" % (prop, k))
        open(rp, "w").write(f["text"])
        lines.append("VIOLATION property=%s replay=%s" % (prop, rp)); rc = 1
    if viol:
        txt = []
        for u, bad in viol:
            txt.append("function %s (%s), contract of %s\n" % (u.fn.name, os.path.relpath(u.file, units.ir.REPO), u.name))
            for o in bad: txt.append("  %s obligation [%s] %s\n    goal: %s\n    solver: %s\n" % (o["status"], o["tag"], o["desc"], o["goal"], (o.get("model") or "no model")[:3000]))
        rp = os.path.join(out, "%s-obligations.txt" % prop)
        open(rp, "w").write("\n".join(txt))
        if not newc:
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        rc = 1
    evidence(prop, P, tier, seed, ev_units, undecided, boundedfns, comp, notes, lines, rc, time.time() - t0, regs)
    for l in lines: print(l)
    print("property %s: %d functions, %d obligations, %d failed, undecided %s, bounded %s, companion %s; %.0f s" % (prop, len(sel), sum(r.get("n", 0) for r in ev_units), len(viol), undecided, boundedfns, (comp[1].get("summary") if comp and comp[0] == "ok" else comp), time.time() - t0))
    sys.exit(rc)

def evidence(prop, P, tier, seed, rows, undecided, boundedfns, comp, notes, lines, rc, wall, regs):
    import props
    d = props.evidence(prop, P, tier, seed, rows, undecided, boundedfns, comp, notes, lines, rc, wall)
    p = os.path.join(ROOT, "evidence"); os.makedirs(p, exist_ok=True)
    json.dump(d, open(os.path.join(p, prop + ".json"), "w"), indent=1)

if __name__ == "__main__": main()
