"""Verifier for the pointer code of tree.c (C07): symbolic execution of the LLVM IR over a separation-style heap.

The heap is a set of explicit cells plus
  * subtree predicates ("blobs"): an unknown well-formed subtree of unknown size, known by its in-order sequence (an atom), its black
    height, the colour of its root and the pointer its root's parent field holds;
  * context predicates: everything above a subtree up to the root (or up to an explicit node): the in-order sequences to the left and to
    the right of the hole, the black height the hole must have, whether the node above the hole is red.
A predicate is unfolded by one node when a cell of it is accessed (all cases explored), and folded back at loop heads and exits.  Loop
invariants are instances of one template (see `head`), chosen by discarding candidates that are not established or not preserved; the
obligations are discharged at the fixpoint, for any number of iterations and any tree.  Keys are integers (the order memcmp puts on the
16 bytes of a name is a total order); in-order sequences are compared as lists of atoms, order and heights go to z3."""
import os, sys, time, pickle, select, signal, re, hashlib, tempfile, shutil
import ctypes
import z3
from z3 import Int, Bool, And, Or, Not, Implies, BoolVal, IntVal, If
import ir
from ir import loops, succs

T_NIL, T_TRUE, T_PAIR, T_SYMBOL = 1, 2, 5, 6
REFS, TYPE, FLAGS, CAR, CDR = 0, 4, 6, 16, 24
COLOR, WEAK = 2, 4
BIG = 1000
LIBC = ctypes.CDLL(None)
class Unsupported(Exception): pass
class Dead(Exception): pass          # infeasible path
class End(Exception): pass           # a path that ends at a loop head
class Drop(Exception):               # a candidate of an invariant has to go
    def __init__(s, key, cand): s.key, s.cand = key, cand

class TObl:
    def __init__(s, tag, desc, status, info=""): s.tag, s.desc, s.status, s.time, s.model, s.goal, s.where = tag, desc, status, 0.0, None, info, ""
class Frame:
    def __init__(s, fn): s.fn, s.regs, s.block, s.at, s.heads, s.keys = fn, {}, None, 0, {}, []

class Blob:                          # an unknown subtree
    def __init__(s, n, par, mode, weak=1, refs=1):
        s.n, s.par, s.weak, s.refs, s.loose = n, par, weak, refs, False
        s.ne, s.lo, s.hi, s.bh, s.red = Bool("ne_" + n), Int("lo_" + n), Int("hi_" + n), Int("bh_" + n), Bool("red_" + n)
    def facts(s): return [Implies(s.ne, s.lo <= s.hi), s.bh >= 0, Implies(Not(s.ne), And(s.bh == 0, Not(s.red)))]
class Seq:                           # an unknown sequence of entries
    def __init__(s, n): s.n, s.ne, s.lo, s.hi = n, Bool("ne_" + n), Int("lo_" + n), Int("hi_" + n)
    def facts(s): return [Implies(s.ne, s.lo <= s.hi)]
class Ctx:                           # everything above a subtree, up to `top`
    def __init__(s, n, occ, mode):
        s.n, s.occ, s.mode, s.topblack = n, occ, mode, False
        s.L, s.R = Seq("L" + n), Seq("R" + n)
        s.hb, s.pred = Int("hb_" + n), Bool("pred_" + n)
        s.top = None                 # the explicit node the segment hangs under; None: the hole of the empty segment is the root
        s.np, s.rootweak = None, 1
        s.topred, s.occred = None, None    # under an explicit node: the colour of the top of the segment; of the occupant
        s.topcond, s.toph = BoolVal(True), None    # what holds of the occupant when the segment is empty and the occupant is the root; the height below `top`

class Run:
    def __init__(s, V, dec):
        s.V, s.dec, s.k, s.new, s.m = V, dec, 0, [], len(dec)
        s.heap, s.sub, s.exp, s.pc, s.n, s.frames, s.steps = {}, {}, {}, [], 0, [], 0
        s.blobs, s.ctxs, s.dead, s.events, s.gone, s.empty, s.treeroot, s.nonempty = {}, {}, set(), [], set(), set(), None, None
        s.orig, s.expected, s.args, s.cur = None, None, {}, None
        s.solver_n = 0
    # ---- choices and logic
    def choose(s, n):
        if s.k < len(s.dec): c = s.dec[s.k]
        else: c = 0; s.dec.append(0); s.new.append((s.k, n))
        s.k += 1
        return c
    def fork(s, alts):
        """alts: [(constraint, value)]"""
        c = s.choose(len(alts))
        s.assume(alts[c][0])
        return alts[c][1]
    def facts(s, order=True):
        if not order:
            fs = [f for f in s.pc if not orderly(f)]
            for n, b in s.blobs.items(): fs += memo(("fb", n), b.facts)[1:]
            fs += [memo(("fh", n), lambda: c.hb >= 0) for n, c in s.ctxs.items()]
            for a, parts in s.exp.items():
                x = s.atom(a)
                for p in parts:
                    fs.append(memo(("n", a, p), lambda: Implies(s.atom(p).ne, x.ne)) if p[0] != "e" else x.ne)
            return fs
        fs = list(s.pc)
        for n, b in s.blobs.items(): fs += memo(("fb", n), b.facts)
        for n, c in s.ctxs.items(): fs += memo(("fc", n), lambda: c.L.facts() + c.R.facts() + [c.hb >= 0])
        for w in (s.orig, s.expected):
            if w is not None:
                e = s.expand(w)
                fs += s.sorted_facts(e)
        for a, parts in s.exp.items():
            x = s.atom(a)
            for p in parts:
                ne, lo, hi = s.bounds(p)
                fs.append(memo(("o", a, p[:3]), lambda: Implies(ne, And(x.ne, x.lo <= lo, hi <= x.hi)), hi))
        return fs
    def sorted_facts(s, e):
        fs = []
        for i in range(len(e)):
            for j in range(i + 1, len(e)):
                if e[i][0] != "e" and e[j][0] != "e":
                    fs.append(memo(("s", e[i], e[j]), lambda: (lambda a, b: Implies(And(a[0], b[0]), a[2] < b[1]))(s.bounds(e[i]), s.bounds(e[j]))))
                    continue
                a, b = s.bounds(e[i]), s.bounds(e[j])
                fs.append(memo(("s", e[i][:3], e[j][:3]), lambda: Implies(And(a[0], b[0]), a[2] < b[1]), a[2], b[1]))
        return fs
    def bounds(s, p):
        if p[0] == "e": k = s.heap[p[2]]["key"]; return BoolVal(True), k, k
        x = s.atom(p)
        return x.ne, x.lo, x.hi
    def atom(s, p): return s.blobs[p[1]] if p[0] == "b" else getattr(s.ctxs[p[1]], p[0])
    def expand(s, w):
        out = []
        for p in w:
            if p in s.exp: out += s.expand(s.exp[p])
            else: out.append(p)
        return out
    def check(s, *fs):
        s.solver_n += 1
        ck = (tuple(s.dec[:s.k]), s.solver_n)
        if ck in s.V.cache: return s.V.cache[ck]
        so = z3.Solver(); so.set("timeout", 10000)
        so.add(*s.facts(any(orderly(f) for f in fs)), *fs)
        s.V.queries += 1
        r = s.V.cache[ck] = so.check()
        return r
    def assume(s, f):
        if f is True: return
        s.pc.append(f)
        if s.check(f) == z3.unsat: raise Dead()
    def signature(s, key):
        """what the rest of the path can depend on, with objects and atoms numbered in the order they are met"""
        num, names, todo, out = {}, {}, [], []
        def ref(v):
            v = s.canon(v)
            if not isinstance(v, tuple): return repr(v)
            if v[0] not in ("p", "b", "cp", "cq", "crt", "root", "cw", "cwn", "e", "L", "R"): return repr(v) if v[0] != "junk" else "junk"
            k = ("p" if v[0] == "p" else "b" if v[0] == "b" else "c", v[1])
            if v[0] == "e": return "e(%s,%s,%s)" % (ref(("p", v[1], 0)), ref(("p", v[2], 0)), ref(v[3]))
            if k not in num: num[k] = len(num); todo.append(k)
            return "%s#%d%s" % (v[0], num[k], "+%d" % v[2] if len(v) > 2 and v[2] else "")
        forms = []
        def form(f): forms.append(f); return "f%d" % len(forms)
        for fi, x in enumerate(s.frames):
            out.append("%s %s %s %s" % (x.fn.name, x.block, x.at if x is not s.frames[-1] else "", sorted(str(h) for h in x.heads)))
            lv = s.live(fi, x.block if fi == len(s.frames) - 1 else None)
            if fi == len(s.frames) - 1: lv = lv | {i.dst for i in x.fn.blocks[x.block] if i.op == "phi"}
            for r in sorted(lv):
                if r in x.regs: out.append("%s=%s" % (r, ref(x.regs[r])))
        for f in ("treeroot", "np", "kvarg", "varg"):
            if getattr(s, f, None) is not None: out.append("%s=%s" % (f, ref(getattr(s, f))))
        for k, o in sorted(s.args.items()): out.append("%s=%s" % (k, ref(("p", o, 0))))
        for w in (s.orig, s.expected): out.append("-" if w is None else " ".join(ref(p) for p in s.expand(w)))
        while todo:
            k = todo.pop(0)
            if k[0] == "p":
                h = s.heap[k[1]]
                out.append("%d: %s%s" % (num[k], "dead " if k[1] in s.dead else "", " ".join("%s:%s" % (f, ref(h[f]) if f in (CAR, CDR) or f == FLAGS and isinstance(h[f], tuple) else form(h[f]) if z3.is_expr(h[f]) else h[f]) for f in sorted(h, key=str))))
                if "key" in h: names[str(h["key"])] = "key#%d" % num[k]
            elif k[0] == "b":
                b = s.blobs[k[1]]
                out.append("%d: %s %s %s %s" % (num[k], ref(b.par), ref(b.weak) if isinstance(b.weak, tuple) else b.weak, b.refs, b.loose))
                for a in ("ne_", "lo_", "hi_", "bh_", "red_"): names[a + k[1]] = "%sb#%d" % (a, num[k])
            else:
                c = s.ctxs[k[1]]
                out.append("%d: %s %s %s %s %s %s %s %s" % (num[k], c.mode, c.topblack, c.rootweak, ref(c.occ), ref(c.top) if c.top is not None else "-", ref(c.np) if c.np is not None else "-", k[1] in s.empty, [(x, (x, k[1]) in s.sub) for x in ("cp", "root", "crt")]))
                for a in ("hb_", "pred_", "th_", "tr_"): names[a + k[1]] = "%sc#%d" % (a, num[k])
                for a in ("L", "R"):
                    for x in ("ne_", "lo_", "hi_"): names[x + a + k[1]] = "%s%sc#%d" % (x, a, num[k])
                for f in (c.topcond, c.toph, c.topred, c.occred):
                    if z3.is_expr(f): forms.append(f)
                    else: out.append(repr(f))
        keep = {}
        def add(p):
            if p in s.exp: keep[p] = s.exp[p]
            for q in s.exp.get(p, []): add(q)
        for w in (s.orig, s.expected):
            for p in w or []: add(p)
        s.exp = keep
        s.blobs = {n: b for n, b in s.blobs.items() if ("b", n) in num or ("b", n) in keep}
        for i, (kind, n) in enumerate(a for a in keep if a[0] == "b"):
            for a in ("ne_", "lo_", "hi_", "bh_", "red_"): names.setdefault(a + n, "%sk#%d" % (a, i))
        # only the facts that speak of these alone are kept: what was known of parts of the tree that are folded away is given up
        known = set(names)
        for f in forms: known |= consts(f)
        s.pc = [f for f in s.pc if consts(f) <= known]
        def text(f): return re.sub(r"[A-Za-z_][A-Za-z_0-9]*", lambda m: names.get(m.group(0), m.group(0)), f.sexpr())
        out += ["F " + text(f) for f in forms] + sorted("P " + text(f) for f in s.pc)
        left = []
        for o, h in s.heap.items():
            if ("p", o) in num or o in s.gone: continue
            if h[REFS] == BIG and (h.get("infold") or "kv" not in h and h.get("credit", 1) == 1): continue
            left.append("%s %s %s %s %s" % (h[TYPE], h[REFS], h.get("infold"), h.get("credit"), o in s.dead))
        out += sorted(left)
        return "\n".join(out)
    def where(s): return "%s %s" % (s.frames[-1].fn.name, s.frames[-1].block) if s.frames else "exit"
    def norm(s, w): return [p for p in w if p[0] == "e" or not s.proves(Not(s.atom(p).ne))]
    def eqseq(s, a, b): return a == b or s.norm(a) == s.norm(b)
    def feasible(s): return s.check(z3.Int("K") == 0) != z3.unsat
    def proves(s, f): return s.check(Not(f)) == z3.unsat
    # ---- objects and pointers
    def fresh(s, p): s.n += 1; return "%s%d" % (p, s.n)
    def obj(s, typ, refs, **k):
        o = s.fresh("o")
        s.heap[o] = dict({REFS: refs, TYPE: typ, FLAGS: 0}, **k)
        return o
    def nil(s, refs=1): return ("p", s.obj(T_NIL, refs), 0)
    def kv(s):
        key = s.fresh("K")
        ko = s.obj(T_SYMBOL, BIG, key=Int(key))
        vo = s.obj(None, BIG)
        o = s.obj(T_PAIR, BIG)
        s.heap[o][CAR] = ("p", ko, 0); s.heap[o][CDR] = ("p", vo, 0)
        s.heap[o]["kv"] = True
        return ("p", o, 0)
    def node(s, kv, left, par, right, red, weak, refs=1):
        w = s.wk(weak)
        c2 = s.obj(T_PAIR, 1); s.heap[c2].update({CAR: par, CDR: right, FLAGS: w if isinstance(w, tuple) else WEAK if w else 0})
        c1 = s.obj(T_PAIR, 1); s.heap[c1].update({CAR: left, CDR: ("p", c2, 0)})
        c0 = s.obj(T_PAIR, refs); s.heap[c0].update({CAR: kv, CDR: ("p", c1, 0), FLAGS: COLOR if red else 0})
        return ("p", c0, 0)
    def canon(s, v):
        while isinstance(v, tuple) and v[:2] in s.sub:
            w = s.sub[v[:2]]
            v = w if len(v) < 3 or v[2] == 0 else (w[0], w[1], v[2])
        return v
    def entry(s, kvp):
        kvp = s.canon(kvp)
        if kvp[0] != "p" or kvp[2] != 0 or "kv" not in s.heap.get(kvp[1], {}): raise Unsupported("a node without a binding")
        h = s.heap[kvp[1]]
        k = s.canon(h[CAR])
        if k[0] != "p" or "key" not in s.heap[k[1]]: raise Unsupported("a binding without a name")
        return ("e", kvp[1], k[1], s.canon(h[CDR]))
    def newblob(s, par, mode, weak=1, refs=1):
        n = s.fresh("B"); s.blobs[n] = Blob(n, par, mode, weak, refs)
        return ("b", n)
    def unfold_blob(s, p):
        b = s.blobs[p[1]]
        mode = s.V.mode_strict
        kind = s.fork([(Not(b.ne), 0), (And(b.ne, Not(b.red)), 1), (And(b.ne, b.red), 2)])
        if kind == 0:
            s.sub[p] = s.nil(b.refs); s.exp[p] = []
            return
        me = s.node(None, None, b.par, None, kind == 2, b.weak, b.refs)
        s.sub[p] = me
        l, r = s.newblob(me, mode), s.newblob(me, mode)
        kv = s.kv()
        c1 = s.heap[me[1]][CDR][1]; c2 = s.heap[c1][CDR][1]
        s.heap[me[1]][CAR] = kv; s.heap[c1][CAR] = l; s.heap[c2][CDR] = r
        s.exp[p] = [l, s.entry(kv), r]
        L, R = s.blobs[l[1]], s.blobs[r[1]]
        if s.V.rb:
            s.assume(And(L.bh == R.bh, b.bh == L.bh + (0 if kind == 2 else 1)))
            if kind == 2 and not b.loose: s.assume(And(Not(L.red), Not(R.red)))
    def unfold_ctx(s, n):
        """the node above the hole becomes explicit (or the segment is empty)"""
        c = s.ctxs[n]
        k = s.choose(5)              # empty, or hole left/right under black/red
        if k == 0:
            s.assume(And(Not(c.L.ne), Not(c.R.ne), *([Not(c.pred)] if s.V.rb and c.top is None or s.V.rb and c.topblack else []), *([c.topcond] if s.V.rb else []), *([c.hb == c.toph] if c.top is not None and s.V.rb else [])))
            s.sub[("cp", n)] = c.top if c.top is not None else c.np
            s.sub[("cq", n)] = c.top if c.top is not None else ("junk", n)
            if c.top is None: s.sub[("root", n)] = c.occ
            else: s.sub[("crt", n)] = c.occ
            s.exp[("L", n)] = []; s.exp[("R", n)] = []
            s.empty.add(n)
            return
        left, red = k in (1, 2), k in (2, 4)
        if s.V.rb: s.assume(c.pred if red else Not(c.pred))
        m = s.fresh("C"); d = s.ctxs[m] = Ctx(m, None, c.mode)
        d.top, d.np, d.rootweak, d.toph, d.topblack = c.top, c.np, c.rootweak, c.toph, c.topblack
        kv = s.kv()
        p = s.node(kv, None, ("cp", m), None, red, ("cw", m))
        d.occ = p
        sib = s.newblob(p, c.mode)
        c1 = s.heap[p[1]][CDR][1]; c2 = s.heap[c1][CDR][1]
        s.heap[c1][CAR], s.heap[c2][CDR] = (c.occ, sib) if left else (sib, c.occ)
        s.sub[("cp", n)] = s.sub[("cq", n)] = p
        s.sub[("root", n)] = ("root", m)
        s.sub[("crt", n)] = ("crt", m)
        e = s.entry(kv)
        if left: s.exp[("L", n)] = [("L", m)]; s.exp[("R", n)] = [e, sib, ("R", m)]
        else: s.exp[("L", n)] = [("L", m), sib, e]; s.exp[("R", n)] = [("R", m)]
        d.topcond = BoolVal(not red) if c.top is None else c.topred == BoolVal(red)      # the root is black
        d.topred, d.occred = c.topred, BoolVal(red)
        if s.V.rb:
            S = s.blobs[sib[1]]
            s.pc += [S.bh == c.hb, d.hb == c.hb + (0 if red else 1)]
            if red: s.pc += [Not(S.red), Not(d.pred)]
        s.assume(BoolVal(True))
    def unfold_root(s, n):
        """the root above the hole of a root segment becomes explicit"""
        c = s.ctxs[n]
        k = s.choose(3)
        if k == 0:
            s.assume(And(Not(c.L.ne), Not(c.R.ne), *([Not(c.pred), c.topcond] if s.V.rb else [])))
            s.sub[("cp", n)] = c.np; s.sub[("cq", n)] = ("junk", n)
            s.sub[("root", n)] = c.occ
            s.exp[("L", n)] = []; s.exp[("R", n)] = []
            s.empty.add(n)
            return
        left = k == 1
        m = s.fresh("C"); d = s.ctxs[m] = Ctx(m, c.occ, c.mode)
        d.np, d.rootweak, d.topblack = c.np, 1, True
        d.toph, d.topred, d.occred = Int("th_" + m), Bool("tr_" + m), c.occred
        d.topcond = d.topred == d.occred
        kv = s.kv()
        p = s.node(kv, None, c.np, None, False, c.rootweak)
        d.top = p
        sib = s.newblob(p, c.mode)
        c1 = s.heap[p[1]][CDR][1]; c2 = s.heap[c1][CDR][1]
        s.heap[c1][CAR], s.heap[c2][CDR] = (("crt", m), sib) if left else (sib, ("crt", m))
        s.sub[("root", n)] = p
        s.sub[("cp", n)] = ("cp", m); s.sub[("cq", n)] = ("cp", m); s.sub[("cwn", n)] = ("cwn", m)
        e = s.entry(kv)
        if left: s.exp[("L", n)] = [("L", m)]; s.exp[("R", n)] = [("R", m), e, sib]
        else: s.exp[("L", n)] = [sib, e, ("L", m)]; s.exp[("R", n)] = [("R", m)]
        if s.V.rb: s.pc += [s.blobs[sib[1]].bh == d.toph, d.hb == c.hb, d.pred == c.pred]
        s.assume(BoolVal(True))
    def wk(s, w):
        """a weak flag that depends on whether a hole is at the root"""
        while isinstance(w, tuple):
            n = w[1]
            while ("cwn", n) in s.sub: n = s.sub[("cwn", n)][1]
            c = s.ctxs[n]
            if c.rootweak or c.top is not None: return 1
            if n in s.empty: return 0
            if ("cp", n) in s.sub: return 1
            return ("cw", n)
        return w
    def deref(s, v):
        while True:
            v = s.canon(v)
            if not isinstance(v, tuple): raise Unsupported("access through %r" % (v,))
            if v[0] == "p":
                if v[1] in s.gone: raise Unsupported("stale pointer")
                if v[1] in s.dead: s.obl("safe", "access to a released cell", False)
                return v
            off = v[2] if len(v) > 2 else 0
            if v[1] in s.gone: raise Unsupported("stale pointer")
            if v[0] == "b": s.unfold_blob(v[:2])
            elif v[0] in ("cp", "cq", "crt"): s.unfold_ctx(v[1])
            elif v[0] == "root": s.unfold_root(v[1])
            else: raise Unsupported("access through %r" % (v,))
            s.unf = getattr(s, "unf", 0) + 1
            if s.unf > 60: raise Unsupported("unfolding without end")
    def ld(s, p, off, n=8):
        p = s.deref(p)
        h = s.heap.get(p[1])
        if h is None: raise Unsupported("access to %s" % (p[1],))
        o = p[2] + off
        if o not in h: s.obl("safe", "the accessed field is not part of a cell of this kind", False); raise Unsupported("field %d of %r" % (o, h.get(TYPE)))
        v = h[o]
        if o == FLAGS: v = s.flags(p[1])
        return s.canon(v)
    def flags(s, o):
        v = s.heap[o][FLAGS]
        if isinstance(v, tuple):     # weak unless the root
            w = s.wk(v)
            while isinstance(w, tuple): s.unfold_ctx(w[1]); w = s.wk(w)
            v = s.heap[o][FLAGS] = WEAK if w else 0
        return v
    def same(s, a, b):
        """pointer equality"""
        for _ in range(40):
            a, b = s.canon(a), s.canon(b)
            if a == b: return True
            if not isinstance(a, tuple) or not isinstance(b, tuple):
                if a in (0, None) or b in (0, None): return False
                raise Unsupported("comparison %r %r" % (a, b))
            if "junk" in (a[0], b[0]): raise Unsupported("stale pointer")
            for x, y in ((a, b), (b, a)):
                if x[0] in ("root", "crt"):
                    if y == s.canon(s.ctxs[x[1]].occ) or y[0] == "cp" and y[1] == x[1]: s.unfold_ctx(x[1]); break
                if x[0] == "cq": s.unfold_ctx(x[1]); break
                if x[0] == "cp":
                    c = s.ctxs[x[1]]
                    if y == s.canon(c.np) or c.top is not None and y == s.canon(c.top): s.unfold_ctx(x[1]); break
            else: return False
        raise Unsupported("comparison")
    def obl(s, tag, desc, ok, info=""):
        st = "proved" if ok else "failed"
        s.V.report(s, tag, desc, st, info)
    # ---- folding
    def cells(s, p):
        c1 = s.canon(s.heap[p[1]][CDR])
        if not (isinstance(c1, tuple) and c1[0] == "p" and s.heap[c1[1]][TYPE] == T_PAIR): return None
        c2 = s.canon(s.heap[c1[1]][CDR])
        if not (isinstance(c2, tuple) and c2[0] == "p" and s.heap[c2[1]][TYPE] == T_PAIR): return None
        return c1[1], c2[1]
    def isnil(s, p): return p[0] == "p" and s.heap[p[1]][TYPE] == T_NIL
    def isnode(s, p): return p[0] == "p" and s.heap[p[1]][TYPE] == T_PAIR and "kv" not in s.heap[p[1]] and s.cells(p) is not None
    def fold(s, p, par, weak=1, loose=False):
        """the subtree at p: (in-order list, black height, red); emits obligations"""
        p = s.canon(p)
        if p[0] == "crt":
            c = s.ctxs[p[1]]
            l, bh, red = s.fold(c.occ, ("cp", p[1]), 1)
            if s.V.rb:
                s.ob2("post", "the height above a subtree is kept", bh == c.hb)
                s.ob2("post", "a red node has black children", Implies(red, Not(c.pred)))
                s.ob2("post", "the colour of a subtree is kept", red == c.occred)
            s.obl("post", "the parent link of a child leads to its parent", s.canon(c.top) == s.canon(par))
            return [("L", p[1])] + l + [("R", p[1])], c.toph, c.topred
        if p[0] == "b":
            b = s.blobs[p[1]]
            if p in s.folded: s.obl("post", "a node occurs once in the tree", False); raise End()
            s.folded.add(p)
            s.obl("post", "the parent link of a child leads to its parent", par is None or s.canon(b.par) == s.canon(par))
            s.obl("post", "only the root's parent link is strong", s.wk(b.weak) == s.wk(weak))
            s.seen.append(p)
            if b.loose and not loose and s.V.rb: s.ob2("post", "a red node has black children", Not(b.red))
            return [p], b.bh, b.red
        if p[0] != "p" or len(p) > 2 and p[2] != 0: s.obl("post", "a child is a node or NIL", False); raise End()
        o = p[1]
        s.obl("safe", "the tree holds live cells only", o not in s.dead)
        h = s.heap[o]
        if p in s.folded: s.obl("post", "a node occurs once in the tree", False); raise End()
        s.folded.add(p)
        s.seen.append(p)
        if h[TYPE] == T_NIL:
            s.obl("post", "leaves are not coloured", not (s.flags(o) & COLOR))
            return [], IntVal(0), BoolVal(False)
        if not s.isnode(p): s.obl("post", "a child is a node or NIL", False); raise End()
        c1, c2 = s.cells(p)
        f = s.heap[c1], s.heap[c2]
        for c in (c1, c2): s.obl("safe", "the cells of a node are live", c not in s.dead)
        fl = f[1][FLAGS]
        fw = s.wk(fl) if isinstance(fl, tuple) else int(bool(fl & WEAK))
        s.obl("post", "only the root's parent link is strong", fw == s.wk(weak))
        if par is not None: s.obl("post", "the parent link of a child leads to its parent", s.canon(f[1][CAR]) == s.canon(par))
        l, lb, lr = s.fold(f[0][CAR], p, 1)
        r, rb_, rr = s.fold(f[1][CDR], p, 1)
        red = bool(s.flags(o) & COLOR)
        if s.V.rb:
            s.ob2("post", "both sides of a node have the same black height", lb == rb_)
            if red and not loose: s.ob2("post", "a red node has black children", And(Not(lr), Not(rr)))
        return l + [s.entry(h[CAR])] + r, simp(lb + (0 if red else 1)), BoolVal(red)
    def ob2(s, tag, desc, f): s.obl(tag, desc, s.proves(f), str(f)[:300])
    def parent(s, p):
        """the parent of a tree position: a node, NIL (above the root), an unknown context, or None"""
        p = s.canon(p)
        if p[0] == "b": return s.canon(s.blobs[p[1]].par)
        if p[0] != "p": return None
        if s.isnil(p):
            for o, g in s.heap.items():
                q = ("p", o, 0)
                if o in s.dead or o in s.gone or q in s.detached or not s.isnode(q): continue
                if not (isinstance(g[CAR], tuple) and s.canon(g[CAR])[0] == "p" and "kv" in s.heap[s.canon(g[CAR])[1]]): continue
                if p in s.sides(q) and s.linked(q): return q
            for n, c in s.ctxs.items():
                if n not in s.gone and s.canon(c.occ) == p and ("cp", n) not in s.sub: return ("cp", n)
            return None
        if not s.isnode(p): return None
        return s.canon(s.heap[s.cells(p)[1]][CAR])
    def linked(s, q):
        """is q where its parent link says?"""
        r = s.canon(s.heap[s.cells(q)[1]][CAR])
        if s.isnode(r): return q in s.sides(r)
        if r[0] == "cp": return s.canon(s.ctxs[r[1]].occ) == q
        return True
    def split(s, ps):
        """a node of the tree that a node taken out of the tree still refers to: the second reference becomes an object of its own,
        of which nothing but the count can be used (the count of the node is the sum of both)"""
        inside = {c for p in ps if p[0] == "p" and s.isnode(p) for c in (p[1],) + s.cells(p)}
        for p in ps:
            b = s.blobs[p[1]] if p[0] == "b" else None
            if (b.refs if b else s.heap[p[1]][REFS]) != 2: continue
            hold = [(o, k) for o, h in s.heap.items() if o not in s.dead and o not in s.gone and o not in inside and h[TYPE] == T_PAIR for k in (CAR, CDR)
                    if isinstance(h.get(k), tuple) and s.canon(h[k]) == p and not (k == CAR and s.wk(h[FLAGS]) if isinstance(h[FLAGS], tuple) else k == CAR and h[FLAGS] & WEAK)]
            if len(hold) != 1: continue
            g = s.fresh("o"); s.heap[g] = {REFS: 1, TYPE: "ghost", FLAGS: 0}
            s.heap[hold[0][0]][hold[0][1]] = ("p", g, 0)
            if b: b.refs = 1
            else: s.heap[p[1]][REFS] = 1
    def sides(s, p):
        c1, c2 = s.cells(p)
        return s.canon(s.heap[c1][CAR]), s.canon(s.heap[c2][CDR])
    def weakof(s, p):
        p = s.canon(p)
        if p[0] == "b": return s.wk(s.blobs[p[1]].weak)
        if s.isnil(p): return 0
        fl = s.heap[s.cells(p)[1]][FLAGS]
        return s.wk(fl) if isinstance(fl, tuple) else int(bool(fl & WEAK))
    def whole(s, rootp, weak=0):
        """in-order list of the tree whose root pointer is rootp"""
        s.folded, s.seen = set(), []
        rootp = s.canon(rootp)
        if rootp[0] == "root":
            n = rootp[1]; c = s.ctxs[n]
            l, bh, red = s.fold(c.occ, ("cp", n), s.wk(("cw", n)))
            if s.V.rb:
                s.ob2("post", "the height above a subtree is kept", bh == c.hb)
                s.ob2("post", "a red node has black children", Implies(red, Not(c.pred)))
                s.ob2("post", "the root is black", Implies(c.topcond, Not(red)))
            s.obl("post", "only the root's parent link is strong", c.rootweak == weak)
            return [("L", n)] + l + [("R", n)]
        if s.isnil(rootp): return []
        q = s.parent(rootp)
        if rootp[0] == "p":
            if not s.isnode(rootp): s.obl("post", "the root is a node or NIL", False); raise End()
            ok = q is not None and s.isnil(q)
            s.obl("post", "the root's parent link leads to NIL", ok)
            if not ok: raise End()
        l, bh, red = s.fold(rootp, q, weak)
        if s.V.rb: s.ob2("post", "the root is black", Not(red))
        return l
    def account(s, ext):
        """every cell is referenced exactly as often as its count says; ext: references held outside the tree"""
        n = {}
        def inc(v):
            v = s.canon(v)
            if isinstance(v, tuple) and v[0] in ("p", "b"): n[v[:2]] = n.get(v[:2], 0) + 1
        for o, h in s.heap.items():
            if o in s.dead or o in s.gone or h[TYPE] != T_PAIR: continue
            fl = h[FLAGS]
            if isinstance(fl, tuple): fl = 0 if s.wk(fl) == 0 else WEAK
            if not (fl & WEAK): inc(h[CAR])
            inc(h[CDR])
        for v in ext: inc(v)
        for c in s.ctxs.values():
            pass
        for o, h in s.heap.items():
            if o in s.dead or o in s.gone: continue
            k = n.get(("p", o), 0)
            if h[REFS] >= BIG // 2:
                want = BIG + k + (1 if h.get("infold") else 0) - h.get("credit", 1)
            elif s.isnode(("p", o, 0)) or h[TYPE] == T_NIL or h[TYPE] in (T_TRUE,):
                want = k
                if k == 0 and (h[REFS] == 1 and s.heldby(("p", o, 0))): want = 1
            else: continue
            s.obl("own", "every cell is referenced as often as its count says", h[REFS] == want, "%s: count %s, references %s" % (o, h[REFS], want))
    def heldby(s, p):
        """held by a part of the tree that is not explicit"""
        for n, c in s.ctxs.items():
            if n not in s.gone and ("cp", n) not in s.sub and p in (s.canon(c.occ),): return True
            if n not in s.gone and c.np is not None and s.canon(c.np) == p and c.top is None and not c.rootweak and ("cp", n) not in s.sub: return True
        for b in s.blobs.values():
            if ("b", b.n) not in s.sub and b.n not in s.gone and s.canon(b.par) == p and not s.wk(b.weak): return True
        return False

ORD, MEMO = {}, {}
CON = {}
def consts(f):
    k = f.get_id()
    if k in CON: return CON[k][1]
    if f.num_args() == 0: r = {f.decl().name()} if f.decl().kind() == z3.Z3_OP_UNINTERPRETED else set()
    else:
        r = set()
        for c in f.children(): r |= consts(c)
    CON[k] = (f, r)
    return r
def memo(k, f, *terms):
    """formulas are named by what they speak of: objects keep their names over replays of a path (terms: checked where a name may change its meaning)"""
    x = MEMO.get(k)
    if x is not None and all(a.eq(b) for a, b in zip(x[1], terms)): return x[0]
    x = MEMO[k] = (f(), terms)
    return x[0]
def orderly(f):
    """does the formula speak of the order of names?"""
    if not z3.is_expr(f): return False
    k = f.get_id()
    if k in ORD: return ORD[k][1]
    n = f.decl().name()
    r = f.num_args() == 0 and f.sort() == z3.IntSort() and not z3.is_int_value(f) and not n.startswith(("bh_", "hb_", "th_")) or any(orderly(c) for c in f.children())
    ORD[k] = (f, r)
    return r
def simp(x): return z3.simplify(x)

# ----------------------------------------------------------------------------- the interpreter
class Interp(Run):
    def val(s, fr, o):
        if o.k == "reg":
            if o.v not in fr.regs: raise Unsupported("register %s" % o.v)
            return fr.regs[o.v]
        if o.k == "int": return o.v & ((1 << o.t.w) - 1)
        if o.k in ("null", "zero"): return 0
        if o.k == "undef": return ("junk", s.fresh("u"))
        if o.k == "glob": return ("g", o.v)
        if o.k in ("cgep", "ccast"): return ("g", "const")
        raise Unsupported("operand %s" % o.k)
    def call(s, fn, args):
        if len(s.frames) > 12: raise Unsupported("call depth")
        fr = Frame(fn)
        fr.regs = {n: a for (n, t), a in zip(fn.params, args)}
        fr.L = s.V.loops(fn)
        s.frames.append(fr)
        b, prev = fn.order[0], None
        while True:
            fr.block = b
            ins = fn.blocks[b]
            ph = [i for i in ins if i.op == "phi"]
            if ph:
                vs = [s.val(fr, [x for x, p in i.a if p == prev][0]) for i in ph]
                for i, v in zip(ph, vs): fr.regs[i.dst] = v
            if b in fr.L: s.head(fr, b, ph)
            nxt = None
            for k, i in enumerate(ins):
                s.steps += 1
                if s.steps > 20000: raise Unsupported("steps")
                fr.at = k
                if i.op == "phi": continue
                if i.op == "br":
                    if not i.a: nxt = i.x[0]
                    else: nxt = i.x[0] if s.truth(s.val(fr, i.a[0])) else i.x[1]
                    break
                if i.op == "switch":
                    v = s.val(fr, i.a[0])
                    if not isinstance(v, int): raise Unsupported("switch")
                    nxt = i.x[0]
                    for cv, tb in i.x[1]:
                        if v == cv & ((1 << i.a[0].t.w) - 1): nxt = tb
                    break
                if i.op == "ret":
                    r = s.val(fr, i.a[0]) if i.a else None
                    s.frames.pop()
                    return r
                if i.op == "unreachable": raise Dead()
                s.ins(fr, i)
            if nxt is None: raise Unsupported("block without end")
            prev, b = b, nxt
    def truth(s, v):
        if isinstance(v, int): return bool(v & 1)
        raise Unsupported("condition %r" % (v,))
    def ptradd(s, p, d):
        if d == 0: return p
        p = s.canon(p)
        if not isinstance(p, tuple): raise Unsupported("pointer arithmetic")
        return (p[0], p[1], (p[2] if len(p) > 2 else 0) + d)
    def ins(s, fr, i):
        V = lambda k: s.val(fr, i.a[k])
        r = fr.regs
        if i.op == "gep":
            p, t, off = V(0), i.x, 0
            for k, ix in enumerate(i.a[1:]):
                v = s.val(fr, ix)
                if not isinstance(v, int): raise Unsupported("gep index")
                if v >= 1 << (ix.t.w - 1): v -= 1 << ix.t.w
                if k == 0: off += v * ir.size(t)
                elif t.k == "struct": off += ir.field_off(t, v); t = t.fs[v]
                elif t.k == "arr": off += v * ir.size(t.e); t = t.e
                else: raise Unsupported("gep")
            r[i.dst] = s.ptradd(p, off) if isinstance(p, tuple) and p[0] not in ("g", "lisp") else (p[0], p[1], (p[2] if len(p) > 2 else 0) + off)
        elif i.op == "load":
            p = V(0)
            if isinstance(p, tuple) and p[0] == "g":
                if p[1].startswith("MNML_DEBUG"): s.V.assumed.add("debug tracing is off"); r[i.dst] = 0; return
                raise Unsupported("global %s" % p[1])
            if i.t.k == "vec": r[i.dst] = ("vec", s.key(p)); return
            if isinstance(p, tuple) and p[0] == "lisp": r[i.dst] = ("lispf", (p[2] if len(p) > 2 else 0)); return
            v = s.ld(p, 0)
            q = s.deref(p)
            if i.t.k != "ptr" and not isinstance(v, int): raise Unsupported("integer read of a pointer field")
            if i.t.k != "ptr":
                n = {REFS: 4, TYPE: 2, FLAGS: 2}.get(q[2], 8)
                if ir.size(i.t) > n:
                    if q[2] == TYPE and ir.size(i.t) == 4: v |= s.ld(("p", q[1], 0), FLAGS) << 16
                    else: raise Unsupported("wide read")
                v &= (1 << i.t.w) - 1
            r[i.dst] = v
        elif i.op == "store":
            v, p = V(0), V(1)
            if isinstance(p, tuple) and p[0] in ("g", "lisp"): raise Unsupported("store to a global")
            q = s.deref(p)
            h = s.heap[q[1]]
            if q[2] not in (REFS, TYPE, FLAGS, CAR, CDR, 8): raise Unsupported("store at offset %d" % q[2])
            if q[2] in (CAR, CDR):
                v = s.canon(v)
                if isinstance(v, tuple) and v[0] == "cq": s.unfold_ctx(v[1]); v = s.canon(v); h = s.heap[s.deref(p)[1]]
                if not isinstance(v, tuple) or v[0] not in ("p", "b", "cp", "root"): raise Unsupported("stored value %r" % (v,))
                if len(v) > 2 and v[2]: raise Unsupported("stored interior pointer")
                if "key" in h or h[TYPE] is None and "fresh" not in h: s.obl("frame", "names and values are not written", False)
            elif not isinstance(v, int): raise Unsupported("stored value")
            n = {REFS: 4, TYPE: 2, FLAGS: 2}.get(q[2], 8)
            if i.a[0].t.k != "ptr" and ir.size(i.a[0].t) != n: raise Unsupported("store width")
            h[q[2]] = v
        elif i.op in ("add", "sub", "and", "or", "xor", "shl", "lshr"):
            a, b = V(0), V(1)
            if not isinstance(a, int) or not isinstance(b, int): raise Unsupported("arithmetic")
            w = i.t.w
            v = dict(add=a + b, sub=a - b, xor=a ^ b, shl=a << min(b, 64), lshr=a >> min(b, 64))
            v["and"] = a & b; v["or"] = a | b
            r[i.dst] = v[i.op] & ((1 << w) - 1)
        elif i.op == "icmp":
            a, b = V(0), V(1)
            if isinstance(a, int) and isinstance(b, int):
                w = i.a[0].t.w if i.a[0].t.k != "ptr" else 64
                sg = lambda x: x - (1 << w) if x >> (w - 1) & 1 else x
                f = dict(eq=a == b, ne=a != b, ult=a < b, ule=a <= b, ugt=a > b, uge=a >= b, slt=sg(a) < sg(b), sle=sg(a) <= sg(b), sgt=sg(a) > sg(b), sge=sg(a) >= sg(b))
                r[i.dst] = int(f[i.x])
            elif i.x in ("eq", "ne"): r[i.dst] = int(s.same(a, b) == (i.x == "eq"))
            else: raise Unsupported("comparison")
        elif i.op in ("zext", "trunc", "sext", "freeze", "bitcast"):
            a = V(0)
            if isinstance(a, int):
                w0 = i.a[0].t.w
                if i.op == "sext" and a >> (w0 - 1) & 1: a -= 1 << w0
                a &= (1 << i.t.w) - 1
            r[i.dst] = a
        elif i.op == "alloca": r[i.dst] = ("junk", s.fresh("a"))
        elif i.op == "select": r[i.dst] = V(1) if s.truth(V(0)) else V(2)
        elif i.op == "call": s.docall(fr, i)
        else: raise Unsupported("instruction %s in %s" % (i.op, fr.fn.name))
    def key(s, p):
        p = s.deref(p)
        h = s.heap[p[1]]
        if "key" not in h or p[2] != 16: raise Unsupported("bytes that are not a name")
        return h["key"]
    def docall(s, fr, i):
        if i.x.k != "glob":
            h = s.V.spec.indirect
            if h is None: raise Unsupported("indirect call")
            fr.regs[i.dst] = h(s, [s.val(fr, a) for a in i.a]); return
        n = i.x.v
        if n.startswith("llvm."): return
        args = [s.val(fr, a) for a in i.a]
        if n in ("memcmp", "bcmp"):
            if args[2] != 16: raise Unsupported("comparison of %r bytes" % (args[2],))
            a, b = s.key(args[0]), s.key(args[1])
            c = s.fork([(a == b, 0), (a < b, (1 << 32) - 1), (a > b, 1)])
            fr.regs[i.dst] = c; return
        if n == "_mm_xor_si128":
            a, b = args
            if a[0] != "vec" or b[0] != "vec": raise Unsupported("vector operands")
            fr.regs[i.dst] = ("vxor", a[1], b[1]); return
        if n == "_mm_testz_si128":
            a, b = args
            if a[0] != "vxor" or b != a: raise Unsupported("vector operands")
            fr.regs[i.dst] = s.fork([(a[1] == a[2], 1), (a[1] != a[2], 0)]); return
        if n == "lisp_allocate":
            o = s.fresh("o"); s.heap[o] = {REFS: 0, TYPE: None, FLAGS: 0, CAR: 0, CDR: 0, 8: 0, "fresh": True}
            fr.regs[i.dst] = ("p", o, 0); return
        if n == "lisp_deallocate": s.free(args[1]); return
        g = s.V.spec.calls.get(n)
        if g is not None: fr.regs[i.dst] = g(s, args); return
        fn = fr.fn.module.fns.get(n) or s.V.prog.get(n)
        if fn is None: raise Unsupported("call of %s" % n)
        s.V.inlined.add(n)
        v = s.call(fn, args)
        if i.dst is not None: fr.regs[i.dst] = v
    def free(s, p):
        p = s.deref(p)
        h = s.heap[p[1]]
        s.obl("safe", "a released cell is released once", p[1] not in s.dead)
        if h[TYPE] == "ghost": s.dead.add(p[1]); return
        if h[TYPE] == T_PAIR and "kv" not in h:
            if not (s.flags(p[1]) & WEAK): s.down(h[CAR])
            s.down(h[CDR])
        s.dead.add(p[1])
    def down(s, p):
        p = s.deref(p)
        s.heap[p[1]][REFS] -= 1
        if s.heap[p[1]][REFS] == 0: s.free(p)
    # ---- loops: one invariant template, its instance found by discarding candidates
    def live(s, fi, header=None):
        """registers of frame fi that may still be used"""
        fr = s.frames[fi]
        fn = fr.fn
        start = [header] if header is not None else succs(fn.blocks[fr.block])
        reach, st = set(), list(start)
        while st:
            b = st.pop()
            if b in reach: continue
            reach.add(b); st += succs(fn.blocks[b])
        used, defd = set(), set()
        def scan(ins):
            for i in ins:
                for a in i.a:
                    if i.op == "phi" and a[1] not in reach and (header is not None or a[1] != fr.block): continue
                    o = a[0] if i.op == "phi" else a
                    if o.k == "reg": used.add(o.v)
                if i.op == "call" and i.x.k == "reg": used.add(i.x.v)
        for b in reach:
            scan(fn.blocks[b])
            for i in fn.blocks[b]:
                if i.dst is not None and not (b == header and i.op == "phi"): defd.add(i.dst)
        if header is None:
            rest = fn.blocks[fr.block][fr.at:]
            scan(rest[1:])
            defd |= {i.dst for i in rest if i.dst is not None}
        return used - defd
    def head(s, fr, h, ph):
        key = (fr.fn.name, h) + tuple(f.fn.name for f in s.frames[:-1])
        back = h in fr.heads
        pp = [i.dst for i in ph if i.t.k == "ptr"]
        if any(i.t.k != "ptr" for i in ph) or not pp: raise Unsupported("a loop over something other than nodes")
        I = s.V.inv.get(key) or s.V.start(key, pp)
        focus = I["focus"][0]
        f = fr.regs[focus]
        if not back and isinstance(f, tuple) and s.canon(f)[0] == "p" and s.isnil(s.canon(f)) and s.parent(f) is None and (h, "peel") not in fr.heads:
            fr.heads[h, "peel"] = True   # an empty tree: the first round is run as it is, the invariant starts with the second
            return
        st = s.fold_head(fr, h, key, I, focus, back)
        if back: raise End()
        fr.heads[h] = st
        if st["keep"] is None:
            sig = s.signature(key)
            if s.k >= s.m and not s.V.claim(key, sig): raise End()    # an equal state is followed elsewhere
        fr.keys.append(key)
        s.V.invlog[key] = "%s: %s is the focus; %s; colouring %s%s%s" % (fr.fn.name, focus, ", ".join("%s: %s" % (p, I["roles"][p][0]) for p in pp if p != focus), I["mode"][0] if s.V.rb else "-",
            "; keys to the left are smaller" if I["lt"] else "", "; keys to the right are larger" if I["gt"] else "")
    def nofocus(s, key, focus, f, env):
        if os.environ.get("TD"): print("FOCUS", key[0], focus, f, {k: env.get(k) for k in ("path", "p", "q", "back", "keep")}, [(x.fn.name, r, v) for x, r, v in env.get("lv") or []], env.get("held"))
        raise Drop(key, ("focus", focus))
    def fold_head(s, fr, h, key, I, focus, back):
        mode, V = I["mode"][0], s.V
        f = s.canon(fr.regs[focus])
        prev = fr.heads.get(h)
        if back and isinstance(f, tuple) and f[0] == "root": s.unfold_root(f[1]); f = s.canon(f)
        if not isinstance(f, tuple) or f[0] not in ("p", "b") or not (f[0] == "b" or s.isnil(f) or s.isnode(f)): s.nofocus(key, focus, f, locals())
        lv = []
        for fi, x in enumerate(s.frames):
            for r in s.live(fi, h if fi == len(s.frames) - 1 else None):
                if isinstance(x.regs.get(r), tuple) and not (x is fr and r in I["roles"]): lv.append((x, r, s.canon(x.regs[r])))
        held = {v for x, r, v in lv if v[0] == "p" and s.isnode(v)}
        # the nodes above the focus, up to the root, an unknown context, or a node another variable holds on to
        path, p, above, keep = [], f, None, None
        for _ in range(30):
            q = s.parent(p)
            if q is None: s.nofocus(key, focus, f, locals())
            if q[0] == "cp":
                c_ = s.ctxs[q[1]]
                if c_.top is None or back and prev["keep"] == s.canon(c_.top) or V.spec.keep and s.canon(c_.top) in held: above = q; break
                if s.canon(c_.occ) != p: s.nofocus(key, focus, f, locals())
                path.append(("seg", q[1])); p = ("crt", q[1])
                q = s.canon(c_.top)
                path.append(q); p = q
                continue
            if s.isnil(q): above = q; break
            if not s.isnode(q) or q in path or q == f: s.nofocus(key, focus, f, locals())
            if q in held and not s.isnil(s.parent(q) or q) and s.parent(q)[0] != "cp" or back and prev["keep"] == q or q in held and V.spec.keep: above = keep = q; break
            path.append(q); p = q
        topmost = p
        if above[0] == "cp" and s.ctxs[above[1]].top is not None: keep = s.canon(s.ctxs[above[1]].top)
        if back and prev["keep"] != keep: s.nofocus(key, focus, f, locals())
        rootp = None if keep else ("root", above[1]) if above[0] == "cp" and s.ctxs[above[1]].top is None else topmost
        parent = ("cp", path[0][1]) if path and path[0][0] == "seg" else path[0] if path else above
        isroot = not path and above[0] == "p" and keep is None
        def roleof(v):
            v, rs = s.canon(v), []
            if v == f: rs.append("focus")
            if rootp is not None and v == s.canon(rootp): rs.append("root")
            if v == s.canon(parent): rs += ["parent", "parent?"]
            if v[0] == "cq" and parent == ("cp", v[1]): rs.append("parent?")
            if isroot: rs.append("parent?")
            return rs
        for r in I["roles"]:
            want, v = I["roles"][r][0], fr.regs[r]
            if r == focus or want == "junk": continue
            if not isinstance(v, tuple): raise Drop(key, ("role", r, want))
            if want == "same":
                if not back and v[0] != "junk" or back and s.canon(v) == s.canon(prev["phv"][r]): continue
                raise Drop(key, ("role", r, want))
            if want not in roleof(v):
                if os.environ.get("TD"): print("ROLE", key[0], r, want, "value", s.canon(v), "root", rootp and s.canon(rootp), "focus", f, "parent", parent, "above", above, "path", path, "keep", keep, "back", back, "mode", mode, [(x.fn.name, r, v) for x, r, v in lv])
                raise Drop(key, ("role", r, want))
        # the subtree, then the frames above it
        s.folded, s.seen = set(), []
        quiet, V.quiet = V.quiet, key
        try:
            fw = s.weakof(f) if isroot else s.wk(("cw", above[1])) if not path and above[0] == "cp" else 1
            if s.isnil(f) and not path and above[0] == "cp": fw = 1
            l, bh, red = s.fold(f, parent if not s.isnil(f) else None, fw, mode == "short")
            L, R, hb, pred, child, cb, cr = [], [], None, None, f, None, None
            if not path: hb, pred = (s.ctxs[above[1]].hb, s.ctxs[above[1]].pred) if above[0] == "cp" else (None, BoolVal(False))
            for p in path:
                if p[0] == "seg":
                    c_ = s.ctxs[p[1]]
                    L, R = [("L", p[1])] + L, R + [("R", p[1])]
                    if p == path[0]: hb, pred = c_.hb, c_.pred
                    elif V.rb:
                        s.inv_ob(key, "the height above a subtree is kept", cb == c_.hb)
                        s.inv_ob(key, "a red node has black children", Implies(cr, Not(c_.pred)))
                    if V.rb: s.inv_ob(key, "the colour of a subtree is kept", (red if p == path[0] else cr) == c_.occred)
                    cb, cr, child = c_.toph, c_.topred, ("crt", p[1])
                    continue
                a, b = s.sides(p)
                if (a == child) == (b == child): V.fail(key, "a node is a child once")
                left = a == child
                last = p == path[-1]
                pw = s.weakof(p) if last and above[0] == "p" and keep is None else s.wk(("cw", above[1])) if last and above[0] == "cp" else 1
                if s.weakof(p) != pw: V.fail(key, "only the root's parent link is strong")
                s.folded.add(p)
                sl, sb, sr = s.fold(b if left else a, p, 1)
                pr = bool(s.flags(p[1]) & COLOR)
                e = s.entry(s.heap[p[1]][CAR])
                if left: R = R + [e] + sl
                else: L = sl + [e] + L
                if V.rb:
                    if p == path[0]: hb, pred = sb, BoolVal(pr)
                    else: s.inv_ob(key, "both sides of a node have the same black height", cb == sb)
                    if pr: s.inv_ob(key, "a red node above the subtree has black children", And(Not(sr), Not(cr) if p != path[0] else BoolVal(True)))
                    cb, cr = simp(sb + (0 if pr else 1)), BoolVal(pr)
                child = p
            c, np, rootweak, toph, topred = None, None, 1, None, None
            if above[0] == "cp":
                c = s.ctxs[above[1]]
                if s.canon(c.occ) != topmost: V.fail(key, "the tree hangs under its context")
                L, R = [("L", above[1])] + L, R + [("R", above[1])]
                if V.rb and path:
                    s.inv_ob(key, "the height above the subtree is kept", cb == c.hb)
                    s.inv_ob(key, "a red node above the subtree has a black parent", Implies(cr, Not(c.pred)))
                    if c.top is None: s.inv_ob(key, "the root is black", Implies(c.topcond, Not(cr)))
                np, rootweak, toph, topred = c.np, c.rootweak, c.toph, c.topred
                if V.rb and keep: s.inv_ob(key, "the colour of a subtree is kept", (cr if path else red) == c.occred)
            elif keep:
                if V.rb:
                    toph = cb if path else bh if mode == "valid" else None
                    topred = cr if path else red
                    if toph is None: V.fail(key, "the subtree under a node another variable holds is valid")
                    if s.flags(keep[1]) & COLOR: s.inv_ob(key, "a red node has black children", Not(cr if path else red))
            else:
                np, rootweak = above, s.weakof(topmost)
                if V.rb and path: s.inv_ob(key, "the root is black", Not(cr))
            if V.rb: s.mode_obl(key, mode, f, bh, red, hb, pred, isroot, c if not path else None)
        finally: V.quiet = quiet
        seg = L + l + R
        s.split([p for p in s.seen + path if p[0] in ("p", "b")])
        for p in s.seen + path:
            if p[0] == "p" and p != f and s.heap[p[1]][REFS] != 1 or p[0] == "b" and p != f and s.blobs[p[1]].refs != 1: V.fail(key, "a node of the tree is referenced once")
        frefs = s.blobs[f[1]].refs if f[0] == "b" else s.heap[f[1]][REFS]
        if back and frefs != prev["frefs"]: V.fail(key, "a node of the tree is referenced once")
        if back:
            if rootweak != prev["rootweak"]: V.fail(key, "the root's parent link is as strong as before")
            if not s.eqseq(s.expand(prev["W"]), seg): V.fail(key, "an iteration keeps the sequence of entries: %s before, %s after" % (s.show(s.expand(prev["W"])), s.show(seg)))
            if V.rb and keep and toph is not None and prev["toph"] is not None: s.inv_ob(key, "the height below a node another variable holds is kept", toph == prev["toph"])
            if V.rb and keep: s.inv_ob(key, "the colour of the top below a node another variable holds is kept", topred == prev["topred"])
        elif keep is None:
            if s.expected is not None:
                if not s.eqseq(s.expand(s.expected), seg): V.fail(key, "the sequence of entries is as expected")
            elif not s.eqseq(s.expand(s.orig), seg):
                V.spec.relation(s, s.norm(s.expand(s.orig)), s.norm(seg))
                s.expected, s.orig = seg, None
        # candidates about the order and about empty sides
        kk = s.argkeys()
        for side, lst in (("lt", L), ("gt", R)):
            for k in sorted(I[side]):
                for p in lst:
                    ne, lo, hi = s.bounds(p)
                    if not s.proves(Implies(ne, hi < kk[k] if side == "lt" else lo > kk[k])): raise Drop(key, (side, k))
        for side, lst in (("Le", L), ("Re", R)):
            if I[side] and not s.proves(And(*[Not(s.bounds(p)[0]) for p in lst])): raise Drop(key, (side,))
        nonempty = s.proves(Or(*[s.bounds(p)[0] for p in seg])) if seg else False
        if I["nonempty"] and not nonempty: raise Drop(key, ("nonempty",))
        if I["Fne"] and not (l and s.proves(Or(*[s.bounds(p)[0] for p in l]))): raise Drop(key, ("Fne",))
        if back: return
        # ---- an arbitrary state of the template
        n = s.fresh("C"); c2 = s.ctxs[n] = Ctx(n, None, mode)
        c2.np, c2.rootweak, c2.top, c2.toph, c2.topred = np, rootweak, keep, toph, topred
        c2.topblack = bool(keep) and not (s.flags(keep[1]) & COLOR)
        nf = s.focusblob(mode, n, frefs)
        c2.occ = nf
        s.blobs[nf[1]].loose = mode == "short"
        W1 = [("L", n), nf, ("R", n)]
        mp = {}
        for p in s.folded | set(path):
            if p[0] == "seg":
                s.gone.add(p[1])
                mp[("cp", p[1])] = mp[("cq", p[1])] = mp[("crt", p[1])] = ("junk", p[1])
                continue
            mp[p[:2]] = ("junk", p[1])
            if p[0] == "b": s.gone.add(p[1])
            else:
                s.gone.add(p[1])
                if s.isnode(p):
                    for o in s.cells(p): s.gone.add(o)
                    kv = s.canon(s.heap[p[1]][CAR])
                    s.heap[kv[1]]["infold"] = True
                    if s.heap[kv[1]][REFS] != BIG: raise Unsupported("a binding of the tree is referenced from elsewhere")
        if above[0] == "cp":
            s.gone.add(above[1])
            mp[("root", above[1])] = ("root", n); mp[("cp", above[1])] = mp[("cq", above[1])] = ("junk", "c"); mp[("crt", above[1])] = ("crt", n)
            if path: pass
        if keep is None: mp[topmost[:2]] = ("root", n)
        else: mp[topmost[:2]] = ("crt", n)
        if path:
            mp[parent[:2]] = ("cp", n)
            if parent[0] == "cp": mp[("cq", parent[1])] = ("cq", n)
        elif above[0] == "cp": mp[("cp", above[1])] = ("cp", n); mp[("cq", above[1])] = ("cq", n)
        if topmost != f: mp[f[:2]] = nf
        if path and topmost == path[0]: mp[topmost[:2]] = ("root", n) if keep is None else ("crt", n)
        def m(v): return mp.get(s.canon(v)[:2], s.canon(v))
        for x, r, v in lv: x.regs[r] = m(v)
        newphi = {}
        for r in I["roles"]:
            want = I["roles"][r][0]
            newphi[r] = nf if r == focus or want == "focus" else ("root", n) if want == "root" else ("cp", n) if want == "parent" else ("cq", n) if want == "parent?" else m(fr.regs[r]) if want == "same" else ("junk", r)
        fr.regs.update(newphi)
        if s.treeroot is not None: s.treeroot = m(s.treeroot)
        for o, hh in s.heap.items():
            if o in s.gone: continue
            for k in (CAR, CDR):
                if isinstance(hh.get(k), tuple): hh[k] = m(hh[k])
        if keep is not None:         # the kept node hangs over the new segment
            c1_, c2_ = s.cells(keep)
        new = "expected" if s.expected is not None else "orig"
        if keep is None: setattr(s, new, W1)
        else:
            w = s.expand(getattr(s, new))
            for i in range(len(w) + 1):
                if w[i:i + len(seg)] == seg: break
            else: V.fail(key, "the sequence of entries is as expected")
            setattr(s, new, w[:i] + W1 + w[i + len(seg):])
        for side, at in (("lt", ("L", n)), ("gt", ("R", n))):
            for k in I[side]:
                ne, lo, hi = s.bounds(at)
                s.pc.append(Implies(ne, hi < kk[k] if side == "lt" else lo > kk[k]))
        if I["Le"]: s.pc.append(Not(c2.L.ne))
        if I["Re"]: s.pc.append(Not(c2.R.ne))
        if I["Fne"]: s.pc.append(s.blobs[nf[1]].ne)
        if I["nonempty"]: s.pc.append(Or(*[s.bounds(p)[0] for p in W1]))
        c2.occred = s.blobs[nf[1]].red
        if V.rb: s.mode_facts(mode, nf, c2)
        if V.rb and keep: c2.topcond = topred == c2.occred
        return dict(W=W1, rootweak=rootweak, phv=newphi, keep=keep, toph=toph, topred=topred, frefs=frefs)
    def argkeys(s): return {k: s.heap[o]["key"] for k, o in s.args.items()}
    def inv_ob(s, key, desc, f):
        if not s.proves(f): s.V.fail(key, desc)
        if s.k >= s.m: s.V.path.append(("inv", "loop invariant: " + desc, s.where(), "proved", ""))
    def mode_obl(s, key, mode, f, bh, red, hb, pred, isroot, c):
        if mode == "valid":
            if hb is not None: s.inv_ob(key, "the subtree has the height its context needs", bh == hb)
            s.inv_ob(key, "a red node has a black parent", Implies(red, Not(pred)) if not isroot else Not(red))
            if c is not None and c.top is None: s.inv_ob(key, "the root is black", Implies(c.topcond, Not(red)))
        elif mode == "inserted":      # the focus is a red node whose parent may be red too
            if hb is not None: s.inv_ob(key, "the subtree has the height its context needs", bh == hb)
            if not s.isnode(f): s.V.fail(key, "the focus is a node")
            s.inv_ob(key, "the focus is red", red)
        elif mode == "short":         # the subtree lacks one black node
            if hb is not None: s.inv_ob(key, "the subtree is one black node short", bh + 1 == hb)
    def focusblob(s, mode, n, refs):
        if mode != "inserted": return s.newblob(("cp", n), mode, ("cw", n), refs)
        me = s.node(None, None, ("cp", n), None, True, ("cw", n), refs)
        l, r, kv = s.newblob(me, mode), s.newblob(me, mode), s.kv()
        c1, c2 = s.cells(me)
        s.heap[me[1]][CAR] = kv; s.heap[c1][CAR] = l; s.heap[c2][CDR] = r
        b = s.newblob(("cp", n), mode)
        s.sub[b] = me; s.exp[b] = [l, s.entry(kv), r]
        Lb, Rb, B = s.blobs[l[1]], s.blobs[r[1]], s.blobs[b[1]]
        s.pc += [B.ne, B.red]
        if s.V.rb: s.pc += [Lb.bh == Rb.bh, B.bh == Lb.bh, Not(Lb.red), Not(Rb.red)]
        return b
    def mode_facts(s, mode, nf, c):
        B = s.blobs[nf[1]]
        if mode == "valid":
            s.pc += [B.bh == c.hb, Implies(B.red, Not(c.pred))]
            if c.top is None: c.topcond = Not(B.red)
        elif mode == "inserted": s.pc += [B.bh == c.hb]
        elif mode == "short": s.pc += [B.bh + 1 == c.hb]
    def show(s, w): return "[" + " ".join(p[0] + str(p[1]) for p in w) + "]"

class Verifier:
    def __init__(s, prog, fn, spec):
        s.prog, s.fn, s.spec = prog, fn, spec
        s.inv, s.invlog_, s.assumed, s.inlined, s.queries = {}, {}, set(), set(), 0
        s.invlog, s.used = {}, set()
        s.rb, s.mode_strict, s.rootweak = spec.rb, None, 0
        s.quiet = None
        s.claims = None
        s.hints = getattr(spec, "hints", {})
        s.L, s.jobs = {}, int(os.environ.get("TREE_JOBS", "8"))
        s.obls, s.exits, s.lost = [], [], []
        s.boundedflags = set()
    def loops(s, fn):
        if fn.name not in s.L: s.L[fn.name] = loops(fn)
        return s.L[fn.name]
    def start(s, key, pp, focus=None):
        h = s.hints.get(key[0]) if focus is None else None
        if h is not None and set(h["roles"]) | {h["focus"]} == set(pp):
            s.inv[key] = dict(focus=[h["focus"]], roles={p: [h["roles"].get(p, "focus")] for p in pp}, mode=[h["mode"] if s.rb else s.spec.modes[0]], lt=set(h["lt"]) & set(s.spec.keys), gt=set(h["gt"]) & set(s.spec.keys), hint=True, **{k: h[k] for k in ("Le", "Re", "nonempty", "Fne")})
            return s.inv[key]
        s.inv[key] = dict(focus=list(focus or pp), roles={p: ["focus", "root", "parent", "parent?", "same", "junk"] for p in pp}, mode=list(s.spec.modes), lt=set(s.spec.keys), gt=set(s.spec.keys), Le=True, Re=True, nonempty=True, Fne=True)
        return s.inv[key]
    def fail(s, key, desc):
        s.lastfail = "%s: loop invariant: %s" % (key[0], desc)
        raise Drop(key, ("mode", None))
    def report(s, run, tag, desc, st, info):
        if s.quiet is not None:
            if st != "proved": s.fail(s.quiet, desc)
            if run.k >= run.m: s.path.append(("inv", "loop invariant: " + desc, run.where(), "proved", ""))
            return
        if st != "proved" and not run.feasible(): raise Dead()
        if run.k >= run.m: s.path.append((tag, desc, run.where(), st, info))
    def claim(s, key, sig):
        if os.environ.get("NOMERGE"): return True
        n = hashlib.sha256(repr(key).encode() + sig.encode()).hexdigest()
        try: os.close(os.open(os.path.join(s.claims, n), os.O_CREAT | os.O_EXCL))
        except FileExistsError: s.merged += 1; return False
        if os.environ.get("TS"): open(os.environ["TS"] + "/" + n, "w").write(sig)
        return True
    def fail_seq(s, run, a, b):
        s.report(run, "post", "the sequence of entries is as expected", "failed", "%s / %s" % (run.show(a), run.show(b)))
        raise End()
    def verify(s, limit=40000, deadline=600):
        t0 = time.time()
        s.why = []
        while True:
            s.obls, s.exits, s.paths, s.cache, s.merged = [], [], 0, {}, 0
            if s.claims: shutil.rmtree(s.claims, ignore_errors=True)
            s.claims = tempfile.mkdtemp(prefix="treev-")
            if os.environ.get("TT"): print("round %.1f" % (time.time() - t0), s.why[-1:])
            try:
                s.explore(limit, t0 + deadline)
                shutil.rmtree(s.claims, ignore_errors=True)
                return s
            except Drop as d:
                if not s.drop(d):
                    if s.pending is not None: raise Unsupported(s.pending[0])
                    s.obls.append(TObl("inv", getattr(s, "lastfail", "%s: no loop invariant of the template holds" % d.key[0]), "failed", "candidates discarded: %s" % "; ".join(s.why)[:1500]))
                    return s
    def drop(s, d):
        I, c = s.inv[d.key], d.cand
        if I.get("hint"):
            s.why.append("%s: the invariant tried first does not hold: %s %s" % (d.key[0], c, getattr(s, "lastfail", "")))
            s.hints = {k: v for k, v in s.hints.items() if k != d.key[0]}
            s.start(d.key, list(I["roles"]))
            return True
        s.why.append("%s: %s%s" % (d.key[0], c, " (%s)" % s.lastfail if c[0] == "mode" else ""))
        if c[0] in ("lt", "gt"): I[c[0]].discard(c[1]); return True
        if c[0] in ("Le", "Re", "nonempty", "Fne"): I[c[0]] = False; return True
        if c[0] == "role":
            I["roles"][c[1]] = [r for r in I["roles"][c[1]] if r != c[2]]
            return bool(I["roles"][c[1]])
        if c[0] == "mode" and len(I["mode"]) > 1:
            old = I["mode"][1:]
            s.start(d.key, list(I["roles"]), I["focus"])["mode"] = old
            return True
        fs = I["focus"][1:]
        if not fs: return False
        s.start(d.key, list(I["roles"]), fs)
        return True
    def explore(s, limit, deadline):
        todo, s.found, s.nexits, s.pending = [[]], {}, 0, None
        s.walk(todo, 40, limit, deadline)
        if todo: s.spread(todo, limit, deadline)
        if s.pending is not None:    # a candidate that says too little (or something else) for the code to be followed
            if s.pending[1] is None: raise Unsupported(s.pending[0])
            s.lastfail = s.pending[0]
            raise Drop(s.pending[1], ("mode", None))
        for (tag, desc, where, st), (n, info) in s.found.items():
            o = TObl(tag, desc, st, "%s%s" % (info, " (on %d paths)" % n if n > 1 else "")); o.where = where
            s.obls.append(o)
        s.exits = [None] * s.nexits
    def walk(s, todo, until, limit, deadline):
        """run the paths that start with the decisions in `todo`, until so many are open"""
        while todo and len(todo) < until:
            dec = todo.pop(0 if until < 1 << 20 else -1)
            if time.time() > deadline: raise Unsupported("out of time")
            s.paths += 1
            if s.paths > limit: raise Unsupported("too many paths")
            r = Interp(s, list(dec))
            s.last = time.time()
            s.path, s.quiet, s.cur = [], None, r
            end = "exit"
            try: s.spec.run(s, r)
            except Dead: end = "dead"
            except End: end = "back"
            except Drop:
                if r.feasible(): raise
                end = "dead"
            except Unsupported as x:
                end = "lost"
                if r.feasible() and s.pending is None: s.pending = (str(x), next((k for f in reversed(r.frames) for k in reversed(f.keys)), None))
            for k, n in r.new:
                for c in range(1, n): todo.append(r.dec[:k] + [c])
            for tag, desc, where, st, info in s.path:
                k = (tag, desc, where, st)
                n, i = s.found.get(k, (0, info))
                s.found[k] = (n + 1, i)
            if end == "exit": s.nexits += 1
    def spread(s, todo, limit, deadline):
        """the rest of the paths, in worker processes"""
        work = [todo[k::48] for k in range(48)]
        live, res, bad = {}, [], None
        while (work or live) and bad is None:
            while work and len(live) < s.jobs:
                w = work.pop()
                if not w: continue
                rd, wr = os.pipe()
                pid = os.fork()
                if pid == 0:
                    LIBC.prctl(1, 9)       # die with the parent
                    os.close(rd)
                    s.found, s.nexits, s.paths, s.queries, s.used, s.inlined, s.assumed, s.pending = {}, 0, 0, 0, set(), set(), set(), None
                    try:
                        s.walk(w, 1 << 30, limit, deadline)
                        v = ("ok",)
                    except Drop as d: v = ("drop", d.key, d.cand, getattr(s, "lastfail", ""), s.inv[d.key])
                    except Unsupported as x: v = ("unsupported", str(x))
                    except Exception as x: v = ("unsupported", "generator: %r" % x)
                    with os.fdopen(wr, "wb") as f: f.write(pickle.dumps((v, s.found, s.nexits, s.paths, s.queries, s.used, s.inlined, s.assumed, s.invlog, s.pending, s.inv)))
                    os._exit(0)
                os.close(wr)
                live[rd] = (pid, bytearray())
            rs = select.select(list(live), [], [], 5)[0]
            for fd in rs:
                b = os.read(fd, 1 << 20)
                if b: live[fd][1].extend(b); continue
                pid, buf = live.pop(fd)
                os.close(fd); os.waitpid(pid, 0)
                if not buf: bad = ("unsupported", "a worker was lost"); break
                v, found, ne, pa, q, us, inl, asm, il, pend, inv = pickle.loads(bytes(buf))
                s.nexits += ne; s.paths += pa; s.queries += q; s.used |= us; s.inlined |= inl; s.assumed |= asm; s.invlog.update(il)
                for k, (n, i) in found.items():
                    m, j = s.found.get(k, (0, i)); s.found[k] = (m + n, j)
                if pend is not None and s.pending is None:
                    s.pending = pend
                    if pend[1] is not None: s.inv.setdefault(pend[1], inv[pend[1]])
                if v[0] != "ok": bad = v
        for fd, (pid, buf) in live.items():
            os.kill(pid, signal.SIGKILL); os.close(fd); os.waitpid(pid, 0)
        if bad is None: return
        if bad[0] == "drop":
            s.lastfail = bad[3]
            s.inv.setdefault(bad[1], bad[4])
            raise Drop(bad[1], bad[2])
        raise Unsupported(bad[1])
