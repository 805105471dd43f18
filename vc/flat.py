"""Second obligation generator, for the functions that manage raw memory (slab.c, closure.c, tree.c): memory is one array of
32-bit words indexed by byte address, aliasing is decided by the solver, calls to functions of the same program are executed
in place, loops are either summarised as array fills (the summary is verified to be inductive) or cut at the invariant of the
contract.  Universally quantified facts are kept as closures and instantiated on the terms of the obligation."""
import time
from z3 import *
import ir
from engine import Unsupported
A64, B32 = BitVecSort(64), BitVecSort(32)
MS = ArraySort(A64, B32)
def bv(x, w=64): return BitVecVal(x, w)
_n = [0]
def fresh(p, s=A64):
    _n[0] += 1
    return Const("%s!%d" % (p, _n[0]), s)
class FObl:
    def __init__(s, tag, desc, hyps, univ, goal, terms, ax=()):
        s.tag, s.desc, s.hyps, s.univ, s.goal, s.terms, s.ax = tag, desc, list(hyps), list(univ), goal, list(terms), ax
        s.status, s.model, s.time, s.bounded = None, None, 0, ()
        g = simplify(goal)
        if is_true(g): s.status = "trivial"
class FS:
    def __init__(s):
        s.pc, s.univ, s.terms, s.M, s.g, s.regs = [], [], [], Const("M0", MS), {}, {}
    def copy(s):
        t = FS()
        t.pc, t.univ, t.terms, t.M, t.g, t.regs = list(s.pc), list(s.univ), list(s.terms), s.M, dict(s.g), s.regs
        return t
    def add(s, *fs): s.pc += fs
    def all(s, f, key="i"): s.univ.append((key, f))
    def term(s, *ts, key="i"): s.terms += [(key, t) for t in ts]
    # memory
    def ld(s, a, n):
        if n >= 4:
            ws = [Select(s.M, simplify(a + 4 * k)) for k in range(n // 4)]
            return ws[0] if len(ws) == 1 else Concat(*reversed(ws))
        b = simplify(a & 3); w = Select(s.M, simplify(a & ~bv(3)))
        if n == 2: return If(b == 0, Extract(15, 0, w), Extract(31, 16, w)) if not is_bv_value(b) else Extract(15, 0, w) if b.as_long() == 0 else Extract(31, 16, w)
        return Extract(7, 0, LShR(w, Extract(31, 0, b) * 8))
    def st(s, a, n, v):
        if n >= 4:
            for k in range(n // 4): s.M = Store(s.M, simplify(a + 4 * k), simplify(Extract(32 * k + 31, 32 * k, v)))
            return
        b = Extract(31, 0, a & 3); ad = simplify(a & ~bv(3)); w = Select(s.M, ad)
        m = BitVecVal((1 << (8 * n)) - 1, 32) << (b * 8)
        s.M = Store(s.M, ad, simplify((w & ~m) | (ZeroExt(32 - 8 * n, v) << (b * 8))))

class FContract:
    """setup(e, st, args) -> ctx object; ok(st, addr, n) access predicate; posts(ctx, st, ret) -> [(tag, desc, keyed skolem goal)]"""
    tracked = False
    groups = ()
    bounded = ()
    weight = 100
    def __init__(s, name, nparams, props, **kw):
        s.name, s.n, s.props = name, nparams, tuple(props)
        s.special = s.assumed = False
        s.__dict__.update(kw)
    def __getattr__(s, n): 
        if n.startswith("__"): raise AttributeError(n)
        return None
    def fits(s, fn): return fn is not None and len(fn.params) == s.n

class FEngine:
    def __init__(s, prog, contract, unroll=0):
        s.prog, s.c, s.obls, s.exits, s.unroll = prog, contract, [], [], unroll
        s.boundedflags, s.invlog, s.assumed, s.used_contracts, s.inlined = set(), [], set(), set(), set()
        s.quiet = False
        s.nal = 0
        s.steps = 0
    def obl(s, st, tag, desc, goal, terms=()):
        if s.quiet: return
        s.obls.append(FObl(tag, desc, st.pc, st.univ, goal, st.terms + list(terms), s.c.axioms or ()))
    def forall(s, st, tag, desc, f, key="i"):
        k = fresh("sk_" + key)
        s.obl(st, tag, desc, f(k), [(key, k)])
    def sat(s, st, *more):
        o = Solver(); o.set("timeout", 2000)
        fs = list(st.pc) + list(more) + inst(st.univ, st.terms)
        o.add(*fs, *selinst(st.univ, fs))
        return o.check() != unsat
    # ---- values
    def val(s, st, o):
        if o.k == "reg": return st.regs[o.v]
        if o.k == "int": return BitVecVal(o.v, o.t.w)
        if o.k in ("null", "zero"): return bv(0) if o.t.k == "ptr" else BitVecVal(0, o.t.w)
        if o.k == "undef": return fresh("undef", BitVecSort(64 if o.t.k == "ptr" else o.t.w))
        if o.k == "glob": return Const("glob_" + o.v, A64)
        if o.k == "cgep": return Const("cgep_%s" % abs(hash(str(o.v[1]))), A64)
        if o.k == "ccast":
            v = s.val(st, o.v[1]); w = 64 if o.v[2].k == "ptr" else o.v[2].w
            return simplify(v if v.size() == w else Extract(w - 1, 0, v) if w < v.size() else ZeroExt(w - v.size(), v))
        raise Unsupported("operand %s" % o.k)
    def gep(s, st, i):
        p = s.val(st, i.a[0])
        t = i.x
        for k, ix in enumerate(i.a[1:]):
            v = s.val(st, ix)
            if v.size() < 64: v = SignExt(64 - v.size(), v)
            if k == 0:
                z = ir.size(t)
                p = p + v * z
            elif t.k == "struct":
                f = simplify(v).as_long(); p = p + ir.field_off(t, f); t = t.fs[f]
            elif t.k == "arr": p = p + v * ir.size(t.e); t = t.e
            else: raise Unsupported("gep")
        return simplify(p)
    def access(s, st, a, n, what):
        if any(is_const(x) and x.decl().name().startswith("glob_") for x in [a]): return
        s.obl(st, "buf", "%s in bounds" % what, s.c.ok(s, st, a, n))
    # ---- execution of one function: yields via continuation list
    def call(s, fn, args, st, k, depth=0):
        if depth > 12: raise Unsupported("call depth")
        regs0 = st.regs
        st.regs = {n: a for (n, t), a in zip(fn.params, args)}
        L = ir.loops(fn)
        def ret(st2, v):
            st2.regs = regs0
            k(st2, v)
        s.block(fn, L, fn.order[0], None, st, ret, depth, {})
    def block(s, fn, L, b, prev, st, ret, depth, seen):
        s.steps += 1
        if s.steps > 4000: raise Unsupported("too many paths")
        if b in L and "stop" in seen and seen["stop"][0] == b: return seen["stop"][1](st, prev)
        ph = [i for i in fn.blocks[b] if i.op == "phi"]
        if ph:
            vals = []
            for i in ph:
                o = [x for x, p in i.a if p == prev]
                vals.append(s.val(st, o[0]))
            st.regs = dict(st.regs)
            for i, v in zip(ph, vals): st.regs[i.dst] = v
        if b in L:
            cnt = seen.get(b, 0)
            if seen.get("in") is not None and b in seen["in"] and cnt == 0: raise Unsupported("nested loop")
            if s.c.loopinv is not None:
                return s.loop_inv(fn, L, b, ph, st, ret, depth)
            return s.loop_fill(fn, L, b, ph, prev, st, ret, depth)
        s.run(fn, L, b, st, ret, depth, seen)
    def run(s, fn, L, b, st, ret, depth, seen, start=0):
        ins = fn.blocks[b]
        for n in range(start, len(ins)):
            i = ins[n]
            if i.op == "phi": continue
            if i.op == "call":
                def cont(st2, v, n=n, i=i):
                    st2.regs = dict(st2.regs)
                    if i.dst is not None: st2.regs[i.dst] = v
                    s.run(fn, L, b, st2, ret, depth, seen, n + 1)
                return s.docall(fn, i, st, cont, depth)
            if i.op == "br":
                if not i.a: return s.block(fn, L, i.x[0], b, st, ret, depth, seen)
                c = s.val(st, i.a[0])
                cs = simplify(c == 1)
                if is_true(cs): return s.block(fn, L, i.x[0], b, st, ret, depth, seen)
                if is_false(cs): return s.block(fn, L, i.x[1], b, st, ret, depth, seen)
                a, d = st.copy(), st.copy()
                a.add(cs); d.add(simplify(Not(cs)))
                if s.sat(a): s.block(fn, L, i.x[0], b, a, ret, depth, seen)
                if s.sat(d): s.block(fn, L, i.x[1], b, d, ret, depth, seen)
                return
            if i.op == "switch":
                v = s.val(st, i.a[0])
                rest = st.copy()
                for cv, tb in i.x[1]:
                    a = rest.copy(); a.add(v == BitVecVal(cv, v.size()))
                    if s.sat(a): s.block(fn, L, tb, b, a, ret, depth, seen)
                    rest.add(v != BitVecVal(cv, v.size()))
                if s.sat(rest): s.block(fn, L, i.x[0], b, rest, ret, depth, seen)
                return
            if i.op == "ret": return ret(st, s.val(st, i.a[0]) if i.a else None)
            if i.op == "unreachable": return
            st.regs = dict(st.regs)
            s.ins(st, i)
        raise Unsupported("block without end")
    def ins(s, st, i):
        r = st.regs
        V = lambda k: s.val(st, i.a[k])
        if i.op == "alloca":
            s.nal += 1
            r[i.dst] = bv(0x7f0000000000 + 65536 * s.nal)
        elif i.op == "gep": r[i.dst] = s.gep(st, i)
        elif i.op == "load":
            if i.a[0].k == "glob":
                if i.a[0].v.startswith("MNML_DEBUG"): r[i.dst] = BitVecVal(0, i.t.w); s.assumed.add("debug tracing is off"); return
                w = 64 if i.t.k == "ptr" else i.t.w
                r[i.dst] = Const("gl_" + i.a[0].v, BitVecSort(w)); return
            a = V(0); n = ir.size(i.t)
            s.access(st, a, n, "read")
            v = st.ld(a, n)
            w = 64 if i.t.k == "ptr" else i.t.w
            r[i.dst] = simplify(v if v.size() == w else Extract(w - 1, 0, v))
        elif i.op == "store":
            a = V(1); v = V(0); n = ir.size(i.a[0].t)
            if v.size() < 8 * n: v = ZeroExt(8 * n - v.size(), v)
            if i.a[1].k == "glob": raise Unsupported("global store")
            s.access(st, a, n, "write")
            if s.c.onstore: s.c.onstore(s, st, a, n, v)
            st.st(a, n, v)
        elif i.op in ("add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
            a, b = V(0), V(1)
            if i.op in ("udiv", "urem", "sdiv", "srem"): s.obl(st, "arith", "divisor not zero", b != 0)
            f = dict(add=lambda: a + b, sub=lambda: a - b, mul=lambda: a * b, udiv=lambda: UDiv(a, b), urem=lambda: URem(a, b), sdiv=lambda: a / b, srem=lambda: SRem(a, b), xor=lambda: a ^ b,
                     shl=lambda: a * bv(1 << b.as_long(), a.size()) if is_bv_value(b) and b.as_long() < a.size() else a << b, lshr=lambda: LShR(a, b), ashr=lambda: a >> b)
            if is_bv_value(b) and i.op in ("udiv", "urem"):
                n = b.as_long(); sh = n.bit_length() - 1
                if n and n & (n - 1) == 0:
                    f["udiv"] = lambda: LShR(a, sh)
                    f["urem"] = lambda: a & (n - 1)
            f["and"] = lambda: a & b; f["or"] = lambda: a | b
            r[i.dst] = simplify(f[i.op]())
        elif i.op == "icmp":
            a, b = V(0), V(1)
            f = dict(eq=lambda: a == b, ne=lambda: a != b, ult=lambda: ULT(a, b), ule=lambda: ULE(a, b), ugt=lambda: UGT(a, b), uge=lambda: UGE(a, b), slt=lambda: a < b, sle=lambda: a <= b, sgt=lambda: a > b, sge=lambda: a >= b)
            r[i.dst] = simplify(If(f[i.x](), BitVecVal(1, 1), BitVecVal(0, 1)))
        elif i.op in ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            a = V(0); w = 64 if i.t.k == "ptr" else i.t.w
            r[i.dst] = simplify(a if w == a.size() else Extract(w - 1, 0, a) if w < a.size() else (SignExt if i.op == "sext" else ZeroExt)(w - a.size(), a))
        elif i.op == "select": r[i.dst] = simplify(If(V(0) == 1, V(1), V(2)))
        else: raise Unsupported("instruction " + i.op)
    def docall(s, fn, i, st, k, depth):
        n = i.x.v if i.x.k == "glob" else None
        args = [s.val(st, a) for a in i.a if a.t.k != "float"] if n not in ("fprintf", "printf", "strftime") else []
        if n is None: raise Unsupported("indirect call")
        h = (s.c.ext or {}).get(n) or EXT.get(n)
        if h is not None: return h(s, st, args, k, i)
        g = fn.module.fns.get(n) or s.prog.get(n)
        if g is None: raise Unsupported("call of %s" % n)
        s.inlined.add(n)
        return s.call(g, args, st, k, depth + 1)
    # ---- loops
    def loop_inv(s, fn, L, h, ph, st, ret, depth):
        I = s.c.loopinv
        R0 = {i.dst: st.regs[i.dst] for i in ph}
        st.g = dict(st.g); st.g["entryM"] = st.M; st.g["entryph"] = R0
        for tag, d, f in I.inv(s, st, R0): s.check(st, "inv", "loop invariant holds initially: " + d, f)
        hs = st.copy(); hs.regs = dict(st.regs)
        hs.M = fresh("Mh", MS)
        ph1 = {}
        for i in ph: ph1[i.dst] = fresh("ph_" + i.dst, BitVecSort(64 if i.t.k == "ptr" else i.t.w)); hs.regs[i.dst] = ph1[i.dst]
        I.havoc(s, hs)
        for tag, d, f in I.inv(s, hs, ph1): s.assume(hs, f)
        s.invlog.append("%s: %s" % (fn.name, "; ".join(d for _, d, _ in I.inv(s, hs, ph1))))
        def back(st2, prev):
            r = {}
            for i in ph: r[i.dst] = s.val(st2, [x for x, p in i.a if p == prev][0])
            for tag, d, f in I.inv(s, st2, r): s.check(st2, "inv", "loop invariant preserved: " + d, f)
        s.run(fn, L, h, hs, ret, depth, {"stop": (h, back)})
    def check(s, st, tag, desc, f):
        if isinstance(f, tuple): s.forall(st, tag, desc, f[0], f[1])
        else: s.obl(st, tag, desc, f)
    def assume(s, st, f):
        if isinstance(f, tuple): st.all(f[0], f[1])
        else: st.add(f)
    def loop_fill(s, fn, L, h, ph, prev, st, ret, depth):
        """for-loops whose body stores at an affine address: verified closed form of the memory after t iterations"""
        t = fresh("t")
        body = L[h]
        one = {}
        def explore(base, regs, on_back, on_exit, quiet):
            q = s.quiet; s.quiet = quiet
            x = base.copy(); x.regs = dict(base.regs); x.regs.update(regs)
            M = x.M
            def ex(fn_, L_, b, prev_, st_, ret_, depth_, seen_): pass
            try: s.loopbody(fn, L, h, x, on_back, on_exit, depth)
            finally: s.quiet = q
        # phase 1: guess
        phv = {i.dst: fresh("g_" + i.dst, BitVecSort(64 if i.t.k == "ptr" else i.t.w)) for i in ph}
        backs = []
        probe = st.copy()
        probe.M = fresh("Mprobe", MS)
        probe.pc = list(st.pc)
        probe.univ = list(st.univ)
        base_M = st.M
        probe.M = base_M
        explore(probe, phv, lambda st2, p: backs.append((st2, p)), lambda st2, b, p: None, True)
        if not backs: raise Unsupported("loop that never iterates")
        if len(backs) > 1 and not all(x.M.eq(base_M) for x, _ in backs): raise Unsupported("loop with %d iterating paths" % len(backs))
        b2, bp = backs[0]
        step = {}
        for i in ph:
            nv = s.val(b2, [x for x, p in i.a if p == bp][0])
            d = simplify(nv - phv[i.dst])
            if not is_bv_value(d): raise Unsupported("loop variable %s is not affine" % i.dst)
            step[i.dst] = d
        writes = []
        m = b2.M
        while not m.eq(base_M):
            if m.decl().kind() != Z3_OP_STORE: raise Unsupported("loop memory")
            writes.append((m.arg(1), m.arg(2))); m = m.arg(0)
        writes.reverse()
        R0 = {i.dst: st.regs[i.dst] for i in ph}
        def at(k):
            return [(phv[n], simplify(R0[n] + (k if R0[n].size() == 64 else Extract(R0[n].size() - 1, 0, k)) * step[n])) for n in phv]
        def closed(k):
            if not writes: return base_M
            a = fresh("la")
            e = Select(base_M, a)
            for wa, wv in writes:
                A0 = simplify(substitute(wa, *at(bv(0)))); A1 = simplify(substitute(wa, *at(bv(1))))
                S = simplify(A1 - A0)
                if not is_bv_value(S) or S.as_long() == 0 or S.as_long() >= 1 << 63: raise Unsupported("store address of the loop is not affine")
                S = S.as_long()
                if S & (S - 1): raise Unsupported("stride")
                lg = S.bit_length() - 1
                q = LShR(a - A0, lg)
                e = If(And(Extract(lg - 1, 0, a - A0) == 0 if lg else BoolVal(True), ULT(q, k)), substitute(wv, *at(q)), e)
            return Lambda([a], e)
        # phase 2: verify the closed form
        regs_t = {n: simplify(substitute(v, *at(t))) for n, v in phv.items()}
        hs = st.copy(); hs.regs = dict(st.regs)
        hs.M = fresh("Mfill", MS)
        hs.term(t)
        hs.all(lambda a, M=hs.M, cl=closed(t): Select(M, a) == simplify(Select(cl, a)), "sel:" + hs.M.decl().name())
        # candidate bounds: induction variable against what the loop compares it with
        cands = []
        for bb in body:
            for i in fn.blocks[bb]:
                if i.op == "icmp" and i.a[0].k == "reg" and i.a[0].v in phv: cands.append((i.a[0].v, i.a[1], i.x))
        good = []
        tmax = bv(1 << 40)
        hs.add(ULT(t, tmax))
        for v, o, x in cands:
            # evaluate the bound at loop entry
            bd = None
            if o.k in ("int", "null"): bd = s.val(st, o)
            else:
                for st2, p in backs:
                    if o.v in st2.regs: bd = st2.regs[o.v]
            if bd is None: continue
            bd = simplify(substitute(bd, *at(bv(0)))) 
            c0 = ULE(R0[v], bd)
            o_ = Solver(); o_.set("timeout", 5000); o_.add(*st.pc, *inst(st.univ, st.terms), Not(c0))
            if o_.check() != unsat: continue
            good.append(ULE(regs_t[v], bd))
        hs.add(*good)
        for d, f in (s.c.loopkeep(s, st, hs) if s.c.loopkeep else []):
            s.obl(hs, "inv", "the loop does not change " + d, f)
        for d, f in (s.c.loopkeep(s, st, hs) if s.c.loopkeep else []): hs.add(f)
        s.invlog.append("%s: closed form of %d stores after t iterations, %d bounds" % (fn.name, len(writes), len(good)))
        def back(st2, p):
            for i in ph:
                nv = s.val(st2, [x for x, pp in i.a if pp == p][0])
                s.obl(st2, "inv", "loop variable %s advances" % i.dst, nv == substitute(phv[i.dst], *at(t + 1)))
            a = fresh("fa")
            s.obl(st2, "inv", "closed form of the filled array is preserved", Select(st2.M, a) == simplify(Select(closed(t + 1), a)), [("a", a)])
            for gd in good: s.obl(st2, "inv", "bound of the loop variable is preserved", substitute(gd, (t, t + 1)))
            s.obl(st2, "term", "iterations fit", ULT(t + 1, tmax))
        def out(st2, b, p): s.block(fn, L, b, p, st2, ret, depth, {})
        x = hs.copy(); x.regs = dict(hs.regs); x.regs.update(regs_t)
        s.loopbody(fn, L, h, x, back, out, depth)
    def loopbody(s, fn, L, h, st, on_back, on_exit, depth):
        body = L[h]
        def blk(b, prev, st):
            if b == h: return on_back(st, prev)
            if b not in body: return on_exit(st, b, prev)
            if b in L: raise Unsupported("nested loop")
            ph = [i for i in fn.blocks[b] if i.op == "phi"]
            st.regs = dict(st.regs)
            vals = [s.val(st, [x for x, p in i.a if p == prev][0]) for i in ph]
            for i, v in zip(ph, vals): st.regs[i.dst] = v
            go(b, st, 0)
        def go(b, st, start):
            ins = fn.blocks[b]
            for n in range(start, len(ins)):
                i = ins[n]
                if i.op == "phi": continue
                if i.op == "call":
                    def cont(st2, v, n=n, i=i):
                        st2.regs = dict(st2.regs)
                        if i.dst is not None: st2.regs[i.dst] = v
                        go(b, st2, n + 1)
                    return s.docall(fn, i, st, cont, depth)
                if i.op == "br":
                    if not i.a: return blk(i.x[0], b, st)
                    cs = simplify(s.val(st, i.a[0]) == 1)
                    if is_true(cs): return blk(i.x[0], b, st)
                    if is_false(cs): return blk(i.x[1], b, st)
                    a, d = st.copy(), st.copy()
                    a.add(cs); d.add(simplify(Not(cs)))
                    if s.sat(a): blk(i.x[0], b, a)
                    if s.sat(d): blk(i.x[1], b, d)
                    return
                if i.op == "ret": raise Unsupported("return inside a loop")
                if i.op in ("unreachable",): return
                if i.op == "switch": raise Unsupported("switch in a loop")
                st.regs = dict(st.regs)
                s.ins(st, i)
        go(h, st, 0)

def inst(univ, terms):
    out, seen = [], set()
    for key, f in univ:
        for k, t in terms:
            if k == key: out.append(f(t))
    return out
def ex_skip(e, st, args, k, i): k(st, fresh("r", BitVecSort(64 if i.t.k == "ptr" else i.t.w)) if i.t.k != "void" else None)
def ex_memset(e, st, args, k, i):
    p, c, n = args[:3]
    n = simplify(n)
    if not is_bv_value(n): raise Unsupported("memset of a variable size")
    n = n.as_long()
    if n % 4: raise Unsupported("memset size")
    c = Extract(7, 0, c)
    w = simplify(Concat(c, c, c, c))
    e.access(st, p, n, "memset")
    if e.c.onstore and n <= 256:
        for q in range(0, n, 4): e.c.onstore(e, st, simplify(p + q), 4, w)
    if n <= 256:
        for q in range(0, n, 4): st.M = Store(st.M, simplify(p + q), w)
    else:
        a = fresh("ma")
        M = st.M
        st.M = Lambda([a], If(And(ULT(a - p, n), Extract(1, 0, a - p) == 0), w, Select(M, a)))
    k(st, p)
def ex_abort(e, st, args, k, i):
    if e.c.onabort: e.c.onabort(e, st)
EXT = {"memset": ex_memset, "llvm.memset.p0.i64": ex_memset, "abort": ex_abort, "gettimeofday": ex_skip, "localtime": ex_skip, "strftime": ex_skip, "fprintf": ex_skip}
for _x in ("llvm.lifetime.start.p0", "llvm.lifetime.end.p0"): EXT[_x] = ex_skip

def verify(prog, fn, c):
    e = FEngine(prog, c)
    st = FS()
    args = [Const("p_" + n, A64 if t.k == "ptr" else BitVecSort(t.w)) for n, t in fn.params]
    ctx = c.setup(e, st, args) 
    def done(st2, v):
        e.exits.append(st2)
        c.posts(e, ctx, st2, v)
    e.call(fn, args, st, done)
    for x in c.abortok or (): pass
    return e, e.obls
def selinst(univ, fs):
    """facts about every cell of an array, instantiated where the obligation reads it"""
    want = {k[4:]: f for k, f in univ if k.startswith("sel:")}
    if not want: return []
    out, done, todo, vis = [], set(), list(fs), set()
    while todo:
        x = todo.pop()
        if x.get_id() in vis: continue
        vis.add(x.get_id())
        if is_app(x):
            if x.decl().kind() == Z3_OP_SELECT:
                bases, st_ = [], [x.arg(0)]
                while st_:
                    m = st_.pop()
                    if is_app(m) and m.decl().kind() == Z3_OP_STORE: st_.append(m.arg(0))
                    elif is_app(m) and m.decl().kind() == Z3_OP_ITE: st_ += [m.arg(1), m.arg(2)]
                    else: bases.append(m)
                for b in bases:
                    n = b.decl().name() if is_app(b) else None
                    if n in want and (n, x.arg(1).get_id()) not in done:
                        done.add((n, x.arg(1).get_id()))
                        f = want[n](x.arg(1))
                        out.append(f); todo.append(f)
            todo += x.children()
    return out
def close(univ, terms, rounds):
    return inst(univ, terms)
def discharge(o, timeout=20000):
    if o.status in ("trivial", "proved"): return o.status
    t0 = time.time()
    sol = Solver(); sol.set("timeout", timeout)
    hy = list(o.hyps) + inst(o.univ, o.terms)
    hy += selinst(o.univ, hy + [o.goal])
    sol.add(*hy); sol.add(Not(o.goal))
    r = sol.check()
    if r == unsat: o.status = "proved"
    elif r == sat: o.status = "failed"; o.model = sol.model()
    else: o.status = "unknown"
    o.time = time.time() - t0
    return o.status
