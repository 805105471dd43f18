"""Verification-condition generator: symbolic execution of one function's LLVM IR against contracts.

 * every callee with a contract is replaced by it; callees without one are inlined (recursion bounded, reported)
 * loops are cut at their header by inferred/annotated invariants; a loop without a sufficient invariant is
   unrolled to a stated bound instead (reported as bounded, never as proved)
 * the reference-count discipline is a ghost formal sum `own` over cells: +1 for a reference the function holds,
   -1 when it gives one up, moved by stores into cells; it must be exactly {result: 1} on every exit
"""
import z3, itertools
from z3 import *
from theory import *
import ir
from ir import IntT

from theory import NL as th_NL
class Unsupported(Exception): pass

# ----------------------------------------------------------------------------- pointers
class Ptr:
    __slots__ = ("k", "b", "o")
    def __init__(s, k, b, o=0): s.k, s.b, s.o = k, b, o
    def __repr__(s): return "%s[%s+%s]" % (s.k, s.b, s.o)
    def same(s, t):
        if s.k != t.k: return False
        so, to = s.o, t.o
        if isinstance(so, int) != isinstance(to, int): return False
        if isinstance(so, int):
            if so != to: return False
        elif not so.eq(to): return False
        if s.k in ("cell", "opq"): return s.b.eq(t.b)
        return s.b == t.b
def Cell(r, o=0): return Ptr("cell", r, o)
NULLP = Ptr("null", None, 0)
def same_val(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.same(b)
    if isinstance(a, Ptr) or isinstance(b, Ptr): return False
    if a is None or b is None: return a is b
    return a.eq(b)

class Obj:
    """memory object that is not a cell: stack/heap/global buffers and structs.
    f: dict offset -> (bytes, value) for typed accesses at constant offsets;  g: ghost dict;  size: int or BV64"""
    __slots__ = ("id", "size", "f", "g", "kind", "zero", "name")
    def __init__(s, id, size, kind, name=""):
        s.id, s.size, s.kind, s.f, s.g, s.zero, s.name = id, size, kind, {}, {}, False, name
    def copy(s):
        o = Obj(s.id, s.size, s.kind, s.name)
        o.f, o.g, o.zero = dict(s.f), dict(s.g), s.zero
        return o
    def equal(s, t):
        if s is t: return True
        if s.zero != t.zero or s.f.keys() != t.f.keys() or s.g.keys() != t.g.keys(): return False
        for k in s.f:
            if s.f[k][0] != t.f[k][0] or not same_val(s.f[k][1], t.f[k][1]): return False
        for k in s.g:
            a, b = s.g[k], t.g[k]
            if a is b: continue
            if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b): continue
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(
                    (x is y) or (isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.eq(y)) for x, y in zip(a, b)): continue
            return False
        return True

FIELD = {"refs": (0, BV32), "type": (4, BV16), "flags": (6, BV16), "cache": (8, Ref), "num": (16, BV64),
         "sym": (16, BV128), "car": (16, Ref), "cdr": (24, Ref)}
BASE = {}
def base(field, ver):
    k = (field, ver)
    if k not in BASE: BASE[k] = Function("%s@%d" % (field, ver), Ref, FIELD[field][1])
    return BASE[k]
VFUN = {}
def VF(ver):
    if ver not in VFUN: VFUN[ver] = Function("V@%d" % ver, Ref, Val)
    return VFUN[ver]
VNAMES = lambda: {"V@%d" % v for v in VFUN}

_ctr = itertools.count()
KEEP = {}
def keep(t):
    KEEP[t.get_id()] = t
    return t
def fresh(sort, name): return Const("%s!%d" % (name, next(_ctr)), sort)

class State:
    def __init__(s):
        s.pc = []            # facts
        s.pcid = set()
        s.ov = {f: [] for f in FIELD}      # overlay: field -> list of (ref, value), later entries win
        s.rver = 0           # version of refs base
        s.vver = 0           # version of V
        s.own = {}           # id -> (term, coeff)
        s.pend = []          # cells whose count was just decremented: (cell, newcount)
        s.w = None
        s.objs = {}
        s.fresh = {}         # id -> order for cells allocated here
        s.old = set()        # ids of refs that existed at entry
        s.born = {}          # id -> index (number of fresh cells when term first seen)
        s.tracked = []       # refs seen (terms)
        s.tid = set()
        s.pinned = []        # refs kept alive by the caller
        s.dep = []           # (root, ref): ref is reachable from root
        s.bounded = ()
        s.trace = ()
        s.log = []
        s.aux = {}
        s.ne = frozenset()      # pairs of cells known to be different
        s.stale = frozenset()   # cells relinked by a callee: their fields are unknown
        s.segs = []          # (head, p, X): value(head) = X ++ value(p), p on the spine of head
        s.typed = set()      # cells known to carry a proper type
        s.esc = set()        # fresh cells whose value has been mentioned in a fact
    def copy(s):
        t = State.__new__(State)
        t.pc = list(s.pc); t.pcid = set(s.pcid); t.ov = {f: list(v) for f, v in s.ov.items()}
        t.rver, t.vver = s.rver, s.vver
        t.own = dict(s.own); t.pend = list(s.pend); t.w = s.w
        t.objs = dict(s.objs); t.fresh = dict(s.fresh); t.old = set(s.old); t.born = dict(s.born)
        t.tracked = list(s.tracked); t.tid = set(s.tid); t.pinned = list(s.pinned); t.dep = list(s.dep)
        t.bounded = s.bounded; t.trace = s.trace; t.log = list(s.log); t.aux = dict(s.aux); t.esc = set(s.esc); t.typed = set(s.typed); t.segs = list(s.segs); t.stale = s.stale; t.ne = s.ne
        return t
    # -- facts
    def add(s, *fs):
        for f in fs:
            if z3.is_true(f) or f.get_id() in s.pcid: continue
            s.pcid.add(f.get_id())
            s.pc.append(f)
    # -- cells
    def track(s, r):
        i = r.get_id()
        if i not in s.tid:
            keep(r)
            s.tid.add(i); s.tracked.append(r)
            s.born.setdefault(i, len(s.fresh))
    def newcell(s, name="cell"):
        r = fresh(Ref, name)
        s.fresh[r.get_id()] = len(s.fresh)
        s.add(r != NULL)
        s.track(r)
        return r
    def distinct(s, a, b):
        """syntactically known to be different cells"""
        ia, ib = a.get_id(), b.get_id()
        if ia == ib: return False
        if (ia, ib) in s.ne: return True
        for x, y in ((ia, ib), (ib, ia)):
            if x in s.fresh:
                if y in s.fresh or y in s.old or b.eq(NULL) or a.eq(NULL): return True
                if y in s.born and s.born[y] <= s.fresh[x]: return True
        return False
    def differ(s, *rs):
        """cells known to be different (values are acyclic: a cell is not its own part)"""
        for a in rs:
            for b in rs:
                if not a.eq(b) and (a.get_id(), b.get_id()) not in s.ne:
                    keep(a); keep(b)
                    s.ne = s.ne | {(a.get_id(), b.get_id())}
                    s.add(a != b)
    def rd(s, field, r):
        ver = s.rver if field == "refs" else 0
        v = None
        conds = []
        for (t, x) in reversed(s.ov[field]):
            if t.eq(r): v = x; break
            if s.distinct(t, r): continue
            conds.append((t, x))
        if v is None: v = base(field, ver)(r)
        for t, x in reversed(conds): v = If(r == t, x, v)
        if FIELD[field][1] == Ref:
            if r.get_id() in s.old and not conds and field != "cache" : s.old.add(keep(v).get_id())
        return v
    def wr(s, field, r, v):
        l = s.ov[field]
        s.ov[field] = [(t, x) for (t, x) in l if not t.eq(r)] + [(r, v)]
    # -- ghost ownership
    def give(s, r, k):
        if r.eq(NULL): return
        i = keep(r).get_id()
        c = s.own.get(i, (r, 0))[1] + k
        if isinstance(c, int) and c == 0: s.own.pop(i, None)
        else: s.own[i] = (r, c)
    def owned(s, r):
        e = IntVal(0)
        for t, c in s.own.values():
            if t.eq(r): e = e + c
            elif s.distinct(t, r): continue
            else: e = e + If(t == r, IntVal(c) if isinstance(c, int) else c, IntVal(0))
        return e
    def st_uc(s): return any(isinstance(k, tuple) and k[0] == "uc" for k in s.aux)
    def V(s, r):
        s.track(r)
        return VF(s.vver)(r)
    def rtype(s, r): return s.rd("type", r)

    # facts linking V and the fields for every tracked cell at the current heap (depth = extra levels)
    def vfacts(s, extra=()):
        out = []
        done = set()
        work = [(r, 1, False) for r in extra] + [(r, 1, False) for r in s.tracked]
        V = VF(s.vver)
        while work:
            r, d, ptk = work.pop()
            if r.get_id() in done: continue
            done.add(r.get_id())
            if z3.is_const(r) and r.eq(NULL): continue
            if r.get_id() in s.stale: continue
            ty = s.rd("type", r)
            v = V(r)
            a, dd = s.rd("car", r), s.rd("cdr", r)
            fl = s.rd("flags", r)
            tc = Extract(0, 0, fl) == 1
            sty = simplify(ty)
            if z3.is_bv_value(sty) and not (1 <= sty.as_long() <= 7): continue
            fs = [is_nil(v) == (ty == T_NIL), is_tru(v) == (ty == T_TRUE), is_wild(v) == (ty == T_WILD),
                    is_chr(v) == (ty == T_CHAR), is_num(v) == (ty == T_NUMBER), is_sym(v) == (ty == T_SYMBOL),
                    is_pair(v) == (ty == T_PAIR),
                    Implies(ty == T_CHAR, v == chrv_(s.rd("num", r))),
                    Implies(ty == T_NUMBER, v == num(s.rd("num", r))),
                    Implies(ty == T_SYMBOL, v == sym(s.rd("sym", r), tc)),
                    Implies(ty == T_PAIR, v == pair(V(a), V(dd), tc)),
                    Implies(ty == T_PAIR, And(a != NULL, dd != NULL)),
                    Implies(ty == T_PAIR, s.rd("sym", r) == OTHERKEY(v))]
            tk = r.get_id() in s.old or r.get_id() in s.typed or ptk
            if tk or (z3.is_bv_value(sty)): out += fs
            else: out.append(Implies(And(UGE(ty, 1), ULE(ty, 7)), And(*fs)))
            if tk: out.append(And(UGE(ty, 1), ULE(ty, 7)))
            if d > 0:
                for x in (a, dd):
                    work.insert(0, (x, d - 1, False))
                    if tk and x.get_id() not in s.fresh:
                        tx = s.rd("type", x)
                        out.append(Implies(ty == T_PAIR, And(UGE(tx, 1), ULE(tx, 7))))
        return out
    def alive_facts(s, A):
        out = []
        neg = any((not isinstance(c, int)) or c < 0 for _, c in s.own.values())
        def nn(r): return (s.owned(r) >= 0) if neg else BoolVal(True)
        for r, _ in s.pend: out.append(A(r))
        for r in s.pinned: out.append(Implies(And(nn(r), s.aux.get(("pc", r.get_id()), BoolVal(True))), A(r)))
        for r in s.tracked:
            if s.own:
                o = s.owned(r)
                if not z3.is_int_value(simplify(o)) or simplify(o).as_long() >= 1: out.append(Implies(o >= 1, A(r)))
            ty = s.rd("type", r)
            a, d, h = s.rd("car", r), s.rd("cdr", r), s.rd("cache", r)
            out.append(Implies(And(A(r), ty == T_PAIR), And(Implies(nn(a), A(a)), Implies(nn(d), A(d)))))
            out.append(Implies(And(A(r), h != NULL, nn(h)), A(h)))
        for root, r in s.dep: out.append(Implies(And(A(root), nn(r)), A(r)))
        for o in s.objs.values():
            if o.kind == "lisp":
                for off, (n, v) in o.f.items():
                    if isinstance(v, Ptr) and v.k == "cell": out.append(Implies(nn(v.b), A(v.b)))
        return out
    def fast_alive(s, r, depth=0):
        if depth > 6: return False
        if any(p.eq(r) for p, _ in s.pend): return True
        neg = any((not isinstance(c, int)) or c < 0 for _, c in s.own.values())
        if neg: return False
        if any(p.eq(r) and ("pc", r.get_id()) not in s.aux for p in s.pinned): return True
        e = s.own.get(r.get_id())
        if e and not neg and isinstance(e[1], int) and e[1] >= 1: return True
        for root, x in s.dep:
            if x.eq(r) and s.fast_alive(root, depth + 1): return True
        for o in s.objs.values():
            if o.kind == "lisp":
                for off, (n, v) in o.f.items():
                    if isinstance(v, Ptr) and v.k == "cell" and v.b.eq(r): return True
        if z3.is_app(r) and r.num_args() == 1 and r.decl().name() in ("car@0", "cdr@0"):
            q = r.arg(0)
            f = r.decl().name()[:3]
            if s.rd(f, q).eq(r) and s.fast_alive(q, depth + 1): return True
        for q in s.tracked:
            for f in ("car", "cdr"):
                for t, x in s.ov[f]:
                    if t.eq(q) and x.eq(r) and s.rd(f, q).eq(r) and not q.eq(r) and s.fast_alive(q, depth + 1): return True
        return False

_ment = {}
def mentions(e, prefix):
    k = (e.get_id(), prefix)
    if k in _ment: return _ment[k]
    seen, st = set(), [e]
    r = False
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name().startswith(prefix): r = True; break
            st.extend(x.children())
    keep(e)
    _ment[k] = r
    return r

class Obl:
    __slots__ = ("fn", "tag", "desc", "hyps", "goal", "groups", "trace", "status", "model", "bounded", "time", "names", "pre")
    def __init__(s, fn, tag, desc, hyps, goal, groups, trace, bounded):
        s.fn, s.tag, s.desc, s.hyps, s.goal, s.groups, s.trace, s.bounded = fn, tag, desc, hyps, goal, groups, trace, bounded
        s.status, s.model, s.time, s.names, s.pre = None, None, 0, None, None

class Frame:
    """one activation being executed symbolically"""
    def __init__(s, fn, depth): s.fn, s.depth = fn, depth

class Engine:
    """verifies a single function against its contract"""
    def __init__(s, prog, contracts, externs, opts=None):
        s.prog = prog             # name -> Fn
        s.contracts = contracts
        s.ext = externs
        s.obls = []
        s.opts = dict(unroll=3, inline_depth=3, fuel=2, timeout=8000, groups={"struct"}, no_contract=set(), force_unroll=False, max_states=4000)
        s.opts.update(opts or {})
        s.inlined = set()
        s.used_contracts = set()
        s.assumed = set()
        s.boundedflags = set()
        s.liveness = {}
        s.loopinfo = {}
        s.nstates = 0
        s.quiet = 0               # >0: obligations are not recorded (invariant inference)
        s.fnname = None
        s.invlog = []

    # ------------------------------------------------------------------ obligations
    def oblige(s, st, tag, desc, goal, groups=None, extra=()):
        if z3.is_true(goal): 
            if not s.quiet: s.obls.append(Obl(s.fnname, tag, desc, [], goal, (), st.trace, st.bounded)); s.obls[-1].status = "trivial"
            return
        if s.quiet: return
        hyps = list(st.pc) + list(extra)
        s.obls.append(Obl(s.fnname, tag, desc, hyps, goal, groups or s.opts["groups"], st.trace, st.bounded))
        o = s.obls[-1]
        o.pre = st.copy()

    def prove(s, st, goal, timeout=None, groups=None, extra=(), fuel=None):
        if z3.is_true(goal): return True
        r, _, _ = s.decide(st, goal, groups or s.opts["groups"], extra, fuel or s.opts["fuel"], timeout or s.opts["timeout"])
        return r == unsat
    def decide(s, st, goal, groups, extra, fuel, timeout):
        hyps = list(st.pc) + list(extra)
        vf = st.vfacts(s.refs_in(hyps + [goal], st))
        base_ = hyps + vf + [Not(goal)]
        uf = unfold(base_, groups, fuel)
        # newly introduced V terms are not unfolded further
        r, sol = check(base_ + uf, timeout)
        return r, sol, base_ + uf
    def refs_in(s, es, st):
        """cells r for which V(r) occurs"""
        out, names, seen = [], {"V@%d" % st.vver, "type@0"}, set()
        for e in apps(es, names, set(), []):
            r = e.arg(0)
            if r.get_id() not in seen: seen.add(r.get_id()); out.append(r)
        return out

    def feasible(s, st, cond):
        c = simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if mentions(c, "refs@"): return True      # counts are unconstrained: both outcomes are explored
        hyps = st.pc + [c]
        tf = []
        for r in st.tracked:
            if r.get_id() not in st.fresh:
                t = st.rd("type", r)
                tf.append(And(UGE(t, 1), ULE(t, 7)))
        r, _ = check(hyps + tf, 300)
        if r == unsat: return False
        vf = st.vfacts(s.refs_in(hyps, st)) if s.opts.get("vfeas", True) else []
        r, _ = check(hyps + tf + vf + unfold(hyps + vf, {"struct"}, 1), 700)
        return r != unsat

    # ------------------------------------------------------------------ memory
    def alive(s, st, r, what):
        st.track(r)
        if st.fast_alive(r):
            if not s.quiet:
                s.obls.append(Obl(s.fnname, "safe", "live cell: " + what, [], BoolVal(True), (), st.trace, st.bounded))
                s.obls[-1].status = "syntactic"
            return
        if st.aux.get(("uc", r.get_id())): return   # just allocated, no reference counted yet
        if s.quiet: return
        A = Function("alive!%d" % next(_ctr), Ref, BoolSort())
        s.oblige(st, "safe", "live cell: " + what, A(r), extra=st.alive_facts(A))
    def is_pair_ob(s, st, r, what):
        if st.aux.get(("uc", r.get_id())): return
        if r.get_id() in st.fresh and simplify(st.rd("type", r)).eq(BitVecVal(0, 16)): return
        s.oblige(st, "safe", "head/tail of a pair only: " + what, st.rd("type", r) == T_PAIR)

    def newobj(s, st, size, kind, name=""):
        o = Obj(next(_ctr), size, kind, name)
        st.objs[o.id] = o
        return o
    def wobj(s, st, p):
        o = st.objs[p.b].copy()
        st.objs[p.b] = o
        return o

    def load(s, st, p, t, line):
        if p.k == "cell":
            r, o = p.b, p.o
            if not isinstance(o, int): raise Unsupported("symbolic cell offset")
            s.alive(st, r, "read " + line)
            if o == 0 and t.k == "int" and t.w == 32:
                v = st.rd("refs", r)
                if not st.aux.get(("uc", r.get_id())):
                    st.add(ULT(base("refs", st.rver)(r), BitVecVal(0x7fffffff, 32)))
                    s.assumed.add("reference counts of live cells stay below 2^31 (no overflow)")
                return v
            if o == 4 and t.k == "int" and t.w == 16:
                ty = st.rd("type", r)
                if r.get_id() not in st.fresh: st.add(And(UGE(ty, 1), ULE(ty, 7)))
                return ty
            if o == 6 and t.k == "int" and t.w == 16: return st.rd("flags", r)
            if o == 8 and t.k == "ptr":
                c = st.rd("cache", r); st.track(c); return Cell(c)
            if o == 16 and t.k == "int" and t.w == 64:
                v = st.rd("num", r)
                if s.opts.get("rawnum"):
                    st.add(v == RAWNUM(st.V(r)))
                    s.assumed.add("the number read from a cell that is not a number is some function of its value")
                return v
            if o == 16 and (t.k == "vec" or (t.k == "int" and t.w == 128)): return st.rd("sym", r)
            if o in (16, 24) and t.k == "ptr":
                f = "car" if o == 16 else "cdr"
                s.is_pair_ob(st, r, f + " " + line)
                v = st.rd(f, r)
                if r.get_id() in st.stale: v = fresh(Ref, "stale")
                st.track(v)
                if v.get_id() not in st.fresh: st.typed.add(v.get_id())
                st.add(v != NULL)
                return Cell(v)
            if t.k == "int" and t.w == 8 and o >= 16: return Extract(8 * (o - 16) + 7, 8 * (o - 16), st.rd("sym", r))
            if t.k == "int" and t.w == 32 and o == 4:   # type+flags in one go
                return Concat(st.rd("flags", r), st.rd("type", r))
            raise Unsupported("cell load %s %r" % (o, t))
        if p.k == "obj":
            o = st.objs[p.b]
            if o.kind == "dead":
                s.oblige(st, "safe", "read of freed memory " + line, BoolVal(False)); raise Unsupported("freed")
            n = ir.size(t)
            s.bounds(st, o, p.o, n, "read " + line)
            if isinstance(p.o, int):
                if p.o in o.f and o.f[p.o][0] == n:
                    v = o.f[p.o][1]
                    if isinstance(v, Ptr) and v.k == "cell": st.track(v.b)
                    return s.coerce(v, t)
                for off, (m, v) in o.f.items():
                    if off <= p.o and p.o + n <= off + m and z3.is_bv(v):
                        k = p.o - off
                        return s.coerce(Extract(8 * (k + n) - 1, 8 * k, v), t)
                if o.zero and not any(off < p.o + n and p.o < off + m for off, (m, v) in o.f.items()):
                    return s.coerce(BitVecVal(0, 8 * n), t)
            h = s.ext.get("__load__")
            if h:
                v = h(s, st, o, p, t)
                if v is not None: return v
            v = s.freshval(st, t, "ld")
            if isinstance(p.o, int) and not o.g: s.wobj(st, p).f[p.o] = (n, v)
            return v
        if p.k == "null":
            s.oblige(st, "safe", "null dereference " + line, BoolVal(False))
            raise PathEnd()
        if p.k == "opq":
            h = s.ext.get("__load_opq__")
            if h:
                v = h(s, st, p, t)
                if v is not None: return v
            raise Unsupported("load through opaque pointer %s" % line)
        raise Unsupported("load %r" % p)
    def coerce(s, v, t):
        if t.k == "ptr":
            if isinstance(v, Ptr): return v
            return Ptr("opq", v) if not (z3.is_bv_value(v) and v.as_long() == 0) else NULLP
        if isinstance(v, Ptr): return s.ptr2int(v)
        if t.k == "int" and t.w == 1: return v if z3.is_bool(v) else Extract(0, 0, v) == 1
        if z3.is_bool(v): return If(v, BitVecVal(1, 8 * ir.size(t)), BitVecVal(0, 8 * ir.size(t)))
        return v
    def freshval(s, st, t, name):
        if t.k == "ptr": return Ptr("opq", fresh(BV64, name))
        if t.k == "int" and t.w == 1: return fresh(BoolSort(), name)
        if t.k in ("int", "vec"): return fresh(BitVecSort(t.w), name)
        raise Unsupported("freshval %r" % t)
    def bounds(s, st, o, off, n, what):
        if o.kind in ("lisp", "ext"): return
        if z3.is_expr(n):
            n = simplify(n)
            if z3.is_bv_value(n): n = n.as_long()
        if isinstance(off, int) and isinstance(o.size, int) and isinstance(n, int):
            s.oblige(st, "buf", "in bounds: " + what, BoolVal(0 <= off and off + n <= o.size)); return
        sz = BitVecVal(o.size, 64) if isinstance(o.size, int) else o.size
        ofs = BitVecVal(off, 64) if isinstance(off, int) else off
        nn = BitVecVal(n, 64) if isinstance(n, int) else n
        s.oblige(st, "buf", "in bounds: " + what, And(ULE(nn, sz), ULE(ofs, sz - nn)))

    def store(s, st, p, v, t, line):
        if p.k == "cell":
            r, o = p.b, p.o
            s.alive(st, r, "write " + line)
            isfresh = r.get_id() in st.fresh
            if o == 0 and t.w == 32:
                old = st.rd("refs", r)
                d = simplify(v - old)
                st.wr("refs", r, v)
                st.aux.pop(("uc", r.get_id()), None)
                if z3.is_bv_value(d):
                    k = d.as_signed_long()
                    st.give(r, k)
                    if k < 0: st.pend.append((r, v))
                else:
                    raise Unsupported("reference count store " + line)
                return
            if o == 4 and t.w == 16: s.mutated(st, r, isfresh); st.wr("type", r, v); s.mutated2(st, r, isfresh); return
            if o == 6 and t.w == 16:
                old = st.rd("flags", r)
                if s.opts.get("marks"):
                    s.markstore(st, r, old, v, line); return
                if not isfresh or True:
                    wk0, wk1 = simplify(Extract(2, 2, old)), simplify(Extract(2, 2, v))
                    if not wk0.eq(wk1):
                        s.weak_toggle(st, r, wk0, wk1)
                t0, t1 = simplify(Extract(0, 0, old)), simplify(Extract(0, 0, v))
                if not t0.eq(t1): s.mutated(st, r, isfresh)
                st.wr("flags", r, v)
                if not t0.eq(t1): s.mutated2(st, r, isfresh)
                return
            if o == 8 and t.k == "ptr":
                st.wr("cache", r, s.ref(v)); return
            if o == 16 and t.k == "int" and t.w == 64: s.mutated(st, r, isfresh); st.wr("num", r, v); s.mutated2(st, r, isfresh); return
            if o == 16 and (t.k == "vec" or (t.k == "int" and t.w == 128)): s.mutated(st, r, isfresh); st.wr("sym", r, v); s.mutated2(st, r, isfresh); return
            if o in (16, 24) and t.k == "ptr":
                f = "car" if o == 16 else "cdr"
                s.is_pair_ob(st, r, f + " " + line)
                nv = s.ref(v)
                st.track(nv)
                oldv = st.rd(f, r)
                wk = simplify(Extract(2, 2, st.rd("flags", r))) if f == "car" else BitVecVal(0, 1)
                if f == "car" and not z3.is_bv_value(wk):
                    if s.opts.get("weak"):
                        st.give(oldv, 0)
                        s.cgive(st, oldv, If(wk == 0, IntVal(1), IntVal(0)))
                        s.cgive(st, nv, If(wk == 0, IntVal(-1), IntVal(0)))
                    else:
                        s.assumed.add("value pairs are never flagged weak (only symbol-table nodes are)")
                        st.add(wk == 0)
                        st.give(oldv, 1); st.give(nv, -1)
                elif f == "cdr" or wk.as_long() == 0:
                    st.give(oldv, 1); st.give(nv, -1)
                s.mutated(st, r, isfresh)
                st.wr(f, r, nv)
                s.mutated2(st, r, isfresh)
                return
            raise Unsupported("cell store " + line)
        if p.k == "obj":
            o = st.objs[p.b]
            if o.kind == "dead":
                s.oblige(st, "safe", "write to freed memory " + line, BoolVal(False)); raise Unsupported("freed")
            n = ir.size(t)
            s.bounds(st, o, p.o, n, "write " + line)
            if o.kind == "lisp" and p.o in (8, 16, 24, 32):
                oldv = o.f.get(p.o)
                if oldv is not None: st.give(oldv[1].b, 1)
                nv = s.ref(v); st.track(nv); st.give(nv, -1)
                if p.o >= 24 and oldv is not None: s.chanstore(st, p.o, oldv[1].b, nv, line)
            h = s.ext.get("__store__")
            if h and h(s, st, o, p, v, t): return
            o = s.wobj(st, p)
            if isinstance(p.o, int):
                for off in list(o.f):
                    m = o.f[off][0]
                    if off < p.o + n and p.o < off + m: del o.f[off]
                o.f[p.o] = (n, v)
            else:
                o.f.clear(); o.zero = False; o.g.clear()
            return
        if p.k == "null":
            s.oblige(st, "safe", "null dereference " + line, BoolVal(False)); raise PathEnd()
        raise Unsupported("store %r %s" % (p, line))
    def chanstore(s, st, off, old, new, line):
        """channel stacks as events: one channel pushed, or the current one popped, nothing else"""
        k = BitVecVal(off, 64)
        def eq(a, b): return a.eq(b) or s.prove(st, a == b, timeout=2000)
        if eq(st.rd("cdr", new), old) and s.prove(st, st.rd("type", new) == T_PAIR, timeout=2000): st.w = CHPUSH(st.w, k, st.V(st.rd("car", new)))
        elif eq(st.rd("cdr", old), new): st.w = CHPOP(st.w, k)
        else: s.oblige(st, "post", "a channel stack changes only by pushing one channel or popping the current one " + line, BoolVal(False))
    def markstore(s, st, r, old, v, line):
        """tail marks as events: the store may only set the mark of the head of a call; the marks are not read back"""
        s.oblige(st, "post", "only the tail mark changes " + line, And(Extract(15, 1, v) == Extract(15, 1, old), Extract(0, 0, v) == 1))
        for q in reversed(st.tracked):
            if st.rd("car", q).eq(r): break
        else:
            s.oblige(st, "post", "a mark goes to the head of a collected call " + line, BoolVal(False)); return
        h = st.V(r)
        st.w = If(Or(is_sym(h), is_pair(h)), MARKEV(st.w, st.V(q)), st.w)     # a mark on anything else is never looked at
    def cgive(s, st, r, c):
        c = simplify(c)
        if z3.is_int_value(c): st.give(r, c.as_long()); return
        i = r.get_id()
        o = st.own.get(i, (r, 0))[1]
        st.own[i] = (r, o + c)
    def weak_toggle(s, st, r, w0, w1):
        # a head edge that becomes weak gives its reference back, one that becomes strong takes one
        c = st.rd("car", r)
        isp = st.rd("type", r) == T_PAIR
        e = If(isp, BV2Int(w1) - BV2Int(w0), IntVal(0))
        e = simplify(e)
        if not z3.is_int_value(e):
            e = If(And(isp, w0 == 0, w1 == 1), IntVal(1), If(And(isp, w0 == 1, w1 == 0), IntVal(-1), IntVal(0)))
            if s.prove(st, And(isp, w0 == 0, w1 == 1)): e = IntVal(1)
            elif s.prove(st, And(isp, w0 == 1, w1 == 0)): e = IntVal(-1)
            elif s.prove(st, w0 == w1): e = IntVal(0)
        s.cgive(st, c, e)
    def mutated(s, st, r, isfresh):
        """before a write that changes what r denotes: old-version facts are made permanent"""
        if isfresh and r.get_id() not in st.esc: return
        st.add(*st.vfacts())
    def mutated2(s, st, r, isfresh):
        if isfresh and r.get_id() not in st.esc: return
        s.bump(st, r)
    def ref_eqs(s, st):
        """pairs of cell terms equated somewhere in the path condition"""
        out, seen, work = {}, set(), list(st.pc)
        while work:
            x = work.pop()
            if x.get_id() in seen or not z3.is_app(x): continue
            seen.add(x.get_id())
            if x.decl().kind() == z3.Z3_OP_EQ and x.arg(0).sort() == Ref:
                a, b = x.children()
                if not (a.eq(NULL) or b.eq(NULL)):
                    out.setdefault(a.get_id(), []).append(b); out.setdefault(b.get_id(), []).append(a)
            if x.sort() == BoolSort(): work.extend(x.children())
        return out
    def bump(s, st, target, also=(), alias=False):
        """the contents of `target` changed: values of cells not above it are unchanged (spines are not shared)"""
        o = VF(st.vver)
        anc = {target.get_id()} | {x.get_id() for x in also}
        if alias:
            eqs = s.ref_eqs(st)
            terms = {x.get_id(): x for x in [target] + list(also)}
            ch = True
            while ch:
                ch = False
                for q in st.tracked:
                    if q.get_id() in anc: continue
                    for f in ("car", "cdr"):
                        x = st.rd(f, q)
                        if x.get_id() in anc or any(a.get_id() in anc and s.prove(st, Implies(st.rd("type", q) == T_PAIR, x == a), timeout=2000) for a in eqs.get(x.get_id(), [])):
                            anc.add(q.get_id()); anc.add(keep(x).get_id()); ch = True; break
                    else:
                        if any(a.get_id() in anc and s.prove(st, q == a, timeout=2000) for a in eqs.get(q.get_id(), [])):
                            anc.add(q.get_id()); ch = True
        ch = True
        while ch:
            ch = False
            for q in st.tracked:
                if q.get_id() in anc: continue
                for f in ("car", "cdr"):
                    if any(x.get_id() in anc for x in ite_leaves(st.rd(f, q))): anc.add(q.get_id()); ch = True; break
        sg = []
        ch = True
        while ch:
            ch = False
            for (h, p_, X) in st.segs:
                if p_.get_id() in anc and (h, p_, X) not in sg:
                    sg.append((h, p_, X)); anc.add(h.get_id()); ch = True
            for q in st.tracked:
                if q.get_id() in anc: continue
                for f in ("car", "cdr"):
                    if any(x.get_id() in anc for x in ite_leaves(st.rd(f, q))): anc.add(q.get_id()); ch = True; break
        st.vver = next(_ctr) + 1
        n = VF(st.vver)
        for (h, p_, X) in sg: st.add(n(h) == APP(X, n(p_)))
        seen = set()
        for q in st.tracked:
            if q.get_id() not in anc: st.add(n(q) == o(q)); seen.add(q.get_id())
        for q in list(st.tracked):
            if q.get_id() in st.stale: continue
            ty = simplify(st.rd("type", q))
            if z3.is_bv_value(ty) and ty.as_long() != T_PAIR: continue
            for f in ("car", "cdr"):
                x = st.rd(f, q)
                if x.get_id() in anc or x.get_id() in seen or x.eq(NULL): continue
                if x.decl().name() == "if": continue
                keep(x); seen.add(x.get_id())
                st.add(n(x) == o(x))
        s.assumed.add("a destructive update changes only the values that contain the updated cell at a tracked position (list spines are unshared)")

    def ref(s, v):
        if isinstance(v, Ptr):
            if v.k == "cell":
                if v.o != 0: raise Unsupported("interior pointer stored")
                return v.b
            if v.k == "null": return NULL
        raise Unsupported("not a cell: %r" % (v,))
    ADDR = Function("ADDR", Ref, BV64)
    def ptr2int(s, v):
        if v.k == "null": return BitVecVal(0, 64)
        if v.k == "opq":
            return v.b + v.o if not (isinstance(v.o, int) and v.o == 0) else v.b
        if v.k == "cell": return Engine.ADDR(v.b) + v.o
        if v.k == "fn": return BitVec("FNADDR_" + v.b, 64)
        if v.k == "obj": return BitVec("OBJADDR_%d" % v.b, 64) + v.o
        raise Unsupported("ptr2int")

    def ptr_eq(s, a, b):
        if a.k == "null" and b.k == "null": return BoolVal(True)
        if a.k == "null": a, b = b, a
        if b.k == "null":
            if a.k == "cell": return (a.b == NULL) if a.o == 0 else BoolVal(False)
            if a.k == "opq": return s.ptr2int(a) == 0
            if a.k == "obj" and a.b in s.maybe_null: return s.maybe_null[a.b]
            return BoolVal(False)
        if a.k == "cell" and b.k == "cell":
            if a.o == b.o: return a.b == b.b
            return BoolVal(False)
        if a.k == "obj" and b.k == "obj":
            if a.b != b.b: return BoolVal(False)
            if isinstance(a.o, int) and isinstance(b.o, int): return BoolVal(a.o == b.o)
            return s.off(a) == s.off(b)
        if a.k == "fn" and b.k == "fn": return BoolVal(a.b == b.b)
        if "opq" in (a.k, b.k): return s.ptr2int(a) == s.ptr2int(b)
        return BoolVal(False)
    def off(s, p): return BitVecVal(p.o, 64) if isinstance(p.o, int) else p.o
    maybe_null = {}

    # ------------------------------------------------------------------ operands
    def val(s, st, regs, o):
        k = o.k
        if k == "reg": 
            return regs[o.v]
        if k == "int":
            if o.t.k == "int" and o.t.w == 1: return BoolVal(bool(o.v))
            return BitVecVal(o.v, o.t.w)
        if k == "null": return NULLP
        if k == "glob": return s.globptr(st, o.v)
        if k == "zero":
            if o.t.k == "vec": return BitVecVal(0, o.t.w)
            return None
        if k == "undef": return s.freshval(st, o.t, "undef")
        if k == "cgep":
            bt, a = o.v
            return s.gep(st, bt, [s.val(st, regs, x) for x in a])
        if k == "ccast":
            op, x, t = o.v
            return s.cast(st, op, s.val(st, regs, x), x.t, t)
        if k == "cvec":
            return fresh(BitVecSort(o.t.w), "cvec")
        raise Unsupported("operand %r" % o)
    def globptr(s, st, name):
        m = s.curmod
        if name in s.prog or name in m.decls or name in s.contracts: return Ptr("fn", name)
        if name not in m.globals: return Ptr("fn", name)
        g = m.globals[name]
        key = (m.src if not g["ext"] else "", name)
        oid = st.aux.get(("g",) + key)
        if oid is None:
            o = Obj("G:%s:%s" % key, ir.size(g["t"]), "glob", name)
            c = m.cstring(name) if g["const"] else None
            if c is not None: o.g["lit"] = c
            if g["init"] and g["init"].startswith("zeroinitializer") and not g["const"]: o.zero = False
            if name.startswith("MNML_DEBUG"):
                o.f[0] = (1, BitVecVal(0, 8))
                s.assumed.add("debug tracing is off (MNML_DEBUG unset); trace output code is not verified")
            st.objs[o.id] = o
            st.aux[("g",) + key] = o.id
            oid = o.id
        return Ptr("obj", oid, 0)
    def gep(s, st, bt, a):
        p = a[0]
        off = p.o if not (isinstance(p, Ptr) and p.k == "null") else 0
        t = bt
        def acc(off, idx, sz):
            if isinstance(idx, z3.BitVecRef):
                x = simplify(idx)
                if z3.is_bv_value(x): idx = x.as_signed_long()
                else:
                    if x.size() < 64: x = SignExt(64 - x.size(), x)
                    ob = BitVecVal(off, 64) if isinstance(off, int) else off
                    return simplify(ob + x * sz)
            if isinstance(off, int): return off + idx * sz
            return simplify(off + idx * sz)
        off = acc(off, a[1], ir.size(t))
        for i in a[2:]:
            if t.k == "struct":
                k = simplify(i).as_long()
                off = acc(off, ir.field_off(t, k), 1)
                t = t.fs[k]
            elif t.k in ("arr", "vec"):
                off = acc(off, i, ir.size(t.e)); t = t.e
            else: raise Unsupported("gep")
        return Ptr(p.k, p.b, off)
    def cast(s, st, op, v, ft, t):
        if op == "ptrtoint": return s.ptr2int(v)
        if op == "inttoptr":
            v = simplify(v)
            if z3.is_bv_value(v) and v.as_long() == 0: return NULLP
            return Ptr("opq", v)
        if op in ("bitcast", "freeze"): return v
        if isinstance(v, Ptr): raise Unsupported("cast")
        if op == "zext":
            if z3.is_bool(v): return If(v, BitVecVal(1, t.w), BitVecVal(0, t.w))
            return ZeroExt(t.w - v.size(), v)
        if op == "sext":
            if z3.is_bool(v): return If(v, BitVecVal(-1, t.w), BitVecVal(0, t.w))
            return SignExt(t.w - v.size(), v)
        if op == "trunc":
            if t.w == 1: return simplify(Extract(0, 0, v) == 1)
            return Extract(t.w - 1, 0, v)
        raise Unsupported(op)

    # ------------------------------------------------------------------ execution
    def live_in(s, fn):
        if fn.name in s.liveness and s.liveness[fn.name][0] is fn: return s.liveness[fn.name][1]
        use, deff = {}, {}
        def opsof(o, acc):
            if isinstance(o, ir.Op):
                if o.k == "reg": acc.add(o.v)
                elif o.k == "cgep":
                    for x in o.v[1]: opsof(x, acc)
                elif o.k == "ccast": opsof(o.v[1], acc)
        for b, il in fn.blocks.items():
            u, d = set(), set()
            for i in il:
                acc = set()
                if i.op != "phi":
                    for o in i.a: opsof(o, acc)
                    if i.op == "call": opsof(i.x, acc)
                u |= acc - d
                if i.dst: d.add(i.dst)
            use[b], deff[b] = u, d
        live = {b: set() for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.order):
                out = set()
                for t in ir.succs(fn.blocks[b]):
                    out |= live[t]
                    for i in fn.blocks[t]:
                        if i.op != "phi": break
                        for o, p in i.a:
                            if p == b: opsof(o, out)
                n = use[b] | (out - deff[b])
                n -= {i.dst for i in fn.blocks[b] if i.op == "phi"} - n if False else set()
                if n != live[b]: live[b] = n; ch = True
        # phis of the block are (re)defined on entry, but merged values matter: keep them
        for b, il in fn.blocks.items():
            for i in il:
                if i.op == "phi": live[b].add(i.dst)
        s.liveness[fn.name] = (fn, live)
        return live

    def rpo(s, fn):
        seen, out = set(), []
        def go(b):
            st = [(b, iter(ir.succs(fn.blocks[b])))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for t in it:
                    if t not in seen:
                        seen.add(t); st.append((t, iter(ir.succs(fn.blocks[t])))); break
                else:
                    out.append(x); st.pop()
        go(fn.order[0])
        out.reverse()
        # natural-loop friendly order: stable RPO is enough for reducible CFGs except for exits; good enough
        return {b: i for i, b in enumerate(out)}

    def merge(s, st1, r1, st2, r2, live):
        """merge two states that differ only in facts/reference counts; returns a state or None"""
        if st1.stale != st2.stale or [x[2] for x in st1.segs] != [x[2] for x in st2.segs]: return None
        if st1.vver != st2.vver or not (st1.w is st2.w or (st1.w is not None and st2.w is not None and st1.w.eq(st2.w))): return None
        if st1.own.keys() != st2.own.keys(): return None
        for k in st1.own:
            a, b = st1.own[k][1], st2.own[k][1]
            if isinstance(a, int) and isinstance(b, int):
                if a != b: return None
            elif isinstance(a, int) or isinstance(b, int) or not a.eq(b): return None
        if st1.pend or st2.pend: return None
        if st1.log != st2.log or st1.aux != st2.aux: return None
        for f in FIELD:
            if f == "refs": continue
            a, b = st1.ov[f], st2.ov[f]
            if len(a) != len(b) or not all(x.eq(y) and u.eq(v) for (x, u), (y, v) in zip(a, b)): return None
        if st1.objs.keys() != st2.objs.keys(): return None
        for k in st1.objs:
            if not st1.objs[k].equal(st2.objs[k]): return None
        for k in live:
            if (k in r1) != (k in r2): return None
            if k in r1 and not same_val(r1[k], r2[k]): return None
        st = st1.copy()
        ids2 = {f.get_id() for f in st2.pc}
        st.pc = [f for f in st1.pc if f.get_id() in ids2]
        ids1 = {f.get_id() for f in st1.pc}
        e1 = [f for f in st1.pc if f.get_id() not in ids2]
        e2 = [f for f in st2.pc if f.get_id() not in ids1]
        e1 = [f for f in e1 if not mentions(f, "refs@")]; e2 = [f for f in e2 if not mentions(f, "refs@")]
        if e1 and e2 and len(e1) <= 80 and len(e2) <= 80:
            d = simplify(Or(And(*e1), And(*e2)))
            if not z3.is_true(d): st.pc.append(d)
        st.pcid = {f.get_id() for f in st.pc}
        st.rver = next(_ctr) + 1
        st.ov["refs"] = []
        st.old = st1.old & st2.old
        st.typed = st1.typed & st2.typed
        st.esc = st1.esc | st2.esc
        st.tracked = [r for r in st1.tracked if r.get_id() in st2.tid]
        st.tid = {r.get_id() for r in st.tracked}
        st.pinned = [r for r in st1.pinned if any(r.eq(q) for q in st2.pinned)]
        st.bounded = tuple(sorted(set(st1.bounded) | set(st2.bounded)))
        return st

    def run(s, fn, args, st, depth, ondone):
        """execute fn from its entry; ondone(state, retval) is called for every exit"""
        savemod = s.curmod if hasattr(s, "curmod") else None
        regs = {}
        for (n, t), a in zip(fn.params, args): regs[n] = a
        order = s.rpo(fn)
        lp = ir.loops(fn)
        results = []
        s.exec_region(fn, [(fn.order[0], None, regs, st)], order, lp, None, None, depth, results)
        s.curmod = savemod
        for (x, v) in results: ondone(x, v)

    def exec_region(s, fn, starts, order, lp, within, stop_at, depth, results, backs=None, exits=None, skip_header=None):
        """run from `starts` [(block, pred, regs, state)]; if `within` (set of blocks) is given, states leaving the set
        are put in exits and states reaching stop_at (the loop header) in backs; returns via results"""
        live = s.live_in(fn)
        pending = {}
        first = True
        for (b, p, r, x) in starts: pending.setdefault(b, []).append((p, r, x))
        while pending:
            b = min(pending, key=lambda q: order[q])
            items = pending.pop(b)
            s.curmod = fn.module
            # phis
            ent = []
            for (p, r, x) in items:
                if p is not None:
                    nr = None
                    upd = {}
                    for i in fn.blocks[b]:
                        if i.op != "phi": break
                        for o, q in i.a:
                            if q == p: upd[i.dst] = s.val(x, r, o); break
                    if upd:
                        nr = dict(r); nr.update(upd); r = nr
                ent.append((r, x))
            # merging
            merged = []
            for (r, x) in ent:
                for k, (r2, x2) in enumerate(merged):
                    m = s.merge(x2, r2, x, r, live[b])
                    if m is not None: merged[k] = (r2, m); break
                else: merged.append((r, x))
            if b in lp and b != skip_header:
                for (r, x) in merged:
                    for (eb, ep, er, ex) in s.do_loop(fn, b, lp, order, r, x, depth, results):
                        if within is not None and eb == stop_at: backs.append((ep, er, ex))
                        elif within is not None and eb not in within: exits.append((eb, ep, er, ex))
                        else: pending.setdefault(eb, []).append((ep, er, ex))
                continue
            for (r, x) in merged:
                s.nstates += 1
                if s.nstates > s.opts["max_states"]: raise Unsupported("too many states in %s" % fn.name)
                for (nb, pb, nr, nx) in s.exec_block(fn, b, r, x, depth, results):
                    if within is not None and nb == stop_at: backs.append((pb, nr, nx))
                    elif within is not None and nb not in within: exits.append((nb, pb, nr, nx))
                    else: pending.setdefault(nb, []).append((pb, nr, nx))
            skip_header = None if skip_header == b else skip_header

    def exec_block(s, fn, b, regs, st, depth, results):
        """yields (nextblock, thisblock, regs, state)"""
        work = [(regs, st, 0)]
        out = []
        il = fn.blocks[b]
        while work:
            r, x, k = work.pop()
            try:
                while True:
                    s.curmod = fn.module
                    i = il[k]
                    op = i.op
                    if op == "phi": k += 1; continue
                    if op == "br":
                        if not i.a: out.append((i.x[0], b, r, x)); break
                        c = s.val(x, r, i.a[0])
                        c = simplify(c)
                        if z3.is_true(c): out.append((i.x[0], b, r, x)); break
                        if z3.is_false(c): out.append((i.x[1], b, r, x)); break
                        for cond, tgt in ((c, i.x[0]), (Not(c), i.x[1])):
                            y = s.assume(x, simplify(cond))
                            if y is not None: out.append((tgt, b, r, y))
                        break
                    if op == "switch":
                        v = s.val(x, r, i.a[0])
                        dflt, cases = i.x
                        neg = []
                        for cv, tgt in cases:
                            c = simplify(v == BitVecVal(cv, v.size()))
                            y = s.assume(x, c)
                            if y is not None: out.append((tgt, b, r, y))
                            neg.append(Not(c))
                        y = s.assume(x, simplify(And(*neg)))
                        if y is not None: out.append((dflt, b, r, y))
                        break
                    if op == "ret":
                        v = s.val(x, r, i.a[0]) if i.a else None
                        results.append((x, v)); break
                    if op == "unreachable": break
                    if op == "call":
                        outs = s.call(fn, i, r, x, depth)
                        if outs is None: break          # does not return
                        if len(outs) == 1:
                            x, v = outs[0]
                            if i.dst: r = dict(r); r[i.dst] = v
                            k += 1
                            continue
                        for (y, v) in outs:
                            nr = r
                            if i.dst: nr = dict(r); nr[i.dst] = v
                            work.append((nr, y, k + 1))
                        break
                    if i.op == "select" and i.t.k == "ptr":
                        c, a, b = [s.val(x, r, o) for o in i.a]
                        c = simplify(c)
                        if isinstance(a, Ptr) and isinstance(b, Ptr) and not z3.is_true(c) and not z3.is_false(c) and a.k != b.k and "obj" in (a.k, b.k):
                            for g, v in ((c, a), (Not(c), b)):
                                if s.feasible(x, g):
                                    y, nr = x.copy(), dict(r)
                                    y.add(g); nr[i.dst] = v
                                    work.append((nr, y, k + 1))
                            break
                    v = s.simple(fn, i, r, x)
                    if i.dst: r = dict(r); r[i.dst] = v
                    k += 1
            except PathEnd:
                pass
        return out

    def assume(s, st, c):
        if z3.is_false(c): return None
        if not z3.is_true(c) and not s.feasible(st, c): return None
        y = st.copy()
        y.add(c)
        # a decremented count known to be non zero needs no release
        if y.pend:
            np = []
            for (r, v) in y.pend:
                nz = simplify(v != 0)
                if any(f.eq(nz) for f in (c, simplify(Not(Not(c))))) or s.quick_entails(c, nz): continue
                np.append((r, v))
            y.pend = np
        return y
    def quick_entails(s, c, g):
        so = z3.Solver(); so.set("timeout", 500); so.add(c, Not(g))
        return so.check() == unsat

    def simple(s, fn, i, r, st):
        op = i.op
        if op == "load":
            return s.load(st, s.val(st, r, i.a[0]), i.t, i.line)
        if op == "store":
            v = s.val(st, r, i.a[0])
            s.store(st, s.val(st, r, i.a[1]), v, i.a[0].t, i.line); return None
        if op == "gep": return s.gep(st, i.x, [s.val(st, r, o) for o in i.a])
        if op == "alloca":
            n = 1
            if i.a[0] is not None:
                nv = simplify(s.val(st, r, i.a[0]))
                n = nv.as_long() if z3.is_bv_value(nv) else nv
            size = ir.size(i.x) * n
            o = s.newobj(st, size, "stack", i.dst or "")
            return Ptr("obj", o.id, 0)
        if op == "icmp":
            a, b = [s.val(st, r, o) for o in i.a]
            return s.icmp(i.x, a, b)
        if op in ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            return s.cast(st, op, s.val(st, r, i.a[0]), i.a[0].t, i.t)
        if op == "select":
            c, a, b = [s.val(st, r, o) for o in i.a]
            c = simplify(c)
            if z3.is_true(c): return a
            if z3.is_false(c): return b
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                if a.same(b): return a
                if a.k == "cell" and b.k == "cell" and a.o == b.o: 
                    v = If(c, a.b, b.b); st.track(v); return Cell(v, a.o)
                if {a.k, b.k} <= {"opq", "null"}: return Ptr("opq", If(c, s.ptr2int(a), s.ptr2int(b)))
                raise Unsupported("select on pointers")
            return If(c, a, b)
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "srem", "udiv", "urem"):
            a, b = [s.val(st, r, o) for o in i.a]
            if z3.is_bool(a):
                if op == "xor": return simplify(Xor(a, b))
                if op == "and": return And(a, b)
                if op == "or": return Or(a, b)
                raise Unsupported("i1 " + op)
            if op in ("sdiv", "srem", "udiv", "urem"):
                s.oblige(st, "arith", "division by zero " + i.line, b != 0)
                if op in ("sdiv", "srem"):
                    mn = BitVecVal(1 << (a.size() - 1), a.size())
                    s.oblige(st, "arith", "division overflow " + i.line, Not(And(a == mn, b == -1)))
            if op in ("mul", "sdiv", "srem") and not (z3.is_bv_value(simplify(a)) or z3.is_bv_value(simplify(b))): th_NL[0] = True
            f = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b,
                 "xor": lambda: a ^ b, "shl": lambda: a << b, "lshr": lambda: LShR(a, b), "ashr": lambda: a >> b,
                 "sdiv": lambda: a / b, "srem": lambda: SRem(a, b), "udiv": lambda: UDiv(a, b), "urem": lambda: URem(a, b)}[op]
            return simplify(f())
        raise Unsupported(op + ": " + i.line)
    def icmp(s, p, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr) or not isinstance(b, Ptr): raise Unsupported("icmp mix")
            if p in ("eq", "ne"):
                e = s.ptr_eq(a, b)
                return e if p == "eq" else Not(e)
            a, b = s.ptr2int(a), s.ptr2int(b)
        if z3.is_bool(a):
            return (a == b) if p == "eq" else Xor(a, b)
        return {"eq": lambda: a == b, "ne": lambda: a != b, "slt": lambda: a < b, "sle": lambda: a <= b, "sgt": lambda: a > b,
                "sge": lambda: a >= b, "ult": lambda: ULT(a, b), "ule": lambda: ULE(a, b), "ugt": lambda: UGT(a, b),
                "uge": lambda: UGE(a, b)}[p]()

    # ------------------------------------------------------------------ calls
    def call(s, fn, i, regs, st, depth):
        cal = s.val(st, regs, i.x)
        args = [s.val(st, regs, o) for o in i.a]
        if cal.k == "opq":
            h = s.ext.get("__indirect__")
            return h(s, st, cal, args, i)
        if cal.k != "fn": raise Unsupported("call through %r" % cal)
        name = cal.b
        f0 = fn.module.fns.get(name)
        if f0 is not None and f0.name != name and f0.name in s.contracts:      # one of several static functions with this name
            c = s.contracts[f0.name]
            if c.fits(f0): return s.apply(c, st, args, i, depth)
        if name in s.contracts and name not in s.opts["no_contract"]:
            c = s.contracts[name]
            if c.fits(s.prog.get(name)): return s.apply(c, st, args, i, depth)
        if name in s.ext: return s.ext[name](s, st, args, i)
        f = fn.module.fns.get(name) or s.prog.get(name)
        if f is not None:
            d = dict(depth)
            d[name] = d.get(name, 0) + 1
            if d[name] > s.opts["inline_depth"]:
                s.boundedflags.add("recursion of %s inlined to depth %d" % (name, s.opts["inline_depth"]))
                return None
            s.inlined.add(name)
            outs = []
            x = st.copy()
            s.run(f, args, x, d, lambda y, v: outs.append((y, v)))
            return outs or None
        raise Unsupported("no contract for external function " + name)

    def apply(s, c, st, args, i, depth):
        s.used_contracts.add(c.name)
        st = st.copy()
        if c.special: return c.special(s, st, args, i)
        ctx = Ctx(s, c, st, args)
        where = "call of %s" % c.name
        for desc, g in c.pre(ctx): s.oblige(st, "pre", "%s: %s" % (where, desc), g)
        if c.name == s.fnname and c.decreases and s.entryctx is not None:
            m0, m1 = c.decreases(s.entryctx), c.decreases(ctx)
            s.oblige(st, "term", "recursive %s decreases its measure" % where, And(m1 >= 0, m1 < m0))
        for k, kind in enumerate(c.kinds):
            if kind in ("cell", "own", "held") and args[k].k == "cell": s.alive(st, args[k].b, "argument %d of %s" % (k, c.name))
            if kind in ("cell", "own", "held") and args[k].k != "cell":
                s.oblige(st, "safe", "argument %d of %s is a cell" % (k, c.name), BoolVal(False)); raise PathEnd()
        for k, kind in enumerate(c.kinds):
            if kind in ("own", "held"): st.give(args[k].b, -1)
        for k, kind in enumerate(c.kinds):
            if kind == "held" and s.feasible(st, st.rd("type", args[k].b) == T_PAIR):
                y = st.copy(); y.add(st.rd("type", args[k].b) == T_PAIR)
                s.alive(y, args[k].b, "argument %d of %s, also held by the caller" % (k, c.name))
        st.esc |= set(st.fresh)
        # destructive list arguments: the values of the cells above or along them are no longer known
        if c.destructive:
            st.add(*st.vfacts())
            for k in c.destructive: s.bump_list(st, s.ref(args[k]))
        if c.world is not None: st.w = c.world(ctx)
        if c.havoc_globals: s.havoc_globals(st)
        if c.havoc_refs:
            st.rver = next(_ctr) + 1
            st.ov["refs"] = []
        if c.after: c.after(s, ctx)
        ctx.st = st
        ctx.w1 = st.w
        rv = None
        if c.ret in ("own", "ownnull", "borrow"):
            r = fresh(Ref, "r_" + c.name.replace("lisp_", ""))
            st.track(r)
            rv = Cell(r)
            if c.ret == "own": st.add(r != NULL); st.give(r, 1)
            if c.ret == "ownnull":
                y = st.copy(); y.add(r == NULL)
                y2 = st; y2.add(r != NULL); y2.give(r, 1)
                st.typed.add(r.get_id())
                outs = []
                for z, nul in ((y, True), (y2, False)):
                    cz = Ctx.__new__(Ctx); cz.__dict__.update(ctx.__dict__); cz.st = z; cz.w1 = z.w
                    cz.ret = NULLP if nul else rv
                    cz.rv = None if nul else z.V(r)
                    for q in c.post(cz): z.add(q[1])
                    if nul: z.own.pop(r.get_id(), None)
                    outs.append((z, NULLP if nul else rv))
                return outs
            st.typed.add(r.get_id())
            ctx.ret = rv
            ctx.rv = st.V(r)
            ctx.rtype = st.rd("type", r)
        elif c.ret == "bool": rv = fresh(BoolSort(), "b_" + c.name); ctx.ret = ctx.rv = rv
        elif c.ret == "opq": rv = Ptr("opq", fresh(BV64, "p_" + c.name)); ctx.ret, ctx.rv = rv, rv.b
        elif c.ret and c.ret.startswith("bv"): rv = fresh(BitVecSort(int(c.ret[2:])), "n_" + c.name); ctx.ret = ctx.rv = rv
        for q in c.post(ctx): st.add(q[1])
        for q in c.assume_post(ctx): st.add(q)
        return [(st, rv)]

    def bump_list(s, st, target):
        """the spine of list `target` may be relinked by the callee"""
        along = frozenset()
        q = target
        for _ in range(40):
            along = along | {keep(q).get_id()}
            n = st.rd("cdr", q)
            hit = [t for t in st.tracked if t.eq(n)]
            if not hit or n.get_id() in along: break
            q = hit[0]
        s.bump(st, target, [t for t in st.tracked if t.get_id() in along])
        # the head and tail of the spine cells are unknown from here on
        st.stale = st.stale | along

    def havoc_globals(s, st):
        for o in list(st.objs.values()):
            if o.kind == "lisp" and 8 in o.f:
                n = o.copy()
                for off in (8, 16):
                    if off not in o.f: continue
                    g = fresh(Ref, "globals"); st.track(g); st.typed.add(g.get_id()); st.add(g != NULL)
                    n.f[off] = (8, Cell(g))
                st.objs[o.id] = n

    # ------------------------------------------------------------------ loops
    def const_trip(s, fn, b, lp, r):
        """iterations of a loop that counts a constant number of times, or None"""
        defs = {i.dst: i for bb in lp[b] for i in fn.blocks[bb] if i.dst}
        hd = fn.blocks[b]
        br = hd[-1]
        cnd = next((i for i in hd if i.op == "icmp"), None)
        if cnd is None: return None
        def val(o, env):
            if o.k == "reg":
                if o.v in env: return env[o.v]
                i = defs.get(o.v)
                if i is None:
                    v = r.get(o.v)
                    return simplify(v) if v is not None and not isinstance(v, Ptr) else None
                if i.op in ("zext", "sext", "trunc"):
                    v = val(i.a[0], env)
                    if v is None or not z3.is_bv(v): return None
                    d = i.t.w - v.size()
                    return simplify(ZeroExt(d, v) if i.op == "zext" else SignExt(d, v) if i.op == "sext" else Extract(i.t.w - 1, 0, v))
                if i.op in ("add", "sub"):
                    x, y = val(i.a[0], env), val(i.a[1], env)
                    if x is None or y is None: return None
                    return simplify(x + y if i.op == "add" else x - y)
                return None
            try: return s.val(None, r, o)
            except Exception: return None
        env, phis = {}, [i for i in hd if i.op == "phi" and i.t.k == "int"]
        inner = {}
        for i in phis:
            for o, q in i.a:
                if q in lp[b]: inner.setdefault(i.dst, []).append(o)
            v = r.get(i.dst)
            if v is not None and not isinstance(v, Ptr) and z3.is_bv_value(simplify(v)): env[i.dst] = simplify(v)
        for n in range(65):
            x, y = val(cnd.a[0], env), val(cnd.a[1], env)
            if x is None or y is None or not z3.is_bv_value(x) or not z3.is_bv_value(simplify(y)): return None
            g = simplify(s.icmp(cnd.x, x, y))
            env2 = {}
            for d in env:
                vs = [val(o, env) for o in inner.get(d, [])]
                if len(vs) == 1 and vs[0] is not None and z3.is_bv_value(vs[0]): env2[d] = vs[0]
            if n and g.eq(first) is False: return n
            first = g
            env = env2
        return None
    def loop_unroll(s, fn, b, lp, order, r, x, depth, results, exact=None):
        K = exact or s.opts["unroll"]
        if not exact: s.boundedflags.add("loop in %s unrolled %d times" % (fn.name, K))
        exits = []
        cur = [(r, x)]
        for k in range(K + 1):
            backs = []
            nxt = []
            for (rr, xx) in cur:
                bk = []
                s.exec_region(fn, [(b, None, rr, xx)], order, lp, lp[b], b, depth, results, bk, exits, skip_header=b)
                backs += bk
            live = s.live_in(fn)[b]
            for (p, rr, xx) in backs:
                nr = s.enter(fn, b, p, rr, xx)
                for q, (r2, x2) in enumerate(nxt):
                    m = s.merge(x2, r2, xx, nr, live)
                    if m is not None: nxt[q] = (r2, m); break
                else: nxt.append((nr, xx))
            cur = nxt
            if not cur: break
        if exact and cur: raise Unsupported("loop of constant length in %s" % fn.name)
        return exits
    def enter(s, fn, b, p, r, x):
        upd = {}
        for i in fn.blocks[b]:
            if i.op != "phi": break
            for o, q in i.a:
                if q == p: upd[i.dst] = s.val(x, r, o); break
        nr = dict(r); nr.update(upd)
        return nr

    def do_loop(s, fn, b, lp, order, r, x, depth, results):
        if s.opts["force_unroll"]: return s.loop_unroll(fn, b, lp, order, r, x, depth, results)
        k = s.const_trip(fn, b, lp, r)
        if k is not None: return s.loop_unroll(fn, b, lp, order, r, x, depth, results, exact=k)
        try:
            return s.loop_inv(fn, b, lp, order, r, x, depth, results)
        except LoopFail as e:
            s.invlog.append("%s: no invariant (%s)" % (fn.name, e))
            return s.loop_unroll(fn, b, lp, order, r, x, depth, results)

    def loop_inv(s, fn, b, lp, order, r, x, depth, results):
        body = lp[b]
        phis = [i.dst for i in fn.blocks[b] if i.op == "phi"]
        cellphis = [p for p in phis if isinstance(r[p], Ptr) and r[p].k == "cell"]
        live = s.live_in(fn)[b]
        movable = [p for p in cellphis if r[p].o == 0 and x.own.get(r[p].b.get_id(), (0, 0))[1] in (1,)]
        configs = []
        for n in range(len(movable), -1, -1):
            for cs in itertools.combinations(movable, n):
                refs_ = [r[p].b.get_id() for p in cs]
                if len(set(refs_)) == len(refs_): configs.append(cs)
        last = "?"
        for cs in configs:
            try:
                return s.loop_try(fn, b, lp, order, r, x, depth, results, phis, cellphis, cs)
            except LoopFail as e:
                last = str(e)
        raise LoopFail(last)

    def loop_havoc(s, fn, b, r, x, phis, moved, chg):
        """state and registers at an arbitrary iteration"""
        h = x.copy()
        hr = dict(r)
        h.pend = []
        if x.pend: raise LoopFail("pending release at loop entry")
        h.rver = next(_ctr) + 1
        h.ov["refs"] = []
        deps = []
        for p in phis:
            v = r[p]
            if isinstance(v, Ptr):
                if v.k == "cell":
                    c = fresh(Ref, "phi_" + p)
                    h.track(c); h.typed.add(c.get_id()); h.add(c != NULL)
                    hr[p] = Cell(c, v.o)
                    if p in moved:
                        h.give(v.b, -1); h.give(c, 1)
                    else:
                        deps.append((v.b, c))
                        if s.walks(fn, b, p):
                            X_ = fresh(Val, "seg")
                            h.segs.append((v.b, c, X_))
                            h.add(h.V(v.b) == APP(X_, h.V(c)))
                elif v.k == "obj":
                    hr[p] = Ptr("obj", v.b, fresh(BV64, "off_" + p))
                elif v.k in ("opq",): hr[p] = Ptr("opq", fresh(BV64, "phi_" + p))
                elif v.k == "null": raise LoopFail("null phi")
                else: raise LoopFail("phi kind " + v.k)
            elif z3.is_bool(v): hr[p] = fresh(BoolSort(), "phi_" + p)
            else: hr[p] = fresh(v.sort(), "phi_" + p)
        if chg.get("w"): h.w = fresh(W, "w")
        if chg.get("globals"): s.havoc_globals(h)
        for oid in chg.get("z", ()):
            o = h.objs[oid].copy(); o.zero = False; h.objs[oid] = o
        for (f, _), t in chg.get("fld", {}).items():
            h.add(*h.vfacts())
            nv = fresh(Ref, "tail"); h.track(nv); h.typed.add(nv.get_id()); h.add(nv != NULL)
            h.differ(nv, t)
            h.wr(f, t, nv)
            s.bump(h, t)
        for (oid, off) in chg.get("f", ()):
            o = h.objs[oid].copy()
            n, v = o.f[off]
            if isinstance(v, Ptr):
                if v.k == "cell":
                    c = fresh(Ref, "fld"); h.track(c); h.typed.add(c.get_id()); h.add(c != NULL); o.f[off] = (n, Cell(c, v.o))
                else: o.f[off] = (n, Ptr("opq", fresh(BV64, "fld")))
            else: o.f[off] = (n, fresh(v.sort(), "fld"))
            h.objs[oid] = o
        for (oid, key) in chg.get("g", ()):
            o = h.objs[oid].copy()
            if key not in o.g: raise LoopFail("ghost")
            o.g[key] = fresh(o.g[key].sort(), "gh")
            h.objs[oid] = o
        h.dep = h.dep + deps
        return h, hr

    def walks(s, fn, b, p):
        """every back edge moves p to the tail of the pair p points to"""
        body = ir.loops(fn)[b]
        phi = [i for i in fn.blocks[b] if i.op == "phi" and i.dst == p][0]
        defs = {}
        for blk in body:
            for i in fn.blocks[blk]:
                if i.dst: defs[i.dst] = i
        ok = False
        for o, q in phi.a:
            if q not in body: continue
            if o.k != "reg": return False
            v = o.v
            # strip gep of the pair member, load of cdr, gep of cdr
            d = defs.get(v)
            seen_load = False
            off = 0
            for _ in range(8):
                if v == p: break
                d = defs.get(v)
                if d is None: return False
                if d.op == "gep" and d.a[0].k == "reg":
                    idx = [x.v for x in d.a[1:]]
                    if any(x.k != "int" for x in d.a[1:]): return False
                    t, o2 = d.x, d.a[1].v * ir.size(d.x)
                    for k in idx[1:]:
                        if t.k != "struct": return False
                        o2 += ir.field_off(t, k); t = t.fs[k]
                    off += o2
                    v = d.a[0].v
                elif d.op == "load" and not seen_load and d.a[0].k == "reg":
                    seen_load = True
                    po = off; off = 0
                    v = d.a[0].v
                else: return False
            if v != p or not seen_load: return False
            # p at offset po holds the pair; off must select cdr
            if not (po in (0, 16) and off + po == 24): return False
            ok = True
        return ok

    def loop_body(s, fn, b, lp, order, hr, h, depth):
        backs, exits, res = [], [], []
        s.exec_region(fn, [(b, None, hr, h)], order, lp, lp[b], b, depth, res, backs, exits, skip_header=b)
        return backs, exits, res

    def loop_try(s, fn, b, lp, order, r, x, depth, results, phis, cellphis, moved):
        # 1. which non-register state does the body change?
        chg = {"w": False, "globals": False, "f": set(), "g": set(), "z": set(), "fld": {}}
        s.quiet += 1
        ns = s.nstates
        try:
            for attempt in range(5):
                h, hr = s.loop_havoc(fn, b, r, x, phis, moved, chg)
                backs, exits, res = s.loop_body(fn, b, lp, order, hr, h.copy(), depth)
                again = False
                for (p, br, bx) in backs:
                    if not chg["w"] and not (bx.w is h.w or (bx.w is not None and bx.w.eq(h.w))): chg["w"] = True; again = True
                    for f in FIELD:
                        if f == "refs": continue
                        for (t, v) in bx.ov[f]:
                            if t.get_id() in bx.fresh and t.get_id() not in h.fresh: continue
                            if any(t.eq(t2) and v.eq(v2) for t2, v2 in h.ov[f]): continue
                            if f in ("cache",) or t.get_id() not in h.tid or any(t.eq(hr[q].b) for q in moved): continue
                            if f == "cdr" and t.get_id() in x.tid and not any(t.eq(r[q].b) for q in moved):
                                # a cell of the state before the loop whose tail the body replaces
                                if (f, t.get_id()) not in chg["fld"]: chg["fld"][(f, t.get_id())] = t; again = True
                                continue
                            raise LoopFail("loop body writes field %s" % f)
                    for oid, o in h.objs.items():
                        bo = bx.objs.get(oid)
                        if bo is None or o.equal(bo): continue
                        for off in set(o.f) | set(bo.f):
                            if off not in o.f:
                                # first touched in the body: give it a value at entry
                                nx = x.objs[oid].copy()
                                n, v = bo.f[off]
                                nx.f[off] = (n, s.freshval_like(v))
                                x.objs[oid] = nx
                                chg["f"].add((oid, off)); again = True
                            elif off not in bo.f: raise LoopFail("object field lost")
                            elif not same_val(o.f[off][1], bo.f[off][1]):
                                if o.kind == "lisp" and off in (8, 16):
                                    if not chg["globals"]: chg["globals"] = True; again = True
                                elif (oid, off) not in chg["f"]: chg["f"].add((oid, off)); again = True
                        for key in set(o.g) | set(bo.g):
                            if key not in o.g or key not in bo.g: raise LoopFail("ghost " + str(key))
                            a_, b_ = o.g[key], bo.g[key]
                            if a_ is b_ or (isinstance(a_, z3.ExprRef) and isinstance(b_, z3.ExprRef) and a_.eq(b_)): continue
                            if not isinstance(a_, z3.ExprRef): raise LoopFail("ghost " + str(key))
                            if (oid, key) not in chg["g"]: chg["g"].add((oid, key)); again = True
                        if o.zero != bo.zero:
                            if not o.zero: raise LoopFail("zero flag")
                            if oid not in chg["z"]: chg["z"].add(oid); again = True
                if not again: break
            # 2. candidate invariants
            cands = s.candidates(fn, b, r, x, hr, h, phis, cellphis, chg)
            # initial
            good = []
            for (d, f_) in cands:
                g = f_(r, x)
                if g is None: continue
                if s.prove(x, g, timeout=4000): good.append((d, f_))
            # 3. Houdini
            for rnd in range(8):
                h2 = h.copy()
                for (d, f_) in good: h2.add(f_(hr, h2))
                backs, exits, res = s.loop_body(fn, b, lp, order, hr, h2, depth)
                keep_ = []
                for (d, f_) in good:
                    ok = True
                    for (p, br, bx) in backs:
                        nr = s.enter(fn, b, p, br, bx)
                        g = f_(nr, bx)
                        if g is None or not s.prove(bx, g, timeout=15000 if "preserved" in d else 4000): ok = False; break
                    if ok: keep_.append((d, f_))
                if len(keep_) == len(good): break
                good = keep_
            # 4. ownership and liveness at the back edges
            for (p, br, bx) in backs:
                nr = s.enter(fn, b, p, br, bx)
                if bx.pend:
                    for (c_, v_) in bx.pend:
                        if not s.prove(bx, v_ != 0): raise LoopFail("pending release at back edge")
                sub = {}
                exp = dict(h.own)
                for q in moved:
                    i0 = hr[q].b.get_id()
                    t, c = exp[i0]
                    c -= 1
                    if c == 0: exp.pop(i0)
                    else: exp[i0] = (t, c)
                e2 = {}
                for t, c in exp.values(): e2[t.get_id()] = (t, e2.get(t.get_id(), (t, 0))[1] + c)
                for q in moved:
                    t = nr[q].b
                    e2[t.get_id()] = (t, e2.get(t.get_id(), (t, 0))[1] + 1)
                if not s.own_equal(bx, bx.own, e2): raise LoopFail("ownership is not stable")
                for q in cellphis:
                    if q in moved: continue
                    nv = nr[q]
                    if not isinstance(nv, Ptr) or nv.k != "cell" or nv.o != r[q].o: raise LoopFail("phi shape")
                    if nv.b.eq(hr[q].b): continue
                    if not s.is_alive(bx, nv.b): raise LoopFail("next element not known live")
                    if any(sg[1].eq(hr[q].b) for sg in h.segs) and not s.prove(bx, And(h.rd("type", hr[q].b) == T_PAIR, nv.b == h.rd("cdr", hr[q].b))): raise LoopFail("walk")
                for q in phis:
                    if isinstance(r[q], Ptr) and r[q].k == "obj":
                        nv = nr[q]
                        if nv.k != "obj" or nv.b != r[q].b: raise LoopFail("phi object")
        finally:
            s.quiet -= 1
        # liveness of the walk at entry
        for q in cellphis:
            if q not in moved and not s.is_alive(x, r[q].b): raise LoopFail("entry element not known live")
        # 5. final pass, obligations recorded
        for (d, f_) in good:
            s.note(x, "inv", "loop invariant in %s: %s" % (fn.name, d))
        s.invlog.append("%s: %s%s" % (fn.name, "; ".join(d for d, _ in good) or "frame", " [moves %s]" % ",".join(moved) if moved else ""))
        h2 = h.copy()
        for (d, f_) in good: h2.add(f_(hr, h2))
        backs, exits, res = s.loop_body(fn, b, lp, order, hr, h2, depth)
        # measure
        if s.opts.get("total_loops", True):
            ok = False
            for (d, m) in s.measures(fn, b, r, hr, phis, cellphis):
                allok = True
                for (p, br, bx) in backs:
                    nr = s.enter(fn, b, p, br, bx)
                    m0, m1 = m(hr, h2), m(nr, bx)
                    if m0 is None or m1 is None or not s.prove(bx, And(m1 >= 0, m1 < m0), timeout=3000): allok = False; break
                if allok: ok = True; s.note(x, "term", "loop in %s terminates: %s decreases" % (fn.name, d)); break
            if not ok: s.invlog.append("%s: loop termination not established" % fn.name); s.nonterm.add(fn.name)
        results.extend(res)
        return exits

    def note(s, st, tag, desc):
        if s.quiet: return
        o = Obl(s.fnname, tag, desc, [], BoolVal(True), (), st.trace, st.bounded)
        o.status = "proved"
        s.obls.append(o)
    def freshval_like(s, v):
        if isinstance(v, Ptr):
            if v.k == "cell": return Cell(fresh(Ref, "u"), 0)
            return Ptr("opq", fresh(BV64, "u"))
        return fresh(v.sort(), "u")
    def is_alive(s, st, r):
        if st.fast_alive(r): return True
        A = Function("alive!%d" % next(_ctr), Ref, BoolSort())
        return s.prove(st, A(r), extra=st.alive_facts(A), timeout=4000)
    def own_equal(s, st, o1, o2):
        ks = set(o1) | set(o2)
        if all(o1.get(k, (0, 0))[1] == o2.get(k, (0, 0))[1] if isinstance(o1.get(k, (0, 0))[1], int) and isinstance(o2.get(k, (0, 0))[1], int) else False for k in ks): return True
        return s.prove(st, s.own_goal(st, o1, o2), timeout=4000)
    def own_goal(s, st, o1, o2):
        """the two formal sums are the same function of cells"""
        z = fresh(Ref, "x")
        def sm(o): return Sum([IntVal(0)] + [If(t == z, IntVal(c) if isinstance(c, int) else c, IntVal(0)) for t, c in o.values()])
        return sm(o1) == sm(o2)

    def measures(s, fn, b, r, hr, phis, cellphis):
        out = []
        for p in cellphis:
            out.append(("size of " + p, lambda R, X, p=p: SIZE(X.V(R[p].b)) if isinstance(R[p], Ptr) and R[p].k == "cell" else None))
        bvs = [p for p in phis if not isinstance(r[p], Ptr) and z3.is_bv(r[p])]
        for p in bvs:
            for bd in s.loop_bounds(fn, b, r):
                if bd.size() != r[p].size(): continue
                out.append(("bound - " + p, lambda R, X, p=p, bd=bd: BV2Int(bd - R[p])))
        return out
    def loop_bounds(s, fn, b, r):
        """loop-invariant bit-vector values compared in the loop"""
        out = []
        seen = set()
        for blk in ir.loops(fn)[b]:
            for i in fn.blocks[blk]:
                if i.op == "icmp":
                    for o in i.a:
                        if o.k == "reg" and o.v in r and not isinstance(r[o.v], Ptr) and r[o.v] is not None and z3.is_bv(r[o.v]):
                            if o.v in [j.dst for j in fn.blocks[b] if j.op == "phi"]: continue
                            if o.v not in seen: seen.add(o.v); out.append(r[o.v])
                        elif o.k == "int" and o.t.k == "int" and o.t.w > 1: out.append(BitVecVal(o.v, o.t.w))
        return out

    def candidates(s, fn, b, r, x, hr, h, phis, cellphis, chg):
        C = []
        for p in cellphis:
            C.append(("type(%s) = pair" % p, lambda R, X, p=p: X.rd("type", R[p].b) == T_PAIR))
            C.append(("%s is a list" % p, lambda R, X, p=p: is_list(X.V(R[p].b))))
            C.append(("ALIST(%s)" % p, lambda R, X, p=p: ALIST(X.V(R[p].b))))
            C.append(("ISSTR(%s)" % p, lambda R, X, p=p: ISSTR(X.V(R[p].b))))
        for p in phis:
            if isinstance(r[p], Ptr): 
                continue
            if z3.is_bool(r[p]):
                C.append(("%s unchanged" % p, lambda R, X, p=p: R[p] == r[p]))
                continue
            C.append(("%s unchanged" % p, lambda R, X, p=p: R[p] == r[p]))
            for bd in s.loop_bounds(fn, b, r):
                if bd.size() != r[p].size(): continue
                C.append(("%s <= bound %s" % (p, bd), lambda R, X, p=p, bd=bd: ULE(R[p], bd)))
                C.append(("%s >= bound %s" % (p, bd), lambda R, X, p=p, bd=bd: UGE(R[p], bd)))
        # specification hints: F(entry arguments) == [acc +] F(current arguments)
        for hint in s.hints:
            C += hint(s, fn, b, r, x, phis, cellphis)
        return C

def ite_leaves(x):
    """the cells an expression may stand for"""
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: return ite_leaves(x.arg(1)) + ite_leaves(x.arg(2))
    return [x]
class LoopFail(Exception): pass
class PathEnd(Exception): pass

def fold_hint(name, F, argf, acc=True, wpos=None):
    """loop hint: F(args at loop entry) is preserved when the phis initialised with those args move on.
    argf(ctx) -> list of terms (sort Val, World or other) of F's arguments in terms of the contract's entry context"""
    def mk(ctx):
        def gen(s, fn, b, r, x, phis, cellphis):
            out = []
            args = argf(ctx)
            # which phi stands for which argument
            pos = {}
            for k, a in enumerate(args):
                if a.sort() != Val: continue
                for p in cellphis:
                    if s.prove(x, x.V(r[p].b) == a, timeout=1500): pos.setdefault(k, []).append(p)
            choices = [[]]
            for k in sorted(pos):
                choices = [c + [(k, p)] for c in choices for p in pos[k] + [None]]
            w0 = x.w
            for ch in choices[:24]:
                ch = [(k, p) for k, p in ch if p is not None]
                if not ch: continue
                def inst(R, X, ch=ch):
                    aa = []
                    for k, a in enumerate(args):
                        q = [p for kk, p in ch if kk == k]
                        if q: aa.append(X.V(R[q[0]].b))
                        elif a.sort() == W: aa.append(X.w)
                        else: aa.append(a)
                    return F(*aa)
                def base_(): 
                    return F(*[w0 if a.sort() == W else a for a in args])
                nm = "%s(%s)" % (name, ",".join(p for _, p in ch))
                out.append((nm + " preserved", lambda R, X, inst=inst: inst(R, X) == base_()))
                srt = base_().sort()
                if acc and isinstance(srt, z3.BitVecSortRef):
                    for p in phis:
                        if not isinstance(r[p], Ptr) and z3.is_bv(r[p]) and r[p].size() == srt.size():
                            out.append(("%s + %s" % (p, nm), lambda R, X, inst=inst, p=p: R[p] - r[p] + inst(R, X) == base_()))
            return out
        return gen
    return mk

class Ctx:
    """what a contract talks about: arguments, entry values, world, result"""
    def __init__(s, eng, c, st, args):
        s.e, s.c, s.st, s.args = eng, c, st, args
        s.w0 = s.w1 = st.w
        s.ret = s.rv = None
        s.v = []
        for k, kind in enumerate(c.kinds):
            a = args[k]
            if kind in ("cell", "own", "held"):
                if not (isinstance(a, Ptr) and a.k == "cell"): s.v.append(None)
                else: s.v.append(st.V(eng.ref(a)))
            elif kind == "sym":
                s.v.append(eng.load(st, a, ir.T("vec", 128, ir.IntT(64), 2), "symbol argument of " + c.name))
            else: s.v.append(a)
        s.types0 = [st.rd("type", a.b) if isinstance(a, Ptr) and a.k == "cell" else None for a in args]
        s.snap = st.copy()
        s.lispobj = None
        for a in args:
            if isinstance(a, Ptr) and a.k == "obj" and a.b in st.objs and st.objs[a.b].kind == "lisp": s.lispobj = a.b
    def ref(s, k): return s.e.ref(s.args[k])
    def lispf(s, off, st=None):
        o = (st or s.snap).objs.get(s.lispobj)
        return o.f[off][1].b

class Contract:
    def __init__(s, name, kinds, ret, post=None, pre=None, world=None, decreases=None, hints=(), groups=("struct",), destructive=(),
                 props=(), havoc_globals=False, havoc_refs=True, special=None, after=None, assume_post=None, assumed=False, setup=None,
                 exitf=None, total=True, weak=False, fuel=None, frame=True, note="", weight=100, tracked=True, marks=False, rawnum=False, onexit=None):
        s.marks, s.rawnum, s.onexit = marks, rawnum, onexit
        s.weight, s.tracked = weight, tracked
        s.name, s.kinds, s.ret = name, kinds, ret
        s.post = post or (lambda c: [])
        s.pre = pre or (lambda c: [])
        s.world, s.decreases, s.hints, s.groups = world, decreases, hints, set(groups)
        s.destructive, s.props = destructive, tuple(props)
        s.havoc_globals, s.havoc_refs, s.special, s.after = havoc_globals, havoc_refs, special, after
        s.assume_post = assume_post or (lambda c: [])
        s.assumed, s.setup, s.exitf, s.total, s.weak, s.fuel, s.frame, s.note = assumed, setup, exitf, total, weak, fuel, frame, note
    def fits(s, fn):
        if fn is None: return True
        if len(fn.params) != len(s.kinds): return False
        for (n, t), k in zip(fn.params, s.kinds):
            want = {"lisp": "ptr", "cell": "ptr", "own": "ptr", "held": "ptr", "sym": "ptr", "ptr": "ptr", "str": "ptr", "buf": "ptr", "file": "ptr"}.get(k)
            if want and t.k != want: return False
            if k == "bool" and not (t.k == "int" and t.w == 1): return False
            if k.startswith("bv") and not (t.k == "int" and t.w == int(k[2:])): return False
        rt = fn.ret
        if s.ret in ("own", "ownnull", "borrow", "opq"): return rt.k == "ptr"
        if s.ret == "bool": return rt.k == "int" and rt.w == 1
        if s.ret == "void": return rt.k == "void"
        if s.ret and s.ret.startswith("bv"): return rt.k == "int" and rt.w == int(s.ret[2:])
        return True

# ----------------------------------------------------------------------------- verifying one function
W0 = Const("w0", W)
def make_lisp(eng, st):
    o = eng.newobj(st, 72, "lisp", "lisp")
    for off, n in ((8, "globals"), (16, "modules"), (24, "ichan"), (32, "ochan")):
        c = Const("lisp." + n, Ref)
        st.old.add(keep(c).get_id()); st.add(c != NULL)
        o.f[off] = (8, Cell(c))
    return Ptr("obj", o.id, 0)

def verify(eng, fn, c, setup=None):
    """generate every obligation of fn against contract c"""
    eng.fnname = fn.name
    eng.curmod = fn.module
    eng.opts["groups"] = set(c.groups)
    if c.fuel: eng.opts["fuel"] = c.fuel
    eng.opts["weak"] = c.weak
    eng.opts["marks"] = c.marks
    eng.opts["rawnum"] = c.rawnum
    eng.opts["onexit"] = c.onexit
    eng.opts["total_loops"] = c.total
    eng.nonterm = set()
    eng.hints = []
    eng.entryctx = None
    eng.wargs = None
    st = State()
    st.w = W0
    args = []
    lispp = None
    for k, ((n, t), kind) in enumerate(zip(fn.params, c.kinds)):
        if kind == "lisp":
            lispp = lispp or make_lisp(eng, st)
            args.append(lispp)
        elif kind in ("cell", "own", "held"):
            r = Const("p_" + n, Ref)
            st.old.add(keep(r).get_id()); st.track(r); st.add(r != NULL)
            if kind in ("cell", "held"): st.pinned.append(r)
            if kind == "held": st.aux[("pc", r.get_id())] = st.rd("type", r) == T_PAIR
            if kind != "cell": st.give(r, 1)
            args.append(Cell(r))
        elif kind == "sym":
            o = eng.newobj(st, 16, "param", n)
            o.f[0] = (16, BitVec("p_" + n, 128))
            args.append(Ptr("obj", o.id, 0))
        elif kind == "bool": args.append(Bool("p_" + n))
        elif kind.startswith("bv"): args.append(BitVec("p_" + n, int(kind[2:])))
        elif kind in ("ptr", "file"): args.append(Ptr("opq", BitVec("p_" + n, 64)))
        elif kind == "buf": args.append(None)
        elif kind == "str": args.append(Ptr("opq", BitVec("p_" + n, 64))); st.add(args[-1].b != 0)
        else: raise Unsupported("kind " + kind)
    if c.setup: c.setup(eng, st, args)
    ctx = Ctx(eng, c, st, args)
    for desc, g in c.pre(ctx): st.add(g)
    ctx.snap = st.copy()
    eng.entryctx = ctx
    eng.hints = [h(ctx) for h in c.hints]
    exits = []
    eng.run(fn, args, st.copy(), {fn.name: 0}, lambda x, v: exits.append((x, v)))
    eng.exits = exits
    for (x, v) in exits:
        cz = Ctx.__new__(Ctx); cz.__dict__.update(ctx.__dict__)
        cz.st, cz.w1 = x, x.w
        exp = {}
        if c.ret in ("own", "ownnull", "borrow"):
            if not isinstance(v, Ptr) or v.k not in ("cell", "null") or (v.k == "cell" and v.o != 0):
                eng.oblige(x, "own", "returns a cell", BoolVal(False)); continue
            if v.k == "null" and c.ret != "ownnull":
                eng.oblige(x, "safe", "returns a cell, not NULL", BoolVal(False)); continue
            cz.ret = v
            if v.k == "cell":
                cz.rv = x.V(v.b)
                cz.rtype = x.rd("type", v.b)
                if c.ret != "borrow": exp = {v.b.get_id(): (v.b, 1)}
                else: eng.alive(x, v.b, "returned cell")
        elif c.ret == "opq": cz.ret, cz.rv = v, eng.ptr2int(v)
        elif c.ret != "void": cz.ret = cz.rv = v
        # reference accounting
        for (r, n) in x.pend:
            eng.oblige(x, "own", "a count that reaches zero is released (%s)" % r, n != 0)
        if c.ret != "noown":
            same = set(x.own) == set(exp) and all(isinstance(x.own[k][1], int) and x.own[k][1] == exp[k][1] for k in exp)
            eng.oblige(x, "own", "every reference is given back exactly once", BoolVal(True) if same else eng.own_goal(x, x.own, exp))
        if x.st_uc(): eng.oblige(x, "own", "no allocated cell is left without a reference", BoolVal(False))
        for q in c.post(cz):
            eng.oblige(x, "post", q[0], q[1])
            if len(q) > 2: eng.obls[-1].names = q[2]
        if not c.exitf or True:
            wexp = c.world(ctx) if c.world is not None else ctx.w0
            if c.frame: eng.oblige(x, "world", "effects on the world are exactly the specified ones", x.w == wexp if not x.w.eq(wexp) else BoolVal(True))
        if c.frame and lispp is not None:
            o = x.objs[lispp.b]
            for off, n in ((24, "input channel stack"), (32, "output channel stack")):
                a, b0 = o.f[off][1].b, ctx.snap.objs[lispp.b].f[off][1].b
                eng.oblige(x, "frame", "the %s is the same on return" % n, BoolVal(True) if a.eq(b0) else a == b0)
            if not c.havoc_globals:
                for off, n in ((8, "global table"), (16, "module table")):
                    a, b0 = o.f[off][1].b, ctx.snap.objs[lispp.b].f[off][1].b
                    eng.oblige(x, "frame", "the %s is the same on return" % n, BoolVal(True) if a.eq(b0) else a == b0)
        if c.exitf: c.exitf(eng, cz)
    return eng.obls

def flat_and(fs):
    out, work = [], list(fs)
    while work:
        f = work.pop()
        if z3.is_and(f): work += f.children()
        elif z3.is_not(f) and z3.is_or(f.arg(0)): work += [Not(c) for c in f.arg(0).children()]
        elif z3.is_not(f) and z3.is_not(f.arg(0)): work.append(f.arg(0).arg(0))
        else: out.append(f)
    return out
def apps_any(e):
    "applications of uninterpreted functions (or datatype operations) in e"
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if not z3.is_app(x) or not (z3.is_bool(x) or z3.is_bv(x)): yield x; continue
        if x.num_args() and x.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_DT_ACCESSOR, z3.Z3_OP_DT_IS, z3.Z3_OP_DT_CONSTRUCTOR, z3.Z3_OP_DT_RECOGNISER): yield x
        st.extend(x.children())
def discharge(eng, o, timeout=20000):
    if o.status in ("trivial", "syntactic", "proved"): return o.status
    import time as _t
    t = _t.time()
    if o.tag in ("buf", "term") and not any(True for _ in apps_any(o.goal)):
        # pure machine arithmetic: the facts without uninterpreted functions usually suffice
        so = z3.SolverFor("QF_BV")
        so.set("timeout", timeout)
        so.add(*[h for h in flat_and(o.hyps) if not any(True for _ in apps_any(h))], Not(o.goal))
        if so.check() == unsat: o.status = "proved"; o.time = _t.time() - t; return o.status
    lv = ((1, timeout // 2), (2, timeout)) if o.desc.startswith("live cell") else ((eng.opts["fuel"], timeout // 2), (eng.opts["fuel"] + 1, timeout), (eng.opts["fuel"] + 3, timeout))
    def cut():
        """equalities between event terms of the goal and of the path, argument by argument"""
        st, new = o.pre, []
        def evs(ts):
            seen, out, todo = set(), [], list(ts)
            while todo:
                x = todo.pop()
                if x.get_id() in seen or not z3.is_app(x): continue
                seen.add(x.get_id()); todo.extend(x.children())
                if x.num_args() > 1 and x.decl().name()[:2] in ("R_", "E_"): out.append(x)
            return out
        G, H, done = evs([o.goal]), evs(o.hyps + [o.goal]), set()
        for g in sorted(G, key=lambda x: len(str(x))):
            for h in H:
                if not g.decl().eq(h.decl()) or g.eq(h) or (h.get_id(), g.get_id()) in done: continue
                done.add((g.get_id(), h.get_id()))
                eqs = [simplify(a) == simplify(b) for a, b in zip(g.children(), h.children()) if not a.eq(b)]
                for q in eqs:
                    base_ = list(o.hyps) + new + st.vfacts(eng.refs_in(o.hyps + [q], st)) + [Not(q)]
                    if check(base_ + unfold(base_, o.groups, 1), 3000)[0] != unsat: break
                else: new.append(g == h)
        return new
    extra = []
    for k, (fuel, tmo) in enumerate(lv):
        st = o.pre
        if k == 1: extra = cut()
        vf = st.vfacts(eng.refs_in(o.hyps + [o.goal], st))
        base_ = list(o.hyps) + vf + extra + [Not(o.goal)]
        r, sol = check(base_ + unfold(base_, o.groups, fuel), min(tmo, 3000) if k == 0 and o.tag in ("post", "world") and "(E_" in o.goal.sexpr() else tmo)
        if r == unsat: o.status = "proved"; break
        if r == sat:
            o.status = "failed"; o.model = sol.model()
        else:
            o.status = "unknown"
    o.time = _t.time() - t
    return o.status
