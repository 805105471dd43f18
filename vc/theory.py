"""The logical vocabulary of the contracts: Lisp values as a datatype, specification functions given by
defining equations (unfolded on demand, so every query stays quantifier free), and the solver front end."""
import z3, time, os, sys
from z3 import *

Ref = DeclareSort("Ref")
NULL = Const("NULLREF", Ref)
W = DeclareSort("World")
Str = StringSort()
BV64, BV32, BV16, BV8, BV128 = [BitVecSort(n) for n in (64, 32, 16, 8, 128)]

_V = Datatype("Val")
_V.declare("nil")
_V.declare("tru")
_V.declare("wild")
_V.declare("chr", ("chrv", BV64))
_V.declare("num", ("numv", BV64))
_V.declare("sym", ("symv", BV128), ("symt", BoolSort()))       # symbol bytes, tail-call mark
_V.declare("pair", ("car", _V), ("cdr", _V), ("tc", BoolSort()))
Val = _V.create()
nil, tru, wild, chrv_, num, sym, pair = Val.nil, Val.tru, Val.wild, Val.chr, Val.num, Val.sym, Val.pair
is_nil, is_tru, is_wild, is_chr, is_num, is_sym, is_pair = [getattr(Val, "is_" + n) for n in
    ("nil", "tru", "wild", "chr", "num", "sym", "pair")]
car, cdr, numv, chrv, symv, symt, tcf = Val.car, Val.cdr, Val.numv, Val.chrv, Val.symv, Val.symt, Val.tc

T_NONE, T_NIL, T_TRUE, T_CHAR, T_NUMBER, T_PAIR, T_SYMBOL, T_WILD = range(8)
def pr(a, d): return pair(a, d, BoolVal(False))
def tbool(b): return If(b, tru, nil)
def lst(*xs):
    r = nil
    for x in reversed(xs): r = pr(x, r)
    return r

# ----------------------------------------------------------------------------- spec functions
DEFS = {}
class Def:
    def __init__(s, name, sorts, ret, body, group):
        s.name, s.f, s.body, s.group = name, Function(name, *sorts, ret), body, group
    def __call__(s, *a): return s.f(*a)
def define(name, sorts, ret, group="struct"):
    def deco(body):
        d = Def(name, sorts, ret, body, group)
        DEFS[name] = d
        return d
    return deco
LEMMAS = {}   # trigger function name -> list of callables(args) -> list of formulas (each proved by induction, see lemmas.py)
def lemma(trigger, group="struct"):
    def deco(fn):
        LEMMAS.setdefault(trigger, []).append((group, fn))
        return fn
    return deco

def sgn(name, *sorts): return Function(name, *sorts)
B = BoolSort()

# list functions ---------------------------------------------------------------
@define("LEN", (Val,), BV64)
def LEN(v): return If(is_pair(v), 1 + If(is_pair(cdr(v)), LEN(cdr(v)), BitVecVal(0, 64)), BitVecVal(0, 64))
@define("SIZE", (Val,), IntSort())
def SIZE(v): return If(is_pair(v), 1 + SIZE(car(v)) + SIZE(cdr(v)), IntVal(0))
lemma("SIZE")(lambda v: [SIZE(v) >= 0])
@define("APP", (Val, Val), Val)       # destructive/pure concatenation seen as a value
def APP(a, b): return If(is_pair(a), pair(car(a), APP(cdr(a), b), tcf(a)), b)
@define("DUP", (Val,), Val)
def DUP(v): return If(is_pair(v), pr(car(v), DUP(cdr(v))), v)
@define("EQU", (Val, Val), B)
def EQU(a, b):
    return Or(And(is_nil(a), is_nil(b)), And(is_tru(a), is_tru(b)), And(is_wild(a), is_wild(b)),
              And(is_chr(a), is_chr(b), chrv(a) == chrv(b)), And(is_num(a), is_num(b), numv(a) == numv(b)),
              And(is_sym(a), is_sym(b), symv(a) == symv(b)),
              And(is_pair(a), is_pair(b), EQU(car(a), car(b)), EQU(cdr(a), cdr(b))))
@define("MATCHES", (Val, Val), B)     # pattern, value
def MATCHES(a, b):
    return Or(is_wild(a), And(is_nil(a), is_nil(b)), And(is_tru(a), is_tru(b)),
              And(is_chr(a), is_chr(b), chrv(a) == chrv(b)), And(is_num(a), is_num(b), numv(a) == numv(b)),
              And(is_sym(a), is_sym(b), symv(a) == symv(b)),
              And(is_pair(a), is_pair(b), MATCHES(car(a), car(b)), MATCHES(cdr(a), cdr(b))))
@define("ISSTR", (Val,), B)
def ISSTR(v): return Or(is_nil(v), And(is_pair(v), is_chr(car(v)), ISSTR(cdr(v))))
def VCAR(v): return If(is_pair(v), car(v), nil)
def VCDR(v): return If(is_pair(v), cdr(v), nil)
def is_list(v): return Or(is_nil(v), is_pair(v))

RAWNUM = Function("RAWNUM", Val, BV64)       # the number a cell of this value holds where a number is stored: RAWNUM(num(n)) = n

# environments -----------------------------------------------------------------
def bswap(x): return Concat(*[Extract(8 * i + 7, 8 * i, x) for i in range(16)])
@define("SLT", (BV128, BV128), B, "env")     # strict byte-wise (memcmp) order on 16-byte symbols
def SLT(a, b): return ULT(bswap(a), bswap(b))
@define("ALIST", (Val,), B)
def ALIST(c): return Or(is_nil(c), And(is_pair(c), is_pair(car(c)), is_sym(car(car(c))), ALIST(cdr(c))))
@define("BOUND", (Val, BV128), B, "env")
def BOUND(c, k): return And(is_pair(c), Or(symv(car(car(c))) == k, BOUND(cdr(c), k)))
@define("ASSOC", (Val, BV128), Val, "env")
def ASSOC(c, k): return If(is_pair(c), If(symv(car(car(c))) == k, cdr(car(c)), ASSOC(cdr(c), k)), nil)
@define("SSS", (Val, Val), Val, "env")
def SSS(c, kv):
    k, k0 = symv(car(kv)), symv(car(car(c)))
    return If(is_nil(c), pr(kv, c),
           If(k0 == k, pair(kv, cdr(c), tcf(c)),
           If(SLT(k0, k), pair(car(c), SSS(cdr(c), kv), tcf(c)), pr(kv, c))))
@define("MERGE", (Val, Val), Val, "env")
def MERGE(c, l): return If(is_pair(l), MERGE(SSS(c, car(l)), cdr(l)), c)
GLOBAL = Function("GLOBAL", W, BV128, Val)       # value of a symbol in the global table (NIL when absent)
GBOUND = Function("GBOUND", W, BV128, B)
def LOOKUP(w, c, k): return If(BOUND(c, k), ASSOC(c, k), GLOBAL(w, k))

# binding ----------------------------------------------------------------------
@define("BIND", (Val, Val, Val), Val, "bind")  # closure, arg, val
def BIND(c, a, v):
    return If(is_pair(a), BIND(BIND(c, car(a), VCAR(v)), cdr(a), VCDR(v)),
           If(is_sym(a), pr(pr(a, v), c), c))
@define("MAYAPPLY", (Val, Val), B, "bind")
def MAYAPPLY(a, v):
    return Or(is_sym(a), is_nil(v), And(is_pair(a), is_pair(v), MAYAPPLY(cdr(a), cdr(v))))

# evaluation: values and world transformers ------------------------------------
EVAL = Function("EVAL", W, Val, Val, Val)
EVALW = Function("EVALW", W, Val, Val, W)
class _Fake: pass
def _evd(name, f, body, group):
    d = Def.__new__(Def); d.name, d.f, d.body, d.group = name, f, body, group
    DEFS[name] = d
    return d
def isfunc(v):
    return And(is_pair(v), Or(is_list(car(v)), is_sym(car(v))), is_pair(cdr(v)), is_list(car(cdr(v))),
               Or(is_pair(cdr(cdr(v))), is_num(cdr(cdr(v)))))
FUNC = Function("FUNC", W, Val, Val, Val, Val, Val)     # w closure symb func vals
FUNCW = Function("FUNCW", W, Val, Val, Val, Val, W)
EARGS = Function("EARGS", W, Val, Val, Val, Val, Val)   # w closure atom args vals
EARGSW = Function("EARGSW", W, Val, Val, Val, Val, W)
PROG = Function("PROG", W, Val, Val, Val, Val)
PROGW = Function("PROGW", W, Val, Val, Val, W)
LOOP = Function("TCLOOP", W, Val, Val, Val, BV128, Val)   # w cls0 bscl body key
LOOPW = Function("TCLOOPW", W, Val, Val, Val, BV128, W)
NAT = Function("NATIVE", W, BV64, Val, Val)
NATW = Function("NATIVEW", W, BV64, Val, W)
_evd("EVAL", EVAL, lambda w, c, v:
     If(is_pair(v), _evp(w, c, v)[0], If(is_sym(v), LOOKUP(w, c, symv(v)), v)), "eval")
_evd("EVALW", EVALW, lambda w, c, v: If(is_pair(v), _evp(w, c, v)[1], w), "eval")
def _evp(w, c, v):
    a, d = car(v), cdr(v)
    n, w1 = EVAL(w, c, a), EVALW(w, c, a)
    f = isfunc(n)
    again = And(Not(f), Not(EQU(a, n)), Or(is_sym(n), is_pair(n)))
    return (If(f, FUNC(w1, c, a, n, d), If(again, EVAL(w1, c, pr(n, d)), pr(n, d))),
            If(f, FUNCW(w1, c, a, n, d), If(again, EVALW(w1, c, pr(n, d)), w1)))
def issymtc(v): return Or(And(is_sym(v), symt(v)), And(is_pair(v), tcf(v)))
def _func(w, c, s, f, vals):
    args, dscl, body = car(f), car(cdr(f)), cdr(cdr(f))
    ok = MAYAPPLY(args, vals)
    Bd, w1 = EARGS(w, c, nil, args, vals), EARGSW(w, c, nil, args, vals)
    bs, na = car(Bd), cdr(Bd)
    ncl = APP(If(is_nil(dscl), bs, APP(bs, DUP(dscl))), c)
    v = If(is_nil(na),
           If(is_num(body), NAT(w1, numv(body), ncl),
           If(issymtc(s), pair(s, bs, BoolVal(True)),
              LOOP(w1, MERGE(DUP(c), dscl), bs, body, symkey(s)))),
           pr(na, pr(If(is_num(body), APP(bs, dscl), MERGE(DUP(dscl), bs)), body)))
    wv = If(And(is_nil(na), is_num(body)), NATW(w1, numv(body), ncl),
         If(And(is_nil(na), Not(issymtc(s))), LOOPW(w1, MERGE(DUP(c), dscl), bs, body, symkey(s)), w1))
    return If(ok, v, nil), If(ok, wv, w)
OTHERKEY = Function("OTHERKEY", Val, BV128)
def symkey(v): return If(is_sym(v), symv(v), OTHERKEY(v))
_evd("FUNC", FUNC, lambda *a: _func(*a)[0], "func")
_evd("FUNCW", FUNCW, lambda *a: _func(*a)[1], "func")
def _eargs(w, c, at, args, vals):
    ev, w1 = EVAL(w, c, VCAR(vals)), EVALW(w, c, VCAR(vals))
    nb = BIND(at, VCAR(args), ev)
    leaf = Or(is_nil(args), is_sym(args), is_nil(vals))
    return (If(is_nil(args), pr(at, args), If(is_sym(args), pr(BIND(at, args, vals), nil),
            If(is_nil(vals), pr(at, args), EARGS(w1, c, nb, VCDR(args), VCDR(vals))))),
            If(leaf, w, EARGSW(w1, c, nb, VCDR(args), VCDR(vals))))
_evd("EARGS", EARGS, lambda *a: _eargs(*a)[0], "eargs")
_evd("EARGSW", EARGSW, lambda *a: _eargs(*a)[1], "eargs")
_evd("PROG", PROG, lambda w, c, l, r: If(is_pair(l), PROG(EVALW(w, c, car(l)), c, cdr(l), EVAL(w, c, car(l))), r), "prog")
_evd("PROGW", PROGW, lambda w, c, l, r: If(is_pair(l), PROGW(EVALW(w, c, car(l)), c, cdr(l), EVAL(w, c, car(l))), w), "prog")
def _loop(w, c0, b, body, k):
    r, w1 = PROG(w, MERGE(DUP(c0), b), body, nil), PROGW(w, MERGE(DUP(c0), b), body, nil)
    again = And(is_pair(r), tcf(r), symkey(car(r)) == k)
    return (If(again, LOOP(w1, c0, cdr(r), body, k), r), If(again, LOOPW(w1, c0, cdr(r), body, k), w1))
_evd("TCLOOP", LOOP, lambda *a: _loop(*a)[0], "loop")
_evd("TCLOOPW", LOOPW, lambda *a: _loop(*a)[1], "loop")

GSET = Function("GSET", W, BV128, Val, W)        # the world with one global binding replaced
lemma("GLOBAL", "world")(lambda w, k: [])
def gget(w, k):
    """GLOBAL/GBOUND of a world term built with GSET"""
    return GLOBAL(w, k)
# inductive facts about the list functions (each proved in lemmas.py)
lemma("APP")(lambda a, b: [Implies(And(ALIST(a), ALIST(b)), ALIST(APP(a, b)))])
lemma("DUP")(lambda a: [Implies(ALIST(a), ALIST(DUP(a)))])
lemma("MERGE")(lambda a, b: [Implies(And(ALIST(a), ALIST(b)), ALIST(MERGE(a, b)))])

# ----------------------------------------------------------------------------- unfolding
_AC = {}      # formula id -> (formula, [(name, application)])
def iapps(e):
    """applications of specification functions and of V in e (memoised per formula)"""
    r = _AC.get(e.get_id())
    if r is not None: return r[1]
    out, st, seen = [], [e], set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if x.num_args() if z3.is_app(x) else False:
            n = x.decl().name()
            if n in DEFS or n in LEMMAS or n.startswith("V@") or n == "type@0": out.append((n, x))
            st.extend(x.children())
    _AC[e.get_id()] = (e, out)
    return out
def apps(es, names, seen, out):
    for e in es:
        for n, x in iapps(e):
            if n in names and x.get_id() not in seen:
                seen.add(x.get_id()); out.append(x)
    return out
_UC = {}
def instances(n, e, groups):
    k = (e.get_id(), tuple(sorted(groups)))
    r = _UC.get(k)
    if r is not None: return r[1]
    a = e.children()
    out = []
    if n in DEFS and DEFS[n].group in groups: out.append(e == DEFS[n].body(*a))
    for g, fn in LEMMAS.get(n, ()):
        if g in groups: out.extend(fn(*a))
    _UC[k] = (e, out)
    return out

def unfold(exprs, groups, fuel, extra_names=()):
    """defining equations and lemma instances for every application occurring in exprs, fuel rounds deep"""
    names = {n for n, d in DEFS.items() if d.group in groups} | set(extra_names) | {n for n, ls in LEMMAS.items() for g, _ in ls if g in groups}
    pre = assoc(list(exprs)) if "struct" in groups else []
    seen, res, work = set(), list(pre), list(exprs) + pre
    for r in range(fuel):
        found = apps(work, names, seen, [])
        if not found: break
        new = []
        for e in found: new.extend(instances(e.decl().name(), e, groups))
        res += new
        work = new
    return res

def assoc(es):
    """instances of APP(APP(x, y), b) = APP(x, APP(y, b)) (lemma, proved by induction in lemmas.py)"""
    t = apps(es, {"APP"}, set(), [])
    us = [u for u in t if u.arg(0).num_args() == 0 and u.arg(0).decl().name().startswith("seg!")]
    out = []
    for u in us:
        for v in t:
            if u.eq(v): continue
            x, y = u.children(); a, b = v.children()
            out.append(Implies(a == u, v == APP(x, APP(y, b))))
    return out

# ----------------------------------------------------------------------------- solving
STATS = dict(queries=0, time=0.0, cvc5=0)
_NL = {}
def abstract_nl(es):
    """products, quotients and remainders of two variables as uninterpreted functions (sound for proofs)"""
    kinds = {z3.Z3_OP_BMUL: "mul", z3.Z3_OP_BSDIV: "sdiv", z3.Z3_OP_BSREM: "srem", z3.Z3_OP_BSDIV_I: "sdiv", z3.Z3_OP_BSREM_I: "srem"}
    memo = {}
    hit, comm = [False], []
    def go(x):
        k = x.get_id()
        if k in memo: return memo[k][1]
        r = x
        if z3.is_app(x) and x.num_args():
            ch = [go(c) for c in x.children()]
            kd = x.decl().kind()
            if kd in kinds and len(ch) == 2 and not any(z3.is_bv_value(z3.simplify(c)) for c in ch):
                hit[0] = True
                n = kinds[kd]
                F = _NL.setdefault((n, x.size()), Function("nl_%s_%d" % (n, x.size()), x.sort(), x.sort(), x.sort()))
                r = F(*ch)
                if n == 'mul': comm.append(r == F(ch[1], ch[0]))
            elif any(a is not b for a, b in zip(ch, x.children())): r = x.decl()(*ch)
        memo[k] = (x, r)
        return r
    out = [go(e) for e in es]
    return out + comm if hit[0] else None

NL = [False]     # set when a product or quotient of two variables was generated
def check(assertions, timeout=10000):
    ab = abstract_nl(assertions) if NL[0] else None
    if ab is not None:
        r, s = check0(ab, timeout)
        if r == unsat: return r, s
        timeout = min(timeout, 8000)
    return check0(assertions, timeout)
def check0(assertions, timeout):
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*assertions)
    t, c = time.time(), time.thread_time()
    r = s.check()
    w, c = time.time() - t, time.thread_time() - c
    if r == z3.unknown and w > .9e-3 * timeout and c < .75 * w:      # the machine was busy: the limit counts processor time
        s.set("timeout", int(timeout * min(w / max(c, .05), 6)))
        r = s.check()
    STATS["queries"] += 1
    STATS["time"] += time.time() - t
    return r, s

# ----------------------------------------------------------------------------- names and control forms
def symbytes(name):
    b = name.encode() if isinstance(name, str) else name
    return BitVecVal(int.from_bytes(b[:16].ljust(16, b"\0"), "little"), 128)
def S(name): return sym(symbytes(name), BoolVal(False))
def rec2(name, sorts, ret, group):
    "a specification function with a value part and a world part, both by one recursive definition"
    F, FW = Function(name, W, *sorts, ret), Function(name + "W", W, *sorts, W)
    def deco(body):
        _evd(name, F, lambda *a: body(F, FW, *a)[0], group)
        _evd(name + "W", FW, lambda *a: body(F, FW, *a)[1], group)
        return F, FW
    return deco
def ev(w, c, x): return EVAL(w, c, x), EVALW(w, c, x)
@rec2("COND", (Val, Val, Val), Val, "ctl")
def _c(F, FW, w, c, cell, m):
    cl = car(m)
    a, p = VCAR(cl), VCDR(cl)
    r, w1 = ev(w, c, pr(a, pr(cell, nil)))
    bad = Not(And(is_pair(m), is_pair(cl)))
    return (If(bad, nil, If(is_wild(a), EVAL(w, c, p), If(is_tru(r), EVAL(w1, c, p), F(w1, c, cell, cdr(m))))),
            If(bad, w, If(is_wild(a), EVALW(w, c, p), If(is_tru(r), EVALW(w1, c, p), FW(w1, c, cell, cdr(m))))))
COND, CONDW = _c
@rec2("MATCH", (Val, Val, Val), Val, "ctl")
def _c(F, FW, w, c, x, m):
    cl = car(m)
    bad = Not(And(is_pair(m), is_pair(cl)))
    hit = MATCHES(VCAR(cl), x)
    return (If(bad, nil, If(hit, EVAL(w, c, VCDR(cl)), F(w, c, x, cdr(m)))),
            If(bad, w, If(hit, EVALW(w, c, VCDR(cl)), FW(w, c, x, cdr(m)))))
MATCH, MATCHW = _c
QUOTE = S("quote")
@rec2("STREAM", (Val, Val, Val), Val, "ctl")
def _c(F, FW, w, c, rest, expr):
    r, w1 = ev(w, c, expr)
    nx = pr(VCAR(rest), pr(pr(QUOTE, r), nil))
    return (If(is_nil(rest), r, F(w1, c, VCDR(rest), nx)), If(is_nil(rest), w1, FW(w1, c, VCDR(rest), nx)))
STREAM, STREAMW = _c
@rec2("LISTEV", (Val, Val), Val, "ctl")
def _c(F, FW, w, c, v):
    r, w1 = F(w, c, cdr(v)), FW(w, c, cdr(v))
    e, w2 = ev(w1, c, car(v))
    return If(is_pair(v), pr(e, r), v), If(is_pair(v), w2, w)
LISTEV, LISTEVW = _c
MARKT = Function("MARKT", Val, Val, Val, Val)     # symbol, parameters, body: tail calls to the symbol are marked
@rec2("WHILE", (Val, Val, Val, Val), Val, "ctl")
def _c(F, FW, w, c, k, prg, res):
    v, w1 = ev(w, c, k)
    r, w2 = PROG(w1, c, prg, nil), PROGW(w1, c, prg, nil)
    return If(is_nil(v), res, F(w2, c, k, prg, r)), If(is_nil(v), w1, FW(w2, c, k, prg, r))
WHILE, WHILEW = _c
@rec2("LETB", (Val, Val, Val), Val, "letb")
def _c(F, FW, w, c, env, cell):
    b = car(cell)
    bad = Not(And(is_pair(cell), is_pair(b)))
    tmp = MERGE(DUP(c), env)
    v, w1 = ev(w, tmp, cdr(b))
    rec = And(is_sym(car(b)), isfunc(v), Not(BOUND(tmp, symv(car(b)))))
    mv = If(rec, pair(car(v), pair(car(cdr(v)), MARKT(car(b), car(v), cdr(cdr(v))), tcf(cdr(v))), tcf(v)), v)
    nx = BIND(env, car(b), mv)
    return If(bad, env, F(w1, c, nx, cdr(cell))), If(bad, w, FW(w1, c, nx, cdr(cell)))
LETB, LETBW = _c

# ----------------------------------------------------------------------------- tail calls (C16)
@define("LASTP", (Val,), Val)
def LASTP(v): return If(is_pair(cdr(v)), LASTP(cdr(v)), v)
lemma("LASTP")(lambda v: [Implies(is_pair(v), And(SIZE(LASTP(v)) <= SIZE(v), is_pair(LASTP(v))))])
def _tails_head(v, n): return symv(car(v)) == symbytes(n)
TAILS = Function("TAILS", Val, Val)
TAILSA = Function("TAILSA", Val, Val)
def _tails(v):
    r1, r2 = VCDR(VCDR(v)), VCDR(VCDR(VCDR(v)))
    h = lambda *ns: Or(*[_tails_head(v, n) for n in ns])
    one = pr(v, nil)
    return If(is_nil(v), v, If(Or(Not(is_pair(v)), Not(is_sym(car(v)))), one,
           If(h("if"), APP(TAILS(VCAR(r1)), TAILS(VCAR(r2))),
           If(h("cond", "match"), TAILSA(r1),
           If(h("prog", "|>"), TAILS(car(LASTP(v))),
           If(h("unless", "when"), TAILS(VCAR(r1)), one))))))
_evd("TAILS", TAILS, _tails, "tails")
_evd("TAILSA", TAILSA, lambda v: If(is_pair(v), APP(TAILS(VCDR(car(v))), TAILSA(cdr(v))), nil), "tails")
lemma("TAILS", "tails")(lambda v: [is_list(TAILS(v))])
lemma("TAILSA", "tails")(lambda v: [is_list(TAILSA(v))])
# marking a call is an event; the specification says which calls are marked, in which order
MARKEV = Function("MARKEV", W, Val, W)
CHPUSH, CHPOP = Function("CHPUSH", W, BV64, Val, W), Function("CHPOP", W, BV64, W)     # a channel stack (its offset in the record) grows or shrinks
MARKLW = Function("MARKLW", W, BV128, Val, Val, W)      # w, name, parameters, tails
def _markl(w, k, a, l):
    x = car(l)
    hit = And(is_pair(x), Or(is_sym(car(x)), is_pair(car(x))), symkey(car(x)) == k, MAYAPPLY(a, cdr(x)))
    return If(is_pair(l), MARKLW(If(hit, MARKEV(w, x), w), k, a, cdr(l)), w)
_evd("MARKLW", MARKLW, _markl, "tails")

# ----------------------------------------------------------------------------- module table (C15)
MBOUND = Function("MBOUND", W, BV128, B)
MHANDLE = Function("MHANDLE", W, BV128, BV64)
MSET = Function("MSET", W, BV128, Val, W)
