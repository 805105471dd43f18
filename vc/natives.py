"""Contracts of the primitives, keyed by the Lisp name under which a primitive is registered.  The C function verified
against an entry is the one whose address the module's load function stores under that name."""
from engine import *
from externs import *
import theory as th
from theory import *
from contracts import contract, C, EVP, wff

class Native:
    def __init__(s, name, args, tail, props, post, world=None, groups=("struct", "eval"), **kw):
        s.name, s.args, s.tail, s.props, s.post, s.world, s.groups, s.kw = name, args, tail, props, post, world, tuple(groups), kw
    def pattern(s):
        r = nil if s.tail is None else S(s.tail)
        for a in reversed(s.args): r = pr(S(a), r)
        return r
    def names(s): return list(s.args) + ([s.tail] if s.tail is not None else [])
    def shape(s, cl):
        """(precondition on the environment value, argument values in order, captured environment)"""
        fs, vals, x = [], [], cl
        for n in reversed(s.names()):
            fs.append(And(is_pair(x), is_pair(car(x)), is_sym(car(car(x))), symv(car(car(x))) == symbytes(n)))
            vals.insert(0, cdr(car(x)))
            x = cdr(x)
        fs.append(ALIST(x))
        return And(*fs), vals, x
    def contract(s, fname):
        def shaped(c): return s.shape(c.v[1])
        def post(c):
            _, vs, cl = shaped(c)
            return s.post(c, cl, *vs)
        def world(c):
            _, vs, cl = shaped(c)
            return s.world(c, cl, *vs)
        kw = dict(s.kw)
        upre = kw.pop("upre", None)
        return Contract(fname, ["lisp", "cell"], "own", props=s.props, groups=s.groups,
            pre=lambda c: [("the environment starts with the bindings of the parameters", shaped(c)[0])] + (upre(c) if upre else []),
            post=post, world=world if s.world else None, **kw)

NAT_T = {}
def native(name, args, tail=None, props=(), post=None, world=None, **kw):
    NAT_T[name] = Native(name, args, tail, tuple(props), post, world, **kw)

def is1(desc, f): return lambda c, C, *a: [(desc, c.rv == f(*a))]

# ---- list primitives
native("car", ("X",), None, ("C05",), is1("head of a pair, NIL otherwise", VCAR))
native("cdr", ("X",), None, ("C05",), is1("tail of a pair, NIL otherwise", VCDR))
native("cons", ("X", "Y"), None, ("C05",), is1("pair of the two arguments", pr))
native("conc", ("X", "Y"), None, ("C05",), is1("concatenation", APP))
native("len", ("X",), None, ("C05",), is1("length of a list, NIL for anything else", lambda x: If(is_list(x), num(LEN(x)), nil)))
native("list", (), "ANY", ("C05", "C10"), lambda c, C, a: [("list of the evaluated arguments", c.rv == LISTEV(c.w0, C, a))],
       lambda c, C, a: LISTEVW(c.w0, C, a), groups=("struct", "ctl"), havoc_globals=True)
# ---- predicates and conversions
native("atm?", ("X",), None, ("C12",), is1("everything but NIL and pairs", lambda x: tbool(Not(is_list(x)))))
native("chr?", ("X",), None, ("C12",), is1("characters", lambda x: tbool(is_chr(x))))
native("lst?", ("X",), None, ("C12",), is1("NIL and pairs", lambda x: tbool(is_list(x))))
native("nil?", ("X",), None, ("C12",), is1("NIL", lambda x: tbool(is_nil(x))))
native("num?", ("X",), None, ("C12",), is1("numbers", lambda x: tbool(is_num(x))))
native("str?", ("X",), None, ("C12",), is1("proper lists of characters", lambda x: tbool(ISSTR(x))))
native("sym?", ("X",), None, ("C12",), is1("symbols", lambda x: tbool(is_sym(x))))
native("tru?", ("X",), None, ("C12",), is1("T", lambda x: tbool(is_tru(x))))
native("chr", ("X",), None, ("C12",), lambda c, C, x: [("character with the low byte of the number", Implies(is_num(x), c.rv == chrv_(SignExt(56, Extract(7, 0, numv(x))))))])
# ---- arithmetic
def arith(f): return lambda c, C, x, y: [("64-bit two's complement result", Implies(And(is_num(x), is_num(y)), c.rv == f(numv(x), numv(y))))]
native("+", ("X", "Y"), None, ("C11",), arith(lambda x, y: num(x + y)))
native("-", ("X", "Y"), None, ("C11",), arith(lambda x, y: num(x - y)))
native("*", ("X", "Y"), None, ("C11",), arith(lambda x, y: num(x * y)))
native("/", ("X", "Y"), None, ("C11",), arith(lambda x, y: If(y == 0, nil, num(If(y == -1, -x, x / y)))))
native("%", ("X", "Y"), None, ("C11",), arith(lambda x, y: If(y == 0, nil, num(If(y == -1, BitVecVal(0, 64), SRem(x, y))))))
native("<", ("X", "Y"), None, ("C11",), arith(lambda x, y: tbool(x < y)))
native(">", ("X", "Y"), None, ("C11",), arith(lambda x, y: tbool(x > y)))
native("<=", ("X", "Y"), None, ("C11",), arith(lambda x, y: tbool(x <= y)))
native(">=", ("X", "Y"), None, ("C11",), arith(lambda x, y: tbool(x >= y)))
# ---- logic
native("=", ("X", "Y"), None, ("C04",), is1("structural equality", lambda x, y: tbool(EQU(x, y))))
native("<>", ("X", "Y"), None, ("C04",), is1("structural inequality", lambda x, y: tbool(Not(EQU(x, y)))))
native("not", ("X",), None, ("C12", "C10"), is1("T for NIL, NIL otherwise", lambda x: tbool(is_nil(x))))
native("and", ("X", "Y"), None, ("C10",), is1("T when neither is NIL", lambda x, y: tbool(Not(Or(is_nil(x), is_nil(y))))))
def _or(w, C, a):
    r, w1 = ev(w, C, VCAR(a))
    q, w2 = ev(w1, C, VCAR(VCDR(a)))
    return tbool(Or(Not(is_nil(r)), Not(is_nil(q)))), If(is_nil(r), w2, w1)
native("or", (), "ANY", ("C10",), lambda c, C, a: [("T when the first or (evaluated only then) the second is not NIL", c.rv == _or(c.w0, C, a)[0])],
       lambda c, C, a: _or(c.w0, C, a)[1], havoc_globals=True)
# ---- control
native("quote", (), "ANY", ("C10",), is1("the arguments, unevaluated", lambda a: a))
native("eval", ("X",), None, ("C09", "C10"), lambda c, C, x: [("value of the argument in the caller's environment", c.rv == EVAL(c.w0, C, x))],
       lambda c, C, x: EVALW(c.w0, C, x), havoc_globals=True)
native("prog", (), "ANY", ("C10",), lambda c, C, a: [("all evaluated in order, the last value", c.rv == PROG(c.w0, C, a, nil))],
       lambda c, C, a: PROGW(c.w0, C, a, nil), groups=("struct", "prog"), havoc_globals=True)
def _if(w, C, k, rem):
    t, e = VCAR(rem), VCAR(VCDR(rem))
    return If(is_nil(k), EVAL(w, C, e), EVAL(w, C, t)), If(is_nil(k), EVALW(w, C, e), EVALW(w, C, t))
native("if", ("COND",), "REM", ("C10",), lambda c, C, k, r: [("the branch chosen by the condition, and only it, is evaluated", c.rv == _if(c.w0, C, k, r)[0])],
       lambda c, C, k, r: _if(c.w0, C, k, r)[1], havoc_globals=True)
native("when", ("COND",), "REM", ("C10",), lambda c, C, k, r: [("body run only when the condition holds", c.rv == If(is_nil(k), nil, PROG(c.w0, C, r, nil)))],
       lambda c, C, k, r: If(is_nil(k), c.w0, PROGW(c.w0, C, r, nil)), havoc_globals=True)
native("unless", ("COND",), "REM", ("C10",), lambda c, C, k, r: [("body run only when the condition is NIL", c.rv == If(is_nil(k), PROG(c.w0, C, r, nil), nil))],
       lambda c, C, k, r: If(is_nil(k), PROGW(c.w0, C, r, nil), c.w0), havoc_globals=True)
native("cond", (), "ANY", ("C10",), lambda c, C, a: [("first clause whose predicate holds", c.rv == COND(c.w0, C, VCAR(a), VCDR(a)))],
       lambda c, C, a: CONDW(c.w0, C, VCAR(a), VCDR(a)), groups=("struct", "ctl"), havoc_globals=True)
native("match", (), "ANY", ("C10", "C04"), lambda c, C, a: [("first clause whose pattern matches the subject", c.rv == MATCH(EVALW(c.w0, C, VCAR(a)), C, EVAL(c.w0, C, VCAR(a)), VCDR(a)))],
       lambda c, C, a: MATCHW(EVALW(c.w0, C, VCAR(a)), C, EVAL(c.w0, C, VCAR(a)), VCDR(a)), groups=("struct", "ctl"), havoc_globals=True)
native("|>", (), "ANY", ("C10",), lambda c, C, a: [("value threaded through the stages left to right", c.rv == STREAM(c.w0, C, VCDR(a), VCAR(a)))],
       lambda c, C, a: STREAMW(c.w0, C, VCDR(a), VCAR(a)), groups=("struct", "ctl"), havoc_globals=True)
native("while", (), "ANY", ("C10",), lambda c, C, a: [("body repeated while the condition holds", c.rv == WHILE(c.w0, C, VCAR(a), VCDR(a), nil))],
       lambda c, C, a: WHILEW(c.w0, C, VCAR(a), VCDR(a), nil), groups=("struct", "ctl"), havoc_globals=True, total=False,
       hints=[fold_hint("WHILE", WHILE, lambda c: _wh(c)), fold_hint("WHILEW", WHILEW, lambda c: _wh(c))])
def _wh(c):
    _, vs, cl = NAT_T["while"].shape(c.v[1])
    return [c.w0, cl, VCAR(vs[0]), VCDR(vs[0]), nil]
native("\\", (), "ANY", ("C09", "C08"), is1("", lambda a: a))
NAT_T["\\"].post = lambda c, C, a: [("function value capturing a copy of the environment", c.rv == pr(VCAR(a), pr(DUP(C), VCDR(a))))]
def _let(w, C, a):
    b, w1 = LETB(w, C, nil, VCAR(a)), LETBW(w, C, nil, VCAR(a))
    e = MERGE(DUP(C), b)
    return PROG(w1, e, VCDR(a), nil), PROGW(w1, e, VCDR(a), nil)
native("let", (), "ANY", ("C08", "C10"), lambda c, C, a: [("body evaluated with the bindings, in order", c.rv == _let(c.w0, C, a)[0])],
       lambda c, C, a: _let(c.w0, C, a)[1], groups=("struct", "ctl"), havoc_globals=True)
# ---- definitions
def _def(w, C, a):
    s, args, prog = VCAR(a), VCAR(VCDR(a)), VCDR(VCDR(a))
    ok = And(is_sym(s), Or(is_list(args), is_sym(args)))
    doc = And(is_pair(VCAR(prog)), is_chr(car(VCAR(prog))))
    body = If(doc, VCDR(prog), prog)
    return If(ok, s, nil), If(ok, GSET(w, symv(s), pr(args, pr(nil, MARKT(s, args, body)))), w)
native("def", (), "ANY", ("C09", "C07", "C16"), lambda c, C, a: [("returns the symbol defined", c.rv == _def(c.w0, C, a)[0])],
       lambda c, C, a: _def(c.w0, C, a)[1], havoc_globals=True)
def _setq(w, C, a):
    s = VCAR(a)
    r, w1 = ev(w, C, VCAR(VCDR(a)))
    return r, If(And(Not(is_nil(r)), is_sym(s)), GSET(w1, symv(s), r), w1)
native("setq", (), "ANY", ("C10", "C07"), lambda c, C, a: [("value of the expression", c.rv == _setq(c.w0, C, a)[0])],
       lambda c, C, a: _setq(c.w0, C, a)[1], havoc_globals=True)
def _set(w, C, a):
    k, w1 = ev(w, C, VCAR(a))
    v, w2 = ev(w1, C, VCAR(VCDR(a)))
    loc = BOUND(C, symv(k))
    return (If(is_sym(k), If(loc, ASSOC(C, symv(k)), If(GBOUND(w2, symv(k)), GLOBAL(w2, symv(k)), nil)), nil),
            If(And(is_sym(k), Not(loc), GBOUND(w2, symv(k))), GSET(w2, symv(k), v), w2))
native("<-", (), "ANY", ("C10", "C06"), lambda c, C, a: [("previous value of the variable", c.rv == _set(c.w0, C, a)[0])],
       lambda c, C, a: _set(c.w0, C, a)[1], groups=("struct", "eval", "env"), havoc_globals=True,
       hints=[fold_hint("BOUND", lambda a, k: BOUND(a, k), lambda c: _sethint(c)), fold_hint("ASSOC", lambda a, k: ASSOC(a, k), lambda c: _sethint(c))])
def _sethint(c):
    _, vs, cl = NAT_T["<-"].shape(c.v[1])
    a = vs[0]
    return [cl, symv(EVAL(c.w0, cl, VCAR(a)))]
# ---- primitives of the io, sys and unix modules: shape of their parameter lists (their own contracts are in sysio.py)
SHAPES = dict([("load", ((), "ANY")), ("quit", ((), "")), ("str", (("X",), None)), ("sym", (("X",), None)),
    ("in", (("CHAN",), "REM")), ("out", (("CHAN",), "REM")), ("prin", ((), "ANY")), ("prinl", ((), "ANY")), ("print", ((), "ANY")), ("printl", ((), "ANY")),
    ("read", ((), "")), ("readline", ((), "")), ("slabinfo", ((), "")), ("time", ((), "ANY")), ("accept", (("FD",), None)), ("close", ((), "ANY")),
    ("connect", (("ADDRESS", "PORT"), None)), ("dup", ((), "ANY")), ("exec", (("PATH", "ARGS", "ENVP"), None)), ("fork", ((), "")), ("listen", (("PORT",), None)),
    ("pipe", ((), "")), ("select", (("FDS", "ON_READ", "ON_ERROR"), None)), ("unlink", (("NAME",), None)), ("wait", (("X",), None))])
for _n, (_a, _t) in SHAPES.items():
    if _n not in NAT_T: NAT_T[_n] = Native(_n, _a, _t, (), None)

NAT_T["<-"].kw["weight"] = 600
NAT_T["def"].kw["weight"] = 600
