"""Contracts of the channel primitives (C14).  Pushing and popping a channel are events of the world, next to the calls that
open and close handles: the specification of in, out and load states the whole chain, on every path.  What lies between the
push and the pop is the evaluation of the body, so the body runs with the requested channel and the previous one is current
again afterwards; a handle opened and not closed, a channel pushed and not popped, a pop too many all give another world."""
from engine import *
from externs import *
import theory as th
from theory import *
from contracts import contract, C, OWNC, fold_hint
from modc import CS, SYMS, CSOF, cstr, S1, _bin, PATHF, PATHOF
from ioc import CSLEN, iowf, FFLUSHW
import osm
from osm import os_, osfun, OS, Ev, prim, cases, CSV, STRV, ISSTR, lo, i32
B64 = lambda n: BitVecVal(n, 64)
LIT = lambda s: SYMS(symbytes(s))
ICH, OCH = B64(24), B64(32)
os_("fdopen", "i", "s", res=BV64); os_("fopen", "s", "s", res=BV64); os_("fclose", "p")
osfun("open", [CS, BV32, BV32])
@ext("open", "open64")
def _open(e, st, args, i):
    st = st.copy()
    a = [cstr(e, st, args[0], "open"), args[1], args[2] if len(args) > 2 else i32(0)]
    R, E = OS["open"]
    r = R(st.w, *a); st.w = E(st.w, *a)
    return [(st, r)]
EXT["fopen64"] = EXT["fopen"]
def fill(e, st, p, s_):
    o = e.wobj(st, p); o.f.clear(); o.zero = False
    for k in ("C", "n", "arr"): o.g.pop(k, None)
    o.g["cs"] = (p.o, s_)
CWD, PATHAT, DIROF = Function("CWD", W, CS), Function("FULLPATH", W, CS), Function("DIRNAME", CS, CS)
osfun("getcwd", [])
@ext("getcwd")
def _getcwd(e, st, args, i):
    b, n = args
    if b.k != "obj": raise Unsupported("getcwd")
    e.bounds(st, st.objs[b.b], b.o, n, "buffer of getcwd")
    R, E = OS["getcwd"]
    r = R(st.w)
    no, ok = st.copy(), st.copy()
    no.w = ok.w = E(st.w)
    no.add(r == 0); ok.add(r != 0)
    fill(e, ok, b, CWD(ok.w))
    ok.add(ULT(CSLEN(CWD(ok.w)), n))
    return [(no, NULLP), (ok, b)]
@ext("strcpy")
def _strcpy(e, st, args, i):
    st = st.copy()
    d, c = args[0], cstr(e, st, args[1], "strcpy")
    if d.k != "obj": raise Unsupported("strcpy")
    st.add(ULT(CSLEN(c), B64(1 << 40)))
    e.bounds(st, st.objs[d.b], d.o, CSLEN(c) + 1, "strcpy")
    fill(e, st, d, c)
    return [(st, d)]
@ext("dirname", "__xpg_dirname")
def _dirname(e, st, args, i):
    st = st.copy()
    c = cstr(e, st, args[0], "dirname")
    e.wobj(st, args[0]).g.clear()
    p = fresh(BV64, "dir")
    st.add(p != 0, CSOF(p) == DIROF(c))
    e.assumed.add("dirname never fails")
    return [(st, Ptr("opq", p))]
# ---- full path of a file: the environment and the file system decide it
osfun("fullpath", [CS, CS])
def sp_fullpath(e, st, args, i):
    cwd, f, b = cstr(e, st, args[1], "lisp_get_fullpath"), cstr(e, st, args[2], "lisp_get_fullpath"), args[3]
    e.used_contracts.add("lisp_get_fullpath")
    if b.k != "obj": raise Unsupported("lisp_get_fullpath")
    e.bounds(st, st.objs[b.b], b.o, B64(4096), "buffer of lisp_get_fullpath")
    R, E = OS["fullpath"]
    r = R(st.w, cwd, f)
    no, ok = st.copy(), st.copy()
    no.w = ok.w = E(st.w, cwd, f)
    no.add(r == 0); ok.add(r != 0)
    fill(e, ok, b, PATHAT(ok.w))
    ok.add(ULT(CSLEN(PATHAT(ok.w)), B64(4096)))
    return [(no, NULLP), (ok, b)]
contract("lisp_get_fullpath", ["lisp", "str", "str", "buf"], "opq", special=sp_fullpath)
def chset(*offs, empty=False):
    def f(e, st, args):
        e.assumed.add("the channel stacks hold channels (handle directory . pending expressions), as pushed by main, in, out and load")
        for a in args:
            if isinstance(a, Ptr) and a.k == "obj" and st.objs[a.b].kind == "lisp":
                for off in offs:
                    v = st.V(st.objs[a.b].f[off][1].b)
                    w = And(iowf(v), ISSTR(car(cdr(car(v)))))
                    st.add(Or(is_nil(v), w) if empty else w)
                break
    return f
def CH(c, off=24): return c.snap.V(c.lispf(off))
def DIRV(c): return CSV(car(cdr(car(CH(c)))), B64(4095))
def CHAN(h, d): return pr(num(h), pr(STRV(d), nil))
def _chan(k, dir_, flags, mode, fmode, fflush):
    def f(x, Cl, ch, body):
        c = x.c
        w0 = x.w
        if dir_ == "cwd":
            rc = x("getcwd"); wc = x.w; d = CWD(wc)
            pre = [(rc == 0, nil, wc)]
        else: d, pre = DIRV(c), []
        ws = x.w
        s_ = CSV(ch, B64(4095))
        rp = x("fullpath", d, s_); wp = x.w
        ro = x("open", PATHAT(wp), i32(flags), i32(mode)); wo = x.w
        isn, isnum, iss = is_nil(ch), is_num(ch), And(is_pair(ch), ISSTR(ch))
        Rd, Ed = OS["dup"]
        fdn = If(isn, i32(0 if k is ICH else 1), lo(numv(ch)))
        dupd = Or(isn, isnum)
        fd, wf = If(dupd, Rd(ws, fdn), ro), If(dupd, Ed(ws, fdn), wo)
        y = Ev(wf)
        h = y("fdopen", fd, LIT(fmode)); wh = y.w
        w1 = CHPUSH(wh, k, CHAN(h, d))
        res, w2 = PROG(w1, Cl, body, nil), PROGW(w1, Cl, body, nil)
        w3 = CHPOP(w2, k)
        if fflush: w3 = FFLUSHW(w3, h)
        w4 = OS["fclose"][1](w3, h)
        return cases(*pre, (And(Not(dupd), Not(iss)), nil, ws), (And(iss, rp == 0), nil, wp), (And(iss, ro < 0), nil, wo),
                     (h == 0, nil, OS["close"][1](wh, fd)), (res, w4))
    return f
prim("in", ("CHAN",), "REM", _chan(ICH, "chan", 0, 0, "r", False), props=("C14",), havoc_globals=True, setup=chset(24))
prim("out", ("CHAN",), "REM", _chan(OCH, "cwd", 0o2101, 0o600, "a", True), props=("C14",), havoc_globals=True, setup=chset(24))
# ---- reading
READEOF, READV, READW = Function("READEOF", W, BoolSort()), Function("READV", W, Val), Function("READW", W, W)
contract("lisp_read", ["lisp", "own"], "ownnull", props=("C14",), world=lambda c: READW(c.w0),
    post=lambda c: [("next expression of the current channel", READEOF(c.w0) if c.rv is None else And(Not(READEOF(c.w0)), c.rv == READV(c.w0)))])
prim("read", (), "", lambda x, Cl, _: cases((READEOF(x.w), nil, READW(x.w)), (READV(x.w), READW(x.w))), props=("C14",))
@th.rec2("LOADLOOP", (Val,), Val, "load")
def _ll(F, FW, w, res):
    w1 = READW(w)
    v, w2 = EVAL(w1, nil, READV(w)), EVALW(w1, nil, READV(w))
    return If(READEOF(w), res, F(w2, v)), If(READEOF(w), w1, FW(w2, v))
LOADL, LOADLW = _ll
def loadfile(w, ch, f):
    """(result, world) of loading a file; ch: the value of the input channel stack"""
    x = Ev(w)
    a, b = Ev(w), Ev(w)
    rc = a("getcwd")
    ra, rb = a("fullpath", CWD(a.w), f) if False else None, None
    first = is_nil(ch)
    w1 = If(first, a.w, w)
    d = If(first, CWD(a.w), CSV(car(cdr(car(ch))), B64(4095)))
    y = Ev(w1)
    rp = y("fullpath", d, f); wp = y.w
    p = PATHAT(wp)
    rg = y("getcwd"); wg = y.w
    h = y("fopen", p, LIT("r")); wh = y.w
    w2 = CHPUSH(wh, ICH, CHAN(h, DIROF(p)))
    r, w3 = LOADL(w2, nil), LOADLW(w2, nil)
    w4 = OS["fclose"][1](CHPOP(w3, ICH), h)
    s_ = cases((And(first, rc == 0), nil, a.w), (rp == 0, nil, wp), (rg == 0, nil, wg), (h == 0, nil, wh), (r, w4))
    return s_(1), s_(0)
contract("lisp_load_file", ["lisp", "str"], "own", props=("C14",), groups=("struct", "load"), havoc_globals=True, setup=chset(24, empty=True),
    total=False, world=lambda c: loadfile(c.w0, CH(c), S1(c, 1))[1],
    hints=[fold_hint("LOADLOOP", LOADL, lambda c: _lw(c)), fold_hint("LOADLOOPW", LOADLW, lambda c: _lw(c))],
    post=lambda c: [("value of the last expression of the file", c.rv == loadfile(c.w0, CH(c), S1(c, 1))[0])])
def _lw(c):
    return [c.w0, nil]
# ---- load: scripts and modules, in order
def modload(w, v):
    k = symv(VCAR(v))
    r, w1 = _bin(w, PATHOF(w, k), VCAR(v), VCDR(v))
    ok = And(is_sym(VCAR(v)), PATHF(w, k))
    return If(ok, r, nil), If(ok, w1, w)
@th.rec2("LOADALL", (Val, Val, Val), Val, "load")
def _la(F, FW, w, c, l, ch):
    v, w1 = EVAL(w, c, VCAR(l)), EVALW(w, c, VCAR(l))
    req = If(is_sym(v), pr(v, tru), v)
    r1, x1 = loadfile(w1, ch, CSV(v, B64(4096)))
    r2, x2 = modload(w1, req)
    isf = And(is_pair(v), ISSTR(v))
    mod = Or(is_sym(v), is_pair(v))
    r, x = If(isf, r1, If(mod, r2, nil)), If(isf, x1, If(mod, x2, w1))
    return If(is_nil(VCDR(l)), r, F(x, c, VCDR(l), ch)), If(is_nil(VCDR(l)), x, FW(x, c, VCDR(l), ch))
LOADA, LOADAW = _la
contract("lisp_load", ["lisp", "cell", "own"], "own", props=("C14",), groups=("struct", "load", "mod"), havoc_globals=True, setup=chset(24, empty=True), total=False,
    pre=lambda c: [("environment is a binding list", ALIST(c.v[1]))],
    world=lambda c: LOADAW(c.w0, c.v[1], c.v[2], CH(c)),
    post=lambda c: [("value of the last file or module, each loaded in order", c.rv == LOADA(c.w0, c.v[1], c.v[2], CH(c)))])
prim("load", (), "ANY", lambda x, Cl, a: cases((LOADA(x.w, Cl, a, CH(x.c)), LOADAW(x.w, Cl, a, CH(x.c)))), props=("C14",), groups=("struct",), havoc_globals=True, setup=chset(24, empty=True))

# ---- lisp_read against its own contract: pending expressions first, then lines until one expression is complete.  The lexer
# and parser are generated (tables): lexer_parse adds the expressions it completes to the pending list through its consumer
LEXNEW, LEXREM, LEXPEND, LEXED = Function("LEXER", W, BV64), Function("LEXREST", W, BV64), Function("LEXPENDING", W, BoolSort()), Function("LEXED", W, Val)
osfun("fgets", [BV64, BV64]); osfun("lexer_create", []); osfun("lexer_destroy", [BV64]); osfun("lexer_parse", [BV64, CS, BV64, BoolSort()])
LINE = Function("LINE", W, CS)
@ext("lexer_create")
def _lexc(e, st, args, i):
    st = st.copy()
    e.oblige(st, "post", "expressions are delivered to the current channel", BoolVal("lisp_consumer" in "%s %s" % (args[1].k, args[1].b)))
    st.w = OS["lexer_create"][1](st.w)
    p = LEXNEW(st.w)
    st.add(p != 0, LEXREM(st.w) == 0)
    e.lexer = p
    return [(st, Ptr("opq", p))]
@ext("lexer_destroy")
def _lexd(e, st, args, i):
    st = st.copy()
    st.w = OS["lexer_destroy"][1](st.w, e.ptr2int(args[0]))
    return [(st, None)]
@ext("lexer_pending")
def _lexp(e, st, args, i): return [(st, LEXPEND(st.w))]
@ext("fgets")
def _fgets(e, st, args, i):
    b, n, h = args[0], SignExt(32, args[1]), e.ptr2int(args[2])
    if b.k != "obj": raise Unsupported("fgets")
    st.add(ULT(LEXREM(st.w), 1024))
    e.assumed.add("the lexer keeps fewer than 1024 characters")
    e.bounds(st, st.objs[b.b], b.o, n, "buffer of fgets")
    e.oblige(st, "buf", "fgets is given room", n > 0)
    R, E = OS["fgets"]
    r = R(st.w, h, n)
    no, ok = st.copy(), st.copy()
    no.w = ok.w = E(st.w, h, n)
    for x in (no, ok): x.add(LEXREM(x.w) == LEXREM(st.w))
    no.add(r == 0); ok.add(r != 0)
    fill(e, ok, b, LINE(ok.w))
    ok.add(ULT(CSLEN(LINE(ok.w)), n))
    return [(no, NULLP), (ok, b)]
def islist(v): return Or(is_nil(v), is_pair(v))
def _pendcell(e, st):
    for o in st.objs.values():
        if o.kind == "lisp": return st.rd("cdr", st.rd("car", o.f[24][1].b))
@ext("lexer_parse")
def _lexparse(e, st, args, i):
    st = st.copy()
    b, n, end = args[1], args[2], args[3]
    w, h = st.w, e.ptr2int(args[0])
    o = st.objs[b.b]
    if b.k != "obj" or "cs" not in o.g: raise Unsupported("lexer_parse")
    k, c = o.g["cs"]
    e.oblige(st, "pre", "call of lexer_parse: what the lexer kept, then the line just read", And(e.off(b) == 0, k == LEXREM(w), n == LEXREM(w) + CSLEN(c)))
    o = e.wobj(st, b); o.f.clear(); o.g.clear(); o.zero = False
    st.w = OS["lexer_parse"][1](w, h, c, n, end)
    st.add(ULE(LEXREM(st.w), n))
    d = _pendcell(e, st)
    old = st.rd("cdr", d); st.track(old)
    v = st.V(old)
    e.mutated(st, d, False)
    r = fresh(Ref, "pending"); st.track(r); st.typed.add(r.get_id()); st.add(r != NULL)
    st.differ(*_spine(st)[:3], r)
    st.wr("cdr", d, r)
    e.mutated2(st, d, False)
    x = LEXED(st.w)
    st.add(st.V(r) == APP(v, x), islist(x), Implies(islist(v), islist(st.V(r))))
    return [(st, None)]
_ldoc = EXT["__load_opq__"]
def _load_lex(e, st, p, t):
    if e.fnname == "lisp_read" and t.k == "int" and t.w == 64 and getattr(e, "lexer", None) is not None:
        d = simplify(e.ptr2int(p) - e.lexer)
        if z3.is_bv_value(d) and d.as_long() == 32: return LEXREM(st.w)
    return _ldoc(e, st, p, t)
EXT["__load_opq__"] = _load_lex
RLP, RLW = Function("READLOOP", W, BV64, BV64, Val, Val), Function("READLOOPW", W, BV64, BV64, Val, W)
def _rl(w, h, l, p):
    n = B64(1024) - LEXREM(w)
    R, E = OS["fgets"]
    w1 = E(w, h, n)
    w2 = OS["lexer_parse"][1](w1, l, LINE(w1), LEXREM(w1) + CSLEN(LINE(w1)), BoolVal(True))
    p2 = APP(p, LEXED(w2))
    more = Or(is_nil(p2), LEXPEND(w2))
    eof = R(w, h, n) == 0
    return If(eof, p, If(more, RLP(w2, h, l, p2), p2)), If(eof, w1, If(more, RLW(w2, h, l, p2), w2))
th._evd("READLOOP", RLP, lambda *a: _rl(*a)[0], "read")
th._evd("READLOOPW", RLW, lambda *a: _rl(*a)[1], "read")
def _rd(c):
    ch = car(CH(c))
    h, d, p = numv(car(ch)), car(cdr(ch)), cdr(cdr(ch))
    w1 = OS["lexer_create"][1](c.w0)
    l = LEXNEW(w1)
    p2, w2 = RLP(w1, h, l, nil), OS["lexer_destroy"][1](RLW(w1, h, l, nil), l)
    pf, wf = If(is_nil(p), p2, p), If(is_nil(p), w2, c.w0)
    return pf, wf
def _rdpost(c):
    pf, wf = _rd(c)
    z = c.st.V(c.lispf(24, c.st))
    ch = CH(c)
    left = If(is_nil(pf), nil, cdr(pf))
    return [("the first pending expression, none at the end of the input", is_nil(pf) if c.rv is None else And(Not(is_nil(pf)), c.rv == car(pf))),
            ("the other pending expressions are kept in order and nothing else of the channels changes", 
                And(is_pair(z), cdr(z) == cdr(ch), is_pair(car(z)), car(car(z)) == car(car(ch)), is_pair(cdr(car(z))), car(cdr(car(z))) == car(cdr(car(ch))), cdr(cdr(car(z))) == left))]
def rdset(e, st, args):
    chset(24)(e, st, args)
    st.add(islist(st.V(_deref(st))))
    for r in _spine(st): st.track(r)
    st.track(st.rd("car", _spine(st)[1])); st.track(st.rd("car", _spine(st)[2]))
    st.differ(*_spine(st))
    e.assumed.add("the pending expressions of a channel are a list")
def _spine(st):
    for o in st.objs.values():
        if o.kind == "lisp":
            a = o.f[24][1].b; b = st.rd("car", a); d = st.rd("cdr", b)
            return [a, b, d, st.rd("cdr", d)]
def _deref(st):
    d = _pendcell(None, st)
    return st.rd("cdr", d)
OWNC["lisp_read"] = Contract("lisp_read", ["lisp", "own"], "ownnull", props=("C14",), groups=("struct", "read"), setup=rdset, total=False, frame=True,
    world=lambda c: _rd(c)[1], post=_rdpost,
    hints=[lambda c: _rlhint(c)])
def _rlhint(c):
    h = numv(car(car(CH(c))))
    def gen(s, fn, b, r, x, phis, cellphis):
        l, w0 = s.lexer, x.w
        pv = lambda X: X.V(X.rd("cdr", _pendcell(s, X)))
        p0 = pv(x)
        return [("READLOOP preserved", lambda R, X: RLP(X.w, h, l, pv(X)) == RLP(w0, h, l, p0)),
                ("READLOOPW preserved", lambda R, X: RLW(X.w, h, l, pv(X)) == RLW(w0, h, l, p0)),
                ("pending is a list", lambda R, X: islist(pv(X))),
                ("room", lambda R, X: ULT(LEXREM(X.w), 1024))]
    return gen
def _cons(c):
    z, ch = c.st.V(c.lispf(24, c.st)), CH(c)
    return [("the expression is added after the pending ones and nothing else of the channels changes",
        And(is_pair(z), cdr(z) == cdr(ch), is_pair(car(z)), car(car(z)) == car(car(ch)), cdr(car(z)) == APP(cdr(car(ch)), pr(c.v[1], nil))))]
contract("lisp_consumer", ["lisp", "own"], "void", props=("C14",), groups=("struct",), setup=rdset, post=_cons)
# ---- readline: one line of the current channel, without its newline
GETL, CHARAT = Function("GETLINE", W, CS), Function("CHARAT", CS, BV64, BV8)
osfun("getline", [BV64], BV64)
@ext("getline", "__getdelim", "getdelim")
def _getline(e, st, args, i):
    st = st.copy()
    lp, h = args[0], e.ptr2int(args[-1])
    e.oblige(st, "post", "a line ends at a newline", BoolVal(len(args) == 3) if len(args) == 3 else args[2] == 10)
    R, E = OS["getline"]
    r = R(st.w, h); st.w = E(st.w, h)
    t = GETL(st.w)
    e.assumed.add("lines read by readline contain no zero byte")
    o = e.newobj(st, CSLEN(t) + 1, "heap", "getline")
    o.g["cs"] = (0, t)
    st.add(Or(r == -1, And(r == CSLEN(t), r > 0)), ULT(CSLEN(t), B64(1 << 40)))
    e.store(st, lp, Ptr("obj", o.id, 0), ir.PTR, "result of getline")
    return [(st, r)]
_ldcs = EXT["__load__"]
def _load_cs(e, st, o, p, t):
    if t.k == "int" and t.w == 8 and "cs" in o.g:
        k, c = o.g["cs"]
        return CHARAT(c, simplify(e.off(p) - k))
    return _ldcs(e, st, o, p, t) if _ldcs else None
EXT["__load__"] = _load_cs
def _readline(x, Cl, _):
    h = numv(car(car(CH(x.c))))
    r = x("getline", h)
    t = GETL(x.w); n = CSLEN(t) - 1
    return cases((r < 0, S("EOF"), x.w), (STRV(If(CHARAT(t, n) == 10, osm.PREFCS(t, n), t)), x.w))
def _rlexit(eng, c):
    for o in c.st.objs.values():
        if o.name == "getline": eng.oblige(c.st, "own", "the buffer of the line is released", BoolVal(o.kind == "dead"))
prim("readline", (), "", _readline, props=("C14",), setup=chset(24), exitf=_rlexit)
