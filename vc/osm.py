"""Contracts of the operating-system primitives (C17) and of the conversions between C strings and Lisp strings.
Every operating-system call is an event of the world, named by the call and its arguments; what it returns and what it
stores through its result pointers are functions of the world before it.  A primitive's contract states the exact chain of
events, on the success and on every failure path: a descriptor that is opened and neither returned nor closed, a call made
with another argument or made although a check rejects it, all give another world."""
from engine import *
from externs import *
import theory as th
from theory import *
from contracts import contract, C, OWNC, fold_hint
from modc import CS, SYMS, CSOF, MEM8, cstr
from ioc import CSLEN
import modc
import natives
from natives import native

# ------------------------------------------------------------------ strings
EMPTYCS, CONSCS = Const("emptystring", CS), Function("CONSCS", BV8, CS, CS)   # a first byte of 0 makes the string empty
PREFCS = Function("CPREFIX", CS, BV64, CS)                                 # first n bytes
BYTEAT = Function("BYTEAT", BV64, BV8)
SX = lambda b: SignExt(56, b)
CHARS = Function("CHARS", BV64, BV64, BV64, Val)
th._evd("CHARS", CHARS, lambda p, i, n: If(i == n, nil, pr(chrv_(SX(BYTEAT(p + i))), CHARS(p, i + 1, n))), "cstr")
ESC = Function("ESCAPES", Val, BoolSort(), Val, Val)
def _esc(v, e, r):
    a, d = car(v), cdr(v)
    b = Extract(7, 0, chrv(a))
    x = If(b == 110, chrv_(BitVecVal(10, 64)), If(b == 116, chrv_(BitVecVal(9, 64)), a))
    return If(is_nil(v), r, If(e, ESC(d, False, APP(r, lst(x))), If(chrv(a) == 92, ESC(d, True, r), ESC(d, False, APP(r, lst(a))))))
th._evd("ESCAPES", ESC, _esc, "cstr")
STRV = Function("STRV", CS, Val)                 # Lisp string of a C string (escapes processed)
STRVN = Function("STRVN", CS, BV64, Val)         # of its first n bytes
CSV = Function("CSV", Val, BV64, CS)             # C string of the first n characters of a Lisp string
th._evd("CSV", CSV, lambda v, n: If(Or(is_nil(v), n == 0), EMPTYCS, CONSCS(Extract(7, 0, chrv(car(v))), CSV(cdr(v), n - 1))), "cstr")
CNT = Function("CNT", Val, BV64, BV64)           # how many
th._evd("CNT", CNT, lambda v, n: If(Or(is_nil(v), n == 0), BitVecVal(0, 64), 1 + CNT(cdr(v), n - 1)), "cstr")
th.lemma("CNT", "cstr")(lambda v, n: [Implies(ISSTR(v), ULE(CNT(v, n), n))])
SYMB = Function("SYMB", CS, BV128)               # symbol with the bytes of a C string

def sp_make_string(e, st, args, i):
    st = st.copy()
    p, n = args[1], args[2]
    s_ = cstr(e, st, p, "lisp_make_string")
    r = fresh(Ref, "str"); st.track(r); st.typed.add(r.get_id()); st.add(r != NULL); st.give(r, 1)
    if z3.is_app(s_) and s_.decl().eq(PREFCS): st.add(Implies(ULE(s_.arg(1), CSLEN(s_.arg(0))), CSLEN(s_) == s_.arg(1)))
    full = e.prove(st, n == CSLEN(s_), timeout=3000)
    if not full and p.k == "obj": e.bounds(st, st.objs[p.b], p.o, n, "text of lisp_make_string")
    v = STRV(s_) if full else STRVN(s_, n)
    st.add(st.V(r) == v, ISSTR(v))
    st.rver = next(e_ctr); st.ov["refs"] = []
    return [(st, Cell(r))]
import itertools
e_ctr = itertools.count(3 * 10**6)
contract("lisp_make_string", ["lisp", "str", "bv64"], "own", special=sp_make_string)
def chars_hint(ctx):
    def gen(s, fn, b, r, x, phis, cellphis):
        out, p, n = [], s.ptr2int(ctx.args[1]), ctx.args[2]
        for k in [q for q in phis if z3.is_bv(r[q]) and r[q].size() == 64]:
            for q in cellphis:
                out.append(("the last %s characters" % k, lambda R, X, k=k, q=q: And(ULE(R[k], n), X.V(R[q].b) == CHARS(p, n - R[k], n), ISSTR(X.V(R[q].b)))))
        return out
    return gen
OWNC["lisp_make_string"] = Contract("lisp_make_string", ["lisp", "str", "bv64"], "own", props=("C12", "C14", "C17"), groups=("struct", "cstr"), hints=[chars_hint],
    post=lambda c: [("the characters of the text, in order, escapes processed", c.rv == ESC(CHARS(c.e.ptr2int(c.args[1]), BitVecVal(0, 64), c.args[2]), False, nil))])
contract("lisp_process_escapes", ["lisp", "own", "bool", "own"], "own", props=("C12",), groups=("struct", "cstr"), decreases=lambda c: SIZE(c.v[1]),
    pre=lambda c: [("a list of characters", ISSTR(c.v[1])), ("a list of characters is built", ISSTR(c.v[3]))],
    post=lambda c: [("escapes replaced, everything else kept in order", c.rv == ESC(c.v[1], c.args[2], c.v[3])), ("result is a string", ISSTR(c.rv))])
th.lemma("APP", "cstr")(lambda a, b: [Implies(And(ISSTR(a), ISSTR(b)), ISSTR(APP(a, b)))])

_ldopq = EXT["__load_opq__"]
def _load_opq(e, st, p, t):
    if t.k == "int" and t.w == 8: return BYTEAT(e.ptr2int(p))
    if t.k == "int" and t.w == 32: return MEM4(e.ptr2int(p))
    if t.k == "ptr" and e.fnname and e.fnname.startswith("lisp_function_"): return Ptr("opq", MEM8(e.ptr2int(p)))
    return _ldopq(e, st, p, t)
MEM4 = Function("MEM4", BV64, BV32)
EXT["__load_opq__"] = _load_opq
_store0 = EXT.get("__store__")
def _store(e, st, o, p, v, t):
    """a byte written just before a known string, or over one, gives the string from there on"""
    if _store0 and _store0(e, st, o, p, v, t): return True
    off = e.off(p)
    if "cs" in o.g and t.k == "int" and t.w == 8:
        k0, s_ = o.g["cs"]
        k0 = BitVecVal(k0, 64) if isinstance(k0, int) else k0
        z = simplify(v)
        nul = z3.is_bv_value(z) and z.as_long() == 0
        d = simplify(off - k0)
        o = e.wobj(st, p)
        o.f.clear(); o.zero = False
        if z3.is_bv_value(d) and d.as_signed_long() == -1: o.g["cs"] = (simplify(off), EMPTYCS if nul else CONSCS(v, s_))
        elif nul and e.prove(st, ULE(off - k0, CSLEN(s_)), timeout=2000): o.g["cs"] = (k0 if z3.is_expr(k0) else k0, PREFCS(s_, d))
        else: del o.g["cs"]
        return True
    if t.k == "int" and t.w == 8 and o.kind in ("param", "stack", "heap") and "C" not in o.g and "lit" not in o.g and o.name != "sym":
        z = simplify(v)
        if z3.is_bv_value(z) and z.as_long() == 0 and not isinstance(p.o, int):
            o = e.wobj(st, p); o.f.clear(); o.zero = False
            o.g["cs"] = (simplify(off), EMPTYCS)
            return True
    o = st.objs[p.b]
    if "cs" in o.g or "C" in o.g or "arr" in o.g:
        o = e.wobj(st, p)
        for k in ("cs", "C", "n", "arr"): o.g.pop(k, None)
    return False
EXT["__store__"] = _store
# a Lisp string written into a buffer; the buffer must have room for the characters and the terminator
def need(args): return args[2] - args[3] + 1
def sp_make_cstring(e, st, args, i):
    st = st.copy()
    r, b, n, idx = e.ref(args[0]), args[1], args[2], args[3]
    e.used_contracts.add("lisp_make_cstring")
    e.alive(st, r, "string passed to lisp_make_cstring")
    v = st.V(r)
    e.oblige(st, "pre", "call of lisp_make_cstring: a string is converted", ISSTR(v))
    e.oblige(st, "pre", "call of lisp_make_cstring: the index does not exceed the length", ULE(idx, n))
    if e.fnname == "lisp_make_cstring" and e.entryctx is not None:
        e.oblige(st, "term", "recursive call of lisp_make_cstring decreases its measure", SIZE(v) < SIZE(e.entryctx.v[0]))
    if b.k != "obj": raise Unsupported("buffer of lisp_make_cstring")
    o = st.objs[b.b]
    e.bounds(st, o, b.o, simplify(need(args)), "buffer of lisp_make_cstring holds %s characters and the terminator" % simplify(n - idx))
    o = e.wobj(st, b)
    o.f.clear(); o.zero = False
    o.g["cs"] = (b.o if isinstance(b.o, int) else simplify(b.o), CSV(v, simplify(n - idx)))
    res = idx + CNT(v, n - idx)
    st.add(ULE(CSLEN(CSV(v, simplify(n - idx))), n - idx))
    return [(st, res)]
contract("lisp_make_cstring", ["cell", "buf", "bv64", "bv64"], "bv64", special=sp_make_cstring)
def _mcsetup(e, st, args):
    room, off, extra = BitVec("room", 64), BitVec("buffer.offset", 64), BitVec("buffer.extra", 64)
    size = off + room + 1 + extra                  # any buffer with room for the characters allowed and the terminator
    args[2] = args[3] + room
    o = e.newobj(st, size, "param", "buffer")
    args[1] = Ptr("obj", o.id, off)
    st.add(*[ULT(x, 1 << 40) for x in (room, off, extra, args[3])])
    st.add(ISSTR(st.V(e.ref(args[0]))))
def _mcpost(c):
    o = c.st.objs[c.args[1].b]
    cs = o.g.get("cs")
    n, idx = c.args[2], c.args[3]
    return [("the characters up to the limit, then the terminator", And(cs[0] == c.args[1].o, cs[1] == CSV(c.v[0], n - idx)) if cs else BoolVal(False)),
            ("how far it got", c.rv == idx + CNT(c.v[0], n - idx))]
OWNC["lisp_make_cstring"] = Contract("lisp_make_cstring", ["cell", "buf", "bv64", "bv64"], "bv64", props=("C12", "C14", "C17"), groups=("struct", "cstr"), setup=_mcsetup, post=_mcpost)
# strncpy into a symbol from a C string buffer
_sn0 = EXT["__strncpy__"]
def _strncpy_cs(e, st, args, i):
    d, s_, n = args
    if bvc(n) == 16 and d.k == "obj" and s_.k == "obj" and "cs" in st.objs[s_.b].g:
        st = st.copy()
        e.store(st, d, SYMB(cstr(e, st, s_, "strncpy")), ir.T("vec", 128, ir.IntT(64), 2), "strncpy")
        return [(st, d)]
    return _sn0(e, st, args, i)
EXT["__strncpy__"] = _strncpy_cs

# ------------------------------------------------------------------ operating system calls
OS = {}
def osfun(name, sorts, res=BV32):
    R, E = Function("R_" + name, W, *sorts, res), Function("E_" + name, W, *sorts, W)
    OS[name] = (R, E)
    return R, E
class Ev:
    """a chain of events: x = Ev(w); r = x("close", fd)"""
    def __init__(s, w): s.w = w
    def __call__(s, name, *a):
        R, E = OS[name]
        r, s.w = R(s.w, *a), E(s.w, *a)
        return r
ERRNO = Function("ERRNO", W, BV32)
def os_(name, *kinds, c=None, res=BV32, out=None):
    """kinds: i (number), s (C string), - (ignored)"""
    sorts = {"i": BV32, "l": BV64, "h": BV16, "s": CS, "p": BV64}
    osfun(name, [sorts[k] for k in kinds if k != "-"], res)
    def f(e, st, args, i):
        st = st.copy()
        a = []
        for k, x in zip(kinds, args):
            if k == "-": continue
            a.append(cstr(e, st, x, name) if k == "s" else e.ptr2int(x) if isinstance(x, Ptr) else x)
        R, E = OS[name]
        r = R(st.w, *a)
        st.w = E(st.w, *a)
        if out: out(e, st, args, r)
        if res == BV64 and i.t.k == "ptr": r = Ptr("opq", r)
        return [(st, r)]
    EXT[c or name] = f
def setint(e, st, p, off, n, v):
    e.store(st, Ptr(p.k, p.b, p.o + off), v, ir.IntT(8 * n), "result of a system call")
os_("close", "i"); os_("dup", "i"); os_("dup2", "i", "i"); os_("fork"); os_("unlink", "s"); os_("socket", "i", "i", "i"); os_("listen", "i", "i")
os_("kill", "i", "i"); os_("getpid")
PIPE0, PIPE1 = Function("PIPE0", W, BV32), Function("PIPE1", W, BV32)
os_("pipe", "-", out=lambda e, st, a, r: (setint(e, st, a[0], 0, 4, PIPE0(st.w)), setint(e, st, a[0], 4, 4, PIPE1(st.w))))
WSTATUS = Function("WSTATUS", W, BV32)
os_("waitpid", "i", "-", "i", out=lambda e, st, a, r: setint(e, st, a[1], 0, 4, WSTATUS(st.w)) if a[1].k == "obj" else None)
osfun("setsockopt", [BV32, BV32, BV32, BV32])
@ext("setsockopt")
def _setsockopt(e, st, args, i):
    st = st.copy()
    e.oblige(st, "post", "setsockopt is given a 4-byte option", args[4] == 4)
    v = e.load(st, args[3], ir.IntT(32), "option of setsockopt")
    R, E = OS["setsockopt"]
    r = R(st.w, args[0], args[1], args[2], v)
    st.w = E(st.w, args[0], args[1], args[2], v)
    return [(st, r)]
osfun("bind", [BV32, BV16, BV16, BV32])
@ext("bind")
def _bind(e, st, args, i):
    st = st.copy()
    p = args[1]
    e.oblige(st, "post", "bind is given the size of the address", args[2] == 16)
    fam, port, addr = (e.load(st, Ptr(p.k, p.b, p.o + o), ir.IntT(n), "address of bind") for o, n in ((0, 16), (2, 16), (4, 32)))
    R, E = OS["bind"]
    r = R(st.w, args[0], fam, port, addr)
    st.w = E(st.w, args[0], fam, port, addr)
    return [(st, r)]
PEERF, PEERP, PEERA = Function("PEERFAMILY", W, BV16), Function("PEERPORT", W, BV16), Function("PEERADDR", W, BV32)
osfun("accept", [BV32])
@ext("accept")
def _accept(e, st, args, i):
    st = st.copy()
    n = e.load(st, args[2], ir.IntT(32), "size passed to accept")
    e.bounds(st, st.objs[args[1].b], args[1].o, ZeroExt(32, n), "address filled by accept")
    e.oblige(st, "post", "accept is given room for the address", n == 16)
    R, E = OS["accept"]
    r = R(st.w, args[0])
    st.w = E(st.w, args[0])
    for o, k, f in ((0, 2, PEERF), (2, 2, PEERP), (4, 4, PEERA)): setint(e, st, args[1], o, k, f(st.w))
    setint(e, st, args[2], 0, 4, fresh(BV32, "len"))
    return [(st, r)]
IPSTR = Function("IPSTRING", BV32, CS)
@ext("inet_ntop")
def _ntop(e, st, args, i):
    st = st.copy()
    a = e.load(st, args[1], ir.IntT(32), "inet_ntop")
    e.oblige(st, "post", "inet_ntop converts an IPv4 address and has room for it", And(args[0] == 2, UGE(args[3], 16)))
    e.bounds(st, st.objs[args[2].b], args[2].o, ZeroExt(32, args[3]), "buffer of inet_ntop")
    o = e.wobj(st, args[2]); o.f.clear(); o.zero = False
    o.g["cs"] = (args[2].o, IPSTR(a))
    st.add(ULE(CSLEN(IPSTR(a)), 15))
    return [(st, args[2])]
def swap16(x): return Concat(Extract(7, 0, x), Extract(15, 8, x))
@ext("ntohs", "htons", "llvm.bswap.i16")
def _ntohs(e, st, args, i): return [(st, swap16(args[0]))]
osfun("getaddrinfo", [CS, CS, BV32, BV32, BV32, BV32])
AI = Function("ADDRINFO", W, BV64)
@ext("getaddrinfo")
def _gai(e, st, args, i):
    st = st.copy()
    h = args[2]
    fl, fa, ty, pr_ = (e.load(st, Ptr(h.k, h.b, h.o + o), ir.IntT(32), "hints of getaddrinfo") for o in (0, 4, 8, 12))
    a = [cstr(e, st, args[0], "getaddrinfo"), cstr(e, st, args[1], "getaddrinfo"), fl, fa, ty, pr_]
    R, E = OS["getaddrinfo"]
    r = R(st.w, *a)
    st.w = E(st.w, *a)
    e.store(st, args[3], Ptr("opq", AI(st.w)), ir.PTR, "result of getaddrinfo")
    return [(st, r)]
os_("freeaddrinfo", "p"); os_("connect", "i", "p", "i")
@ext("gai_strerror")
def _gse(e, st, args, i): return [(st, Ptr("opq", fresh(BV64, "str")))]
@ext("__errno_location")
def _errno(e, st, args, i):
    st = st.copy()
    o = e.newobj(st, 4, "glob", "errno")
    o.f[0] = (4, ERRNO(st.w))
    return [(st, Ptr("obj", o.id, 0))]
CLOCK = Function("CLOCKSEC", W, BV64), Function("CLOCKNSEC", W, BV64)
os_("clock_gettime", "i", "-", out=lambda e, st, a, r: (setint(e, st, a[1], 0, 8, CLOCK[0](st.w)), setint(e, st, a[1], 8, 8, CLOCK[1](st.w))))
TIMEOF = Function("TIMEOF", W, BV64)             # TIMEOF(w) = CLOCKSEC(w) * 10^9 + CLOCKNSEC(w), in nanoseconds
def TS(x):
    x("clock_gettime", i32(4))
    return TIMEOF(x.w)
def sp_timestamp(e, st, args, i):
    st = st.copy()
    e.used_contracts.add("lisp_timestamp")
    x = Ev(st.w)
    r = TS(x)
    st.w = x.w
    return [(st, r)]
contract("lisp_timestamp", [], "bv64", special=sp_timestamp)
OWNC["lisp_timestamp"] = Contract("lisp_timestamp", [], "bv64", props=("C17",), world=lambda c: OS["clock_gettime"][1](c.w0, BitVecVal(4, 32)),
    post=lambda c: [("seconds and nanoseconds of the raw monotonic clock", c.rv == CLOCK[0](c.st.w) * 1000000000 + CLOCK[1](c.st.w))])
# ------------------------------------------------------------------ the primitives
def i32(n): return BitVecVal(n, 32)
def lo(v): return Extract(31, 0, v)
def raw(v): return lo(RAWNUM(v))
def S64(r): return num(SignExt(32, r))
def fdok(v): return And(is_num(v), numv(v) >= 0, numv(v) < 0xffffffff)
def prim(name, args, tail, f, pre=None, groups=("struct", "eval", "cstr"), props=("C17",), **kw):
    """f(x, C, *args) -> result, with the events of x"""
    def val(c, C_, *a):
        x = Ev(c.w0); x.env, x.c = c.v[1], c
        return [("the result", c.rv == f(x, C_, *a)(1))]
    def wld(c, C_, *a):
        x = Ev(c.w0); x.env, x.c = c.v[1], c
        return f(x, C_, *a)(0)
    native(name, args, tail, props, val, wld, groups=groups, **kw)
def cases(*alts):
    """((condition, result, world) ..., (result, world)) as a selector"""
    def sel(k):
        r = alts[-1][1 - k]
        for c, v, w in reversed(alts[:-1]): r = If(c, v if k else w, r)
        return r
    return sel
def _pipe(x, C, _):
    r = x("pipe")
    return cases((r != 0, nil, x.w), (pr(S64(PIPE0(x.w)), S64(PIPE1(x.w))), x.w))
prim("pipe", (), "", _pipe)
def _fork(x, C, _):
    r = x("fork")
    return cases((r < 0, S64(ERRNO(x.w)), x.w), (S64(r), x.w))
prim("fork", (), "", _fork)
def _wait(x, C, v):
    r = x("waitpid", raw(v), i32(0))
    s = WSTATUS(x.w)
    return cases((r < 0, S64(ERRNO(x.w)), x.w), (If(s & 0x7f == 0, S64(LShR(s, 8) & 0xff), nil), x.w))
prim("wait", ("X",), None, _wait, rawnum=True)
def _unlink(x, C, v):
    w0 = x.w
    r = x("unlink", CSV(v, BitVecVal(4095, 64)))
    return cases((Not(ISSTR(v)), nil, w0), (tbool(r == 0), x.w))
prim("unlink", ("NAME",), None, _unlink)
def _listen(x, C, v):
    w0, one = x.w, i32(1)
    bad = Not(And(is_num(v), numv(v) >= 0, numv(v) < 65535))
    fd = x("socket", i32(2), i32(1), i32(0)); w1 = x.w
    r1 = x("setsockopt", fd, i32(6), i32(1), one); w2 = x.w
    r2 = x("setsockopt", fd, i32(1), i32(15), one); w3 = x.w
    r3 = x("bind", fd, BitVecVal(2, 16), swap16(Extract(15, 0, numv(v))), i32(0)); w4 = x.w
    r4 = x("listen", fd, i32(5)); w5 = x.w
    cl = lambda w: OS["close"][1](w, fd)
    return cases((bad, nil, w0), (fd < 0, nil, w1), (r1 < 0, nil, cl(w2)), (r2 < 0, nil, cl(w3)), (r3 < 0, nil, cl(w4)), (r4 < 0, nil, cl(w5)), (S64(fd), w5))
prim("listen", ("PORT",), None, _listen)
def _accept_(x, C, v):
    w0 = x.w
    r = x("accept", lo(numv(v))); w = x.w
    a = If(PEERF(w) == 2, pr(STRV(IPSTR(PEERA(w))), num(ZeroExt(48, swap16(PEERP(w))))), nil)
    return cases((Not(fdok(v)), nil, w0), (r < 0, nil, w), (pr(S64(r), a), w))
prim("accept", ("FD",), None, _accept_)
def _connect(x, C, a, p):
    w0, one = x.w, i32(1)
    n = BitVecVal(1023, 64)
    bad = Or(Not(ISSTR(a)), Not(ISSTR(p)), is_nil(a), is_nil(p))
    fd = x("socket", i32(2), i32(1), i32(0)); w1 = x.w
    r1 = x("setsockopt", fd, i32(6), i32(1), one); w2 = x.w
    r2 = x("getaddrinfo", CSV(a, n), CSV(p, n), i32(2), i32(2), i32(1), i32(0)); w3 = x.w
    ai = AI(w3)
    r3 = x("connect", fd, MEM8(24 + ai), MEM4(16 + ai))
    x("freeaddrinfo", ai); w4 = x.w
    cl = lambda w: OS["close"][1](w, fd)
    return cases((bad, nil, w0), (fd < 0, nil, w1), (r1 < 0, nil, cl(w2)), (r2 != 0, nil, cl(w3)), (r3 != 0, nil, cl(w4)), (S64(fd), w4))
prim("connect", ("ADDRESS", "PORT"), None, _connect)
def _dup(x, C, a):
    d1, d2 = VCAR(a), VCAR(VCDR(a))
    v, x.w = EVAL(x.w, C, d1), EVALW(x.w, C, d1)
    t, x.w = EVAL(x.w, C, d2), EVALW(x.w, C, d2)
    w = x.w
    r = x("dup", raw(v)); w1 = x.w
    x.w = w
    r2 = x("dup2", raw(v), raw(t)); w2 = x.w
    res = lambda r, w: If(r < 0, S64(ERRNO(w)), S64(r))
    return cases((is_nil(t), res(r, w1), w1), (res(r2, w2), w2))
prim("dup", (), "ANY", _dup, havoc_globals=True, rawnum=True)
CLOSEL = Function("CLOSEALL", W, Val, Val, BoolSort(), BoolSort())
CLOSELW = Function("CLOSEALLW", W, Val, Val, BoolSort(), W)
def _cl(w, c, l, r):
    x = Ev(EVALW(w, c, VCAR(l)))
    k = x("close", raw(EVAL(w, c, VCAR(l))))
    r2 = And(r, k == 0)
    return If(is_nil(l), r, CLOSEL(x.w, c, VCDR(l), r2)), If(is_nil(l), w, CLOSELW(x.w, c, VCDR(l), r2))
th._evd("CLOSEALL", CLOSEL, lambda *a: _cl(*a)[0], "osl")
th._evd("CLOSEALLW", CLOSELW, lambda *a: _cl(*a)[1], "osl")
contract("lisp_close", ["lisp", "cell", "own", "bool"], "bool", props=("C17",), groups=("struct", "osl"), havoc_globals=True, rawnum=True,
    pre=lambda c: [("environment is a binding list", ALIST(c.v[1]))], world=lambda c: CLOSELW(c.w0, c.v[1], c.v[2], c.args[3]),
    post=lambda c: [("whether every descriptor could be closed", c.rv == CLOSEL(c.w0, c.v[1], c.v[2], c.args[3]))])
prim("close", (), "ANY", lambda x, C, a: cases((tbool(CLOSEL(x.w, C, a, True)), CLOSELW(x.w, C, a, True))), groups=("struct",), havoc_globals=True)
def _time(x, C, a):
    b = TS(x); w1 = x.w
    y = Ev(EVALW(w1, C, VCAR(a)))
    e_ = TS(y)
    return cases((is_nil(a), num(b), w1), (num(e_ - b), y.w))
prim("time", (), "ANY", _time, havoc_globals=True)
def _quit(x, C, _):
    p = x("getpid")
    x("kill", p, i32(3))
    return cases((tru, x.w))
prim("quit", (), "", _quit)
# ------------------------------------------------------------------ conversions (C12)
native("str", ("X",), None, ("C12",), lambda c, C, x: [("the characters of the symbol's name", Implies(is_sym(x), c.rv == STRV(SYMS(symv(x)))))], groups=("struct", "cstr"))
native("sym", ("X",), None, ("C12",), lambda c, C, x: [("symbol with the first sixteen characters, NIL for anything but a string", c.rv == If(And(is_pair(x), ISSTR(x)), sym(SYMB(CSV(x, BitVecVal(16, 64))), BoolVal(False)), nil))], groups=("struct", "cstr"))

# ------------------------------------------------------------------ exec: arrays of C strings
PS = DeclareSort("Strings")                      # a NULL-terminated array of C strings
EMPTYPS, CONSPS = Const("EMPTYPS", PS), Function("CONSPS", CS, PS, PS)
PSTR = Function("PSTR", BV64, CS)                # text at an address returned by strdup
PSV = Function("PSV", Val, BV64, PS)             # the first n strings of a list
th._evd("PSV", PSV, lambda v, n: If(Or(is_nil(v), n == 0), EMPTYPS, CONSPS(CSV(car(v), BitVecVal(4096, 64)), PSV(cdr(v), n - 1))), "cstr")
ISSL = Function("ISSTRINGLIST", Val, BoolSort())
th._evd("ISSTRINGLIST", ISSL, lambda v: Or(is_nil(v), And(is_pair(v), ISSTR(car(v)), ISSL(cdr(v)))), "cstr")
th.lemma("PSV", "cstr")(lambda v, n: [Implies(ISSL(v), ULE(CNT(v, n), n))])
@ext("strdup")
def _strdup(e, st, args, i):
    st = st.copy()
    p = fresh(BV64, "dup")
    st.add(p != 0, PSTR(p) == cstr(e, st, args[0], "strdup"))
    return [(st, Ptr("opq", p))]
_store1 = EXT["__store__"]
def _store_ps(e, st, o, p, v, t):
    if t.k == "ptr" and (o.kind == "param" or o.name in ("arg_str", "env_str", "array")) and isinstance(v, Ptr) and v.k in ("opq", "null"):
        o = e.wobj(st, p)
        if v.k == "null": o.g["ps"], nul = (e.off(p), EMPTYPS), True
        else: o.g["el"] = (e.off(p), PSTR(e.ptr2int(v)))
        o.f.clear(); o.zero = False
        return True
    return _store1(e, st, o, p, v, t)
EXT["__store__"] = _store_ps
def psarr(e, st, p, what):
    """the strings in the array at p"""
    if p.k == "opq": return ENVIRON
    o = st.objs[p.b]
    if "ps" in o.g:
        k, s_ = o.g["ps"]
        off = e.off(p)
        if e.prove(st, k == off): return s_
        if "el" in o.g:
            k1, c = o.g["el"]
            if e.prove(st, And(k1 == off, k == off + 8)): return CONSPS(c, s_)
    raise Unsupported("array of strings of " + what)
ENVIRON = Const("ENVIRON", PS)
def sp_make_strings(e, st, args, i):
    st = st.copy()
    r, a, n, idx = e.ref(args[1]), args[2], args[3], args[4]
    e.used_contracts.add("lisp_exec_make_strings")
    e.alive(st, r, "list passed to lisp_exec_make_strings")
    v = st.V(r)
    e.oblige(st, "pre", "call of lisp_exec_make_strings: a list of strings", ISSL(v))
    e.oblige(st, "pre", "call of lisp_exec_make_strings: the index does not exceed the length", ULE(idx, n))
    if e.fnname == "lisp_exec_make_strings": e.oblige(st, "term", "recursive call of lisp_exec_make_strings decreases its measure", SIZE(v) < SIZE(e.entryctx.v[1]))
    st.give(r, -1)
    st.rver = next(e_ctr); st.ov["refs"] = []
    if a.k != "obj": raise Unsupported("array of lisp_exec_make_strings")
    o = st.objs[a.b]
    e.bounds(st, o, a.o + idx * 8, simplify((n - idx + 1) * 8), "array of lisp_exec_make_strings holds the strings and the terminator")
    o = e.wobj(st, a)
    o.f.clear(); o.zero = False
    off, sv = simplify(e.off(a) + idx * 8), PSV(v, simplify(n - idx))
    if "el" in o.g and e.prove(st, o.g["el"][0] == off - 8): o.g["ps"] = (simplify(off - 8), CONSPS(o.g["el"][1], sv))
    else: o.g["ps"] = (off, sv)
    return [(st, idx + CNT(v, simplify(n - idx)))]
contract("lisp_exec_make_strings", ["lisp", "own", "buf", "bv64", "bv64"], "bv64", special=sp_make_strings)
def _mssetup(e, st, args):
    room, off, extra = BitVec("room", 64), BitVec("array.offset", 64), BitVec("array.extra", 64)
    args[3] = args[4] + room
    o = e.newobj(st, off + (args[4] + room + 1) * 8 + extra, "param", "array")
    args[2] = Ptr("obj", o.id, off)
    st.add(*[ULT(x, 1 << 40) for x in (room, off, extra, args[4])])
    st.add(ISSL(st.V(e.ref(args[1]))))
def _mspost(c):
    ps = c.st.objs[c.args[2].b].g.get("ps")
    n, idx = c.args[3], c.args[4]
    return [("the strings of the list up to the limit, then the terminator", And(ps[0] == (BitVecVal(c.args[2].o, 64) if isinstance(c.args[2].o, int) else c.args[2].o) + idx * 8, ps[1] == PSV(c.v[1], n - idx)) if ps else BoolVal(False)),
            ("how far it got", c.rv == idx + CNT(c.v[1], n - idx))]
OWNC["lisp_exec_make_strings"] = Contract("lisp_exec_make_strings", ["lisp", "own", "buf", "bv64", "bv64"], "bv64", props=("C17",), groups=("struct", "cstr"), setup=_mssetup, post=_mspost)
contract("lisp_exec_is_strings", ["cell"], "bool", props=("C17",), groups=("struct", "cstr"), decreases=lambda c: SIZE(c.v[0]), post=lambda c: [("a list of strings", c.rv == ISSL(c.v[0]))])
osfun("execve", [CS, PS, PS])
@ext("execve")
def _execve(e, st, args, i):
    st = st.copy()
    R, E = OS["execve"]
    a = [cstr(e, st, args[0], "execve"), psarr(e, st, args[1], "execve"), psarr(e, st, args[2], "execve")]
    r = R(st.w, *a)
    st.w = E(st.w, *a)
    return [(st, r)]
@ext("exit")
def _exit(e, st, args, i):
    f = e.opts.get("onexit")
    if not f: raise Unsupported("exit")
    c = e.entryctx
    for d, g in f(c, st, args[0]): e.oblige(st, "post", d, g)
    return []
def _exec(x, C, a):
    b = BitVecVal(4096, 64)
    av, ev_ = a[1], a[2]
    env = If(CNT(ev_, BitVecVal(128, 64)) == 0, ENVIRON, PSV(ev_, BitVecVal(128, 64)))
    x("execve", CSV(a[0], b), CONSPS(CSV(a[0], b), PSV(av, BitVecVal(126, 64))), env)
NORETURN = Const("NORETURN", Val)
def _execexit(c, st, code):
    _, vs, C = natives.NAT_T["exec"].shape(c.v[1])
    x = Ev(c.w0)
    _exec(x, C, vs)
    return [("execve is given the path, the arguments and the environment, then the process ends", st.w == x.w),
            ("the process ends with the error of execve", code == ERRNO(x.w))]
prim("exec", ("PATH", "ARGS", "ENVP"), None, lambda x, C, p, a, n: cases((Not(And(ISSTR(p), ISSL(a), ISSL(n))), nil, x.w), (NORETURN, x.w)), onexit=_execexit)

# ------------------------------------------------------------------ select
FDS = z3.ArraySort(BV64, BV64)                   # the words of an fd_set
def fdset(e, st, p, what):
    if p.k != "obj": raise Unsupported("descriptor set of " + what)
    o = st.objs[p.b]
    e.bounds(st, o, p.o, BitVecVal(128, 64), "descriptor set of " + what)
    if p.o != 0: raise Unsupported("descriptor set inside an object")
    if "A" in o.g: return o.g["A"]
    if all(k % 8 == 0 and n == 8 and z3.is_bv_value(simplify(v)) for k, (n, v) in o.f.items()) and (o.zero or len(o.f) == 16):
        a = z3.K(BV64, BitVecVal(0, 64))
        for k, (n, v) in o.f.items():
            if simplify(v).as_long(): a = z3.Store(a, BitVecVal(k // 8, 64), v)
        return a
    raise Unsupported("descriptor set of " + what)
def word(e, p):
    """the index of a word inside an fd_set, read off the address of the access"""
    k = simplify(e.off(p))
    if z3.is_bv_value(k): return BitVecVal(k.as_long() // 8, 64)
    return simplify(LShR(k, 3))
def isfds(e, o): return bvc(o.size) == 128 and ("A" in o.g or any(x in o.name for x in ("set",)))
_ldf = EXT.get("__load__")
def _load_fds(e, st, o, p, t):
    if t.k == "int" and t.w == 64 and "A" in o.g: return z3.Select(o.g["A"], word(e, p))
    return _ldf(e, st, o, p, t) if _ldf else None
EXT["__load__"] = _load_fds
_stf = EXT["__store__"]
def _store_fds(e, st, o, p, v, t):
    o = st.objs[p.b]
    if "A" in o.g:
        o = e.wobj(st, p)
        if t.k == "int" and t.w == 64: o.g["A"] = z3.Store(o.g["A"], word(e, p), v); return True
        del o.g["A"]
    return _stf(e, st, o, p, v, t)
EXT["__store__"] = _store_fds
def fdword(n): return LShR(n, 6)
def fdmask(n): return BitVecVal(1, 64) << (n & 63)
def inset(n): return And(n >= 0, n < 1024)
def _selset(v, a):
    x = car(v)
    n = numv(x)
    return If(Not(is_pair(v)), a, SELSET(cdr(v), If(And(is_num(x), inset(n)), z3.Store(a, fdword(n), z3.Select(a, fdword(n)) | fdmask(n)), a)))
SELSET = Function("SELSET", Val, FDS, FDS)
th._evd("SELSET", SELSET, _selset, "sel")
SELMAX = Function("SELMAX", Val, BV32)
def _selmax(v):
    x = car(v)
    c, m = If(And(is_num(x), inset(numv(x))), lo(numv(x)), i32(0)), SELMAX(cdr(v))
    return If(Not(is_pair(v)), i32(-1), If(c > m, c, m))
th._evd("SELMAX", SELMAX, _selmax, "sel")
def sp_convert(e, st, args, i):
    st = st.copy()
    r = e.ref(args[0])
    e.used_contracts.add("convert@select")
    e.alive(st, r, "list passed to convert")
    v = st.V(r)
    if e.fnname == "convert@select": e.oblige(st, "term", "recursive call of convert decreases its measure", SIZE(v) < SIZE(e.entryctx.v[0]))
    for k in (1, 2):
        a = SELSET(v, fdset(e, st, args[k], "convert"))
        o = e.wobj(st, args[k])
        o.f.clear(); o.zero = False
        o.g["A"] = a
    return [(st, SELMAX(v))]
KC = ["cell", "buf", "buf"]
contract("convert@select", KC, "bv32", special=sp_convert)
def _cvsetup(e, st, args):
    for k in (1, 2):
        o = e.newobj(st, 128, "param", "fdset%d" % k)
        o.g["A"] = z3.Const("fdset%d" % k, FDS)
        args[k] = Ptr("obj", o.id, 0)
def _cvpost(c):
    f = lambda k: c.st.objs[c.args[k].b].g.get("A")
    s_ = lambda k: (f(k) == SELSET(c.v[0], z3.Const("fdset%d" % k, FDS))) if f(k) is not None else BoolVal(False)
    return [("the descriptors of the list are added to the read set", s_(1)), ("the descriptors of the list are added to the error set", s_(2)),
            ("the highest descriptor", c.rv == SELMAX(c.v[0]))]
OWNC["convert@select"] = Contract("convert@select", KC, "bv32", props=("C17",), groups=("struct", "sel"), setup=_cvsetup, post=_cvpost)
SELP = Function("SELPROC", W, Val, Val, Val, FDS, Val)
SELPW = Function("SELPROCW", W, Val, Val, Val, FDS, W)
def _selp(w, c, v, cb, a):
    x, d = car(v), cdr(v)
    n = numv(x)
    run = And(is_num(x), inset(n), z3.Select(a, fdword(n)) & fdmask(n) != 0, Not(is_nil(cb)))
    call = pr(cb, pr(x, nil))
    act = If(Not(is_num(x)), nil, If(run, EVAL(w, c, call), tru))
    w1 = If(run, EVALW(w, c, call), w)
    w2 = If(And(is_nil(act), is_num(x)), OS["close"][1](w1, lo(n)), w1)
    nxt, w3 = SELP(w2, c, d, cb, a), SELPW(w2, c, d, cb, a)
    keep_ = pr(x, nxt)
    res = If(is_nil(act), nxt, If(And(is_num(act), numv(act) != n), pr(act, keep_), keep_))
    return If(is_pair(v), res, nil), If(is_pair(v), w3, w)
th._evd("SELPROC", SELP, lambda *a: _selp(*a)[0], "sel")
th._evd("SELPROCW", SELPW, lambda *a: _selp(*a)[1], "sel")
def sp_process(e, st, args, i):
    st = st.copy()
    c = C["process_r"]
    raise Unsupported("process_r")
def _ppset(e, st, args):
    o = e.newobj(st, 128, "param", "fdset")
    o.g["A"] = z3.Const("fdset", FDS)
    args[4] = Ptr("obj", o.id, 0)
PRK = ["lisp", "cell", "cell", "cell", "buf"]
contract("process_r", PRK, "own", props=("C17",), groups=("struct", "sel"), havoc_globals=True, setup=_ppset, decreases=lambda c: SIZE(c.v[2]),
    pre=lambda c: [("environment is a binding list", ALIST(c.v[1])), ("the set is a descriptor set", BoolVal(True))],
    world=lambda c: SELPW(c.w0, c.v[1], c.v[2], c.v[3], fdset(c.e, c.st, c.args[4], "process_r")),
    post=lambda c: [("the descriptors kept", c.rv == SELP(c.w0, c.v[1], c.v[2], c.v[3], fdset(c.e, c.st, c.args[4], "process_r")))])
RSET, ESET = Function("READYSET", W, FDS), Function("ERRORSET", W, FDS)
osfun("select", [BV32, FDS, FDS])
@ext("select")
def _select(e, st, args, i):
    st = st.copy()
    e.oblige(st, "post", "select is given no write set and no timeout", BoolVal(args[2].k == "null" and args[4].k == "null"))
    R, E = OS["select"]
    a, b = fdset(e, st, args[1], "select"), fdset(e, st, args[3], "select")
    r = R(st.w, args[0], a, b)
    st.w = E(st.w, args[0], a, b)
    for k, f in ((1, RSET), (3, ESET)):
        o = e.wobj(st, args[k]); o.f.clear(); o.zero = False
        o.g["A"] = f(st.w)
    return [(st, r)]
def _selectf(x, C, fds, a, b):
    w0 = x.w
    z = z3.K(BV64, BitVecVal(0, 64))
    s_ = SELSET(fds, z)
    r = x("select", SELMAX(fds) + 1, s_, s_); w = x.w
    c = x.env
    rr, w1 = SELP(w, c, fds, S("ON_READ"), RSET(w)), SELPW(w, c, fds, S("ON_READ"), RSET(w))
    er, w2 = SELP(w1, c, fds, S("ON_ERROR"), ESET(w)), SELPW(w1, c, fds, S("ON_ERROR"), ESET(w))
    return cases((Not(is_list(fds)), nil, w0), (r < 0, nil, w), (pr(rr, pr(er, nil)), w2))
prim("select", ("FDS", "ON_READ", "ON_ERROR"), None, _selectf, groups=("struct", "sel"), havoc_globals=True)
SLABCNT = Function("SLABCOUNTER", BV64, BV64)    # a field of the slab record, when it is read
_ldo = EXT["__load_opq__"]
def _load_slab(e, st, p, t):
    if e.fnname == "lisp_function_slabinfo" and t.k == "int" and t.w == 64:
        for o in st.objs.values():
            if o.kind == "lisp" and 0 in o.f:
                d = simplify(e.ptr2int(p) - e.ptr2int(o.f[0][1]))
                if z3.is_bv_value(d): return SLABCNT(d)
    return _ldo(e, st, p, t)
EXT["__load_opq__"] = _load_slab
prim("slabinfo", (), "", lambda x, C, _: cases((pr(num(SLABCNT(BitVecVal(8, 64))), num(SLABCNT(BitVecVal(16, 64)))), x.w)))
