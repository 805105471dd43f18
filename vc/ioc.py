"""Contracts of printing (C13).  Output is a sequence of events of the world: one per byte of literal text, one per decimal
or symbol rendering; a buffer's content is a ghost sequence, and what a function guarantees is about the world as it will be
once the buffer is flushed - so how text falls relative to the buffer cannot matter."""
from engine import *
from externs import *
import theory as th
from theory import *
from contracts import contract, C, OWNC, fold_hint
from modc import CS, SYMS, cstr

OUT = DeclareSort("Bytes")
EMPTY = Const("no bytes", OUT)
CAT = Function("CAT", OUT, OUT, OUT)
DATA = Function("DATA", BV64, BV64, OUT)                  # bytes at an address
EMITB = Function("EMITB", W, BV64, BV8, W)                # one byte written to a stream
EMITS = Function("EMITS", W, BV64, CS, W)                 # a C string written to a stream
EMITD = Function("EMITD", W, BV64, OUT, W)                # some bytes
EMITC = Function("EMITC", W, BV64, OUT, W)                # the content of a buffer
FFLUSHW = Function("FFLUSHW", W, BV64, W)
DECS = Function("DECS", BV64, CS)                         # decimal rendering of a signed 64-bit number
CSLEN = Function("CSLEN", CS, BV64)
def emitc(w, h, c):
    n = c.decl().name() if z3.is_app(c) else ""
    if n == "CAT": return EMITD(emitc(w, h, c.arg(0)), h, c.arg(1))
    if n == "no bytes": return w
    if n == "if": return If(c.arg(0), emitc(w, h, c.arg(1)), emitc(w, h, c.arg(2)))
    if n == "DATA": return EMITD(w, h, c)
    return EMITC(w, h, c)
th.lemma("EMITC", "io")(lambda w, h, c: [EMITC(w, h, c) == w, ] if c.eq(EMPTY) else [Implies(c == EMPTY, EMITC(w, h, c) == w)])
th.lemma("EMITD", "io")(lambda w, h, d: [Implies(d.arg(1) == 0, EMITD(w, h, d) == w)] if z3.is_app(d) and d.decl().name() == "DATA" else [])
def text(w, h, s):
    for b in (s if isinstance(s, bytes) else s.encode()): w = EMITB(w, h, BitVecVal(b, 8))
    return w
# ---- rendering
RA = Function("RENDER", W, BV64, Val, BoolSort(), W)
RP = Function("RENDERLIST", W, BV64, Val, BoolSort(), W)
def _ra(w, h, v, s):
    ch = Extract(7, 0, chrv(v))
    esc = {27: "e", 10: "n", 13: "r", 9: "t"}
    c1 = EMITB(text(w, h, "^"), h, ch)
    for k, x in esc.items(): c1 = If(ch == k, text(w, h, "^\\" + x), c1)
    w1 = If(s, text(w, h, "("), w)
    w2 = RP(w1, h, v, s)
    return If(is_nil(v), If(s, text(w, h, "NIL"), w), If(is_tru(v), text(w, h, "T"), If(is_wild(v), text(w, h, "_"),
           If(is_chr(v), If(s, c1, EMITB(w, h, ch)), If(is_num(v), EMITS(w, h, DECS(numv(v))), If(is_sym(v), EMITS(w, h, SYMS(symv(v))),
              If(s, text(w2, h, ")"), w2)))))))
def _rp(w, h, v, s):
    w1 = RA(w, h, car(v), s)
    d = cdr(v)
    return If(is_nil(d), w1, If(is_pair(d), RP(If(s, text(w1, h, " "), w1), h, d, s), RA(If(s, text(w1, h, " . "), w1), h, d, s)))
th._evd("RENDER", RA, _ra, "io")
th._evd("RENDERLIST", RP, _rp, "io")
PRINW = lambda w, h, v, s: FFLUSHW(RA(w, h, v, s), h)

# ---- libc
def data_emit(e, st, p, n, w, h, what):
    """the world after writing n bytes from p; bounds of the source are checked"""
    k = bvc(n)
    lit = literal(e, st, p)
    if lit is not None and k is not None:
        e.oblige(st, "buf", "in bounds: " + what, BoolVal(0 <= k <= len(lit)))
        return text(w, h, lit[:k])
    if p.k == "cell" and isinstance(p.o, int) and p.o == 16:
        e.alive(st, p.b, what)
        sy = st.rd("sym", p.b)
        # the caller measured the name with strnlen: anything else is not the name
        e.oblige(st, "post", "the whole name is written: " + what, n == CSLEN(SYMS(sy)))
        return EMITS(w, h, SYMS(sy))
    if p.k == "obj":
        o = st.objs[p.b]
        if "cs" in o.g and o.g["cs"][0] == p.o:
            s_ = o.g["cs"][1]
            e.oblige(st, "post", "the whole text is written: " + what, n == CSLEN(s_))
            return EMITS(w, h, s_)
        if k is not None and isinstance(p.o, int) and k <= 8:
            for j in range(k): w = EMITB(w, h, e.load(st, Ptr("obj", p.b, p.o + j), ir.IntT(8), what))
            return w
    if p.k == "opq": return EMITD(w, h, DATA(e.ptr2int(p), n))
    raise Unsupported("bytes " + what)
@ext("fwrite")
def _fwrite(e, st, args, i):
    st = st.copy()
    p, sz, n, f = args
    h = e.ptr2int(f)
    total = simplify(sz * n)
    if p.k == "obj" and "C" in st.objs[p.b].g:
        o = st.objs[p.b]
        e.oblige(st, "post", "exactly the content of the buffer is written", And(e.off(p) == 0, total == o.g["n"]))
        st.w = emitc(st.w, h, o.g["C"])
    else: st.w = data_emit(e, st, p, total, st.w, h, "fwrite")
    return [(st, n)]
@ext("fflush")
def _fflush(e, st, args, i):
    st = st.copy()
    st.w = FFLUSHW(st.w, e.ptr2int(args[0]))
    return [(st, fresh(BV32, "r"))]
def _memcpy_buf(e, st, args, i):
    d, s_, n = args[:3]
    if d.k == "obj" and "C" in st.objs[d.b].g:
        st = st.copy()
        o = st.objs[d.b]
        off = e.off(d)
        e.bounds(st, o, d.o, n, "memcpy")
        if s_.k != "opq": raise Unsupported("memcpy source")
        x = DATA(e.ptr2int(s_), n)
        Cn = o.g["C"]
        o = e.wobj(st, d)
        o.f.clear()
        o.g["C"] = If(off == o.g["n"], CAT(Cn, x), If(off == 0, x, fresh(OUT, "bytes")))
        o.g["n"] = simplify(off + n)
        return [(st, None)]
    raise Unsupported("memcpy")
EXT["__memcpy__"] = _memcpy_buf
@ext("sprintf")
def _sprintf(e, st, args, i):
    d = args[0]
    fmt = literal(e, st, args[1])
    if d.k == "obj" and isinstance(d.o, int) and fmt is not None and fmt.split(b"\0")[0] in (b"%ld", b"%lld"):
        st = st.copy()
        e.bounds(st, st.objs[d.b], d.o, 21, "sprintf of a number")
        o = e.wobj(st, d); o.f.clear(); o.zero = False
        o.g["cs"] = (d.o, DECS(args[2]))
        st.add(ULE(CSLEN(DECS(args[2])), 20), UGE(CSLEN(DECS(args[2])), 1))
        return [(st, fresh(BV32, "r"))]
    raise Unsupported("sprintf")
@ext("strlen")
def _strlen(e, st, args, i):
    c = cstr(e, st, args[0], "strlen")
    lit = literal(e, st, args[0])
    if lit is not None: return [(st, BitVecVal(len(lit.split(b"\0")[0]), 64))]
    return [(st, CSLEN(c))]
@ext("strnlen")
def _strnlen(e, st, args, i):
    p = args[0]
    if p.k == "cell" and p.o == 16 and bvc(args[1]) == 16:
        e.alive(st, p.b, "strnlen")
        st = st.copy()
        r = CSLEN(SYMS(st.rd("sym", p.b)))
        st.add(ULE(r, 16))
        return [(st, r)]
    raise Unsupported("strnlen")

# ---- the writers
BUFN = 1024
def bufset(e, st, args, k):
    o = e.newobj(st, BUFN, "param", "buf")
    o.g["C"], o.g["n"] = Const("content", OUT), BitVec("content.n", 64)
    st.add(ULE(o.g["n"], BUFN), Implies(o.g["n"] == 0, o.g["C"] == EMPTY), o.g["n"] == args[k + 1])
    args[k] = Ptr("obj", o.id, 0)
def flushed(st, p, h):
    o = st.objs[p.b]
    return emitc(st.w, h, o.g["C"])
def writer(name, kinds, bk, emit, pre=None, measure=None, groups=("struct", "io")):
    """kinds with the buffer at bk and the fill index at bk+1; emit(e, st, args, w) = the world with the text added"""
    def call(e, st, args, i):
        st = st.copy()
        e.used_contracts.add(name)
        b, idx = args[bk], args[bk + 1]
        if b.k != "obj": raise Unsupported("buffer of " + name)
        o = st.objs[b.b]
        if "C" not in o.g:
            o = e.wobj(st, b)
            o.g["C"], o.g["n"] = EMPTY, BitVecVal(0, 64)
        what = "call of " + name
        e.bounds(st, o, b.o, BUFN, what)
        e.oblige(st, "pre", "%s: the index is the length of the buffer's content" % what, And(e.off(b) == 0, idx == o.g["n"], ULE(idx, BUFN)))
        if pre:
            for d, g in pre(e, st, args): e.oblige(st, "pre", "%s: %s" % (what, d), g)
        if measure and e.fnname in WRITERS and e.wargs is not None:
            m0, m1 = WRITERS[e.fnname][1](e, e.wst, e.wargs), measure(e, st, args)
            e.oblige(st, "term", "recursive %s decreases its measure" % what, And(m1 >= 0, m1 < m0))
        for k, kd in enumerate(kinds):
            if kd == "cell": e.alive(st, e.ref(args[k]), "argument %d of %s" % (k, name))
        h = e.ptr2int(args[0])
        goal = emit(e, st, args, flushed(st, b, h))
        st.w = fresh(W, "w_" + name)
        o = e.wobj(st, b)
        o.f.clear()
        o.g["C"], o.g["n"] = fresh(OUT, "content"), fresh(BV64, "idx")
        st.add(ULE(o.g["n"], BUFN), Implies(o.g["n"] == 0, o.g["C"] == EMPTY), EMITC(st.w, h, o.g["C"]) == goal)
        return [(st, o.g["n"])]
    contract(name, kinds, "bv64", special=call)
    def setup(e, st, args):
        bufset(e, st, args, bk)
        if pre:
            for d, g in pre(e, st, args): st.add(g)
        e.wst, e.wargs = st.copy(), list(args)
    def post(c):
        b = c.args[bk]
        o = c.st.objs[b.b]
        h = c.e.ptr2int(c.args[0])
        g0 = emit(c.e, c.snap, c.args, flushed(c.snap, b, h))
        return [("once flushed, the output is what it would have been followed by the text, complete and in order", flushed(c.st, b, h) == g0),
                ("the result is the length of the buffer's content", And(c.rv == o.g["n"], ULE(c.rv, BUFN), Implies(o.g["n"] == 0, emitc(c.st.w, h, o.g["C"]) == c.st.w)))]
    OWNC[name] = Contract(name, kinds, "bv64", props=("C13",), groups=groups, setup=setup, post=post, frame=False)
    WRITERS[name] = (call, measure)
WRITERS = {}
class _E: pass
writer("lisp_write", ["ptr", "buf", "bv64", "ptr", "bv64"], 1, lambda e, st, a, w: data_emit(e, st, a[3], a[4], w, e.ptr2int(a[0]), "lisp_write"),
       pre=lambda e, st, a: [("the text fits the buffer", ULE(a[4], BUFN))])
sz = lambda e, st, a: SIZE(st.V(e.ref(a[3])))
writer("lisp_prin_atom", ["ptr", "buf", "bv64", "cell", "bool"], 1, lambda e, st, a, w: RA(w, e.ptr2int(a[0]), st.V(e.ref(a[3])), a[4]), measure=lambda *a: 2 * sz(*a) + 1)
writer("lisp_prin_pair", ["ptr", "buf", "bv64", "cell", "bool"], 1, lambda e, st, a, w: RP(w, e.ptr2int(a[0]), st.V(e.ref(a[3])), a[4]), measure=lambda *a: 2 * sz(*a),
       pre=lambda e, st, a: [("a pair is printed", is_pair(st.V(e.ref(a[3]))))])
def sp_flush(e, st, args, i):
    st = st.copy()
    h, b, idx = e.ptr2int(args[0]), args[1], args[2]
    if b.k != "obj": raise Unsupported("lisp_flush")
    o = st.objs[b.b]
    if "C" not in o.g: o = e.wobj(st, b); o.g["C"], o.g["n"] = EMPTY, BitVecVal(0, 64)
    e.oblige(st, "pre", "call of lisp_flush: the index is the length of the buffer's content", And(e.off(b) == 0, idx == o.g["n"]))
    st.w = FFLUSHW(emitc(st.w, h, o.g["C"]), h)
    return [(st, None)]
contract("lisp_flush", ["ptr", "buf", "bv64"], "void", special=sp_flush)
OWNC["lisp_flush"] = Contract("lisp_flush", ["ptr", "buf", "bv64"], "void", props=("C13",), groups=("struct", "io"), setup=lambda e, st, args: bufset(e, st, args, 1),
    world=lambda c: FFLUSHW(emitc(c.w0, c.e.ptr2int(c.args[0]), c.snap.objs[c.args[1].b].g["C"]), c.e.ptr2int(c.args[0])))

# ---- channels: both stacks always hold a current channel (handle path . pending expressions)
def iowf(v): return And(is_pair(v), is_pair(car(v)), is_num(car(car(v))), is_pair(cdr(car(v))))
def OH(c, off=32): return numv(car(car(c.snap.V(c.lispf(off)))))
def iosetup(*offs):
    def f(e, st, args):
        e.assumed.add("the channel stacks hold a channel with a numeric handle (pushed by main and lisp_io_push, restored by in, out and load)")
        for a in args:
            if isinstance(a, Ptr) and a.k == "obj" and st.objs[a.b].kind == "lisp":
                for off in offs or (32,): st.add(iowf(st.V(st.objs[a.b].f[off][1].b)))
                break
    return f
contract("lisp_prin", ["lisp", "cell", "bool"], "void", props=("C13",), groups=("struct", "io"), setup=iosetup(32),
    world=lambda c: PRINW(c.w0, OH(c), c.v[1], c.args[2]))
def prall(name, s, sep):
    R, RW = th.rec2("PRINTALL_" + name, (Val, Val, Val, BV64), Val, "prn")(lambda F, FW, w, c, l, r, h: _prall(F, FW, w, c, l, r, h, s, sep))
    contract("lisp_%s_all" % name, ["lisp", "cell", "own", "own"], "own", props=("C13",), groups=("struct", "prn"), havoc_globals=True, setup=iosetup(32),
        pre=lambda c: [("environment is a binding list", ALIST(c.v[1]))],
        hints=[fold_hint("PRINTALL", R, lambda c: [c.w0, c.v[1], c.v[2], c.v[3], OH(c)]), fold_hint("PRINTALLW", RW, lambda c: [c.w0, c.v[1], c.v[2], c.v[3], OH(c)])],
        world=lambda c: RW(c.w0, c.v[1], c.v[2], c.v[3], OH(c)),
        post=lambda c: [("the last value printed", c.rv == R(c.w0, c.v[1], c.v[2], c.v[3], OH(c)))])
    return R, RW
def _prall(F, FW, w, c, l, r, h, s, sep):
    v, w1 = EVAL(w, c, VCAR(l)), EVALW(w, c, VCAR(l))
    w2 = PRINW(w1, h, v, BoolVal(s))
    if sep: w2 = If(is_nil(VCDR(l)), w2, text(w2, h, " "))
    return If(is_nil(l), r, F(w2, c, VCDR(l), v, h)), If(is_nil(l), w, FW(w2, c, VCDR(l), v, h))
import natives
from natives import native
PALL = {}
for _n, _s in (("prin", False), ("prinl", False), ("print", True), ("printl", True)):
    PALL[_n] = prall(_n, _s, _s)
    def _post(_n):
        def f(c, cl, a): return [("the last value printed", c.rv == PALL[_n][0](c.w0, cl, a, nil, OH(c)))]
        def w(c, cl, a):
            x = PALL[_n][1](c.w0, cl, a, nil, OH(c))
            return text(x, OH(c), "\n") if _n.endswith("l") else x
        return f, w
    f, w = _post(_n)
    native(_n, (), "ANY", ("C13",), f, w, groups=("struct", "prn"), havoc_globals=True, setup=iosetup(32))
