"""Contracts of what lies outside the verified code: allocator entry points, compiler intrinsics, libc."""
from engine import *
import ir

EXT = {}
def ext(*names):
    def deco(f):
        for n in names: EXT[n] = f
        return f
    return deco

def bvc(v):
    """python int of a constant bit vector or None"""
    if isinstance(v, int): return v
    if isinstance(v, Ptr) or v is None: return None
    x = simplify(v)
    return x.as_long() if z3.is_bv_value(x) else None

# ----------------------------------------------------------------------------- allocator as seen by clients
def sp_allocate(e, st, args, i):
    r = st.newcell("new")
    st.wr("refs", r, BitVecVal(0, 32)); st.wr("type", r, BitVecVal(0, 16)); st.wr("flags", r, BitVecVal(0, 16))
    st.wr("cache", r, NULL); st.wr("num", r, BitVecVal(0, 64)); st.wr("sym", r, BitVecVal(0, 128))
    st.wr("car", r, NULL); st.wr("cdr", r, NULL)
    st.aux[("uc", r.get_id())] = True
    return [(st, Cell(r))]

def sp_deallocate(e, st, args, i):
    """requires: the count of the cell is zero (its last reference was just given up)"""
    p = args[1]
    if p.k != "cell" or p.o != 0: raise Unsupported("deallocate of %r" % p)
    r = p.b
    e.oblige(st, "own", "a cell is deallocated only when its count is zero", st.rd("refs", r) == 0)
    hit = False
    np = []
    for (c, v) in st.pend:
        if not hit and c.eq(r): hit = True; continue
        np.append((c, v))
    if not hit:
        for k, (c, v) in enumerate(np):
            if e.prove(st, c == r, timeout=2000): del np[k]; hit = True; break
    if not hit: e.oblige(st, "own", "a cell is deallocated only after its last reference was given up", BoolVal(False))
    st.pend = np
    st.rver = next(_c2) + 10**6
    st.ov["refs"] = []
    return [(st, None)]
_c2 = itertools.count()

def sp_slab_deallocate(e, st, args, i):
    """hands the references stored in the cell back to the caller"""
    r = e.ref(args[1])
    e.alive_or_pend(st, r, "deallocated cell") if hasattr(e, "alive_or_pend") else None
    isp = st.rd("type", r) == T_PAIR
    weak = Extract(2, 2, st.rd("flags", r)) == 1
    a, d = st.rd("car", r), st.rd("cdr", r)
    st.track(a); st.track(d)
    e.cgive(st, a, If(And(isp, Not(weak)), IntVal(1), IntVal(0)))
    e.cgive(st, d, If(isp, IntVal(1), IntVal(0)))
    n = st.aux.get("slabfreed", 0)
    st.aux["slabfreed"] = n + 1
    st.aux["slabfreed_ref"] = r
    return [(st, None)]

@ext("abort")
def _abort(e, st, args, i):
    e.oblige(st, "safe", "abort() is not reached", BoolVal(False))
    raise PathEnd()

@ext("llvm.x86.sse41.ptestz")
def _ptestz(e, st, args, i):
    return [(st, If((args[0] & args[1]) == 0, BitVecVal(1, 32), BitVecVal(0, 32)))]
@ext("llvm.expect.i64", "llvm.expect.i1", "llvm.expect.i32")
def _expect(e, st, args, i): return [(st, args[0])]
@ext("llvm.lifetime.start.p0", "llvm.lifetime.end.p0", "llvm.dbg.declare", "llvm.assume", "llvm.stackrestore.p0")
def _nop(e, st, args, i): return [(st, None)]
@ext("llvm.stacksave.p0")
def _ss(e, st, args, i): return [(st, Ptr("opq", fresh(BV64, "sp")))]

def rd16(e, st, p, what):
    """16 raw bytes at p"""
    return e.load(st, p, ir.T("vec", 128, ir.IntT(64), 2), what)

@ext("memcmp")
def _memcmp(e, st, args, i):
    n = bvc(args[2])
    if n != 16: raise Unsupported("memcmp of %r bytes" % (args[2],))
    a, b = rd16(e, st, args[0], "memcmp"), rd16(e, st, args[1], "memcmp")
    r = fresh(BV32, "cmp")
    st = st.copy()
    st.add((r == 0) == (a == b), (r < 0) == SLT(a, b))
    return [(st, r)]

def literal(e, st, p):
    """bytes of a string literal from p on, or None"""
    if isinstance(p, Ptr) and p.k == "obj" and isinstance(p.o, int):
        o = st.objs[p.b]
        if "lit" in o.g: return o.g["lit"][p.o:]
    return None

@ext("strncpy")
def _strncpy(e, st, args, i):
    st = st.copy()
    d, s_, n = args
    nn = bvc(n)
    lit = literal(e, st, s_)
    if lit is not None and nn is not None and d.k == "obj" and isinstance(d.o, int):
        lit = lit.split(b"\0")[0] + b"\0"
        if nn > 65536: raise Unsupported("strncpy size")
        data = lit[:nn].rstrip(b"\0") if len(lit) <= nn else lit[:nn]
        data = (data + b"\0" * nn)[:nn]
        o = st.objs[d.b]
        e.bounds(st, o, d.o, nn, "strncpy")
        if nn <= 16:
            e.store(st, d, BitVecVal(int.from_bytes(data, "little"), 8 * nn), ir.IntT(8 * nn), "strncpy")
            return [(st, d)]
    h = EXT.get("__strncpy__")
    if h: return h(e, st, args, i)
    raise Unsupported("strncpy")

@ext("llvm.memset.p0.i64")
def _memset(e, st, args, i):
    st = st.copy()
    d, v, n = args[0], bvc(args[1]), bvc(args[2])
    if d.k == "obj":
        o = st.objs[d.b]
        e.bounds(st, o, d.o, args[2], "memset")
        if v == 0 and d.o == 0 and n == o.size:
            o = e.wobj(st, d); o.f.clear(); o.g.clear(); o.zero = True
            return [(st, None)]
        o = e.wobj(st, d); o.f.clear(); o.g.clear(); o.zero = False
        return [(st, None)]
    raise Unsupported("memset")

@ext("llvm.memcpy.p0.p0.i64")
def _memcpy(e, st, args, i):
    st = st.copy()
    d, s_, n = args[0], args[1], bvc(args[2])
    h = EXT.get("__memcpy__")
    if n == 16:
        v = rd16(e, st, s_, "memcpy")
        e.store(st, d, v, ir.T("vec", 128, ir.IntT(64), 2), "memcpy")
        return [(st, None)]
    if h: return h(e, st, args, i)
    raise Unsupported("memcpy")

@ext("__indirect__")
def _indirect(e, st, cal, args, i):
    """call of a primitive through the address stored in a function value"""
    if len(args) == 2 and args[0].k == "obj" and args[1].k == "cell":
        return e.apply(NATIVE, st, [cal] + args, i, {})
    raise Unsupported("indirect call")
NATIVE = Contract("<primitive>", ["ptr", "lisp", "cell"], "own", havoc_globals=True,
    pre=lambda c: [("environment of a primitive is a binding list", ALIST(c.v[2]))],
    world=lambda c: NATW(c.w0, c.e.ptr2int(c.args[0]), c.v[2]),
    post=lambda c: [("result of the primitive", c.rv == NAT(c.w0, c.e.ptr2int(c.args[0]), c.v[2]))])

@ext("free")
def _free(e, st, args, i):
    st = st.copy()
    p = args[0]
    if p.k == "obj":
        o = e.wobj(st, p)
        e.oblige(st, "safe", "only heap blocks are freed, once and from their start", BoolVal(o.kind == "heap" and isinstance(p.o, int) and p.o == 0))
        o.kind = "dead"
        return [(st, None)]
    if p.k in ("null", "opq"): return [(st, None)]
    raise Unsupported("free")
