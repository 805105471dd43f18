"""Contracts of the module loader (C15): export tables are read-only arrays of (name function, load function) pairs ended by a NULL name."""
from engine import *
from externs import *
import theory as th
from theory import *
from contracts import contract, C, OWNC, fold_hint

CS = DeclareSort("CString")
MEM8 = Function("MEM8", BV64, BV64)              # read-only words of a loaded module
CNAME = Function("CNAME", BV64, BV64)            # address of the string a name function returns
CSOF = Function("CSOF", BV64, CS)                # C string at an address
SYMS = Function("SYMS", BV128, CS)               # C string with the bytes of a symbol
LOADV = Function("LOADV", BV64, Val)             # symbol a load function returns
LOADW = Function("LOADW", W, BV64, W)            # its binding of the symbol
def NAMED(p): return MEM8(p) != 0
FIND = Function("FIND", BV64, CS, BV64)
th._evd("FIND", FIND, lambda p, s: If(MEM8(p) == 0, BitVecVal(0, 64), If(CSOF(CNAME(MEM8(p))) == s, p, FIND(p + 16, s))), "mod")
FOUND = Function("FOUND", BV64, CS, BoolSort())
th._evd("FOUND", FOUND, lambda p, s: And(MEM8(p) != 0, Or(CSOF(CNAME(MEM8(p))) == s, FOUND(p + 16, s))), "mod")
MODL, MODLW = Function("MODL", W, BV64, Val, Val), Function("MODLW", W, BV64, Val, W)
def _modl(w, p, v):
    n, w1 = MODL(w, p, VCDR(v)), MODLW(w, p, VCDR(v))
    a = VCAR(v)
    e = FIND(p, SYMS(symv(a)))
    hit = And(is_sym(a), FOUND(p, SYMS(symv(a))))
    return (If(is_nil(v), v, If(hit, pr(LOADV(MEM8(e + 8)), n), n)), If(is_nil(v), w, If(hit, LOADW(w1, MEM8(e + 8)), w1)))
th._evd("MODL", MODL, lambda *a: _modl(*a)[0], "mod")
th._evd("MODLW", MODLW, lambda *a: _modl(*a)[1], "mod")
MODA, MODAW = Function("MODALL", W, BV64, Val), Function("MODALLW", W, BV64, W)
th._evd("MODALL", MODA, lambda w, p: If(MEM8(p) == 0, nil, pr(LOADV(MEM8(p + 8)), MODA(w, p + 16))), "moda")
th._evd("MODALLW", MODAW, lambda w, p: If(MEM8(p) == 0, w, LOADW(MODAW(w, p + 16), MEM8(p + 8))), "moda")
NZ = Function("NZ", BV64, BV64, BoolSort())      # the first n entries have names
th._evd("NZ", NZ, lambda p, n: Or(n == 0, And(MEM8(p + 16 * (n - 1)) != 0, NZ(p, n - 1))), "moda")

# ---- strings
def cstr(e, st, p, what):
    if p.k == "opq": return CSOF(e.ptr2int(p))
    lit = literal(e, st, p)
    if lit is not None:
        b = lit.split(b"\0")[0]
        if len(b) <= 16: return SYMS(symbytes(b))
        return Const("lit:" + b.decode("latin1"), CS)
    if p.k == "obj" and z3.is_expr(p.o) and "cs" in st.objs[p.b].g:
        k, c = st.objs[p.b].g["cs"]
        if z3.is_expr(k) and simplify(k).eq(simplify(p.o)): return c
    if p.k == "obj" and isinstance(p.o, int):
        o = st.objs[p.b]
        if "cs" in o.g and o.g["cs"][0] == p.o: return o.g["cs"][1]
        if p.o in o.f and o.f[p.o][0] == 16 and z3.is_bv(o.f[p.o][1]):
            v = o.f[p.o][1]
            end = p.o + 16
            term = isinstance(o.size, int) and o.size > end and ((o.zero and not any(a < end + 1 and end < a + n for a, (n, _) in o.f.items())) or
                     (end in o.f and z3.is_bv(o.f[end][1]) and z3.is_bv_value(simplify(Extract(7, 0, o.f[end][1]))) and simplify(Extract(7, 0, o.f[end][1])).as_long() == 0))
            if not term: e.oblige(st, "buf", "terminated string: " + what, Or(*[Extract(8 * k + 7, 8 * k, v) == 0 for k in range(16)]))
            return SYMS(v)
    raise Unsupported("string " + what)
@ext("strcmp")
def _strcmp(e, st, args, i):
    st = st.copy()
    a, b = cstr(e, st, args[0], "strcmp"), cstr(e, st, args[1], "strcmp")
    r = fresh(BV32, "cmp")
    st.add((r == 0) == (a == b))
    return [(st, r)]
def _strncpy_cell(e, st, args, i):
    d, s_, n = args
    if bvc(n) == 16 and s_.k == "cell" and s_.o == 16 and d.k == "obj":
        v = rd16(e, st, s_, "strncpy")
        st = st.copy()
        e.assumed.add("symbol names are padded with zeros after their end")
        e.store(st, d, v, ir.T("vec", 128, ir.IntT(64), 2), "strncpy")
        return [(st, d)]
    raise Unsupported("strncpy")
EXT["__strncpy__"] = _strncpy_cell
def _load_opq(e, st, p, t):
    if t.k == "ptr":
        e.assumed.add("the export table of a module is not written")
        return Ptr("opq", MEM8(e.ptr2int(p)))
EXT["__load_opq__"] = _load_opq
LOADFN = Contract("<load function>", ["ptr", "lisp"], "own", havoc_globals=True, world=lambda c: LOADW(c.w0, c.e.ptr2int(c.args[0])),
    post=lambda c: [("the symbol", c.rv == LOADV(c.e.ptr2int(c.args[0])))])
_ind0 = EXT["__indirect__"]
@ext("__indirect__")
def _indirect2(e, st, cal, args, i):
    if len(args) == 0 and i.t is not None and i.t.k == "ptr": return [(st, Ptr("opq", CNAME(e.ptr2int(cal))))]
    if len(args) == 1 and args[0].k == "obj" and st.objs[args[0].b].kind == "lisp": return e.apply(LOADFN, st, [cal] + args, i, {})
    return _ind0(e, st, cal, args, i)

# ---- symbols of a module
A0 = lambda c: c.e.ptr2int(c.args[0])
def opqphis(s, r, phis): return [p for p in phis if isinstance(r[p], Ptr) and r[p].k == "opq"]
def bvphis(r, phis): return [p for p in phis if not isinstance(r[p], Ptr) and z3.is_bv(r[p]) and r[p].size() == 64]
def find_hint(ctx):
    def gen(s, fn, b, r, x, phis, cellphis):
        key = SYMS(symv(VCAR(ctx.v[2])))
        return [("FIND(%s) preserved" % p, lambda R, X, p=p: And(FIND(s.ptr2int(R[p]), key) == FIND(A0(ctx), key), FOUND(s.ptr2int(R[p]), key) == FOUND(A0(ctx), key))) for p in opqphis(s, r, phis)]
    return gen
def count_hint(ctx):
    def gen(s, fn, b, r, x, phis, cellphis):
        out, base = [], A0(ctx)
        for n in bvphis(r, phis):
            out.append(("first %s entries are named" % n, lambda R, X, n=n: NZ(base, R[n])))
            for p in opqphis(s, r, phis):
                out.append(("%s is entry %s" % (p, n), lambda R, X, n=n, p=p: s.ptr2int(R[p]) == base + 16 * R[n]))
            for cnt in s.loop_bounds(fn, b, r):
                if cnt.size() != 64: continue
                at = lambda R, n=n, cnt=cnt: base + 16 * (cnt - R[n])
                out.append(("entries before the current one are named", lambda R, X, n=n, cnt=cnt: And(ULE(R[n], cnt), NZ(base, cnt - R[n]))))
                for q in cellphis:
                    out.append(("result and effect are those of the entries from the current one on", lambda R, X, q=q, at=at: And(X.V(R[q].b) == MODA(ctx.w0, at(R)), X.w == MODAW(ctx.w0, at(R)))))
        return out
    return gen
contract("module_load_symbols_list", ["ptr", "lisp", "own"], "own", props=("C15",), groups=("struct", "mod"), havoc_globals=True, total=False,
    hints=[find_hint], world=lambda c: MODLW(c.w0, A0(c), c.v[2]), decreases=lambda c: If(is_nil(c.v[2]), IntVal(0), SIZE(c.v[2]) + 1),
    post=lambda c: [("the exported symbols of the request, in order", c.rv == MODL(c.w0, A0(c), c.v[2]))])
def _mls(c):
    v, p = c.v[2], A0(c)
    return (If(is_tru(v), MODA(c.w0, p), If(is_list(v), MODL(c.w0, p, v), nil)), If(is_tru(v), MODAW(c.w0, p), If(is_list(v), MODLW(c.w0, p, v), c.w0)))
contract("module_load_symbols", ["ptr", "lisp", "own"], "own", props=("C15",), groups=("struct", "mod", "moda"), havoc_globals=True, total=False,
    hints=[count_hint], world=lambda c: _mls(c)[1],
    post=lambda c: [("every exported symbol, the requested ones, or none", c.rv == _mls(c)[0])])

# ---- libraries: what the dynamic linker does is an event of the world, its results are functions of the world
DLH, DLOPENW, DLCLOSEW = Function("DLH", W, CS, BV64), Function("DLOPENW", W, CS, W), Function("DLCLOSEW", W, BV64, W)
DLSYM = Function("DLSYM", BV64, CS, BV64)
OPENH, OPENW = Function("OPENMODULE", W, CS, CS, BV64), Function("OPENMODULEW", W, CS, CS, W)
@ext("dlopen")
def _dlopen(e, st, args, i):
    st = st.copy()
    n = cstr(e, st, args[0], "dlopen")
    h = DLH(st.w, n)
    st.w = DLOPENW(st.w, n)
    return [(st, Ptr("opq", h))]
@ext("dlsym")
def _dlsym(e, st, args, i): return [(st, Ptr("opq", DLSYM(e.ptr2int(args[0]), cstr(e, st, args[1], "dlsym"))))]
@ext("dlclose")
def _dlclose(e, st, args, i):
    st = st.copy()
    st.w = DLCLOSEW(st.w, e.ptr2int(args[0]))
    return [(st, BitVecVal(0, 32))]
@ext("dlerror", "strerror", "module_paths", "lisp_prefix")
def _cs(e, st, args, i): return [(st, Ptr("opq", fresh(BV64, "str")))]
@ext("fprintf", "printf", "gettimeofday", "localtime", "strftime", "fflush_stderr")
def _out(e, st, args, i): return [(st, e.freshval(st, i.t, "r") if i.dst else None)]
_ld0 = EXT.get("__load__")
def litc(s): return Const("lit:" + s, CS)
def S1(c, k): return cstr(c.e, c.snap if hasattr(c, "snap") else c.st, c.args[k], "argument")
def _wfname(e, st, h, name):
    return CSOF(CNAME(DLSYM(h, SYMS(symbytes("lisp_module_name"))))) == name
contract("module_load_at_path", ["str", "str"], "opq", props=("C15",), groups=("struct", "mod"), frame=False,
    world=lambda c: OPENW(c.w0, S1(c, 0), S1(c, 1)),
    post=lambda c: [("a library is accepted only under its own name", Implies(c.rv != 0, And(c.rv == DLH(c.w0, S1(c, 0)), _wfname(c.e, c.st, c.rv, S1(c, 1)))))],
    assume_post=lambda c: [c.rv == OPENH(c.w0, S1(c, 0), S1(c, 1))])
contract("module_find_from_cache", ["lisp", "cell"], "opq", props=("C15",), groups=("struct", "mod"),
    pre=lambda c: [("a module is named by a symbol", is_sym(c.v[1]))],
    setup=lambda e, st, args: st.add(Implies(st.rd("type", st.objs[args[0].b].f[16][1].b) == T_NIL, Not(MBOUND(st.w, st.rd("sym", args[1].b))))),
    post=lambda c: [("handle of a loaded module, 0 otherwise", c.rv == If(MBOUND(c.w0, symv(c.v[1])), MHANDLE(c.w0, symv(c.v[1])), BitVecVal(0, 64)))])
def _bin(w, path, nm, v):
    k = symv(nm)
    hc = If(MBOUND(w, k), MHANDLE(w, k), BitVecVal(0, 64))
    new = hc == 0
    h, w1 = If(new, OPENH(w, path, SYMS(k)), hc), If(new, OPENW(w, path, SYMS(k)), w)
    en = DLSYM(h, litc("lisp_module_entries"))
    e = CNAME(en)
    r = If(is_tru(v), MODA(w1, e), If(is_list(v), MODL(w1, e, v), nil))
    w2 = If(is_tru(v), MODAW(w1, e), If(is_list(v), MODLW(w1, e, v), w1))
    ok = And(h != 0, en != 0)
    cl = lambda x: If(new, DLCLOSEW(x, h), x)
    return (If(ok, r, nil), If(h == 0, w1, If(en == 0, cl(w1), If(is_nil(r), cl(w2), If(new, MSET(w2, k, num(h)), w2)))))
contract("module_load_binary", ["str", "lisp", "cell", "own"], "own", props=("C15",), groups=("struct", "mod"), havoc_globals=True,
    pre=lambda c: [("a module is named by a symbol", is_sym(c.v[2]))],
    world=lambda c: _bin(c.w0, S1(c, 0), c.v[2], c.v[3])[1],
    post=lambda c: [("the symbols bound", c.rv == _bin(c.w0, S1(c, 0), c.v[2], c.v[3])[0])])
PATHF, PATHOF = Function("MODULEFOUND", W, BV128, BoolSort()), Function("MODULEPATH", W, BV128, CS)
def sp_module_find(e, st, args, i):
    st = st.copy()
    e.alive(st, e.ref(args[1]), "name passed to module_find")
    k = st.rd("sym", e.ref(args[1]))
    d = args[2]
    if d.k == "obj":
        e.bounds(st, st.objs[d.b], d.o, 4096, "path buffer of module_find")
        o = e.wobj(st, d); o.f.clear(); o.zero = False; o.g["cs"] = (d.o, PATHOF(st.w, k))
    e.assumed.add("module_find looks a library up by its file name; the directory scan is outside the verified code")
    return [(st, PATHF(st.w, k))]
contract("module_find", ["ptr", "cell", "ptr"], "bool", special=sp_module_find)
contract("module_load", ["lisp", "own"], "own", props=("C15",), groups=("struct", "mod"), havoc_globals=True,
    world=lambda c: If(And(is_sym(VCAR(c.v[1])), PATHF(c.w0, symv(VCAR(c.v[1])))), _bin(c.w0, PATHOF(c.w0, symv(VCAR(c.v[1]))), VCAR(c.v[1]), VCDR(c.v[1]))[1], c.w0),
    post=lambda c: [("the symbols bound; none when the request is malformed or the module unknown",
        c.rv == If(And(is_sym(VCAR(c.v[1])), PATHF(c.w0, symv(VCAR(c.v[1])))), _bin(c.w0, PATHOF(c.w0, symv(VCAR(c.v[1]))), VCAR(c.v[1]), VCDR(c.v[1]))[0], nil))])
