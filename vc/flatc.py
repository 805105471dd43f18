"""Contracts of the cell allocator (slab.c) and of the closure frame cache (closure.c)."""
from z3 import *
from flat import *
import flat
SLAB_SIZE, CELL, PAGE = 64 * 1024 * 1024, 32, 4096
END = bv(0xFFFFFFFF)
FC = {}
def fcontract(name, n, props, **kw): FC[name] = FContract(name, n, props, **kw)

# ------------------------------------------------------------------ slab
class View:
    "the allocator's fields in a memory"
    def __init__(s, st, p):
        s.M, s.p = st.M, p
        f = lambda o: st.ld(p + o, 8)
        s.first, s.n_alloc, s.n_free, s.n_pages, s.entries = f(0), f(8), f(16), f(24), f(32)
        s.N = s.n_pages * 128
        s.ld = lambda a, n, M=st.M: FSof(M).ld(a, n)
    def cell(s, i): return s.entries + i * 32
    def next(s, i): return ZeroExt(32, Select(s.M, simplify(s.cell(i))))
def FSof(M):
    x = FS(); x.M = M
    return x
def inv_scalar(v, F, com, live, rank):
    return [("the cells handed out fit the committed memory", And(ULE(v.N * 32, com), ULE(com, bv(SLAB_SIZE)), UGE(v.n_pages, bv(1)), ULE(v.n_pages, bv(SLAB_SIZE // PAGE)))),
            ("the free list starts at a free cell, or is empty exactly when no cell is free", And(Implies(F == 0, v.first == END), Implies(F != 0, And(ULT(v.first, v.N), Not(live(v.first)), rank(v.first) == F - 1)))),
            ("allocations minus releases is the number of cells in use", v.n_alloc - v.n_free == v.N - F)]
def inv_cell(v, F, live, rank, at):
    return lambda i: And(Implies(UGE(i, v.N), Not(live(i))), Implies(And(ULT(i, v.N), Not(live(i))), And(ULT(rank(i), F), at(rank(i)) == i, Implies(rank(i) == 0, v.next(i) == END),
                     Implies(rank(i) != 0, And(ULT(v.next(i), v.N), Not(live(v.next(i))), rank(v.next(i)) == rank(i) - 1)))))
def inv_at(v, F, live, rank, at):
    return lambda k: Implies(ULT(k, F), And(ULT(at(k), v.N), Not(live(at(k))), rank(at(k)) == k))
LIVE, RANK, AT = Array("live", A64, BoolSort()), Array("rank", A64, A64), Array("at", A64, A64)
F0, COM = BitVec("nfree", 64), BitVec("committed", 64)
def region(entries, p):
    return And(entries & 4095 == 0, UGE(entries, bv(1 << 16)), ULT(entries, bv(1 << 46)), p & 7 == 0, UGE(p, bv(1 << 12)), ULT(p, bv(1 << 46)), Or(ULE(p + 40, entries), UGE(p, entries + SLAB_SIZE)))
def slab_ok(e, st, a, n):
    sl, en, com = st.g.get("slab"), st.g.get("entries"), st.g.get("com")
    o = []
    if sl is not None and not st.g.get("freed"): o.append(ULE(a - sl, bv(40 - n)))
    if en is not None and not st.g.get("unmapped"): o.append(And(ULT(a - en, com), ULE(a - en, com - n)))
    return Or(*o) if o else BoolVal(False)
def slab_pre(e, st, args):
    p = args[0]
    st.g["slab"] = p
    v = View(st, p)
    st.add(region(v.entries, p))
    st.g.update(entries=v.entries, com=COM, com0=COM)
    live, rank, at = lambda i: Select(LIVE, i), lambda i: Select(RANK, i), lambda k: Select(AT, k)
    st.add(*[f for _, f in inv_scalar(v, F0, COM, live, rank)], ULE(F0, v.N))
    st.all(inv_cell(v, F0, live, rank, at)); st.all(inv_at(v, F0, live, rank, at), "k")
    st.term(v.first, v.N - 1); st.term(F0 - 1, bv(0), key="k")
    return dict(v=v, p=p, live=live, rank=rank, at=at, M=st.M)
def conj(x):
    if is_and(x): return [y for c in x.children() for y in conj(c)]
    if is_implies(x): return [Implies(x.arg(0), y) for y in conj(x.arg(1))]
    return [x]
def slab_close(e, st, v, F, live, rank, at, extra=(), cut=None):
    com = st.g["com"]
    for d, f in inv_scalar(v, F, com, live, rank): e.obl(st, "post", d, f, extra)
    i = fresh("sk_i")
    if cut is not None:
        f = cut(i)
        for g in conj(f): e.obl(st, "post", "the cells added by the growth are chained", g, [("i", i)] + list(extra))
        st = st.copy(); st.add(f)
    for g in conj(inv_cell(v, F, live, rank, at)(i)):
        e.obl(st, "post", "every cell not in use is on the free list exactly once", g, [("i", i)] + list(extra) + [("i", v.next(i))])
    k = fresh("sk_k")
    e.obl(st, "post", "every entry of the free list is a cell not in use", inv_at(v, F, live, rank, at)(k), [("k", k), ("i", at(k))] + list(extra))
def flat_next(st, v, i): return v.next(i)
def frame_cells(e, st, c, v, live, what):
    j = fresh("sk_j")
    for o in range(0, CELL, 4):
        a = simplify(v.cell(j) + o)
        e.obl(st, "post", "cells in use keep their contents", Implies(And(ULT(j, c["v"].N), live(j)), Select(st.M, a) == Select(c["M"], a)), [("i", j)])
def alloc_posts(e, c, st, ret):
    v0, v1 = c["v"], View(st, c["p"])
    N0 = v0.N
    live0, rank0, at0 = c["live"], c["rank"], c["at"]
    i = LShR(ret - v0.entries, 5)
    ex = F0 == 0
    # a path decides whether the list was empty: settle it once
    if not e.sat(st, F0 != 0): ex = BoolVal(True); st.add(F0 == 0)
    elif not e.sat(st, F0 == 0): ex = BoolVal(False); st.add(F0 != 0)
    e.obl(st, "post", "the reserved region does not move", v1.entries == v0.entries)
    e.obl(st, "post", "the result is a cell of the region", And(Extract(4, 0, ret - v0.entries) == 0, ULT(i, v1.N)), [("i", i)])
    e.obl(st, "post", "the result is not a cell in use", Not(live0(i)), [("i", i)])
    for o in range(0, CELL, 4): e.obl(st, "post", "the result is all zero", Select(st.M, simplify(ret + o)) == 0)
    e.obl(st, "post", "the region grows only when no cell is free, and doubles", v1.n_pages == simplify(If(ex, 2 * v0.n_pages, v0.n_pages)))
    e.obl(st, "post", "counters", And(v1.n_alloc == v0.n_alloc + 1, v1.n_free == v0.n_free))
    frame_cells(e, st, c, v0, live0, "")
    if is_true(simplify(ex)) and not e.sat(st, i != N0): st.add(i == N0)    # a consequence, checked by the solver just now
    Fm = simplify(If(ex, N0, F0))
    If_ = lambda c_, a, b: a if is_true(c_) else b if is_false(c_) else If(c_, a, b)
    rank = lambda j: If_(simplify(And(ex, UGE(j, N0))), 2 * N0 - 1 - j, rank0(j))
    at = lambda k: If_(ex, 2 * N0 - 1 - k, at0(k))
    live = lambda j: Or(j == i, live0(j))
    slab_close(e, st, v1, Fm - 1, live, rank, at, [("i", i), ("i", v1.first), ("k", Fm - 1)],
               (lambda j: Implies(And(UGE(j, N0), ULT(j, 2 * N0), j != i), And(Implies(j != 2 * N0 - 1, v1.next(j) == j + 1), Implies(j == 2 * N0 - 1, v1.next(j) == END)))) if is_true(simplify(ex)) else None)
def ex_mprotect(e, st, args, k, i):
    a, n, pr = args
    e.obl(st, "slab", "commits only memory of the reservation, from its start", And(a == st.g["entries"], ULE(n, bv(SLAB_SIZE))))
    ok, bad = st.copy(), st.copy()
    ok.g["com"] = simplify(If(And(ULT(ok.g["com"], n), pr == 3), n, ok.g["com"]))
    bad.g["mpfail"] = True
    k(ok, BitVecVal(0, 32))
    k(bad, BitVecVal(-1, 32))
def alloc_abort(e, st):
    sl = st.g["slab"]
    v = View(st, sl)
    g = And(F0 == 0, BoolVal(bool(st.g.get("mpfail")))  if st.g.get("mpfail") else UGT(v.n_pages * 8192, bv(SLAB_SIZE)))
    e.obl(st, "post", "gives up only when no cell is free and the region cannot grow", g, [("i", v.first)])
def slab_keep(e, st0, st1):
    p = st0.g.get("slab")
    return [("the allocator's record", And(*[Select(st1.M, simplify(p + o)) == Select(st0.M, simplify(p + o)) for o in range(0, 40, 4)]))] if p is not None else []
SX = {"mprotect": ex_mprotect}
fcontract("slab_allocate", 1, ("C01",), setup=slab_pre, posts=alloc_posts, ok=slab_ok, loopkeep=slab_keep, ext=SX, onabort=alloc_abort)
def dealloc_setup(e, st, args):
    c = slab_pre(e, st, args)
    i = BitVec("released", 64)
    st.add(args[1] == c["v"].cell(i), ULT(i, c["v"].N), c["live"](i), ULT(F0, c["v"].N))
    st.term(i)
    c["i"] = i
    return c
def dealloc_posts(e, c, st, ret):
    v0, v1, i = c["v"], View(st, c["p"]), c["i"]
    live0, rank0, at0 = c["live"], c["rank"], c["at"]
    e.obl(st, "post", "the region is unchanged", And(v1.entries == v0.entries, v1.n_pages == v0.n_pages))
    e.obl(st, "post", "counters", And(v1.n_alloc == v0.n_alloc, v1.n_free == v0.n_free + 1))
    live = lambda j: And(j != i, live0(j))
    frame_cells(e, st, c, v0, live, "")
    slab_close(e, st, v1, F0 + 1, live, lambda j: If(j == i, F0, rank0(j)), lambda k: If(k == F0, i, at0(k)), [("i", v1.first)])
fcontract("slab_deallocate", 2, ("C01",), setup=dealloc_setup, posts=dealloc_posts, ok=slab_ok, loopkeep=slab_keep, ext=SX)
def new_setup(e, st, args): return {}
def ex_malloc_slab(e, st, args, k, i):
    p = fresh("malloc")
    st.add(p & 15 == 0, UGE(p, bv(1 << 12)), ULT(p, bv(1 << 46)))
    e.obl(st, "buf", "the allocator's record is large enough", UGE(args[0], bv(40)))
    st.g = dict(st.g); st.g["slab"] = p
    k(st, p)
def ex_mmap(e, st, args, k, i):
    e.obl(st, "slab", "reserves the whole region", args[1] == SLAB_SIZE)
    e.obl(st, "slab", "private anonymous inaccessible reservation", And(args[0] == 0, args[2] == 0, args[3] == 0x22))
    bad = st.copy(); bad.g["mmfail"] = True
    r = fresh("mmap")
    st.g = dict(st.g)
    st.g["entries"], st.g["com"] = r, bv(0)
    st.add(region(r, st.g["slab"]))
    k(st, r)
    k(bad, bv((1 << 64) - 1))
def ex_free_slab(e, st, args, k, i):
    e.obl(st, "slab", "frees the allocator's record, once", And(args[0] == st.g["slab"], BoolVal(not st.g.get("freed"))))
    st.g = dict(st.g); st.g["freed"] = True
    k(st, None)
def ex_munmap(e, st, args, k, i):
    e.obl(st, "slab", "unmaps the whole region, once", And(args[0] == st.g["entries"], args[1] == SLAB_SIZE, BoolVal(not st.g.get("unmapped"))))
    st.g = dict(st.g); st.g["unmapped"] = True
    k(st, BitVecVal(0, 32))
def new_posts(e, c, st, ret):
    if st.g.get("mpfail") or st.g.get("mmfail"):
        e.obl(st, "post", "NULL when the memory cannot be had, and nothing kept", And(ret == 0, BoolVal(bool(st.g.get("freed")))))
        return
    e.obl(st, "post", "the record is returned", ret == st.g["slab"])
    v = View(st, st.g["slab"])
    e.obl(st, "post", "the region is recorded", v.entries == st.g["entries"])
    e.obl(st, "post", "counters start at zero", And(v.n_alloc == 0, v.n_free == 0))
    no = lambda i: BoolVal(False)
    slab_close(e, st, v, v.N, no, lambda i: v.N - 1 - i, lambda k: v.N - 1 - k)
fcontract("slab_new", 0, ("C01",), setup=new_setup, posts=new_posts, ok=slab_ok, loopkeep=slab_keep, ext=dict(SX, malloc=ex_malloc_slab, mmap=ex_mmap, free=ex_free_slab))
def del_posts(e, c, st, ret):
    e.obl(st, "post", "the region and the record are given back", BoolVal(bool(st.g.get("freed") and st.g.get("unmapped"))))
def ex_trace(e, st, args, k, i): k(st, None)
fcontract("slab_delete", 1, ("C01",), setup=slab_pre, posts=del_posts, ok=slab_ok, loopkeep=slab_keep, ext=dict(SX, munmap=ex_munmap, free=ex_free_slab))

# ------------------------------------------------------------------ closure frames
CIN, CRANK = Array("cached", A64, BoolSort()), Array("crank", A64, A64)
CF = BitVec("ncached", 64)
NV = BitVec("nvalues", 64)
def frame_at(p, slot): return And(p & 7 == 0, UGE(p, bv(1 << 12)), ULT(p, bv(1 << 46)), Or(ULE(p + 8, slot), UGE(p, slot + 8)))
def link(M, p): return FSof(M).ld(p, 8)
def cache_fact(M, F, inn, rank):
    """every cached frame is a frame whose link leads to the frame ranked one below it, 0 ends the list"""
    return lambda p: Implies(inn(p), And(p != 0, ULT(rank(p), F), Implies(rank(p) == 0, link(M, p) == 0), Implies(rank(p) != 0, And(inn(link(M, p)), rank(link(M, p)) == rank(p) - 1))))
def cache_head(h, F, inn, rank): return And(Implies(F == 0, h == 0), Implies(F != 0, And(inn(h), rank(h) == F - 1)))
def inj(inn, rank): return lambda p: lambda q: None
def clo_setup(e, st, args):
    slot = args[0]
    st.add(slot & 7 == 0, UGE(slot, bv(1 << 12)), ULT(slot, bv(1 << 46)), ULT(CF, bv(1 << 40)))
    inn, rank = lambda p: Select(CIN, p), lambda p: Select(CRANK, p)
    h = st.ld(slot, 8)
    AT_ = Array("cat", A64, A64)
    st.add(cache_head(h, CF, inn, rank))
    st.all(cache_fact(st.M, CF, inn, rank), "p")
    st.all(lambda p: Implies(inn(p), And(frame_at(p, slot), Select(AT_, rank(p)) == p)), "p")
    # distinct frames do not overlap: every frame owns the words [p, p + 8 + 8 * nvalues)
    st.all(lambda p: inn(p) == inn(p), "p")
    st.term(h, st.ld(h, 8), key="p")
    st.g.update(slot=slot, inn=inn, freed=K(A64, BoolVal(False)), extra=[], nmalloc=0)
    return dict(slot=slot, inn=inn, rank=rank, h=h, M=st.M, args=args)
def clo_ok(e, st, a, n):
    g = st.g
    return And(BoolVal(n == 8), Or(a == g["slot"], And(g["inn"](a), Not(Select(g["freed"], a))), *[a == x for x in g["extra"]]))
def ex_malloc_frame(e, st, args, k, i):
    p = fresh("malloc")
    st.g = dict(st.g)
    inn = st.g["inn"]
    st.add(frame_at(p, st.g["slot"]), Not(inn(p)))
    e.obl(st, "post", "a frame is allocated only when none is released", CF == 0, [("p", st.ld(st.g["slot"], 8))])
    e.obl(st, "buf", "a new frame holds the link and the requested values", UGE(args[0], 8 + 8 * NV))
    st.g["extra"] = st.g["extra"] + [p]; st.g["nmalloc"] += 1
    st.g["new"] = p
    k(st, p)
def get_setup(e, st, args):
    st.add(args[2] == NV, ULT(NV, bv(1 << 32)))
    return clo_setup(e, st, args)
def frames_keep(e, st, c, inn, but, what):
    q = fresh("sk_q")
    e.obl(st, "post", what, Implies(And(inn(q), q != but), link(st.M, q) == link(c["M"], q)), [("p", q)])
    a = fresh("sk_a")
    e.obl(st, "post", "no other memory is written", Implies(And(a & 3 == 0, a != c["slot"], a != c["slot"] + 4, a != but, a != but + 4), Select(st.M, a) == Select(c["M"], a)), [("p", a)])
def get_posts(e, c, st, ret):
    inn0, rank0 = c["inn"], c["rank"]
    e.obl(st, "post", "the frame is linked to the given parent", link(st.M, ret) == c["args"][1])
    e.obl(st, "post", "a released frame is reused, a new one is handed out only if there is none", If(CF != 0, inn0(ret), ret == st.g.get("new", bv(0))))
    F1 = If(CF != 0, CF - 1, CF)
    inn1 = lambda p: And(inn0(p), p != ret)
    e.obl(st, "post", "the cache no longer holds the frame: list head", cache_head(st.ld(c["slot"], 8), F1, inn1, rank0), [("p", ret), ("p", st.ld(c["slot"], 8))])
    p = fresh("sk_p")
    e.obl(st, "post", "the cache holds exactly the other released frames", cache_fact(st.M, F1, inn1, rank0)(p), [("p", p), ("p", link(c["M"], p)), ("p", ret)])
    frames_keep(e, st, c, inn0, ret, "other released frames are untouched")
fcontract("lisp_closure_get", 3, ("C18",), setup=get_setup, posts=get_posts, ok=clo_ok, ext=dict(malloc=ex_malloc_frame))
def put_setup(e, st, args):
    c = clo_setup(e, st, args)
    st.add(frame_at(args[1], args[0]), Not(c["inn"](args[1])))
    st.g["extra"] = [args[1]]
    return c
def put_posts(e, c, st, ret):
    inn0, rank0, C = c["inn"], c["rank"], c["args"][1]
    inn1 = lambda p: Or(inn0(p), p == C)
    rank1 = lambda p: If(p == C, CF, rank0(p))
    e.obl(st, "post", "the released frame heads the cache", cache_head(st.ld(c["slot"], 8), CF + 1, inn1, rank1), [("p", C)])
    p = fresh("sk_p")
    e.obl(st, "post", "the cache holds the released frames and this one, each once", cache_fact(st.M, CF + 1, inn1, rank1)(p), [("p", p), ("p", link(c["M"], p)), ("p", C)])
    frames_keep(e, st, c, inn0, C, "other released frames are untouched")
fcontract("lisp_closure_put", 2, ("C18",), setup=put_setup, posts=put_posts, ok=clo_ok)
class ClearInv:
    def inv(s, e, st, ph):
        g = st.g
        slot, inn, M0, fr = g["slot"], g["inn"], g["entryM"], g["freed"]
        rank = lambda p: Select(CRANK, p)
        h = g["cur"](st, ph) if g.get("cur") else st.ld(slot, 8)
        left = lambda p: And(inn(p), h != 0, ULE(rank(p), rank(h)))
        return [("inv", "the list starts at a released frame not yet freed, or is empty", Or(h == 0, And(inn(h), Not(Select(fr, h))))),
                ("inv", "freed are exactly the frames before it", (lambda p: Select(fr, p) == And(inn(p), Or(h == 0, UGT(rank(p), rank(h)))), "p")),
                ("inv", "the frames not yet freed are untouched", (lambda p: Implies(And(inn(p), Not(Select(fr, p))), link(st.M, p) == link(M0, p)), "p")),
                ("inv", "no other memory is written", (lambda a: Implies(And(a & 3 == 0, a != slot, a != slot + 4), Select(st.M, a) == Select(M0, a)), "a"))]
    def havoc(s, e, st):
        st.g = dict(st.g); st.g["freed"] = fresh("freed", ArraySort(A64, BoolSort()))
        h = st.ld(st.g["slot"], 8)
        st.term(h, link(st.g["entryM"], h), key="p"); st.term(st.g["slot"], key="p")
        for x in (h,): st.term(x, x + 4, key="a")
def ex_free_frame(e, st, args, k, i):
    p = args[0]
    e.obl(st, "slab", "frees only released frames, each once", And(st.g["inn"](p), Not(Select(st.g["freed"], p))), [("p", p)])
    st.g = dict(st.g); st.g["freed"] = Store(st.g["freed"], p, True)
    k(st, None)
def clear_posts(e, c, st, ret):
    e.obl(st, "post", "the cache is empty", st.ld(c["slot"], 8) == 0)
    e.forall(st, "post", "every released frame is freed, and nothing else", lambda p: Select(st.g["freed"], p) == c["inn"](p), "p")
fcontract("lisp_closure_clear", 1, ("C18",), setup=clo_setup, posts=clear_posts, ok=clo_ok, ext=dict(free=ex_free_frame), loopinv=ClearInv())
