"""The contracts.  Each entry: how parameters are passed (borrowed cell / owned = consumed), what is returned, the
precondition, the postcondition in terms of the specification functions of theory.py, the effect on the world."""
from engine import *
from externs import *
import theory as th

C = {}
def contract(name, kinds, ret, **kw):
    C[name] = Contract(name, kinds, ret, **kw)
    return C[name]

# ---------------------------------------------------------------- allocator boundary
contract("lisp_allocate", ["lisp"], "own", special=sp_allocate)
contract("lisp_deallocate", ["lisp", "cell"], "void", special=sp_deallocate)

# ---------------------------------------------------------------- list primitives (C05)
contract("lisp_car", ["lisp", "cell"], "own", props=("C05",),
         post=lambda c: [("head of a pair, NIL otherwise", c.rv == VCAR(c.v[1])),
                         ("the head cell itself is shared, not copied", Implies(c.types0[1] == T_PAIR, c.e.ref(c.ret) == c.snap.rd("car", c.ref(1))))])
contract("lisp_cdr", ["lisp", "cell"], "own", props=("C05",),
         post=lambda c: [("tail of a pair, NIL otherwise", c.rv == VCDR(c.v[1])),
                         ("the tail cell itself is shared, not copied", Implies(c.types0[1] == T_PAIR, c.e.ref(c.ret) == c.snap.rd("cdr", c.ref(1))))])
contract("lisp_conc", ["lisp", "own", "own"], "own", props=("C05",), destructive=(1,),
         hints=[fold_hint("APP", lambda a, b: APP(a, b), lambda c: [c.v[1], c.v[2]])],
         post=lambda c: [("concatenation of the two lists", c.rv == APP(c.v[1], c.v[2]))])
contract("lisp_append", ["lisp", "own", "own"], "own", props=("C05",), destructive=(1,),
         post=lambda c: [("the element is added at the end", c.rv == APP(c.v[1], lst(c.v[2])))])
contract("lisp_len", ["cell"], "bv64", props=("C05",),
         pre=lambda c: [("argument is a list", is_list(c.v[0]))],
         hints=[fold_hint("LEN", LEN, lambda c: [c.v[0]])],
         post=lambda c: [("number of pairs along the tails", c.rv == LEN(c.v[0]))])
contract("lisp_dup", ["lisp", "cell"], "own", props=("C05",),
         decreases=lambda c: SIZE(c.v[1]),
         post=lambda c: [("copy of the spine with the same elements", c.rv == DUP(c.v[1]))])

# ---------------------------------------------------------------- equality (C04)
contract("lisp_equ", ["cell", "cell"], "bool", props=("C04",), decreases=lambda c: SIZE(c.v[0]),
         post=lambda c: [("structural equality", c.rv == EQU(c.v[0], c.v[1]))])
contract("lisp_neq", ["cell", "cell"], "bool", props=("C04",), decreases=lambda c: SIZE(c.v[0]),
         post=lambda c: [("negation of structural equality", c.rv == Not(EQU(c.v[0], c.v[1])))])

# ---------------------------------------------------------------- environments (C06)
contract("lisp_sss", groups=("struct", "env"), kinds=["lisp", "own", "own"], ret="own", props=("C06",), destructive=(1,), decreases=lambda c: SIZE(c.v[1]),
         pre=lambda c: [("root is a binding list", ALIST(c.v[1])), ("the binding is a pair keyed by a symbol", And(is_pair(c.v[2]), is_sym(car(c.v[2]))))],
         post=lambda c: [("sorted insertion/replacement", c.rv == SSS(c.v[1], c.v[2])), ("result is a binding list", ALIST(c.rv))])
contract("lisp_merge", groups=("struct", "env"), kinds=["lisp", "own", "cell"], ret="own", props=("C06",), destructive=(1,),
         pre=lambda c: [("root is a binding list", ALIST(c.v[1])), ("the merged list is a binding list", ALIST(c.v[2]))],
         hints=[fold_hint("MERGE", MERGE, lambda c: [c.v[1], c.v[2]])],
         post=lambda c: [("every binding is set in turn", c.rv == MERGE(c.v[1], c.v[2])), ("result is a binding list", ALIST(c.rv))])
contract("lisp_is_string", ["cell"], "bool", props=("C12",), decreases=lambda c: SIZE(c.v[0]),
         post=lambda c: [("list of characters", c.rv == ISSTR(c.v[0]))])
contract("lisp_may_apply", groups=("struct", "bind"), kinds=["cell", "cell"], ret="bool", props=("C08",), decreases=lambda c: SIZE(c.v[0]),
         post=lambda c: [("argument list accepts the values", c.rv == MAYAPPLY(c.v[0], c.v[1]))])
contract("lisp_bind", groups=("struct", "bind"), kinds=["lisp", "own", "own", "own"], ret="own", props=("C08",), decreases=lambda c: SIZE(c.v[2]),
         post=lambda c: [("bindings of the destructured pattern are prepended in order", c.rv == BIND(c.v[1], c.v[2], c.v[3])),
                         ("the environment stays a binding list", Implies(ALIST(c.v[1]), ALIST(c.rv))),
                         ("a symbol is bound to the very cell given", Implies(c.types0[2] == T_SYMBOL, bound_cells(c)))])

def bound_cells(c):
    r = c.e.ref(c.ret)
    kv = c.st.rd("car", r)
    c.st.track(kv)
    return And(c.st.rd("type", r) == T_PAIR, c.st.rd("type", kv) == T_PAIR, c.st.rd("car", kv) == c.ref(2), c.st.rd("cdr", kv) == c.ref(3), kv != NULL)

# ---------------------------------------------------------------- evaluation (C09, C08)
def wff(v):
    "values of the shape of a function carry a binding list as captured environment (assumed of every value)"
    return Implies(isfunc(v), ALIST(car(cdr(v))))
EVP = lambda k: lambda c: [("environment is a binding list", ALIST(c.v[k]))]
contract("lisp_eval", ["lisp", "cell", "own"], "own", props=("C09",), groups=("struct", "eval"), havoc_globals=True, pre=EVP(1),
         world=lambda c: EVALW(c.w0, c.v[1], c.v[2]),
         post=lambda c: [("value of the expression", c.rv == EVAL(c.w0, c.v[1], c.v[2]))],
         assume_post=lambda c: [wff(c.rv)])
contract("lisp_eval_pair", ["lisp", "cell", "own"], "own", props=("C09",), groups=("struct", "eval"), havoc_globals=True,
         pre=lambda c: [("environment is a binding list", ALIST(c.v[1])), ("a pair is evaluated", is_pair(c.v[2]))],
         world=lambda c: EVALW(c.w0, c.v[1], c.v[2]),
         post=lambda c: [("value of the list", c.rv == EVAL(c.w0, c.v[1], c.v[2]))])
contract("lisp_eval_args", ["lisp", "cell", "own", "own", "own"], "own", props=("C08",), groups=("struct", "eargs"), havoc_globals=True,
         pre=lambda c: [("environment is a binding list", ALIST(c.v[1])), ("bindings so far are a binding list", ALIST(c.v[2]))],
         world=lambda c: EARGSW(c.w0, c.v[1], c.v[2], c.v[3], c.v[4]),
         post=lambda c: [("each argument evaluated once, in order, and bound to its parameter", c.rv == EARGS(c.w0, c.v[1], c.v[2], c.v[3], c.v[4])),
                         ("result is (bindings . parameters left)", And(is_pair(c.rv), ALIST(car(c.rv))))])
contract("lisp_eval_func", ["lisp", "cell", "cell", "own", "own"], "own", props=("C09", "C08"), groups=("struct", "func", "loop"), havoc_globals=True,
         pre=lambda c: [("environment is a binding list", ALIST(c.v[1])), ("a function value is applied", isfunc(c.v[3])), ("well-formed function value", ALIST(car(cdr(c.v[3])))), ("called through a symbol or an expression", Or(is_sym(c.v[2]), is_pair(c.v[2])))],
         world=lambda c: FUNCW(c.w0, c.v[1], c.v[2], c.v[3], c.v[4]),
         hints=[fold_hint("TCLOOP", LOOP, lambda c: [c.w0, MERGE(DUP(c.v[1]), car(cdr(c.v[3]))), car(EARGS(c.w0, c.v[1], nil, car(c.v[3]), c.v[4])), cdr(cdr(c.v[3])), symkey(c.v[2])]),
                fold_hint("TCLOOPW", LOOPW, lambda c: [c.w0, MERGE(DUP(c.v[1]), car(cdr(c.v[3]))), car(EARGS(c.w0, c.v[1], nil, car(c.v[3]), c.v[4])), cdr(cdr(c.v[3])), symkey(c.v[2])])],
         post=lambda c: [("result of applying the function", c.rv == FUNC(c.w0, c.v[1], c.v[2], c.v[3], c.v[4]))])
contract("lisp_prog", ["lisp", "cell", "own", "own"], "own", props=("C09", "C10"), groups=("struct", "prog"), havoc_globals=True, pre=EVP(1),
         world=lambda c: PROGW(c.w0, c.v[1], c.v[2], c.v[3]),
         post=lambda c: [("expressions evaluated in order, value of the last", c.rv == PROG(c.w0, c.v[1], c.v[2], c.v[3]))])
def tcwf(c):
    "only a pair (function . bindings) made by lisp_eval_func carries the tail-call flag among results"
    c.e.assumed.add("the result of a body carries the tail-call mark only when it is a (function . bindings) pair made by lisp_eval_func")
    r = c.e.ref(c.ret)
    return And(Implies(And(is_pair(c.rv), tcf(c.rv)), And(ALIST(cdr(c.rv)), Or(is_sym(car(c.rv)), is_pair(car(c.rv))))),
               Implies(c.st.rd("type", r) != T_PAIR, Extract(0, 0, c.st.rd("flags", r)) == 0))
C["lisp_prog"].assume_post = lambda c: [tcwf(c)]


# ---------------------------------------------------------------- global table as seen by its clients (C07 verifies tree.c itself)
def isglob(c, k): return c.ref(k) == c.lispf(8)
contract("lisp_tree_get", ["lisp", "cell", "sym"], "own", props=(), assumed=True,
         post=lambda c: [("binding of the key in the table, NIL if absent",
                          Implies(isglob(c, 1), And(If(GBOUND(c.w0, c.v[2]), And(is_pair(c.rv), is_sym(car(c.rv)), symv(car(c.rv)) == c.v[2], cdr(c.rv) == GLOBAL(c.w0, c.v[2])), is_nil(c.rv)),
                              Implies(Not(GBOUND(c.w0, c.v[2])), GLOBAL(c.w0, c.v[2]) == nil)))),
                         ("handle cached under a module's name", Implies(c.ref(1) == c.lispf(16), If(MBOUND(c.w0, c.v[2]), And(is_pair(c.rv), is_num(cdr(c.rv)), numv(cdr(c.rv)) == MHANDLE(c.w0, c.v[2])), is_nil(c.rv)))),
                         ("a pair or NIL", is_list(c.rv))])
def cacheok(c, st, w):
    h = st.rd("cache", c.ref(2))
    return Implies(h != NULL, And(is_pair(st.V(h)), cdr(st.V(h)) == GLOBAL(w, c.v[2] if not z3.is_expr(c.v[2]) or c.v[2].sort() != Val else symv(c.v[2])), st.rd("type", h) == T_PAIR))
contract("lisp_lookup", ["lisp", "cell", "cell"], "own", props=("C06",), total=True, groups=("struct", "env"),
         pre=lambda c: [("environment is a binding list", ALIST(c.v[1])), ("a symbol is looked up", is_sym(c.v[2]))],
         setup=lambda e, st, args: lookup_setup(e, st, args),
         hints=[fold_hint("BOUND", lambda a, k: BOUND(a, k), lambda c: [c.v[1], symv(c.v[2])]), fold_hint("ASSOC", lambda a, k: ASSOC(a, k), lambda c: [c.v[1], symv(c.v[2])])],
         post=lambda c: [("first local binding, else the global value, else NIL", c.rv == LOOKUP(c.w0, c.v[1], symv(c.v[2])))],
         assume_post=lambda c: [wff(c.rv)],
         exitf=lambda e, c: e.oblige(c.st, "post", "the cache of a symbol is empty or its global binding", cacheok(c, c.st, c.w0)))
def lookup_setup(e, st, args):
    e.assumed.add("a symbol's cached binding is its live global binding cell (established by lisp_lookup, kept by in-place update of bindings in tree.c; globals are never removed)")
    a = args[2].b
    h = st.rd("cache", a)
    st.old.add(keep(h).get_id())
    k = st.rd("sym", a)
    st.add(Implies(h != NULL, And(st.rd("type", h) == T_PAIR, cdr(st.V(h)) == GLOBAL(st.w, k))))

# ---------------------------------------------------------------- control forms (C10, C04)
contract("atom_match", ["cell", "cell"], "bool", props=("C04",), decreases=lambda c: SIZE(c.v[0]),
         post=lambda c: [("pattern match: _ matches anything, the rest structurally", c.rv == MATCHES(c.v[0], c.v[1]))])
def ctl(name, kinds, F, FW, props=("C10",), groups=("struct", "ctl"), desc="", **kw):
    n = len(kinds)
    contract(name, kinds, "own", props=props, groups=groups, havoc_globals=True, pre=EVP(1),
             world=lambda c: FW(c.w0, *c.v[1:n]), post=lambda c: [(desc, c.rv == F(c.w0, *c.v[1:n]))], **kw)
ctl("lisp_cond", ["lisp", "cell", "own", "own"], COND, CONDW, desc="first clause whose predicate holds of the subject")
ctl("lisp_match", ["lisp", "cell", "own", "own"], MATCH, MATCHW, desc="first clause whose pattern matches")
ctl("lisp_stream", ["lisp", "cell", "own", "own"], STREAM, STREAMW, desc="value threaded through the stages")
ctl("lisp_list", ["lisp", "cell", "own"], LISTEV, LISTEVW, props=("C05", "C09"), desc="list of the evaluated elements")

# ---------------------------------------------------------------- global table updates as seen by clients
def sp_setq(e, st, args, i):
    """consumes the old root and the pair, returns the new root (to be stored as the interpreter's table)"""
    st = st.copy()
    lo = st.objs[args[0].b]
    root, kv = e.ref(args[1]), e.ref(args[2])
    e.alive(st, root, "root passed to lisp_setq"); e.alive(st, kv, "pair passed to lisp_setq")
    v = st.V(kv)
    st.add(*st.vfacts([kv]))
    g = lo.f[8][1].b if 8 in lo.f else None
    m = lo.f[16][1].b if 16 in lo.f else None
    st.give(kv, -1)
    r = fresh(Ref, "root"); st.track(r); st.typed.add(r.get_id()); st.add(r != NULL)
    ok = And(is_pair(v), is_sym(car(v)))
    if g is not None and root.eq(g):
        st.w = If(ok, GSET(st.w, symv(car(v)), cdr(v)), st.w)
        st.aux["groot"] = r
    elif m is not None and root.eq(m):
        st.aux["mroot"] = r
        st.w = If(ok, MSET(st.w, symv(car(v)), cdr(v)), st.w)
    else: e.oblige(st, "pre", "lisp_setq updates one of the interpreter's own tables", BoolVal(False))
    st.give(root, -1); st.give(r, 1)
    return [(st, Cell(r))]
contract("lisp_setq", ["lisp", "own", "own"], "own", special=sp_setq)

def sp_tree_upd(e, st, args, i):
    """found: the value moves into the table and the pair comes back carrying the previous one; absent: a NIL, nothing changes"""
    st = st.copy()
    root, kv = e.ref(args[1]), e.ref(args[2])
    lo = st.objs[args[0].b]
    e.alive(st, root, "root passed to lisp_tree_upd"); e.alive(st, kv, "pair passed to lisp_tree_upd")
    v = st.V(kv)
    st.add(*st.vfacts([kv]))
    e.oblige(st, "pre", "lisp_tree_upd: the update is a pair keyed by a symbol", And(is_pair(v), is_sym(car(v))))
    isg = 8 in lo.f and root.eq(lo.f[8][1].b)
    k = symv(car(v))
    a, b = st.copy(), st.copy()
    out = []
    # absent
    n = fresh(Ref, "nil"); a.track(n); a.typed.add(n.get_id()); a.add(n != NULL); a.give(n, 1)
    a.add(is_nil(a.V(n)), a.rd("type", n) == T_NIL)
    if isg: a.add(Not(GBOUND(a.w, k)))
    out.append((a, Cell(n)))
    # present
    old = fresh(Ref, "old"); b.track(old); b.typed.add(old.get_id()); b.add(old != NULL)
    if isg: b.add(GBOUND(b.w, k), b.V(old) == GLOBAL(b.w, k))
    w0 = b.w
    if isg: b.w = GSET(b.w, k, cdr(v))
    b.esc |= set(b.fresh)
    b.add(*b.vfacts())
    b.wr("cdr", kv, old)
    e.bump(b, kv)
    b.add(b.V(old) == (GLOBAL(w0, k) if isg else b.V(old)))
    b.add(is_pair(b.V(kv)))
    out.append((b, Cell(kv)))
    return out
contract("lisp_tree_upd", ["lisp", "cell", "cell"], "borrow", special=sp_tree_upd)

def sp_mark(e, st, args, i):
    """tail calls of the symbol in the body get their mark: a new value for the body, nothing else"""
    st = st.copy()
    s_, a, b = (e.ref(x) for x in args[1:4])
    for r, n in ((s_, "symbol"), (a, "parameters"), (b, "body")): e.alive(st, r, "%s passed to lisp_mark_tail_calls" % n)
    st.add(*st.vfacts([s_]))
    e.oblige(st, "pre", "lisp_mark_tail_calls: the function is named by a symbol", is_sym(st.V(s_)))
    nv = MARKT(st.V(s_), st.V(a), st.V(b))
    st.add(*st.vfacts([s_, a, b]))
    e.bump(st, b, alias=True)
    st.stale = st.stale | frozenset([keep(b).get_id()])
    st.add(st.V(b) == nv)
    e.assumed.add("lisp_mark_tail_calls changes only the tail marks of calls in the body it is given (which calls: its own contract, checked under C16)")
    return [(st, None)]
contract("lisp_mark_tail_calls", ["lisp", "cell", "cell", "cell"], "void", special=sp_mark)
OWNC = {}      # contracts a function is verified against when its callers see a coarser one (special)
contract("lisp_collect_tails", ["lisp", "own"], "own", props=("C16",), groups=("struct", "tails"), decreases=lambda c: SIZE(c.v[1]),
         hints=[fold_hint("LASTP", LASTP, lambda c: [c.v[1]])],
         post=lambda c: [("the expressions in tail position", c.rv == TAILS(c.v[1]))])
contract("lisp_collect_tails_assoc", ["lisp", "own"], "own", props=("C16",), groups=("struct", "tails"), decreases=lambda c: SIZE(c.v[1]),
         post=lambda c: [("the expressions in tail position of all clauses", c.rv == TAILSA(c.v[1]))])
_last = lambda c: car(LASTP(c.v[3]))
OWNC["lisp_mark_tail_calls"] = Contract("lisp_mark_tail_calls", ["lisp", "cell", "cell", "cell"], "void", props=("C16",), groups=("struct", "tails", "bind"), marks=True,
         pre=lambda c: [("the function is named by a symbol", is_sym(c.v[1]))],
         hints=[fold_hint("LASTP", LASTP, lambda c: [c.v[3]]), fold_hint("MARKLW", MARKLW, lambda c: [c.w0, symv(c.v[1]), c.v[2], TAILS(_last(c))])],
         world=lambda c: If(is_pair(c.v[3]), MARKLW(c.w0, symv(c.v[1]), c.v[2], TAILS(_last(c))), c.w0))
contract("lisp_let_bind", ["lisp", "cell", "own", "held"], "own", props=("C08", "C10"), groups=("struct", "letb", "env", "bind"), havoc_globals=True,
         pre=lambda c: [("environment is a binding list", ALIST(c.v[1])), ("bindings so far are a binding list", ALIST(c.v[2]))],
         hints=[fold_hint("BOUND", lambda a, k: BOUND(a, k), lambda c: [MERGE(DUP(c.v[1]), c.v[2]), symv(car(car(c.v[3])))])],
         world=lambda c: LETBW(c.w0, *c.v[1:4]),
         post=lambda c: [("values bound in order, each seeing the previous ones", c.rv == LETB(c.w0, *c.v[1:4])), ("result is a binding list", ALIST(c.rv))])

for _n, _w in (("lisp_let_bind", 1000), ("lisp_eval_func", 900), ("lisp_eval_pair", 500), ("lisp_lookup", 400), ("lisp_sss", 300)): C[_n].weight = _w
