"""The inductive facts used as lemma instances, each proved by structural induction (one query per case)."""
from theory import *
N = 0
def prove(name, hyps, goal, groups, fuel=2):
    es = list(hyps) + [Not(goal)]
    global NOLEM
    u = []
    seen, work = set(), list(es)
    for _ in range(fuel):
        found = []
        for x in work:
            for n, a in iapps(x):
                if a.get_id() not in seen and n in DEFS: seen.add(a.get_id()); found.append(a)
        new = [a == DEFS[a.decl().name()].body(*a.children()) for a in found]
        u += new; work = new
    r, s = check0(es + u, 20000)
    return r == unsat
def run():
    global N
    bad = []
    def lem(name, cases):
        global N
        N += 1
        for c, (h, g) in enumerate(cases):
            if not prove(name, h, g, None): bad.append("%s case %d" % (name, c))
    v, a, b, c, d, k = Consts("v a b c d k", Val)
    # induction over a pair-structured value: the claim for car and cdr of it is available
    lem("SIZE >= 0", [([Implies(is_pair(v), And(SIZE(car(v)) >= 0, SIZE(cdr(v)) >= 0))], SIZE(v) >= 0)])
    lem("APP associative", [([Implies(is_pair(a), APP(APP(cdr(a), b), c) == APP(cdr(a), APP(b, c)))], APP(APP(a, b), c) == APP(a, APP(b, c)))])
    lem("ALIST closed under APP", [([Implies(And(is_pair(a), ALIST(cdr(a)), ALIST(b)), ALIST(APP(cdr(a), b))), ALIST(a), ALIST(b)], ALIST(APP(a, b)))])
    lem("ALIST closed under DUP", [([Implies(And(is_pair(a), ALIST(cdr(a))), ALIST(DUP(cdr(a)))), ALIST(a)], ALIST(DUP(a)))])
    kv = Const("kv", Val)
    sssok = lambda x: Implies(And(ALIST(x), is_pair(kv), is_sym(car(kv))), ALIST(SSS(x, kv)))
    lem("ALIST closed under SSS", [([Implies(is_pair(a), sssok(cdr(a)))], sssok(a))])
    # MERGE by induction on the second list, for every first list: the hypothesis is instantiated at SSS(a, car b)
    ih = Implies(And(is_pair(b), ALIST(SSS(a, car(b))), ALIST(cdr(b))), ALIST(MERGE(SSS(a, car(b)), cdr(b))))
    sl = Implies(And(ALIST(a), is_pair(car(b)), is_sym(car(car(b)))), ALIST(SSS(a, car(b))))
    lem("ALIST closed under MERGE", [([ih, sl, ALIST(a), ALIST(b)], ALIST(MERGE(a, b)))])
    sz = [SIZE(car(v)) >= 0, SIZE(cdr(v)) >= 0]
    lem("LASTP is no larger, and a pair", [([Implies(is_pair(cdr(v)), And(SIZE(LASTP(cdr(v))) <= SIZE(cdr(v)), is_pair(LASTP(cdr(v)))))] + sz + [is_pair(v)], And(SIZE(LASTP(v)) <= SIZE(v), is_pair(LASTP(v))))])
    r1 = VCDR(VCDR(v)); r2 = VCDR(r1)
    il = lambda t: is_list(t)
    lem("tails are a list", [([il(TAILS(VCAR(r1))), il(TAILS(VCAR(r2))), il(TAILSA(r1)), il(TAILS(car(LASTP(v))))], il(TAILS(v))),
                             ([Implies(is_pair(v), And(il(TAILS(VCDR(car(v)))), il(TAILSA(cdr(v)))))], il(TAILSA(v)))])
    lem("ISSTR closed under APP", [([Implies(And(is_pair(a), ISSTR(cdr(a)), ISSTR(b)), ISSTR(APP(cdr(a), b))), ISSTR(a), ISSTR(b)], ISSTR(APP(a, b)))])
    import osm
    n = BitVec("n", 64)
    for nm, P in (("", ISSTR), (" (string lists)", osm.ISSL)):
        lem("CNT <= limit" + nm, [([Implies(And(is_pair(v), P(cdr(v))), ULE(osm.CNT(cdr(v), n - 1), n - 1)), P(v)], ULE(osm.CNT(v, n), n))])
    x = BitVec("x", 64)
    N += 1
    if check0([Not(And(x / BitVecVal(-1, 64) == -x, SRem(x, BitVecVal(-1, 64)) == 0))], 60000)[0] != unsat: bad.append("division by -1")
    return bad
