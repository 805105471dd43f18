"""Random programs per property; each case is a list of top-level expressions (values of ref.py)."""
import random
from ref import *
BIG = (1 << 63) - 1
def call(f, *a): return P(S(f), lst(list(a)))
def q(v): return P(S("quote"), v)
class G:
    def __init__(s, rng): s.r = rng; s.fns = []; s.uid = 0
    def ch(s, xs): return xs[s.r.randrange(len(xs))]
    def num(s):
        k = s.r.random()
        if k < .25: return N(s.ch([0, 1, -1, 2, -2, 7, 10, -10, 255, 256]))
        if k < .5: return N(s.ch([BIG, -BIG - 1, BIG - 1, -BIG, 1 << 62, -(1 << 62), 1 << 32, (1 << 31) - 1, -(1 << 31), 1 << 31, 3037000500, -3037000500]))
        if k < .75: return N(s.r.randrange(-100, 100))
        return N(wrap(s.r.getrandbits(64)))
    def chr(s): return C(s.ch([97, 98, 122, 65, 48, 33, 37, 10, 9, 13, 27, 92, 110, 116]) if s.r.random() < .6 else s.r.randrange(33, 126))
    def symname(s):
        if s.r.random() < .15: return s.ch(["abcdefghijklmnop", "abcdefghijklmnoq", "bbcdefghijklmnop", "abcdefghijklmno"])
        return s.ch(["a", "b", "c", "d", "e", "aa", "ab", "ba", "x", "y", "z", "k1", "k2", "zz", "m", "A", "Z9"])
    def sym(s): return S(s.symname())
    def str(s, n=None): return lst([C(s.r.randrange(97, 123)) for _ in range(s.r.randrange(0, 20) if n is None else n)])
    def atom(s):
        k = s.r.random()
        return s.num() if k < .3 else s.chr() if k < .45 else s.sym() if k < .65 else NIL if k < .8 else T if k < .92 else W
    def val(s, d=3):
        k = s.r.random()
        if d <= 0 or k < .35: return s.atom()
        if k < .45: return s.str()
        xs = [s.val(d - 1) for _ in range(s.r.randrange(0, 5))]
        return lst(xs, s.atom() if xs and s.r.random() < .25 else NIL)
    def mutate(s, v):
        "a value close to v"
        if isinstance(v, P):
            k = s.r.random()
            if k < .4: return P(s.mutate(v.a), copyv(v.d))
            if k < .85: return P(copyv(v.a), s.mutate(v.d))
            return s.ch([v.a, v.d])
        if isinstance(v, N): return s.ch([N(wrap(v.n + 1)), N(wrap(v.n ^ (1 << s.r.randrange(64)))), C(schar(v.n)), NIL])
        if isinstance(v, C): return s.ch([C(schar(v.c + 1)), N(v.c)])
        if isinstance(v, S): return s.ch([S(v.b[:-1] or b"q"), S((v.b + b"x")[:16]), S(v.b[:-1] + b"!"), T])
        return s.ch([NIL, T, W, N(0), P(NIL, NIL)])
    # ---- expressions
    def mk(s, e):
        "e, with a mark printed when it is evaluated"
        s.uid += 1
        return call("prog", call("prin", N(s.uid)), e)
    def lit(s, d=2):
        v = s.val(d)
        return v if not isinstance(v, (P, S)) else q(v)
    def expr(s, d, scope, tr=.3):
        e = s.expr_(d, scope, tr)
        return s.mk(e) if s.r.random() < tr and d > 0 else e
    def expr_(s, d, scope, tr):
        k = s.r.random()
        if d <= 0 or k < .12: return S(s.ch(scope)) if scope and s.r.random() < .6 else s.lit()
        E = lambda dd=1: s.expr(d - dd, scope, tr)
        f = s.ch(["if", "when", "unless", "cond", "match", "prog", "let", "|>", "or", "and", "list", "cons", "car", "cdr", "=", "<>", "not", "+", "len", "lam", "app", "app", "nil?", "lst?", "eval", "while", "set", "cur", "letd"])
        if f in ("if",): return call("if", E(), E(), *([E()] if s.r.random() < .8 else []))
        if f in ("when", "unless"): return call(f, E(), *[E() for _ in range(s.r.randrange(0, 3))])
        if f == "cond":
            cl = []
            for _ in range(s.r.randrange(0, 4)): cl.append(P(s.ch([S("num?"), S("lst?"), S("sym?"), S("nil?"), S("tru?"), W, call("=", s.num()), call("\\", lst([S("u")]), E(2))]), E()))
            return P(S("cond"), P(E(), lst(cl)))
        if f == "match":
            v = s.val(2)
            cl = []
            for _ in range(s.r.randrange(0, 4)):
                p = s.ch([W, copyv(v), s.wild(v), s.mutate(v), s.val(1)])
                cl.append(P(p, E()))
            return P(S("match"), P(s.ch([q(v) if isinstance(v, (P, S)) else v, E()]), lst(cl)))
        if f == "prog": return call("prog", *[E() for _ in range(s.r.randrange(0, 4))])
        if f == "let":
            bs, sc = [], list(scope)
            for _ in range(s.r.randrange(0, 4)):
                n = s.symname()
                bs.append(P(S(n), s.expr(d - 1, sc, tr))); sc.append(n)
            return P(S("let"), P(lst(bs), lst([s.expr(d - 1, sc, tr) for _ in range(s.r.randrange(1, 3))])))
        if f == "letd":
            ns = [s.symname() for _ in range(3)]
            pat = s.ch([lst([S(ns[0]), S(ns[1])]), P(S(ns[0]), S(ns[1])), lst([S(ns[0]), W, S(ns[2])]), lst([lst([S(ns[0])]), S(ns[1])], S(ns[2]))])
            return P(S("let"), P(lst([P(pat, q(lst([s.val(2) for _ in range(s.r.randrange(0, 4))])))]), lst([s.expr(d - 1, scope + ns, tr)])))
        if f == "|>": return P(S("|>"), lst([E()] + [s.ch([S("car"), S("cdr"), S("len"), S("not"), call("cons", s.num()), call("list", s.num()), call("+", N(1)), S("nil?")]) for _ in range(s.r.randrange(0, 3))]))
        if f in ("or",): return call("or", E(), E(), *([E()] if s.r.random() < .2 else []))
        if f in ("and", "cons", "=", "<>"): return call(f, E(), E())
        if f == "list": return call("list", *[E() for _ in range(s.r.randrange(0, 4))])
        if f in ("car", "cdr", "not", "nil?", "lst?"): return call(f, E())
        if f == "len": return call("len", E())
        if f == "+": return call(s.ch(["+", "-", "*"]), s.num(), s.num())
        if f == "eval": return call("eval", s.ch([q(E()) if False else E(), call("list", q(S("+")), N(s.r.randrange(9)), N(3))]))
        if f == "while":
            n = "w" + str(s.r.randrange(3))
            return P(S("let"), P(lst([P(S(n), N(s.r.randrange(0, 4)))]), lst([call("while", call(">", S(n), N(0)), call("<-", q(S(n)), call("-", S(n), N(1))), E(2)), S(n)])))
        if f == "set":
            if scope and s.r.random() < .7: return call("<-", q(S(s.ch(scope))), s.lit(1))
            return call("<-", q(s.sym()), s.lit(1))
        if f == "lam":
            lam, args = s.lam(d, scope, tr)
            return P(lam, lst([E() for _ in range(s.nargs(args))]))
        if f == "cur":
            lam, args = s.lam(d, scope, tr, mn=2)
            n = s.r.randrange(1, 3)
            return P(P(lam, lst([E() for _ in range(n)])), lst([E() for _ in range(max(0, s.nargs(args) - n))]))
        if s.fns:
            n, a = s.ch(s.fns)
            return P(S(n), lst([E() for _ in range(s.nargs(a))]))
        return call("list", E(), E())
    def nargs(s, a):
        k = len(items(a))
        return k if s.r.random() < .8 else max(0, k + s.ch([-1, 1]))
    def params(s, mn=0):
        out, names = [], []
        for _ in range(max(mn, s.r.randrange(0, 4))):
            k = s.r.random()
            if k < .75: n = s.symname(); names.append(n); out.append(S(n))
            elif k < .9:
                a, b = s.symname(), s.symname()
                names += [a, b]; out.append(s.ch([lst([S(a), S(b)]), P(S(a), S(b)), lst([S(a), lst([S(b)])])]))
            else: out.append(W)
        tail = NIL
        if s.r.random() < .12: n = s.symname(); names.append(n); tail = S(n)
        return lst(out, tail), names
    def lam(s, d, scope, tr, mn=0):
        a, ns = s.params(mn)
        return P(S("\\"), P(a, lst([s.expr(d - 2, scope + ns, tr) for _ in range(s.r.randrange(1, 3))]))), a
    def wild(s, v):
        if isinstance(v, P): return P(s.wild(v.a), s.wild(v.d)) if s.r.random() < .8 else W
        return W if s.r.random() < .4 else copyv(v)
    def defs(s, k, tr=.2):
        out = []
        for _ in range(k):
            n = "f%d" % len(s.fns)
            a, ns = s.params()
            body = [s.expr(s.r.randrange(1, 4), ns, tr) for _ in range(s.r.randrange(1, 3))]
            if s.r.random() < .3: body.insert(0, string("doc"))
            out.append(P(S("def"), P(S(n), P(a, lst(body)))))
            s.fns.append((n, a))
        return out
    def loopdef(s):
        "a counting function whose self call is in a random tail or non-tail position"
        n = "r%d" % s.r.randrange(100)
        b, i = S("i"), lambda: call("-", S("i"), N(1))
        acc = s.ch(["acc", "aa", "zz"])
        self_ = lambda: call(n, i(), s.ch([call("+", S(acc), N(1)), call("cons", S("i"), S(acc)), S(acc)]) if False else call("cons", S("i"), S(acc)))
        done = lambda: S(acc)
        test = lambda: call("<", S("i"), N(1))
        k = s.r.randrange(9)
        e = self_()
        if k == 0: body = call("if", test(), done(), e)
        elif k == 1: body = call("if", call(">=", S("i"), N(1)), e, done())
        elif k == 2: body = P(S("cond"), P(test(), lst([P(S("tru?"), done()), P(W, e)])))
        elif k == 3: body = P(S("match"), P(test(), lst([P(T, done()), P(W, e)])))
        elif k == 4: body = call("prog", call("prin", S("i")), call("if", test(), done(), call("prog", e)))
        elif k == 5: body = call("when", call(">", S("i"), N(0)), e)
        elif k == 6: body = call("unless", test(), e)
        elif k == 7: body = call("if", test(), done(), call("cons", N(7), e))
        else: body = call("if", test(), done(), P(S("let"), P(lst([P(S("i"), call("-", S("i"), N(1)))]), lst([call(n, S("i"), call("cons", S("i"), S(acc)))]))))
        d = P(S("def"), P(S(n), P(lst([S("i"), S(acc)]), lst([body]))))
        return [d, call(n, N(s.r.randrange(0, 6)), NIL)]
def copyv(v): return P(copyv(v.a), copyv(v.d)) if isinstance(v, P) else S(v.b) if isinstance(v, S) else v

def c_lists(g):
    out = []
    for _ in range(4):
        a, b, v = g.val(3), g.val(3), g.val(4)
        L = lst([g.val(2) for _ in range(g.r.randrange(0, 12))], NIL if g.r.random() < .8 else g.atom())
        qa = lambda x: q(x) if isinstance(x, (P, S)) else x
        out.append(g.ch([lambda: call("car", qa(v)), lambda: call("cdr", qa(v)), lambda: call("cons", qa(a), qa(b)), lambda: call("len", qa(g.ch([L, v]))), lambda: call("list", *[g.lit() for _ in range(g.r.randrange(0, 6))]), lambda: P(S("list"), lst([g.lit() for _ in range(g.r.randrange(1, 4))], g.atom())),
              lambda: call("quote", a, b), lambda: call("conc", qa(L), qa(b)), lambda: call("%dup", qa(L)), lambda: call("%conc", qa(L), qa(b)), lambda: call("%append", qa(lst(items(L))), qa(b)),
              lambda: call("%len", qa(lst(items(L)))), lambda: call("cons", qa(L), NIL), lambda: call("car", call("cdr", qa(L))),
              lambda: call("len", qa(lst([N(i) for i in range(g.ch([40, 300]))])))])())
    return out
def c_equal(g):
    out = []
    for _ in range(4):
        a = g.val(4)
        b = g.ch([copyv(a), g.mutate(a), g.mutate(copyv(a)), g.val(3)])
        if g.r.random() < .5: a, b = b, a
        qa = lambda x: q(x) if isinstance(x, (P, S)) else x
        f = g.ch(["=", "<>", "%equ", "%neq", "match"])
        if f == "match":
            cl = [P(g.ch([g.wild(copyv(a)), g.mutate(g.wild(copyv(a))), copyv(b)]), N(i)) for i in range(3)] + [P(W, N(99))]
            out.append(P(S("match"), P(qa(a), lst(cl))))
        else: out.append(call(f, qa(a), qa(b)))
    return out
def alist(g, n, srt=True):
    seen, xs = set(), []
    for _ in range(n):
        y = g.sym()
        if y.b in seen: continue
        seen.add(y.b); xs.append(P(y, g.val(1)))
    if srt: xs.sort(key=lambda kv: key(kv.a))
    return lst(xs)
def c_env(g):
    out = []
    for _ in range(3):
        f = g.r.randrange(5)
        if f == 0: out.append(call("%sss", q(alist(g, g.r.randrange(0, 8))) , q(P(g.sym(), g.val(1)))))
        elif f == 1: out.append(call("%merge", q(alist(g, g.r.randrange(0, 8))), q(alist(g, g.r.randrange(0, 6), g.r.random() < .5))))
        elif f == 2: out.append(call("%lookup", q(alist(g, g.r.randrange(0, 8), g.r.random() < .5)), q(g.sym())))
        else:
            out += [call("setq", g.sym(), g.lit(1)), g.expr(3, [], 0)]
            n1, n2 = g.symname(), g.symname()
            out.append(P(S("let"), P(lst([P(S(n1), g.num()), P(S(n2), g.num())]), lst([P(P(S("\\"), P(lst([g.sym()]), lst([call("list", S(n1), S(n2), g.sym(), call("<-", q(g.sym()), g.num()), S(n1), S(n2))]))), lst([g.num()])), call("list", S(n1), S(n2), g.sym())]))))
    return out
def c_globals(g):
    out, names = [], ["g%d" % g.r.randrange(12) for _ in range(8)] + [g.symname() for _ in range(4)]
    for _ in range(g.r.randrange(5, 40)):
        n = g.ch(names)
        k = g.r.randrange(4)
        if k == 0: out.append(call("setq", S(n), g.lit(1)))
        elif k == 1: out.append(S(n))
        elif k == 2: out.append(call("<-", q(S(n)), g.lit(1)))
        else: out.append(P(S("def"), P(S("h" + n[:14]), P(NIL, lst([S(n)])))));  out.append(call("h" + n[:14]))
    out += [S(n) for n in names]
    return out
def c_bind(g):
    out = []
    for _ in range(3):
        a, ns = g.params()
        k = len(items(a))
        vals = [g.val(2) for _ in range(max(0, k + g.ch([0, 0, 0, -1, 1])))]
        f = g.r.randrange(7)
        if f == 0: out.append(call("%bind", q(alist(g, 2)), q(g.ch([a, g.val(2)])) , q(lst(vals))))
        elif f == 1: out.append(call("%mapply", q(a) if isinstance(a, (P, S)) else a, q(lst(vals)) if vals else NIL))
        elif f == 2:
            body = call("list", *[S(n) for n in ns])
            out.append(P(P(S("\\"), P(a, lst([body]))), lst([g.mk(q(v)) for v in vals])))
        elif f == 3:
            ps = [g.ch(["a", "b", "c", "d", "e", "x"]) for _ in range(g.r.randrange(2, 5))]
            body = call("list", *[S(n) for n in ps])
            e = P(S("\\"), P(lst([S(p) for p in ps]), lst([body])))
            left = len(ps)
            while left > 0:
                n = min(left, g.r.randrange(1, 3))
                e = P(e, lst([g.mk(g.num()) for _ in range(n)])); left -= n
            out.append(P(S("let"), P(lst([P(S(g.ch(ps)), N(-5)), P(S("zz"), N(-6))]), lst([e]))))
        elif f == 4:
            # partially applied primitive
            p = g.ch(["+", "-", "cons", "<", "="])
            out.append(P(S("let"), P(lst([P(S("p"), call(p, g.num()))]), lst([call("list", call("p", g.num()), call("p", g.num()))]))))
        elif f == 5: out += g.defs(1) + [P(S(g.fns[-1][0]), lst([g.mk(g.lit()) for _ in range(g.nargs(g.fns[-1][1]))]))]
        else:
            n = ["a", "b", "c"]
            pat = g.ch([lst([S("a"), P(S("b"), S("c"))]), lst([lst([S("a"), S("b")]), S("c")]), P(S("a"), S("b")), lst([S("a"), W, S("b")]), P(lst([S("a")]), P(S("b"), S("c")))])
            out.append(P(P(S("\\"), P(pat, lst([call("list", S("a"), S("b"), S("c"))]))), lst([q(g.val(3)) if True else NIL for _ in range(len(items(pat)) if True else 0)])))
    return out
def c_eval(g):
    out = [call("setq", S("a"), g.lit(1)), call("setq", S("x"), q(S("a")))] if g.r.random() < .4 else []
    out += g.defs(g.r.randrange(0, 3))
    for _ in range(g.r.randrange(1, 4)): out.append(g.expr(g.r.randrange(2, 5), [], .15))
    if g.r.random() < .4: out += g.loopdef()
    if g.r.random() < .3: out.append(g.ch([P(S("nosuch"), lst([g.num()])), lst([g.num(), g.num()]), P(q(S("+")), lst([g.num(), g.num()])), P(P(S("quote"), S("list")), lst([g.num(), g.lit()])), lst([g.str(3), S("a")])]))
    return out
def c_control(g): return g.defs(g.r.randrange(0, 2), .3) + [g.expr(g.r.randrange(2, 5), [], .5) for _ in range(2)] + (g.loopdef() if g.r.random() < .3 else [])
def c_arith(g):
    out = []
    for _ in range(8):
        a, b = g.num(), g.num()
        if g.r.random() < .15: b = N(a.n)
        if g.r.random() < .15: b = N(g.ch([0, -1, 1]))
        out.append(call(g.ch(["+", "-", "*", "/", "%", "<", "<=", ">", ">="]), a, b))
    return out
def c_conv(g):
    out = []
    for _ in range(5):
        v = g.val(2)
        qa = lambda x: q(x) if isinstance(x, (P, S)) else x
        f = g.r.randrange(6)
        if f == 0: out.append(call(g.ch(["nil?", "tru?", "atm?", "lst?", "num?", "chr?", "sym?", "str?", "not", "%isstr"]), qa(v)))
        elif f == 1: out.append(call("str?", qa(g.ch([lst(items(g.str()), g.atom()), lst(items(g.str()) + [g.atom()]), g.str(), lst([g.atom()] + items(g.str()))]))))
        elif f == 2: out.append(call("chr", g.num()))
        elif f == 3:
            n = g.ch(["a", "ab", "abcdefghijklmno", "abcdefghijklmnop", "a\\nb", "\\n\\t", "a\\\\b", "x\\", "a\\tb", "abcdefghijklmn\\n", "q\\zq"])
            out.append(call("str", q(S(n))))
        elif f == 4: out.append(call("sym", qa(g.ch([g.str(g.ch([0, 1, 2, 14, 15, 16, 17, 18, 40])), v]))))
        else: out.append(call("%cstr", qa(g.str(g.r.randrange(0, 20))), N(g.r.randrange(0, 20))))
    return out
def c_print(g):
    out = []
    for _ in range(2):
        n = g.ch([1, 3, 10, 200, 340, 511, 600, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3000])
        k = g.r.randrange(6)
        if k == 0: v = g.str(n)
        elif k == 1: v = lst([g.val(2) for _ in range(min(n, 300))])
        elif k == 2: v = lst([NIL] * g.r.randrange(0, 4) + items(g.str(n)) + [g.ch([NIL, T, N(-BIG - 1), S("abcdefghijklmnop"), W, C(10)])] * g.r.randrange(0, 4))
        elif k == 3: v = g.val(4)
        elif k == 4:
            v = g.atom()
            for _ in range(min(n, 12)): v = P(v, g.atom()) if g.r.random() < .5 else P(g.atom(), v) if g.r.random() < .5 else P(v, NIL)
        else: v = lst([N(wrap(g.r.getrandbits(64))) for _ in range(min(n, 120))] + [g.chr() for _ in range(g.r.randrange(0, 25))], g.atom())
        qa = lambda x: q(x) if isinstance(x, (P, S)) else x
        out.append(call(g.ch(["print", "printl", "prin", "prinl"]), *[qa(v)] + [g.lit() for _ in range(g.r.randrange(0, 3))]))
    out.append(call(g.ch(["print", "printl", "prin", "prinl"])))
    return out
def c_tails(g):
    out = []
    for _ in range(3):
        f = S("f")
        def call_(d):
            k = g.r.random()
            if k < .6: return P(S("f"), lst([g.lit(1) for _ in range(g.r.randrange(0, 4))]))
            return P(S(g.ch(["g", "ff", "list"])), lst([tail(d - 1)]))
        def tail(d):
            k = g.r.random()
            if d <= 0 or k < .3: return call_(0) if g.r.random() < .7 else g.lit(1)
            h = g.ch(["if", "if", "cond", "match", "prog", "|>", "when", "unless", "let", "list", "and", "odd"])
            if h == "if": return call("if", *[tail(d - 1) for _ in range(g.r.randrange(0, 5))])
            if h in ("cond", "match"): return P(S(h), P(tail(d - 1), lst([P(g.ch([W, g.num(), S("num?")]), tail(d - 1)) for _ in range(g.r.randrange(0, 4))])))
            if h in ("prog", "|>"): return call(h, *[tail(d - 1) for _ in range(g.r.randrange(1, 4))])
            if h in ("when", "unless"): return call(h, *[tail(d - 1) for _ in range(g.r.randrange(1, 3))])
            if h == "let": return P(S("let"), P(lst([P(S("v"), tail(d - 1))]), lst([tail(d - 1)])))
            if h == "odd": return lst([tail(d - 1), tail(d - 1)])
            return call(h, *[tail(d - 1) for _ in range(2)])
        args = lst([S("a%d" % i) for i in range(g.r.randrange(0, 4))], S("rest") if g.r.random() < .15 else NIL)
        if g.r.random() < .1: args = S("all")
        body = lst([tail(g.r.randrange(1, 5)) for _ in range(g.r.randrange(1, 3))])
        qa = lambda x: q(x) if isinstance(x, (P, S)) else x
        out.append(call("%marks", q(f), qa(args), q(body)))
    out += g.loopdef()
    return out
def c_refs(g): return g.ch([c_lists, c_equal, c_env, c_globals, c_bind, c_eval, c_eval, c_control, c_control, c_conv, c_tails, c_print, c_arith, c_err, c_err, c_err])(g)
def clauses(g, f):
    "a clause list with something that is not a clause in it"
    cl = [P(g.ch([S("nil?"), S("num?"), W, g.val(1)]), g.lit(1)) for _ in range(g.r.randrange(0, 3))]
    return P(S(f), P(g.lit(1), lst(cl + [g.atom()] * g.r.randrange(0, 2) + cl[:1], g.atom() if cl else NIL)))
def c_err(g):
    "arguments of the wrong kind and malformed forms"
    v = lambda: g.lit(2)
    e = g.ch([lambda: call("def", v(), v(), v()), lambda: P(S("def"), g.val(2) if isinstance(g.val(1), P) else lst([g.atom(), g.atom(), g.val(1)])), lambda: P(S("setq"), lst([g.atom(), v()])), lambda: call("<-", v(), v()),
         lambda: P(S("let"), lst([g.val(2), v()])), lambda: P(S("cond"), g.ch([NIL, lst([v(), g.val(2)])])), lambda: P(S("match"), g.ch([NIL, lst([v(), g.val(2)])])), lambda: call("if"), lambda: clauses(g, "cond"), lambda: clauses(g, "match"), lambda: P(S("let"), P(g.ch([lst([P(S("q"), v()), g.val(1), P(S("r"), v())]), lst([P(S("q"), v())], g.atom())]), lst([v(), S("q")], g.atom()))),
         lambda: P(S(g.ch(["list", "prog", "when", "while", "if", "|>", "printl"])), lst([g.ch([NIL, NIL, v()])] + [v() for _ in range(g.r.randrange(0, 3))], g.atom())), lambda: call("when"),
         lambda: call("load", v()) if False else call("load", g.num()), lambda: call("sym", v()), lambda: call("len", v()), lambda: P(S("\\"), g.val(2)) if False else P(S("list"), P(v(), g.atom())), lambda: P(P(S("\\"), P(lst([S("a")]), NIL)), lst([v()])),
         lambda: call("or"), lambda: P(S("|>"), lst([v(), S("car"), S("nosuch")]))])()
    return [e, g.expr(2, [], 0)]
SAFE = ["=", "setq", "load", "quote", "list", "len", "if"]
def c_load(g):
    out = []
    g.fresh = g.r.random() < .6
    sv = lambda n: S("sv" + n[:14])
    quiet = lambda e: call("=", N(0), e)
    allm = list(MODS)
    pool = []
    for _ in range(g.r.randrange(1, 4)):
        m = g.ch(allm)
        pool += [m] * 3
        for n in [g.ch(MODS[m]) for _ in range(g.r.randrange(1, 6))]:
            if n not in SAFE:
                out.append(quiet(call("setq", sv(n), S(n))))
                out.append(call("setq", S(n), N(5)))
                g.fns.append((m, n))
    names = [n for m, n in g.fns] + SAFE
    def near(n):
        k = g.r.randrange(5)
        return S((n[:-1] or "q") if k == 0 else n + g.ch(["x", "?", "n", "l"]) if k == 1 else n.upper() if k == 2 else (n * 8)[:16] if k == 3 else n[1:] or "q")
    def req():
        m = g.ch(pool)
        k = g.r.random()
        inm = [n for mm, n in g.fns if mm == m] or MODS[m]
        nm = lambda: S(g.ch(inm)) if g.r.random() < .55 else near(g.ch(MODS[m])) if g.r.random() < .5 else g.atom() if g.r.random() < .4 else S(g.ch(names))
        if k < .06: return S(g.ch([m, "nosuch", m + "x", m[:-1]]))
        if k < .12: return P(S(m), T)
        if k < .18: return P(S(g.ch(["nosuch", m + "x", m[:-1]])), g.ch([T, NIL, lst([nm()])]))
        if k < .24: return g.ch([g.num(), NIL, T, P(g.num(), T), P(S(m), g.num()), P(S(m), S(g.ch(inm))), P(NIL, NIL), P(lst([S(m)]), T), P(S(m), NIL)])
        return P(S(m), lst([nm() for _ in range(g.r.randrange(0, 6))], g.ch([T, N(3), W]) if g.r.random() < .08 else NIL))
    for _ in range(g.r.randrange(1, 5)):
        rs = [req() for _ in range(1 if g.r.random() < .8 else g.r.randrange(0, 4))]
        big = any(isinstance(r, S) or (isinstance(r, P) and r.d is T) for r in rs)
        e = call("load", *[q(r) if isinstance(r, (P, S)) else r for r in rs])
        out.append(call("len", e) if big else e)
        for m, n in g.fns: out.append(call("=", S(n), sv(n))); out.append(call("if", call("=", S(n), N(5)), N(1), N(2)))
    return out
def c_os(g):
    g.mkseed = g.r.getrandbits(48)
    r = g.r
    fd = lambda: N(r.randrange(0, 900) if r.random() < .8 else g.ch([-1, 1023, 1024, 65534, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32 - 2, 2**32, 2**32 + 7, -2**31, 2**63 - 1]))
    def st(big=0):
        k = r.random()
        return NIL if k < .05 else lst([C(r.randrange(97, 123)) for _ in range(g.ch([16, 1022, 1023, 1024, 1025, 4095, 4096, 4097]))]) if k < big else g.str() if k < .92 else lst([C(r.randrange(33, 123)), g.atom()])
    Q = lambda v: q(v) if isinstance(v, (P, S)) else v
    bad = lambda v: v if r.random() < .93 else g.val(2)
    def one():
        f = g.ch(["pipe", "fork", "wait", "unlink", "listen", "listen", "accept", "accept", "connect", "connect", "dup", "close", "select", "select", "quit", "exec"])
        if f in ("pipe", "fork", "quit"): return call(f)
        if f == "wait": return call(f, Q(fd()))
        if f == "unlink": return call(f, Q(bad(st(.15))))
        if f in ("listen", "accept"): return call(f, Q(bad(fd())))
        if f == "connect": return call(f, Q(bad(st(.15))), Q(bad(st(.12))))
        if f == "dup": return call(f, Q(fd())) if r.random() < .5 else call(f, Q(fd()), Q(fd()))
        if f == "close": return P(S(f), lst([Q(fd()) for _ in range(r.randrange(0, 4))]))
        if f == "exec": return call(f, Q(bad(st(.1))), Q(bad(lst([bad(g.str(3)) for _ in range(r.randrange(0, 5) if r.random() < .8 else r.randrange(120, 135))]))), Q(bad(lst([g.str(4) for _ in range(r.randrange(0, 4) if r.random() < .8 else r.randrange(124, 133))]))))
        cb = lambda: g.ch([call("\\", lst([S("F")]), g.ch([T, NIL, N(r.randrange(50)), S("F"), call("+", S("F"), N(1)), q(lst([N(1)])), call("prin", S("F"))])), NIL, call("\\", lst([S("F")]), call("if", call("<", S("F"), N(r.randrange(0, 900))), NIL, T))])
        l = [fd() if r.random() < .93 else g.atom() for _ in range(r.randrange(0, 6))]
        if l and r.random() < .3: l.append(l[0])
        return call(f, Q(bad(lst(l))), cb(), cb())
    out = []
    for _ in range(r.randrange(1, 5)):
        e = one()
        out.append(e)
        if e.a.b == b"exec": break
    return out
def c_io(g):
    import ref
    r = g.r
    names = ["a", "b.l", "sub/c", "sub/d.l", "e"][:r.randrange(2, 6)]
    sl = lambda t: q(lst([C(ord(c)) for c in t]))
    def name(lo, insub=False):
        k = r.random()
        if k < .78 and lo < len(names):
            n = names[r.randrange(lo, len(names))]
            if insub and n.startswith("sub/") and r.random() < .85: n = n[4:]
            return sl(n if r.random() < .9 else "./" + n)
        if k < .88: return sl(g.ch(["zz", "sub/zz", "nodir/x", "sub", ".", "~/a", "~/sub/c", "~zz", "/nodir-xyz/a", "x" * 300, "y" * 250 + "/z", "d/" * 600 + "a"]))
        return g.ch([NIL, NIL, N(r.randrange(900, 5000)), N(50), N(51), T, q(S("x")), q(lst([N(1), N(2)])), q(lst([C(97), N(1)])), C(97)])
    def one(lo, d, insub):
        k = r.randrange(11)
        sub = lambda n=2: [one(lo, d - 1, insub) for _ in range(r.randrange(0, n + 1))]
        if d <= 0 or k < 2: return g.ch([N(r.randrange(100)), q(g.val(1)), call("+", N(1), N(r.randrange(9))), call("prinl", N(r.randrange(99))), call("%chans")])
        if k < 4: return call(g.ch(["read", "read", "readline"]))
        if k == 4: return call(g.ch(["prinl", "print", "printl"]), *sub(2))
        if k == 5: return call("load", name(lo, insub))
        if k in (6, 7): return call("in", name(lo, insub), *sub(3))
        if k in (8, 9): return call("out", g.ch([sl("o%d" % r.randrange(2)), sl("sub/o2"), sl("o0")]) if r.random() < .8 else name(lo), *sub(3))
        return call("eval", call("read"))
    def chunks(i):
        out = []
        for _ in range(r.randrange(0, 6)):
            k = r.random()
            if k < .12: out.append(([g.ch([b"\n", b"# note (1\n", b"   \n"])], []))
            else:
                es = [one(i, 2, i > 0 and names[i - 1].startswith("sub/")) for _ in range(g.ch([1, 1, 1, 2, 3]))]
                t = b" ".join(ref.text(e).encode("latin1") for e in es)
                ls = [t + b"\n"]
                t1 = ref.text(es[-1]).encode("latin1")
                if r.random() < .3 and b'"' not in t1 and b"^" not in t1 and t1.startswith(b"(") and b" " in t1:
                    a, b = t1.split(b" ", 1)
                    ls = [t[:-len(t1)] + a + b"\n", b + b"\n"]
                if max(map(len, ls)) > 1000: raise ref.Skip("long line")
                out.append((ls, es))
        if out and r.random() < .2: out[-1] = (out[-1][0][:-1] + [out[-1][0][-1].rstrip(b"\n")], out[-1][1])
        return [c for c in out if b"".join(c[0])]
    g.fs = {n: ref.File(chunks(i + 1)) for i, n in enumerate(names)}
    g.main = ref.File(chunks(0))
    g.outs = ["o0", "o1", "sub/o2"]
    return [one(0, 3, False) for _ in range(r.randrange(1, 6))]
PROFILES = dict(C14=c_io, C17=c_os, C15=c_load, C02=c_refs, C03=c_refs, C04=c_equal, C05=c_lists, C06=c_env, C07=c_globals, C08=c_bind, C09=c_eval, C10=c_control, C11=c_arith, C12=c_conv, C13=c_print, C16=c_tails)
