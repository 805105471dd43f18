"""Reference interpreter: the specification functions of theory.py/natives.py, executable.  Cells are shared as the language
defines it (binding cells are shared by captured environments, conc updates its first argument)."""
class Nil:
    def __repr__(s): return "NIL"
class Tru: pass
class Wild: pass
NIL, T, W = Nil(), Tru(), Wild()
class N:
    def __init__(s, n): s.n = n
class C:
    def __init__(s, c): s.c = c            # signed char
class S:
    def __init__(s, b): s.b = b.encode("latin1") if isinstance(b, str) else b
class P:
    def __init__(s, a, d): s.a, s.d = a, d
class F(N):
    "address of a native function"
    def __init__(s, name): s.name, s.n = name, 0
class Fuel(Exception): pass
class Skip(Exception): pass
class Exit(Exception): pass
class Crash(Exception): pass

def wrap(x):
    x &= (1 << 64) - 1
    return x - (1 << 64) if x >> 63 else x
def schar(x):
    x &= 255
    return x - 256 if x > 127 else x
def lst(xs, tail=NIL):
    for x in reversed(xs): tail = P(x, tail)
    return tail
def items(x):
    out = []
    while isinstance(x, P): out.append(x.a); x = x.d
    return out
def string(b): return lst([C(schar(c)) for c in (b.encode("latin1") if isinstance(b, str) else b)])
def car(x): return x.a if isinstance(x, P) else NIL
def cdr(x): return x.d if isinstance(x, P) else NIL
def islist(x): return x is NIL or isinstance(x, P)
def isstr(x):
    while isinstance(x, P):
        if not isinstance(x.a, C): return False
        x = x.d
    return x is NIL
def tb(b): return T if b else NIL
def sname(b): return b[:16].split(b"\0")[0]

def render(x, s=True):
    "text printed for a value: readable (s) or raw"
    out = []
    def atom(x):
        if x is NIL: out.append(b"NIL" if s else b"")
        elif x is T: out.append(b"T")
        elif x is W: out.append(b"_")
        elif isinstance(x, C):
            c = bytes([x.c & 255])
            if s: out.append(b"^" + {b"\x1b": b"\\e", b"\n": b"\\n", b"\r": b"\\r", b"\t": b"\\t"}.get(c, c))
            else: out.append(c)
        elif isinstance(x, F): raise Skip("address printed")
        elif isinstance(x, N): out.append(str(x.n).encode())
        elif isinstance(x, S): out.append(x.b)
        elif isinstance(x, P):
            if s: out.append(b"(")
            while True:
                atom(x.a)
                x = x.d
                if x is NIL: break
                if isinstance(x, P):
                    if s: out.append(b" ")
                    continue
                if s: out.append(b" . ")
                atom(x); break
            if s: out.append(b")")
    atom(x)
    return b"".join(out)

def equ(a, b):
    while True:
        if isinstance(a, P) and isinstance(b, P):
            if not equ(a.a, b.a): return False
            a, b = a.d, b.d
            continue
        if isinstance(a, F) or isinstance(b, F): return isinstance(a, F) and isinstance(b, F) and a.name == b.name
        if isinstance(a, N): return isinstance(b, N) and a.n == b.n
        if isinstance(a, C): return isinstance(b, C) and a.c == b.c
        if isinstance(a, S): return isinstance(b, S) and a.b == b.b
        return a is b
def matches(p, v):
    if p is W: return True
    if isinstance(p, P): return isinstance(v, P) and matches(p.a, v.a) and matches(p.d, v.d)
    return equ(p, v)
def dup(x):
    xs = []
    while isinstance(x, P): xs.append(x.a); x = x.d
    return lst(xs, x)
def conc(a, b):
    if not isinstance(a, P): return b
    p = a
    while isinstance(p.d, P): p = p.d
    p.d = b
    return a
def key(s): return s.b.ljust(16, b"\0")
def sss(root, kv):
    if not isinstance(root, P): return P(kv, root)
    p, prev = root, None
    while isinstance(p, P):
        k0, k = key(p.a.a), key(kv.a)
        if k0 == k: p.a = kv; return root
        if k0 > k: break
        prev, p = p, p.d
    n = P(kv, p)
    if prev is None: return n
    prev.d = n
    return root
def merge(root, l):
    while isinstance(l, P): root = sss(root, l.a); l = l.d
    return root
def bind(cl, a, v):
    while isinstance(a, P):
        cl = bind(cl, a.a, car(v))
        a, v = a.d, cdr(v)
    return P(P(a, v), cl) if isinstance(a, S) else cl
def mayapply(a, v):
    while True:
        if isinstance(a, S) or v is NIL: return True
        if isinstance(a, P) and isinstance(v, P): a, v = a.d, v.d; continue
        return False
def isfunc(v):
    return isinstance(v, P) and (islist(v.a) or isinstance(v.a, S)) and isinstance(v.d, P) and islist(v.d.a) and isinstance(v.d.d, (P, N))
def tails(x):
    "expressions in tail position of x"
    if x is NIL: return []
    if not isinstance(x, P) or not isinstance(x.a, S): return [x]
    h = x.a.b
    if h == b"if": return tails(car(cdr(cdr(x)))) + tails(car(cdr(cdr(cdr(x)))))
    if h in (b"cond", b"match"): return [t for c in items(cdr(cdr(x))) for t in tails(cdr(c))]
    if h in (b"prog", b"|>"): return tails(items(x)[-1])
    if h in (b"when", b"unless"): return tails(car(cdr(cdr(x))))
    return [x]
def mark(sym, args, body):
    "the call cells of body that are self tail calls"
    if not isinstance(body, P): return []
    return [t for t in tails(items(body)[-1]) if isinstance(t, P) and isinstance(t.a, S) and key(t.a) == key(sym) and mayapply(args, t.d)]

class Interp:
    def __init__(s, fuel=20000):
        s.g, s.fuel, s.out, s.marked = {}, fuel, [], set()
        s.chan, s.outs, s.fs = [], [], None
        s.keep = []
        s.depth = 0
        for n, (args, fn) in NATIVES.items():
            s.g[n.encode()] = [FVAL[n] if n in FVAL else P(args(), P(NIL, F(n)))]
    def lookup(s, cl, k):
        k = k.ljust(16, b"\0")
        while isinstance(cl, P):
            if key(cl.a.a) == k: return cl.a.d
            cl = cl.d
        b = s.g.get(k.rstrip(b"\0"))
        return b[0] if b else NIL
    def eval(s, cl, x):
        s.fuel -= 1
        if s.fuel < 0: raise Fuel()
        if isinstance(x, S): return s.lookup(cl, x.b)
        if not isinstance(x, P): return x
        s.depth += 1
        if s.depth > 400: raise Fuel()
        try:
            while True:
                a, d = x.a, x.d
                n = s.eval(cl, a)
                if isfunc(n): return s.apply(cl, a, n, d)
                if not equ(a, n) and isinstance(n, (S, P)):
                    x = P(n, d)
                    s.fuel -= 1
                    if s.fuel < 0: raise Fuel()
                    continue
                return P(n, d)
        finally: s.depth -= 1
    def eargs(s, cl, at, args, vals):
        while True:
            if args is NIL: return at, args
            if isinstance(args, S): return bind(at, args, vals), NIL
            if vals is NIL: return at, args
            v = s.eval(cl, car(vals))
            at = bind(at, car(args), v)
            args, vals = cdr(args), cdr(vals)
    def apply(s, cl, symb, f, vals):
        args, dscl, body = f.a, f.d.a, f.d.d
        if not mayapply(args, vals): return NIL
        bs, na = s.eargs(cl, NIL, args, vals)
        if na is not NIL:
            if isinstance(body, N): return P(na, P(conc(bs, dscl), body))
            return P(na, P(merge(dup(dscl), bs), body))
        if isinstance(body, N):
            if not isinstance(body, F): raise Skip("call of a number")
            c = bs if dscl is NIL else conc(bs, dup(dscl))
            return s.native(body.name, conc(c, cl))
        if id(symb) in s.marked: return TC(symb, bs)
        cls0 = merge(dup(cl), dscl)
        while True:
            res = s.prog(merge(dup(cls0), bs), body, NIL)
            if not (isinstance(res, TC) and isinstance(symb, S) and key(res.a) == key(symb)): return res
            bs = res.d
            s.fuel -= 1
            if s.fuel < 0: raise Fuel()
    def prog(s, cl, body, r):
        while isinstance(body, P): r = s.eval(cl, body.a); body = body.d
        return r
    def native(s, name, c):
        args, fn = NATIVES[name]
        pat = args()
        n = len(items(pat)) + (1 if isinstance(pat, S) or (isinstance(pat, P) and tailsym(pat)) else 0)
        vs = []
        for _ in range(n):
            vs.insert(0, c.a.d); c = c.d
        return fn(s, c, *vs)
    def domark(s, sym, args, body):
        for t in mark(sym, args, body): s.marked.add(id(t.a)); s.keep.append(t.a)
    def write(s, b):
        if s.outs and s.outs[-1] is not None: s.outs[-1].write(s, b)
        else: s.out.append(b)
class TC(P): pass
def tailsym(p):
    while isinstance(p, P): p = p.d
    return isinstance(p, S)

NATIVES = {}
def native(name, args=(), tail=None):
    def deco(f):
        NATIVES[name] = (lambda: lst([S(a) for a in args], S(tail) if tail else NIL), f)
        return f
    return deco
def n1(name, f): native(name, ("X",))(lambda s, c, x: f(x))
def n2(name, f): native(name, ("X", "Y"))(lambda s, c, x, y: f(x, y))
n1("car", car); n1("cdr", cdr); n2("cons", P); n2("conc", conc)
def length(x):
    if not islist(x): return NIL
    k = 0
    while isinstance(x, P): k += 1; x = x.d
    return N(k)
n1("len", length)
n1("atm?", lambda x: tb(not islist(x))); n1("chr?", lambda x: tb(isinstance(x, C))); n1("lst?", lambda x: tb(islist(x))); n1("nil?", lambda x: tb(x is NIL))
n1("num?", lambda x: tb(isinstance(x, N))); n1("str?", lambda x: tb(isstr(x))); n1("sym?", lambda x: tb(isinstance(x, S))); n1("tru?", lambda x: tb(x is T))
def need(x, k):
    if not isinstance(x, k) or isinstance(x, F): raise Skip("argument kind")
    return x
n1("chr", lambda x: C(schar(need(x, N).n)))
def esc(b):
    out, e = [], False
    for ch in b:
        if e: out.append({110: 10, 116: 9}.get(ch, ch)); e = False
        elif ch == 92: e = True
        else: out.append(ch)
    return bytes(out)
n1("str", lambda x: string(esc(need(x, S).b)))
def sym_(x):
    if not isinstance(x, P) or not isstr(x): return NIL
    b = bytes(q.c & 255 for q in items(x))[:16].split(b"\0")[0]
    return S(b)
n1("sym", sym_)
def ar(f): return lambda x, y: f(need(x, N).n, need(y, N).n)
def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q
n2("+", ar(lambda a, b: N(wrap(a + b)))); n2("-", ar(lambda a, b: N(wrap(a - b)))); n2("*", ar(lambda a, b: N(wrap(a * b))))
n2("/", ar(lambda a, b: NIL if b == 0 else N(wrap(tdiv(a, b))))); n2("%", ar(lambda a, b: NIL if b == 0 else N(wrap(a - tdiv(a, b) * b))))
n2("<", ar(lambda a, b: tb(a < b))); n2(">", ar(lambda a, b: tb(a > b))); n2("<=", ar(lambda a, b: tb(a <= b))); n2(">=", ar(lambda a, b: tb(a >= b)))
n2("=", lambda x, y: tb(equ(x, y))); n2("<>", lambda x, y: tb(not equ(x, y))); n1("not", lambda x: tb(x is NIL)); n2("and", lambda x, y: tb(x is not NIL and y is not NIL))
@native("or", (), "ANY")
def _(s, c, a):
    if s.eval(c, car(a)) is not NIL: return T
    return tb(s.eval(c, car(cdr(a))) is not NIL)
@native("quote", (), "ANY")
def _(s, c, a): return a
@native("list", (), "ANY")
def _(s, c, a):
    t = a
    while isinstance(t, P): t = t.d
    xs = []
    for x in reversed(items(a)): xs.insert(0, s.eval(c, x))
    return lst(xs, t)
@native("eval", ("X",))
def _(s, c, x): return s.eval(c, x)
@native("prog", (), "ANY")
def _(s, c, a): return s.prog(c, a, NIL)
@native("if", ("COND",), "REM")
def _(s, c, k, r): return s.eval(c, car(cdr(r)) if k is NIL else car(r))
@native("when", ("COND",), "REM")
def _(s, c, k, r): return NIL if k is NIL else s.prog(c, r, NIL)
@native("unless", ("COND",), "REM")
def _(s, c, k, r): return s.prog(c, r, NIL) if k is NIL else NIL
@native("cond", (), "ANY")
def _(s, c, a):
    x, m = car(a), cdr(a)
    while isinstance(m, P) and isinstance(m.a, P):
        if m.a.a is W: return s.eval(c, m.a.d)
        if s.eval(c, P(m.a.a, P(x, NIL))) is T: return s.eval(c, m.a.d)
        m = m.d
    return NIL
@native("match", (), "ANY")
def _(s, c, a):
    x, m = s.eval(c, car(a)), cdr(a)
    while isinstance(m, P) and isinstance(m.a, P):
        if matches(m.a.a, x): return s.eval(c, m.a.d)
        m = m.d
    return NIL
@native("|>", (), "ANY")
def _(s, c, a):
    e, rest = car(a), cdr(a)
    while True:
        r = s.eval(c, e)
        if rest is NIL: return r
        e = P(car(rest), P(P(S("quote"), r), NIL))
        rest = cdr(rest)
@native("while", (), "ANY")
def _(s, c, a):
    r = NIL
    while s.eval(c, car(a)) is not NIL: r = s.prog(c, cdr(a), NIL)
    return r
@native("\\", (), "ANY")
def _(s, c, a): return P(car(a), P(dup(c), cdr(a)))
@native("let", (), "ANY")
def _(s, c, a):
    env, b = NIL, car(a)
    while isinstance(b, P) and isinstance(b.a, P):
        tmp = merge(dup(c), env)
        k = b.a.a
        v = s.eval(tmp, b.a.d)
        env = bind(env, k, v)
        if isinstance(k, S) and isfunc(v) and not any(key(q.a) == key(k) for q in items(tmp)): s.domark(k, v.a, v.d.d)
        b = b.d
    return s.prog(merge(dup(c), env), cdr(a), NIL)
@native("def", (), "ANY")
def _(s, c, a):
    y, args, prog = car(a), car(cdr(a)), cdr(cdr(a))
    if not isinstance(y, S) or not (islist(args) or isinstance(args, S)): return NIL
    if isinstance(car(prog), P) and isinstance(car(prog).a, C): prog = cdr(prog)
    s.domark(y, args, prog)
    s.g[y.b] = [P(args, P(NIL, prog))]
    return y
@native("setq", (), "ANY")
def _(s, c, a):
    y, r = car(a), s.eval(c, car(cdr(a)))
    if r is not NIL and isinstance(y, S): s.g[y.b] = [r]
    return r
@native("<-", (), "ANY")
def _(s, c, a):
    y = s.eval(c, car(a))
    v = s.eval(c, car(cdr(a)))
    if not isinstance(y, S): return NIL
    for kv in items(c):
        if key(kv.a) == key(y):
            o, kv.d = kv.d, v
            return o
    if y.b in s.g:
        o = s.g[y.b][0]
        s.g[y.b] = [v]
        return o
    return NIL
def printer(name, raw, nl):
    @native(name, (), "ANY")
    def _(s, c, a):
        r = NIL
        while isinstance(a, P):
            r = s.eval(c, a.a)
            s.write(render(r, not raw))
            if not raw and a.d is not NIL: s.write(b" ")
            a = a.d
        if nl: s.write(b"\n")
        return r
printer("prin", True, False); printer("prinl", True, True); printer("print", False, False); printer("printl", False, True)
# ---- direct access to internal operations (the driver registers the same names)
native("%dup", ("A1",))(lambda s, c, x: dup(x))
native("%conc", ("A1", "A2"))(lambda s, c, x, y: conc(dup(x), y))
native("%append", ("A1", "A2"))(lambda s, c, x, y: conc(dup(x), P(y, NIL)))
native("%len", ("A1",))(lambda s, c, x: length(x))
native("%equ", ("A1", "A2"))(lambda s, c, x, y: tb(equ(x, y)))
native("%neq", ("A1", "A2"))(lambda s, c, x, y: tb(not equ(x, y)))
native("%sss", ("A1", "A2"))(lambda s, c, x, y: sss(dup(x), y))
native("%merge", ("A1", "A2"))(lambda s, c, x, y: merge(dup(x), y))
native("%mapply", ("A1", "A2"))(lambda s, c, x, y: tb(mayapply(x, y)))
native("%isstr", ("A1",))(lambda s, c, x: tb(isstr(x)))
native("%bind", ("A1", "A2", "A3"))(lambda s, c, x, y, z: bind(x, y, z))
native("%lookup", ("A1", "A2"))(lambda s, c, x, y: s.lookup(x, y.b))
def _cstr(s, c, x, n):
    xs = items(x)[:n.n]
    b = bytes((q.c if isinstance(q, C) else 0) & 255 for q in xs)
    return P(N(len(xs)), string(b.split(b"\0")[0]))
native("%cstr", ("A1", "A2"))(_cstr)
def _marks(s, c, x, y, z):
    m = {id(t.a) for t in mark(x, y, z)}
    def cp(v): return P(cp(v.a), cp(v.d)) if isinstance(v, P) else (P(S("!"), v) if id(v) in m else v)
    return cp(z)
native("%marks", ("A1", "A2", "A3"))(_marks)

# ---- reading program text (the generators build values, the text is rendered from them)
def text(x):
    "program text of a value"
    if isinstance(x, P) and isstr(x) and all(32 <= q.c < 127 and q.c not in (34, 92) for q in items(x)):
        return '"' + "".join(chr(q.c) for q in items(x)) + '"'
    if isinstance(x, C):
        c = chr(x.c & 255)
        m = {"\x1b": "^\\e", "\n": "^\\n", "\r": "^\\r", "\t": "^\\t", "\\": "^\\\\"}.get(c)
        if m: return m
        if x.c < 33 or x.c > 126: raise Skip("character not readable")
        return "^" + c
    if isinstance(x, P):
        out = []
        while isinstance(x, P): out.append(text(x.a)); x = x.d
        if x is not NIL: out += [".", text(x)]
        return "(" + " ".join(out) + ")"
    return render(x).decode("latin1")

# ---- modules
MODS = {"std": ["car", "cdr", "chr", "conc", "cond", "cons", "def", "eval", "if", "atm?", "chr?", "lst?", "nil?", "num?", "str?", "sym?", "tru?", "\\", "len", "let", "list", "load", "match", "prog", "quit", "quote", "<-", "setq", "str", "|>", "sym", "unless", "when", "while"],
        "math": ["+", "/", ">=", ">", "<=", "<", "%", "*", "-"], "logic": ["and", "=", "<>", "not", "or"],
        "io": ["in", "out", "prin", "prinl", "print", "printl", "read", "readline"], "sys": ["slabinfo", "time"],
        "unix": ["accept", "close", "connect", "dup", "exec", "fork", "listen", "pipe", "select", "unlink", "wait"]}
# ---- the operating system: calls are recorded and answered as the driver's stand-ins do
class OSM:
    def __init__(s, it): s.it = it
    def nx(s):
        s.it.mk = (s.it.mk * 6364136223846793005 + 1442695040888963407) & (1 << 64) - 1
        return (s.it.mk >> 33) & 0x7fffffff
    def ev(s, t): s.it.write(("<%s>" % t).encode("latin1") if isinstance(t, str) else b"<" + t + b">")
    def ret(s, zero):
        x = s.nx()
        if x % 5 == 0: s.errno = 1 + (x >> 4) % 90; return -1
        return 0 if zero else 3 + (x >> 4) % 900
    def call(s, t, zero=1): s.ev(t); return s.ret(zero)
    def close(s, fd): return s.call("close %d" % fd)
def i32(n): n &= 0xffffffff; return n - (1 << 32) if n >> 31 else n
def cs(v, n): return bytes(c.c & 255 for c in items(v)[:n]).split(b"\0")[0]
@native("pipe")
def _(s, c):
    o = OSM(s)
    if o.call("pipe") != 0: return NIL
    a = 3 + o.nx() % 60
    return P(N(a), N(3 + o.nx() % 60))
@native("fork")
def _(s, c):
    o = OSM(s)
    r = o.call("fork", 0)
    return N(o.errno if r < 0 else 0 if r > 600 else r)
@native("wait", ("X",))
def _(s, c, x):
    o = OSM(s)
    r = o.call("waitpid %d 0" % i32(need(x, N).n), 0)
    if r < 0: return N(o.errno)
    x = o.nx()
    return NIL if x % 3 == 0 else N((x >> 4) % 256)
@native("unlink", ("NAME",))
def _(s, c, x):
    if not isstr(x): return NIL
    return tb(OSM(s).call(b"unlink " + cs(x, 4095)) == 0)
def sockfd(o):
    return o.call("socket 2 1 0", 0)
@native("listen", ("PORT",))
def _(s, c, x):
    if not isinstance(x, N) or not 0 <= x.n < 65535: return NIL
    o = OSM(s)
    fd = sockfd(o)
    if fd < 0: return NIL
    for e in ("setsockopt %d 6 1 1 4" % fd, "setsockopt %d 1 15 1 4" % fd, "bind %d 2 %d 0 16" % (fd, x.n), "listen %d 5" % fd):
        if o.call(e) < 0: o.close(fd); return NIL
    return N(fd)
@native("accept", ("FD",))
def _(s, c, x):
    if not isinstance(x, N) or not 0 <= x.n < 0xffffffff: return NIL
    o = OSM(s)
    r = o.call("accept %d 16" % i32(x.n), 0)
    if r < 0: return NIL
    bad, port, a = o.nx() % 6 == 0, o.nx() % 65536, o.nx()
    return P(N(r), NIL if bad else P(string(".".join(str(a >> k & 255) for k in (24, 16, 8, 0))), N(port)))
@native("connect", ("ADDRESS", "PORT"))
def _(s, c, a, p):
    if not isstr(a) or not isstr(p) or a is NIL or p is NIL: return NIL
    o = OSM(s)
    fd = sockfd(o)
    if fd < 0: return NIL
    if o.call("setsockopt %d 6 1 1 4" % fd) < 0: o.close(fd); return NIL
    if o.call(b"getaddrinfo " + cs(a, 1023) + b" " + cs(p, 1023) + b" 2 2 1 0") < 0: o.close(fd); return NIL
    r = o.call("connect %d 1 %d" % (fd, 16 + o.nx() % 12))
    o.ev("freeaddrinfo 1")
    if r < 0: o.close(fd); return NIL
    return N(fd)
@native("dup", (), "ANY")
def _(s, c, a):
    x = need(s.eval(c, car(a)), N)
    t = s.eval(c, car(cdr(a)))
    o = OSM(s)
    r = o.call("dup %d" % i32(x.n), 0) if t is NIL else o.call("dup2 %d %d" % (i32(x.n), i32(need(t, N).n)), 0)
    return N(o.errno if r < 0 else r)
@native("close", (), "ANY")
def _(s, c, a):
    r, o = True, OSM(s)
    while a is not NIL:
        if not isinstance(a, P): raise Skip("improper")
        r &= o.close(i32(need(s.eval(c, a.a), N).n)) == 0
        a = a.d
    return tb(r)
@native("select", ("FDS", "ON_READ", "ON_ERROR"))
def _(s, c, fds, a, b):
    if not islist(fds): return NIL
    c = P(P(S("ON_ERROR"), b), P(P(S("ON_READ"), a), P(P(S("FDS"), fds), c)))
    o = OSM(s)
    ok = lambda x: isinstance(x, N) and 0 <= x.n < 1024
    fs = sorted({x.n for x in items(fds) if ok(x)})
    mx = -1
    for x in items(fds): mx = max(mx, x.n if ok(x) else 0)
    t = " (" + "".join("%d " % k for k in fs) + ")"
    if o.call("select %d%s ()%s 0" % (mx + 1, t, t), 0) < 0: return NIL
    rd = [k for k in fs if o.nx() % 3 != 0]
    er = [k for k in fs if o.nx() % 2 != 0]
    def proc(cb, st):
        out = []
        for x in items(fds):
            if not isinstance(x, N): continue
            act = s.eval(c, P(S(cb), P(x, NIL))) if ok(x) and x.n in st else T
            if act is NIL: o.close(i32(x.n)); continue
            if isinstance(act, N) and act.n != x.n: out.append(act)
            out.append(x)
        return lst(out)
    r = proc("ON_READ", rd)
    return P(r, P(proc("ON_ERROR", er), NIL))
@native("exec", ("PATH", "ARGS", "ENVP"))
def _(s, c, p, a, e):
    def sl(v):
        while isinstance(v, P):
            if not isstr(v.a): return False
            v = v.d
        return v is NIL
    if not (isstr(p) and sl(a) and sl(e)): return NIL
    o = OSM(s)
    f = lambda l, n: b"".join(b" " + cs(x, 4096) for x in items(l)[:n])
    o.ev(b"execve " + cs(p, 4096) + b" " + cs(p, 4096) + f(a, 126) + b" |" + (f(e, 128) or b" environ"))
    o.ev("exit %d" % (1 + o.nx() % 90))
    raise Exit()
@native("quit")
def _(s, c):
    OSM(s).ev("kill 4242 3")
    return T
def _skip(*a): raise Skip("no reference")
for _m in MODS.values():
    for _n in _m:
        if _n not in NATIVES: NATIVES[_n] = (lambda: NIL, _skip)
def modload(s, x):
    if isinstance(x, S): x = P(x, T)
    if not isinstance(x, P) or isstr(x): return NIL
    if not isinstance(x.a, S) or x.a.b.decode("latin1") not in MODS: return NIL
    ex = MODS[x.a.b.decode("latin1")]
    if x.d is T: names = ex
    elif isinstance(x.d, P) or x.d is NIL:
        names = []
        r = x.d
        while isinstance(r, P):
            if isinstance(r.a, S) and r.a.b.decode("latin1") in ex: names.append(r.a.b.decode("latin1"))
            r = r.d
    else: names = []
    for n in names: s.g[n.encode()] = [FVAL[n]]
    return lst([S(n) for n in names])
# ---- channels: a virtual directory of files; a file is a list of chunks (its lines, the expressions they hold), or raw lines
import posixpath
class File:
    def __init__(s, chunks): s.chunks, s.text, s.readers = chunks, b"".join(l for ls, _ in chunks for l in ls), 0
    def write(s, it, b):
        if s.readers: raise Skip("written while read")
        s.text += b; s.chunks = None
class Chan:
    def __init__(s, f, dir_):
        s.f, s.dir, s.pend = f, dir_, []
        if f is None: s.chunks = []
        elif f.chunks is not None: s.chunks = [(list(a), list(b)) for a, b in f.chunks]
        else: s.chunks = [([l], None) for l in f.text.splitlines(True)]
        if f: f.readers += 1
    def close(s):
        if s.f: s.f.readers -= 1
    def read(s):
        while not s.pend:
            if not s.chunks: return None
            ls, es = s.chunks.pop(0)
            if es is None: raise Skip("raw text read")
            s.pend += es
        return s.pend.pop(0)
    def readline(s):
        if not s.chunks: return S("EOF")
        ls, es = s.chunks[0]
        if len(ls) > 1: raise Skip("part of an expression read as a line")
        s.chunks.pop(0)
        l = ls[0]
        return string(esc(l[:-1] if l.endswith(b"\n") else l))
DIRS = ("", "sub")
def fpath(dir_, v):
    "path inside the case's directory, None when there is no such place"
    b = cs(v, 4094).decode("latin1")
    if b.startswith("~"): b = b[1:] or "/"; b = b if b.startswith("/") else None
    elif b.startswith("/"): return None
    else: b = "/" + dir_ + "/" + b
    if b is None: return None
    d, n = posixpath.split(b)
    if ".." in b or len(b) > 3900 or len(n) > 255: return None if ".." not in b else _skip()
    d = posixpath.normpath(d).strip("/")
    d = "" if d == "." else d
    if d not in DIRS: return None
    return posixpath.normpath(posixpath.join(d, n)).strip("/") if n not in ("", ".") else (d or ".")
def opened(s, v, dir_):
    """(found, file or None for a directory)"""
    p = fpath(dir_, v)
    if p is None: return False, None, ""
    if p in DIRS or p == ".": return True, None, posixpath.dirname(p)
    if p not in s.fs: return False, None, ""
    return True, s.fs[p], posixpath.dirname(p)
def loadfile(s, v):
    if s.fs is None: raise Skip("script")
    ok, f, d = opened(s, v, s.chan[-1].dir)
    if not ok: return NIL
    c = Chan(f, d)
    s.chan.append(c)
    r = NIL
    while True:
        e = c.read()
        if e is None: break
        r = s.eval(NIL, e)
    s.chan.pop(); c.close()
    return r
@native("load", (), "ANY")
def _(s, c, a):
    while True:
        v = s.eval(c, car(a))
        r = loadfile(s, v) if isinstance(v, P) and isstr(v) else modload(s, v)
        a = cdr(a)
        if not isinstance(a, P): return r
@native("in", ("CHAN",), "REM")
def _(s, c, ch, body):
    if s.fs is None: raise Skip("no files")
    if ch is NIL: x = Chan(File([]), s.chan[-1].dir); x.no = True
    elif isinstance(ch, N):
        if ch.n == 51: x = Chan(File([]), s.chan[-1].dir)        # /dev/null for reading
        elif not 900 <= ch.n < 2**31 and ch.n != 50: raise Skip("handle")
        else: return NIL
    elif isinstance(ch, P) and isstr(ch):
        ok, f, d = opened(s, ch, s.chan[-1].dir)
        if not ok: return NIL
        x = Chan(f, s.chan[-1].dir)
    else: return NIL
    s.chan.append(x)
    r = s.prog(c, body, NIL)
    s.chan.pop(); x.close()
    return r
@native("out", ("CHAN",), "REM")
def _(s, c, ch, body):
    if s.fs is None: raise Skip("no files")
    if ch is NIL: f = None
    elif isinstance(ch, N):
        if ch.n == 50: f = File([])                             # /dev/null for writing
        elif not 900 <= ch.n < 2**31 and ch.n != 51: raise Skip("handle")
        else: return NIL
    elif isinstance(ch, P) and isstr(ch):
        if cs(ch, 4094)[:1] == b"~" and cs(ch, 4094)[1:2] not in (b"", b"/"): raise Skip("next to the case's directory")
        p = fpath("", ch)
        if p is None or p in DIRS or p == ".": return NIL
        if p not in s.fs: s.fs[p] = File([])
        f = s.fs[p]
        if f in s.outs: raise Skip("opened twice for writing")
    else: return NIL
    s.outs.append(NoOut() if f is None else f)
    r = s.prog(c, body, NIL)
    s.outs.pop()
    return r
class NoOut:
    def write(s, it, b): raise Skip("standard output")
@native("read", (), "")
def _(s, c):
    x = s.chan[-1] if s.chan else _skip()
    if hasattr(x, "no"): raise Skip("standard input")
    r = x.read()
    return NIL if r is None else r
@native("readline", (), "")
def _(s, c):
    x = s.chan[-1] if s.chan else _skip()
    if hasattr(x, "no"): raise Skip("standard input")
    return x.readline()
native("%chans", ())(lambda s, c: P(N(len(s.chan)), N(len(s.outs) + 1)))
for _n in ("load", "in", "out", "read", "readline"): pass
FVAL = {n: P(NATIVES[n][0](), P(NIL, F(n))) for m in MODS.values() for n in m}
