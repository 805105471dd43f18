"""Extraction of LLVM IR from /repo's sources and a parser for the subset clang -O0 + mem2reg emits.

What the extraction does: preprocess + compile each C file with the project's own defines (as-built
configuration: LISP_ENABLE_DEBUG, LISP_ENABLE_SSE), no optimisation, then `opt -passes=mem2reg,simplifycfg`
(SSA construction, unreachable/empty block removal).  Nothing else is rewritten.
"""
import re, os, subprocess, tempfile, hashlib, sys
REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "/usr/lib/llvm-18/bin/clang"
OPT = "/usr/lib/llvm-18/bin/opt"
FLAGS = ["-std=gnu99", "-O0", "-Xclang", "-disable-O0-optnone", "-Xclang", "-disable-llvm-passes",
         "-DLISP_ENABLE_DEBUG", "-DLISP_ENABLE_SSE", "-D_GNU_SOURCE", "-DYYNOERRORRECOVERY",
         "-msse4.2", "-fno-discard-value-names", "-w", "-S", "-emit-llvm"]

class ExtractError(Exception):
    pass

def extract(path, workdir):
    base = re.sub(r"\W", "_", os.path.relpath(path, REPO))
    raw = os.path.join(workdir, base + ".raw.ll")
    out = os.path.join(workdir, base + ".ll")
    inc = ["-I" + os.path.join(REPO, "include")]
    r = subprocess.run([CLANG] + FLAGS + inc + [path, "-o", raw], capture_output=True, text=True)
    if r.returncode: raise ExtractError("clang failed on %s:\n%s" % (path, r.stderr[-3000:]))
    r = subprocess.run([OPT, "-S", "-passes=mem2reg,simplifycfg", raw, "-o", out], capture_output=True, text=True)
    if r.returncode: raise ExtractError("opt failed on %s:\n%s" % (path, r.stderr[-3000:]))
    return open(out).read()

# ----------------------------------------------------------------------------- types
class T:
    __slots__ = ("k", "w", "e", "n", "fs", "packed", "name")
    def __init__(s, k, w=0, e=None, n=0, fs=(), packed=False, name=None):
        s.k, s.w, s.e, s.n, s.fs, s.packed, s.name = k, w, e, n, fs, packed, name
    def __repr__(s):
        return {"int": "i%d" % s.w, "ptr": "ptr", "void": "void"}.get(s.k) or "%s(%s)" % (s.k, s.name or s.n)

PTR, VOID = T("ptr"), T("void")
_ints = {}
def IntT(w):
    return _ints.setdefault(w, T("int", w))

class TypeParser:
    def __init__(s, mod): s.mod = mod
    def parse(s, txt, i=0):
        """parse type at txt[i:], return (T, next index)"""
        while txt[i] == " ": i += 1
        m = re.compile(r"i(\d+)").match(txt, i)
        if m: return IntT(int(m.group(1))), m.end()
        if txt.startswith("ptr", i): return PTR, i + 3
        if txt.startswith("void", i): return VOID, i + 4
        for fl in ("double", "float", "x86_fp80", "metadata", "label"):
            if txt.startswith(fl, i): return T("float", 64, name=fl), i + len(fl)
        if txt[i] == "%":
            m = re.compile(r'%("[^"]+"|[\w.$-]+)').match(txt, i)
            return s.mod.named(m.group(1)), m.end()
        if txt[i] == "[":
            m = re.compile(r"\[(\d+) x ").match(txt, i)
            e, j = s.parse(txt, m.end())
            assert txt[j] == "]"
            return T("arr", e=e, n=int(m.group(1))), j + 1
        if txt[i] == "<" and txt[i + 1] == "{":
            fs, j = s.fields(txt, i + 2)
            assert txt[j] == ">"
            return T("struct", fs=fs, packed=True), j + 1
        if txt[i] == "<":
            m = re.compile(r"<(\d+) x ").match(txt, i)
            e, j = s.parse(txt, m.end())
            return T("vec", e=e, n=int(m.group(1)), w=e.w * int(m.group(1))), j + 1
        if txt[i] == "{":
            fs, j = s.fields(txt, i + 1)
            return T("struct", fs=fs), j
        raise ExtractError("type? " + txt[i:i + 40])
    def fields(s, txt, i):
        fs = []
        while True:
            while txt[i] == " ": i += 1
            if txt[i] == "}": return tuple(fs), i + 1
            t, i = s.parse(txt, i)
            fs.append(t)
            while txt[i] in " ,": i += 1

def align(t):
    if t.k == "int": return max(1, min(16, 1 << ((t.w + 7) // 8 - 1).bit_length()))
    if t.k == "ptr": return 8
    if t.k == "vec": return t.w // 8
    if t.k == "arr": return align(t.e)
    if t.k == "struct": return 1 if t.packed or not t.fs else max(map(align, t.fs))
    if t.k == "float": return 8
    raise ExtractError("align %r" % t)
def size(t):
    if t.k == "int":
        b = (t.w + 7) // 8
        a = align(t)
        return (b + a - 1) // a * a
    if t.k == "ptr": return 8
    if t.k == "vec": return t.w // 8
    if t.k == "arr": return t.n * size(t.e)
    if t.k == "float": return 8
    if t.k == "struct":
        o = 0
        for f in t.fs:
            a = 1 if t.packed else align(f)
            o = (o + a - 1) // a * a + size(f)
        a = align(t)
        return (o + a - 1) // a * a
    raise ExtractError("size %r" % t)
def field_off(t, i):
    o = 0
    for k, f in enumerate(t.fs):
        a = 1 if t.packed else align(f)
        o = (o + a - 1) // a * a
        if k == i: return o
        o += size(f)
    raise ExtractError("field")

# ----------------------------------------------------------------------------- values
class Op:  # operand
    __slots__ = ("k", "v", "t")
    def __init__(s, k, v, t): s.k, s.v, s.t = k, v, t
    def __repr__(s): return "%s:%s" % (s.k, s.v)

class Ins:
    __slots__ = ("op", "dst", "t", "a", "x", "line")
    def __init__(s, op, dst, t, a, x=None, line=""): s.op, s.dst, s.t, s.a, s.x, s.line = op, dst, t, a, x, line
    def __repr__(s): return s.line

class Fn:
    def __init__(s, name, ret, params, module):
        s.name, s.ret, s.params, s.module = name, ret, params, module
        s.blocks, s.order = {}, []
        s.internal = False
        s.attrs = ""

def split_top(s, sep=","):
    out, d, cur, q = [], 0, "", False
    for c in s:
        if c == '"': q = not q
        if not q:
            if c in "([{<": d += 1
            elif c in ")]}>": d -= 1
            elif c == sep and d == 0:
                out.append(cur.strip()); cur = ""; continue
        cur += c
    if cur.strip(): out.append(cur.strip())
    return out

ATTR = re.compile(r"^(noundef|zeroext|signext|nonnull|noalias|nocapture|readonly|writeonly|readnone|immarg|returned|captures\([^)]*\)|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|inreg|byval\([^)]*\)|sret\([^)]*\)|range\([^)]*\))\s*")

class Module:
    def __init__(s, text, src):
        s.src, s.types, s.rawtypes = src, {}, {}
        s.globals, s.fns, s.decls = {}, {}, {}
        s.tp = TypeParser(s)
        s.parse(text)
    def named(s, n):
        n = n.strip('"')
        if n not in s.types:
            raw = s.rawtypes.get(n)
            if raw is None or raw == "opaque":
                s.types[n] = T("struct", name=n); return s.types[n]
            t = T("struct", name=n)
            s.types[n] = t
            r, _ = s.tp.parse(raw)
            t.k, t.w, t.e, t.n, t.fs, t.packed = r.k, r.w, r.e, r.n, r.fs, r.packed
        return s.types[n]
    def parse(s, text):
        lines = text.split("\n")
        i = 0
        for l in lines:
            m = re.match(r'%("[^"]+"|[\w.$-]+) = type (.*)$', l)
            if m: s.rawtypes[m.group(1).strip('"')] = m.group(2).strip()
        while i < len(lines):
            l = lines[i]
            if l.startswith("@"): s.glob(l)
            elif l.startswith("declare"):
                m = re.search(r"@([\w.$]+)\(", l)
                s.decls[m.group(1)] = l
            elif l.startswith("define"):
                j = i
                while lines[j] != "}": j += 1
                s.func(lines[i:j])
                i = j
            i += 1
    def glob(s, l):
        m = re.match(r'@("[^"]+"|[\w.$]+) = (.*)$', l)
        name, rest = m.group(1), m.group(2)
        const = re.search(r"\b(constant|global)\b", rest)
        if not const: return
        ext = "external" in rest[:const.start()]
        body = rest[const.end():].strip()
        try:
            t, j = s.tp.parse(body)
        except Exception:
            return
        init = None if ext else body[j:].strip()
        s.globals[name] = dict(t=t, init=init, const=const.group(1) == "constant", ext=ext)
    def cstring(s, name):
        g = s.globals.get(name)
        if not g or not g["init"]: return None
        m = re.match(r'c"((?:[^"\\]|\\\\|\\[0-9A-Fa-f]{2})*)"', g["init"])
        if m:
            b = re.sub(r"\\(\\|[0-9A-Fa-f]{2})", lambda k: "\\" if k.group(1) == "\\" else chr(int(k.group(1), 16)), m.group(1))
            return b.encode("latin1")
        if g["init"].startswith("zeroinitializer"): return b"\0" * size(g["t"])
        return None
    # -- functions
    def func(s, ls):
        h = ls[0]
        m = re.search(r"@([\w.$]+)\(", h)
        name = m.group(1)
        pre = h[len("define"):m.start()].strip()
        # return type = last type in pre
        toks = pre
        for w in ("internal", "available_externally", "dso_local", "linkonce_odr", "private", "hidden"):
            toks = re.sub(r"\b%s\b" % w, "", toks)
        toks = toks.strip()
        while True:
            mm = ATTR.match(toks)
            if not mm: break
            toks = toks[mm.end():]
        rt, _ = s.tp.parse(toks)
        d, k = 0, m.end() - 1
        while True:
            if h[k] == "(": d += 1
            if h[k] == ")":
                d -= 1
                if d == 0: break
            k += 1
        params = []
        va = False
        for pp in split_top(h[m.end():k]):
            if pp == "...": va = True; continue
            t, j = s.tp.parse(pp)
            nm = re.search(r'%("[^"]+"|[\w.$-]+)\s*$', pp[j:])
            params.append((nm.group(1).strip('"') if nm else "arg%d" % len(params), t))
        f = Fn(name, rt, params, s)
        f.internal = " internal " in h
        f.inline_hdr = " available_externally " in h
        s.fns[name] = f
        cur = "entry"
        first = True
        buf = []
        joined = []
        # join multi-line switch
        it = iter(ls[1:])
        for l in it:
            l = re.sub(r"\s+;.*$", "", l) if not ('c"' in l) else l
            if not l.strip(): continue
            if re.match(r"^\s*switch ", l) and not l.rstrip().endswith("]"):
                acc = l
                for l2 in it:
                    acc += " " + l2.strip()
                    if l2.strip() == "]": break
                joined.append(acc); continue
            joined.append(l)
        for l in joined:
            m = re.match(r'^("[^"]+"|[\w.$-]+):', l)
            if m:
                cur = m.group(1).strip('"')
                f.blocks[cur] = []; f.order.append(cur); first = False
                continue
            if first:
                # entry without a label: number of params
                cur = str(len(params)) if not any(re.match(r"entry", x) for x in joined[:1]) else "entry"
                f.blocks[cur] = []; f.order.append(cur); first = False
            f.blocks[cur].append(s.instr(l.strip()))
    def operand(s, txt, t):
        txt = txt.strip()
        while True:
            m = ATTR.match(txt)
            if not m: break
            txt = txt[m.end():]
        if txt.startswith("%"): return Op("reg", txt[1:].strip('"'), t)
        if txt.startswith("@"): return Op("glob", txt[1:].strip('"'), t)
        if re.match(r"^-?\d+$", txt): return Op("int", int(txt), t)
        if txt in ("true", "false"): return Op("int", 1 if txt == "true" else 0, t)
        if txt == "null": return Op("null", None, t)
        if txt in ("undef", "poison"): return Op("undef", None, t)
        if txt == "zeroinitializer": return Op("zero", None, t)
        m = re.match(r"^getelementptr( inbounds)? \((.*)\)$", txt)
        if m:
            parts = split_top(m.group(2))
            bt, _ = s.tp.parse(parts[0])
            return Op("cgep", (bt, [s.typed(x) for x in parts[1:]]), t)
        m = re.match(r"^(inttoptr|ptrtoint|bitcast) \((.*) to (.*)\)$", txt)
        if m:
            tt, _ = s.tp.parse(m.group(3))
            return Op("ccast", (m.group(1), s.typed(m.group(2)), tt), tt)
        if txt.startswith("<"): return Op("cvec", txt, t)
        if re.match(r"^[-0-9.e+]+$|^0x", txt): return Op("undef", None, t)
        raise ExtractError("operand? " + txt)
    def typed(s, txt):
        txt = txt.strip()
        t, j = s.tp.parse(txt)
        return s.operand(txt[j:], t)
    def instr(s, l):
        full = l
        l = re.sub(r", !.*$", "", l)
        l = re.sub(r"\s#\d+\s*$", "", l)
        dst = None
        m = re.match(r'^%("[^"]+"|[\w.$-]+) = (.*)$', l)
        if m: dst, l = m.group(1).strip('"'), m.group(2)
        l = re.sub(r"^(tail|musttail|notail) call", "call", l)
        op = l.split()[0]
        rest = l[len(op):].strip()
        if op == "alloca":
            parts = split_top(rest)
            t, _ = s.tp.parse(parts[0])
            n = None
            if len(parts) > 1 and not parts[1].startswith("align"): n = s.typed(parts[1])
            return Ins("alloca", dst, PTR, [n], t, full)
        if op == "load":
            rest = re.sub(r"^volatile ", "", rest)
            parts = split_top(rest)
            t, _ = s.tp.parse(parts[0])
            return Ins("load", dst, t, [s.typed(parts[1])], None, full)
        if op == "store":
            rest = re.sub(r"^volatile ", "", rest)
            parts = split_top(rest)
            return Ins("store", None, VOID, [s.typed(parts[0]), s.typed(parts[1])], None, full)
        if op == "getelementptr":
            rest = re.sub(r"^(inbounds|nuw|nusw)\s+", "", rest)
            parts = split_top(rest)
            bt, _ = s.tp.parse(parts[0])
            return Ins("gep", dst, PTR, [s.typed(x) for x in parts[1:]], bt, full)
        if op in ("add", "sub", "mul", "sdiv", "srem", "udiv", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            fl = []
            while True:
                m = re.match(r"^(nsw|nuw|exact|disjoint)\s+", rest)
                if not m: break
                fl.append(m.group(1)); rest = rest[m.end():]
            t, j = s.tp.parse(rest)
            a = split_top(rest[j:])
            return Ins(op, dst, t, [s.operand(x, t) for x in a], fl, full)
        if op == "icmp":
            m = re.match(r"^(\w+) (.*)$", rest)
            t, j = s.tp.parse(m.group(2))
            a = split_top(m.group(2)[j:])
            return Ins("icmp", dst, IntT(1), [s.operand(x, t) for x in a], m.group(1), full)
        if op in ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            rest = re.sub(r"^(nneg|nuw|nsw)\s+", "", rest)
            if op == "freeze": return Ins(op, dst, s.typed(rest).t, [s.typed(rest)], None, full)
            k = rest.rindex(" to ")
            t, _ = s.tp.parse(rest[k + 4:])
            return Ins(op, dst, t, [s.typed(rest[:k])], None, full)
        if op == "select":
            p = split_top(rest)
            a = [s.typed(x) for x in p]
            return Ins("select", dst, a[1].t, a, None, full)
        if op == "phi":
            t, j = s.tp.parse(rest)
            inc = []
            for x in re.findall(r"\[\s*(.*?),\s*%(\"[^\"]+\"|[\w.$-]+)\s*\]", rest[j:]):
                inc.append((s.operand(x[0], t), x[1].strip('"')))
            return Ins("phi", dst, t, inc, None, full)
        if op == "br":
            m = re.match(r'^label %("[^"]+"|[\w.$-]+)$', rest)
            if m: return Ins("br", None, VOID, [], [m.group(1).strip('"')], full)
            p = split_top(rest)
            return Ins("br", None, VOID, [s.typed(p[0])], [re.sub(r'^label %', "", x).strip('"') for x in p[1:]], full)
        if op == "switch":
            m = re.match(r'^(.*?), label %("[^"]+"|[\w.$-]+) \[(.*)\]$', rest)
            v = s.typed(m.group(1))
            cases = [(int(a), b.strip('"')) for a, b in re.findall(r'i\d+ (-?\d+), label %("[^"]+"|[\w.$-]+)', m.group(3))]
            return Ins("switch", None, VOID, [v], (m.group(2).strip('"'), cases), full)
        if op == "ret":
            if rest.startswith("void"): return Ins("ret", None, VOID, [], None, full)
            return Ins("ret", None, VOID, [s.typed(rest)], None, full)
        if op == "unreachable": return Ins("unreachable", None, VOID, [], None, full)
        if op == "call":
            # call [attrs] <ty> [(fnty)] <callee>(args)
            r = rest
            while True:
                m = ATTR.match(r)
                if m: r = r[m.end():]; continue
                m = re.match(r"^(fastcc|ccc)\s+", r)
                if m: r = r[m.end():]; continue
                break
            rt, j = s.tp.parse(r)
            r = r[j:].strip()
            if r.startswith("("):  # function type
                d = 0
                for k, c in enumerate(r):
                    if c == "(": d += 1
                    if c == ")":
                        d -= 1
                        if d == 0: break
                r = r[k + 1:].strip()
            if r.startswith("asm"):
                return Ins("asm", dst, rt, [], None, full)
            k = r.index("(")
            callee = r[:k].strip()
            d = 0
            for e in range(k, len(r)):
                if r[e] == "(": d += 1
                if r[e] == ")":
                    d -= 1
                    if d == 0: break
            args = [s.typed(x) for x in split_top(r[k + 1:e])]
            return Ins("call", dst, rt, args, s.operand(callee, PTR), full)
        if op in ("extractelement", "insertelement", "shufflevector", "extractvalue", "insertvalue", "va_arg", "fcmp", "sitofp", "fptosi", "fadd", "fmul", "fdiv", "fsub", "uitofp"):
            return Ins("unsupported", dst, VOID, [], op, full)
        raise ExtractError("instr? " + full)

# ----------------------------------------------------------------------------- CFG helpers
def succs(b):
    t = b[-1]
    if t.op == "br": return list(t.x)
    if t.op == "switch": return [t.x[0]] + [c[1] for c in t.x[1]]
    return []

def loops(fn):
    """natural loops: header -> set(blocks); via dominators"""
    order = fn.order
    preds = {b: [] for b in order}
    for b in order:
        for t in succs(fn.blocks[b]): preds[t].append(b)
    reach, st = set(), [order[0]]
    while st:
        b = st.pop()
        if b in reach: continue
        reach.add(b); st += succs(fn.blocks[b])
    dom = {b: set(reach) for b in reach}
    dom[order[0]] = {order[0]}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b not in reach or b == order[0]: continue
            ps = [dom[p] for p in preds[b] if p in reach]
            n = set.intersection(*ps) | {b} if ps else {b}
            if n != dom[b]: dom[b] = n; ch = True
    res = {}
    for b in reach:
        for t in succs(fn.blocks[b]):
            if t in dom[b]:
                body = res.setdefault(t, {t})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st += preds[x]
    return res

if __name__ == "__main__":
    d = tempfile.mkdtemp()
    for p in sys.argv[1:]:
        m = Module(extract(p, d), p)
        for f in m.fns.values():
            print(f.name, [x[0] for x in f.params], f.ret, len(f.blocks), {h: len(b) for h, b in loops(f).items()})
