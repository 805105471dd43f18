"""Which function is verified against which contract, and what an obligation says about which property."""
import sys, os, tempfile, shutil, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
from concurrent.futures import ThreadPoolExecutor

MODDIRS = ("std", "math", "logic", "io", "sys", "unix")
def sources():
    core = sorted(glob.glob(ir.REPO + "/lib/core/*.c"))
    mods = [f for m in MODDIRS for f in sorted(glob.glob(ir.REPO + "/lib/mnml/%s/*.c" % m))]
    return core, mods

def load(files, tmp=None):
    """extract, parse; name -> Fn (definitions of static functions stay reachable through their module)"""
    d = tmp or tempfile.mkdtemp(prefix="vc-")
    try:
        with ThreadPoolExecutor(8) as ex: paths = list(ex.map(lambda f: ir.extract(f, d), files))
        prog, mods = {}, []
        for f, p in zip(files, paths):
            m = ir.Module(p, f)
            mods.append(m)
            for n, fn in m.fns.items():
                if n not in prog or (prog[n].inline_hdr and not fn.inline_hdr): prog[n] = fn
        return prog, mods
    finally:
        if tmp is None: shutil.rmtree(d, ignore_errors=True)

class VUnit:
    """one function under contract"""
    def __init__(s, name, fn, contract, props, file):
        s.name, s.fn, s.contract, s.props, s.file = name, fn, contract, set(props), file

# properties an obligation with a given tag speaks about besides the properties of the function itself
TAGPROP = {"own": "C02", "safe": "C03", "buf": "C03", "arith": "C11", "slab": "C01"}
FUNTAGS = {"post", "world", "frame", "pre", "term", "inv"}
def concerns(prop, unit, tag):
    if isinstance(unit.contract, (flat.FContract, treec.TContract)): return prop in unit.props
    if tag in TAGPROP: return TAGPROP[tag] == prop
    return prop in unit.props

import re
from engine import *
import contracts, natives, modc, ioc, osm, chc, flat, flatc, treec
from theory import *

def scan(fn, rx):
    out = []
    for b in fn.blocks.values():
        for i in b:
            for t in re.findall(rx, repr((i.x, i.a))):
                if t not in out: out.append(t)
    return out
def registrations(mods):
    """[(lisp name, module, load function, C function)] read off the load/name functions of the modules"""
    out = []
    for m in mods:
        for n, f in m.fns.items():
            k = re.match(r"lisp_module_(\w+)_load$", n)
            if not k: continue
            nf = m.fns.get("lisp_module_%s_name" % k.group(1))
            lits = [x for x in (m.cstring(g) for g in scan(nf, r"glob:([\w.$]+)")) if x is not None] if nf else []
            name = lits[0].split(b"\0")[0].decode("latin1") if lits and lits[0] is not None else None
            fns = [g for g in scan(f, r"ptrtoint', glob:([\w.$]+)") if g in m.fns]
            out.append((name, m, f, m.fns[fns[0]] if fns else None))
    return out
def loadunit(name, m, f, fn):
    nt = natives.NAT_T.get(name)
    key = symbytes(name)
    pat = nt.pattern() if nt else None
    def world(c):
        if nt is None: return c.w1
        return GSET(c.w0, key, pr(pat, pr(nil, num(BitVec("FNADDR_" + fn.name, 64)))))
    return Contract(f.name, ["lisp"], "own", props=("C15",), groups=("struct",), world=world, havoc_globals=True,
        post=lambda c: [("the symbol of the primitive", c.rv == S(name))])

def build(core=True, mods=True):
    cf, mf = sources()
    prog, ms = load(cf + mf)
    us, notes = [], []
    seen = set()
    for m in ms:
        for n, f in m.fns.items():
            q = n + "@" + os.path.basename(m.src)[:-2]
            if q in contracts.OWNC or q in contracts.C: f.name = n = q
            c = contracts.OWNC.get(n) or contracts.C.get(n)
            if c is None or c.special or c.assumed or (f.inline_hdr and n in seen): continue
            if not c.fits(f): notes.append("%s does not fit its contract: verified inlined at its callers" % n); continue
            us.append(VUnit(n, f, c, c.props, m.src)); seen.add(n)
    for n, c in list(flatc.FC.items()) + list(treec.TC.items()):
        for m in ms:
            f = m.fns.get(n)
            if f is None or f.inline_hdr: continue
            if c.fits(f): us.append(VUnit(n, f, c, c.props, m.src))
            else: notes.append("%s does not fit its contract" % n)
    regs = registrations(ms)
    for name, m, f, fn in regs:
        if name is None or fn is None: notes.append("registration %s not understood" % f.name); continue
        us.append(VUnit(f.name, f, loadunit(name, m, f, fn), ("C15",), m.src))
        nt = natives.NAT_T.get(name)
        if nt is None or nt.post is None: notes.append("no contract for the primitive %s" % name); continue
        us.append(VUnit("prim:" + name, fn, nt.contract(fn.name), nt.props, m.src))
    for n, c in contracts.C.items():
        if n not in seen and not c.special and not c.assumed: notes.append("function under contract %s not found: its callers are verified with its replacement inlined" % n)
    return prog, us, notes, regs
