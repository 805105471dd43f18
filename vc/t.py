import sys, time, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import units, externs, contracts
from engine import *
def go(u, prog, vb=False):
    t = time.time()
    e = Engine(prog, contracts.C, externs.EXT, dict(force_unroll="U" in os.environ))
    try: obls = verify(e, u.fn, u.contract)
    except Unsupported as x:
        print("%-22s UNSUPPORTED %s %.1fs" % (u.name, x, time.time() - t), flush=True); return
    t1 = time.time()
    for o in obls: discharge(e, o)
    bad = [o for o in obls if o.status not in ("trivial", "syntactic", "proved")]
    print("%-22s %d obligations, %d not proved; exits %d; %.1fs+%.1fs; inv %s; bounded %s; inlined %s" % (u.name, len(obls), len(bad), len(e.exits), t1 - t, time.time() - t1, e.invlog, sorted(e.boundedflags), len(e.inlined)), flush=True)
    for o in bad: print("    ", o.status, o.tag, o.desc, flush=True)
    if "V" in os.environ:
        for o in obls: print("   ", o.status, o.tag, o.desc, "%.2f" % o.time)
if __name__ == "__main__":
    prog, us, notes, regs = units.build()
    pids = []
    for n in sys.argv[1:]:
        for u in us:
            if u.name == n or (n.startswith("~") and re.search(n[1:], u.name)):
                if "J" in os.environ:
                    if len(pids) >= 8: os.wait(); pids.pop()
                    p = os.fork()
                    if p == 0: go(u, prog); os._exit(0)
                    pids.append(p)
                else: go(u, prog)
    for p in pids: os.wait()
    if not sys.argv[1:]:
        print(len(us), [u.name for u in us]); print("\n".join(notes))
