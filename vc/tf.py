import sys, time; sys.path.insert(0, "/verif/vc")
import units, ir, flat, flatc
prog, ms = units.load([ir.REPO + "/lib/core/slab.c", ir.REPO + "/lib/core/closure.c", ir.REPO + "/lib/core/tree.c"])
for n in sys.argv[1:] or list(flatc.FC):
    t = time.time()
    c = flatc.FC[n]
    e, ob = flat.verify(prog, prog[n], c)
    print(n, len(ob), "obls", len(e.exits), "exits", e.invlog, "gen %.1f" % (time.time() - t))
    for o in ob:
        flat.discharge(o)
        if o.status not in ("trivial", "proved"): print("   ", o.status, o.tag, o.desc, "%.1f" % o.time)
    print("  %.1f s" % (time.time() - t), "max %.1f" % max([o.time for o in ob] + [0]))
