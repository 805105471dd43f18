import sys, time, collections; sys.path.insert(0, "/verif/vc")
import units, ir, treev, treec
prog, ms = units.load([ir.REPO + "/lib/core/slab.c", ir.REPO + "/lib/core/tree.c"] )
for n in sys.argv[1:] or list(treec.SPECS):
    t = time.time()
    V = treev.Verifier(prog, prog[n], treec.SPECS[n]())
    try: V.verify()
    except treev.Unsupported as x: print(n, "UNSUPPORTED", x, "paths", V.paths, "%.1f s" % (time.time() - t)); 
    c = collections.Counter(o.status for o in V.obls)
    print(n, dict(c), len(V.exits), "exits", V.paths, "paths", V.queries, "queries %.1f s" % (time.time() - t))
    for w in V.why[-int(__import__("os").environ.get("W", 6)):]: print("   why", w[:300])
    for k in V.invlog.values(): print("   inv", k)
    seen = set()
    for o in V.obls:
        if o.status != "proved" and (o.tag, o.desc) not in seen: seen.add((o.tag, o.desc)); print("   ", o.status, o.tag, o.desc, o.goal[:400])
