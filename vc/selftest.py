"""setup: the tools the checks need are there and the lemmas used as axioms are provable"""
import sys, os, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
for t in (ir.CLANG, ir.OPT): assert os.path.exists(t), t
import lemmas
bad = lemmas.run()
print("lemmas: %d proved, failed %s" % (lemmas.N, bad))
import threading, companion, props
threading.stack_size(256 << 20); sys.setrecursionlimit(20000)
import gen
err = []
def go():
    for p in sorted(gen.PROFILES):
        try: print("companion %s: %d programs" % (p, len(companion.gencases(p, 1, 40))))
        except Exception as e: err.append((p, repr(e)))
t = threading.Thread(target=go); t.start(); t.join()
print("companion generators failing: %s" % err)
sys.exit(1 if bad or err else 0)
