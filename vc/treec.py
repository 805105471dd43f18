"""Contracts of tree.c for the verifier in treev.py."""
from z3 import And, Or, Not, Implies, BoolVal, Int, sat, unsat, simplify
import treev
from treev import *

LISP = ("lisp", 0, 0)

def hint(focus, mode="valid", lt=(), gt=(), Le=False, Re=False, nonempty=True, Fne=False, **roles):
    return dict(focus=focus, mode=mode, lt=lt, gt=gt, Le=Le, Re=Re, nonempty=nonempty, Fne=Fne, roles={k.replace("_", "."): v for k, v in roles.items()})
# invariants tried first (they are checked like any other; when one does not hold the search starts from all candidates)
HINTS = {"tree_get_node": hint("x.0", lt=["k"], gt=["k"]), "lisp_tree_upd": hint("x.0", lt=["k"], gt=["k"]),
         "tree_add_node": hint("x.0", lt=["k"], gt=["k"], y_0="parent?"), "tree_add_check": hint("x.0", "inserted", next_0="root"),
         "tree_minimum": hint("x.0", lt=[], gt=["k"], Le=True, Fne=True), "tree_rem_check": hint("x.0", "short", gt=[], p_0="parent?", next_0="root")}
class Spec:
    hints = HINTS
    rb, modes, keys, keep, indirect, calls = True, ["valid"], [], False, None, {}
    needs_root_weak = 0
    def relation(s, run, orig, W): run.V.fail_seq(run, orig, W)
    # ---- entry
    def tree(s, run, weak=0, empty=True):
        """a well-formed tree: NIL, or a node with unknown subtrees"""
        run.detached = set()
        if empty and run.choose(2) == 1:
            r = run.nil(1); run.orig = []; run.orig_root = r; run.treeroot = r; run.np = None
            return r
        np = run.nil(1)
        r = run.node(None, None, np, None, False, weak, 1)
        l, q, kv = run.newblob(r, "valid"), run.newblob(r, "valid"), run.kv()
        c1, c2 = run.cells(r)
        run.heap[r[1]][CAR] = kv; run.heap[c1][CAR] = l; run.heap[c2][CDR] = q
        run.orig = [l, run.entry(kv), q]
        if run.V.rb: run.assume(run.blobs[l[1]].bh == run.blobs[q[1]].bh)
        run.treeroot, run.np = r, np
        return r
    def sym(s, run, name):
        o = run.obj(T_SYMBOL, BIG, key=Int(name)); run.heap[o]["credit"] = 0
        return o
    def argkv(s, run, name, mine=1):
        kv = run.kv(); k = run.heap[kv[1]][CAR][1]
        run.heap[kv[1]]["credit"] = mine
        if not mine: pass
        return kv, k
    # ---- exit
    def seq(s, run): return run.expand(run.expected if run.expected is not None else run.orig)
    def same_list(s, run, got, want, desc):
        run.obl("post", desc, run.eqseq(run.expand(got), run.expand(want)), "tree: %s  wanted: %s" % (run.show(run.expand(got)), run.show(run.expand(want))))
    def absent(s, run, k, desc="the name is not bound"):
        key = run.heap[k]["key"]
        for p in run.orig if run.orig is not None else run.expected:
            for q in run.expand([p]):
                ne, lo, hi = run.bounds(q)
                run.ob2("post", desc, Implies(ne, Or(hi < key, lo > key)))
    def isfreshnil(s, run, r, roots=()):
        r = run.canon(r)
        run.obl("post", "NIL is returned", r[0] == "p" and run.isnil(r) and r not in roots)
        return r

class Get(Spec):
    keys = ["k"]
    rb = False
    def run(s, V, run):
        root = s.tree(run)
        k = s.sym(run, "key"); run.args = {"k": k}
        r = run.canon(run.call(V.fn, [LISP, root, ("p", k, 16)]))
        root = run.treeroot
        if r[0] == "p" and run.isnil(r):
            run.obl("post", "NIL is a new cell", r != run.canon(root))
            s.absent(run, k)
            ext = [root, r]
        else:
            run.obl("post", "a binding of the tree is returned", r[0] == "p" and "kv" in run.heap[r[1]])
            e = run.entry(r)
            run.obl("post", "the binding returned is in the tree", e in s.seq(run))
            run.ob2("post", "the binding returned has the name asked for", run.heap[e[2]]["key"] == run.heap[k]["key"])
            ext = [root, r]
        want = s.seq(run)
        s.same_list(run, run.whole(root), want, "the tree is left as it is")
        run.account(ext)

class Upd(Spec):
    keys = ["k"]
    rb = False
    def run(s, V, run):
        root = s.tree(run)
        kv, k = s.argkv(run, "k", 0); run.args = {"k": k}
        v = run.canon(run.heap[kv[1]][CDR])
        r = run.canon(run.call(V.fn, [LISP, root, kv]))
        root = run.treeroot
        want = s.seq(run)
        if r != kv:
            s.isfreshnil(run, r, (run.canon(root),))
            s.absent(run, k)
            run.obl("post", "the argument is left as it is", run.canon(run.heap[kv[1]][CDR]) == v)
            s.same_list(run, run.whole(root), want, "the tree is left as it is")
            run.account([root, r])
        else:
            got = run.expand(run.whole(root))
            n = 0
            out = []
            for e in want:
                g = e
                if e[0] == "e" and run.proves(run.heap[e[2]]["key"] == run.heap[k]["key"]):
                    n += 1
                    run.obl("post", "the old value goes to the argument", run.canon(run.heap[kv[1]][CDR]) == e[3])
                    g = ("e", e[1], e[2], v)
                out.append(g)
            run.obl("post", "one binding is updated", n == 1)
            s.same_list(run, got, out, "the value of the binding is replaced and nothing else")
            run.account([root])

class Add(Spec):
    keys = ["k"]
    modes = ["valid", "inserted"]
    def relation(s, run, orig, W):
        """the new tree: one entry more, between smaller and larger names"""
        e = ("e", run.kvarg[1], run.args["k"], run.varg)
        if W.count(e) != 1: run.V.fail_seq(run, orig, W)
        j = W.index(e)
        if W[:j] + W[j + 1:] != orig: run.V.fail_seq(run, orig, W)
        key = run.heap[run.args["k"]]["key"]
        for i, q in enumerate(orig):
            ne, lo, hi = run.bounds(q)
            run.ob2("post", "the new binding is put where its name belongs", Implies(ne, hi < key if i < j else lo > key))
    def run(s, V, run):
        root = s.tree(run)
        kv, k = s.argkv(run, "k", 1); run.args = {"k": k}
        v = run.canon(run.heap[kv[1]][CDR])
        run.kvarg, run.varg = kv, v
        r = run.canon(run.call(V.fn, [LISP, root, kv]))
        changed = run.expected is not None
        if r == run.canon(run.treeroot) and run.canon(run.heap[kv[1]][CDR]) != v:
            want, out, n = s.seq(run), [], 0
            got = run.expand(run.whole(r))
            for e in want:
                g = e
                if e[0] == "e" and run.proves(run.heap[e[2]]["key"] == run.heap[k]["key"]):
                    n += 1; g = ("e", e[1], e[2], v)
                out.append(g)
            run.obl("post", "one binding is updated", n == 1)
            s.same_list(run, got, out, "the value of the binding is replaced and nothing else")
            run.account([r])
            return
        got = run.expand(run.whole(r))
        if not changed: s.relation(run, run.norm(run.expand(run.orig)), run.norm(got))
        else: s.same_list(run, got, run.expected, "the tree holds the old bindings and the new one")
        run.account([r])

class Setq(Add):
    """lisp_setq: a binding is put into the tree; anything else is released and the tree is left as it is"""
    def run(s, V, run):
        how = run.choose(3)
        if how == 0: return Add.run(s, V, run)
        root = s.tree(run)
        junk = run.nil(1)
        run.args = {"k": s.sym(run, "key")}
        if how == 2:          # a pair whose head is not a symbol
            head, o = junk, run.obj(T_PAIR, 1)
            run.heap[o].update({CAR: head, CDR: run.nil(1)})
            junk = ("p", o, 0)
        r = run.canon(run.call(V.fn, [LISP, root, junk]))
        run.obl("own", "what is not a binding is released", junk[1] in run.dead)
        run.obl("post", "the table is returned", r == run.canon(root))
        s.same_list(run, run.whole(root), s.seq(run), "the tree is left as it is")
        run.account([root])

class Rem(Spec):
    keys = ["k"]
    modes = ["valid", "short"]
    keep = True
    def relation(s, run, orig, W):
        key = run.heap[run.args["k"]]["key"]
        for j, e in enumerate(orig):
            if e[0] == "e" and orig[:j] + orig[j + 1:] == W:
                run.ob2("post", "the binding removed has the name asked for", run.heap[e[2]]["key"] == key)
                run.removed = e
                return
        run.V.fail_seq(run, orig, W)
    def run(s, V, run):
        root = s.tree(run)
        k = s.sym(run, "key"); run.args = {"k": k}
        r = run.canon(run.call(V.fn, [LISP, root, ("p", k, 16)]))
        changed = run.expected is not None
        if not changed and r[0] == "p" and run.isnil(r) and r != run.canon(run.treeroot) and r != run.np:
            s.absent(run, k)
            s.same_list(run, run.whole(run.treeroot), s.seq(run), "the tree is left as it is")
            run.account([run.treeroot, r])
            return
        got = run.expand(run.whole(r))
        if not changed: s.relation(run, run.norm(run.expand(run.orig)), run.norm(got))
        else: s.same_list(run, got, run.expected, "the tree holds the other bindings")
        run.account([r])

class Rot(Spec):
    rb = False
    def __init__(s, left): s.left = left
    def run(s, V, run):
        """x: the root or a node further down"""
        root = s.tree(run, 1)
        x = root
        if run.np is not None and run.choose(2) == 1:
            c1, c2 = run.cells(root)
            # a node somewhere below the root: its parent is explicit
            side = run.choose(2)
            l = run.canon(run.heap[c1][CAR]) if side == 0 else run.canon(run.heap[c2][CDR])
            run.unfold_blob(l)
            x = run.canon(l)
        r = run.canon(run.call(V.fn, [root, x]))
        want = s.seq(run)
        s.same_list(run, run.whole(r, weak=1), want, "a rotation keeps the sequence of entries")
        run.account([r] + ([run.np] if run.np else []))

class Dfs(Spec):
    rb = False
    def run(s, V, run):
        run.events = []
        def cb(run, a):
            if run.choose(2) == 1:
                run.events.append(("v",) + tuple(run.canon(x) for x in a)); run.stop = True; return 1
            run.events.append(("v",) + tuple(run.canon(x) for x in a)); return 0
        def rec(run, a):
            """the recursive call by its own contract: all entries visited in order and NIL returned, or stopped at one"""
            t = run.canon(a[1])
            run.obl("post", "the visitor is handed on", a[2] == ("g", "cb"))
            run.obl("post", "the recursion is on a child of the node", t in run.kids and t not in run.did)
            run.did.append(t)
            if run.choose(2) == 1:
                run.assume(run.bounds(t)[0])
                run.events.append(("stop", t)); run.stop = True
                o = run.obj(T_PAIR, BIG); run.heap[o]["credit"] = 1; run.heap[o][CAR] = run.nil(BIG); run.heap[o][CDR] = run.nil(BIG)
                return ("p", o, 0)
            run.events.append(("all", t))
            return run.nil(1)
        s.indirect = lambda run, a: cb(run, a)
        s.calls = {V.fn.name: rec}
        run.stop = False
        root = s.tree(run)
        run.did = []
        e = None
        run.kids = []
        if run.np is not None:
            c1, c2 = run.cells(root)
            run.kids = [run.heap[c1][CAR], run.heap[c2][CDR]]
            e = run.orig[1]
        r = run.canon(run.call(V.fn, [LISP, root, ("g", "cb")]))
        if run.np is None:
            run.obl("post", "nothing is visited in an empty tree", run.events == [])
            run.obl("post", "the empty tree is returned", r == run.canon(root))
            run.obl("own", "the result is a new reference", run.heap[r[1]][REFS] == 2)
            return
        kv = run.heap[e[1]]
        full = [("all", run.kids[0]), ("v", run.canon(kv[CAR]), run.canon(kv[CDR])), ("all", run.kids[1])]
        n = len(run.events)
        if not run.stop:
            run.obl("post", "every binding is visited, in order", run.events == full)
            run.obl("post", "NIL is returned when no visit asks to stop", run.isnil(r))
        else:
            run.obl("post", "bindings are visited in order up to the one that stops", run.events[:-1] == full[:n - 1] and (run.events[-1][0] == "stop" and run.events[-1][1] == full[n - 1][1] or run.events[-1] == full[n - 1]))
            run.obl("post", "a node is returned when a visit asks to stop", not run.isnil(r))

SPECS = {"lisp_setq": Setq, "lisp_tree_get": Get, "lisp_tree_upd": Upd, "lisp_tree_add": Add, "lisp_tree_rem": Rem, "lisp_tree_lrot": lambda: Rot(True), "lisp_tree_rrot": lambda: Rot(False), "lisp_tree_dfs": Dfs}

class TContract:
    """what units/run know of a function verified by treev"""
    tracked, groups, bounded, special, assumed = False, (), (), False, False
    def __init__(s, name, nparams, weight): s.name, s.n, s.weight, s.props = name, nparams, weight, ("C07",)
    def __getattr__(s, n):
        if n.startswith("__"): raise AttributeError(n)
        return None
    def fits(s, fn): return fn is not None and len(fn.params) == s.n
TC = {n: TContract(n, k, w) for n, k, w in (("lisp_tree_get", 3, 100), ("lisp_tree_upd", 3, 100), ("lisp_tree_add", 3, 1500), ("lisp_tree_rem", 3, 2000), ("lisp_tree_lrot", 2, 100), ("lisp_tree_rrot", 2, 100), ("lisp_tree_dfs", 3, 100), ("lisp_setq", 3, 1500))}
