#!/usr/bin/env python3
"""Writes MANIFEST.json"""
import json
TECH = "contract-based deductive verification of the LLVM IR of the real C functions (own obligation generator over extracted IR, z3)"
CL = {}
def claim(id, note, level="proof", tech=TECH): CL[id] = (level, note, tech)
B = " Trusted: clang/opt extraction, the obligation generator and its heap model, z3; assumptions in the evidence file."
claim("C01", "slab_new, slab_allocate, slab_deallocate, slab_delete against a ghost free-list invariant over the raw memory (any number of cells in use, any history); slab_expand executed in place, its loop by a verified closed form." + B)
claim("C18", "lisp_closure_get, _put, _clear against a ghost cache invariant over the raw memory, any cache size." + B)
claim("C02", "Ghost ownership of every function under contract is exactly {result:1} on every exit: all paths, all inputs." + B)
claim("C03", "Every cell access of every function under contract is to a live cell of the right kind, every buffer access in bounds: all paths, all inputs, given the contracts' preconditions." + B)
claim("C04", "lisp_equ, lisp_neq, atom_match and their primitives equal recursive specifications on all values." + B)
claim("C05", "car cdr cons conc append len dup list equal specification functions on all values." + B)
claim("C06", "lookup, sorted insertion, merge, <- against association-list specifications." + B)
claim("C07", "lisp_tree_get, _upd, _add, _rem, _dfs, both rotations and lisp_setq against separation-style contracts (in-order sequence, key order, parent/child links, weak marks, red-black colouring and black height, ownership of nodes) for every tree and every number of iterations; loop invariants are found by candidate discarding and then proved. def and <- against the client view of the table." + B)
claim("C08", "argument binding, destructuring, partial application, let, against recursive specifications." + B)
claim("C09", "eval, application, lambda, def against a big-step specification with explicit world threading; partial correctness for the tail-call loop." + B)
claim("C10", "each control primitive evaluates exactly what its specification says, in order; while: partial correctness." + B)
claim("C11", "arithmetic and comparison primitives equal 64-bit two's complement operations; no trapping division." + B)
claim("C12", "predicates and conversions equal their specifications on all values." + B)
claim("C13", "The output functions emit exactly the byte sequence of the value's rendering: buffer contents plus flushed bytes equal the rendering at every exit, for every value and buffer fill." + B)
claim("C14", "in, out, load, read, readline, lisp_load, lisp_load_file, lisp_read and lisp_consumer against a channel-stack model: every open, push, pop and close in order, for every outcome of each call; lisp_read over an abstract lexer delivers the pending expressions first-in first-out. Path resolution (lisp_get_fullpath) and the generated lexer/parser are trusted." + B)
claim("C16", "lisp_mark_tail_calls marks exactly the cells of the recursive specification of self tail calls; def marks nothing else." + B)
claim("C15", "each module's load function binds its Lisp name to a function value holding the documented parameter list and the address of the C function whose contract is that name's; the module table, export search and request handling against a specification over the module's export table." + B)
claim("C17", "Each unix and sys primitive makes exactly the specified chain of system calls (descriptors, addresses, options, strings) and returns the specified result, for every argument and every outcome of each call; descriptors closed on every failing path. Real process, socket and file effects are uninterpreted events." + B)
NA = {}
NA["C19"] = "the deciding code is the output of two generators (ragel state table and lemon parser tables, goto-coded): the grammar lives in tables, not in functions that can carry contracts, and no deductive verifier for it is installed; the hand-written part, lisp_read and lisp_consumer, is under contract over an abstract lexer in C14"
NA["C20"] = "the compiler is a Lisp program (share/mnml/cc.l, cps.l), not C: no contract-based verifier for minima.l programs exists here, and a proof of the C runtime says nothing about the translation"
T = {}
exec(open("/verif/tools/claims.py").read()) if __import__("os").path.exists("/verif/tools/claims.py") else None
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
for i in ids:
    if i not in CL and i not in NA: NA[i] = "not yet under contract"
m = dict(version=1, setup_cmd="python3-vt vc/selftest.py", checks=[dict(property=i, quick_cmd="python3-vt vc/run.py %s --tier quick" % i, thorough_cmd="python3-vt vc/run.py %s --tier thorough" % i,
    technique=CL[i][2], level=CL[i][0], level_note=CL[i][1]) for i in ids if i in CL],
    not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i not in CL],
    notes="hooks: none are needed, /repo carries only fix: commits")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
