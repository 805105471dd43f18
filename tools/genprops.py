#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), obs=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=a, where=b) for a, b in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=list(obs), hook_needed=None)))

p("C01", "Cell allocator never hands out a live cell twice",
  "Every allocation returns an all-zero cell inside the reserved region that no earlier, still unreleased allocation returned, and every released cell becomes available again. The region grows by doubling only while it fits the reservation, and the allocation and release counters always differ by exactly the number of cells in use.",
  ["histories"], "every sequence of allocations and releases, across every growth step of the region",
  "test/c/slab.c drives a handful of fixed sequences (one page, one growth); the free-list is correct only if it is correct after every interleaving of allocate/release/grow.",
  ["lib/core/slab.c", "include/mnml/slab.h"],
  [("index free list, slab_new/slab_allocate/slab_deallocate/slab_expand", "lib/core/slab.c")],
  [("slab->first / entries[i].next", "head and links of the free list", "lib/core/slab.c")])

p("C02", "Reference counts balance: no leak, no double release",
  "Every operation of the interpreter core and of the standard, logic, math, io, sys and unix modules releases exactly the references it was given to consume, keeps none of those it was merely lent, and hands its caller exactly one reference to its result, on every path including error and early-return paths. A cell is returned to the allocator exactly when its last reference goes away, and doing so gives up the references it held on its elements, except weak ones.",
  ["inputs", "programs", "histories"], "all argument shapes and all control paths of every operation, hence all programs",
  "test/lisp/refcount.l compares allocation counters for about forty expressions; error paths, non-list and over-long arguments and rare branches are not sampled, and a count that is off by one only shows up later, elsewhere.",
  ["lib/core/lisp.c", "lib/core/eval.c", "lib/core/utils.c", "lib/core/tree.c", "lib/core/read.c", "lib/core/module.c", "lib/core/slab.c", "lib/mnml", "include/mnml/lisp.h", "include/mnml/utils.h", "include/mnml/module.h"],
  [("UP/DOWN/X macros", "include/mnml/lisp.h, include/mnml/slab.h"), ("lisp_deallocate", "lib/core/lisp.c"), ("consume/borrow convention of each function", "lib/core, lib/mnml")],
  [("atom.refs", "number of owners of a cell", "include/mnml/types.h")])

p("C03", "Cell accesses are safe: live, of the right kind, in bounds",
  "No operation of the core or of the modules reads or writes a cell it does not keep alive, follows the head or tail of something that is not a pair, or accesses memory outside the buffers it owns, whatever the length and nesting of the data it is given. This includes the conversion of strings, symbols and paths of any length to fixed-size buffers.",
  ["inputs", "programs"], "all well-formed values, lists and strings of any length and nesting",
  "The tests use short, well-typed values; overruns need strings at or beyond a buffer size and use-after-release needs a particular sharing of cells.",
  ["lib/core", "lib/mnml", "include/mnml"],
  [("type checks before CAR/CDR", "lib/core, lib/mnml"), ("length arguments of string conversions", "lib/core/utils.c, lib/mnml/io, lib/mnml/unix")])

p("C04", "Structural equality and matching are exact",
  "'=' returns T exactly when its two arguments are structurally equal (same kind and same number, character, all sixteen symbol bytes, or pairwise equal elements) and '<>' is always its negation. 'match' selects a pattern exactly when it is structurally equal to the value except that the wildcard matches anything at any depth.",
  ["inputs"], "all pairs of values of any size",
  "test/lisp/comparators.l has a dozen comparisons of small atoms; equality is a recursive relation over all trees.",
  ["lib/core/utils.c", "lib/mnml/logic/equ.c", "lib/mnml/logic/neq.c", "lib/mnml/std/match.c", "include/mnml/utils.h"],
  [("lisp_equ, lisp_neq, atom_match, lisp_symbol_match", "lib/core/utils.c, lib/mnml/std/match.c, include/mnml/utils.h")])

p("C05", "List primitives build and take apart lists faithfully",
  "car, cdr, cons, conc, list, len and quote, and the internal duplicate and append operations they are built on, return for every input exactly the elements they were given, each once and in order: car and cdr of a non-pair are NIL, cons of A and B has head A and tail B, conc is list concatenation, len counts the pairs of a list, and a shallow duplicate equals its source without sharing its spine.",
  ["inputs"], "all lists, proper or dotted, of any length, and non-list arguments",
  "Tests use lists of at most three elements.",
  ["include/mnml/lisp.h", "lib/core/lisp.c", "lib/core/utils.c", "lib/mnml/std/car.c", "lib/mnml/std/cdr.c", "lib/mnml/std/cons.c", "lib/mnml/std/conc.c", "lib/mnml/std/list.c", "lib/mnml/std/len.c", "lib/mnml/std/quote.c"],
  [("lisp_car, lisp_cdr, lisp_cons, lisp_conc, lisp_append, lisp_dup, lisp_len", "include/mnml/lisp.h, lib/core/lisp.c, lib/core/utils.c")])

p("C06", "Local environments: latest binding wins, others untouched",
  "Adding a binding to an ordered environment makes that symbol resolve to the new value and leaves the resolution of every other symbol unchanged, and merging environments gives precedence to the merged-in bindings while keeping the keys sorted and unique. Looking a symbol up yields the first local binding if there is one, otherwise the global value, otherwise NIL, with cached and uncached lookups indistinguishable.",
  ["inputs", "histories"], "all environments, symbols and update sequences",
  "Tests use one or two nested scopes; ordering mistakes need specific symbol orders and environment sizes.",
  ["lib/core/utils.c", "lib/core/lisp.c", "include/mnml/utils.h"],
  [("lisp_sss, lisp_merge, lisp_lookup, lisp_symbol_compare", "lib/core/utils.c, lib/core/lisp.c")],
  [("closure", "association list of local bindings", "lib/core/eval.c"), ("atom.cache", "cached global binding", "lib/core/lisp.c")])

p("C07", "The global symbol table behaves as a map",
  "After any sequence of insertions and updates, looking up a symbol in a tree returns the value most recently stored under it and looking up a symbol never stored returns NIL; insertion replaces the value of an existing key, update changes only an existing key and reports an absent one with NIL. Every operation keeps the keys ordered, all parent and child links consistent and the tree balanced, and the traversal visits the entries in key order.",
  ["histories"], "all sequences of insertions, updates, removals and lookups over all keys",
  "test/c/tree.c runs about ten fixed insertion/removal orders; rebalancing cases depend on the order of all previous insertions.",
  ["lib/core/tree.c", "include/mnml/tree.h", "lib/core/lisp.c", "lib/mnml/std/setq.c", "lib/mnml/std/set.c", "lib/mnml/std/def.c"],
  [("lisp_tree_add/upd/get/rem, rotations and fix-up", "lib/core/tree.c"), ("lisp_setq", "lib/core/lisp.c")],
  [("lisp->globals, lisp->modules", "the trees", "include/mnml/lisp.h")])

p("C08", "Argument binding, destructuring and currying",
  "Calling a function binds each parameter, in order, to the value of the corresponding argument evaluated once in the caller's environment, destructuring nested parameter lists element by element; a trailing parameter symbol receives the remaining arguments unevaluated. Too many arguments yield NIL without evaluating anything, and too few yield a function of the remaining parameters that remembers the bound ones, so that supplying the arguments in several steps gives the same result as supplying them at once.",
  ["inputs", "programs"], "all parameter lists (flat, nested, dotted, single symbol) and all argument lists",
  "test/lisp/deconstruction.l and the curry test cover a few shapes with up to four parameters.",
  ["lib/core/eval.c", "lib/core/lisp.c", "lib/core/utils.c"],
  [("lisp_bind, lisp_eval_args, lisp_may_apply, partial application in lisp_eval_func", "lib/core/eval.c, lib/core/lisp.c, lib/core/utils.c")])

p("C09", "Evaluation follows the language's rules",
  "Evaluating a symbol yields its binding, evaluating a list whose head evaluates to a function applies it, and anything else evaluates to itself or to the list with its head evaluated, as documented. A function body runs in the caller's bindings overridden by the captured environment overridden by the arguments, its expressions are evaluated in order with the last one's value as result, and a self tail call continues with exactly the newly computed arguments.",
  ["programs"], "all expressions and environments",
  "The unit tests evaluate a few dozen expressions of depth at most four.",
  ["lib/core/eval.c", "lib/core/lisp.c", "lib/mnml/std/lambda.c", "lib/mnml/std/eval.c"],
  [("lisp_eval, lisp_eval_pair, lisp_eval_func, lisp_prog", "lib/core/eval.c, lib/core/lisp.c"), ("closure capture", "lib/mnml/std/lambda.c")])

p("C10", "Control forms evaluate exactly the selected expressions",
  "if, when, unless, cond, match, prog, let, while, or, and, the stream operator and the binding forms evaluate their tests and the selected branch exactly once each, in order, in the right environment, never evaluate an unselected branch, and return the value of the last expression selected or NIL when none is. In particular or does not evaluate its second argument when the first is not NIL, cond stops at the first clause that answers T, and while re-evaluates its test before every iteration.",
  ["programs"], "all clauses, nestings, environments and evaluation results",
  "test/lisp/control.l exercises each form with constant tests and one or two clauses.",
  ["lib/mnml/std/if.c", "lib/mnml/std/when.c", "lib/mnml/std/unless.c", "lib/mnml/std/cond.c", "lib/mnml/std/match.c", "lib/mnml/std/prog.c", "lib/mnml/std/let.c", "lib/mnml/std/while.c", "lib/mnml/std/stream.c", "lib/mnml/logic/or.c", "lib/mnml/logic/and.c", "lib/mnml/std/def.c", "lib/mnml/std/setq.c", "lib/mnml/std/set.c"],
  [("the native function of each form", "lib/mnml/std, lib/mnml/logic")])

p("C11", "64-bit arithmetic and ordering",
  "+, -, *, / and % return the exact 64-bit two's complement result of their two number arguments in the written order (wrapping on overflow, division and remainder truncating toward zero), and <, <=, >, >= return T or NIL according to the signed 64-bit order. No pair of number arguments, including a zero divisor (NIL) or INT64_MIN by -1 (wrapping), crashes the interpreter.",
  ["inputs"], "all pairs of 64-bit numbers",
  "test/lisp/arithmetics.l samples about thirty small operands.",
  ["lib/mnml/math", "include/mnml/module.h"],
  [("BINARY_NUMBER_GEN, BINARY_COMPARE_GEN", "include/mnml/module.h, lib/mnml/math")])

p("C12", "Type predicates and conversions",
  "Each type predicate (nil?, tru?, atm?, lst?, num?, chr?, sym?, str?) returns T exactly for the values of its kind and NIL for all others, and not is the negation of truth. chr, str and sym convert between numbers, characters, strings and symbols without altering, dropping or reordering characters up to the sixteen a symbol can hold, and escape sequences in strings are replaced one for one.",
  ["inputs"], "all values; all strings and symbols of every length",
  "No test covers the predicates on every kind, nor strings at the sixteen-character limit or with trailing escapes.",
  ["lib/mnml/std", "lib/mnml/logic/not.c", "lib/core/utils.c", "lib/core/lisp.c", "include/mnml/module.h"],
  [("PREDICATE_GEN natives; lisp_is_string, lisp_make_cstring, lisp_make_string, lisp_process_escapes", "include/mnml/module.h, lib/core/utils.c, lib/core/lisp.c")])

p("C13", "Printed output is the value's rendering, whatever its size",
  "Printing a value writes exactly its textual rendering to the current output channel: nothing lost, duplicated or reordered, independently of how the text falls relative to the internal buffer and of what the value contains. print shows values in readable form separated by single spaces, prin shows raw characters without separators, the l variants add one newline at the end, and all return the last value printed.",
  ["inputs"], "all values of any size and nesting, in both modes",
  "test/lisp/io.l prints a few short values; buffer boundaries and nested NILs are not reached.",
  ["lib/core/print.c", "lib/mnml/io/prin.c", "lib/mnml/io/prinl.c", "lib/mnml/io/print.c", "lib/mnml/io/printl.c"],
  [("lisp_prin_atom, lisp_prin_pair, lisp_write, lisp_flush", "lib/core/print.c")],
  [("buf/idx", "bytes not yet written", "lib/core/print.c")])

p("C14", "Input and output channels nest and are restored",
  "in, out and load run their body with the requested channel current and restore the previous channel afterwards on every path, closing exactly the handle they opened and leaving the channel stack unchanged when the channel cannot be opened. Expressions read from a channel are delivered in order, each exactly once, and a channel's pending expressions are unaffected by nested channels.",
  ["histories", "fault_sequences"], "all nestings of channels and all failures of the underlying calls",
  "test/lisp/io.l opens one channel at a time and no test makes an open, dup or read fail.",
  ["lib/mnml/io/in.c", "lib/mnml/io/out.c", "lib/mnml/io/read.c", "lib/mnml/io/readline.c", "lib/core/utils.c", "lib/core/read.c", "include/mnml/utils.h", "lib/mnml/std/load.c", "lib/stubs/extern.c"],
  [("PUSH_IO_CONTEXT, POP_IO_CONTEXT", "include/mnml/utils.h"), ("lisp_read, lisp_read_pop, lisp_consumer", "lib/core/read.c"), ("lisp_load_file", "lib/core/utils.c")],
  [("lisp->ichan, lisp->ochan", "channel stacks", "include/mnml/lisp.h")])

p("C15", "Modules bind exactly the requested primitives",
  "Loading a module binds each requested symbol that the module exports, and no other, to its own primitive with its documented parameter list, and returns the list of symbols bound in order; requesting everything binds every exported symbol once. Unknown symbols, unknown modules and malformed requests bind nothing, and a module already loaded is reused rather than reopened.",
  ["inputs", "histories"], "all module requests and all export tables",
  "The tests load known modules with known symbols; the mapping of each of the 63 exported names to its primitive and parameters is only checked for those a test happens to call.",
  ["lib/core/module.c", "include/mnml/module.h", "lib/mnml/std/load.c", "lib/mnml/std/lib.c", "lib/mnml/math/lib.c", "lib/mnml/logic/lib.c", "lib/mnml/io/lib.c", "lib/mnml/sys/lib.c", "lib/mnml/unix/lib.c"],
  [("module_load_symbols, module_load_symbols_list, module_load_binary, module_load", "lib/core/module.c"), ("LISP_MODULE_SETUP, export tables", "include/mnml/module.h, lib/mnml/*/lib.c")])

p("C16", "Tail-call marking is confined to real self tail calls",
  "Defining a function changes how a call inside it is executed only if that call names the function itself, can be applied to the given arguments, and is in tail position: the last expression of the body, or of a branch of an if, cond, match, prog, when, unless or stream form that is itself in tail position. All other calls keep ordinary evaluation.",
  ["programs"], "all function bodies",
  "Two unit tests and one Lisp test define tail-recursive functions; the rule is recursive over all bodies.",
  ["lib/core/utils.c", "lib/mnml/std/def.c", "lib/mnml/std/let.c"],
  [("lisp_collect_tails, lisp_collect_tails_assoc, lisp_mark_tail_calls", "lib/core/utils.c")])

p("C17", "Operating system primitives report faithfully and leak nothing",
  "The unix and sys primitives pass exactly the descriptors, addresses, options and strings given by the program to the operating system, return the call's result, NIL or the error as documented, and never make the call with an argument the checks reject. A primitive that fails after opening a descriptor closes it, and one that succeeds returns it open exactly once.",
  ["fault_sequences", "inputs"], "all argument values and all outcomes of every system call",
  "No stable test exercises the unix module's failure paths; they need injected failures of each call.",
  ["lib/mnml/unix", "lib/mnml/sys"],
  [("the native function of each primitive", "lib/mnml/unix, lib/mnml/sys")])

p("C18", "Closure frames of compiled code are recycled safely",
  "Requesting a closure frame returns one linked to the given parent that no one else is using, reusing a released frame before allocating; releasing makes a frame available again exactly once, and clearing frees every released frame and nothing else.",
  ["histories"], "all sequences of get, put and clear on a cache of frames of one size",
  "No test in the stable set drives the frame cache directly.",
  ["lib/core/closure.c", "include/mnml/closure.h"],
  [("lisp_closure_get, lisp_closure_put, lisp_closure_clear", "lib/core/closure.c")])

p("C19", "The reader parses the documented grammar, however input is split",
  "Reading text yields exactly the expressions the documented grammar assigns to it, with atoms converted exactly, independently of how the text is divided into lines and buffers. Malformed input is reported and does not corrupt later expressions.",
  ["inputs", "histories"], "all texts and all ways of splitting them into reads",
  "test/c/syntax.c feeds about forty complete short strings.",
  ["lib/grammar/lexer.rl", "lib/grammar/parser.y", "lib/core/read.c"],
  [("ragel scanner, lemon grammar", "lib/grammar")])

p("C20", "Compiled programs behave as interpreted ones",
  "A program translated to C by the bundled compiler and run against the runtime produces the same results as the interpreter.",
  ["programs"], "all programs the compiler accepts",
  "test/lisp/cc.l translates a few expressions.",
  ["share/mnml/cc.l", "share/mnml/cps.l", "lib/stubs/extern.c"],
  [("CPS transform and code generator", "share/mnml/cc.l, share/mnml/cps.l")])

d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(d, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
