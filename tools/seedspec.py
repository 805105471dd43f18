SEEDS = {}
def S(id, prop, edits, needs, breaks, **k): SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, **k)
CSH = r'''#!/bin/bash
# builds the program beside this file against the built library and runs it
H=$(cd "$(dirname "$0")" && pwd); D=$(mktemp -d); mkdir "$D/.mnml"
cc -std=gnu99 -g -w -D_GNU_SOURCE -Iinclude -o "$D/demo" "$H/demo.c" -L_build/lib -lminimal -Wl,-rpath,$PWD/_build/lib -ldl || exit 3
HOME=$D timeout 120 "$D/demo"
'''
SCRIPTHEAD = r'''#!/bin/bash
H=$(cd "$(dirname "$0")" && pwd); D=$(mktemp -d); mkdir "$D/.mnml"; R=$PWD
run() { (cd "$D" && HOME=$D PWD=$D MNML_SCRIPT_PATH=$R/share/mnml timeout 60 $R/_build/bin/mnml -d "$@" 2>/dev/null </dev/null); }
'''
S("c04-number-truncated", "C04", [("lib/core/utils.c", "    case T_CHAR:\n    case T_NUMBER:\n      return a->number == b->number;", "    case T_CHAR:\n    case T_NUMBER:\n      return (int)(a->number - b->number) == 0;")],
  "two numbers that differ by a multiple of 2^32", "= on numbers compares the low 32 bits of the difference only", lisp="(printl (= 1 2) (= 3 3) (= 4294967297 1) (= '(a 8589934592) '(a 0)))\n", out="NIL T NIL NIL")
S("c06-sss-prefix", "C06", [("lib/core/utils.c", "  const int cmp = lisp_symbol_compare(CAR(car), &CAR(kvp)->symbol);", "  const int cmp = strncmp(CAR(car)->symbol.val, CAR(kvp)->symbol.val, LISP_SYMBOL_LENGTH - 1);")],
  "two names of sixteen characters that differ in the last one, both local", "inserting a binding treats names that agree in 15 characters as the same name", lisp="(printl (let ((abcdefghijklmnop . 1) (abcdefghijklmnoq . 2)) (list abcdefghijklmnop abcdefghijklmnoq)))\n", out="(1 2)")
S("c08-pattern-repeat", "C08", [("lib/core/lisp.c", "      atom_t cl0 = lisp_bind(lisp, closure, sym, vl0);\n      ret = lisp_bind(lisp, cl0, oth, rem);", "      atom_t cl0 = lisp_bind(lisp, closure, oth, rem);\n      ret = lisp_bind(lisp, cl0, sym, vl0);")],
  "a pattern that names the same variable twice", "destructuring binds the elements of a pattern from right to left, so a repeated name resolves to its last element", lisp="(def two ((a a)) a)\n(def three ((a b) c) (list a b c))\n(printl (two '(1 2)) (three '(1 2) 3))\n(printl (let (((a b a) . '(4 5 6))) (list a b)))\n", out="1 (1 2 3)\n(4 5)")
S("c10-cond-nonnil", "C10", [("lib/mnml/std/cond.c", "  if (IS_TRUE(res)) {", "  if (!IS_NULL(res)) {")],
  "a clause predicate that answers something other than T or NIL (a partially applied predicate, a number)", "cond selects clauses whose predicate is not T", lisp="(def one (x) x)\n(printl (cond 5 (one . 'a) (num? . 'b) (_ . 'c)))\n(printl (cond 5 (= . 'a) (_ . 'c)))\n", out="b\nc")
S("c12-isstring-tail", "C12", [("lib/core/utils.c", "  return lisp_is_string(cell->pair.cdr);", "  return !IS_PAIR(cell->pair.cdr) || lisp_is_string(cell->pair.cdr);")],
  "a character list ending in something other than NIL", "str? accepts improper character lists", lisp="(printl (str? \"ab\") (str? '(^a . T)) (str? '(^a ^b . 3)) (str? '(^a b)))\n", out="T NIL NIL NIL")
S("c13-tail-escape", "C13", [("lib/core/print.c", "      return lisp_prin_atom(handle, buf, nxt, CDR(cell), s);", "      return lisp_prin_atom(handle, buf, nxt, CDR(cell), s && !IS_CHAR(CDR(cell)));")],
  "a dotted pair whose tail is a character", "the character tail of a dotted pair is printed raw", lisp="(printl '(^a . ^b))\n(printl '(a . b))\n", out="(^a . ^b)\n(a . b)")
S("c13-buffer-empty-write", "C13", [("lib/core/print.c", "    fwrite(buf, 1, pidx, handle);\n    pidx = 0;", "    fwrite(buf, 1, len == 1 ? pidx : pidx & ~1UL, handle);\n    pidx = 0;")],
  "a write of two or more characters that does not fit when an odd number of characters is buffered", "one buffered character is lost at the buffer boundary",
  lisp="(def mk (n acc) (if (= n 0) acc (mk (- n 1) (cons 7777 acc))))\n(def ml (n acc) (if (= n 0) acc (ml (- n 1) (cons 88 acc))))\n(printl (mk 410 NIL))\n(printl (ml 700 NIL))\n",
  out="(" + " ".join(["7777"] * 410) + ")\n(" + " ".join(["88"] * 700) + ")")
S("c16-unless-cond", "C16", [("lib/core/utils.c", "        res = lisp_collect_tails(lisp, lisp_car(lisp, cd1));\n        X(lisp, cell, cd0, cd1);", "        res = lisp_collect_tails(lisp, lisp_car(lisp, IS_NULL(CDR(cd1)) && lisp_symbol_equal(CAR(cell), \"unless\") ? cd0 : cd1));\n        X(lisp, cell, cd0, cd1);")],
  "a recursive call in the condition of an unless with a single body expression", "the self call in the condition is made a jump and the rest of the function is skipped",
  lisp="(def g (n) (unless (if (= n 0) NIL (g (- n 1))) (cons n NIL)))\n(printl (g 0) (g 1) (g 2) (g 3))\n", out="(0) NIL (2) NIL")
S("c02-cond-improper", "C02", [("lib/mnml/std/cond.c", "    X(lisp, cell, match);\n    return lisp_make_nil(lisp);", "    if (IS_NULL(match)) {\n      X(lisp, match);\n    }\n    X(lisp, cell);\n    return lisp_make_nil(lisp);")],
  "a cond whose clause list contains something that is not a pair", "the rest of the clause list is never released", lisp="(printl (cond 1 (nil? . 2) 7 (_ . 3)))\n", out="NIL")
S("c03-sym-buffer", "C03", [("lib/mnml/std/sym.c", "lisp_make_cstring(X, buffer, LISP_SYMBOL_LENGTH, 0);", "lisp_make_cstring(X, buffer, lisp_len(X), 0);")],
  "sym on a string longer than sixteen characters", "the characters are written past the end of a 17 byte buffer", lisp="(def mk (n acc) (if (= n 0) acc (mk (- n 1) (cons ^a acc))))\n(printl (sym \"abc\"))\n(printl (sym (mk 9000 NIL)))\n", out="abc\naaaaaaaaaaaaaaaa")
S("c09-equal-head", "C09", [("lib/core/eval.c", "  else if (lisp_equ(car, nxt)) {", "  else if (car == nxt || (!IS_PAIR(car) && lisp_equ(car, nxt))) {")],
  "an application whose head is a data list that evaluates to a fresh equal list", "evaluation of such a list never ends", lisp="(printl ((1 2) 3))\n", out="((1 2) 3)")
S("c11-number-narrow", "C11", [("lib/mnml/math/lt.c", "BINARY_COMPARE_GEN(lt, <, X, Y);", "BINARY_COMPARE_GEN(lt, - 1 <, X - 0 != NULL ? X : X, Y);")], "", "", lisp="", out=""); del SEEDS["c11-number-narrow"]
S("c11-ge-diff", "C11", [("lib/mnml/math/ge.c", "BINARY_COMPARE_GEN(ge, >=, X, Y);", "static atom_t USED\nlisp_function_ge(const lisp_t lisp, const atom_t closure)\n{\n  LISP_ARGS(closure, C, X, Y);\n  const uint64_t diff = (uint64_t)X->number - (uint64_t)Y->number;\n  return (int64_t)diff >= 0 ? lisp_make_true(lisp) : lisp_make_nil(lisp);\n}")],
  "two numbers whose difference does not fit 64 bits", ">= is decided by the sign of a wrapped difference", lisp="(printl (>= 3 2) (>= 2 3) (>= 9223372036854775807 -2) (>= -9223372036854775807 2))\n", out="T NIL T NIL")
S("c05-list-order", "C05", [("lib/mnml/std/list.c", "    atom_t res = lisp_list(lisp, closure, cdr);\n    atom_t evl = lisp_eval(lisp, closure, car);", "    atom_t evl = lisp_eval(lisp, closure, car);\n    atom_t res = IS_LIST(cdr) ? lisp_list(lisp, closure, cdr) : lisp_eval(lisp, closure, cdr);")],
  "a dotted argument list given to list", "the tail of a dotted argument list is evaluated", lisp="(setq y 5)\n(printl (list 1 2))\n(printl (list 1 . y))\n", out="(1 2)\n(1 . y)")
S("c15-prefix-name", "C15", [("lib/core/module.c", "      if (strcmp(e->name(), bsym) == 0) {", "      if (strncmp(e->name(), bsym, 8) == 0) {")],
  "asking a module for a name that extends one of its entries", "another entry is loaded under its own name", sh=SCRIPTHEAD + r'''cat > "$D/t.l" <<'X'
(load '(std load quote def let) '(io printl))
(printl (load '(io readlined)))
(printl (load '(std lenient)))
0
X
[ "$(run "$D/t.l")" = "$(printf 'NIL\nNIL')" ]
''')
S("c07-uncle-color", "C07", [("lib/core/tree.c", "      atom_t y = LEFT(PARENT(PARENT(x)));\n      /*\n       * Case 1.\n       */\n      if (IS_COLORED(y)) {\n        CLR_COLOR(PARENT(x));\n        CLR_COLOR(y);", "      atom_t y = LEFT(PARENT(PARENT(x)));\n      /*\n       * Case 1.\n       */\n      if (IS_COLORED(y)) {\n        CLR_COLOR(PARENT(x));\n        if (x == node || x == LEFT(PARENT(x))) {\n          CLR_COLOR(y);\n        }")],
  "an insertion order where recolouring goes up twice on the right side", "the uncle stays red and the tree loses its balance", c=r'''#include <mnml/lisp.h>
#include <mnml/slab.h>
#include <mnml/tree.h>
#include <mnml/utils.h>
#include <stdio.h>
#include <stdlib.h>
static int bad;
static int bh(atom_t n, int red) {
  if (IS_NULL(n)) return 1;
  int c = IS_COLORED(n) != 0;
  if (c && red) bad = 1;
  int l = bh(LEFT(n), c), r = bh(RIGHT(n), c);
  if (l != r) bad = 1;
  return l + !c;
}
int main() {
  unsigned s = 1;
  for (int round = 0; round < 300; round += 1) {
    lisp_t lisp = lisp_new(slab_new());
    atom_t root = lisp_make_nil(lisp);
    for (int i = 0; i < 40; i += 1) {
      char n[17] = { 0 };
      s = s * 1103515245u + 12345u;
      snprintf(n, 17, "k%03d", round == 0 ? i : (int)((s >> 16) % 1000));
      MAKE_SYMBOL_STATIC(k, n);
      root = lisp_tree_add(lisp, root, lisp_cons(lisp, lisp_make_symbol(lisp, k), lisp_make_number(lisp, i)));
      bh(root, 0);
      if (bad) { printf("unbalanced after %d insertions\n", i + 1); return 1; }
    }
    X(lisp, root);
    slab_t sl = lisp->slab;
    lisp_delete(lisp);
    slab_delete(sl);
  }
  return 0;
}
''', sh=CSH)
S("c07-upd-order", "C07", [("lib/core/tree.c", "    if (lisp_symbol_compare(KEY(x), &CAR(kv)->symbol) >= 0) {\n      x = LEFT(x);", "    if (strncmp(KEY(x)->symbol.val, CAR(kv)->symbol.val, 15) >= 0) {\n      x = LEFT(x);")],
  "two sixteen-character names that differ in the last one, the larger stored to the right of the smaller", "an update does not find a key that is present", lisp="(setq abcdefghijklmnop 1)\n(setq abcdefghijklmnoq 2)\n(setq abcdefghijklmnor 3)\n(printl (<- 'abcdefghijklmnop 4) (<- 'abcdefghijklmnoq 5) (<- 'abcdefghijklmnor 6))\n(printl abcdefghijklmnop abcdefghijklmnoq abcdefghijklmnor)\n", out="1 2 3\n4 5 6")
S("c01-chain-narrow", "C01", [("lib/core/slab.c", "  for (size_t i = CELL_COUNT; i < 2 * CELL_COUNT; i += 1) {\n    slab->entries[i].next = i + 1;\n  }\n  slab->entries[2 * CELL_COUNT - 1]", "  for (size_t i = CELL_COUNT; i < 2 * CELL_COUNT; i += 1) {\n    slab->entries[i].next = (uint16_t)(i + 1);\n  }\n  slab->entries[2 * CELL_COUNT - 1]")],
  "more than 65536 cells in use at once", "the free list wraps around and cells in use are handed out again", c=r'''#include <mnml/slab.h>
#include <stdio.h>
#include <stdlib.h>
int main() {
  slab_t s = slab_new();
  static atom_t c[200000];
  for (int i = 0; i < 200000; i += 1) { c[i] = slab_allocate(s); c[i]->number = i; c[i]->type = T_NUMBER; }
  for (int i = 0; i < 200000; i += 1) if (c[i]->number != i) { printf("cell %d handed out twice\n", i); return 1; }
  return 0;
}
''', sh=CSH)
S("c18-get-keeps-head", "C18", [("lib/core/closure.c", "", "")], "", "", c="", sh=""); del SEEDS["c18-get-keeps-head"]
S("c18-put-parent", "C18", [("lib/core/closure.c", "  C->C = *$;\n", "  C->C = *$ == C->C ? NULL : *$;\n")],
  "a frame released right after its parent", "the frames released before it drop out of the cache: they are never reused and never freed", c=r'''#include <mnml/closure.h>
#include <stdio.h>
int main(void) {
  closure_t cache = NULL;
  closure_t a = lisp_closure_get(&cache, NULL, 2), b = lisp_closure_get(&cache, a, 2), c = lisp_closure_get(&cache, b, 2);
  if (b->C != a || c->C != b) return 1;
  lisp_closure_put(&cache, a);
  lisp_closure_put(&cache, b);
  lisp_closure_put(&cache, c);
  closure_t r[3];
  int found = 0;
  for (int i = 0; i < 3; i += 1) { r[i] = lisp_closure_get(&cache, NULL, 2); found += r[i] == a || r[i] == b || r[i] == c; }
  if (r[0] == r[1] || r[1] == r[2] || r[0] == r[2]) return 2;
  printf("%d\n", found);
  return found == 3 && cache == NULL ? 0 : 1;
}
''', sh=CSH)
S("c14-in-fdopen-leak", "C14", [("lib/mnml/io/in.c", "    close(fd);\n    return lisp_make_nil(lisp);", "    return lisp_make_nil(lisp);")],
  "a descriptor that can be duplicated but not opened for reading (write-only), many times", "in leaks the duplicate when the stream cannot be opened",
  sh=SCRIPTHEAD + r'''cat > $D/m.l <<'EOF'
(load '(std let def \\ if prog) '(math - +) '(io in printl) '(unix pipe) '(logic =))
(def go (n) (if (= n 0) 0 (prog (in 1 3) (go (- n 1)))))
(go 200)
(printl (if (pipe) 4711 0))
0
EOF
cd $D; ulimit -n 64; HOME=$D MNML_SCRIPT_PATH=$R/share/mnml timeout 60 $R/_build/bin/mnml -d m.l </dev/null >$D/out 2>/dev/null
grep -q 4711 $D/out
''')
S("c14-read-partial", "C14", [("lib/core/read.c", "  } while (IS_NULL(CDR(CDR(CAR(lisp->ichan)))) || lexer_pending(lexer));", "  } while (IS_NULL(CDR(CDR(CAR(lisp->ichan)))));")],
  "a line that holds a complete expression followed by the beginning of one that ends on a later line", "the beginning of the second expression is dropped",
  sh=SCRIPTHEAD + r'''cat > $D/m.l <<'EOF'
(load '(std load def) '(math +) '(io printl))
(printl 1) (printl (+ 1
  1))
(printl 3)
0
EOF
[ "$(run m.l | tr '\n' ' ')" = "1 2 3 " ]
''')
S("c14-load-dir", "C14", [("lib/core/utils.c", "  PUSH_IO_CONTEXT(lisp, lisp->ichan, handle, dir);", "  PUSH_IO_CONTEXT(lisp, lisp->ichan, handle, IS_NULL(lisp->ichan) ? dir : absl_buf);")],
  "a script that loads a script of another directory that loads a neighbour of its own", "relative loads inside a loaded script resolve against the loading script's directory",
  sh=SCRIPTHEAD + r'''mkdir $D/a
echo "(load '(std load def) '(io printl)) (load \"a/x.l\") 0" > $D/m.l
echo '(load "y.l")' > $D/a/x.l
echo '(printl 77)' > $D/a/y.l
[ "$(run m.l)" = 77 ]
''')
S("c17-connect-leak", "C17", [("lib/mnml/unix/connect.c", "  if (res != 0) {\n    close(fd);\n    TRACE(\"connect() failed", "  if (res != 0) {\n    TRACE(\"connect() failed")],
  "many refused connections in one process", "connect leaks its socket when the connection is refused",
  sh=SCRIPTHEAD + r'''cat > $D/m.l <<'EOF'
(load '(std let def \\ if prog) '(math - +) '(io printl) '(unix pipe connect) '(logic =))
(def go (n) (if (= n 0) 0 (prog (connect "127.0.0.1" "1") (go (- n 1)))))
(go 200)
(printl (if (pipe) 4711 0))
0
EOF
cd $D; ulimit -n 64; HOME=$D MNML_SCRIPT_PATH=$R/share/mnml timeout 60 $R/_build/bin/mnml -d m.l </dev/null >$D/out 2>/dev/null
grep -q 4711 $D/out
''')
S("c17-wait-signal", "C17", [("lib/mnml/unix/wait.c", "WIFEXITED(state) ?", "state >= 0 ?")],
  "a child that is ended by a signal", "wait reports exit status 0 for a child that was killed",
  sh=SCRIPTHEAD + r'''cat > $D/m.l <<'EOF'
(load '(std let def \\ if prog quote) '(math - +) '(io printl) '(unix fork exec wait) '(logic =))
(let ((P . (fork))) (if (= P 0) (exec "/bin/sh" '("-c" "kill -9 $$") NIL) (printl (wait P))))
0
EOF
[ "$(run m.l)" = NIL ]
''')
S("c17-select-max", "C17", [("lib/mnml/unix/select.c", "  return cur > nxt ? cur : nxt;", "  return nxt > 0 ? nxt : cur;")],
  "descriptors given in descending order, only the highest ready", "select does not watch the highest descriptor",
  sh=SCRIPTHEAD + r"""cat > $D/m.l <<'EOF'
(load '(std let def \\ if prog quote car cdr list) '(math - +) '(io printl out) '(unix pipe select) '(logic =))
(def both (A B) (prog (out (cdr B) (printl 1)) (printl (if (select (list (car B) (car A)) (\\ (F) T) (\\ (F) T)) 4711 0))))
(both (pipe) (pipe))
0
EOF
(cd "$D" && HOME=$D MNML_SCRIPT_PATH=$R/share/mnml timeout 10 $R/_build/bin/mnml -d m.l </dev/null 2>/dev/null) | grep -q 4711
""")
S("c07-rem-nephew", "C07", [("lib/core/tree.c", "        if (!IS_COLORED(LEFT(w))) {\n          CLR_COLOR(RIGHT(w));", "        if (!IS_COLORED(LEFT(w)) && IS_NULL(LEFT(w))) {\n          CLR_COLOR(RIGHT(w));")],
  "a removal on the right whose fix-up has moved up, so that the outer nephew is a black inner node", "the removal's last rotation is done without the preparing one and the black heights differ", c=r'''#include <mnml/lisp.h>
#include <mnml/slab.h>
#include <mnml/tree.h>
#include <mnml/utils.h>
#include <stdio.h>
#include <stdlib.h>
static int bad;
static int bh(atom_t n, int red) {
  if (IS_NULL(n)) return 1;
  int c = IS_COLORED(n) != 0;
  if (c && red) bad = 1;
  int l = bh(LEFT(n), c), r = bh(RIGHT(n), c);
  if (l != r) bad = 1;
  return l + !c;
}
int main() {
  unsigned s = 1;
  for (int round = 0; round < 300; round += 1) {
    lisp_t lisp = lisp_new(slab_new());
    atom_t root = lisp_make_nil(lisp);
    for (int i = 0; i < 40; i += 1) {
      char n[17] = { 0 };
      s = s * 1103515245u + 12345u;
      snprintf(n, 17, "k%03d", (int)((s >> 16) % 64));
      MAKE_SYMBOL_STATIC(k, n);
      root = lisp_tree_add(lisp, root, lisp_cons(lisp, lisp_make_symbol(lisp, k), lisp_make_number(lisp, i)));
    }
    for (int i = 0; i < 60; i += 1) {
      char n[17] = { 0 };
      s = s * 1103515245u + 12345u;
      snprintf(n, 17, "k%03d", (int)((s >> 16) % 64));
      MAKE_SYMBOL_STATIC(k, n);
      atom_t g = lisp_tree_get(lisp, root, k);
      int there = !IS_NULL(g); X(lisp, g);
      if (!there) continue;
      root = lisp_tree_rem(lisp, root, k);
      if (IS_NULL(root)) break;
      bh(root, 0);
      if (bad) { printf("unbalanced after a removal\\n"); return 1; }
    }
    X(lisp, root);
    slab_t sl = lisp->slab;
    lisp_delete(lisp);
    slab_delete(sl);
  }
  return 0;
}
''', sh=CSH)
S("c02-pattern-literal", "C02", [("lib/core/lisp.c", "    default: {\n      X(lisp, arg, val);\n      ret = closure;", "    default: {\n      if (!IS_NUMB(arg) || !IS_PAIR(val)) {\n        X(lisp, val);\n      }\n      X(lisp, arg);\n      ret = closure;")],
  "a literal in a pattern against a list value", "the value matched by a literal part of a pattern is never released", lisp="(def f (3 b) b)\n(printl (f '(1 2) 4))\n", out="4")
