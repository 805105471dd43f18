/* Runs test cases against the real interpreter code: one forked child per case.
   stdin: "CASE\n" { "E <len>\n<bytes>\n" | "T <self test> <a> <b>\n" } ... "END\n"; stdout: "<index> <status> <length>\n<bytes>\n" per case */
#define _GNU_SOURCE
#include <mnml/debug.h>
#include <mnml/lexer.h>
#include <mnml/lisp.h>
#include <mnml/module.h>
#include <mnml/slab.h>
#include <mnml/tree.h>
#include <mnml/closure.h>
#include <mnml/utils.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static FILE* OUT;
static lisp_t L;
static atom_t PAIRS;
static void push(const lisp_t lisp, const atom_t cell) { PAIRS = lisp_append(lisp, PAIRS, cell); }

#define ARG1(c, a) atom_t a = CDR(CAR(c))
#define ARG2(c, a, b) atom_t b = CDR(CAR(c)); atom_t a = CDR(CAR(CDR(c)))
#define ARG3(c, a, b, d) atom_t d = CDR(CAR(c)); atom_t b = CDR(CAR(CDR(c))); atom_t a = CDR(CAR(CDR(CDR(c))))
static atom_t p_dup(const lisp_t l, const atom_t c) { ARG1(c, x); return lisp_dup(l, x); }
static atom_t p_conc(const lisp_t l, const atom_t c) { ARG2(c, x, y); return lisp_conc(l, lisp_dup(l, x), UP(y)); }
static atom_t p_append(const lisp_t l, const atom_t c) { ARG2(c, x, y); return lisp_append(l, lisp_dup(l, x), UP(y)); }
static atom_t p_len(const lisp_t l, const atom_t c) { ARG1(c, x); return lisp_make_number(l, (int64_t)lisp_len(x)); }
static atom_t p_equ(const lisp_t l, const atom_t c) { ARG2(c, x, y); return lisp_equ(x, y) ? lisp_make_true(l) : lisp_make_nil(l); }
static atom_t p_neq(const lisp_t l, const atom_t c) { ARG2(c, x, y); return lisp_neq(x, y) ? lisp_make_true(l) : lisp_make_nil(l); }
static atom_t p_sss(const lisp_t l, const atom_t c) { ARG2(c, x, y); return lisp_sss(l, lisp_dup(l, x), UP(y)); }
static atom_t p_merge(const lisp_t l, const atom_t c) { ARG2(c, x, y); return lisp_merge(l, lisp_dup(l, x), y); }
static atom_t p_mapply(const lisp_t l, const atom_t c) { ARG2(c, x, y); return lisp_may_apply(x, y) ? lisp_make_true(l) : lisp_make_nil(l); }
static atom_t p_isstr(const lisp_t l, const atom_t c) { ARG1(c, x); return lisp_is_string(x) ? lisp_make_true(l) : lisp_make_nil(l); }
static atom_t p_bind(const lisp_t l, const atom_t c) { ARG3(c, x, y, z); return lisp_bind(l, UP(x), UP(y), UP(z)); }
static atom_t p_lookup(const lisp_t l, const atom_t c) { ARG2(c, x, y); return lisp_lookup(l, x, y); }
static atom_t p_cstr(const lisp_t l, const atom_t c)
{
  ARG2(c, x, n);
  size_t len = (size_t)n->number;
  char* b = malloc(len + 1);
  memset(b, 'Z', len + 1);
  size_t k = lisp_make_cstring(x, b, len, 0);
  atom_t s = lisp_make_nil(l);
  for (size_t i = strlen(b); i > 0; i -= 1) s = lisp_cons(l, lisp_make_char(l, b[i - 1]), s);
  free(b);
  return lisp_cons(l, lisp_make_number(l, (int64_t)k), s);
}
static atom_t marked(const lisp_t l, const atom_t x)
{
  if (IS_PAIR(x)) return lisp_cons(l, marked(l, CAR(x)), marked(l, CDR(x)));
  if (IS_SYMB(x) && IS_TAIL_CALL(x)) { MAKE_SYMBOL_STATIC(b, "!"); return lisp_cons(l, lisp_make_symbol(l, b), UP(x)); }
  return UP(x);
}
static atom_t p_marks(const lisp_t l, const atom_t c) { ARG3(c, x, y, z); lisp_mark_tail_calls(l, x, y, z); return marked(l, z); }
static int fds0;
static int nfds()
{
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  while (readdir(d) != NULL) n += 1;
  closedir(d);
  return n;
}
static atom_t p_nfds(const lisp_t l, const atom_t c) { return lisp_make_number(l, nfds()); }
static atom_t p_chans(const lisp_t l, const atom_t c)
{
  atom_t a = lisp_make_number(l, (int64_t)lisp_len(l->ichan)), b = lisp_make_number(l, (int64_t)lisp_len(l->ochan));
  return lisp_cons(l, a, b);
}
static atom_t p_boom(const lisp_t l, const atom_t c) { return lisp_make_nil(l); }
/* a map of globals, driven as a history of operations on a separate tree: (%tree (K V) ...) with K alone for lookups is in T tree */
static void prim(const char* n, function_t f, int args)
{
  atom_t a = lisp_make_nil(L);
  const char* nm[] = { "A1", "A2", "A3" };
  for (int i = args; i > 0; i -= 1) { MAKE_SYMBOL_STATIC(s, nm[i - 1]); a = lisp_cons(L, lisp_make_symbol(L, s), a); }
  atom_t v = lisp_cons(L, a, lisp_cons(L, lisp_make_nil(L), lisp_make_number(L, (int64_t)(uintptr_t)f)));
  MAKE_SYMBOL_STATIC(s, n);
  L->globals = lisp_setq(L, L->globals, lisp_cons(L, lisp_make_symbol(L, s), v));
}

/* ------------------------------------------------------------------ self-checking histories */
static uint64_t RS;
static uint32_t rnd() { RS = RS * 6364136223846793005ULL + 1442695040888963407ULL; return (uint32_t)(RS >> 33); }
static void fail(const char* fmt, long a, long b) { fprintf(OUT, "FAIL "); fprintf(OUT, fmt, a, b); fprintf(OUT, "\n"); fflush(OUT); }

static int tcount, tbad, tblack;
static void tcheck(const atom_t x, const atom_t parent, const atom_t lo, const atom_t hi, int black)
{
  if (IS_NULL(x)) {
    if (tblack < 0) tblack = black;
    if (tblack != black) tbad = 5;
    return;
  }
  tcount += 1;
  if (IS_NULL(parent) ? !IS_NULL(PARENT(x)) : PARENT(x) != parent) tbad = 1;
  if (lo != NULL && lisp_symbol_compare(lo, &KEY(x)->symbol) >= 0) tbad = 2;
  if (hi != NULL && lisp_symbol_compare(KEY(x), &hi->symbol) >= 0) tbad = 3;
  if (IS_COLORED(x) && (IS_NULL(parent) || IS_COLORED(parent))) tbad = 4;
  tcheck(LEFT(x), x, lo, KEY(x), black + !IS_COLORED(x));
  tcheck(RIGHT(x), x, KEY(x), hi, black + !IS_COLORED(x));
}
static char tlast[17];
static int tvis, tord;
static bool tvisit(const atom_t k, const atom_t v)
{
  char b[17] = { 0 };
  memcpy(b, k->symbol.val, 16);
  if (tvis > 0 && memcmp(tlast, b, 16) >= 0) tord = 1;
  memcpy(tlast, b, 17);
  tvis += 1;
  return false;
}
#define NK 40
/* mode 0: insert, update, look up; mode 1: also remove */
static void t_tree(long seed, long mode)
{
  RS = (uint64_t)seed * 77777 + 12345;
  long val[NK];
  bool have[NK] = { false };
  char kn[NK][17];
  int nk = 3 + rnd() % (NK - 3);
  for (int i = 0; i < nk; i += 1) { memset(kn[i], 0, 17); if (rnd() % 2) snprintf(kn[i], 17, "k%d", i); else snprintf(kn[i], 17, "%c%c%d", (int)('a' + rnd() % 26), (int)(rnd() % 3 ? 0xe9 : '!'), i); if (rnd() % 5 == 0) { memset(kn[i], 'q', 16); kn[i][15] = 'A' + i; } }
  for (int i = 0; i < nk; i += 1) for (int j = 0; j < i; j += 1) if (memcmp(kn[i], kn[j], 16) == 0) { memset(kn[i], 0, 17); snprintf(kn[i], 17, "z_%d", i); }
  size_t base = L->slab->n_alloc - L->slab->n_free;
  atom_t root = lisp_make_nil(L);
  int ops = 20 + rnd() % 160, size = 0;
  for (int o = 0; o < ops; o += 1) {
    int k = rnd() % nk;
    MAKE_SYMBOL_STATIC(s, kn[k]);
    int op = rnd() % (mode ? 5 : 4);
    long v = (long)rnd();
    if (op <= 1) {
      atom_t kv = lisp_cons(L, lisp_make_symbol(L, s), lisp_make_number(L, v));
      root = lisp_tree_add(L, root, kv);
      if (!have[k]) size += 1;
      have[k] = true; val[k] = v;
    } else if (op == 2) {
      atom_t kv = lisp_cons(L, lisp_make_symbol(L, s), lisp_make_number(L, v));
      atom_t r = lisp_tree_upd(L, root, kv);
      if (have[k]) {
        if (IS_NULL(r) || !IS_PAIR(r) || CDR(r)->number != val[k]) fail("update of a present key does not give the previous value (operation %ld, key %ld)", o, k);
        val[k] = v;
        X(L, r);
      } else {
        if (!IS_NULL(r)) fail("update of an absent key does not give NIL (operation %ld, key %ld)", o, k);
        X(L, r); X(L, kv);
      }
    } else if (op == 3) {
      atom_t r = lisp_tree_get(L, root, s);
      if (have[k] ? (IS_NULL(r) || !IS_PAIR(r) || CDR(r)->number != val[k] || memcmp(CAR(r)->symbol.val, kn[k], 16) != 0) : !IS_NULL(r)) fail("lookup gives the wrong binding (operation %ld, key %ld)", o, k);
      X(L, r);
    } else if (have[k]) {
      atom_t old = root;
      root = lisp_tree_rem(L, root, s);
      have[k] = false; size -= 1;
    }
    tcount = tbad = 0; tblack = -1;
    tcheck(root, IS_NULL(root) ? NULL : (IS_NULL(PARENT(root)) ? PARENT(root) : root), NULL, NULL, 0);
    if (tbad) { fail("tree shape broken: kind %ld after operation %ld (1 parent link, 2/3 order, 4 red-red, 5 black height)", tbad, o); return; }
    if (tcount != size) { fail("tree holds %ld entries, %ld expected", tcount, size); return; }
    tvis = tord = 0;
    atom_t d = lisp_tree_dfs(L, root, tvisit);
    X(L, d);
    if (tvis != size || tord) { fail("traversal visits %ld entries, order broken %ld", tvis, tord); return; }
  }
  for (int k = 0; k < nk; k += 1) {
    MAKE_SYMBOL_STATIC(s, kn[k]);
    atom_t r = lisp_tree_get(L, root, s);
    if (have[k] ? (IS_NULL(r) || CDR(r)->number != val[k]) : !IS_NULL(r)) fail("final lookup gives the wrong binding (key %ld of %ld)", k, nk);
    X(L, r);
  }
  X(L, root);
  if (L->slab->n_alloc - L->slab->n_free != base) fail("dropping the tree leaves %ld cells (%ld before)", (long)(L->slab->n_alloc - L->slab->n_free), (long)base);
}
static void t_slab(long seed, long big)
{
  RS = (uint64_t)seed * 99991 + 7;
  slab_t s = slab_new();
  int max = big == 2 ? (int)(SLAB_SIZE / sizeof(struct atom)) : big ? 60000 : 3000, n = 0;
  atom_t* live = malloc(sizeof(atom_t) * max);
  size_t na = 0, nf = 0;
  char* base = (char*)s->entries;
  unsigned char* used = calloc(SLAB_SIZE / sizeof(struct atom) + 1, 1);
  int ops = big == 2 ? 2600000 : big ? 150000 : 9000;
  for (int o = 0; o < ops; o += 1) {
    int grow = big == 2 ? o < 2150000 : (o / (ops / 6)) % 2 == 0;
    if (n < max && (n == 0 || rnd() % 10 < (grow ? big == 2 ? 10u : 8u : 3u))) {
      atom_t c = slab_allocate(s);
      na += 1;
      static const char zero[sizeof(struct atom)] = { 0 };
      if (c == NULL || (char*)c < base || (char*)(c + 1) > base + SLAB_SIZE) { fail("cell outside the region (operation %ld of %ld)", o, ops); return; }
      if (memcmp(c, zero, sizeof(struct atom)) != 0) { fail("cell is not all zero (operation %ld of %ld)", o, ops); return; }
      size_t i = ((char*)c - base) / sizeof(struct atom);
      if (((char*)c - base) % sizeof(struct atom) || used[i]) { fail("live cell handed out again (operation %ld, index %ld)", o, (long)i); return; }
      used[i] = 1;
      memset(c, 0x11 + (int)(rnd() % 200), sizeof(struct atom));
      live[n++] = c;
    } else {
      int k = rnd() % n;
      used[((char*)live[k] - base) / sizeof(struct atom)] = 0;
      slab_deallocate(s, live[k]);
      nf += 1;
      live[k] = live[--n];
    }
    if (s->n_alloc != na || s->n_free != nf) { fail("counters differ from the cells in use (%ld, %ld)", (long)s->n_alloc, (long)s->n_free); return; }
  }
  /* every released cell becomes available again: fill up to the committed size without another growth */
  size_t pages = s->n_pages, cells = pages * PAGE_SIZE / sizeof(struct atom);
  while (s->n_alloc - s->n_free < cells) {
    atom_t c = slab_allocate(s);
    size_t i = ((char*)c - base) / sizeof(struct atom);
    if (used[i]) { fail("live cell handed out again while filling (%ld of %ld)", (long)i, (long)cells); return; }
    used[i] = 1;
    if (s->n_pages != pages) { fail("region grew with %ld cells in use of %ld", (long)(s->n_alloc - s->n_free), (long)cells); return; }
  }
  slab_delete(s);
  free(used); free(live);
}
extern int __asan_address_is_poisoned(void const volatile*);
static void t_closure(long seed, long mode)
{
  RS = (uint64_t)seed * 31337 + 3;
  closure_t cache = NULL, live[64], all[400];
  int nall = 0;
  long tag[64];
  int n = 0, N = 1 + rnd() % 6, freed = 0;
  for (int o = 0; o < 400; o += 1) {
    if (n < 64 && (n == 0 || rnd() % 5 < 3)) {
      closure_t par = n ? live[rnd() % n] : NULL, top = cache;
      closure_t c = lisp_closure_get(&cache, par, N);
      if (c == NULL || c->C != par) { fail("frame is not linked to the given parent (operation %ld)", o, 0); return; }
      for (int i = 0; i < n; i += 1) if (live[i] == c) { fail("frame in use handed out again (operation %ld)", o, 0); return; }
      { int i = 0; while (i < nall && all[i] != c) i += 1; if (i == nall) all[nall++] = c; }
      if (freed > 0) freed -= 1;
      else if (top != NULL) { fail("cache not empty although nothing is released (operation %ld)", o, 0); return; }
      if ((freed > 0) != (cache != NULL)) { fail("released frames lost (operation %ld, %ld left)", o, freed); return; }
      for (int i = 0; i < N; i += 1) c->V[i].number = o * 100 + i;
      tag[n] = o; live[n++] = c;
    } else {
      int k = rnd() % n;
      for (int i = 0; i < N; i += 1) if (live[k]->V[i].number != tag[k] * 100 + i) { fail("frame changed while in use (operation %ld, slot %ld)", o, i); return; }
      lisp_closure_put(&cache, live[k]);
      freed += 1;
      n -= 1; live[k] = live[n]; tag[k] = tag[n];
    }
    int m = 0;
    for (closure_t p = cache; p != NULL && m <= freed; p = p->C) m += 1;
    if (m != freed) { fail("cache holds %ld frames, %ld released", m, freed); return; }
  }
  lisp_closure_clear(&cache);
  for (int i = 0; i < nall; i += 1) {
    int lv = 0;
    for (int j = 0; j < n; j += 1) lv |= live[j] == all[i];
    if (lv && __asan_address_is_poisoned(all[i])) { fail("clearing freed a frame in use (%ld)", i, 0); return; }
    if (!lv && !__asan_address_is_poisoned(all[i])) { fail("clearing did not free a released frame (%ld)", i, 0); return; }
  }
  if (cache != NULL) fail("clearing leaves frames in the cache", 0, 0);
  for (int i = 0; i < n; i += 1) { for (int j = 0; j < N; j += 1) if (live[i]->V[j].number != tag[i] * 100 + j) fail("clearing touched a frame in use (%ld)", i, 0); free(live[i]); }
}

/* ------------------------------------------------------------------ running a case */
/* ---- stand-ins for the operating system (the unix and sys modules are linked against these names): each call is recorded and answered
   from a pseudo-random sequence; nothing real is touched */
#include <sys/socket.h>
#include <sys/select.h>
#include <netinet/in.h>
#include <netdb.h>
#include <time.h>
static uint64_t mk_s;
static unsigned mk_next() { mk_s = mk_s * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(mk_s >> 33) & 0x7fffffff; }
static int mk_ret(int zero)
{
  unsigned x = mk_next();
  if (x % 5 == 0) { errno = 1 + (int)((x >> 4) % 90); return -1; }
  return zero ? 0 : 3 + (int)((x >> 4) % 900);
}
int mk_pipe(int* fd) { fprintf(OUT, "<pipe>"); int r = mk_ret(1); if (r == 0) { fd[0] = 3 + (int)(mk_next() % 60); fd[1] = 3 + (int)(mk_next() % 60); } return r; }
pid_t mk_fork() { fprintf(OUT, "<fork>"); int r = mk_ret(0); return r > 600 ? 0 : r; }
pid_t mk_waitpid(pid_t p, int* st, int o)
{
  fprintf(OUT, "<waitpid %d %d>", p, o);
  int r = mk_ret(0);
  if (r >= 0) { unsigned x = mk_next(); *st = x % 3 == 0 ? 1 + (int)((x >> 4) % 30) : (int)((x >> 4) % 256) << 8; }
  return r;
}
int mk_unlink(const char* p) { fprintf(OUT, "<unlink %s>", p); return mk_ret(1); }
int mk_socket(int a, int b, int c) { fprintf(OUT, "<socket %d %d %d>", a, b, c); return mk_ret(0); }
int mk_setsockopt(int fd, int l, int o, const void* v, socklen_t n) { fprintf(OUT, "<setsockopt %d %d %d %d %d>", fd, l, o, *(const int*)v, (int)n); return mk_ret(1); }
int mk_bind(int fd, const struct sockaddr* a, socklen_t n)
{
  const struct sockaddr_in* i = (const struct sockaddr_in*)a;
  fprintf(OUT, "<bind %d %d %d %u %d>", fd, i->sin_family, ntohs(i->sin_port), ntohl(i->sin_addr.s_addr), (int)n);
  return mk_ret(1);
}
int mk_listen(int fd, int n) { fprintf(OUT, "<listen %d %d>", fd, n); return mk_ret(1); }
int mk_accept(int fd, struct sockaddr* a, socklen_t* n)
{
  fprintf(OUT, "<accept %d %d>", fd, (int)*n);
  int r = mk_ret(0);
  if (r >= 0) {
    struct sockaddr_in* i = (struct sockaddr_in*)a;
    i->sin_family = mk_next() % 6 == 0 ? AF_INET6 : AF_INET;
    i->sin_port = htons((uint16_t)(mk_next() % 65536));
    i->sin_addr.s_addr = htonl(mk_next());
  }
  return r;
}
static struct sockaddr_in mk_sa;
static struct addrinfo mk_ai;
int mk_getaddrinfo(const char* n, const char* s, const struct addrinfo* h, struct addrinfo** r)
{
  fprintf(OUT, "<getaddrinfo %s %s %d %d %d %d>", n, s, h->ai_flags, h->ai_family, h->ai_socktype, h->ai_protocol);
  if (mk_ret(1) < 0) { *r = (struct addrinfo*)8; return EAI_NONAME; }
  mk_ai.ai_addr = (struct sockaddr*)&mk_sa;
  mk_ai.ai_addrlen = 16 + mk_next() % 12;
  *r = &mk_ai;
  return 0;
}
void mk_freeaddrinfo(struct addrinfo* a) { fprintf(OUT, "<freeaddrinfo %d>", a == &mk_ai); }
int mk_connect(int fd, const struct sockaddr* a, socklen_t n) { fprintf(OUT, "<connect %d %d %d>", fd, a == (struct sockaddr*)&mk_sa, (int)n); return mk_ret(1); }
int mk_dup(int a) { fprintf(OUT, "<dup %d>", a); return mk_ret(0); }
int mk_dup2(int a, int b) { fprintf(OUT, "<dup2 %d %d>", a, b); return mk_ret(0); }
int mk_close(int a) { fprintf(OUT, "<close %d>", a); return mk_ret(1); }
static void mk_set(const fd_set* s) { fprintf(OUT, " ("); if (s) for (int k = 0; k < FD_SETSIZE; k += 1) if (FD_ISSET(k, s)) fprintf(OUT, "%d ", k); fprintf(OUT, ")"); }
int mk_select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t)
{
  fprintf(OUT, "<select %d", n); mk_set(r); mk_set(w); mk_set(e); fprintf(OUT, " %d>", t != NULL);
  int v = mk_ret(0);
  if (v >= 0) {
    for (int k = 0; k < FD_SETSIZE; k += 1) if (FD_ISSET(k, r) && mk_next() % 3 == 0) FD_CLR(k, r);
    for (int k = 0; k < FD_SETSIZE; k += 1) if (FD_ISSET(k, e) && mk_next() % 2 == 0) FD_CLR(k, e);
  }
  return v;
}
extern char** environ;
int mk_execve(const char* p, char* const* a, char* const* e)
{
  fprintf(OUT, "<execve %s", p);
  for (char* const* k = a; *k; k += 1) fprintf(OUT, " %s", *k);
  fprintf(OUT, " |");
  if (e == environ) fprintf(OUT, " environ");
  else for (char* const* k = e; *k; k += 1) fprintf(OUT, " %s", *k);
  fprintf(OUT, ">");
  errno = 1 + (int)(mk_next() % 90);
  return -1;
}
void mk_exit(int c) { fprintf(OUT, "<exit %d>CELLS 0 0 0\n", c); fflush(OUT); _exit(0); }
int mk_kill(pid_t p, int s) { fprintf(OUT, "<kill %d %d>", p, s); return 0; }
pid_t mk_getpid() { return 4242; }

static void child(char* text, size_t len, int fd)
{
  alarm(20);
  OUT = fdopen(fd, "w");
  PUSH_IO_CONTEXT(L, L->ochan, OUT, "/");
  char* end = text + len;
  atom_t nil = lisp_make_nil(L);
  while (text < end) {
    char* nl = memchr(text, '\n', end - text);
    *nl = 0;
    if (text[0] == 'E') {
      size_t n = strtoul(text + 2, NULL, 10);
      char* expr = malloc(n + 2);
      memcpy(expr, nl + 1, n);
      expr[n] = 0;
      PAIRS = lisp_make_nil(L);
      lexer_t lexer = lexer_create(L, push);
      lexer_parse(lexer, expr, n, true);
      lexer_destroy(lexer);
      free(expr);
      while (IS_PAIR(PAIRS)) {
        atom_t e = UP(CAR(PAIRS)), nx = UP(CDR(PAIRS));
        X(L, PAIRS);
        PAIRS = nx;
        fputc(1, OUT);
        atom_t r = lisp_eval(L, nil, e);
        fputc(2, OUT);
        fflush(OUT);
        lisp_prin(L, r, true);
        fputc(3, OUT);
        fflush(OUT);
        X(L, r);
      }
      X(L, PAIRS);
      text = nl + 1 + n + 1;
    } else if (text[0] == 'I') { /* input channel: I <path> <dir> */
      char p[1024], d[PATH_MAX];
      sscanf(text + 2, "%1023s %1023s", p, d);
      if (d[0] == '.') getcwd(d, sizeof d);
      FILE* fh = fopen(p, "r");
      PUSH_IO_CONTEXT(L, L->ichan, fh, d);
      text = nl + 1;
    } else if (text[0] == 'C') { /* a directory of its own */
      char t[] = "c-XXXXXX", d[PATH_MAX];
      chdir(mkdtemp(t));
      mkdir("sub", 0700);
      getcwd(d, sizeof d);
      setenv("PWD", d, 1);
      setenv("HOME", d, 1);
      int nw = open("/dev/null", O_WRONLY), nr = open("/dev/null", O_RDONLY);
      dup2(nw, 50); dup2(nr, 51); close(nw); close(nr);
      fds0 = nfds() + 1; /* the input channel comes on top */
      text = nl + 1;
    } else if (text[0] == 'F') { /* a file: F <name> <length> */
      char p[1024]; unsigned long n;
      sscanf(text + 2, "%1023s %lu", p, &n);
      FILE* f = fopen(p, "w");
      fwrite(nl + 1, 1, n, f);
      fclose(f);
      text = nl + 1 + n + 1;
    } else if (text[0] == 'O') { /* the content of a file */
      FILE* f = fopen(text + 2, "r");
      fprintf(OUT, "[%s:", text + 2);
      if (f) { int ch; while ((ch = fgetc(f)) != EOF) fputc(ch, OUT); fclose(f); }
      else fputc('-', OUT);
      fputc(']', OUT);
      text = nl + 1;
    } else if (text[0] == 'Z') { /* handles still open, depth of the channel stacks */
      fprintf(OUT, "<%d %d %d>", nfds() - fds0, (int)lisp_len(L->ichan), (int)lisp_len(L->ochan));
      text = nl + 1;
    } else if (text[0] == 'M') { /* seed of the stand-ins */
      mk_s = strtoul(text + 2, NULL, 10);
      text = nl + 1;
    } else if (text[0] == 'R') { /* forget the loaded modules */
      X(L, L->modules);
      L->modules = lisp_make_nil(L);
      text = nl + 1;
    } else if (text[0] == 'T') {
      char name[32]; long a = 0, b = 0;
      sscanf(text + 2, "%31s %ld %ld", name, &a, &b);
      if (!strcmp(name, "tree")) t_tree(a, b);
      else if (!strcmp(name, "slab")) t_slab(a, b);
      else if (!strcmp(name, "closure")) t_closure(a, b);
      fputs("ok\n", OUT);
      text = nl + 1;
    } else break;
  }
  X(L, nil);
  int idepth = (int)lisp_len(L->ichan), odepth = (int)lisp_len(L->ochan);
  fflush(OUT);
  module_fini(L);
  slab_t s = L->slab;
  lisp_delete(L);
  fprintf(OUT, "CELLS %ld %d %d\n", (long)(s->n_alloc - s->n_free), idepth, odepth);
  fflush(OUT);
  _exit(0);
}

int main(int argc, char** argv)
{
  signal(SIGPIPE, SIG_IGN);
  L = lisp_new(slab_new());
  if (!module_init(L)) return 3;
  char mods[] = "std logic math io sys unix";
  for (char* m = strtok(mods, " "); m; m = strtok(NULL, " ")) {
    MAKE_SYMBOL_STATIC(s, m);
    atom_t r = module_load(L, lisp_cons(L, lisp_make_symbol(L, s), lisp_make_true(L)));
    X(L, r);
  }
  prim("%dup", p_dup, 1); prim("%conc", p_conc, 2); prim("%append", p_append, 2); prim("%len", p_len, 1); prim("%equ", p_equ, 2); prim("%neq", p_neq, 2);
  prim("%sss", p_sss, 2); prim("%merge", p_merge, 2); prim("%mapply", p_mapply, 2); prim("%isstr", p_isstr, 1); prim("%bind", p_bind, 3);
  prim("%lookup", p_lookup, 2); prim("%cstr", p_cstr, 2); prim("%marks", p_marks, 3); prim("%nfds", p_nfds, 0); prim("%chans", p_chans, 0);
  char* line = NULL;
  size_t cap = 0;
  char* buf = NULL;
  size_t blen = 0, bcap = 0;
  int idx = -1;
  ssize_t k;
  while ((k = getline(&line, &cap, stdin)) > 0) {
    if (!strcmp(line, "CASE\n") || !strcmp(line, "END\n")) {
      if (idx >= 0) {
        int pp[2];
        if (pipe(pp) != 0) return 4;
        pid_t pid = fork();
        if (pid == 0) { close(pp[0]); setpgid(0, 0); child(buf, blen, pp[1]); }
        close(pp[1]);
        char* o = NULL; size_t ol = 0, oc = 0;
        for (;;) {
          if (oc - ol < 65536) { oc = oc * 2 + 131072; o = realloc(o, oc); }
          ssize_t r = read(pp[0], o + ol, 65536);
          if (r <= 0) break;
          ol += (size_t)r;
          if (ol > 8000000) { kill(pid, SIGKILL); break; }
        }
        close(pp[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        kill(-pid, SIGKILL);
        printf("%d %d %zu\n", idx, WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st), ol);
        fwrite(o, 1, ol, stdout);
        putchar('\n');
        fflush(stdout);
        free(o);
      }
      idx += 1;
      blen = 0;
      if (!strcmp(line, "END\n")) break;
      continue;
    }
    size_t extra = line[0] == 'E' ? strtoul(line + 2, NULL, 10) + 1 : line[0] == 'F' ? strtoul(strrchr(line, ' ') + 1, NULL, 10) + 1 : 0;
    while (bcap < blen + (size_t)k + extra + 1) { bcap = bcap * 2 + 4096; buf = realloc(buf, bcap); }
    memcpy(buf + blen, line, (size_t)k);
    blen += (size_t)k;
    if (extra) { if (fread(buf + blen, 1, extra, stdin) != extra) return 5; blen += extra; }
  }
  return 0;
}
