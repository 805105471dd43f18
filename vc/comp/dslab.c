/* one malloc per cell: the address sanitizer sees every use of a released cell */
#include <mnml/debug.h>
#include <mnml/slab.h>
#include <string.h>
slab_t slab_new() { slab_t s = (slab_t)calloc(1, sizeof(struct slab)); return s; }
void slab_delete(const slab_t s) { free(s); }
atom_t slab_allocate(const slab_t s) { s->n_alloc += 1; return (atom_t)calloc(1, sizeof(struct atom)); }
void slab_deallocate(const slab_t s, const atom_t c) { s->n_free += 1; free(c); }
#ifdef LISP_ENABLE_DEBUG
atom_t lisp_incref(const atom_t a, const char* const n) { (void)n; a->refs += 1; return a; }
atom_t lisp_decref(const atom_t a, const char* const n) { (void)n; a->refs -= 1; return a; }
void slab_collect(const slab_t s) { (void)s; }
#endif
