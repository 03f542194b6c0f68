// The internal containers are C-only headers: plain functions around them.
#include "bitset.h"
#include "raw_bitset.h"
#include "cpset.h"
#include "pset_new.h"
#include "pdeq.h"
#include "list.h"
#include "unionfind.h"
#include "array.h"
#include "util.h"
#include "obst.h"
#include "bitfiddle.h"
#include "kaps.h"
#include "matrix.h"
#include "vector.h"
#include "brute_force.h"
#include "heuristical.h"
#include "heuristical_co.h"
#include "heuristical_co_ld.h"
#include "optimal.h"
#include "bucket.h"
#include <stdlib.h>

// ---- bitset
void *sh_bs_new(size_t n) { return bitset_malloc(n); }
void sh_bs_free(void *b) { free(b); }
void sh_bs_set(void *b, size_t i) { bitset_set(b, i); }
void sh_bs_clear(void *b, size_t i) { bitset_clear(b, i); }
void sh_bs_flip(void *b, size_t i) { bitset_flip(b, i); }
int sh_bs_is_set(void *b, size_t i) { return bitset_is_set(b, i); }
void sh_bs_flip_all(void *b) { bitset_flip_all(b); }
void sh_bs_set_all(void *b) { bitset_set_all(b); }
void sh_bs_clear_all(void *b) { bitset_clear_all(b); }
void sh_bs_copy(void *b, void *c) { bitset_copy(b, c); }
size_t sh_bs_next_set(void *b, size_t i) { return bitset_next_set(b, i); }
size_t sh_bs_next_clear(void *b, size_t i) { return bitset_next_clear(b, i); }
size_t sh_bs_prev_set(void *b, size_t i) { return bitset_prev_set(b, i); }
size_t sh_bs_prev_clear(void *b, size_t i) { return bitset_prev_clear(b, i); }
size_t sh_bs_popcount(void *b) { return bitset_popcount(b); }
int sh_bs_contains(void *b, void *c) { return bitset_contains(b, c); }
int sh_bs_intersect(void *b, void *c) { return bitset_intersect(b, c); }
void sh_bs_minus1(void *b) { bitset_minus1(b); }
void sh_bs_mod_range(void *b, size_t f, size_t t, int s) { bitset_mod_range(b, f, t, s); }
int sh_bs_empty(void *b) { return bitset_is_empty(b); }
void sh_bs_op(void *b, void *c, int op)
{
	switch (op) {
	case 0: bitset_and(b, c); break;
	case 1: bitset_or(b, c); break;
	case 2: bitset_andnot(b, c); break;
	case 3: bitset_xor(b, c); break;
	}
}
size_t sh_bs_list(void *b, int kind, size_t *out)
{
	bitset_t *s = b;
	size_t n = 0;
	switch (kind) {
	case 0: { bitset_foreach(s, e) out[n++] = e; break; }
	case 1: { bitset_foreach_clear(s, e) out[n++] = e; break; }
	case 2: { bitset_foreach_rev(s, e) out[n++] = e; break; }
	case 3: { bitset_foreach_clear_rev(s, e) out[n++] = e; break; }
	}
	return n;
}
int sh_rbs_equal(void *b, void *c) { bitset_t *x = b, *y = c; return rbitsets_equal(x->data, y->data, x->size); }
size_t sh_rbs_next(void *b, size_t i, int s) { bitset_t *x = b; return rbitset_next(x->data, i, s); }

// ---- cpset, pset_new
void *sh_cp_new(unsigned (*h)(const void *), int (*c)(const void *, const void *), size_t n)
{
	cpset_t *s = malloc(sizeof(*s));
	if (n) cpset_init_size(s, h, c, n); else cpset_init(s, h, c);
	return s;
}
void sh_cp_del(void *s) { cpset_destroy(s); free(s); }
void *sh_cp_insert(void *s, void *o) { return cpset_insert(s, o); }
void sh_cp_remove(void *s, void *o) { cpset_remove(s, o); }
void *sh_cp_find(void *s, void *o) { return cpset_find(s, o); }
size_t sh_cp_size(void *s) { return cpset_size(s); }
size_t sh_cp_list(void *s, void **out, int (*drop)(void *))
{
	cpset_iterator_t it;
	cpset_iterator_init(&it, s);
	size_t n = 0;
	for (void *o; (o = cpset_iterator_next(&it)) != NULL;) { out[n++] = o; if (drop && drop(o)) cpset_remove_iterator(s, &it); }
	return n;
}
void *sh_pn_new(size_t n)
{
	pset_new_t *s = malloc(sizeof(*s));
	if (n) pset_new_init_size(s, n); else pset_new_init(s);
	return s;
}
void sh_pn_del(void *s) { pset_new_destroy(s); free(s); }
int sh_pn_insert(void *s, void *o) { return pset_new_insert(s, o); }
void sh_pn_remove(void *s, void *o) { pset_new_remove(s, o); }
int sh_pn_contains(void *s, void *o) { return pset_new_contains(s, o); }
size_t sh_pn_size(void *s) { return pset_new_size(s); }
size_t sh_pn_list(void *s, void **out, int (*drop)(void *))
{
	size_t n = 0;
	pset_new_iterator_t it;
	pset_new_iterator_init(&it, s);
	for (void *o; (o = pset_new_iterator_next(&it)) != NULL;) { out[n++] = o; if (drop && drop(o)) pset_new_remove_iterator(s, &it); }
	return n;
}

// ---- deq
void *sh_dq_new(void) { deq_t *d = malloc(sizeof(*d)); deq_init(d); return d; }
void sh_dq_del(void *d) { deq_free(d); free(d); }
int sh_dq_empty(void *d) { return deq_empty(d); }
void sh_dq_pushl(void *d, void *p) { deq_push_pointer_left(d, p); }
void sh_dq_pushr(void *d, void *p) { deq_push_pointer_right(d, p); }
void *sh_dq_popl(void *d) { return deq_pop_pointer_left(void, (deq_t *)d); }
void *sh_dq_popr(void *d) { return deq_pop_pointer_right(void, (deq_t *)d); }
size_t sh_dq_list(void *d, void **out) { size_t n = 0; deq_foreach_pointer((deq_t *)d, void, p) out[n++] = p; return n; }

// ---- lists
typedef struct L { struct list_head h; int v; } L;
void *sh_ls_head(void) { struct list_head *h = malloc(sizeof(*h)); INIT_LIST_HEAD(h); return h; }
void *sh_ls_elem(int v) { L *l = malloc(sizeof(*l)); INIT_LIST_HEAD(&l->h); l->v = v; return l; }
void sh_ls_add(void *e, void *h, int tail) { if (tail) list_add_tail(&((L *)e)->h, h); else list_add(&((L *)e)->h, h); }
void sh_ls_del(void *e, int init) { if (init) list_del_init(&((L *)e)->h); else list_del(&((L *)e)->h); }
void sh_ls_move(void *e, void *h, int tail) { if (tail) list_move_tail(&((L *)e)->h, h); else list_move(&((L *)e)->h, h); }
void sh_ls_splice(void *a, void *b) { list_splice_init(a, b); }
int sh_ls_empty(void *h) { return list_empty(h); }
size_t sh_ls_list(void *h, int *out, int kind)
{
	size_t n = 0;
	if (kind == 0) { list_for_each_entry(L, p, (struct list_head *)h, h) out[n++] = p->v; }
	else if (kind == 1) { list_for_each_entry_reverse(L, p, (struct list_head *)h, h) out[n++] = p->v; }
	else { list_for_each_entry_safe(L, p, q, (struct list_head *)h, h) out[n++] = p->v; }
	return n;
}

// ---- union find, arrays
void sh_uf_init(int *d, size_t n) { uf_init(d, n); }
int sh_uf_find(int *d, int e) { return uf_find(d, e); }
int sh_uf_union(int *d, int a, int b) { return uf_union(d, a, b); }
void *sh_ar_new(size_t n, int zero) { int *a = zero ? NEW_ARR_FZ(int, n) : NEW_ARR_F(int, n); return a; }
void *sh_ar_app(void *a, int v) { int *x = a; ARR_APP1(int, x, v); return x; }
void *sh_ar_resize(void *a, size_t n) { int *x = a; ARR_RESIZE(int, x, n); return x; }
void *sh_ar_setlen(void *a, size_t n) { int *x = a; ARR_SETLEN(int, x, n); return x; }
void *sh_ar_extend(void *a, size_t n) { int *x = a; ARR_EXTEND(int, x, n); return x; }
void *sh_ar_exto(void *a, size_t n) { int *x = a; ARR_EXTO(int, x, n); return x; }
void sh_ar_shrink(void *a, size_t n) { ARR_SHRINKLEN((int *)a, n); }
void *sh_ar_dup(void *a) { int *x = a; return DUP_ARR_F(int, x); }
size_t sh_ar_len(void *a) { return ARR_LEN((int *)a); }
void sh_ar_del(void *a) { DEL_ARR_F((int *)a); }

// ---- bit fiddling
unsigned sh_popcount(unsigned x) { return popcount(x); }
unsigned sh_nlz(unsigned x) { return nlz(x); }
unsigned sh_ntz(unsigned x) { return ntz(x); }
unsigned sh_log2_floor(unsigned x) { return log2_floor(x); }
unsigned sh_log2_ceil(unsigned x) { return log2_ceil(x); }
unsigned sh_ceil_po2(unsigned x) { return ceil_po2(x); }
int sh_is_po2(unsigned x) { return is_po2_or_zero(x); }
unsigned sh_floor_po2(unsigned x) { return floor_po2(x); }
unsigned sh_round_up2(unsigned x, unsigned a) { return round_up2(x, a); }
int sh_sext(unsigned x, unsigned b) { (void)b; return (int)x; }

// ---- PBQP
void *sh_pb_new(unsigned n) { return alloc_pbqp(n); }
void sh_pb_free(void *p) { free_pbqp(p); }
void sh_pb_node(void *p, unsigned i, unsigned n, const unsigned *c)
{
	vector_t *v = vector_alloc(p, n);
	for (unsigned k = 0; k < n; ++k) vector_set(v, k, c[k]);
	add_node_costs(p, i, v);
}
void sh_pb_edge(void *p, unsigned i, unsigned j, unsigned r, unsigned cc, const unsigned *c)
{
	pbqp_matrix_t *m = pbqp_matrix_alloc(p, r, cc);
	for (unsigned a = 0; a < r; ++a) for (unsigned b = 0; b < cc; ++b) pbqp_matrix_set(m, a, b, c[a * cc + b]);
	add_edge_costs(p, i, j, m);
}
unsigned sh_pb_inf(void) { return INF_COSTS; }
void sh_pb_solve(void *p, int how, unsigned n, const unsigned *order)
{
	deq_t d;
	deq_init(&d);
	for (unsigned i = 0; i < n; ++i) deq_push_pointer_right(&d, get_node(p, order[i]));
	switch (how) {
	case 0: solve_pbqp_brute_force(p); break;
	case 1: solve_pbqp_heuristical(p); break;
	case 2: solve_pbqp_heuristical_co(p, &d); break;
	case 3: solve_pbqp_heuristical_co_ld(p, &d); break;
	}
	deq_free(&d);
}
unsigned sh_pb_sol(void *p) { return get_solution(p); }
unsigned sh_pb_nsol(void *p, unsigned i) { return get_node_solution(p, i); }
