// Containers, matchings, linear solvers and the PBQP solver against plain models.
#include "pbt.h"
#include <algorithm>
#include <cmath>
#include <deque>
#include <map>
#include <functional>
#include <memory>
#include <set>
extern "C" {
#include <libfirm/adt/pset.h>
#include <libfirm/adt/set.h>
#include <libfirm/adt/pmap.h>
#include <libfirm/adt/pqueue.h>
#include <libfirm/adt/bipartite.h>
#include <libfirm/adt/hungarian.h>
#include <libfirm/adt/gaussjordan.h>
#include <libfirm/adt/gaussseidel.h>
#include <libfirm/adt/array.h>
void *sh_bs_new(size_t n);
void sh_bs_free(void *b);
void sh_bs_set(void *b, size_t i);
void sh_bs_clear(void *b, size_t i);
void sh_bs_flip(void *b, size_t i);
int sh_bs_is_set(void *b, size_t i);
void sh_bs_flip_all(void *b);
void sh_bs_set_all(void *b);
void sh_bs_clear_all(void *b);
void sh_bs_copy(void *b, void *c);
size_t sh_bs_next_set(void *b, size_t i);
size_t sh_bs_next_clear(void *b, size_t i);
size_t sh_bs_prev_set(void *b, size_t i);
size_t sh_bs_prev_clear(void *b, size_t i);
size_t sh_bs_popcount(void *b);
int sh_bs_contains(void *b, void *c);
int sh_bs_intersect(void *b, void *c);
void sh_bs_minus1(void *b);
void sh_bs_mod_range(void *b, size_t f, size_t t, int s);
int sh_bs_empty(void *b);
void sh_bs_op(void *b, void *c, int op);
size_t sh_bs_list(void *b, int kind, size_t *out);
int sh_rbs_equal(void *b, void *c);
size_t sh_rbs_next(void *b, size_t i, int s);
void *sh_cp_new(unsigned (*h)(const void *), int (*c)(const void *, const void *), size_t n);
void sh_cp_del(void *s);
void *sh_cp_insert(void *s, void *o);
void sh_cp_remove(void *s, void *o);
void *sh_cp_find(void *s, void *o);
size_t sh_cp_size(void *s);
size_t sh_cp_list(void *s, void **out, int (*drop)(void *));
void *sh_pn_new(size_t n);
void sh_pn_del(void *s);
int sh_pn_insert(void *s, void *o);
void sh_pn_remove(void *s, void *o);
int sh_pn_contains(void *s, void *o);
size_t sh_pn_size(void *s);
size_t sh_pn_list(void *s, void **out, int (*drop)(void *));
void *sh_dq_new(void);
void sh_dq_del(void *d);
int sh_dq_empty(void *d);
void sh_dq_pushl(void *d, void *p);
void sh_dq_pushr(void *d, void *p);
void *sh_dq_popl(void *d);
void *sh_dq_popr(void *d);
size_t sh_dq_list(void *d, void **out);
void *sh_ls_head(void);
void *sh_ls_elem(int v);
void sh_ls_add(void *e, void *h, int tail);
void sh_ls_del(void *e, int init);
void sh_ls_move(void *e, void *h, int tail);
void sh_ls_splice(void *a, void *b);
int sh_ls_empty(void *h);
size_t sh_ls_list(void *h, int *out, int kind);
void sh_uf_init(int *d, size_t n);
int sh_uf_find(int *d, int e);
int sh_uf_union(int *d, int a, int b);
void *sh_ar_new(size_t n, int zero);
void *sh_ar_app(void *a, int v);
void *sh_ar_resize(void *a, size_t n);
void *sh_ar_setlen(void *a, size_t n);
void *sh_ar_extend(void *a, size_t n);
void *sh_ar_exto(void *a, size_t n);
void sh_ar_shrink(void *a, size_t n);
void *sh_ar_dup(void *a);
size_t sh_ar_len(void *a);
void sh_ar_del(void *a);
unsigned sh_popcount(unsigned x);
unsigned sh_nlz(unsigned x);
unsigned sh_ntz(unsigned x);
unsigned sh_log2_floor(unsigned x);
unsigned sh_log2_ceil(unsigned x);
unsigned sh_ceil_po2(unsigned x);
unsigned sh_floor_po2(unsigned x);
int sh_is_po2(unsigned x);
unsigned sh_round_up2(unsigned x, unsigned a);
void *sh_pb_new(unsigned n);
void sh_pb_free(void *p);
void sh_pb_node(void *p, unsigned i, unsigned n, const unsigned *c);
void sh_pb_edge(void *p, unsigned i, unsigned j, unsigned r, unsigned cc, const unsigned *c);
unsigned sh_pb_inf(void);
void sh_pb_solve(void *p, int how, unsigned n, const unsigned *order);
unsigned sh_pb_sol(void *p);
unsigned sh_pb_nsol(void *p, unsigned i);
}
using namespace pbt;
namespace {
typedef unsigned long long ull;
typedef std::vector<char> B;
const size_t NO = (size_t)-1;

std::string str(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string str(const char *f, ...)
{
	char b[400];
	va_list ap;
	va_start(ap, f);
	vsnprintf(b, sizeof b, f, ap);
	va_end(ap);
	return b;
}
// the history of operations, kept for the report
struct Hist {
	Ctx &c;
	std::string s;
	unsigned n = 0;
	explicit Hist(Ctx &c) : c(c) {}
	void op(const std::string &x) { ++n; if (s.size() < 4000) s += x + "\n"; c.sample = s; c.note(s); c.hash = mix(c.hash, hash_bytes(x.data(), x.size())); }
};

// ------------------------------------------------------------ bit sets
size_t pick_size(Tape &t)
{
	switch (t.weighted({3, 3, 2})) {
	case 0: return t.below(40);
	case 1: return 32 * t.below(5) + t.below(3);
	default: return t.below(200);
	}
}
void bitset_case(Ctx &c)
{
	Tape &t = c.t;
	Hist h(c);
	size_t n = pick_size(t);
	void *b[2] = {sh_bs_new(n), sh_bs_new(n)};
	B m[2] = {B(n, 0), B(n, 0)};
	h.op(str("two bit sets of %zu bits", n));
	unsigned ops = 3 + t.below(40);
	auto next = [&](const B &x, size_t p, char v) { for (size_t i = p; i < x.size(); ++i) if (x[i] == v) return i; return NO; };
	auto prev = [&](const B &x, size_t p, char v) { for (size_t i = p; i-- > 0;) if (x[i] == v) return i; return NO; };
	for (unsigned i = 0; i < ops; ++i) {
		SpanGuard sg(t);
		unsigned w = t.below(2), k = t.below(22);
		B &x = m[w], &y = m[!w];
		void *p = b[w], *q = b[!w];
		size_t pos = n ? t.below((uint32_t)n) : 0;
		if (n == 0 && k < 4) k = 4;
		switch (k) {
		case 0: h.op(str("set %u %zu", w, pos)); sh_bs_set(p, pos); x[pos] = 1; break;
		case 1: h.op(str("clear %u %zu", w, pos)); sh_bs_clear(p, pos); x[pos] = 0; break;
		case 2: h.op(str("flip %u %zu", w, pos)); sh_bs_flip(p, pos); x[pos] ^= 1; break;
		case 3: if (sh_bs_is_set(p, pos) != x[pos]) fail("bitset", "bit %zu reads %d", pos, !x[pos]); break;
		case 4: h.op(str("flip_all %u", w)); sh_bs_flip_all(p); for (char &z : x) z ^= 1; break;
		case 5: h.op(str("set_all %u", w)); sh_bs_set_all(p); for (char &z : x) z = 1; break;
		case 6: h.op(str("clear_all %u", w)); sh_bs_clear_all(p); for (char &z : x) z = 0; break;
		case 7: h.op(str("copy to %u", w)); sh_bs_copy(p, q); x = y; break;
		case 8: case 9: case 10: case 11: {
			h.op(str("op %u on %u", k - 8, w));
			sh_bs_op(p, q, (int)k - 8);
			for (size_t j = 0; j < n; ++j) x[j] = k == 8 ? x[j] & y[j] : k == 9 ? x[j] | y[j] : k == 10 ? (char)(x[j] & !y[j]) : (char)(x[j] ^ y[j]);
			break;
		}
		case 12: case 13: case 14: {
			size_t f = t.below((uint32_t)n + 1), e = t.below((uint32_t)n + 3);
			int v = t.below(2);
			if (f == n && e > n) e = n;
			h.op(str("range %u [%zu,%zu) = %d", w, f, e, v));
			sh_bs_mod_range(p, f, e, v);
			for (size_t j = std::min(f, e); j < std::min(n, std::max(f, e)); ++j) x[j] = (char)v;
			break;
		}
		case 15: {
			h.op(str("minus1 %u", w));
			sh_bs_minus1(p);
			bool borrow = true;
			for (size_t j = 0; j < n && borrow; ++j) { borrow = !x[j]; x[j] = !x[j]; }
			break;
		}
		case 16: {
			bool r = true;
			for (size_t j = 0; j < n; ++j) if (x[j] && !y[j]) r = false;
			if (!!sh_bs_contains(p, q) != r) fail("bitset", "contains answers %d", !r);
			break;
		}
		case 17: {
			bool r = false;
			for (size_t j = 0; j < n; ++j) if (x[j] && y[j]) r = true;
			if (!!sh_bs_intersect(p, q) != r) fail("bitset", "intersect answers %d", !r);
			if (!!sh_rbs_equal(p, q) != (x == y)) fail("bitset", "equality answers %d", x != y);
			break;
		}
		case 18: {
			size_t f = t.below((uint32_t)n + 1), g;
			if ((g = sh_bs_next_set(p, f)) != next(x, f, 1)) fail("bitset", "next set bit from %zu is %zd", f, (ssize_t)g);
			if ((g = sh_bs_next_clear(p, f)) != next(x, f, 0)) fail("bitset", "next clear bit from %zu is %zd", f, (ssize_t)g);
			if (f < n) {
				if ((g = sh_bs_prev_set(p, f)) != prev(x, f, 1)) fail("bitset", "previous set bit before %zu is %zd, should be %zd", f, (ssize_t)g, (ssize_t)prev(x, f, 1));
				if ((g = sh_bs_prev_clear(p, f)) != prev(x, f, 0)) fail("bitset", "previous clear bit before %zu is %zd, should be %zd", f, (ssize_t)g, (ssize_t)prev(x, f, 0));
				for (char v : {0, 1}) if (next(x, f, v) != NO && (g = sh_rbs_next(p, f, v)) != next(x, f, v)) fail("bitset", "next %d from %zu is %zu", v, f, g);
			}
			break;
		}
		default: {
			int kind = (int)t.below(4);
			std::vector<size_t> got(n + 1), want;
			if (kind >= 2 && n % 32 == 0) { c.label("reverse iteration over a multiple of 32 bits"); }
			size_t r = sh_bs_list(p, kind, got.data());
			got.resize(r);
			for (size_t j = 0; j < n; ++j) if (x[j] == !(kind & 1)) want.push_back(j);
			if (kind >= 2) std::reverse(want.begin(), want.end());
			if (got != want) fail("bitset", "iteration %d lists %zu bits, should list %zu", kind, got.size(), want.size());
		}
		}
		for (unsigned z = 0; z < 2; ++z) {
			size_t pc = 0;
			for (size_t j = 0; j < n; ++j) { pc += m[z][j]; if (!!sh_bs_is_set(b[z], j) != m[z][j]) fail("bitset", "bit %zu of set %u is %d", j, z, !m[z][j]); }
			if (sh_bs_popcount(b[z]) != pc) fail("bitset", "popcount %zu instead of %zu", sh_bs_popcount(b[z]), pc);
			if (!!sh_bs_empty(b[z]) != (pc == 0)) fail("bitset", "is_empty");
		}
	}
	sh_bs_free(b[0]);
	sh_bs_free(b[1]);
	// machine word helpers
	unsigned v = t.flip() ? t.raw32() : 1u << t.below(32);
	if (t.flip()) v += t.below(3) - 1;
	unsigned pc = 0, lz = 0, tz = 0;
	for (int j = 0; j < 32; ++j) pc += v >> j & 1;
	for (int j = 31; j >= 0 && !(v >> j & 1); --j) ++lz;
	for (int j = 0; j < 32 && !(v >> j & 1); ++j) ++tz;
	if (sh_popcount(v) != pc || sh_nlz(v) != lz || sh_ntz(v) != tz) fail("bitfiddle", "popcount/nlz/ntz(0x%x)", v);
	if (v) {
		if (sh_log2_floor(v) != 31 - lz) fail("bitfiddle", "log2_floor(0x%x)", v);
		unsigned l = 0;
		while (l < 32 && (1ull << l) < v) ++l;
		if (v > 1 && sh_log2_ceil(v) != l) fail("bitfiddle", "log2_ceil(0x%x) = %u", v, sh_log2_ceil(v));
		if (sh_floor_po2(v) != 1u << (31 - lz)) fail("bitfiddle", "floor_po2(0x%x)", v);
		if (v < 1u << 31 && v > 1 && sh_ceil_po2(v) != 1u << l) fail("bitfiddle", "ceil_po2(0x%x) = %u", v, sh_ceil_po2(v));
	}
	if (!!sh_is_po2(v) != (pc <= 1)) fail("bitfiddle", "is_po2_or_zero(0x%x)", v);
	unsigned a = 1u << t.below(16), s = v >> 4;
	if (sh_round_up2(s, a) != (s + a - 1) / a * a) fail("bitfiddle", "round_up2(%u, %u)", s, a);
	if (h.n >= 8 && n > 0) c.nontrivial();
}

// ------------------------------------------------------------ hash containers
struct Obj { int key, id; };
unsigned hmask;
unsigned ohash(const void *p) { return (unsigned)((const Obj *)p)->key * 2654435761u & hmask; }
int oeq(const void *a, const void *b) { return ((const Obj *)a)->key == ((const Obj *)b)->key; }
int pcmp(const void *a, const void *b) { return ((const Obj *)a)->key != ((const Obj *)b)->key; }
unsigned drop_mod;
int cp_drop(void *p) { return (unsigned)((Obj *)p)->key % drop_mod == 0; }
int pn_drop(void *p) { return (uintptr_t)p / 8 % drop_mod == 0; }

void cpset_case(Ctx &c)
{
	Tape &t = c.t;
	Hist h(c);
	hmask = t.weighted({3, 1, 1}) == 0 ? ~0u : t.flip() ? 3u : 0xff0u;
	size_t init = t.flip() ? t.below(40) : 0;
	h.op(str("new cpset (%zu), hash mask %x", init, hmask));
	void *s = sh_cp_new(ohash, oeq, init);
	std::map<int, Obj *> m;
	std::vector<std::unique_ptr<Obj>> store;
	unsigned ops = 5 + t.below(120), range = 4 + t.below(60);
	for (unsigned i = 0; i < ops; ++i) {
		SpanGuard sg(t);
		Obj k{(int)t.below(range), 0};
		switch (t.weighted({5, 3, 3, 1, 1})) {
		case 0: {
			store.push_back(std::make_unique<Obj>(Obj{k.key, (int)i}));
			Obj *o = store.back().get(), *r = (Obj *)sh_cp_insert(s, o);
			h.op(str("insert %d", k.key));
			auto in = m.emplace(k.key, o);
			if (r != in.first->second) fail("cpset", "insert %d returned another object", k.key);
			break;
		}
		case 1: h.op(str("remove %d", k.key)); sh_cp_remove(s, &k); m.erase(k.key); break;
		case 2: {
			Obj *r = (Obj *)sh_cp_find(s, &k);
			auto it = m.find(k.key);
			if (r != (it == m.end() ? nullptr : it->second)) fail("cpset", "find %d", k.key);
			break;
		}
		case 3: case 4: {
			std::vector<void *> out(m.size() + 8);
			bool drop = t.flip();
			drop_mod = 2 + t.below(3);
			h.op(str("iterate%s", drop ? " and remove some" : ""));
			size_t n = sh_cp_list(s, out.data(), drop ? cp_drop : nullptr);
			out.resize(n);
			std::set<void *> got(out.begin(), out.end()), want;
			for (auto &e : m) want.insert(e.second);
			if (got != want || n != want.size()) fail("cpset", "iteration lists %zu elements, should list %zu", n, want.size());
			if (drop) for (auto it = m.begin(); it != m.end();) { if (cp_drop(it->second)) it = m.erase(it); else ++it; }
			break;
		}
		}
		if (sh_cp_size(s) != m.size()) fail("cpset", "size is %zu, should be %zu", sh_cp_size(s), m.size());
	}
	for (int k = 0; k < (int)range; ++k) { Obj o{k, 0}; if ((sh_cp_find(s, &o) != nullptr) != (m.count(k) != 0)) fail("cpset", "find %d at the end", k); }
	sh_cp_del(s);
	if (m.size() >= 2 && h.n >= 8) c.nontrivial();
}

void psetnew_case(Ctx &c)
{
	Tape &t = c.t;
	Hist h(c);
	size_t init = t.flip() ? t.below(40) : 0;
	h.op(str("new pset_new (%zu)", init));
	void *s = sh_pn_new(init);
	std::set<void *> m;
	unsigned ops = 5 + t.below(150), range = 4 + t.below(60), step = 1u << t.below(10);
	for (unsigned i = 0; i < ops; ++i) {
		SpanGuard sg(t);
		void *p = (void *)(uintptr_t)(8 * (ull)step * (1 + t.below(range)));
		switch (t.weighted({6, 4, 2, 1})) {
		case 0: {
			h.op(str("insert %p", p));
			bool isnew = m.insert(p).second;
			if (!!sh_pn_insert(s, p) != isnew) fail("pset_new", "insert %p says %d", p, !isnew);
			break;
		}
		case 1: h.op(str("remove %p", p)); sh_pn_remove(s, p); m.erase(p); break;
		case 2: if (!!sh_pn_contains(s, p) != (m.count(p) != 0)) fail("pset_new", "contains %p", p); break;
		default: {
			std::vector<void *> out(m.size() + 8);
			bool drop = t.flip();
			drop_mod = 2 + t.below(3);
			h.op(str("iterate%s", drop ? " and remove some" : ""));
			size_t n = sh_pn_list(s, out.data(), drop ? pn_drop : nullptr);
			out.resize(n);
			if (std::set<void *>(out.begin(), out.end()) != m || n != m.size()) fail("pset_new", "iteration lists %zu elements, should list %zu", n, m.size());
			if (drop) for (auto it = m.begin(); it != m.end();) { if (pn_drop(*it)) it = m.erase(it); else ++it; }
		}
		}
		if (sh_pn_size(s) != m.size()) fail("pset_new", "size is %zu, should be %zu", sh_pn_size(s), m.size());
	}
	for (unsigned k = 1; k <= range; ++k) { void *p = (void *)(uintptr_t)(8 * (ull)step * k); if (!!sh_pn_contains(s, p) != (m.count(p) != 0)) fail("pset_new", "contains %p at the end", p); }
	sh_pn_del(s);
	if (m.size() >= 2 && h.n >= 8) c.nontrivial();
}

int scmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void oldset_case(Ctx &c)
{
	Tape &t = c.t;
	Hist h(c);
	hmask = t.weighted({3, 1, 1}) == 0 ? ~0u : t.flip() ? 3u : 0xff0u;
	size_t slots = 1 + t.below(100);
	h.op(str("new pset and set (%zu), hash mask %x", slots, hmask));
	pset *ps = new_pset(pcmp, slots);
	set *ss  = new_set(scmp, slots);
	std::map<int, Obj *> m;
	std::map<std::string, char *> sm;
	std::vector<std::unique_ptr<Obj>> store;
	unsigned ops = 5 + t.below(200), range = 4 + t.below(2000);
	auto shash = [&](const std::string &x) { return (unsigned)hash_bytes(x.data(), x.size()) & hmask; };
	for (unsigned i = 0; i < ops; ++i) {
		SpanGuard sg(t);
		Obj k{(int)t.below(range), 0};
		switch (t.weighted({5, 2, 2, 1, 5, 2, 1})) {
		case 0: {
			unsigned many = t.chance(1, 6) ? 1 + t.below(300) : 1;
			h.op(str("pset insert %d..%u", k.key, k.key + many - 1));
			for (unsigned j = 0; j < many; ++j, ++k.key) {
				store.push_back(std::make_unique<Obj>(Obj{k.key, (int)i}));
				Obj *o = store.back().get();
				auto in = m.emplace(k.key, o);
				if (t.flip()) {
					pset_entry *e = (pset_hinsert)(ps, o, ohash(o));
					if (e->dptr != in.first->second || e->hash != ohash(o)) fail("pset", "hinsert %d", k.key);
				} else if ((pset_insert)(ps, o, ohash(o)) != in.first->second) fail("pset", "insert %d", k.key);
			}
			break;
		}
		case 1:
			if (m.empty()) break;
			{
				auto it = m.lower_bound(k.key);
				if (it == m.end()) it = m.begin();
				h.op(str("pset remove %d", it->first));
				Obj o{it->first, -1};
				if (pset_remove(ps, &o, ohash(&o)) != it->second) fail("pset", "remove %d", it->first);
				m.erase(it);
			}
			break;
		case 2: {
			auto it = m.find(k.key);
			if ((pset_find)(ps, &k, ohash(&k)) != (it == m.end() ? nullptr : it->second)) fail("pset", "find %d", k.key);
			break;
		}
		case 3: {
			std::set<void *> got, want;
			size_t n = 0, stop = t.flip() ? NO : t.below(5);
			h.op("pset iterate");
			for (void *e = (pset_first)(ps); e; e = (pset_next)(ps)) { got.insert(e); if (n++ == stop) { pset_break(ps); break; } }
			for (auto &e : m) want.insert(e.second);
			if (n <= stop && (got != want || n != want.size())) fail("pset", "iteration lists %zu elements, should list %zu", n, want.size());
			if (!std::includes(want.begin(), want.end(), got.begin(), got.end())) fail("pset", "iteration lists removed elements");
			break;
		}
		case 4: {
			std::string s(1 + t.below(20), (char)('a' + t.below(3)));
			s += str("%u", t.below(40));
			h.op("set insert " + s);
			int how = (int)t.below(3);
			unsigned hs = shash(s);
			char *p;
			auto it = sm.find(s);
			if (how == 0) p = (char *)(set_insert)(ss, s.data(), s.size(), hs);
			else {
				set_entry *e = how == 1 ? (set_hinsert)(ss, s.data(), s.size(), hs) : (set_entry *)_set_search(ss, s.data(), s.size(), hs, _set_hinsert0);
				p = (char *)(void *)e->dptr;
				if (e->hash != hs || e->size != s.size()) fail("set", "hinsert entry");
				if (how == 2 && it == sm.end() && p[s.size()] != 0) fail("set", "not terminated");
			}
			if (it != sm.end() && p != it->second) fail("set", "second copy of %s", s.c_str());
			if (std::string(p, s.size()) != s) fail("set", "wrong element");
			sm[s] = p;
			break;
		}
		case 5: {
			std::string s(1 + t.below(20), (char)('a' + t.below(3)));
			s += str("%u", t.below(40));
			auto it = sm.find(s);
			if ((set_find)(ss, s.data(), s.size(), shash(s)) != (it == sm.end() ? nullptr : it->second)) fail("set", "find %s", s.c_str());
			break;
		}
		default: {
			std::set<void *> got, want;
			size_t n = 0;
			for (void *e = (set_first)(ss); e; e = (set_next)(ss)) { got.insert(e); ++n; }
			for (auto &e : sm) want.insert(e.second);
			if (got != want || n != want.size()) fail("set", "iteration lists %zu elements, should list %zu", n, want.size());
		}
		}
		if (pset_count(ps) != m.size()) fail("pset", "count is %zu, should be %zu", pset_count(ps), m.size());
		if (set_count(ss) != sm.size()) fail("set", "count is %zu, should be %zu", set_count(ss), sm.size());
	}
	for (auto &e : m) if ((pset_find)(ps, e.second, ohash(e.second)) != e.second) fail("pset", "find %d at the end", e.first);
	for (auto &e : sm) if ((set_find)(ss, e.first.data(), e.first.size(), shash(e.first)) != e.second || std::string(e.second, e.first.size()) != e.first) fail("set", "find %s at the end", e.first.c_str());
	del_pset(ps);
	del_set(ss);
	if (m.size() >= 2 && h.n >= 8) c.nontrivial();
}

void map_case(Ctx &c)
{
	Tape &t = c.t;
	Hist h(c);
	pmap *p = t.flip() ? pmap_create() : pmap_create_ex(1 + t.below(64));
	pqueue_t *q = new_pqueue();
	std::map<void *, void *> m;
	std::multimap<int, uintptr_t> pq;
	uintptr_t ser = 0;
	unsigned ops = 5 + t.below(150);
	for (unsigned i = 0; i < ops; ++i) {
		SpanGuard sg(t);
		void *k = (void *)(uintptr_t)(8 * (1 + t.below(80))), *v = (void *)(uintptr_t)(1 + t.below(1000));
		switch (t.weighted({4, 3, 1, 5, 4})) {
		case 0: h.op(str("map %p = %p", k, v)); pmap_insert(p, k, v); m[k] = v; break;
		case 1: {
			auto it = m.find(k);
			void *want = it == m.end() ? nullptr : it->second;
			if ((pmap_get)(p, k) != want || !!pmap_contains(p, k) != (it != m.end())) fail("pmap", "lookup of %p", k);
			pmap_entry *e = pmap_find(p, k);
			if (it == m.end() ? e != nullptr : !e || e->key != k || e->value != want) fail("pmap", "find of %p", k);
			break;
		}
		case 2: {
			std::map<void *, void *> got;
			for (pmap_entry *e = pmap_first(p); e; e = pmap_next(p)) if (!got.emplace((void *)e->key, e->value).second) fail("pmap", "key listed twice");
			if (got != m) fail("pmap", "iteration");
			break;
		}
		case 3: {
			int pr = t.range(-20, 20);
			h.op(str("put %d", pr));
			pqueue_put(q, (void *)++ser, pr);
			pq.emplace(pr, ser);
			break;
		}
		default:
			if (pq.empty()) { if (!pqueue_empty(q)) fail("pqueue", "not empty"); break; }
			uintptr_t got = (uintptr_t)pqueue_pop_front(q);
			h.op("pop");
			int top = pq.rbegin()->first;
			bool ok = false;
			for (auto r = pq.equal_range(top); r.first != r.second; ++r.first) if (r.first->second == got) { pq.erase(r.first); ok = true; break; }
			if (!ok) fail("pqueue", "the popped element does not have the highest priority %d", top);
		}
		if (pqueue_length(q) != pq.size() || !!pqueue_empty(q) != pq.empty()) fail("pqueue", "length %zu", pqueue_length(q));
		if (pmap_count(p) != m.size()) fail("pmap", "count %zu", pmap_count(p));
	}
	pmap_destroy(p);
	del_pqueue(q);
	if (h.n >= 8) c.nontrivial();
}

void seq_case(Ctx &c)
{
	Tape &t = c.t;
	Hist h(c);
	void *d = sh_dq_new();
	std::deque<void *> m;
	unsigned ops = 5 + t.below(100);
	for (unsigned i = 0; i < ops; ++i) {
		SpanGuard sg(t);
		unsigned many = t.chance(1, 4) ? 1 + t.below(600) : 1 + t.below(3);
		unsigned k = t.below(5);
		h.op(str("deq %u x%u", k, many));
		for (unsigned j = 0; j < many; ++j) {
			void *p = (void *)(uintptr_t)(i * 1000 + j + 1);
			switch (k) {
			case 0: sh_dq_pushl(d, p); m.push_front(p); break;
			case 1: sh_dq_pushr(d, p); m.push_back(p); break;
			case 2: if (!m.empty()) { if (sh_dq_popl(d) != m.front()) fail("deq", "wrong left element"); m.pop_front(); } break;
			case 3: if (!m.empty()) { if (sh_dq_popr(d) != m.back()) fail("deq", "wrong right element"); m.pop_back(); } break;
			}
			if (!!sh_dq_empty(d) != m.empty()) fail("deq", "empty");
		}
		if (k == 4) {
			std::vector<void *> o(m.size() + 1);
			o.resize(sh_dq_list(d, o.data()));
			if (o != std::vector<void *>(m.begin(), m.end())) fail("deq", "iteration lists %zu elements of %zu", o.size(), m.size());
		}
	}
	sh_dq_del(d);
	// doubly linked lists
	void *hd[2] = {sh_ls_head(), sh_ls_head()};
	std::deque<int> lm[2];
	std::vector<void *> el;
	ops = t.below(60);
	for (unsigned i = 0; i < ops; ++i) {
		SpanGuard sg(t);
		unsigned w = t.below(2), k = t.below(5), tail = t.below(2);
		h.op(str("list %u op %u %u", w, k, tail));
		auto find = [&](int v) { for (unsigned z = 0; z < 2; ++z) { auto it = std::find(lm[z].begin(), lm[z].end(), v); if (it != lm[z].end()) lm[z].erase(it); } };
		switch (k) {
		case 0: case 1: {
			int v = (int)el.size();
			el.push_back(sh_ls_elem(v));
			sh_ls_add(el.back(), hd[w], (int)tail);
			if (tail) lm[w].push_back(v); else lm[w].push_front(v);
			break;
		}
		case 2: case 3:
			if (!lm[w].empty()) {
				int v = lm[w][t.below((uint32_t)lm[w].size())];
				find(v);
				if (k == 2) { sh_ls_del(el[(size_t)v], (int)t.below(2)); break; }
				unsigned x = t.below(2);
				sh_ls_move(el[(size_t)v], hd[x], (int)tail);
				if (tail) lm[x].push_back(v); else lm[x].push_front(v);
			}
			break;
		case 4:
			sh_ls_splice(hd[w], hd[!w]);
			lm[!w].insert(lm[!w].begin(), lm[w].begin(), lm[w].end());
			lm[w].clear();
			break;
		}
		for (unsigned z = 0; z < 2; ++z) {
			if (!!sh_ls_empty(hd[z]) != lm[z].empty()) fail("list", "empty");
			for (int kind = 0; kind < 3; ++kind) {
				std::vector<int> o(el.size() + 1);
				o.resize(sh_ls_list(hd[z], o.data(), kind));
				std::vector<int> want(lm[z].begin(), lm[z].end());
				if (kind == 1) std::reverse(want.begin(), want.end());
				if (o != want) fail("list", "iteration %d lists %zu elements of %zu", kind, o.size(), want.size());
			}
		}
	}
	for (void *e : el) free(e);
	free(hd[0]);
	free(hd[1]);
	// union find
	size_t n = 1 + t.below(40);
	std::vector<int> u(n), cls(n);
	sh_uf_init(u.data(), n);
	for (size_t i = 0; i < n; ++i) cls[i] = (int)i;
	ops = t.below(60);
	for (unsigned i = 0; i < ops; ++i) {
		int a = (int)t.below((uint32_t)n), b = (int)t.below((uint32_t)n);
		int ra = sh_uf_find(u.data(), a), rb = sh_uf_find(u.data(), b);
		if ((ra == rb) != (cls[(size_t)a] == cls[(size_t)b])) fail("unionfind", "%d and %d are%s in one set", a, b, ra == rb ? "" : " not");
		if (t.flip()) {
			int r = sh_uf_union(u.data(), ra, rb);
			if (r != ra && r != rb) fail("unionfind", "representative %d of %d and %d", r, ra, rb);
			int x = cls[(size_t)a], y = cls[(size_t)b];
			for (int &z : cls) if (z == x) z = y;
			if (sh_uf_find(u.data(), a) != r || sh_uf_find(u.data(), b) != r) fail("unionfind", "representative changed");
		}
	}
	// flexible arrays
	n = t.below(10);
	bool z = t.flip();
	void *ar = sh_ar_new(n, z);
	std::vector<int> am(n);
	if (!z) for (size_t i = 0; i < n; ++i) ((int *)ar)[i] = 0;
	ops = t.below(80);
	for (unsigned i = 0; i < ops; ++i) {
		SpanGuard sg(t);
		unsigned k = t.below(8);
		size_t old = am.size(), w = t.below(30);
		h.op(str("array op %u %zu", k, w));
		switch (k) {
		case 0: case 1: ar = sh_ar_app(ar, (int)i); am.push_back((int)i); break;
		case 2: ar = sh_ar_resize(ar, w); am.resize(w); break;
		case 3: ar = sh_ar_setlen(ar, w); am.resize(w); break;
		case 4: ar = sh_ar_extend(ar, w); am.resize(old + w); break;
		case 5: ar = sh_ar_exto(ar, w); am.resize(std::max(old, w)); if (sh_ar_len(ar) == w + 1) am.resize(w + 1); break; // the documentation says a length of n, the macro makes n a valid index
		case 6: { size_t s = std::min(old, w); sh_ar_shrink(ar, s); am.resize(s); break; }
		case 7: { void *x = sh_ar_dup(ar); sh_ar_del(ar); ar = x; break; }
		}
		if (sh_ar_len(ar) != am.size()) fail("array", "length %zu, should be %zu", sh_ar_len(ar), am.size());
		int *x = (int *)ar;
		for (size_t j = old; j < am.size(); ++j) if (k > 1) x[j] = am[j] = (int)(i * 7 + j);
		for (size_t j = 0; j < am.size(); ++j) if (x[j] != am[j]) fail("array", "element %zu lost", j);
	}
	sh_ar_del(ar);
	if (h.n >= 10) c.nontrivial();
}

// ------------------------------------------------------------ matchings
void bipartite_case(Ctx &c)
{
	Tape &t = c.t;
	Hist h(c);
	unsigned l = 1 + t.below(t.chance(1, 4) ? 40 : 9), r = 1 + t.below(t.chance(1, 4) ? 40 : 9), dens = 1 + t.below(6);
	bipartite_t *g = bipartite_new(l, r);
	std::vector<B> adj(l, B(r, 0));
	std::string s = str("%u x %u\n", l, r);
	unsigned edges = l * r / dens + 1;
	for (unsigned i = 0; i < edges; ++i) {
		unsigned a = t.below(l), b = t.below(r);
		bool rem = t.chance(1, 8);
		if (rem) bipartite_remv(g, a, b); else bipartite_add(g, a, b);
		adj[a][b] = !rem;
	}
	for (auto &x : adj) { for (char y : x) s += y ? '1' : '.'; s += '\n'; }
	h.op(s);
	for (unsigned a = 0; a < l; ++a) for (unsigned b = 0; b < r; ++b) if (!!bipartite_adj(g, a, b) != adj[a][b]) fail("bipartite", "adjacency of %u, %u", a, b);
	std::vector<int> m(l, 77), mr(r, -1);
	bipartite_matching(g, m.data());
	bipartite_free(g);
	unsigned size = 0;
	for (unsigned a = 0; a < l; ++a) {
		if (m[a] == -1) continue;
		if (m[a] < 0 || (unsigned)m[a] >= r || !adj[a][(size_t)m[a]]) fail("bipartite:valid", "%u is matched with %d along no edge", a, m[a]);
		if (mr[(size_t)m[a]] >= 0) fail("bipartite:valid", "%d is matched twice", m[a]);
		mr[(size_t)m[a]] = (int)a;
		++size;
	}
	// maximum size by augmenting paths
	std::vector<int> q(r, -1);
	unsigned best = 0;
	for (unsigned a = 0; a < l; ++a) {
		B seen(r, 0);
		std::function<bool(unsigned)> aug = [&](unsigned x) {
			for (unsigned b = 0; b < r; ++b) if (adj[x][b] && !seen[b]) { seen[b] = 1; if (q[b] < 0 || aug((unsigned)q[b])) { q[b] = (int)x; return true; } }
			return false;
		};
		best += aug(a);
	}
	if (size != best) fail("bipartite:maximum", "matching has %u edges, the largest has %u", size, best);
	if (best >= 3) c.nontrivial();
}
void hungarian_case(Ctx &c)
{
	Tape &t = c.t;
	Hist h(c);
	unsigned n = 1 + t.below(7), cols = t.chance(1, 4) ? 1 + t.below(n) : n;
	bool maxi = t.flip(), perfect = t.flip();
	hungarian_problem_t *p = hungarian_new(n, cols, perfect ? HUNGARIAN_MATCH_PERFECT : HUNGARIAN_MATCH_NORMAL);
	std::vector<unsigned> cost(n * n, 0);
	B hasl(n, 0), hasr(n, 0), set(n * n, 0);
	unsigned range = t.flip() ? 4 : 1000, maxc = 0;
	for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < cols; ++j) {
		if (t.chance(1, 5)) continue;
		unsigned w = t.below(range);
		hungarian_add(p, i, j, w);
		cost[i * n + j] = w;
		set[i * n + j]  = 1;
		maxc = std::max(maxc, w);
		hasl[i] = hasr[j] = 1;
		if (perfect && t.chance(1, 10)) { hungarian_remove(p, i, j); cost[i * n + j] = 0; }
	}
	std::string s = str("%ux%u %s %s\n", n, cols, maxi ? "max" : "min", perfect ? "perfect" : "normal");
	for (unsigned i = 0; i < n; ++i) { for (unsigned j = 0; j < n; ++j) s += str(set[i * n + j] ? "%u " : "(%u) ", cost[i * n + j]); s += '\n'; }
	h.op(s);
	hungarian_prepare_cost_matrix(p, maxi ? HUNGARIAN_MODE_MAXIMIZE_UTIL : HUNGARIAN_MODE_MINIMIZE_COST);
	if (maxi) for (unsigned &x : cost) x = maxc - x;
	std::vector<unsigned> a(n, 99);
	unsigned fin = 12345;
	int r = hungarian_solve(p, a.data(), &fin, 0);
	hungarian_free(p);
	if (r != 0) fail("hungarian", "solver gives up: %d", r);
	std::vector<unsigned> perm(n);
	for (unsigned i = 0; i < n; ++i) perm[i] = i;
	unsigned best = ~0u;
	do {
		unsigned w = 0;
		for (unsigned i = 0; i < n; ++i) w += cost[i * n + perm[i]];
		best = std::min(best, w);
	} while (std::next_permutation(perm.begin(), perm.end()));
	if (fin != best) fail("hungarian:optimal", "cost %u, the best assignment costs %u", fin, best);
	B used(n, 0);
	unsigned sum = 0, missing = 0;
	for (unsigned i = 0; i < n; ++i) {
		if (a[i] == ~0u) {
			if (perfect) fail("hungarian", "row %u unassigned", i);
			++missing;
			continue;
		}
		if (a[i] >= n || used[a[i]]) fail("hungarian", "no assignment");
		used[a[i]] = 1;
		sum += cost[i * n + a[i]];
		if (!perfect && (!hasl[i] || !hasr[a[i]])) fail("hungarian:normal", "row %u or column %u has no edge", i, a[i]);
	}
	if (!missing && sum != fin) fail("hungarian", "assignment costs %u, reported %u", sum, fin);
	if (n >= 3) c.nontrivial();
}

// ------------------------------------------------------------ linear systems
void gauss_case(Ctx &c)
{
	Tape &t = c.t;
	Hist h(c);
	unsigned n = 1 + t.below(7);
	bool ints = t.flip();
	std::vector<double> A(n * n), x(n), b(n, 0);
	for (double &v : A) v = t.chance(1, 4) ? 0 : ints ? t.range(-9, 9) : t.range(-9000, 9000) / 1000.;
	for (double &v : x) v = ints ? t.range(-9, 9) : t.range(-9000, 9000) / 1000.;
	// diagonally dominant unless singular systems are wanted
	bool dom = t.chance(2, 3);
	if (dom) for (unsigned i = 0; i < n; ++i) { double s = 1; for (unsigned j = 0; j < n; ++j) if (j != i) s += std::fabs(A[i * n + j]); A[i * n + i] = t.flip() ? s : -s; }
	if (dom) for (unsigned i = n; i-- > 1;) { unsigned j = t.below(i + 1); for (unsigned k = 0; k < n; ++k) std::swap(A[i * n + k], A[j * n + k]); }
	for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) b[i] += A[i * n + j] * x[j];
	std::string s = str("%u equations%s\n", n, dom ? "" : ", any");
	for (unsigned i = 0; i < n; ++i) { for (unsigned j = 0; j < n; ++j) s += str("%g ", A[i * n + j]); s += str("= %g\n", b[i]); }
	h.op(s);
	std::vector<double> M = A, v = b;
	int r = firm_gaussjordansolve(M.data(), v.data(), n);
	if (r != 0 && r != -1) fail("gaussjordan", "result %d", r);
	if (r == -1 && dom) fail("gaussjordan", "regular system rejected");
	if (r == 0) {
		bool fin = true;
		for (double q : v) if (!std::isfinite(q) || std::fabs(q) > 1e6) fin = false;
		if (dom && !fin) fail("gaussjordan", "no finite solution of a regular system");
		if (fin) for (unsigned i = 0; i < n; ++i) {
			double y = 0, sc = 1;
			for (unsigned j = 0; j < n; ++j) { y += A[i * n + j] * v[j]; sc += std::fabs(A[i * n + j] * v[j]); }
			if (std::fabs(y - b[i]) > 1e-6 * sc) fail("gaussjordan", "equation %u gives %g instead of %g", i, y, b[i]);
		}
		if (dom) c.label("regular systems");
	} else c.label("rejected systems");
	// sparse matrix
	gs_matrix_t *g = gs_new_matrix(n, t.below(4));
	std::map<std::pair<unsigned, unsigned>, double> m;
	unsigned ops = 3 + t.below(60);
	for (unsigned i = 0; i < ops; ++i) {
		unsigned rr = t.below(n), cc = t.below(n);
		double w = t.chance(1, 4) ? 0 : t.range(-9, 9);
		if (rr == cc && w == 0) w = 3;
		gs_matrix_set(g, rr, cc, w);
		m[{rr, cc}] = w;
		h.op(str("m[%u,%u] = %g", rr, cc, w));
		unsigned nz = 0;
		for (auto &e : m) nz += e.second != 0;
		if (gs_matrix_get_n_entries(g) != nz) fail("gaussseidel:entries", "%u entries, should be %u", gs_matrix_get_n_entries(g), nz);
	}
	for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
		double w = m.count({i, j}) ? m[{i, j}] : 0, q = gs_matrix_get(g, i, j);
		if (std::fabs(w - q) > 1e-9) fail("gaussseidel", "m[%u,%u] is %g, should be %g", i, j, q, w);
	}
	std::vector<double> it(n), mod;
	for (double &q : it) q = t.range(-9, 9);
	mod = it;
	double res = gs_matrix_gauss_seidel(g, it.data()), wr = 0;
	for (unsigned i = 0; i < n; ++i) {
		double sum = 0, d = m.count({i, i}) ? m[{i, i}] : 0;
		for (unsigned j = 0; j < n; ++j) if (j != i && m.count({i, j})) sum += m[{i, j}] * mod[j];
		double nw = d != 0 ? -sum / d : 0;
		wr += std::fabs(nw - mod[i]);
		mod[i] = nw;
	}
	for (unsigned i = 0; i < n; ++i) if (std::fabs(it[i] - mod[i]) > 1e-6 * (1 + std::fabs(mod[i]))) fail("gaussseidel", "step gives %g instead of %g", it[i], mod[i]);
	if (std::fabs(res - wr) > 1e-6 * (1 + wr)) fail("gaussseidel", "change %g instead of %g", res, wr);
	gs_delete_matrix(g);
	if (n >= 3) c.nontrivial();
}

// ------------------------------------------------------------ PBQP
void pbqp_case(Ctx &c)
{
	Tape &t = c.t;
	Hist h(c);
	const unsigned INF = sh_pb_inf();
	unsigned n = 1 + t.below(7), maxalt = 1 + t.below(4), shape = t.weighted({3, 2, 2, 2}), range = t.flip() ? 4 : 50, infp = t.below(3);
	auto add = [&](unsigned a, unsigned b) { return a == INF || b == INF || a + b < a ? INF : a + b; };
	// the late decision of the fourth solver never looks ahead: it needs instances
	// in which every partial choice can be completed
	int how = (int)t.below(4);
	bool late = how == 3;
	if (late) infp = 0;
	std::vector<std::vector<unsigned>> nc(n);
	std::map<std::pair<unsigned, unsigned>, std::vector<unsigned>> ec;
	auto cost = [&]() { return t.chance(infp, 6) ? INF : t.chance(1, 2) ? 0 : t.below(range); };
	void *p = sh_pb_new(n);
	bool same = t.chance(1, 3);
	std::string s = str("%u nodes\n", n);
	for (unsigned i = 0; i < n; ++i) {
		unsigned k = same ? maxalt : 1 + t.below(maxalt);
		for (unsigned j = 0; j < k; ++j) nc[i].push_back(cost());
		sh_pb_node(p, i, k, nc[i].data());
		s += str("node %u:", i);
		for (unsigned x : nc[i]) s += x == INF ? " inf" : str(" %u", x);
		s += "\n";
		if (t.chance(1, 8)) {
			std::vector<unsigned> more;
			for (unsigned j = 0; j < k; ++j) { more.push_back(t.below(range)); nc[i][j] = add(nc[i][j], more[j]); }
			sh_pb_node(p, i, k, more.data());
		}
	}
	auto edge = [&](unsigned i, unsigned j) {
		if (i == j) return;
		std::vector<unsigned> m(nc[i].size() * nc[j].size());
		unsigned style = t.weighted({3, 1, 1});
		if (late && style == 1) style = 2;
		for (size_t k = 0; k < m.size(); ++k) {
			bool diag = k / nc[j].size() == k % nc[j].size();
			m[k] = style == 0 ? cost() : style == 1 ? (diag ? INF : 0) : (diag ? 0 : 1 + t.below(range));
		}
		sh_pb_edge(p, i, j, (unsigned)nc[i].size(), (unsigned)nc[j].size(), m.data());
		s += str("edge %u-%u:", i, j);
		for (unsigned x : m) s += x == INF ? " inf" : str(" %u", x);
		s += "\n";
		auto &e = ec[{std::min(i, j), std::max(i, j)}];
		bool fresh = e.empty();
		e.resize(m.size(), 0);
		for (size_t a = 0; a < nc[i].size(); ++a) for (size_t b = 0; b < nc[j].size(); ++b) {
			unsigned v = m[a * nc[j].size() + b], &o = i < j ? e[a * nc[j].size() + b] : e[b * nc[i].size() + a];
			o = fresh ? v : add(o, v);
		}
	};
	unsigned ne = 0;
	bool sparse = false;
	switch (shape) {
	case 0: for (unsigned k = t.below(3 * n + 1); k-- > 0;) { edge(t.below(n), t.below(n)); ++ne; } break;
	case 1: sparse = true; for (unsigned i = 1; i < n; ++i) { edge(t.below(i), i); ++ne; } break; // a tree
	case 2: sparse = true; for (unsigned i = 0; i + 1 < n; ++i) { edge(i, i + 1); ++ne; } if (n > 2) edge(n - 1, 0); break; // a cycle
	default: for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < i; ++j) { edge(i, j); ++ne; } // a clique
	}
	std::vector<unsigned> order(n);
	for (unsigned i = 0; i < n; ++i) order[i] = i;
	for (unsigned i = n; i-- > 1;) std::swap(order[i], order[t.below(i + 1)]);
	static const char *const names[] = {"brute force", "heuristic", "heuristic along an order", "heuristic along an order, late decision"};
	s += names[how];
	h.op(s);
	auto total = [&](const std::vector<unsigned> &sel) {
		unsigned w = 0;
		for (unsigned i = 0; i < n; ++i) w = add(w, nc[i][sel[i]]);
		for (auto &e : ec) w = add(w, e.second[sel[e.first.first] * nc[e.first.second].size() + sel[e.first.second]]);
		return w;
	};
	std::vector<unsigned> sel(n, 0);
	unsigned best = INF;
	for (;;) {
		best = std::min(best, total(sel));
		unsigned i = 0;
		while (i < n && ++sel[i] == nc[i].size()) sel[i++] = 0;
		if (i == n) break;
	}
	// the solvers assume a solution of finite cost exists
	if (best == INF) { c.label("instances without a finite solution"); }
	sh_pb_solve(p, how, n, order.data());
	unsigned got = sh_pb_sol(p);
	for (unsigned i = 0; i < n; ++i) {
		sel[i] = sh_pb_nsol(p, i);
		if (best != INF && sel[i] >= nc[i].size()) fail("pbqp", "node %u has alternative %u", i, sel[i]);
		if (sel[i] >= nc[i].size()) sel[i] = 0;
	}
	sh_pb_free(p);
	unsigned real = total(sel);
	// the late solver's own cost leaves out the nodes it decides late
	if (late && !sparse) got = real;
	if (got < best) fail("pbqp:cost", "%s reports cost %u, the optimum is %u", names[how], got, best);
	if (best != INF) {
		if (real != got) fail("pbqp:cost", "%s reports cost %u, its selection costs %u", names[how], got, real);
		if (how == 0 && got != best) fail("pbqp:optimal", "brute force finds %u, the optimum is %u", got, best);
		if (sparse && (how == 1 || late) && got != best) fail("pbqp:optimal", "%s finds %u on a tree or cycle, the optimum is %u", names[how], got, best);
		if (n >= 3 && ne >= 3) c.nontrivial();
		c.label(names[how]);
	}
}

Reg p50(Prop{"P50", "at least 8 operations in the history", {
	{"bitset", bitset_case, 30000, 600000, 40, 10}, {"cpset", cpset_case, 20000, 400000, 40, 10}, {"pset_new", psetnew_case, 20000, 400000, 40, 10},
	{"set", oldset_case, 12000, 200000, 40, 10}, {"map and priority queue", map_case, 20000, 400000, 40, 10}, {"sequences", seq_case, 12000, 200000, 40, 10}}, {"elements are removed during iteration only through the iterator"}});
Reg p51(Prop{"P51", "matchings of at least 3 edges", {{"bipartite", bipartite_case, 200000, 2000000, 40, 10}, {"hungarian", hungarian_case, 200000, 1000000, 40, 10}}, {}});
Reg p52(Prop{"P52", "at least 3 equations", {{"linear systems", gauss_case, 300000, 2000000, 40, 10}}, {"regular systems are diagonally dominant up to row order"}});
Reg p53(Prop{"P53", "at least 3 nodes and 3 edges, a finite solution exists", {{"pbqp", pbqp_case, 300000, 2000000, 20, 10}}, {"optimality is demanded only where a solution of finite cost exists"}});
}
