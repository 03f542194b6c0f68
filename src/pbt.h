// A small choice-tape property-based testing engine: every random decision is
// an entry of a tape, cases run in forked children, failures shrink by editing
// the tape, and the shrunk tape is the replay file.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <string>
#include <vector>

namespace pbt {

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) {}
	uint64_t next()
	{
		uint64_t z = (s += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
};

inline uint64_t mix(uint64_t h, uint64_t v)
{
	h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull;
	return h ^ (h >> 32);
}
uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull);

struct Span { uint32_t b, e; };

struct Tape {
	std::vector<uint32_t> d;
	std::vector<Span>     spans;
	size_t                pos    = 0;
	bool                  replay = false;
	Rng                   rng;

	// uniform value in [0, bound); 0 is the simplest choice
	uint32_t below(uint32_t bound)
	{
		if (bound == 0)
			bound = 1;
		if (replay)
			return pos < d.size() ? d[pos++] % bound : (pos++, 0);
		uint32_t v = (uint32_t)(((rng.next() >> 32) * (uint64_t)bound) >> 32);
		d.push_back(v);
		++pos;
		return v;
	}
	int range(int a, int b) { return a + (int)below((uint32_t)(b - a + 1)); }
	uint32_t raw32()
	{
		if (replay)
			return pos < d.size() ? d[pos++] : (pos++, 0);
		uint32_t v = (uint32_t)(rng.next() >> 32);
		d.push_back(v);
		++pos;
		return v;
	}
	uint64_t raw64() { uint64_t h = raw32(); return h << 32 | raw32(); }
	// true with probability num/den; false is simplest
	bool chance(uint32_t num, uint32_t den) { return weighted({den - num, num}) == 1; }
	bool flip() { return below(2) == 1; }
	unsigned weighted(std::initializer_list<uint32_t> w)
	{
		if (replay)
			return below((uint32_t)w.size());
		uint64_t sum = 0;
		for (uint32_t x : w) sum += x;
		uint64_t r = ((rng.next() >> 32) * sum) >> 32;
		unsigned i = 0;
		for (uint32_t x : w) {
			if (r < x) break;
			r -= x;
			++i;
		}
		d.push_back(i);
		++pos;
		return i;
	}
	template <class T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t)v.size())]; }
};

struct SpanGuard {
	Tape &t; uint32_t b;
	explicit SpanGuard(Tape &t) : t(t), b((uint32_t)t.pos) {}
	~SpanGuard() { if (t.pos > b) t.spans.push_back({b, (uint32_t)t.pos}); }
};

struct Failure {
	std::string kind, msg;
};
// thrown when the case falls outside the property's domain
struct Discard {
	std::string why;
};

[[noreturn]] void fail(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void discard(const char *why);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

struct Ctx {
	Tape        t;
	bool        verbose = false;   // replay with a readable dump
	uint64_t    index   = 0;
	uint64_t    hash    = 0;       // identity of the case for distinctness
	bool        nontrivial_ = false;
	std::string sample;
	std::string scratch;           // private scratch directory of this worker
	const char *part = "";
	std::function<void(std::string)> note; // describes the case so far (kept if the process dies)

	void label(const char *name, uint64_t n = 1);
	void nontrivial() { nontrivial_ = true; }
	// while set, a crash of this process discards the case instead of failing it
	void excuse_crash(bool on) { if (excuse) *excuse = on; }
	volatile uint32_t *excuse = nullptr;
};

typedef void (*CaseFn)(Ctx &);

struct Part {
	const char *name;
	CaseFn      fn;
	uint64_t    quick, thorough; // number of cases
	int         batch;           // cases per forked child
	int         cpu_s;           // CPU seconds after which one case counts as a hang
};

struct Prop {
	const char       *id;
	const char       *rule;
	std::vector<Part> parts;
	std::vector<const char *> assumptions;
	void (*setup)() = nullptr; // once per process, before forking workers
};

void register_prop(Prop p);
struct Reg { explicit Reg(Prop p) { register_prop(std::move(p)); } };

int run_main(int argc, char **argv);
bool thorough_tier();

} // namespace pbt
