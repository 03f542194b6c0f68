// Target values: integer and floating-point constants against host arithmetic.
#include "pbt.h"
#include <cfenv>
#include <cmath>
#include <map>
extern "C" {
#include <libfirm/firm.h>
int tarval_snprintf(char *buf, size_t len, ir_tarval const *tv);
const char *ir_tarval_to_ascii(char *buf, size_t len, ir_tarval const *tv);
ir_tarval *ir_tarval_from_ascii(const char *buf, ir_mode *mode);
bool tarval_is_minus_null(ir_tarval const *tv);
bool tarval_is_minus_one(ir_tarval const *tv);
unsigned get_tarval_magnitude(ir_tarval const *tv);
bool tarval_in_range(ir_tarval const *min, ir_tarval const *val, ir_tarval const *max);
}
using namespace pbt;
typedef unsigned __int128 u128;
typedef __int128 s128;

static std::string hex(u128 v) { return strf("0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); }

// ---------------------------------------------------------------- integers
struct IM {
	unsigned bits; bool sgn; unsigned mod; ir_mode *m;
	u128 mask() const { return bits == 128 ? ~(u128)0 : ((u128)1 << bits) - 1; }
	// canonical value: bit pattern within the mode
	u128 canon(u128 v) const { return v & mask(); }
	bool neg(u128 v) const { return sgn && (v >> (bits - 1) & 1); }
	s128 sval(u128 v) const { return neg(v) ? (s128)(v | ~mask()) : (s128)v; }
};
static std::vector<IM> ims;
static IM pm; // pointers
static IM pm32, pm16; // narrow pointers

static void init_modes()
{
	if (!ims.empty()) return;
	ir_init_library();
	if (!ir_target_set("x86_64-linux-gnu")) abort();
	ir_target_init();
	struct { ir_mode *m; unsigned b; bool s; } std_[] = {
		{mode_Is, 32, true}, {mode_Iu, 32, false}, {mode_Ls, 64, true}, {mode_Lu, 64, false},
		{mode_Bs, 8, true}, {mode_Bu, 8, false}, {mode_Hs, 16, true}, {mode_Hu, 16, false}};
	for (auto &x : std_) ims.push_back({x.b, x.s, get_mode_modulo_shift(x.m), x.m});
	static const unsigned bs[] = {128, 24, 40, 96, 104, 56};
	for (unsigned b : bs) for (int s = 0; s < 2; ++s) {
		unsigned mod = b == 24 ? 0 : b == 40 ? 64 : b == 96 ? 128 : b;
		ims.push_back({b, s == 1, mod, new_int_mode(strf("T%u%c", b, s ? 's' : 'u').c_str(), b, s, mod)});
	}
	ims.push_back({32, true, 0, new_int_mode("I0s", 32, 1, 0)});
	ims.push_back({32, false, 256, new_int_mode("I256u", 32, 0, 256)});
	ims.push_back({8, false, 32, new_int_mode("B32u", 8, 0, 32)});
	pm = {get_mode_size_bits(mode_P), false, 0, mode_P};
	pm32 = {32, false, 32, new_reference_mode("P32t", 32, 32)};
	pm16 = {16, false, 16, new_reference_mode("P16t", 16, 16)};
}

static ir_tarval *mk(const IM &m, u128 v)
{
	unsigned char buf[16];
	v = m.canon(v);
	for (int i = 0; i < 16; ++i) buf[i] = (unsigned char)(v >> 8 * i);
	return new_tarval_from_bytes(buf, m.m);
}
static u128 get(const IM &m, ir_tarval *t)
{
	unsigned char buf[32];
	memset(buf, 0xcd, sizeof buf);
	tarval_to_bytes(buf, t);
	u128 v = 0;
	unsigned n = (m.bits + 7) / 8;
	for (unsigned i = 0; i < n; ++i) v |= (u128)buf[i] << 8 * i;
	if (buf[n] != 0xcd) fail("bytes", "tarval_to_bytes writes more than %u bytes", n);
	return v;
}
static u128 gen_int(Tape &t, const IM &m)
{
	switch (t.weighted({3, 2, 2, 2, 2, 2, 1})) {
	case 0: return m.canon((u128)(s128)t.range(0, 20) - 10);
	case 1: { u128 v = (u128)t.raw64() << 64; return m.canon(v | t.raw64()); }
	case 2: return m.canon((u128)1 << t.below(m.bits));
	case 3: return m.canon(((u128)1 << t.below(m.bits)) - 1 - t.below(2));
	case 4: { u128 v = ((u128)1 << t.below(m.bits)) - 1; return m.canon(v << t.below(m.bits)); }
	case 5: { // extreme values
		u128 top = (u128)1 << (m.bits - 1);
		return m.canon((t.flip() ? top : top - 1) + (u128)(s128)(t.range(0, 4) - 2));
	}
	default: return m.canon((u128)0 - t.raw32());
	}
}
#define CHECK(cond, kind, ...) do { if (!(cond)) fail(kind, __VA_ARGS__); } while (0)

static void expect(Ctx &c, const IM &m, ir_tarval *r, u128 want, const char *op, u128 a, u128 b)
{
	c.label(op);
	if (!tarval_is_constant(r)) fail(strf("int:%s", op).c_str(), "%s(%s, %s) in %s is no constant, expected %s", op, hex(a).c_str(), hex(b).c_str(), get_mode_name(m.m), hex(m.canon(want)).c_str());
	if (get_tarval_mode(r) != m.m) fail(strf("int:%s", op).c_str(), "%s yields mode %s instead of %s", op, get_mode_name(get_tarval_mode(r)), get_mode_name(m.m));
	u128 g = get(m, r);
	if (g != m.canon(want)) fail(strf("int:%s", op).c_str(), "%s(%s, %s) in %s is %s, expected %s", op, hex(a).c_str(), hex(b).c_str(), get_mode_name(m.m), hex(g).c_str(), hex(m.canon(want)).c_str());
	if (r != mk(m, want)) fail("int:unique", "result of %s is not the unique object of its value", op);
}
// does the exact integer result fit (only for bits <= 64)
static bool fits(const IM &m, s128 v)
{
	if (m.sgn) return v >= -((s128)1 << (m.bits - 1)) && v < (s128)1 << (m.bits - 1);
	return v >= 0 && v < (s128)1 << m.bits;
}

static void ints(Ctx &c)
{
	Tape &t = c.t;
	init_modes();
	const IM m = ims[t.below((uint32_t)ims.size())];
	std::string &s = c.sample;
	s = strf("mode %s (%u bits, %s, shift modulo %u):", get_mode_name(m.m), m.bits, m.sgn ? "signed" : "unsigned", m.mod);
	std::vector<std::pair<ir_tarval *, u128>> pool;
	for (int i = 0; i < 3; ++i) {
		u128 v = gen_int(t, m);
		if (m.bits <= 64 && t.chance(1, 3)) {
			ir_tarval *tv = new_tarval_from_long((long)m.sval(v), m.m);
			expect(c, m, tv, v, "from_long", v, 0);
			pool.push_back({tv, v});
		} else pool.push_back({mk(m, v), v});
		CHECK(get(m, pool.back().first) == v, "int:bytes", "%s read back as %s", hex(v).c_str(), hex(get(m, pool.back().first)).c_str());
	}
	bool wrap = tarval_get_wrap_on_overflow();
	if (t.chance(1, 4)) { wrap = false; tarval_set_wrap_on_overflow(0); } else { wrap = true; tarval_set_wrap_on_overflow(1); }
	bool small = m.bits <= 64; // exact results computable in 128 bits (products of 64-bit values included)
	if (!small) { wrap = true; tarval_set_wrap_on_overflow(1); }
	int n = 4 + (int)t.below(12);
	int done = 0;
	for (int i = 0; i < n; ++i) {
		SpanGuard sg(t);
		auto A = pool[t.below((uint32_t)pool.size())], B = pool[t.below((uint32_t)pool.size())];
		if (t.chance(1, 4)) { u128 v = gen_int(t, m); B = {mk(m, v), v}; }
		u128 a = A.second, b = B.second;
		s128 sa = m.sval(a), sb = m.sval(b);
		ir_tarval *ta = A.first, *tb = B.first, *r = nullptr;
		u128 w = 0;
		const char *op = "";
		bool ovf = false;
		unsigned k = t.below(30);
		switch (k) {
		case 0: op = "add"; r = tarval_add(ta, tb); w = a + b; ovf = small && !fits(m, sa + sb); break;
		case 1: op = "sub"; r = tarval_sub(ta, tb); w = a - b; ovf = small && !fits(m, sa - sb); break;
		case 2: {
			op = "mul"; r = tarval_mul(ta, tb); w = (u128)sa * (u128)sb;
			if (small) {
				// |sa|,|sb| < 2^64: compare in 128 bits unless both are huge unsigned values
				s128 p; ovf = __builtin_mul_overflow(sa, sb, &p) || !fits(m, p);
			}
			break;
		}
		case 3: op = "not"; r = tarval_not(ta); w = ~a; break;
		case 4: op = "neg"; r = tarval_neg(ta); w = 0 - a; ovf = small && !fits(m, -sa); break;
		case 5: op = "and"; r = tarval_and(ta, tb); w = a & b; break;
		case 6: op = "or"; r = tarval_or(ta, tb); w = a | b; break;
		case 7: op = "eor"; r = tarval_eor(ta, tb); w = a ^ b; break;
		case 8: op = "andnot"; r = tarval_andnot(ta, tb); w = a & ~b; break;
		case 9: op = "ornot"; r = tarval_ornot(ta, tb); w = a | ~b; break;
		case 10: case 11: case 12: {
			op = k == 10 ? "div" : k == 11 ? "mod" : "divmod";
			ir_tarval *mr = nullptr;
			r = k == 10 ? tarval_div(ta, tb) : k == 11 ? tarval_mod(ta, tb) : tarval_divmod(ta, tb, &mr);
			if (b == 0) {
				CHECK(!tarval_is_constant(r), "int:div0", "%s by zero is a constant", op);
				continue;
			}
			u128 q, e;
			if (m.sgn) {
				if (sb == -1) q = 0 - a, e = 0;
				else q = (u128)(sa / sb), e = (u128)(sa % sb);
			} else q = a / b, e = a % b;
			w = k == 11 ? e : q;
			if (m.sgn && sb == -1 && m.neg(a) && m.neg(m.canon(0 - a))) continue; // overflow: undefined
			if (k == 12) expect(c, m, mr, e, "divmod.mod", a, b);
			break;
		}
		case 13: case 14: case 15: case 16: case 17: case 18: {
			unsigned kind = (k - 13) % 3;
			unsigned amt = t.weighted({3, 1, 1}) == 0 ? t.below(m.bits) : t.flip() ? m.bits + t.below(4) : t.below(300);
			if (k < 16) { // constant of some mode
				const IM &sm = ims[t.flip() ? 1 : t.below((uint32_t)ims.size())];
				if (amt > 127) amt &= 127;
				ir_tarval *ts = mk(sm, amt);
				op = kind == 0 ? "shl" : kind == 1 ? "shr" : "shrs";
				r = kind == 0 ? tarval_shl(ta, ts) : kind == 1 ? tarval_shr(ta, ts) : tarval_shrs(ta, ts);
			} else {
				op = kind == 0 ? "shl_unsigned" : kind == 1 ? "shr_unsigned" : "shrs_unsigned";
				r = kind == 0 ? tarval_shl_unsigned(ta, amt) : kind == 1 ? tarval_shr_unsigned(ta, amt) : tarval_shrs_unsigned(ta, amt);
			}
			unsigned eff = m.mod ? amt % m.mod : amt;
			b = amt;
			bool top = a >> (m.bits - 1) & 1;
			u128 ext = top ? a | ~m.mask() : a;
			if (kind == 0) w = eff >= m.bits ? 0 : a << eff;
			else if (kind == 1) w = eff >= m.bits ? 0 : a >> eff;
			else w = eff >= m.bits ? (top ? ~(u128)0 : 0) : (u128)((s128)ext >> eff);
			if (kind == 2 && !m.sgn && eff < m.bits) w = (u128)((s128)ext >> eff);
			break;
		}
		case 19: {
			ir_relation rel = tarval_cmp(ta, tb);
			bool lt = m.sgn ? sa < sb : a < b;
			ir_relation want = a == b ? ir_relation_equal : lt ? ir_relation_less : ir_relation_greater;
			c.label("cmp");
			CHECK(rel == want, "int:cmp", "cmp(%s, %s) in %s is %d, expected %d", hex(a).c_str(), hex(b).c_str(), get_mode_name(m.m), rel, want);
			if (lt || a == b) {
				u128 x = gen_int(t, m);
				bool in = m.sgn ? sa <= m.sval(x) && m.sval(x) <= sb : a <= x && x <= b;
				CHECK(tarval_in_range(ta, mk(m, x), tb) == in, "int:range", "in_range(%s, %s, %s) in %s wrong", hex(a).c_str(), hex(x).c_str(), hex(b).c_str(), get_mode_name(m.m));
			}
			++done;
			continue;
		}
		case 20: {
			c.label("queries");
			CHECK(tarval_is_negative(ta) == (int)(m.sgn && sa < 0), "int:is_negative", "%s", hex(a).c_str());
			CHECK(tarval_is_null(ta) == (a == 0), "int:is_null", "%s", hex(a).c_str());
			CHECK(tarval_is_one(ta) == (a == 1), "int:is_one", "%s", hex(a).c_str());
			CHECK(tarval_is_all_one(ta) == (a == m.mask()), "int:is_all_one", "%s", hex(a).c_str());
			int pc = __builtin_popcountll((unsigned long long)a) + __builtin_popcountll((unsigned long long)(a >> 64));
			CHECK(get_tarval_popcount(ta) == pc, "int:popcount", "popcount(%s) in %s is %d", hex(a).c_str(), get_mode_name(m.m), get_tarval_popcount(ta));
			int lo = -1, hi = -1;
			for (int j = 0; j < 128; ++j) if (a >> j & 1) { if (lo < 0) lo = j; hi = j; }
			CHECK(get_tarval_lowest_bit(ta) == lo, "int:lowest_bit", "lowest_bit(%s) is %d", hex(a).c_str(), get_tarval_lowest_bit(ta));
			CHECK(get_tarval_highest_bit(ta) == hi, "int:highest_bit", "highest_bit(%s) is %d", hex(a).c_str(), get_tarval_highest_bit(ta));
			for (unsigned j = 0; j < m.bits / 8; ++j) CHECK(get_tarval_sub_bits(ta, j) == (unsigned char)(a >> 8 * j), "int:sub_bits", "byte %u of %s", j, hex(a).c_str());
			if (small) {
				CHECK(tarval_is_long(ta), "int:is_long", "%s in %s", hex(a).c_str(), get_mode_name(m.m));
				CHECK((uint64_t)get_tarval_long(ta) == (uint64_t)sa, "int:get_long", "get_tarval_long(%s) in %s is %lx", hex(a).c_str(), get_mode_name(m.m), get_tarval_long(ta));
			} else if (m.sgn) {
				bool is = sa >= INT64_MIN && sa <= INT64_MAX;
				CHECK(tarval_is_long(ta) == is, "int:is_long", "%s in %s", hex(a).c_str(), get_mode_name(m.m));
				if (is) CHECK(get_tarval_long(ta) == (long)sa, "int:get_long", "get_tarval_long(%s) in %s is %lx", hex(a).c_str(), get_mode_name(m.m), get_tarval_long(ta));
			}
			++done;
			continue;
		}
		case 21: {
			// minimum signed width: the value has to fit
			unsigned g = get_tarval_magnitude(ta);
			unsigned want = 1;
			bool top = a >> (m.bits - 1) & 1;
			for (unsigned j = 0; j < m.bits; ++j) if ((a >> j & 1) != (u128)top) want = j + 2;
			c.label("magnitude");
			CHECK(g == want, "int:magnitude", "magnitude(%s) in %s is %u, expected %u", hex(a).c_str(), get_mode_name(m.m), g, want);
			++done;
			continue;
		}
		case 22: case 23: {
			const IM d = t.chance(1, 6) && small ? pm : ims[t.below((uint32_t)ims.size())];
			r = tarval_convert_to(ta, d.m);
			w = (u128)sa;
			c.label("convert");
			if (!wrap) {
				// conversions of constants wrap or report bad, depending on the setting
				if (d.m == m.m) continue;
				bool ok = d.bits == 128 ? true : d.sgn ? sa >= -((s128)1 << (d.bits - 1)) && sa < (s128)1 << (d.bits - 1) : (u128)sa <= d.mask();
				if (!ok && !tarval_is_constant(r)) continue;
				if (!ok && d.m == mode_P) continue;
				if (!ok) fail("int:overflow", "convert(%s) from %s to %s does not report the overflow", hex(a).c_str(), get_mode_name(m.m), get_mode_name(d.m));
				if (d.bits == 128 && !d.sgn && sa < 0) continue;
			}
			expect(c, d, r, w, "convert", a, 0);
			if (d.bits == m.bits || d.bits > m.bits) {
				ir_tarval *back = tarval_convert_to(r, m.m);
				if (tarval_is_constant(back)) expect(c, m, back, a, "convert.back", a, 0);
			}
			if (wrap && t.chance(1, 3)) {
				// a pointer is an unsigned number
				const IM &p = t.flip() ? pm32 : t.chance(1, 3) ? pm : pm16;
				u128 pv = gen_int(t, p);
				c.label("convert pointer");
				expect(c, m, tarval_convert_to(mk(p, pv), m.m), pv, "convert.pointer", pv, 0);
			}
			++done;
			continue;
		}
		case 24: {
			std::vector<IM> same;
			for (auto &x : ims) if (x.bits == m.bits) same.push_back(x);
			const IM d = same[t.below((uint32_t)same.size())];
			expect(c, d, tarval_bitcast(ta, d.m), a, "bitcast", a, 0);
			++done;
			continue;
		}
		case 25: op = "abs"; if (m.neg(a) && m.neg(m.canon(0 - a))) continue; r = tarval_abs(ta); w = m.neg(a) ? 0 - a : a; break;
		case 26: { // decimal / hex / octal / binary strings
			static const unsigned bases[] = {10, 16, 8, 2};
			unsigned base = bases[t.below(4)];
			bool ng = m.sgn && sa < 0;
			u128 mag = ng ? (u128)-sa : (u128)a;
			std::string str;
			u128 x = mag;
			do { str.insert(str.begin(), (t.flip() ? "0123456789abcdef" : "0123456789ABCDEF")[(unsigned)(x % base)]); x /= base; } while (x);
			bool zeros = t.chance(1, 4);
			if (t.flip()) {
				if (zeros) str = "00" + str;
				r = new_integer_tarval_from_str(str.c_str(), str.size(), ng, (unsigned char)base, m.m);
			} else {
				const char *pre = base == 16 ? (t.flip() ? "0x" : "0X") : base == 2 ? "0b" : base == 8 ? "0" : "";
				str = std::string(ng ? "-" : t.chance(1, 4) ? "+" : "") + pre + str;
				r = new_tarval_from_str(str.c_str(), str.size(), m.m);
			}
			op = "from_str"; w = a;
			break;
		}
		case 27: {
			char buf[256], want[64];
			const char *as = ir_tarval_to_ascii(buf, sizeof buf, ta);
			ir_tarval *back = ir_tarval_from_ascii(as, m.m);
			if (wrap || (!m.sgn)) expect(c, m, back, a, "ascii", a, 0);
			tarval_snprintf(buf, sizeof buf, ta);
			if (a >> 64) snprintf(want, sizeof want, "0x%llX%016llX", (unsigned long long)(a >> 64), (unsigned long long)a);
			else snprintf(want, sizeof want, "0x%llX", (unsigned long long)a);
			CHECK(!strcasecmp(buf, want), "int:print", "%s in %s printed as %s", hex(a).c_str(), get_mode_name(m.m), buf);
			++done;
			continue;
		}
		case 28: {
			c.label("mode constants");
			u128 mn = m.sgn ? (u128)1 << (m.bits - 1) : 0, mx = m.sgn ? m.mask() >> 1 : m.mask();
			expect(c, m, get_mode_min(m.m), mn, "min", 0, 0);
			expect(c, m, get_mode_max(m.m), mx, "max", 0, 0);
			expect(c, m, get_mode_null(m.m), 0, "null", 0, 0);
			expect(c, m, get_mode_one(m.m), 1, "one", 0, 0);
			expect(c, m, get_mode_all_one(m.m), m.mask(), "all_one", 0, 0);
			continue;
		}
		default: { // pointers: P + int, P - P, P - int
			if (!wrap || m.bits != pm.bits || m.m != mode_Ls) continue;
			u128 pv = gen_int(t, pm);
			ir_tarval *p = mk(pm, pv);
			expect(c, pm, tarval_add(p, ta), pv + a, "ptradd", pv, a);
			expect(c, pm, tarval_sub(p, ta), pv - a, "ptrsub", pv, a);
			u128 pw = gen_int(t, pm);
			expect(c, m, tarval_sub(p, mk(pm, pw)), pv - pw, "ptrdiff", pv, pw);
			++done;
			continue;
		}
		}
		++done;
		s += strf(" %s(%s,%s)", op, hex(a).c_str(), hex(b).c_str());
		if (!wrap && ovf) {
			c.label("overflow");
			CHECK(!tarval_is_constant(r), "int:overflow", "%s(%s, %s) in %s overflows but is a constant", op, hex(a).c_str(), hex(b).c_str(), get_mode_name(m.m));
			continue;
		}
		expect(c, m, r, w, op, a, b);
		pool.push_back({r, m.canon(w)});
	}
	c.hash = hash_bytes(s.data(), s.size());
	if (done >= 3) c.nontrivial();
}

// ------------------------------------------------------------------ floats
struct FT {
	const char *name;
	unsigned    ebits, mbits;  // exponent and stored mantissa bits
	bool        x87;
	unsigned    bytes;
	ir_mode    *m = nullptr;
};
enum { FF, FD, FE, FQ, FH, NFT };
static FT fts[NFT] = {
	{"F", 8, 23, false, 4}, {"D", 11, 52, false, 8}, {"E", 15, 64, true, 10}, {"Q", 15, 112, false, 16}, {"H", 5, 10, false, 2},
};
typedef _Float16 h16;
typedef __float128 q128;
typedef long double ld80;

struct FV { unsigned char b[16]; };
template <class T> static T as(const FV &v) { T x; memset(&x, 0, sizeof x); memcpy(&x, v.b, sizeof x == 16 && std::is_same<T, ld80>::value ? 10 : sizeof x); return x; }
template <class T> static FV from(T x) { FV v; memset(&v, 0, sizeof v); memcpy(v.b, &x, std::is_same<T, ld80>::value ? 10 : sizeof x); return v; }

static bool bit(const FV &v, unsigned i) { return v.b[i / 8] >> (i % 8) & 1; }
static void setbit(FV &v, unsigned i, bool x) { v.b[i / 8] = (unsigned char)((v.b[i / 8] & ~(1u << i % 8)) | (unsigned)x << i % 8); }
static unsigned expo(const FT &f, const FV &v) { unsigned e = 0; for (unsigned i = 0; i < f.ebits; ++i) e |= (unsigned)bit(v, f.mbits + i) << i; return e; }
static bool is_nan(const FT &f, const FV &v)
{
	if (expo(f, v) != (1u << f.ebits) - 1) return false;
	for (unsigned i = 0; i < f.mbits - f.x87; ++i) if (bit(v, i)) return true;
	return false;
}
static bool is_zero(const FT &f, const FV &v)
{
	for (unsigned i = 0; i < f.mbits + f.ebits; ++i) if (bit(v, i)) return false;
	return true;
}
static bool is_inf(const FT &f, const FV &v) { return expo(f, v) == (1u << f.ebits) - 1 && !is_nan(f, v); }
static std::string fhex(const FT &f, const FV &v) { std::string s = "0x"; for (unsigned i = f.bytes; i-- > 0;) s += strf("%02x", v.b[i]); return s; }

static FV gen_float(Tape &t, const FT &f, const std::vector<FV> &pool)
{
	FV v;
	memset(&v, 0, sizeof v);
	unsigned maxe = (1u << f.ebits) - 1, bias = maxe >> 1;
	unsigned e;
	unsigned base = bias;
	if (!pool.empty() && t.chance(1, 3)) { base = expo(f, pool[t.below((uint32_t)pool.size())]); }
	switch (t.weighted({4, 2, 2, 1, 2, 2})) {
	case 0: e = (unsigned)((int)base + t.range(0, 8) - 4) & maxe; break;
	case 1: e = t.below(maxe + 1); break;
	case 2: e = t.below(3); break;              // denormals and the smallest normals
	case 3: e = maxe - t.below(3); break;
	case 4: e = (base + f.mbits + t.below(5) - 2) & maxe; break; // alignment shifts around the mantissa size
	default: e = (bias * 2 - base + t.below(5) - 2) & maxe; break; // products near 1 ... results near the limits
	}
	if (t.chance(1, 10)) e = t.flip() ? (bias / 2 + t.below(4)) : (bias + bias / 2 + t.below(4));
	for (unsigned i = 0; i < f.ebits; ++i) setbit(v, f.mbits + i, e >> i & 1);
	unsigned fb = f.mbits - f.x87;
	switch (t.weighted({2, 3, 2, 2, 2, 1})) {
	case 0: break;
	case 1: for (unsigned i = 0; i < fb; i += 32) { uint32_t r = t.raw32(); for (unsigned j = 0; j < 32 && i + j < fb; ++j) setbit(v, i + j, r >> j & 1); } break;
	case 2: { unsigned n = t.below(fb + 1); for (unsigned i = 0; i < n; ++i) setbit(v, i, true); break; }
	case 3: { unsigned n = t.below(fb + 1); for (unsigned i = n; i < fb; ++i) setbit(v, i, true); break; }
	case 4: setbit(v, t.below(fb), true); if (t.flip()) setbit(v, t.below(fb), true); break;
	default: for (unsigned i = 0; i < fb; i += 32) { uint32_t r = t.raw32() & t.raw32() & t.raw32(); for (unsigned j = 0; j < 32 && i + j < fb; ++j) setbit(v, i + j, r >> j & 1); } break;
	}
	if (f.x87) setbit(v, f.mbits - 1, e != 0);
	setbit(v, f.mbits + f.ebits, t.flip());
	return v;
}

template <class T> static int f_cmp(const FV &a, const FV &b)
{
	volatile T x = as<T>(a), y = as<T>(b);
	return x < y ? ir_relation_less : x > y ? ir_relation_greater : x == y ? ir_relation_equal : ir_relation_unordered;
}
template <class T> static FV f_op(int op, const FV &a, const FV &b, bool &inexact)
{
	volatile T x = as<T>(a), y = as<T>(b), r;
	feclearexcept(FE_ALL_EXCEPT);
	switch (op) {
	case 0: r = x + y; break;
	case 1: r = x - y; break;
	case 2: r = x * y; break;
	default: r = x / y; break;
	}
	inexact = fetestexcept(FE_INEXACT) != 0;
	return from<T>(r);
}
template <class S, class D> static FV f_conv(const FV &a) { volatile S x = as<S>(a); volatile D d = (D)x; return from<D>(d); }
typedef FV (*ConvFn)(const FV &);
template <class S> static ConvFn conv_to(int d)
{
	switch (d) {
	case FF: return f_conv<S, float>;
	case FD: return f_conv<S, double>;
	case FE: return f_conv<S, ld80>;
	case FQ: return f_conv<S, q128>;
	default: return f_conv<S, h16>;
	}
}
static FV fconv(int s, int d, const FV &v)
{
	switch (s) {
	case FF: return conv_to<float>(d)(v);
	case FD: return conv_to<double>(d)(v);
	case FE: return conv_to<ld80>(d)(v);
	case FQ: return conv_to<q128>(d)(v);
	default: return conv_to<h16>(d)(v);
	}
}
static FV fop(int f, int op, const FV &a, const FV &b, bool &ix)
{
	switch (f) {
	case FF: return f_op<float>(op, a, b, ix);
	case FD: return f_op<double>(op, a, b, ix);
	case FE: return f_op<ld80>(op, a, b, ix);
	case FQ: return f_op<q128>(op, a, b, ix);
	default: { FV r = f_op<h16>(op, a, b, ix); ix = false; return r; }
	}
}
static int fcmp(int f, const FV &a, const FV &b)
{
	switch (f) {
	case FF: return f_cmp<float>(a, b);
	case FD: return f_cmp<double>(a, b);
	case FE: return f_cmp<ld80>(a, b);
	case FQ: return f_cmp<q128>(a, b);
	default: return f_cmp<h16>(a, b);
	}
}
static void init_floats()
{
	if (fts[FF].m) return;
	init_modes();
	fts[FF].m = mode_F;
	fts[FD].m = mode_D;
	fts[FE].m = new_float_mode("E", irma_x86_extended_float, 15, 64, ir_overflow_indefinite);
	fts[FQ].m = new_float_mode("Q", irma_ieee754, 15, 112, ir_overflow_min_max);
	fts[FH].m = new_float_mode("H", irma_ieee754, 5, 10, ir_overflow_indefinite);
}
static ir_tarval *fmk(const FT &f, const FV &v) { return new_tarval_from_bytes(v.b, f.m); }
static FV fget(const FT &f, ir_tarval *t)
{
	unsigned char b[32];
	memset(b, 0xcd, sizeof b);
	tarval_to_bytes(b, t);
	if (b[f.bytes] != 0xcd) fail("float:bytes", "more than %u bytes written", f.bytes);
	FV v;
	memset(&v, 0, sizeof v);
	memcpy(v.b, b, f.bytes);
	return v;
}
static void fexpect(Ctx &c, int fi, ir_tarval *r, const FV &w, const std::string &what, const char *op)
{
	const FT &f = fts[fi];
	c.label(op);
	if (!tarval_is_constant(r) || get_tarval_mode(r) != f.m) fail(strf("float:%s", op).c_str(), "%s yields no %s constant", what.c_str(), f.name);
	FV g = fget(f, r);
	if (is_nan(f, w)) {
		if (!is_nan(f, g)) fail(strf("float:%s", op).c_str(), "%s is %s, expected a NaN", what.c_str(), fhex(f, g).c_str());
		return;
	}
	if (memcmp(g.b, w.b, f.bytes)) fail(strf("float:%s", op).c_str(), "%s in %s is %s, expected %s", what.c_str(), f.name, fhex(f, g).c_str(), fhex(f, w).c_str());
	if (r != fmk(f, w)) fail("float:unique", "%s is not the unique object of its value", what.c_str());
}

static void floats(Ctx &c)
{
	Tape &t = c.t;
	init_floats();
	static const int pickf[] = {FF, FD, FE, FQ, FH};
	int fi = pickf[t.weighted({4, 4, 3, 2, 2})];
	const FT &f = fts[fi];
	std::vector<FV> pv;
	std::vector<ir_tarval *> pt;
	std::string &s = c.sample;
	s = strf("mode %s:", f.name);
	int n = 3 + (int)t.below(6), done = 0;
	for (int i = 0; i < n; ++i) {
		SpanGuard sg(t);
		auto operand = [&](FV &v, ir_tarval *&tv) {
			if (!pv.empty() && t.chance(1, 3)) { unsigned k = t.below((uint32_t)pv.size()); v = pv[k]; tv = pt[k]; return; }
			v = gen_float(t, f, pv);
			tv = fmk(f, v);
			FV g = fget(f, tv);
			if (memcmp(g.b, v.b, f.bytes)) fail("float:bytes", "%s read back as %s in %s", fhex(f, v).c_str(), fhex(f, g).c_str(), f.name);
			pv.push_back(v); pt.push_back(tv);
		};
		FV a, b; ir_tarval *ta, *tb;
		operand(a, ta);
		operand(b, tb);
		unsigned op = t.below(7);
		static const char *const names[] = {"add", "sub", "mul", "div", "cmp", "unary", "queries"};
		std::string what = strf("%s(%s, %s)", names[op], fhex(f, a).c_str(), fhex(f, b).c_str());
		s += " " + what;
		if (op < 4) {
			bool ix = false;
			FV w = fop(fi, (int)op, a, b, ix);
			ir_tarval *r = op == 0 ? tarval_add(ta, tb) : op == 1 ? tarval_sub(ta, tb) : op == 2 ? tarval_mul(ta, tb) : tarval_div(ta, tb);
			bool exact = tarval_ieee754_get_exact();
			fexpect(c, fi, r, w, what, names[op]);
			if (exact && ix) fail("float:exact", "%s in %s is rounded but reported as exact", what.c_str(), f.name);
			if (!is_nan(f, w)) { pv.push_back(w); pt.push_back(r); }
		} else if (op == 4) {
			ir_relation r = tarval_cmp(ta, tb);
			c.label("cmp");
			if ((int)r != fcmp(fi, a, b)) fail("float:cmp", "%s in %s is %d", what.c_str(), f.name, (int)r);
		} else if (op == 5) {
			FV w = a;
			setbit(w, f.mbits + f.ebits, !bit(a, f.mbits + f.ebits));
			fexpect(c, fi, tarval_neg(ta), w, what, "neg");
			w = a;
			setbit(w, f.mbits + f.ebits, false);
			fexpect(c, fi, tarval_abs(ta), w, what, "abs");
		} else {
			c.label("queries");
			bool nan = is_nan(f, a), inf = is_inf(f, a), z = is_zero(f, a), sg2 = bit(a, f.mbits + f.ebits);
			CHECK(tarval_is_nan(ta) == nan, "float:is_nan", "%s", what.c_str());
			CHECK((bool)tarval_is_finite(ta) == (!nan && !inf), "float:is_finite", "%s", what.c_str());
			CHECK((bool)tarval_is_quiet_nan(ta) == (nan && bit(a, f.mbits - 1 - f.x87)), "float:is_quiet_nan", "%s", what.c_str());
			CHECK((bool)tarval_is_signaling_nan(ta) == (nan && !bit(a, f.mbits - 1 - f.x87)), "float:is_signaling_nan", "%s", what.c_str());
			if (!nan) CHECK((bool)tarval_is_negative(ta) == sg2, "float:is_negative", "%s", what.c_str());
			CHECK((bool)tarval_is_null(ta) == (z && !sg2), "float:is_null", "%s", what.c_str());
			if (!nan) CHECK(tarval_is_minus_null(ta) == (z && sg2), "float:is_minus_null", "%s", what.c_str());
			FV one = fconv(FF, fi, from<float>(1.0f)), mone = fconv(FF, fi, from<float>(-1.0f));
			CHECK((bool)tarval_is_one(ta) == !memcmp(a.b, one.b, f.bytes), "float:is_one", "%s", what.c_str());
			CHECK(tarval_is_minus_one(ta) == !memcmp(a.b, mone.b, f.bytes), "float:is_minus_one", "%s", what.c_str());
			unsigned e = expo(f, a), maxe = (1u << f.ebits) - 1;
			if (e != 0 && e != maxe) {
				CHECK(tarval_get_exponent(ta) == (int)e - (int)(maxe >> 1), "float:exponent", "%s: %d", what.c_str(), tarval_get_exponent(ta));
				bool zm = true;
				for (unsigned j = 0; j < f.mbits - f.x87; ++j) zm &= !bit(a, j);
				CHECK((bool)tarval_zero_mantissa(ta) == zm, "float:zero_mantissa", "%s", what.c_str());
			}
			for (unsigned j = 0; j < f.bytes; ++j) CHECK(get_tarval_sub_bits(ta, j) == a.b[j], "float:sub_bits", "byte %u of %s", j, what.c_str());
			char buf[256];
			const char *as_ = ir_tarval_to_ascii(buf, sizeof buf, ta);
			ir_tarval *back = ir_tarval_from_ascii(as_, f.m);
			CHECK(back == ta, "float:ascii", "%s not restored from %s", what.c_str(), as_);
		}
		++done;
	}
	c.hash = hash_bytes(s.data(), s.size());
	if (done >= 2) c.nontrivial();
}

// ------------------------------------------------------------- conversions
static void convs(Ctx &c)
{
	Tape &t = c.t;
	init_floats();
	int n = 2 + (int)t.below(6);
	std::string &s = c.sample;
	for (int i = 0; i < n; ++i) {
		SpanGuard sg(t);
		int fi = (int)t.below(NFT);
		const FT &f = fts[fi];
		switch (t.below(6)) {
		case 0: { // float -> float
			int di = (int)t.below(NFT);
			const FT &d = fts[di];
			FV a = gen_float(t, f, {});
			ir_tarval *ta = fmk(f, a);
			// conversions of signaling NaNs are not specified
			if (is_nan(f, a)) setbit(a, f.mbits - 1 - f.x87, true), ta = fmk(f, a);
			std::string what = strf("conv %s %s -> %s", f.name, fhex(f, a).c_str(), d.name);
			s += " " + what;
			ir_tarval *r = tarval_convert_to(ta, d.m);
			FV w = fconv(fi, di, a);
			fexpect(c, di, r, w, what, "fconv");
			if (!is_nan(f, a) && tarval_ieee754_can_conv_lossless(ta, d.m)) {
				c.label("lossless");
				FV back = fconv(di, fi, w);
				CHECK(!memcmp(back.b, a.b, f.bytes), "conv:lossless", "%s claimed lossless", what.c_str());
			}
			break;
		}
		case 1: { // int -> float
			IM m = ims[t.below((uint32_t)ims.size())];
			if (m.bits > 64) m = ims[2 + t.below(2)];
			u128 a = gen_int(t, m);
			s128 sa = m.sval(a);
			FV w;
			switch (fi) {
			case FF: { volatile float x = m.sgn ? (float)(int64_t)sa : (float)(uint64_t)a; w = from<float>(x); break; }
			case FD: { volatile double x = m.sgn ? (double)(int64_t)sa : (double)(uint64_t)a; w = from<double>(x); break; }
			case FE: { volatile ld80 x = m.sgn ? (ld80)(int64_t)sa : (ld80)(uint64_t)a; w = from<ld80>(x); break; }
			case FQ: { volatile q128 x = m.sgn ? (q128)(int64_t)sa : (q128)(uint64_t)a; w = from<q128>(x); break; }
			default: { volatile q128 x = m.sgn ? (q128)(int64_t)sa : (q128)(uint64_t)a; w = fconv(FQ, FH, from<q128>(x)); break; }
			}
			std::string what = strf("conv %s %s -> %s", get_mode_name(m.m), hex(a).c_str(), f.name);
			s += " " + what;
			fexpect(c, fi, tarval_convert_to(mk(m, a), f.m), w, what, "int2float");
			break;
		}
		case 2: { // float -> int
			IM m = ims[t.below((uint32_t)ims.size())];
			FV a;
			if (t.flip()) {
				u128 x = gen_int(t, ims[2]);
				volatile double dx = (double)(int64_t)x * (t.flip() ? 1 : 0.5);
				a = fconv(FD, fi, from<double>(dx));
			} else a = gen_float(t, f, {});
			if (is_nan(f, a)) break;
			FV qa = fconv(fi, FQ, a);
			q128 q = as<q128>(qa);
			std::string what = strf("conv %s %s -> %s", f.name, fhex(f, a).c_str(), get_mode_name(m.m));
			s += " " + what;
			q128 lim = 1;
			for (unsigned j = 0; j < m.bits - m.sgn; ++j) lim *= 2;
			// truncated value in range?
			bool over = m.bits < 128 ? q >= lim : q >= lim, under = m.sgn ? q <= -lim - (m.bits < 100 ? (q128)1 : (q128)0) && q < -lim : q <= -1;
			ir_tarval *r = tarval_convert_to(fmk(f, a), m.m);
			c.label(over || under ? "float2int overflow" : "float2int");
			u128 w;
			if (over) w = fi == FQ ? get(m, get_mode_max(m.m)) : get(m, get_mode_min(m.m));
			else if (under) w = get(m, get_mode_min(m.m));
			else if (q < 0) w = (u128)0 - (u128)(-q);
			else w = (u128)q;
			if (over && (fi == FF || fi == FD)) break; // set by the target, not fixed here
			expect(c, m, r, w, "float2int", 0, 0);
			break;
		}
		case 3: { // host long double in and out
			FV a = gen_float(t, fts[FE], {});
			if (is_nan(fts[FE], a)) break;
			ld80 x = as<ld80>(a);
			std::string what = strf("from_long_double %La -> %s", x, f.name);
			s += " " + what;
			ir_tarval *r = new_tarval_from_long_double(x, f.m);
			fexpect(c, fi, r, fconv(FE, fi, a), what, "from_long_double");
			FV back = fconv(fi, FE, fget(f, r));
			ld80 y = get_tarval_long_double(r);
			CHECK(!memcmp(&y, back.b, 10), "conv:to_long_double", "%s gives %La", what.c_str(), y);
			double d = (double)x;
			if (!std::isnan(d)) fexpect(c, fi, new_tarval_from_double(d, f.m), fconv(FD, fi, from<double>(d)), what, "from_double");
			break;
		}
		case 4: { // decimal strings of values that are exact in the mode
			if (fi == FQ || fi == FH) break;
			FV a = gen_float(t, f, {});
			if (is_nan(f, a) || is_inf(f, a)) break;
			char buf[256];
			ld80 x = as<ld80>(fconv(fi, FE, a));
			static const char *const fm[] = {"%.25Le", "%.25LE", "%+.25Le", "%La"};
			snprintf(buf, sizeof buf, fm[t.below(4)], x);
			s += strf(" from_str %s", buf);
			fexpect(c, fi, new_tarval_from_str(buf, strlen(buf), f.m), a, strf("from_str %s", buf), "float_from_str");
			tarval_snprintf(buf, sizeof buf, fmk(f, a));
			ld80 y = strtold(buf, nullptr);
			CHECK(!memcmp(&y, &x, 10), "conv:print", "%La printed as %s", x, buf);
			break;
		}
		default: { // bit patterns between modes of one size
			static const int szs[] = {FF, FD, FQ};
			int gi = szs[t.below(3)];
			const FT &g = fts[gi];
			std::vector<IM> same;
			for (auto &x : ims) if (x.bits == g.bytes * 8) same.push_back(x);
			const IM m = same[t.below((uint32_t)same.size())];
			u128 a;
			if (t.flip()) { FV v = gen_float(t, g, {}); memcpy(&a, v.b, 16); }
			else a = gen_int(t, m);
			FV v;
			memcpy(v.b, &a, 16);
			s += strf(" bitcast %s", hex(a).c_str());
			ir_tarval *r = tarval_bitcast(mk(m, a), g.m);
			fexpect(c, gi, r, v, "bitcast", "bitcast");
			expect(c, m, tarval_bitcast(fmk(g, v), m.m), a, "bitcast", a, 0);
			break;
		}
		}
	}
	c.hash = hash_bytes(s.data(), s.size());
	if (!s.empty()) c.nontrivial();
}

#define HOST "the host's integer and IEEE-754 arithmetic (gcc, libgcc's binary128/binary16 emulation) is right"
static Reg r0(Prop{"P20", "a case counts if at least three operations on integer constants were compared", {{"ints", ints, 1200000, 40000000, 8, 10}}, {HOST, "overflowing signed division and negative shift counts are outside the domain"}});
static Reg r1(Prop{"P21", "a case counts if at least two operations on floating-point constants were compared", {{"floats", floats, 1200000, 40000000, 8, 10}}, {HOST, "NaN results are compared as NaNs, not bit by bit"}});
static Reg r2(Prop{"P22", "a case counts if at least one conversion was compared", {{"convs", convs, 1200000, 40000000, 8, 10}}, {HOST, "conversions of signalling NaNs, and overflowing float-to-integer conversions of the target's own modes, are outside the domain"}});
