// Machine-arithmetic semantics shared by the AST evaluator and the IR
// interpreter.  Independent of libfirm: host integers and host IEEE doubles.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>

enum M : uint8_t { MBs, MBu, MHs, MHu, MIs, MIu, MLs, MLu, MF, MD, MP, Mb, Mvoid };
static const char *const mode_names[] = {"Bs", "Bu", "Hs", "Hu", "Is", "Iu", "Ls", "Lu", "F", "D", "P", "b", "void"};

struct Arch {
	unsigned ptr_bits   = 64;
	bool     big_endian = false;
	unsigned shift_min  = 32; // modulo_shift = max(bits, shift_min)
	bool     x87        = false; // float arithmetic in the 80-bit format, each result rounded to its own format
};

inline unsigned mbits(M m, const Arch &a)
{
	switch (m) {
	case MBs: case MBu: return 8;
	case MHs: case MHu: return 16;
	case MIs: case MIu: case MF: return 32;
	case MLs: case MLu: case MD: return 64;
	case MP: return a.ptr_bits;
	case Mb: return 1;
	default: return 0;
	}
}
inline bool msigned(M m) { return m == MBs || m == MHs || m == MIs || m == MLs; }
inline bool mint(M m) { return m <= MLu; }
inline bool mfloat(M m) { return m == MF || m == MD; }
inline M mode_of(unsigned bits, bool sign)
{
	switch (bits) {
	case 8: return sign ? MBs : MBu;
	case 16: return sign ? MHs : MHu;
	case 32: return sign ? MIs : MIu;
	default: return sign ? MLs : MLu;
	}
}

// canonical 64-bit image of a w-bit integer: sign- or zero-extended
inline uint64_t canon(uint64_t v, unsigned w, bool sign)
{
	if (w >= 64) return v;
	v &= (1ull << w) - 1;
	if (sign && (v >> (w - 1) & 1)) v |= ~0ull << w;
	return v;
}
inline float    u2f(uint64_t v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
inline uint64_t f2u(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
inline double   u2d(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
inline uint64_t d2u(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }

inline uint64_t nan_canon(uint64_t v, M m)
{
	if (m == MF && std::isnan(u2f(v))) return 0x7fc00000u;
	if (m == MD && std::isnan(u2d(v))) return 0x7ff8000000000000ull;
	return v;
}

enum Op : uint8_t {
	OAdd, OSub, OMul, OMulh, OAnd, OOr, OEor, OShl, OShr, OShrs, ODiv, OMod, // binary
	OMinus, ONot,                                                            // unary
	OConv, OBitcast, OCmp, OMux, OConst, OLocal, OLoad,
	OAddrG, OAddrF, OSel, OMember, OPtrAdd, OFuncAddr, OBuiltin, OLast
};
static const char *const op_names[] = {"Add", "Sub", "Mul", "Mulh", "And", "Or", "Eor", "Shl", "Shr", "Shrs", "Div", "Mod", "Minus", "Not", "Conv",
	"Bitcast", "Cmp", "Mux", "Const", "Local", "Load", "AddrG", "AddrF", "Sel", "Member", "PtrAdd", "FuncAddr", "Builtin"};

// false: undefined (trap)
inline bool sem_binop(Op op, uint64_t a, uint64_t b, unsigned w, bool s, unsigned modsh, uint64_t &r)
{
	uint64_t mask = w >= 64 ? ~0ull : (1ull << w) - 1;
	switch (op) {
	case OAdd: r = a + b; break;
	case OSub: r = a - b; break;
	case OMul: r = a * b; break;
	case OMulh:
		if (s) r = (uint64_t)(((__int128)(int64_t)a * (int64_t)b) >> w);
		else r = (uint64_t)(((unsigned __int128)(a & mask) * (b & mask)) >> w);
		break;
	case OAnd: r = a & b; break;
	case OOr: r = a | b; break;
	case OEor: r = a ^ b; break;
	case OShl: case OShr: case OShrs: {
		uint64_t n = b;
		if (modsh) n %= modsh;
		if (op == OShl) r = n >= w ? 0 : a << n;
		else if (op == OShr) r = n >= w ? 0 : (a & mask) >> n;
		else {
			int64_t x = (int64_t)canon(a, w, true);
			r = (uint64_t)(x >> (n >= w ? 63 : n));
		}
		break;
	}
	case ODiv: case OMod:
		if ((b & mask) == 0) return false;
		if (s) {
			int64_t x = (int64_t)a, y = (int64_t)b;
			if (y == -1) {
				if (x == (int64_t)canon(1ull << (w - 1), w, true)) return false;
				r = op == ODiv ? 0 - (uint64_t)x : 0;
			} else r = (uint64_t)(op == ODiv ? x / y : x % y);
		} else r = op == ODiv ? (a & mask) / (b & mask) : (a & mask) % (b & mask);
		break;
	default: return false;
	}
	r = canon(r, w, s);
	return true;
}

inline bool sem_fbinop(Op op, uint64_t a, uint64_t b, M m, uint64_t &r, bool x87 = false)
{
	if (x87) {
		long double x = m == MF ? u2f(a) : u2d(a), y = m == MF ? u2f(b) : u2d(b), z;
		switch (op) {
		case OAdd: z = x + y; break;
		case OSub: z = x - y; break;
		case OMul: z = x * y; break;
		case ODiv: z = x / y; break;
		default: return false;
		}
		r = nan_canon(m == MF ? f2u((float)z) : d2u((double)z), m);
		return true;
	}
	if (m == MF) {
		float x = u2f(a), y = u2f(b), z;
		switch (op) {
		case OAdd: z = x + y; break;
		case OSub: z = x - y; break;
		case OMul: z = x * y; break;
		case ODiv: z = x / y; break;
		default: return false;
		}
		r = f2u(z);
	} else {
		double x = u2d(a), y = u2d(b), z;
		switch (op) {
		case OAdd: z = x + y; break;
		case OSub: z = x - y; break;
		case OMul: z = x * y; break;
		case ODiv: z = x / y; break;
		default: return false;
		}
		r = d2u(z);
	}
	r = nan_canon(r, m);
	return true;
}

enum { REQ = 1, RLT = 2, RGT = 4, RUN = 8 };
inline unsigned sem_relation(uint64_t a, uint64_t b, M m)
{
	if (mfloat(m)) {
		double x = m == MF ? u2f(a) : u2d(a), y = m == MF ? u2f(b) : u2d(b);
		if (std::isnan(x) || std::isnan(y)) return RUN;
		return x == y ? REQ : x < y ? RLT : RGT;
	}
	if (msigned(m)) return a == b ? REQ : (int64_t)a < (int64_t)b ? RLT : RGT;
	return a == b ? REQ : a < b ? RLT : RGT;
}

// conversion; false: undefined (float to int out of range)
inline bool sem_conv(uint64_t v, M from, M to, const Arch &ar, uint64_t &r)
{
	if (from == to) { r = v; return true; }
	if (mfloat(from)) {
		if (mfloat(to)) {
			if (to == MD) r = d2u((double)u2f(v));
			else r = f2u((float)u2d(v));
			r = nan_canon(r, to);
			return true;
		}
		double x = from == MF ? (double)u2f(v) : u2d(v);
		unsigned w = mbits(to, ar);
		if (std::isnan(x)) return false;
		double t = std::trunc(x);
		if (msigned(to)) {
			double lim = std::ldexp(1.0, (int)w - 1);
			if (!(t >= -lim && t < lim)) return false;
			r = canon((uint64_t)(int64_t)t, w, true);
		} else {
			double lim = std::ldexp(1.0, (int)w);
			if (!(t >= 0 && t < lim)) return false;
			r = canon((uint64_t)t, w, false);
		}
		return true;
	}
	if (mfloat(to)) {
		if (to == MF) r = f2u(msigned(from) ? (float)(int64_t)v : (float)v);
		else r = d2u(msigned(from) ? (double)(int64_t)v : (double)v);
		return true;
	}
	r = canon(v, mbits(to, ar), msigned(to));
	return true;
}

// builtins
enum BK : uint8_t { BKffs, BKclz, BKctz, BKpopcount, BKparity, BKbswap, BKsatinc, BKlast };
inline bool sem_builtin(BK k, uint64_t v, unsigned w, uint64_t &r)
{
	uint64_t mask = w >= 64 ? ~0ull : (1ull << w) - 1;
	uint64_t x    = v & mask;
	switch (k) {
	case BKffs: r = x ? (uint64_t)__builtin_ctzll(x) + 1 : 0; break;
	case BKclz: if (!x) return false; r = (uint64_t)__builtin_clzll(x) - (64 - w); break;
	case BKctz: if (!x) return false; r = (uint64_t)__builtin_ctzll(x); break;
	case BKpopcount: r = (uint64_t)__builtin_popcountll(x); break;
	case BKparity: r = (uint64_t)__builtin_parityll(x); break;
	case BKbswap: {
		uint64_t y = __builtin_bswap64(x);
		r = w == 64 ? y : y >> (64 - w);
		break;
	}
	case BKsatinc: r = x == mask ? x : x + 1; break;
	default: return false;
	}
	return true;
}
