#include "prog.h"
#include <algorithm>

using pbt::Tape;
using pbt::SpanGuard;

const Sig ext_sigs[NEXT] = {
	{{MIs}, MIs},
	{{MIs, MIu, MP}, MIu},  // the pointer argument is always null
	{{MLs, MIs}, MLs},
	{{MD, MIs}, MD},
};

uint64_t ext_result(int which, const std::vector<uint64_t> &a, const Arch &)
{
	switch (which) {
	case 0: return canon((a[0] * 2654435761u) ^ 0x55, 32, true);
	case 1: return canon((a[0] ^ (a[1] << 3)) + 17, 32, false);
	case 2: return (a[0] * 0x9e3779b97f4a7c15ull) ^ a[1];
	case 3: return d2u((double)(int32_t)a[1] * 0.5);
	}
	return 0;
}

namespace {

struct G {
	Tape &t;
	const GenCfg &cfg;
	const Arch &ar;
	Program &p;
	Func *f = nullptr;
	int fidx = 0;
	int budget;
	int loop_depth = 0;
	int nest = 0;
	bool in_cfg = false;
	int loop_budget = 5;

	G(Tape &t, const GenCfg &c, const Arch &a, Program &p) : t(t), cfg(c), ar(a), p(p), budget((int)c.budget) {}

	bool mode_ok(M m)
	{
		switch (m) {
		case MLs: case MLu: return cfg.i64;
		case MF: return cfg.f32;
		case MD: return cfg.f64;
		default: return true;
		}
	}
	// a mode for values
	M val_mode()
	{
		for (int k = 0; k < 4; ++k) {
			M m;
			switch (t.weighted({40, 20, cfg.i64 ? 12u : 0u, cfg.i64 ? 8u : 0u, cfg.small ? 4u : 0u, cfg.small ? 4u : 0u, cfg.small ? 4u : 0u, cfg.small ? 4u : 0u,
			                    cfg.f32 ? cfg.float_pct / 3 : 0u, cfg.f64 ? cfg.float_pct / 2 : 0u})) {
			case 0: m = MIs; break;
			case 1: m = MIu; break;
			case 2: m = MLs; break;
			case 3: m = MLu; break;
			case 4: m = MBs; break;
			case 5: m = MBu; break;
			case 6: m = MHs; break;
			case 7: m = MHu; break;
			case 8: m = MF; break;
			default: m = MD; break;
			}
			if (mode_ok(m) && (cfg.small || mbits(m, ar) >= 32)) return m;
		}
		return MIs;
	}
	M int_mode()
	{
		for (int k = 0; k < 4; ++k) {
			M m = val_mode();
			if (mint(m)) return m;
		}
		return MIs;
	}
	// a mode for memory elements
	M mem_mode()
	{
		static const M ms[] = {MIs, MBu, MHs, MIu, MBs, MHu, MLs, MLu, MF, MD};
		for (int k = 0; k < 4; ++k) {
			M m = ms[t.weighted({5, 3, 2, 2, 2, 2, 2, 1, 2, 2})];
			if (mode_ok(m)) return m;
		}
		return MIs;
	}

	uint64_t interesting(M m)
	{
		if (mfloat(m)) {
			static const double ds[] = {0.0, 1.0, -1.0, 2.0, 0.5, -3.0, 100.0, 1e10, -1e-10, 3.5, 1e300, 4294967296.0, -2147483648.0, 255.0, 0.1};
			static const double ex[] = {0.0, 1.0, -1.0, 2.0, 3.0, -3.0, 4.0, 7.0, -8.0, 16.0, 10.0, 5.0, 6.0, -2.0, 9.0};
			unsigned i = t.below(cfg.exact_float ? 15 : 25);
			if (i == 15) return m == MF ? f2u(-0.0f) : d2u(-0.0);
			if (i == 16) return m == MF ? f2u(INFINITY) : d2u(INFINITY);
			if (i == 17) return m == MF ? 0x7fc00000u : 0x7ff8000000000000ull;
			if (i == 18) return nan_canon(m == MF ? t.raw32() : t.raw64(), m);
			if (i == 19) return m == MF ? f2u(-INFINITY) : d2u(-INFINITY);
			if (i == 20) return m == MF ? 0x7f7fffffu : 0x7fefffffffffffffull; // greatest
			if (i == 21) return m == MF ? 0xff7fffffu : 0xffefffffffffffffull;
			if (i == 22) return m == MF ? 0x00800000u : 0x0010000000000000ull; // smallest normal
			if (i == 23) return 1;                                             // smallest denormal
			if (i == 24) return m == MF ? f2u(16777217.0f) : d2u(9007199254740993.0);
			double d = (cfg.exact_float ? ex : ds)[i];
			return m == MF ? f2u((float)d) : d2u(d);
		}
		unsigned w = m == Mb ? 1 : mbits(m, ar);
		bool     s = msigned(m);
		uint64_t v;
		switch (t.weighted({30, 14, 8, 14, 14, 10, 8, 6})) {
		case 7: { // one byte lane, possibly inverted
			unsigned lanes = w / 8 ? w / 8 : 1;
			static const unsigned bs[] = {0xff, 0x80, 0x7f, 0x3f, 0xfe, 1, 0xf0, 0x0f};
			v = (uint64_t)(t.flip() ? bs[t.below(8)] : t.below(256)) << 8 * t.below(lanes);
			if (t.flip()) v = ~v;
			break;
		}
		case 0: v = t.below(17); break;
		case 1: v = (uint64_t)0 - (1 + t.below(16)); break;
		case 2: v = t.below(256); break;
		case 3: v = 1ull << t.below(w); break;
		case 4: v = (1ull << t.below(w)) - 1; break;
		case 5: {
			v = ~0ull << t.below(w);
			if (t.flip()) v ^= 1ull << t.below(w);
			break;
		}
		default: v = w > 32 ? t.raw64() : t.raw32(); break;
		}
		return canon(v, w, s);
	}

	E konst(M m, uint64_t v) { E e = p.mk(OConst, m); e->c = v; return e; }
	E kint(M m, int64_t v) { return konst(m, canon((uint64_t)v, mbits(m, ar), msigned(m))); }
	E un(Op op, M m, E a) { E e = p.mk(op, m); e->k[0] = a; return e; }
	E bin(Op op, M m, E a, E b) { E e = p.mk(op, m); e->k[0] = a; e->k[1] = b; return e; }
	E conv(E a, M to) { return a->mode == to ? a : un(OConv, to, a); }
	E local(int i) { E e = p.mk(OLocal, f->locals[(size_t)i].mode); e->c = (uint64_t)i; return e; }
	E cmp(unsigned rel, E a, E b) { E e = bin(OCmp, Mb, a, b); e->c = rel; return e; }
	E mux(E c, E tt, E ff) { E e = p.mk(OMux, tt->mode); e->k[0] = c; e->k[1] = ff; e->k[2] = tt; return e; }

	std::vector<int> locals_of(M m, int ptype = -2)
	{
		std::vector<int> r;
		for (size_t i = 0; i < f->locals.size(); ++i)
			if (f->locals[i].mode == m && (ptype == -2 || f->locals[i].ptype == ptype)) r.push_back((int)i);
		return r;
	}

	E leaf(M m)
	{
		if (m == Mb) {
			std::vector<int> ls = locals_of(Mb);
			if (!ls.empty() && t.chance(1, 2)) return local(t.pick(ls));
			if (t.chance(1, 12)) return konst(Mb, t.below(2));
			M cm = val_mode();
			return cmp(rel_for(cm), leaf(cm), leaf(cm));
		}
		std::vector<int> ls = locals_of(m);
		if (!ls.empty() && t.chance(7, 10)) return local(t.pick(ls));
		// a local of another mode, converted
		if (t.chance(1, 2) && mint(m)) {
			std::vector<int> o;
			for (size_t i = 0; i < f->locals.size(); ++i) if (mint(f->locals[i].mode) && f->locals[i].mode != m) o.push_back((int)i);
			if (!o.empty()) return conv(local(t.pick(o)), m);
		}
		return konst(m, interesting(m));
	}

	unsigned rel_for(M m)
	{
		if (mfloat(m)) return 1 + t.below(14);
		static const unsigned r[] = {RLT, REQ, RLT | RGT, RLT | REQ, RGT, RGT | REQ};
		return r[t.below(6)];
	}

	E fexact(E e, M m)
	{ // keeps magnitudes small enough that float arithmetic stays exact
		(void)m;
		return e;
	}

	E expr(M m, int depth)
	{
		SpanGuard sg(t);
		--budget;
		if (m == MP) return ptr_any();
		if (depth <= 0 || budget <= 0 || t.chance(1, 6)) return leaf(m);
		if (m == Mb) return bexpr(depth);
		if (mfloat(m)) return fexpr(m, depth);
		unsigned w = mbits(m, ar);
		switch (t.weighted({30, 14, 12, 10, cfg.mux ? 8u : 0u, cfg.mem ? 14u : 0u, cfg.divmod ? 7u : 0u, 6, cfg.builtins ? 4u : 0u, cfg.bitcast ? 3u : 0u,
		                    cfg.mulh && (cfg.mulh_bits & w) ? 3u : 0u, cfg.f64 && cfg.fconv ? 4u : 0u, 10, cfg.ptr && cfg.mem && cfg.ptr_conv ? 2u : 0u})) {
		case 0: { // plain binop
			static const Op ops[] = {OAdd, OSub, OMul, OAnd, OOr, OEor};
			Op op = ops[t.weighted({28, 22, 14, 16, 12, 12})];
			E a = expr(m, depth - 1);
			E b = t.chance(2, 5) ? konst(m, interesting(m)) : expr(m, depth - 1);
			if (t.chance(1, 8)) std::swap(a, b);
			return bin(op, m, a, b);
		}
		case 1: return shift(m, depth);
		case 2: { // conversions
			M from = int_mode();
			return conv(expr(from, depth - 1), m);
		}
		case 3: return un(t.flip() ? ONot : OMinus, m, expr(m, depth - 1));
		case 4: return mux(expr(Mb, depth - 1), expr(m, depth - 1), expr(m, depth - 1));
		case 5: return load(m, depth - 1);
		case 6: return divmod(m, depth);
		case 7: return mux(expr(Mb, depth - 1), konst(m, 1), konst(m, 0));
		case 8: return builtin(m, depth);
		case 9: { // bitcast
			M fm = w == 32 ? MF : MD;
			if (w == 32 && cfg.f32 && t.flip()) return un(OBitcast, m, expr(fm, depth - 1));
			if (w == 64 && cfg.f64 && cfg.i64 && t.flip()) return un(OBitcast, m, expr(fm, depth - 1));
			return conv(expr(mode_of(w, !msigned(m)), depth - 1), m);
		}
		case 10: {
			if (w < 32) return leaf(m);
			return bin(OMulh, m, expr(m, depth - 1), t.chance(1, 3) ? konst(m, interesting(m)) : expr(m, depth - 1));
		}
		case 11: { // float to int, mostly guarded
			M fm = cfg.f32 && t.chance(1, 3) ? MF : MD;
			if (!mode_ok(fm) || (w == 64 && !cfg.f2i64)) return leaf(m);
			E x = expr(fm, depth - 1);
			if (t.chance(4, 5)) {
				double lim = w == 8 ? 100 : w == 16 ? 30000 : 1000000;
				E lo = konst(fm, fm == MF ? f2u(msigned(m) ? (float)-lim : 0.0f) : d2u(msigned(m) ? -lim : 0.0));
				E hi = konst(fm, fm == MF ? f2u((float)lim) : d2u(lim));
				// x evaluated once per use; expression trees share by value numbering only
				int v = scratch_local(fm);
				(void)v;
				E c1 = cmp(RGT | REQ, x, lo), c2 = cmp(RLT | REQ, x, hi);
				E g = mux(bin(OAnd, Mb, c1, c2), x, konst(fm, fm == MF ? f2u(1.5f) : d2u(1.5)));
				return conv(g, m);
			}
			return conv(x, m);
		}
		case 12: return pattern(m, depth);
		default: { // pointer difference inside one object, or a pointer through an integer
			std::vector<int> ls;
			for (size_t i = 0; i < f->locals.size(); ++i) if (f->locals[i].ptype >= 0) ls.push_back((int)i);
			if (ls.empty()) return leaf(m);
			int l = t.pick(ls);
			E a = bin(OPtrAdd, MP, local(l), ptr_off(depth - 1)), b = bin(OPtrAdd, MP, local(l), ptr_off(depth - 1));
			E d = bin(OSub, ar.ptr_bits == 64 ? MLs : MIs, a, b);
			return conv(d, m);
		}
		}
	}
	int scratch_local(M) { return 0; }

	// an offset into an object, in [0, 8)
	E ptr_off(int depth)
	{
		M om = ar.ptr_bits == 64 ? MLs : MIs;
		E i = conv(expr(MIu, depth), om);
		return bin(OAnd, om, i, kint(om, 7));
	}

	E shift(M m, int depth)
	{
		unsigned w = mbits(m, ar);
		static const Op ops[] = {OShl, OShr, OShrs};
		Op op = ops[t.below(3)];
		E a = expr(m, depth - 1), n;
		switch (t.weighted({50, 40, cfg.shift_raw_pct})) {
		case 0: n = konst(MIu, t.below(w)); break;
		case 1: n = bin(OAnd, MIu, expr(MIu, depth - 1), konst(MIu, w - 1)); break;
		default: n = t.flip() ? konst(MIu, interesting(MIu)) : expr(MIu, depth - 1); break;
		}
		return bin(op, m, a, n);
	}

	E divmod(M m, int depth)
	{
		Op op = t.flip() ? OMod : ODiv;
		E a = expr(m, depth - 1), b;
		switch (t.weighted({50, 42, 6})) {
		case 0: {
			uint64_t v = interesting(m);
			if (v == 0) v = 1;
			b = konst(m, v);
			break;
		}
		case 1: b = bin(OOr, m, expr(m, depth - 1), konst(m, 1)); break;
		default: b = expr(m, depth - 1); break;
		}
		return bin(op, m, a, b);
	}

	E builtin(M m, int depth)
	{
		std::vector<int> bks;
		for (int k = 0; k < BKlast; ++k) if (cfg.builtins >> k & 1) bks.push_back(k);
		if (bks.empty()) return leaf(m);
		BK bk = (BK)t.pick(bks);
		M om = (cfg.builtin_bits & 64) && cfg.i64 && (t.chance(1, 4) || !(cfg.builtin_bits & 32)) ? MLu : MIu;
		if (bk == BKsatinc) om = MIu;
		E x = expr(om, depth - 1);
		if (bk == BKclz || bk == BKctz) x = bin(OOr, om, x, konst(om, bk == BKclz ? 1 : 1ull << (mbits(om, ar) - 1)));
		E e = p.mk(OBuiltin, bk == BKbswap || bk == BKsatinc ? om : MIs);
		e->c = bk;
		e->k[0] = x;
		return conv(e, m);
	}

	// shapes the local optimiser has rules for
	E pattern(M m, int depth)
	{
		unsigned w = mbits(m, ar);
		E x = expr(m, depth - 1);
		auto c = [&] { return konst(m, interesting(m)); };
		auto y = [&] { return expr(m, depth - 2); };
		auto sh = [&](unsigned lo, unsigned hi) { return konst(MIu, lo + t.below(hi - lo + 1)); };
		static const Op bit[] = {OAnd, OOr, OEor};
		static const Op arith[] = {OAdd, OSub, OMul};
		static const Op shs[] = {OShl, OShr, OShrs};
		switch (t.below(26)) {
		case 0: return bin(bit[t.below(3)], m, bin(bit[t.below(3)], m, x, c()), c());
		case 1: return bin(arith[t.below(3)], m, bin(arith[t.below(3)], m, x, c()), c());
		case 2: return bin(shs[t.below(3)], m, bin(shs[t.below(3)], m, x, sh(0, w - 1)), sh(0, w - 1));
		case 3: return bin(bit[t.below(3)], m, bin(shs[t.below(3)], m, x, sh(0, w - 1)), c());
		case 4: return bin(shs[t.below(3)], m, bin(bit[t.below(3)], m, x, c()), sh(0, w - 1));
		case 5: { // rotations
			unsigned k = 1 + t.below(w - 1);
			E l = bin(OShl, m, x, konst(MIu, k)), r = bin(OShr, m, x, konst(MIu, w - k));
			return bin(t.below(3) == 0 ? OAdd : t.flip() ? OOr : OEor, m, l, r);
		}
		case 6: { // variable rotation
			E n = bin(OAnd, MIu, expr(MIu, depth - 2), konst(MIu, w - 1));
			E n2 = bin(OAnd, MIu, bin(OSub, MIu, konst(MIu, w), n), konst(MIu, w - 1));
			return bin(OOr, m, bin(OShl, m, x, n), bin(OShr, m, x, n2));
		}
		case 7: { // x op (y op2 x)
			E yy = y();
			static const Op any[] = {OAdd, OSub, OAnd, OOr, OEor, OMul};
			return bin(any[t.below(6)], m, x, t.flip() ? bin(any[t.below(6)], m, yy, x) : bin(any[t.below(6)], m, x, yy));
		}
		case 8: { // (a op b) op2 (a op c)
			static const Op any[] = {OAdd, OSub, OAnd, OOr, OEor, OMul};
			Op o1 = any[t.below(6)], o2 = any[t.below(6)], o3 = t.chance(2, 3) ? o2 : any[t.below(6)];
			E yy = y(), z = y();
			E l = t.flip() ? bin(o2, m, x, yy) : bin(o2, m, yy, x), r = t.flip() ? bin(o3, m, x, z) : bin(o3, m, z, x);
			return bin(o1, m, l, r);
		}
		case 9: { // not/minus mixes
			static const Op any[] = {OAdd, OSub, OAnd, OOr, OEor, OMul};
			E a = un(t.flip() ? ONot : OMinus, m, x), b = y();
			if (t.flip()) b = un(t.flip() ? ONot : OMinus, m, b);
			return bin(any[t.below(6)], m, t.flip() ? a : b, t.flip() ? b : x);
		}
		case 10: { // abs-like / min / max
			E yy = t.flip() ? konst(m, t.below(3)) : y();
			E cc = cmp(rel_for(m), x, yy);
			static const int which[][2] = {{0, 1}, {1, 0}, {0, 2}, {2, 0}, {3, 0}, {0, 3}, {1, 3}, {4, 5}, {5, 4}, {6, 5}};
			auto pickv = [&](int k) -> E {
				switch (k) {
				case 0: return x;
				case 1: return yy;
				case 2: return un(OMinus, m, x);
				case 3: return konst(m, 0);
				case 4: return konst(m, 1);
				case 5: return kint(m, -1);
				default: return c();
				}
			};
			const int *wv = which[t.below(10)];
			return mux(cc, pickv(wv[0]), pickv(wv[1]));
		}
		case 11: { // mux with constants / bit tests
			E bt = bin(OAnd, m, x, konst(m, canon(1ull << t.below(w), w, msigned(m))));
			E cc = cmp(t.flip() ? REQ : (RLT | RGT), bt, t.flip() ? konst(m, 0) : bt->k[1]);
			return mux(cc, t.flip() ? c() : y(), t.flip() ? c() : y());
		}
		case 12: { // double conversion
			M a = int_mode(), b = int_mode();
			return conv(conv(conv(x, a), b), m);
		}
		case 13: { // shift by difference / sum of constants
			M a = int_mode();
			unsigned wa = mbits(a, ar);
			E z = conv(x, a);
			return conv(bin(shs[t.below(3)], a, bin(shs[t.below(3)], a, z, sh(0, wa - 1)), sh(0, wa - 1)), m);
		}
		case 14: { // sign extraction
			E s = bin(t.flip() ? OShrs : OShr, m, x, konst(MIu, w - 1));
			static const Op any[] = {OAdd, OSub, OAnd, OOr, OEor};
			return bin(any[t.below(5)], m, s, t.flip() ? x : bin(OEor, m, x, s));
		}
		case 15: { // division and remainder by the same value
			if (!cfg.divmod) return x;
			E d = t.flip() ? konst(m, interesting(m) | 1) : bin(OOr, m, y(), konst(m, 1));
			E q = bin(ODiv, m, x, d), r = bin(OMod, m, x, d);
			return t.flip() ? bin(OAdd, m, q, r) : bin(OSub, m, x, bin(OMul, m, bin(ODiv, m, x, d), d));
		}
		case 16: { // masks of masks: (x & c) | (y & ~c)
			uint64_t cc = interesting(m);
			return bin(t.flip() ? OOr : t.flip() ? OAdd : OEor, m, bin(OAnd, m, x, konst(m, cc)), bin(OAnd, m, y(), konst(m, canon(~cc, w, msigned(m)))));
		}
		case 17: { // compare of compares
			E cc = cmp(rel_for(m), x, t.flip() ? c() : y());
			E b = mux(cc, konst(m, 1), konst(m, 0));
			return t.flip() ? b : bin(OEor, m, b, konst(m, 1));
		}
		case 18: { // multiplication shapes
			E k = konst(m, canon(t.flip() ? (1ull << t.below(w)) + t.below(3) - 1 : t.below(300), w, msigned(m)));
			return t.flip() ? bin(OMul, m, x, k) : bin(t.flip() ? OAdd : OSub, m, bin(OMul, m, x, k), bin(OMul, m, t.flip() ? x : y(), konst(m, canon(t.below(20), w, msigned(m)))));
		}
		case 19: { // boolean as integer arithmetic
			E b = mux(expr(Mb, depth - 2), konst(m, 1), konst(m, 0));
			static const Op any[] = {OAdd, OSub, OAnd, OOr, OEor, OMul};
			return bin(any[t.below(6)], m, t.flip() ? x : un(t.flip() ? OMinus : ONot, m, b), b);
		}
		case 20: { // x << k >> k style sign/zero extension
			unsigned k = t.chance(3, 4) && w > 8 ? w - 8 * (1 + t.below(w / 8 - 1)) : t.below(w);
			return bin(t.flip() ? OShrs : OShr, m, bin(OShl, m, x, konst(MIu, k)), konst(MIu, t.chance(3, 4) ? k : t.below(w)));
		}
		case 21: { // 1 << n shapes
			E n = bin(OAnd, MIu, expr(MIu, depth - 2), konst(MIu, w - 1));
			E one = bin(OShl, m, t.chance(2, 3) ? konst(m, 1) : c(), n);
			return bin(bit[t.below(3)], m, x, t.flip() ? one : un(ONot, m, one));
		}
		case 22: { // power of two test / lowest bit
			E mn = t.flip() ? bin(OSub, m, x, konst(m, 1)) : un(OMinus, m, x);
			return bin(bit[t.below(3)], m, x, mn);
		}
		case 23: { // widening multiply pieces
			if (!cfg.i64 || w != 32) return x;
			M l = msigned(m) ? MLs : MLu;
			E pr = bin(OMul, l, conv(x, l), conv(y(), l));
			return conv(bin(t.flip() ? OShr : OShrs, l, pr, konst(MIu, t.flip() ? 32 : t.below(64))), m);
		}
		case 24: { // constant minus / reversed operands
			static const Op any[] = {OSub, OSub, OAdd, OEor, OAnd, OOr};
			return bin(any[t.below(6)], m, c(), bin(any[t.below(6)], m, t.flip() ? c() : x, x));
		}
		default: { // compare against shifted/added constants
			static const Op any[] = {OAdd, OSub, OEor, OAnd, OOr, OMul, OShl, OShr, OShrs};
			Op o = any[t.below(9)];
			E l = o >= OShl && o <= OShrs ? bin(o, m, x, sh(0, w - 1)) : bin(o, m, x, c());
			E cc = cmp(rel_for(m), l, t.chance(2, 3) ? c() : o >= OShl && o <= OShrs ? bin(o, m, y(), l->k[1]) : bin(o, m, y(), t.flip() ? l->k[1] : x));
			return mux(cc, konst(m, 1), konst(m, t.flip() ? 0 : 2));
		}
		}
	}

	// a chain of operations on one value, mostly with constants
	// an operation whose result is both compared with zero and used
	E zero_op(M m, E x)
	{
		static const Op ops[] = {OAnd, OOr, OEor, OAdd, OSub};
		unsigned w = mbits(m, ar);
		switch (t.weighted({10, 3, 2})) {
		case 0: {
			Op op = ops[t.weighted({8, 2, 2, 3, 3})];
			E o;
			if (t.chance(1, 4)) o = leaf(m);
			else if (t.chance(1, 3)) { uint64_t v = ~((t.flip() ? 0xffull : 0xffffull) << 8 * t.below(w / 8)); o = konst(m, canon(v, w, msigned(m))); }
			else o = konst(m, interesting(m));
			return bin(op, m, x, o);
		}
		case 1: { static const Op shs[] = {OShl, OShr, OShrs}; return bin(shs[t.below(3)], m, x, t.flip() ? konst(MIu, t.below(w)) : bin(OAnd, MIu, leaf(MIu), konst(MIu, w - 1))); }
		default: return un(t.flip() ? OMinus : ONot, m, x);
		}
	}
	E flagged(M m, E x)
	{
		E r = zero_op(m, x);
		E c = cmp(t.flip() ? (t.flip() ? REQ : (RLT | RGT)) : rel_for(m), r, konst(m, 0));
		E a = t.flip() ? r : konst(m, interesting(m)), b = t.chance(1, 3) ? leaf(m) : bin(t.flip() ? OAdd : OEor, m, r, konst(m, interesting(m)));
		return t.flip() ? mux(c, a, b) : mux(c, b, a);
	}
	E chain(M m)
	{
		E x = leaf(m);
		int n = 2 + (int)t.weighted({4, 4, 3, 2, 1});
		for (int i = 0; i < n; ++i) {
			SpanGuard sg(t);
			unsigned w = mbits(m, ar);
			E o = t.chance(1, 5) ? leaf(m) : konst(m, interesting(m));
			switch (t.weighted({6, 6, 6, 5, 4, 3, 7, 3, 2, 4, 4, cfg.divmod ? 2u : 0u, cfg.mux ? 3u : 0u, cfg.mux ? 4u : 0u})) {
			case 0: x = bin(OAnd, m, x, o); break;
			case 1: x = bin(OOr, m, x, o); break;
			case 2: x = bin(OEor, m, x, o); break;
			case 3: x = bin(OAdd, m, x, o); break;
			case 4: x = bin(OSub, m, x, o); break;
			case 5: x = bin(OSub, m, o, x); break;
			case 6: { static const Op shs[] = {OShl, OShr, OShrs}; x = bin(shs[t.below(3)], m, x, konst(MIu, t.below(w))); break; }
			case 7: x = bin(OMul, m, x, o); break;
			case 8: x = un(OMinus, m, x); break;
			case 9: x = un(ONot, m, x); break;
			case 10: { M to = int_mode(); x = conv(x, to); m = to; break; }
			case 11: { uint64_t v = interesting(m); x = bin(t.flip() ? OMod : ODiv, m, x, konst(m, v ? v : 3)); break; }
			case 13: x = flagged(m, x); break;
			default: x = mux(cmp(rel_for(m), x, o), t.flip() ? konst(m, interesting(m)) : x, t.flip() ? konst(m, interesting(m)) : leaf(m)); break;
			}
		}
		return x;
	}
	// external calls, each observing expressions
	void probes(Block &b)
	{
		int n = 4 + (int)t.below(10);
		for (int i = 0; i < n; ++i) {
			SpanGuard sg(t);
			int w = (int)t.below(NEXT);
			if (w == 2 && !cfg.i64) w = 0;
			if (w == 3 && !cfg.f64) w = 0;
			Stmt *s = p.mks(SExt);
			s->callee = w;
			for (M m : ext_sigs[w].params) {
				SpanGuard sg2(t);
				budget = 24;
				E e;
				if (m == MP) e = konst(MP, 0);
				else if (mfloat(m)) e = expr(m, 3);
				else {
					M im = t.flip() ? m : int_mode();
					e = t.flip() ? chain(im) : t.flip() ? pattern(im, 2) : expr(im, 4);
					e = conv(e, m);
				}
				s->args.push_back(e);
			}
			if (t.chance(1, 4)) {
				std::vector<int> ls;
				for (int l : assignable()) if (f->locals[(size_t)l].mode == ext_sigs[w].ret) ls.push_back(l);
				if (!ls.empty()) s->dst = t.pick(ls);
			}
			b.push_back(s);
		}
		budget = 24;
	}

	E bexpr(int depth)
	{
		switch (t.weighted({60, 14, 8, 6, cfg.mux ? 4u : 0u, 8})) {
		case 0: {
			M m = val_mode();
			if (cfg.ptr && cfg.mem && t.chance(1, 14)) {
				std::vector<int> ls;
				for (size_t i = 0; i < f->locals.size(); ++i) if (f->locals[i].ptype >= 0) ls.push_back((int)i);
				if (!ls.empty()) return cmp(t.flip() ? REQ : (RLT | RGT), local(t.pick(ls)), t.chance(1, 5) ? konst(MP, 0) : local(t.pick(ls)));
			}
			E a = expr(m, depth - 1);
			E b = t.chance(2, 5) ? konst(m, interesting(m)) : expr(m, depth - 1);
			return cmp(rel_for(m), a, b);
		}
		case 1: {
			static const Op ops[] = {OAnd, OOr, OEor};
			return bin(ops[t.below(3)], Mb, expr(Mb, depth - 1), expr(Mb, depth - 1));
		}
		case 2: return un(ONot, Mb, expr(Mb, depth - 1));
		case 3: return leaf(Mb);
		case 4: return mux(expr(Mb, depth - 1), expr(Mb, depth - 1), expr(Mb, depth - 1));
		default: { // ranges on one value
			M m = int_mode();
			E x = expr(m, depth - 1);
			static const Op ops[] = {OAnd, OOr, OEor};
			E c1 = cmp(rel_for(m), x, konst(m, interesting(m))), c2 = cmp(rel_for(m), x, konst(m, interesting(m)));
			return bin(ops[t.below(3)], Mb, c1, c2);
		}
		}
	}

	E fexpr(M m, int depth)
	{
		switch (t.weighted({40, 10, 12, cfg.mux ? 8u : 0u, cfg.mem ? 12u : 0u, cfg.bitcast && !cfg.exact_float ? 4u : 0u, cfg.f32 && cfg.f64 ? 10u : 0u})) {
		case 0: {
			static const Op ops[] = {OAdd, OSub, OMul, ODiv};
			Op op = ops[t.weighted({30, 26, cfg.exact_float ? 8u : 24u, cfg.exact_float || !cfg.fdiv ? 0u : 12u})];
			E a = expr(m, depth - 1), b = t.chance(1, 3) ? konst(m, interesting(m)) : expr(m, depth - 1);
			return bin(op, m, a, b);
		}
		case 1: return un(OMinus, m, expr(m, depth - 1));
		case 2: {
			if (!cfg.fconv) return leaf(m);
			M from = int_mode();
			if (mbits(from, ar) == 64 && !cfg.u64f) from = MIs;
			E x = expr(from, depth - 1);
			if (cfg.exact_float) x = bin(OAnd, from, x, konst(from, 15));
			return conv(x, m);
		}
		case 3: return mux(expr(Mb, depth - 1), expr(m, depth - 1), expr(m, depth - 1));
		case 4: return load(m, depth - 1);
		case 5: {
			M from = m == MF ? (t.flip() ? MIs : MIu) : (t.flip() ? MLs : MLu);
			if (!mode_ok(from)) return leaf(m);
			return un(OBitcast, m, expr(from, depth - 1));
		}
		default: return conv(expr(m == MF ? MD : MF, depth - 1), m);
		}
	}

	// ---- memory ----
	struct Place { E addr; M mode; };
	E obj_addr_global(int g) { E e = p.mk(OAddrG, MP); e->c = (uint64_t)g; return e; }
	E obj_addr_frame(int i) { E e = p.mk(OAddrF, MP); e->c = (uint64_t)i; return e; }

	// a base pointer to an object of some type; sets type
	bool base(int &type, E &b, bool for_store)
	{
		struct Cand { int kind, idx, type; };
		std::vector<Cand> cs;
		for (size_t i = 0; i < p.globals.size(); ++i) if (!(for_store && p.globals[i].is_const)) cs.push_back({0, (int)i, p.globals[i].type});
		for (size_t i = 0; i < f->frame.size(); ++i) cs.push_back({1, (int)i, f->frame[i]});
		for (size_t i = 0; i < f->locals.size(); ++i) if (f->locals[i].ptype >= 0) { cs.push_back({2, (int)i, f->locals[i].ptype}); cs.push_back({2, (int)i, f->locals[i].ptype}); }
		if (cs.empty()) return false;
		Cand c = t.pick(cs);
		type = c.type;
		b = c.kind == 0 ? obj_addr_global(c.idx) : c.kind == 1 ? obj_addr_frame(c.idx) : local(c.idx);
		return true;
	}
	E index(unsigned n, int depth)
	{
		M im = t.weighted({3, 2}) == 0 ? MIs : MIu;
		if (t.chance(1, 2)) return konst(im, t.below(n));
		return bin(OAnd, im, expr(im, depth), konst(im, n - 1));
	}
	bool place(Place &pl, int depth, bool for_store)
	{
		int type;
		E b;
		if (!base(type, b, for_store)) return false;
		ObjType &ot = p.types[(size_t)type];
		if (!ot.is_struct) {
			if (cfg.punned && t.chance(1, 6)) { // byte-granular access at an aligned constant offset
				M am = mem_mode();
				unsigned sz = mbits(am, ar) / 8, tot = ot.n * (mbits(ot.mode, ar) / 8), esz = mbits(ot.mode, ar) / 8;
				// alignment is guaranteed only up to the element's own size
				if (sz <= tot && sz <= esz) {
					M om = ar.ptr_bits == 64 ? MLs : MIs;
					unsigned off = t.below(tot / sz) * sz;
					pl = {bin(OPtrAdd, MP, b, kint(om, off)), am};
					return true;
				}
			}
			E s = bin(OSel, MP, b, index(ot.n, depth));
			s->type = type;
			pl = {s, ot.mode};
			return true;
		}
		unsigned fi = t.below((uint32_t)ot.fields.size());
		Field &fd = ot.fields[fi];
		E me = un(OMember, MP, b);
		me->type = type;
		me->c    = fi;
		if (fd.is_arr) {
			E s = bin(OSel, MP, me, index(fd.n, depth));
			s->type = (int)(0x10000 + type * 256 + (int)fi);
			pl = {s, fd.mode};
		} else {
			pl = {me, fd.mode};
		}
		return true;
	}
	E load(M m, int depth)
	{
		Place pl;
		if (!cfg.mem || !place(pl, std::min(depth, 2), false)) return leaf(m);
		E e = p.mk(OLoad, pl.mode);
		e->k[0] = pl.addr;
		e->vol  = cfg.volat && t.chance(1, 20);
		if (pl.mode == m) return e;
		if (mfloat(pl.mode) && !mfloat(m)) {
			// float data used as integer: compare instead of converting
			if (!mode_ok(pl.mode)) return leaf(m);
			return mux(cmp(RLT, e, konst(pl.mode, 0)), konst(m, 1), konst(m, 3));
		}
		if (mfloat(m) && !mfloat(pl.mode) && !cfg.fconv) return leaf(m);
		if (mfloat(m) && mbits(pl.mode, ar) == 64 && !cfg.u64f && mint(pl.mode)) return leaf(m);
		if (mfloat(m) && mint(pl.mode) && cfg.exact_float) return conv(bin(OAnd, pl.mode, e, konst(pl.mode, 15)), m);
		return conv(e, m);
	}
	E ptr_any()
	{
		int type;
		E b;
		if (base(type, b, true)) return b;
		return konst(MP, 0);
	}
	// a pointer to an object of exactly this type
	E ptr_of(int type, int depth)
	{
		struct Cand { int kind, idx; };
		std::vector<Cand> cs;
		for (size_t i = 0; i < p.globals.size(); ++i) if (p.globals[i].type == type && !p.globals[i].is_const) cs.push_back({0, (int)i});
		for (size_t i = 0; i < f->frame.size(); ++i) if (f->frame[i] == type) cs.push_back({1, (int)i});
		for (size_t i = 0; i < f->locals.size(); ++i) if (f->locals[i].ptype == type) cs.push_back({2, (int)i});
		if (cs.empty()) return nullptr;
		auto get = [&] { Cand c = t.pick(cs); return c.kind == 0 ? obj_addr_global(c.idx) : c.kind == 1 ? obj_addr_frame(c.idx) : local(c.idx); };
		E a = get();
		if (cfg.mux && depth > 0 && t.chance(1, 6)) a = mux(expr(Mb, depth - 1), a, get());
		return a;
	}

	// ---- statements ----
	int new_local(M m, int ptype = -1, bool reserved = false)
	{
		f->locals.push_back({m, ptype, reserved});
		return (int)f->locals.size() - 1;
	}
	std::vector<int> assignable()
	{
		std::vector<int> r;
		for (size_t i = 0; i < f->locals.size(); ++i) if (!f->locals[i].reserved) r.push_back((int)i);
		return r;
	}

	void block(Block &b, int n, int depth)
	{
		for (int i = 0; i < n && budget > 0; ++i) {
			SpanGuard sg(t);
			if (i && !t.chance(5, 6)) break;
			stmt(b, depth);
		}
	}

	void assign(Block &b)
	{
		std::vector<int> ls = assignable();
		if (ls.empty()) return;
		int l = t.pick(ls);
		Local lo = f->locals[(size_t)l];
		Stmt *s = p.mks(SAssign);
		s->dst = l;
		if (lo.ptype >= 0) {
			s->e = ptr_of(lo.ptype, 1);
			if (!s->e) s->e = local(l);
		} else if (mint(lo.mode) && t.chance(1, 6)) // accumulate
			s->e = bin(t.flip() ? OAdd : t.flip() ? OEor : OSub, lo.mode, local(l), expr(lo.mode, 2));
		else
			s->e = expr(lo.mode, 3);
		b.push_back(s);
	}
	void store(Block &b)
	{
		Place pl;
		if (!place(pl, 2, true)) return assign(b);
		Stmt *s = p.mks(SStore);
		s->e    = pl.addr;
		s->mode = pl.mode;
		s->e2   = expr_for_mem(pl.mode);
		s->vol  = cfg.volat && t.chance(1, 24);
		b.push_back(s);
	}
	// several accesses of different sizes within a few bytes of one object
	void cluster(Block &b)
	{
		int type;
		E bs;
		if (!cfg.punned || !base(type, bs, true)) return store(b);
		ObjType &ot = p.types[(size_t)type];
		unsigned esz = ot.is_struct ? 0 : mbits(ot.mode, ar) / 8;
		if (esz < 2) return store(b);
		unsigned el = t.below(ot.n), n = 2 + t.below(6);
		M om = ar.ptr_bits == 64 ? MLs : MIs;
		struct Slot { E a; M m; };
		std::vector<Slot> slots;
		std::vector<E> seen;
		for (unsigned i = 0; i < n; ++i) {
			SpanGuard sg(t);
			Slot sl;
			if (slots.size() >= 2 && t.chance(3, 5)) sl = t.pick(slots);
			else {
				M am = t.flip() ? ot.mode : mem_mode();
				unsigned sz = mbits(am, ar) / 8;
				if (sz > esz) { am = ot.mode; sz = esz; }
				unsigned e = t.chance(1, 4) && el + 1 < ot.n ? el + 1 : el;
				unsigned o = e * esz + t.below(esz / sz) * sz;
				sl = {o == 0 && t.flip() ? bs : bin(OPtrAdd, MP, bs, kint(om, o)), am};
				slots.push_back(sl);
			}
			M am = sl.m;
			if (t.chance(3, 5)) {
				Stmt *s = p.mks(SStore);
				s->e    = sl.a;
				s->mode = am;
				s->e2   = t.chance(2, 3) && (cfg.small || mfloat(am) || mbits(am, ar) >= 32) ? leaf(am) : expr_for_mem(am);
				b.push_back(s);
			} else {
				Stmt *s = p.mks(SAssign);
				E ld = p.mk(OLoad, am);
				ld->k[0] = sl.a;
				s->e   = !cfg.small && mint(am) && mbits(am, ar) < 32 ? conv(ld, MIs) : ld;
				s->dst = new_local(s->e->mode);
				b.push_back(s);
				seen.push_back(local(s->dst));
			}
		}
		// make the loaded values matter
		if (cfg.ext && !seen.empty() && t.chance(2, 3)) {
			E x = nullptr;
			for (E l : seen) {
				E v;
				if (mfloat(l->mode)) v = mux(cmp(RLT, l, konst(l->mode, 0)), kint(MIs, 1), kint(MIs, 3));
				else v = conv(l, MIs);
				x = x ? bin(OAdd, MIs, bin(OMul, MIs, x, kint(MIs, 3)), v) : v;
			}
			Stmt *s = p.mks(SExt);
			s->callee = 0;
			s->args.push_back(x);
			b.push_back(s);
		}
	}
	E expr_for_mem(M m)
	{
		if (!cfg.small && mint(m) && mbits(m, ar) < 32) return conv(expr(MIs, 2), m);
		return expr(m, 2);
	}
	void call(Block &b)
	{
		if (!cfg.calls) return assign(b);
		// callees have higher indices, so call graphs are acyclic apart from the explicit recursion
		int n = (int)p.funcs.size();
		if (fidx + 1 >= n) return cfg.ext ? ext(b) : assign(b);
		int callee = fidx + 1 + (int)t.below((uint32_t)(n - fidx - 1));
		Stmt *s = p.mks(SCall);
		s->callee = callee;
		s->sig    = p.funcs[(size_t)callee].sig;
		const Sig &sg = p.sigs[(size_t)s->sig];
		for (size_t i = 0; i < sg.params.size(); ++i) {
			int pt = p.funcs[(size_t)callee].ptypes[i];
			E a = pt >= 0 ? ptr_of(pt, 1) : expr(sg.params[i], 2);
			if (!a) return assign(b);
			if (pt < 0 && p.funcs[(size_t)callee].recursive == (int)i) a = bin(OAnd, sg.params[i], a, konst(sg.params[i], 7));
			s->args.push_back(a);
		}
		if (cfg.indirect && t.chance(1, 6)) {
			// through a function pointer, possibly chosen among functions with the same signature
			std::vector<int> same;
			for (int i = fidx + 1; i < n; ++i) if (p.funcs[(size_t)i].sig == s->sig && p.funcs[(size_t)i].recursive == p.funcs[(size_t)callee].recursive && p.funcs[(size_t)i].ptypes == p.funcs[(size_t)callee].ptypes) same.push_back(i);
			E a = p.mk(OFuncAddr, MP);
			a->c = (uint64_t)callee;
			if (same.size() > 1 && cfg.mux) {
				E a2 = p.mk(OFuncAddr, MP);
				a2->c = (uint64_t)t.pick(same);
				a = mux(expr(Mb, 1), a, a2);
			}
			s->e      = a;
			s->callee = -1;
		}
		if (sg.ret != Mvoid) {
			std::vector<int> ls;
			for (int l : assignable()) if (f->locals[(size_t)l].mode == sg.ret && f->locals[(size_t)l].ptype < 0) ls.push_back(l);
			if (!ls.empty() && !t.chance(1, 10)) s->dst = t.pick(ls);
			else if (t.flip()) s->dst = new_local(sg.ret);
		}
		b.push_back(s);
	}
	void ext(Block &b)
	{
		if (!cfg.ext) return assign(b);
		int w = (int)t.below(NEXT);
		if (w == 2 && !cfg.i64) w = 0;
		if (w == 3 && !cfg.f64) w = 0;
		Stmt *s = p.mks(SExt);
		s->callee = w;
		for (M m : ext_sigs[w].params) s->args.push_back(m == MP ? konst(MP, 0) : expr(m, 2));
		std::vector<int> ls;
		for (int l : assignable()) if (f->locals[(size_t)l].mode == ext_sigs[w].ret) ls.push_back(l);
		if (!ls.empty()) s->dst = t.pick(ls);
		b.push_back(s);
	}

	void loop(Block &b, int depth)
	{
		if (loop_budget <= 0) return assign(b);
		--loop_budget;
		Stmt *s = p.mks(SLoop);
		++loop_depth;
		unsigned kind = t.weighted({55, 20, cfg.ptr && cfg.mem ? 10u : 0u, 15});
		if (kind == 2) {
			// walk an array with a pointer
			std::vector<int> ts;
			for (size_t i = 0; i < p.types.size(); ++i) if (!p.types[i].is_struct) ts.push_back((int)i);
			E base = nullptr;
			int ty = -1;
			if (!ts.empty()) { ty = t.pick(ts); base = ptr_of(ty, 0); }
			if (!base) kind = 0;
			else {
				s->k    = SLoopP;
				s->dst  = new_local(MP, -1, true);
				s->type = ty;
				s->e    = base;
				ObjType &ot = p.types[(size_t)ty];
				unsigned es = mbits(ot.mode, ar) / 8;
				unsigned from = t.below(ot.n < 3 ? ot.n : 3), cnt = 1 + t.below(ot.n - from);
				s->ranges.push_back({(int64_t)(from * es), (int64_t)((from + cnt) * es)});
				s->step = es;
				s->rel  = t.flip() ? (RLT | RGT) : RLT;
				s->form = (int)t.below(2);
				s->neg  = t.chance(1, 5);
				int acc = -1;
				std::vector<int> ls;
				for (int l : assignable()) if (f->locals[(size_t)l].mode == ot.mode) ls.push_back(l);
				if (!ls.empty()) acc = t.pick(ls);
				if (acc >= 0 && t.chance(2, 3)) {
					Stmt *a = p.mks(SAssign);
					E ld = p.mk(OLoad, ot.mode);
					ld->k[0] = local(s->dst);
					a->dst = acc;
					a->e   = bin(mfloat(ot.mode) || t.flip() ? OAdd : OEor, ot.mode, local(acc), ld);
					s->b1.push_back(a);
				}
				if (t.chance(1, 2)) {
					Stmt *a = p.mks(SStore);
					a->e    = local(s->dst);
					a->mode = ot.mode;
					a->e2   = expr_for_mem(ot.mode);
					s->b1.push_back(a);
				}
				block(s->b1, 2, depth - 1);
				--loop_depth;
				b.push_back(s);
				return;
			}
		}
		if (kind == 3) {
			// free-form condition bounded by fuel
			s->fuel = new_local(MIs, -1, true);
			s->e    = kint(MIs, 1 + t.below(12));
			s->e3   = expr(Mb, 2);
			s->form = (int)t.below(2);
			block(s->b1, 3, depth - 1);
			--loop_depth;
			b.push_back(s);
			return;
		}
		M m = MIs;
		switch (t.weighted({50, 20, cfg.i64 ? 8u : 0u, cfg.i64 ? 5u : 0u, cfg.small ? 4u : 0u, cfg.small ? 4u : 0u})) {
		case 1: m = MIu; break;
		case 2: m = MLs; break;
		case 3: m = MLu; break;
		case 4: m = MHs; break;
		case 5: m = MBu; break;
		default: break;
		}
		s->form = t.weighted({2, 1}) == 0 ? 0 : 1;
		if (kind == 0 && t.chance(1, 6)) {
			// arbitrary constant counter, bounded by a break on a second counter
			if (cfg.small && t.flip()) m = MBu;
			s->dst = new_local(m, -1, true);
			static const int64_t cs[] = {0, 1, 2, 4, 7, 10, 100, 200, 127, 255, -1, -3};
			s->e    = konst(m, canon((uint64_t)cs[t.below(12)], mbits(m, ar), msigned(m)));
			s->e2   = konst(m, canon((uint64_t)cs[t.below(12)], mbits(m, ar), msigned(m)));
			static const int64_t st[] = {1, -1, 2, 3, -2, 7, 50, 100};
			s->step = st[t.below(8)];
			static const unsigned rels[] = {RLT, RGT, RLT | REQ, RGT | REQ, RLT | RGT};
			s->rel  = rels[t.below(5)];
			s->neg  = t.chance(1, 3);
			int fl  = new_local(MIs, -1, true);
			Stmt *init = p.mks(SAssign);
			init->dst  = fl;
			init->e    = kint(MIs, 1 + t.below(24));
			b.push_back(init);
			Stmt *dec = p.mks(SAssign);
			dec->dst  = fl;
			dec->e    = bin(OSub, MIs, local(fl), kint(MIs, 1));
			Stmt *br  = p.mks(SIf);
			E cmp     = p.mk(OCmp, Mb);
			cmp->c    = RLT;
			cmp->k[0] = local(fl);
			cmp->k[1] = kint(MIs, 0);
			br->e     = cmp;
			br->b1.push_back(p.mks(SBreak));
			s->b1.push_back(dec);
			s->b1.push_back(br);
			block(s->b1, 3, depth - 1);
			if (t.chance(1, 4)) {
				Stmt *rs = p.mks(SIf);
				rs->e = expr(Mb, 2);
				Stmt *a = p.mks(SAssign);
				a->dst = s->dst;
				a->e   = konst(m, s->e->c);
				rs->b1.push_back(a);
				if (t.flip() && !in_cfg) rs->b1.push_back(p.mks(SContinue));
				s->b1.push_back(rs);
			}
			--loop_depth;
			b.push_back(s);
			return;
		}
		s->dst = new_local(m, -1, true);
		s->neg = t.chance(1, 5);
		if (kind == 0) {
			// constant trip count
			int n = (int)t.below(14) + (t.chance(1, 8) ? 20 : 0);
			int step = t.weighted({5, 1}) == 0 ? 1 : (int)t.below(5) + 1;
			bool down = t.chance(1, 4);
			int64_t from = t.weighted({5, 2}) == 0 ? 0 : (int)t.below(40);
			if (t.chance(1, 10) && mbits(m, ar) >= 32) from = msigned(m) ? 0x7fffff00 : 0x7fffff00;
			if (down) from += (int64_t)n * step;
			int64_t to = down ? from - (int64_t)n * step : from + (int64_t)n * step;
			s->step = down ? -step : step;
			switch (t.below(4)) {
			case 0: s->rel = RLT | RGT; break;
			case 1: s->rel = down ? RGT : RLT; break;
			case 2: s->rel = down ? (RGT | REQ) : (RLT | REQ); break;
			default: s->rel = down ? RGT : RLT; if (step > 1) to += down ? -(int64_t)t.below((uint32_t)step) : (int64_t)t.below((uint32_t)step); break;
			}
			if (down && (s->rel & REQ) && !msigned(m) && to == 0) s->rel = RGT;
			if (m == MBu && (from > 200 || to > 200)) { from = down ? n : 0; to = down ? 0 : n; s->step = down ? -1 : 1; s->rel = down ? RGT : RLT; }
			s->e  = kint(m, from);
			s->e2 = kint(m, to);
		} else {
			// bound known only at run time
			s->e    = t.chance(2, 3) ? konst(m, t.below(4)) : bin(OAnd, m, expr(m, 1), konst(m, 3));
			s->e2   = t.chance(1, 2) ? bin(OAnd, m, expr(m, 2), konst(m, 15)) : bin(OAdd, m, bin(OAnd, m, expr(m, 1), konst(m, 7)), konst(m, t.below(5)));
			s->step = t.weighted({4, 1}) == 0 ? 1 : 1 + (int)t.below(4);
			s->rel  = t.flip() ? RLT : (RLT | REQ);
		}
		block(s->b1, 3, depth - 1);
		--loop_depth;
		b.push_back(s);
	}

	void cfg_region(Block &b, int depth)
	{
		Stmt *s = p.mks(SCfg);
		s->fuel = new_local(MIs, -1, true);
		s->e    = kint(MIs, 6 + t.below(30));
		int n   = 2 + (int)t.below(6);
		s->cfg.resize((size_t)n);
		++loop_depth;
		int save = loop_depth;
		bool sin = in_cfg;
		in_cfg = true;
		for (int i = 0; i < n; ++i) {
			SpanGuard sg(t);
			std::vector<CfgBlock> &cv = s->cfg;
			block(cv[(size_t)i].body, 2, depth - 1);
			CfgBlock &cb = cv[(size_t)i];
			cb.kind = (int)t.weighted({3, 5, cfg.sw ? 2u : 0u});
			int ns = cb.kind == 0 ? 1 : cb.kind == 1 ? 2 : 2 + (int)t.below(3);
			for (int k = 0; k < ns; ++k) cb.succ.push_back((int)t.below((uint32_t)n + 1)); // n = leave
			if (cb.kind == 1) cb.cond = expr(Mb, 2);
			if (cb.kind == 2) {
				cb.cond = expr(MIu, 2);
				for (int k = 1; k < ns; ++k) cb.cases.push_back((uint64_t)k * 3 + t.below(3));
			}
		}
		in_cfg = sin;
		loop_depth = save - 1;
		b.push_back(s);
	}

	void stmt(Block &b, int depth)
	{
		--budget;
		bool nestable = depth > 0 && budget > 4;
		switch (t.weighted({34, cfg.mem ? cfg.mem_heavy ? 60u : 22u : 0u, nestable ? 16u : 0u, nestable && cfg.loops ? 14u : 0u, nestable && cfg.sw ? 5u : 0u, 10, loop_depth > 0 && !in_cfg ? 5u : 0u,
		                    cfg.ext ? 3u : 0u, cfg.copyb && cfg.mem ? 3u : 0u, nestable && cfg.irreducible && cfg.loops ? 4u : 0u, nest > 0 ? 2u : 0u})) {
		case 1: return t.chance(cfg.mem_heavy ? 2 : 1, 6) ? cluster(b) : store(b);
		case 2: {
			Stmt *s = p.mks(SIf);
			if (t.chance(1, 7)) { // the result of an operation, compared with zero and used again
				M m = int_mode();
				Stmt *a = p.mks(SAssign);
				E x = expr(m, 2);
				if (t.flip()) a->e = zero_op(m, x);
				else {
					static const Op ops[] = {OAdd, OSub, OAnd, OOr, OEor, OMul};
					a->e = bin(ops[t.below(6)], m, x, t.flip() ? konst(m, interesting(m)) : expr(m, 1));
				}
				a->dst = new_local(m);
				b.push_back(a);
				s->e = cmp(rel_for(m), local(a->dst), konst(m, 0));
			} else
			s->e = expr(Mb, 3);
			if (t.chance(1, 5)) { s->e2 = expr(Mb, 2); s->short_or = t.flip(); }
			++nest;
			block(s->b1, 3, depth - 1);
			if (t.flip()) block(s->b2, 3, depth - 1);
			--nest;
			b.push_back(s);
			return;
		}
		case 3: return loop(b, depth);
		case 4: {
			Stmt *s = p.mks(SSwitch);
			M m = t.weighted({3, 3, cfg.i64 && !cfg.entry_abi_simple ? 1u : 0u}) == 0 ? MIu : MIs;
			E x = expr(m, 2);
			if (t.chance(3, 4)) x = bin(OAnd, m, x, konst(m, 15));
			s->e = x;
			int n = 1 + (int)t.below(7);
			int64_t cur = msigned(m) && t.chance(1, 4) ? -4 : 0;
			bool sparse = t.chance(1, 4);
			++nest;
			for (int i = 0; i < n; ++i) {
				cur += t.below(sparse ? 200 : 3);
				int64_t hi = cur + (t.chance(1, 5) ? t.below(4) : 0);
				s->ranges.push_back({cur, hi});
				cur = hi + 1;
				s->cases.emplace_back();
				Block cb;
				block(cb, 2, depth - 1);
				s->cases.back() = cb;
				s->fall.push_back(t.chance(1, 6));
			}
			if (t.chance(3, 4)) block(s->b1, 2, depth - 1);
			--nest;
			b.push_back(s);
			return;
		}
		case 5: return call(b);
		case 6: {
			Stmt *s = p.mks(t.flip() ? SBreak : SContinue);
			// conditional, or everything behind would be dead most of the time
			Stmt *i = p.mks(SIf);
			i->e = expr(Mb, 2);
			i->b1.push_back(s);
			b.push_back(i);
			return;
		}
		case 7: return ext(b);
		case 8: {
			int type;
			E d;
			if (!base(type, d, true)) return assign(b);
			E src = nullptr;
			std::vector<int> gs;
			for (size_t i = 0; i < p.globals.size(); ++i) if (p.globals[i].type == type) gs.push_back((int)i);
			if (!gs.empty() && t.flip()) src = obj_addr_global(t.pick(gs));
			else src = ptr_of(type, 0);
			if (!src) return assign(b);
			Stmt *s = p.mks(SCopyB);
			s->e = d;
			s->e2 = src;
			s->type = type;
			b.push_back(s);
			return;
		}
		case 9: return cfg_region(b, depth);
		case 10: {
			Stmt *i = p.mks(SIf);
			i->e = expr(Mb, 2);
			Stmt *s = p.mks(SReturn);
			M rm = p.sigs[(size_t)f->sig].ret;
			if (rm != Mvoid) s->e = expr(rm, 2);
			i->b1.push_back(s);
			b.push_back(i);
			return;
		}
		default: return assign(b);
		}
	}

	// recursive function shapes for the tail-recursion optimisation
	void recursion(Func &fn)
	{
		const Sig &sg = p.sigs[(size_t)fn.sig];
		int d = fn.recursive;
		Stmt *i = p.mks(SIf);
		i->e = cmp(REQ, local(d), konst(sg.params[(size_t)d], 0));
		Stmt *r = p.mks(SReturn);
		if (sg.ret != Mvoid) r->e = expr(sg.ret, 2);
		i->b1.push_back(r);
		fn.body.push_back(i);
		if (!cfg.ipo || t.chance(1, 3)) block(fn.body, 2, 1);
		if (t.chance(1, 3)) {
			Stmt *i2 = p.mks(SIf);
			i2->e = bexpr(1);
			E x = self_call(fn, i2->b1);
			Stmt *r2 = p.mks(SReturn);
			r2->e = x;
			i2->b1.push_back(r2);
			fn.body.push_back(i2);
		}
		E x = self_call(fn, fn.body);
		if (sg.ret != Mvoid) fn.ret = x;
	}
	// a call of the function itself; the result is an expression over the call's result
	E self_call(Func &fn, std::vector<Stmt *> &out)
	{
		const Sig &sg = p.sigs[(size_t)fn.sig];
		int d = fn.recursive;
		int rl = sg.ret != Mvoid ? new_local(sg.ret, -1, true) : -1;
		Stmt *c = p.mks(SCall);
		c->callee = fidx;
		c->sig    = fn.sig;
		c->dst    = rl;
		for (size_t k = 0; k < sg.params.size(); ++k) {
			int pt = fn.ptypes[k];
			E a;
			if ((int)k == d) a = bin(OSub, sg.params[k], local(d), konst(sg.params[k], 1));
			else if (pt >= 0) { a = ptr_of(pt, 0); }
			else a = expr(sg.params[k], 2);
			c->args.push_back(a);
		}
		out.push_back(c);
		if (sg.ret == Mvoid) return nullptr;
		E x = local(rl);
		int n = cfg.ipo ? 1 + (int)t.weighted({2, 3, 1}) : 1 + (int)t.weighted({3, 1, 1});
		for (int i = 0; i < n; ++i) {
			switch (t.below(8)) {
			case 0: break;
			case 1: x = bin(OAdd, sg.ret, expr(sg.ret, 1), x); break;
			case 2: x = bin(OSub, sg.ret, x, expr(sg.ret, 1)); break;
			case 3: x = bin(OMul, sg.ret, x, expr(sg.ret, 1)); break;
			case 4: x = un(OMinus, sg.ret, x); break;
			case 5: x = bin(OSub, sg.ret, expr(sg.ret, 1), x); break;
			case 6: x = bin(t.flip() ? OMul : OAdd, sg.ret, x, local(rl)); break;
			default: x = bin(OAdd, sg.ret, x, expr(sg.ret, 2)); break;
			}
		}
		return x;
	}

	void run()
	{
		// object types
		if (cfg.mem) {
			int nt = 1 + (int)t.below(3);
			for (int i = 0; i < nt; ++i) {
				SpanGuard sg(t);
				ObjType ot;
				if (cfg.structs && t.chance(1, 3)) {
					ot.is_struct = true;
					int nf = 1 + (int)t.below(5);
					for (int k = 0; k < nf; ++k) {
						Field fd;
						fd.mode   = mem_mode();
						fd.is_arr = t.chance(1, 4);
						fd.n      = fd.is_arr ? 1u << t.below(4) : 1;
						ot.fields.push_back(fd);
					}
				} else {
					ot.mode = mem_mode();
					ot.n    = 1u << (t.weighted({2, 2, 1, 1}) == 0 ? 3 : t.below(4));
				}
				p.types.push_back(ot);
			}
			int ng = 1 + (int)t.below(4);
			for (int i = 0; i < ng; ++i) {
				SpanGuard sg(t);
				Global g;
				g.type       = (int)t.below((uint32_t)p.types.size());
				g.is_private = t.chance(2, 5);
				g.is_const   = t.chance(1, 8);
				ObjType &ot  = p.types[(size_t)g.type];
				if (t.chance(3, 4)) {
					auto one = [&](M m) {
						if (!t.chance(3, 4)) { g.init.push_back(0); return; }
						g.init.push_back(interesting(m));
					};
					if (ot.is_struct) { for (Field &fd : ot.fields) for (unsigned k = 0; k < fd.n; ++k) one(fd.mode); }
					else for (unsigned k = 0; k < ot.n; ++k) one(ot.mode);
				}
				g.name = p.prefix + "g" + std::to_string(i);
				p.globals.push_back(g);
			}
		}
		int nf = !cfg.calls ? 1 : cfg.ipo ? 2 + (int)t.below(cfg.max_funcs) : 1 + (int)t.below(cfg.max_funcs);
		p.funcs.resize((size_t)nf);
		for (int i = 0; i < nf; ++i) {
			SpanGuard sg(t);
			Func &fn = p.funcs[(size_t)i];
			fn.name  = p.prefix + "f" + std::to_string(i);
			fn.is_private = i > 0 && !t.chance(1, 4);
			if (i > 1 && t.chance(1, 4)) {
				fn.sig    = p.funcs[(size_t)i - 1].sig;
				fn.ptypes = p.funcs[(size_t)i - 1].ptypes;
				fn.recursive = p.funcs[(size_t)i - 1].recursive;
				continue;
			}
			Sig s;
			int np = i == 0 ? 1 + (int)t.below(4) : (int)t.below(cfg.max_args + 1);
			for (int k = 0; k < np; ++k) {
				if (i > 0 && cfg.ptr && cfg.mem && !p.types.empty() && t.chance(1, 4)) {
					s.params.push_back(MP);
					fn.ptypes.push_back((int)t.below((uint32_t)p.types.size()));
				} else {
					s.params.push_back(cfg.entry_abi_simple && i == 0 ? (t.flip() ? MIs : MIu) : val_mode());
					fn.ptypes.push_back(-1);
				}
			}
			s.ret = i > 0 && t.chance(1, 8) ? Mvoid : cfg.entry_abi_simple && i == 0 ? MIs : val_mode();
			if (i > 0 && cfg.recursion && t.chance(cfg.ipo ? 2 : 1, 4)) {
				for (int k = 0; k < np; ++k) if (s.params[(size_t)k] == MIs || s.params[(size_t)k] == MIu) { fn.recursive = k; break; }
			}
			p.sigs.push_back(s);
			fn.sig = (int)p.sigs.size() - 1;
		}
		// callees first would bias; bodies are generated independently
		int share = std::max(12, budget / nf);
		for (int i = 0; i < nf; ++i) {
			SpanGuard sg(t);
			fidx = i;
			f = &p.funcs[(size_t)i];
			budget = share;
			loop_budget = i == 0 ? 4 : 2;
			const Sig sg2 = p.sigs[(size_t)f->sig];
			for (size_t k = 0; k < sg2.params.size(); ++k) f->locals.push_back({sg2.params[k], f->ptypes[k], f->recursive == (int)k});
			int nl = 1 + (int)t.below(5);
			if (cfg.mem && cfg.frame_objs && t.chance(1, 2)) {
				int no = 1 + (int)t.below(2);
				for (int k = 0; k < no; ++k) { f->frame.push_back((int)t.below((uint32_t)p.types.size())); f->frame_init.push_back(!t.chance(1, 8)); }
			}
			std::vector<int> newl;
			for (int k = 0; k < nl; ++k) {
				SpanGuard sg3(t);
				if (cfg.ptr && cfg.mem && t.chance(1, 5)) {
					int ty = (int)t.below((uint32_t)p.types.size());
					if (ptr_of(ty, 0)) {
						Stmt *s = p.mks(SAssign);
						s->e = ptr_of(ty, 0);
						s->dst = new_local(MP, ty);
						f->body.push_back(s);
						continue;
					}
				}
				M m = cfg.modeb_vars && t.chance(1, 8) ? Mb : val_mode();
				Stmt *s = p.mks(SAssign);
				s->e   = m == Mb ? leaf(Mb) : t.flip() ? konst(m, interesting(m)) : leaf(m);
				s->dst = new_local(m);
				f->body.push_back(s);
			}
			if (f->recursive >= 0) {
				recursion(*f);
				if (!f->ret && sg2.ret != Mvoid) f->ret = expr(sg2.ret, 2);
			} else {
				if (cfg.ipo) for (int k = i + 1; k < nf; ++k) if (i == 0 ? t.chance(3, 4) : t.chance(1, 3)) call(f->body);
				if (cfg.probe && i == 0) probes(f->body);
				else block(f->body, cfg.expr_only ? 2 : 8, cfg.expr_only ? 0 : 3);
				if (sg2.ret != Mvoid) f->ret = expr(sg2.ret, cfg.expr_only ? 5 : 3);
			}
		}
		// inputs
		const Sig &es = p.sigs[(size_t)p.funcs[0].sig];
		for (unsigned v = 0; v < cfg.nvec; ++v) {
			SpanGuard sg(t);
			std::vector<uint64_t> in;
			for (M m : es.params) in.push_back(t.chance(1, 4) && mint(m) ? canon(t.raw64(), mbits(m, ar), msigned(m)) : interesting(m));
			p.vectors.push_back(in);
		}
	}
};

// ---- printing -------------------------------------------------------------
struct Show {
	const Program &p;
	std::string o;
	static std::string num(uint64_t c, M m)
	{
		if (m == MF) return pbt::strf("%gf", (double)u2f(c));
		if (m == MD) return pbt::strf("%g", u2d(c));
		return msigned(m) ? pbt::strf("%lld", (long long)c) : pbt::strf("%lluu", (unsigned long long)c);
	}
	std::string ex(E e)
	{
		if (!e) return "?";
		switch (e->op) {
		case OConst: return num(e->c, e->mode) + ":" + mode_names[e->mode];
		case OLocal: return pbt::strf("v%d", (int)e->c);
		case OAddrG: return pbt::strf("&g%d", (int)e->c);
		case OAddrF: return pbt::strf("&frame%d", (int)e->c);
		case OFuncAddr: return pbt::strf("&f%d", (int)e->c);
		case OLoad: return std::string(e->vol ? "vload." : "load.") + mode_names[e->mode] + "[" + ex(e->k[0]) + "]";
		case OSel: return ex(e->k[0]) + "[" + ex(e->k[1]) + "]";
		case OMember: return ex(e->k[0]) + pbt::strf(".m%d", (int)e->c);
		case OCmp: {
			static const char *rn[] = {"false", "==", "<", "<=", ">", ">=", "<>", "<=>", "u", "u==", "u<", "u<=", "u>", "u>=", "!=", "true"};
			return "(" + ex(e->k[0]) + " " + rn[e->c & 15] + " " + ex(e->k[1]) + ")";
		}
		case OMux: return "mux(" + ex(e->k[0]) + ", T:" + ex(e->k[2]) + ", F:" + ex(e->k[1]) + ")";
		case OBuiltin: {
			static const char *bn[] = {"ffs", "clz", "ctz", "popcount", "parity", "bswap", "satinc"};
			return std::string(bn[e->c]) + "(" + ex(e->k[0]) + ")";
		}
		default: {
			std::string s = std::string(op_names[e->op]) + "." + mode_names[e->mode] + "(" + ex(e->k[0]);
			if (e->k[1]) s += ", " + ex(e->k[1]);
			return s + ")";
		}
		}
	}
	void blk(const Block &b, int ind) { for (Stmt *s : b) st(s, ind); }
	void line(int ind, const std::string &s) { o += std::string((size_t)ind * 2, ' ') + s + "\n"; }
	void st(Stmt *s, int ind)
	{
		switch (s->k) {
		case SAssign: line(ind, pbt::strf("v%d = ", s->dst) + ex(s->e)); break;
		case SStore: line(ind, std::string(s->vol ? "vstore." : "store.") + mode_names[s->mode] + "[" + ex(s->e) + "] = " + ex(s->e2)); break;
		case SIf:
			line(ind, "if " + ex(s->e) + (s->e2 ? (s->short_or ? " || " : " && ") + ex(s->e2) : ""));
			blk(s->b1, ind + 1);
			if (!s->b2.empty()) { line(ind, "else"); blk(s->b2, ind + 1); }
			break;
		case SLoop:
			if (s->fuel >= 0) line(ind, pbt::strf("loop(form %d, fuel v%d=", s->form, s->fuel) + ex(s->e) + ") while " + ex(s->e3));
			else line(ind, pbt::strf("for(form %d) v%d = ", s->form, s->dst) + ex(s->e) + pbt::strf("; rel %u ", s->rel) + ex(s->e2) + pbt::strf("; += %lld", (long long)s->step) + (s->neg ? " (inverted test)" : ""));
			blk(s->b1, ind + 1);
			break;
		case SLoopP:
			line(ind, pbt::strf("ptrloop(form %d) v%d = ", s->form, s->dst) + ex(s->e) + pbt::strf(" bytes %lld..%lld step %lld rel %u", (long long)s->ranges[0].first, (long long)s->ranges[0].second, (long long)s->step, s->rel));
			blk(s->b1, ind + 1);
			break;
		case SSwitch:
			line(ind, "switch " + ex(s->e));
			for (size_t i = 0; i < s->cases.size(); ++i) {
				line(ind, pbt::strf("case %lld..%lld%s:", (long long)s->ranges[i].first, (long long)s->ranges[i].second, s->fall[i] ? " (falls)" : ""));
				blk(s->cases[i], ind + 1);
			}
			line(ind, "default:");
			blk(s->b1, ind + 1);
			break;
		case SReturn: line(ind, "return " + (s->e ? ex(s->e) : "")); break;
		case SBreak: line(ind, "break"); break;
		case SContinue: line(ind, "continue"); break;
		case SCall: case SExt: {
			std::string l = s->dst >= 0 ? pbt::strf("v%d = ", s->dst) : "";
			l += s->k == SExt ? pbt::strf("ext%d(", s->callee) : s->callee >= 0 ? pbt::strf("f%d(", s->callee) : "(*" + ex(s->e) + ")(";
			for (size_t i = 0; i < s->args.size(); ++i) l += (i ? ", " : "") + ex(s->args[i]);
			line(ind, l + ")");
			break;
		}
		case SCopyB: line(ind, "copyb " + ex(s->e) + " <- " + ex(s->e2) + pbt::strf(" type %d", s->type)); break;
		case SCfg:
			line(ind, pbt::strf("cfg fuel v%d = ", s->fuel) + ex(s->e));
			for (size_t i = 0; i < s->cfg.size(); ++i) {
				CfgBlock &c = s->cfg[i];
				line(ind, pbt::strf("L%zu:", i));
				blk(c.body, ind + 1);
				std::string l = c.kind == 0 ? "goto" : c.kind == 1 ? "cond " + ex(c.cond) : "switch " + ex(c.cond);
				for (size_t k = 0; k < c.succ.size(); ++k) l += (c.kind == 2 && k ? pbt::strf(" %llu->", (unsigned long long)c.cases[k - 1]) : " ") + pbt::strf("L%d", c.succ[k]);
				line(ind + 1, l);
			}
			break;
		default: break;
		}
	}
};
} // namespace

void gen_program(Tape &t, const GenCfg &cfg, const Arch &arch, Program &p)
{
	G g(t, cfg, arch, p);
	g.run();
}

std::string show(const Program &p)
{
	Show s{p, ""};
	for (size_t i = 0; i < p.types.size(); ++i) {
		const ObjType &ot = p.types[i];
		std::string l = pbt::strf("type %zu: ", i);
		if (ot.is_struct) {
			l += "struct {";
			for (const Field &f : ot.fields) l += f.is_arr ? pbt::strf(" %s[%u]", mode_names[f.mode], f.n) : pbt::strf(" %s", mode_names[f.mode]);
			l += " }";
		} else l += pbt::strf("%s[%u]", mode_names[ot.mode], ot.n);
		s.line(0, l);
	}
	for (size_t i = 0; i < p.globals.size(); ++i) {
		const Global &g = p.globals[i];
		std::string l = pbt::strf("global g%zu: type %d%s%s init", i, g.type, g.is_private ? " private" : "", g.is_const ? " const" : "");
		for (uint64_t v : g.init) l += pbt::strf(" %llx", (unsigned long long)v);
		s.line(0, l);
	}
	for (size_t i = 0; i < p.funcs.size(); ++i) {
		const Func &f = p.funcs[i];
		const Sig &sg = p.sigs[(size_t)f.sig];
		std::string l = pbt::strf("%s %s f%zu(", f.is_private ? "private" : "public", mode_names[sg.ret], i);
		for (size_t k = 0; k < sg.params.size(); ++k) l += pbt::strf("%sv%zu:%s", k ? ", " : "", k, mode_names[sg.params[k]]) + (f.ptypes[k] >= 0 ? pbt::strf("*t%d", f.ptypes[k]) : "");
		l += ")";
		for (size_t k = 0; k < f.frame.size(); ++k) l += pbt::strf(" frame%zu:t%d%s", k, f.frame[k], f.frame_init[k] ? "" : " uninit");
		s.line(0, l);
		s.blk(f.body, 1);
		s.line(1, "return " + (f.ret ? s.ex(f.ret) : ""));
	}
	for (auto &v : p.vectors) {
		std::string l = "input:";
		for (size_t i = 0; i < v.size(); ++i) l += " " + Show::num(v[i], p.sigs[(size_t)p.funcs[0].sig].params[i]);
		s.line(0, l);
	}
	return s.o;
}

uint64_t prog_hash(const Program &p)
{
	std::string s = show(p);
	return pbt::hash_bytes(s.data(), s.size());
}
