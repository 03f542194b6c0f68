// Reference evaluator of the source language.  Independent of libfirm.
#include "prog.h"

std::vector<Elem> elems(const ObjType &t, const Arch &a)
{
	std::vector<Elem> r;
	unsigned off = 0;
	if (!t.is_struct) {
		for (unsigned i = 0; i < t.n; ++i) { r.push_back({t.mode, off, -1, i}); off += mbits(t.mode, a) / 8; }
		return r;
	}
	for (size_t f = 0; f < t.fields.size(); ++f) {
		unsigned sz = mbits(t.fields[f].mode, a) / 8;
		off = (off + sz - 1) / sz * sz;
		for (unsigned k = 0; k < t.fields[f].n; ++k) { r.push_back({t.fields[f].mode, off, (int)f, k}); off += sz; }
	}
	return r;
}
unsigned own_size(const ObjType &t, const Arch &a)
{
	std::vector<Elem> e = elems(t, a);
	unsigned end = e.back().off + mbits(e.back().mode, a) / 8;
	return (end + 7) & ~7u;
}
uint64_t frame_init_val(M m, unsigned i)
{
	if (m == MF) return f2u((float)i + 1);
	if (m == MD) return d2u((double)i + 2);
	return i * 7 + 3;
}

namespace {
struct Undef { const char *why; };
struct OutOfFuel {};

struct Obj { std::vector<uint8_t> d, st; bool ro; }; // st: 0 never written, 1 plain, 2/3 bits of a float/double NaN
const unsigned FN = 0xF0000000u;

struct Ev {
	const Program &p;
	const Arch    &ar;
	EvalStats     &st;
	uint64_t       fuel = 0;
	std::vector<Obj> objs;
	std::vector<uint64_t> memo, stamp;
	uint64_t epoch = 0;
	std::map<const Expr *, size_t> eid;
	RunResult *rr = nullptr;
	int depth = 0;

	Ev(const Program &p, const Arch &a, EvalStats &st) : p(p), ar(a), st(st)
	{
		size_t n = 0;
		for (const Expr &e : p.earena) eid[&e] = n++;
		memo.resize(n);
		stamp.resize(n);
		for (const Global &g : p.globals) {
			const ObjType &ot = p.types[(size_t)g.type];
			Obj o;
			o.d.assign(own_size(ot, ar), 0);
			o.st.assign(o.d.size(), 1);
			o.ro = g.is_const;
			std::vector<Elem> es = elems(ot, ar);
			for (size_t i = 0; i < g.init.size() && i < es.size(); ++i) put(o, es[i].off, es[i].mode, g.init[i]);
			objs.push_back(o);
		}
	}
	void put(Obj &o, unsigned off, M m, uint64_t v)
	{
		unsigned n = mbits(m, ar) / 8;
		bool nan = mfloat(m) && (m == MF ? std::isnan(u2f(v)) : std::isnan(u2d(v)));
		for (unsigned i = 0; i < n; ++i) {
			o.d[off + i]  = (uint8_t)(v >> 8 * (ar.big_endian ? n - 1 - i : i));
			o.st[off + i] = nan ? m == MF ? 2 : 3 : 1;
		}
	}
	Obj &at(uint64_t ptr, unsigned size, unsigned &off)
	{
		uint32_t x = (uint32_t)ptr;
		size_t id = x >> 16;
		if (ptr == 0 || id == 0 || id > objs.size() || ptr >> 32) throw Undef{"bad pointer"};
		off = x & 0xffff;
		Obj &o = objs[id - 1];
		if (off + size > o.d.size()) throw Undef{"out of bounds"};
		if (o.d.empty()) throw Undef{"dead object"};
		return o;
	}
	uint64_t load(uint64_t ptr, M m)
	{
		++st.loads;
		unsigned n = mbits(m, ar) / 8, off;
		Obj &o = at(ptr, n, off);
		uint64_t v = 0;
		unsigned nan = 0;
		for (unsigned i = 0; i < n; ++i) {
			if (o.st[off + i] == 0) throw Undef{"uninitialised read"};
			if (o.st[off + i] >= 2) nan += mfloat(m) && o.st[off + i] == (m == MF ? 2 : 3) ? 1 : 100;
			v |= (uint64_t)o.d[off + i] << 8 * (ar.big_endian ? n - 1 - i : i);
		}
		if (nan && (nan != n || !mfloat(m))) throw Undef{"bits of a NaN"};
		if (mfloat(m)) return nan_canon(v, m);
		return canon(v, n * 8, msigned(m));
	}
	void store(uint64_t ptr, M m, uint64_t v)
	{
		++st.stores;
		unsigned n = mbits(m, ar) / 8, off;
		Obj &o = at(ptr, n, off);
		if (o.ro) throw Undef{"write to constant"};
		put(o, off, m, v);
	}
	uint64_t mk(size_t id, uint64_t off) { return ((id + 1) << 16) + off; }

	struct Frame { const Func *f; std::vector<uint64_t> l; std::vector<size_t> objs; uint64_t ret = 0; };

	uint64_t top(Frame &f, E e)
	{
		++epoch;
		return ev(f, e);
	}
	uint64_t ev(Frame &f, E e)
	{
		size_t id = eid[e];
		if (stamp[id] == epoch) return memo[id];
		uint64_t v = ev2(f, e);
		stamp[id] = epoch;
		memo[id]  = v;
		return v;
	}
	uint64_t ptrmask(uint64_t v) { return canon(v, ar.ptr_bits, false); }
	uint64_t ev2(Frame &f, E e)
	{
		tick();
		M m = e->mode;
		switch (e->op) {
		case OConst: return e->c;
		case OLocal: return f.l[e->c];
		case OAddrG: return mk(e->c, 0);
		case OAddrF: return mk(f.objs[e->c], 0);
		case OFuncAddr: return FN + e->c;
		case OLoad: return load(ev(f, e->k[0]), m);
		case OSel: {
			uint64_t b = ev(f, e->k[0]), i = ev(f, e->k[1]);
			M em;
			if (e->type >= 0x10000) { int x = e->type - 0x10000; em = p.types[(size_t)(x / 256)].fields[(size_t)(x % 256)].mode; }
			else em = p.types[(size_t)e->type].mode;
			return ptrmask(b + i * (mbits(em, ar) / 8));
		}
		case OMember: {
			uint64_t b = ev(f, e->k[0]);
			for (const Elem &x : elems(p.types[(size_t)e->type], ar)) if (x.field == (int)e->c) return b + x.off;
			return 0;
		}
		case OPtrAdd: { uint64_t a = ev(f, e->k[0]); return ptrmask(a + ev(f, e->k[1])); }
		case OMux: {
			uint64_t c = ev(f, e->k[0]), a = ev(f, e->k[1]), b = ev(f, e->k[2]);
			return c ? b : a;
		}
		case OCmp: {
			uint64_t a = ev(f, e->k[0]), b = ev(f, e->k[1]);
			return (sem_relation(a, b, e->k[0]->mode) & e->c) != 0;
		}
		case OConv: {
			uint64_t r, v = ev(f, e->k[0]);
			if (!sem_conv(v, e->k[0]->mode, m, ar, r)) throw Undef{"float conversion out of range"};
			return r;
		}
		case OBitcast: {
			uint64_t v = ev(f, e->k[0]);
			M from = e->k[0]->mode;
			if (mfloat(from) && (from == MF ? std::isnan(u2f(v)) : std::isnan(u2d(v)))) throw Undef{"bits of a NaN"};
			if (mfloat(m)) return nan_canon(canon(v, mbits(m, ar), false), m);
			return canon(v, mbits(m, ar), msigned(m));
		}
		case OBuiltin: {
			uint64_t r, v = ev(f, e->k[0]);
			if (!sem_builtin((BK)e->c, v, mbits(e->k[0]->mode, ar), r)) throw Undef{"builtin of zero"};
			return canon(r, mbits(m, ar), msigned(m));
		}
		case OMinus: {
			uint64_t v = ev(f, e->k[0]);
			if (m == MF) return nan_canon(f2u(-u2f(v)), m);
			if (m == MD) return nan_canon(d2u(-u2d(v)), m);
			return canon(0 - v, mbits(m, ar), msigned(m));
		}
		case ONot: {
			uint64_t v = ev(f, e->k[0]);
			if (m == Mb) return !v;
			return canon(~v, mbits(m, ar), msigned(m));
		}
		default: break;
		}
		uint64_t a = ev(f, e->k[0]), b = ev(f, e->k[1]), r = 0;
		if (m == Mb) return e->op == OAnd ? a & b : e->op == OOr ? a | b : a ^ b;
		if (mfloat(m)) { sem_fbinop(e->op, a, b, m, r, ar.x87); return r; }
		unsigned w = mbits(m, ar);
		if (e->op >= OShl && e->op <= OShrs) b = canon(b, mbits(e->k[1]->mode, ar), false);
		if (e->op == OSub && e->k[0]->mode == MP) return canon(a - b, w, msigned(m));
		if (!sem_binop(e->op, a, b, w, msigned(m), std::max(w, ar.shift_min), r)) throw Undef{"division"};
		return r;
	}
	void tick()
	{
		++st.steps;
		if (fuel-- == 0) { fuel = 0; throw OutOfFuel{}; }
	}

	enum Flow { NEXT_, BREAK_, CONT_, RET_ };
	Flow blk(Frame &f, const Block &b)
	{
		for (Stmt *s : b) { Flow x = st1(f, s); if (x != NEXT_) return x; }
		return NEXT_;
	}
	Flow st1(Frame &f, Stmt *s)
	{
		tick();
		switch (s->k) {
		case SAssign: f.l[(size_t)s->dst] = top(f, s->e); return NEXT_;
		case SStore: {
			uint64_t a = top(f, s->e), v = top(f, s->e2);
			store(a, s->mode, v);
			return NEXT_;
		}
		case SIf: {
			bool c = top(f, s->e);
			++st.branches;
			if (s->e2) { if (s->short_or) c = c || top(f, s->e2); else c = c && top(f, s->e2); }
			return blk(f, c ? s->b1 : s->b2);
		}
		case SLoop: case SLoopP: {
			uint64_t base = 0, end = 0;
			if (s->k == SLoopP) {
				base = top(f, s->e);
				f.l[(size_t)s->dst] = ptrmask(base + (uint64_t)s->ranges[0].first);
				end = ptrmask(base + (uint64_t)s->ranges[0].second);
			} else f.l[(size_t)(s->fuel >= 0 ? s->fuel : s->dst)] = top(f, s->e);
			bool first = true;
			for (;;) {
				if (s->form == 0 || !first) {
					bool c;
					if (s->fuel >= 0) {
						uint64_t &fl = f.l[(size_t)s->fuel];
						c = (int64_t)fl > 0;
						if (c) c = top(f, s->e3) != 0;
						if (c) fl = canon(fl - 1, 32, true);
					} else if (s->k == SLoopP) c = sem_relation(f.l[(size_t)s->dst], end, MP) & s->rel;
					else { uint64_t b = top(f, s->e2); c = sem_relation(f.l[(size_t)s->dst], b, f.f->locals[(size_t)s->dst].mode) & s->rel; }
					++st.branches;
					if (!c) break;
				}
				first = false;
				++st.loop_iters;
				tick();
				Flow x = blk(f, s->b1);
				if (x == BREAK_) break;
				if (x == RET_) return x;
				if (s->fuel < 0) {
					uint64_t &v = f.l[(size_t)s->dst];
					M m = f.f->locals[(size_t)s->dst].mode;
					v = canon(v + (uint64_t)s->step, mbits(m, ar), msigned(m));
				}
			}
			return NEXT_;
		}
		case SSwitch: {
			uint64_t v = top(f, s->e);
			++st.branches;
			size_t i = 0;
			for (; i < s->cases.size(); ++i) {
				auto [lo, hi] = s->ranges[i];
				if (msigned(s->e->mode) ? (int64_t)v >= lo && (int64_t)v <= hi : v >= (uint64_t)lo && v <= (uint64_t)hi) break;
			}
			if (i == s->cases.size()) return blk(f, s->b1);
			for (;; ++i) {
				Flow x = blk(f, s->cases[i]);
				if (x != NEXT_) return x;
				if (!s->fall[i]) return NEXT_;
				if (i + 1 == s->cases.size()) return blk(f, s->b1);
			}
		}
		case SReturn: f.ret = s->e ? top(f, s->e) : 0; return RET_;
		case SBreak: return BREAK_;
		case SContinue: return CONT_;
		case SCall: {
			int c = s->callee;
			if (c < 0) c = (int)(top(f, s->e) - FN);
			std::vector<uint64_t> a;
			for (E e : s->args) a.push_back(top(f, e));
			uint64_t r = call(c, a);
			if (s->dst >= 0) f.l[(size_t)s->dst] = r;
			return NEXT_;
		}
		case SExt: {
			std::vector<uint64_t> a;
			for (E e : s->args) a.push_back(top(f, e));
			uint64_t r = ext_result(s->callee, a, ar);
			rr->trace.push_back({s->callee, a});
			if (s->dst >= 0) f.l[(size_t)s->dst] = r;
			return NEXT_;
		}
		case SCopyB: {
			uint64_t d = top(f, s->e), src = top(f, s->e2);
			unsigned n = own_size(p.types[(size_t)s->type], ar), o1, o2;
			Obj &a = at(d, n, o1), &b = at(src, n, o2);
			if (a.ro) throw Undef{"write to constant"};
			for (unsigned i = 0; i < n; ++i) { a.d[o1 + i] = b.d[o2 + i]; a.st[o1 + i] = b.st[o2 + i]; }
			++st.stores;
			return NEXT_;
		}
		case SCfg: {
			f.l[(size_t)s->fuel] = top(f, s->e);
			size_t cur = 0;
			for (;;) {
				const CfgBlock &c = s->cfg[cur];
				tick();
				// every block checks the fuel first
				uint64_t &fl = f.l[(size_t)s->fuel];
				if ((int64_t)fl <= 0) return NEXT_;
				fl = canon(fl - 1, 32, true);
				Flow x = blk(f, c.body);
				if (x != NEXT_) return x;
				int nx;
				++st.branches;
				if (c.kind == 0) nx = c.succ[0];
				else if (c.kind == 1) nx = c.succ[top(f, c.cond) ? 0 : 1];
				else {
					uint64_t v = top(f, c.cond);
					nx = c.succ[0];
					for (size_t k = 0; k < c.cases.size(); ++k) if (c.cases[k] == v) nx = c.succ[k + 1];
				}
				if ((size_t)nx == s->cfg.size()) return NEXT_;
				cur = (size_t)nx;
			}
		}
		default: return NEXT_;
		}
	}
	uint64_t call(int fi, const std::vector<uint64_t> &args)
	{
		const Func &fn = p.funcs[(size_t)fi];
		++st.calls;
		if (++depth > 200) throw OutOfFuel{};
		Frame f;
		f.f = &fn;
		f.l.assign(fn.locals.size(), 0);
		for (size_t i = 0; i < args.size(); ++i) f.l[i] = args[i];
		for (size_t i = 0; i < fn.frame.size(); ++i) {
			const ObjType &ot = p.types[(size_t)fn.frame[i]];
			if (objs.size() > 60000) throw OutOfFuel{};
			Obj o;
			o.d.assign(own_size(ot, ar), 0);
			o.st.assign(o.d.size(), 0);
			o.ro = false;
			if (fn.frame_init[i]) {
				unsigned k = 0;
				for (const Elem &e : elems(ot, ar)) put(o, e.off, e.mode, frame_init_val(e.mode, k++));
			}
			f.objs.push_back(objs.size());
			objs.push_back(o);
		}
		Flow x = blk(f, fn.body);
		if (x != RET_) f.ret = fn.ret ? top(f, fn.ret) : 0;
		for (size_t o : f.objs) objs[o] = Obj();
		--depth;
		return f.ret;
	}
};
} // namespace

std::vector<RunResult> eval_program(const Program &p, const Arch &arch, EvalStats &st, uint64_t fuel)
{
	std::vector<RunResult> out;
	Ev ev(p, arch, st);
	for (auto &in : p.vectors) {
		RunResult r;
		ev.rr    = &r;
		ev.fuel  = fuel;
		ev.depth = 0;
		try {
			r.ret = ev.call(0, in);
		} catch (Undef &u) {
			break;
		} catch (OutOfFuel &) {
			break;
		}
		for (size_t g = 0; g < p.globals.size(); ++g) {
			std::vector<uint64_t> vals;
			std::vector<uint8_t>  def;
			for (const Elem &e : elems(p.types[(size_t)p.globals[g].type], arch)) {
				unsigned n = mbits(e.mode, arch) / 8;
				uint64_t v = 0;
				bool ok = true;
				for (unsigned i = 0; i < n; ++i) {
					if (ev.objs[g].st[e.off + i] != 1) ok = false;
					v |= (uint64_t)ev.objs[g].d[e.off + i] << 8 * (arch.big_endian ? n - 1 - i : i);
				}
				vals.push_back(canon(v, n * 8, false));
				def.push_back(ok);
			}
			r.globals.push_back(vals);
			r.gdef.push_back(def);
		}
		out.push_back(std::move(r));
	}
	return out;
}
