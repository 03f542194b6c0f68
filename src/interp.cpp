#include <memory>
#include "interp.h"
#include <algorithm>
#include <set>
#include <unordered_map>

ObsFn interp_observer;
void *interp_observer_env;
BlkFn interp_block_observer;
MemFn interp_mem_observer;
CallFn interp_call_observer;
PertFn interp_perturb;

namespace {
// part: of a poison value, the bytes that are undefined (0: all of them)
struct V { uint64_t v = 0; bool poison = false; uint8_t part = 0; };
struct Err { std::string m; bool unsup = false; };
[[noreturn]] void err(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void err(const char *fmt, ...)
{
	char buf[400];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	throw Err{buf};
}

struct MI { unsigned bits; bool sign; int kind; unsigned modsh; }; // kind 0 int/ref, 1 float, 2 b, 3 other

enum K { kNop, kConst, kUnop, kBin, kDivMod, kCmp, kMux, kConv, kBitcast, kLoad, kStore, kCall, kCopyB, kBuiltin, kSel, kMember, kAddress, kProj, kTuple, kTerm, kCond, kSwitch,
	kReturn, kStart, kPass, kUnknown, kOffset, kSpecial, kBad, kAlloc, kPhi, kFreeze };

struct N {
	ir_node *n;
	K k;
	MI m;
	std::vector<int> in;   // local indices (memory inputs too)
	uint64_t c = 0;        // constant
	unsigned op = 0;
	int mem = -1;          // the memory operand of an operation on memory
	bool isM = false;      // a memory value
};
struct BB {
	ir_node *blk;
	std::vector<int> order, phis;
	int term = -1;
	bool visited = false;
};
struct Fn {
	ir_graph *irg;
	std::vector<N> ns;
	std::vector<BB> bbs;
	std::unordered_map<ir_node *, int> idx, bidx;
	std::unordered_map<ir_node *, std::pair<int, int>> succ; // X node -> (block, pred position)
	std::map<std::pair<int, unsigned>, ir_node *> xproj;     // (terminator, proj num) -> X node
	int start_bb = 0, end_bb = -1;
};

// which effects of the current activation a memory value stands for
typedef std::shared_ptr<const std::vector<uint64_t>> Tok;

struct O { uint64_t base, size; std::vector<uint8_t> d, st; bool ro, live; };

struct In {
	const Program &p;
	const TargetDesc &td;
	const Arch &ar;
	const Built &b;
	uint64_t fuel = 0, steps = 0;
	pbt::Rng rng;
	std::map<ir_graph *, Fn *> fns;
	std::map<uint64_t, O *> objs;
	std::unordered_map<ir_entity *, uint64_t> addr;
	std::unordered_map<uint64_t, ir_entity *> ent_at;
	uint64_t next_addr = 0x10000, next_act = 0;
	RunResult *rr = nullptr;
	int depth = 0;

	In(const Program &p, const TargetDesc &t, const Built &b, uint64_t seed) : p(p), td(t), ar(t.arch), b(b), rng(seed) {}
	~In() { for (auto &f : fns) delete f.second; for (auto &o : objs) delete o.second; }

	static MI mi(ir_mode *m)
	{
		if (m == mode_b) return {1, false, 2, 0};
		if (mode_is_int(m) || mode_is_reference(m)) return {get_mode_size_bits(m), (bool)mode_is_signed(m), 0, mode_is_int(m) ? get_mode_modulo_shift(m) : 0};
		if (mode_is_float(m)) return {get_mode_size_bits(m), true, 1, 0};
		return {0, false, 3, 0};
	}
	static uint64_t tvbits(ir_tarval *tv)
	{
		ir_mode *m = get_tarval_mode(tv);
		if (m == mode_b) return tv == tarval_b_true;
		unsigned n = get_mode_size_bytes(m);
		if (n > 8) throw Err{"wide constant", true};
		uint64_t v = 0;
		for (unsigned i = 0; i < n; ++i) v |= (uint64_t)get_tarval_sub_bits(tv, i) << 8 * i;
		if (!mode_is_float(m)) v = canon(v, get_mode_size_bits(m), mode_is_signed(m));
		return v;
	}

	// ---- memory ----
	O *alloc(uint64_t size, uint64_t align, bool defined, bool ro)
	{
		if (align < 16) align = 16;
		next_addr = (next_addr + align - 1) / align * align;
		O *o = new O{next_addr, size, std::vector<uint8_t>(size, 0), std::vector<uint8_t>(size, defined), ro, true};
		objs[next_addr] = o;
		next_addr += size + 64;
		if (next_addr > 0xfff00000u) throw Err{"address space exhausted", true};
		return o;
	}
	O *find(uint64_t a, uint64_t n)
	{
		auto it = objs.upper_bound(a);
		if (it == objs.begin()) return nullptr;
		O *o = (--it)->second;
		if (a < o->base || a + n > o->base + o->size || !o->live) return nullptr;
		return o;
	}
	void put(O *o, uint64_t off, unsigned n, uint64_t v, bool def)
	{
		for (unsigned i = 0; i < n; ++i) {
			o->d[off + i]  = (uint8_t)(v >> 8 * (ar.big_endian ? n - 1 - i : i));
			o->st[off + i] = def;
		}
	}
	void init_compound(O *o, uint64_t off, ir_type *ty, ir_initializer_t *in)
	{
		switch (get_initializer_kind(in)) {
		case IR_INITIALIZER_NULL: return;
		case IR_INITIALIZER_TARVAL: {
			ir_tarval *tv = get_initializer_tarval_value(in);
			put(o, off, get_mode_size_bytes(get_tarval_mode(tv)), tvbits(tv), true);
			return;
		}
		case IR_INITIALIZER_CONST: {
			ir_node *n = get_initializer_const_value(in);
			if (is_Const(n)) { put(o, off, get_mode_size_bytes(get_irn_mode(n)), tvbits(get_Const_tarval(n)), true); return; }
			if (is_Address(n)) { put(o, off, ar.ptr_bits / 8, entity_addr(get_Address_entity(n)), true); return; }
			throw Err{"initializer", true};
		}
		case IR_INITIALIZER_COMPOUND:
			for (size_t i = 0; i < get_initializer_compound_n_entries(in); ++i) {
				ir_initializer_t *s = get_initializer_compound_value(in, i);
				if (is_Array_type(ty)) init_compound(o, off + i * get_type_size(get_array_element_type(ty)), get_array_element_type(ty), s);
				else {
					ir_entity *e = get_compound_member(ty, i);
					init_compound(o, off + (uint64_t)get_entity_offset(e), get_entity_type(e), s);
				}
			}
		}
	}
	uint64_t entity_addr(ir_entity *e)
	{
		while (is_alias_entity(e)) e = get_entity_alias(e);
		auto it = addr.find(e);
		if (it != addr.end()) return it->second;
		uint64_t a;
		if (is_method_entity(e)) {
			O *o = alloc(16, 16, false, true);
			a = o->base;
			o->live = false;
			addr[e] = a;
			ent_at[a] = e;
			return a;
		}
		ir_type *t = get_entity_type(e);
		O *o = alloc(get_type_size(t), get_type_alignment(t), true, (get_entity_linkage(e) & IR_LINKAGE_CONSTANT) != 0);
		addr[e] = o->base;
		if (get_entity_initializer(e)) {
			init_compound(o, 0, t, get_entity_initializer(e));
		}
		return o->base;
	}
	V load(V a, unsigned n)
	{
		if (a.poison) return {0, true}; // a speculated load: only a problem if its value matters
		O *o = find(a.v, n);
		if (!o) return {0, true};
		V r;
		uint64_t off = a.v - o->base;
		for (unsigned i = 0; i < n; ++i) {
			unsigned pos = ar.big_endian ? n - 1 - i : i;
			if (!o->st[off + i]) { r.poison = true; r.part |= (uint8_t)(1u << (pos & 7)); }
			r.v |= (uint64_t)o->d[off + i] << 8 * pos;
		}
		if (r.part == (uint8_t)((1u << n) - 1)) r.part = 0;
		return r;
	}
	void store(V a, unsigned n, V v)
	{
		if (a.poison) err("store through an undefined address");
		O *o = find(a.v, n);
		if (!o) err("store to 0x%llx outside every live object", (unsigned long long)a.v);
		if (o->ro) err("store to a constant object");
		put(o, a.v - o->base, n, v.v, !v.poison);
		if (v.poison && v.part)
			for (unsigned i = 0; i < n; ++i) o->st[a.v - o->base + i] = !(v.part >> (ar.big_endian ? n - 1 - i : i) & 1);
	}

	// ---- preparation ----
	Fn *prep(ir_graph *irg)
	{
		auto it = fns.find(irg);
		if (it != fns.end()) return it->second;
		Fn *f = new Fn;
		fns[irg] = f;
		f->irg = irg;
		// collect everything reachable
		std::vector<ir_node *> all, work{get_irg_end(irg), get_irg_start(irg)};
		std::set<ir_node *> seen(work.begin(), work.end());
		auto push = [&](ir_node *n) { if (n && seen.insert(n).second) work.push_back(n); };
		while (!work.empty()) {
			ir_node *n = work.back();
			work.pop_back();
			all.push_back(n);
			if (!is_Block(n)) push(get_nodes_block(n));
			for (int i = 0; i < get_irn_arity(n); ++i) push(get_irn_n(n, i));
		}
		std::sort(all.begin(), all.end(), [](ir_node *a, ir_node *c) { return get_irn_idx(a) < get_irn_idx(c); });
		for (ir_node *n : all) {
			if (is_Block(n)) {
				f->bidx[n] = (int)f->bbs.size();
				f->bbs.push_back({n, {}, {}, -1, false});
			} else f->idx[n] = -2;
		}
		for (ir_node *n : all) {
			if (is_Block(n)) continue;
			f->idx[n] = (int)f->ns.size();
			f->ns.push_back(N{n, kNop, mi(get_irn_mode(n)), {}, 0, 0});
		}
		for (auto &bb : f->bbs)
			for (int i = 0; i < get_Block_n_cfgpreds(bb.blk); ++i) {
				ir_node *x = get_Block_cfgpred(bb.blk, i);
				if (is_Bad(x)) continue;
				if (f->succ.count(x)) err("control flow edge %ld used twice", get_irn_node_nr(x));
				f->succ[x] = {f->bidx[bb.blk], i};
			}
		f->start_bb = f->bidx.at(get_irg_start_block(irg));
		f->end_bb   = f->bidx.count(get_irg_end_block(irg)) ? f->bidx[get_irg_end_block(irg)] : -1;
		std::vector<std::vector<int>> members(f->bbs.size());
		for (size_t i = 0; i < f->ns.size(); ++i) {
			N &n = f->ns[i];
			ir_node *blk = get_nodes_block(n.n);
			if (is_Bad(blk) || !is_Block(blk)) { n.k = kBad; continue; }
			classify(*f, n);
			for (int k = 0; k < get_irn_arity(n.n); ++k) {
				ir_node *o = get_irn_n(n.n, k);
				n.in.push_back(is_Block(o) ? -1 : f->idx.at(o));
				if (n.mem < 0 && !is_Block(o) && get_irn_mode(o) == mode_M && !is_Sync(n.n) && !is_Phi(n.n) && !is_End(n.n) && !is_Tuple(n.n)) n.mem = n.in.back();
			}
			n.isM = get_irn_mode(n.n) == mode_M;
			int bi = f->bidx.at(blk);
			if (n.k == kPhi) f->bbs[(size_t)bi].phis.push_back((int)i);
			else members[(size_t)bi].push_back((int)i);
		}
		for (size_t bi = 0; bi < f->bbs.size(); ++bi) schedule(*f, (int)bi, members[bi]);
		return f;
	}
	void schedule(Fn &f, int bi, std::vector<int> &ms)
	{
		std::unordered_map<int, int> need;
		std::unordered_map<int, std::vector<int>> users;
		for (int i : ms) {
			int c = 0;
			if (is_End(f.ns[(size_t)i].n)) { need[i] = 0; continue; } // keep-alives are not evaluated
			for (int o : f.ns[(size_t)i].in) {
				if (o < 0) continue;
				N &on = f.ns[(size_t)o];
				if (on.k == kPhi || on.k == kBad) continue;
				ir_node *ob = get_nodes_block(on.n);
				if (f.bidx.count(ob) && f.bidx[ob] == bi && std::find(users[o].begin(), users[o].end(), i) == users[o].end()) { users[o].push_back(i); ++c; }
			}
			need[i] = c;
		}
		std::vector<int> ready;
		for (int i : ms) if (need[i] == 0) ready.push_back(i);
		BB &bb = f.bbs[(size_t)bi];
		while (!ready.empty()) {
			size_t k = (size_t)(rng.next() % ready.size());
			int i = ready[k];
			ready[k] = ready.back();
			ready.pop_back();
			bb.order.push_back(i);
			for (int u : users[i]) if (--need[u] == 0) ready.push_back(u);
		}
		if (bb.order.size() != ms.size()) {
			long nr = 0;
			for (int i : ms) if (need[i] > 0) nr = get_irn_node_nr(f.ns[(size_t)i].n);
			err("cyclic dependencies without a Phi in block %ld (node %ld)", get_irn_node_nr(bb.blk), nr);
		}
		for (int i : ms) {
			N &n = f.ns[(size_t)i];
			if (n.k == kTerm || n.k == kCond || n.k == kSwitch || n.k == kReturn) {
				if (bb.term >= 0 && bb.term != i) err("block %ld has two terminators", get_irn_node_nr(bb.blk));
				bb.term = i;
			}
		}
	}
	void classify(Fn &f, N &n)
	{
		ir_node *x = n.n;
		switch (get_irn_opcode(x)) {
		case iro_Const: n.k = kConst; if (n.m.kind != 3) n.c = tvbits(get_Const_tarval(x)); return;
		case iro_Address: n.k = kAddress; return;
		case iro_Offset: n.k = kConst; n.c = (uint64_t)get_entity_offset(get_Offset_entity(x)); return;
		case iro_Size: n.k = kConst; n.c = get_type_size(get_Size_type(x)); return;
		case iro_Align: n.k = kConst; n.c = get_type_alignment(get_Align_type(x)); return;
		case iro_Add: n.k = kBin; n.op = OAdd; return;
		case iro_Sub: n.k = kBin; n.op = OSub; return;
		case iro_Mul: n.k = kBin; n.op = OMul; return;
		case iro_Mulh: n.k = kBin; n.op = OMulh; return;
		case iro_And: n.k = kBin; n.op = OAnd; return;
		case iro_Or: n.k = kBin; n.op = OOr; return;
		case iro_Eor: n.k = kBin; n.op = OEor; return;
		case iro_Shl: n.k = kBin; n.op = OShl; return;
		case iro_Shr: n.k = kBin; n.op = OShr; return;
		case iro_Shrs: n.k = kBin; n.op = OShrs; return;
		case iro_Div: n.k = kDivMod; n.op = ODiv; n.m = mi(get_Div_resmode(x)); return;
		case iro_Mod: n.k = kDivMod; n.op = OMod; n.m = mi(get_Mod_resmode(x)); return;
		case iro_Minus: n.k = kUnop; n.op = OMinus; return;
		case iro_Not: n.k = kUnop; n.op = ONot; return;
		case iro_Cmp: n.k = kCmp; n.op = (unsigned)get_Cmp_relation(x); return;
		case iro_Mux: n.k = kMux; return;
		case iro_Conv: n.k = kConv; return;
		case iro_Bitcast: n.k = kBitcast; return;
		case iro_Load: n.k = kLoad; n.m = mi(get_Load_mode(x)); return;
		case iro_Store: n.k = kStore; return;
		case iro_Call: n.k = kCall; return;
		case iro_CopyB: n.k = kCopyB; return;
		case iro_Builtin: n.k = kBuiltin; return;
		case iro_Sel: n.k = kSel; return;
		case iro_Member: n.k = kMember; return;
		case iro_Proj: {
			n.k = kProj;
			n.op = get_Proj_num(x);
			if (get_irn_mode(x) == mode_X) {
				n.k = kNop;
				auto it = f.idx.find(get_Proj_pred(x));
				f.xproj[{it->second, n.op}] = x;
			}
			return;
		}
		case iro_Tuple: n.k = kTuple; return;
		case iro_Phi: n.k = kPhi; return;
		case iro_Start: n.k = kStart; return;
		case iro_Jmp: n.k = kTerm; return;
		case iro_Cond: n.k = kCond; return;
		case iro_Switch: n.k = kSwitch; return;
		case iro_Return: n.k = kReturn; return;
		case iro_Unknown: case iro_Dummy: n.k = kUnknown; return;
		case iro_Confirm: case iro_Id: case iro_Pin: n.k = kPass; return;
		case iro_NoMem: case iro_Sync: case iro_End: case iro_Anchor: n.k = kNop; return;
		case iro_Bad: n.k = kBad; return;
		case iro_Alloc: n.k = kAlloc; return;
		case iro_Free: n.k = kNop; return;
		default:
			n.k = kSpecial;
			return;
		}
	}

	// ---- execution ----
	struct Act {
		Fn *f;
		uint64_t id;
		std::vector<V> val;
		std::vector<std::vector<V>> multi; // results of tuple nodes
		std::vector<uint8_t> done;
		std::vector<V> args;
		std::unordered_map<ir_entity *, uint64_t> frame;
		std::vector<O *> own;
		uint64_t frame_tag;
		std::vector<Tok> tok;
		uint64_t neff = 0;
		std::vector<int> eff; // the node behind each effect
	};
	static bool has_eff(const Tok &t, uint64_t e) { return t && e / 64 < t->size() && ((*t)[e / 64] >> e % 64 & 1); }
	Tok token(Act &a, int i)
	{
		if (i < 0 || a.f->ns[(size_t)i].k == kBad) return nullptr;
		if (!a.done[(size_t)i]) err("memory node %ld used before its definition was executed", get_irn_node_nr(a.f->ns[(size_t)i].n));
		return a.tok[(size_t)i];
	}
	static Tok join(const Tok &x, const Tok &y)
	{
		if (!x || x == y) return y;
		if (!y) return x;
		auto r = std::make_shared<std::vector<uint64_t>>(x->size() > y->size() ? *x : *y);
		const std::vector<uint64_t> &o = x->size() > y->size() ? *y : *x;
		for (size_t i = 0; i < o.size(); ++i) (*r)[i] |= o[i];
		return r;
	}
	// memory values only order operations, so following them shows whether an effect got lost
	void exec_mem(Act &a, int i)
	{
		N &n = a.f->ns[(size_t)i];
		Tok &t = a.tok[(size_t)i];
		if (is_Sync(n.n)) {
			Tok r;
			for (int k : n.in) r = join(r, token(a, k));
			t = r;
			return;
		}
		if (n.k == kProj && n.isM && a.f->ns[(size_t)n.in[0]].k == kTuple) {
			N &tn = a.f->ns[(size_t)n.in[0]];
			t = n.op < tn.in.size() ? token(a, tn.in[n.op]) : nullptr;
			return;
		}
		if (n.k == kProj) { t = n.isM ? token(a, n.in[0]) : nullptr; return; }
		if (n.mem < 0) { t = nullptr; return; }
		t = token(a, n.mem);
		if (n.k == kReturn) {
			for (uint64_t e = 0; e < a.neff; ++e)
				if (!has_eff(t, e)) err("the memory at return %ld does not contain the effect of node %ld, which was executed", get_irn_node_nr(n.n), get_irn_node_nr(a.f->ns[(size_t)a.eff[e]].n));
			return;
		}
		if (is_NoMem(a.f->ns[(size_t)n.mem].n)) return; // no side effect claimed
		if (n.k == kStore || n.k == kCopyB || n.k == kCall) {
			if (n.k == kCall)
				for (uint64_t e = 0; e < a.neff; ++e)
					if (a.f->ns[(size_t)a.eff[e]].k == kCall && !has_eff(t, e)) err("call %ld is not ordered after the call %ld, which was executed before", get_irn_node_nr(n.n), get_irn_node_nr(a.f->ns[(size_t)a.eff[e]].n));
			uint64_t e = a.neff++;
			a.eff.push_back(i);
			auto r = t ? std::make_shared<std::vector<uint64_t>>(*t) : std::make_shared<std::vector<uint64_t>>();
			if (r->size() <= e / 64) r->resize(e / 64 + 1);
			(*r)[e / 64] |= 1ull << e % 64;
			t = r;
		}
	}
	static const uint64_t FRAME = 0x7000000000000000ull;

	V fix(V v, const MI &m)
	{
		if (m.kind == 0) v.v = canon(v.v, m.bits, m.sign);
		return v;
	}
	V value(Act &a, int i)
	{
		if (i < 0) err("missing operand");
		if (!a.done[(size_t)i]) {
			if (a.f->ns[(size_t)i].k == kBad || a.f->ns[(size_t)i].m.kind != 3) return {0, true}; // only a problem if its value matters
			err("node %ld used before its definition was executed", get_irn_node_nr(a.f->ns[(size_t)i].n));
		}
		return a.val[(size_t)i];
	}
	// a use by something observable
	V solid(Act &a, int i, const char *what)
	{
		V v = value(a, i);
		if (v.poison) err("%s depends on an undefined value (node %ld)", what, get_irn_node_nr(a.f->ns[(size_t)i].n));
		return v;
	}
	static double fl(uint64_t v, unsigned bits) { return bits == 32 ? (double)u2f(v) : u2d(v); }

	V binop(unsigned op, V l, V r, const MI &m, const MI &lm, const MI &rm)
	{
		if (l.poison && l.part && !r.poison && op == OShr && m.kind == 0 && r.v % 8 == 0 && r.v < m.bits) {
			V x{canon(l.v, m.bits, false) >> r.v, true, (uint8_t)(l.part >> r.v / 8)};
			x.poison = x.part != 0;
			x.v      = canon(x.v, m.bits, m.sign);
			return x;
		}
		if (l.poison || r.poison) return {0, true};
		if (m.kind == 2) return {op == OAnd ? l.v & r.v : op == OOr ? l.v | r.v : op == OEor ? l.v ^ r.v : 0, op > OEor};
		if (m.kind == 1) {
			V x;
			if (m.bits != 32 && m.bits != 64) throw Err{"wide float", true};
			sem_fbinop((Op)op, l.v, r.v, m.bits == 32 ? MF : MD, x.v);
			return x;
		}
		V x;
		if (op >= OShl && op <= OShrs) r.v = canon(r.v, rm.bits, false);
		else if (op == OAdd || op == OSub) { l.v = canon(l.v, lm.bits, lm.sign); }
		if (!sem_binop((Op)op, l.v, r.v, m.bits, m.sign, m.modsh, x.v)) return {0, true};
		return x;
	}
	V conv(V v, const MI &from, const MI &to)
	{
		if (v.poison) {
			if (v.part && from.kind == 0 && to.kind == 0 && to.bits <= from.bits) {
				v.part &= (uint8_t)((1u << to.bits / 8) - 1);
				if (!v.part) return {canon(v.v, to.bits, to.sign), false};
				if (v.part == (uint8_t)((1u << to.bits / 8) - 1)) v.part = 0;
				return v;
			}
			return {0, true};
		}
		if (from.kind == 2) {
			if (to.kind == 1) err("conv b to float");
			return {to.kind == 2 ? v.v : (uint64_t)(v.v != 0), false};
		}
		if (to.kind == 2) {
			if (from.kind == 1) return {fl(v.v, from.bits) != 0, false};
			return {v.v != 0, false};
		}
		if (from.kind == 0 && to.kind == 0) return {canon(v.v, to.bits, to.sign), false};
		V r;
		M fm = from.kind == 1 ? (from.bits == 32 ? MF : MD) : mode_of(from.bits, from.sign);
		M tm = to.kind == 1 ? (to.bits == 32 ? MF : MD) : mode_of(to.bits, to.sign);
		if (!sem_conv(v.v, fm, tm, ar, r.v)) return {0, true};
		return r;
	}
	unsigned relation(V l, V r, const MI &m)
	{
		if (m.kind == 1) return sem_relation(l.v, r.v, m.bits == 32 ? MF : MD);
		if (m.kind == 2) return l.v == r.v ? REQ : l.v < r.v ? RLT : RGT;
		if (m.sign) return l.v == r.v ? REQ : (int64_t)l.v < (int64_t)r.v ? RLT : RGT;
		return l.v == r.v ? REQ : l.v < r.v ? RLT : RGT;
	}
	V frame_entity(Act &a, ir_entity *e)
	{
		auto it = a.frame.find(e);
		if (it != a.frame.end()) return {it->second, false};
		ir_type *t = get_entity_type(e);
		O *o = alloc(std::max(1u, get_type_size(t)), std::max(get_type_alignment(t), 1u), false, false);
		a.own.push_back(o);
		a.frame[e] = o->base;
		if (is_parameter_entity(e)) {
			size_t num = get_entity_parameter_number(e);
			if (num < a.args.size() && get_type_mode(t)) put(o, 0, get_type_size(t), a.args[num].v, !a.args[num].poison);
		}
		return {o->base, false};
	}

	std::vector<V> compilerlib(const std::string &n, const std::vector<V> &a, ir_type *mt);
	std::vector<V> do_call(ir_entity *e, std::vector<V> args, ir_type *mt)
	{
		if (get_entity_irg(e)) return run(get_entity_irg(e), args);
		std::string n = get_entity_ld_name(e);
		for (size_t i = 0; i < b.exts.size(); ++i)
			if (b.exts[i] == e || n == p.prefix + "ext" + std::to_string(i)) {
				std::vector<uint64_t> ea = ext_args(i, args);
				uint64_t r = ext_result((int)i, ea, ar);
				rr->trace.push_back({(int)i, ea});
				return ext_ret(i, r, mt);
			}
		return compilerlib(n, args, mt);
	}
	// arguments may have been split (doubleword lowering) or turned into ints (soft float)
	std::vector<uint64_t> ext_args(size_t which, const std::vector<V> &args)
	{
		std::vector<uint64_t> r;
		size_t at = 0;
		const std::vector<M> &ps = ext_sigs[which].params;
		size_t words = 0;
		for (M m : ps) words += mbits(m, ar) == 64 ? 2 : 1;
		bool split = args.size() == words && words != ps.size();
		if (!split && args.size() != ps.size()) {
			// partially split: only integer doublewords
			split = true;
		}
		for (M m : ps) {
			bool two = false;
			if (split && mbits(m, ar) == 64 && at + 1 < args.size()) two = args.size() == words || mint(m);
			if (at >= args.size()) err("call with too few arguments");
			V lo = args[at++];
			if (lo.poison) err("external call with an undefined argument");
			uint64_t v = lo.v;
			if (two) {
				V hi = args[at++];
				if (hi.poison) err("external call with an undefined argument");
				v = ar.big_endian ? canon(hi.v, 32, false) | lo.v << 32 : canon(lo.v, 32, false) | hi.v << 32;
			}
			if (mfloat(m)) v = nan_canon(canon(v, mbits(m, ar), false), m);
			else v = canon(v, mbits(m, ar), msigned(m));
			r.push_back(v);
		}
		return r;
	}
	std::vector<V> ext_ret(size_t which, uint64_t r, ir_type *mt) { return split_ret(r, ext_sigs[which].ret, mt); }
	std::vector<V> split_ret(uint64_t r, M, ir_type *mt)
	{
		std::vector<V> out;
		if (get_method_n_ress(mt) == 2) {
			uint64_t lo = canon(r, 32, false), hi = canon(r >> 32, 32, false);
			out = {{ar.big_endian ? hi : lo, false}, {ar.big_endian ? lo : hi, false}};
		} else out = {{r, false}};
		for (size_t i = 0; i < out.size() && i < get_method_n_ress(mt); ++i) out[i] = fix(out[i], mi(get_type_mode(get_method_res_type(mt, i))));
		return out;
	}

	std::vector<V> run(ir_graph *irg, const std::vector<V> &args)
	{
		Fn *f = prep(irg);
		if (++depth > 400) { --depth; throw Err{"recursion too deep"}; }
		Act a;
		a.f = f;
		a.id = ++next_act;
		a.val.resize(f->ns.size());
		a.multi.resize(f->ns.size());
		a.done.assign(f->ns.size(), 0);
		a.args = args;
		a.frame_tag = FRAME + a.id;
		a.tok.resize(f->ns.size());
		std::vector<Tok> ttmp;
		int cur = f->start_bb, pos = -1;
		std::vector<V> tmp, ret;
		for (;;) {
			if (cur == f->end_bb) err("fell into the end block");
			BB &bb = f->bbs[(size_t)cur];
			if (interp_block_observer) interp_block_observer(interp_observer_env, bb.blk, a.id);
			// Phis read their operands simultaneously
			tmp.clear();
			ttmp.clear();
			for (int ph : bb.phis) {
				N &n = f->ns[(size_t)ph];
				V v;
				Tok tk;
				if (n.isM && pos >= 0 && (size_t)pos < n.in.size()) tk = token(a, n.in[(size_t)pos]);
				ttmp.push_back(tk);
				if (n.m.kind != 3) {
					if (pos < 0 || (size_t)pos >= n.in.size()) err("Phi %ld without operand for the taken edge", get_irn_node_nr(n.n));
					v = value(a, n.in[(size_t)pos]);
				}
				tmp.push_back(v);
			}
			for (size_t i = 0; i < tmp.size(); ++i) {
				int ph = bb.phis[i];
				a.val[(size_t)ph]  = tmp[i];
				a.tok[(size_t)ph]  = ttmp[i];
				if (interp_perturb && f->ns[(size_t)ph].m.kind == 0 && !tmp[i].poison && mode_is_int(get_irn_mode(f->ns[(size_t)ph].n)))
					a.val[(size_t)ph].v = canon(interp_perturb(interp_observer_env, f->ns[(size_t)ph].n, tmp[i].v), f->ns[(size_t)ph].m.bits, f->ns[(size_t)ph].m.sign);
				a.done[(size_t)ph] = 1;
				if (interp_observer && f->ns[(size_t)ph].m.kind != 3) interp_observer(interp_observer_env, f->ns[(size_t)ph].n, tmp[i].v, tmp[i].poison, a.id);
			}
			for (int i : bb.order) {
				if (fuel-- == 0) { fuel = 0; err("does not terminate (step budget exhausted)"); }
				++steps;
				exec(a, i);
				if (f->ns[(size_t)i].isM || f->ns[(size_t)i].mem >= 0) exec_mem(a, i);
				if (interp_perturb && f->ns[(size_t)i].m.kind == 0 && !a.val[(size_t)i].poison && mode_is_int(get_irn_mode(f->ns[(size_t)i].n)))
					a.val[(size_t)i].v = canon(interp_perturb(interp_observer_env, f->ns[(size_t)i].n, a.val[(size_t)i].v), f->ns[(size_t)i].m.bits, f->ns[(size_t)i].m.sign);
				a.done[(size_t)i] = 1;
				N &n = f->ns[(size_t)i];
				if (interp_observer && n.m.kind != 3 && get_irn_mode(n.n) != mode_T) interp_observer(interp_observer_env, n.n, a.val[(size_t)i].v, a.val[(size_t)i].poison, a.id);
			}
			if (bb.term < 0) err("block %ld has no terminator", get_irn_node_nr(bb.blk));
			N &t = f->ns[(size_t)bb.term];
			ir_node *x = nullptr;
			if (t.k == kReturn) {
				for (size_t k = 1; k < t.in.size(); ++k) ret.push_back(value(a, t.in[k]));
				break;
			} else if (t.k == kTerm) x = t.n;
			else {
				unsigned pn;
				if (t.k == kCond) pn = solid(a, t.in[0], "a branch").v ? pn_Cond_true : pn_Cond_false;
				else {
					V v = solid(a, t.in[0], "a switch");
					pn = 0;
					const ir_switch_table *tab = get_Switch_table(t.n);
					MI sm = mi(get_irn_mode(get_Switch_selector(t.n)));
					for (size_t k = 0; k < ir_switch_table_get_n_entries(tab); ++k) {
						ir_tarval *lo = ir_switch_table_get_min(tab, k), *hi = ir_switch_table_get_max(tab, k);
						if (!lo || !hi || ir_switch_table_get_pn(tab, k) == 0) continue;
						uint64_t l = tvbits(lo), h = tvbits(hi);
						if (sm.sign ? (int64_t)v.v >= (int64_t)l && (int64_t)v.v <= (int64_t)h : v.v >= l && v.v <= h) { pn = ir_switch_table_get_pn(tab, k); break; }
					}
				}
				auto it = f->xproj.find({bb.term, pn});
				if (it == f->xproj.end()) err("node %ld takes an edge (Proj %u) that does not exist", get_irn_node_nr(t.n), pn);
				x = it->second;
			}
			auto it = f->succ.find(x);
			if (it == f->succ.end()) err("control flow node %ld has no successor block", get_irn_node_nr(x));
			cur = it->second.first;
			pos = it->second.second;
		}
		for (O *o : a.own) { o->live = false; objs.erase(o->base); delete o; }
		--depth;
		return ret;
	}

	void exec(Act &a, int i)
	{
		Fn &f = *a.f;
		N &n = f.ns[(size_t)i];
		V &out = a.val[(size_t)i];
		out = V();
		switch (n.k) {
		case kNop: case kTerm: case kReturn: case kCond: case kSwitch: return;
		case kConst: out = {n.m.kind == 0 ? canon(n.c, n.m.bits, n.m.sign) : n.c, false}; return;
		case kAddress: out.v = canon(entity_addr(get_Address_entity(n.n)), n.m.bits, n.m.sign); return;
		case kUnknown: case kBad: out.poison = true; return;
		case kPass: if (n.m.kind != 3) out = value(a, n.in[0]); return;
		case kBin: {
			MI lm = f.ns[(size_t)n.in[0]].m, rm = f.ns[(size_t)n.in[1]].m;
			out = binop(n.op, value(a, n.in[0]), value(a, n.in[1]), n.m, lm, rm);
			return;
		}
		case kDivMod: {
			V l = value(a, n.in[1]), r = value(a, n.in[2]);
			MI m = n.m;
			a.multi[(size_t)i] = {binop(n.op, l, r, m, m, m)};
			return;
		}
		case kUnop: {
			V v = value(a, n.in[0]);
			if (v.poison) { out = v; return; }
			if (n.m.kind == 2) { out.v = !v.v; return; }
			if (n.m.kind == 1) {
				out.v = n.m.bits == 32 ? nan_canon(f2u(-u2f(v.v)), MF) : nan_canon(d2u(-u2d(v.v)), MD);
				return;
			}
			out.v = canon(n.op == OMinus ? 0 - v.v : ~v.v, n.m.bits, n.m.sign);
			return;
		}
		case kCmp: {
			V l = value(a, n.in[0]), r = value(a, n.in[1]);
			if (l.poison || r.poison) { out.poison = true; return; }
			out.v = (relation(l, r, f.ns[(size_t)n.in[0]].m) & n.op) != 0;
			return;
		}
		case kMux: {
			V c = value(a, n.in[0]);
			if (c.poison) { out.poison = true; return; }
			out = value(a, n.in[c.v ? 2 : 1]);
			return;
		}
		case kConv: out = conv(value(a, n.in[0]), f.ns[(size_t)n.in[0]].m, n.m); return;
		case kBitcast: {
			out = value(a, n.in[0]);
			if (n.m.kind == 0) out.v = canon(out.v, n.m.bits, n.m.sign);
			else out.v = canon(out.v, n.m.bits, false);
			return;
		}
		case kLoad: {
			V p2 = value(a, n.in[1]);
			if (n.m.bits > 64) throw Err{"wide load", true};
			V v = load(p2, n.m.bits / 8);
			if (interp_mem_observer && !p2.poison) interp_mem_observer(interp_observer_env, n.n, get_Load_ptr(n.n), p2.v, n.m.bits / 8, false, a.id);
			if (n.m.kind == 0) v.v = canon(v.v, n.m.bits, n.m.sign);
			else if (n.m.kind == 1) v.v = canon(v.v, n.m.bits, false); // keeps the payload of a NaN
			a.multi[(size_t)i] = {v};
			return;
		}
		case kStore: {
			MI m = f.ns[(size_t)n.in[2]].m;
			if (m.bits > 64) throw Err{"wide store", true};
			store(value(a, n.in[1]), m.bits / 8, value(a, n.in[2]));
			if (interp_mem_observer) interp_mem_observer(interp_observer_env, n.n, get_Store_ptr(n.n), value(a, n.in[1]).v, m.bits / 8, true, a.id);
			return;
		}
		case kCopyB: {
			V d = solid(a, n.in[1], "a block copy"), s = solid(a, n.in[2], "a block copy");
			copy(d.v, s.v, get_type_size(get_CopyB_type(n.n)));
			return;
		}
		case kSel: {
			V base = value(a, n.in[0]), ix = value(a, n.in[1]);
			if (base.poison || ix.poison) { out.poison = true; return; }
			ir_type *et = get_array_element_type(get_Sel_type(n.n));
			out.v = canon(base.v + ix.v * get_type_size(et), n.m.bits, n.m.sign);
			return;
		}
		case kMember: {
			V base = value(a, n.in[0]);
			if (base.poison) { out = base; return; }
			ir_entity *e = get_Member_entity(n.n);
			if (base.v == a.frame_tag) { out = frame_entity(a, e); return; }
			out.v = canon(base.v + (uint64_t)get_entity_offset(e), n.m.bits, n.m.sign);
			return;
		}
		case kStart: return;
		case kTuple: return;
		case kAlloc: {
			V s = solid(a, n.in[1], "an allocation");
			O *o = alloc(std::max<uint64_t>(s.v, 1), 16, false, false);
			a.own.push_back(o);
			a.multi[(size_t)i] = {{o->base, false}};
			return;
		}
		case kProj: {
			if (n.m.kind == 3) {
				return;
			}
			int pi = n.in[0];
			N &pn = f.ns[(size_t)pi];
			if (pn.k == kTuple) { out = value(a, pn.in[n.op]); return; }
			if (pn.k == kStart) {
				if (n.op == pn_Start_P_frame_base) { out.v = a.frame_tag; return; }
				throw Err{"Start projection", true};
			}
			if (pn.k == kProj) {
				int gi = pn.in[0];
				N &g = f.ns[(size_t)gi];
				if (g.k == kStart) {
					if (n.op >= a.args.size()) err("argument %u missing", n.op);
					out = fix(a.args[n.op], n.m);
					return;
				}
				if (g.k == kTuple) { // Tuple holding a Tuple
					int q = g.in[pn.op];
					if (f.ns[(size_t)q].k == kTuple) { out = value(a, f.ns[(size_t)q].in[n.op]); return; }
					if (f.ns[(size_t)q].k == kProj) { // result tuple of some call
						int c = f.ns[(size_t)q].in[0];
						if (n.op < a.multi[(size_t)c].size()) { out = a.multi[(size_t)c][n.op]; return; }
					}
					err("Proj of Proj of Tuple");
				}
				if (n.op >= a.multi[(size_t)gi].size()) err("result %u of node %ld does not exist", n.op, get_irn_node_nr(g.n));
				out = fix(a.multi[(size_t)gi][n.op], n.m);
				return;
			}
			std::vector<V> &mu = a.multi[(size_t)pi];
			switch (pn.k) {
			case kLoad: case kDivMod: case kAlloc: out = mu[0]; return;
			case kBuiltin: out = fix(mu.at(n.op - (pn_Builtin_max + 1)), n.m); return;
			case kSpecial:
				if (n.op >= mu.size()) err("result %u of %s does not exist", n.op, get_irn_opname(pn.n));
				out = fix(mu[n.op], n.m);
				return;
			case kBad: out.poison = true; return;
			default: throw Err{std::string("Proj of ") + get_irn_opname(pn.n), true};
			}
		}
		case kCall: {
			V t = solid(a, n.in[1], "a call target");
			auto it = ent_at.find(t.v);
			if (it == ent_at.end()) err("call of something that is not a function (0x%llx)", (unsigned long long)t.v);
			std::vector<V> args;
			ir_type *mt = get_Call_type(n.n);
			if (interp_call_observer) interp_call_observer(interp_observer_env, n.n, it->second, a.id);
			for (size_t k = 2; k < n.in.size(); ++k) args.push_back(value(a, n.in[k]));
			a.multi[(size_t)i] = do_call(it->second, args, mt);
			return;
		}
		case kBuiltin: {
			std::vector<V> args;
			for (size_t k = 1; k < n.in.size(); ++k) args.push_back(value(a, n.in[k]));
			V r;
			BK bk;
			switch (get_Builtin_kind(n.n)) {
			case ir_bk_ffs: bk = BKffs; break;
			case ir_bk_clz: bk = BKclz; break;
			case ir_bk_ctz: bk = BKctz; break;
			case ir_bk_popcount: bk = BKpopcount; break;
			case ir_bk_parity: bk = BKparity; break;
			case ir_bk_bswap: bk = BKbswap; break;
			case ir_bk_saturating_increment: bk = BKsatinc; break;
			default: throw Err{"builtin", true};
			}
			if (args.size() != 1) throw Err{"builtin arity", true};
			if (args[0].poison || !sem_builtin(bk, args[0].v, f.ns[(size_t)n.in[1]].m.bits, r.v)) r = {0, true};
			a.multi[(size_t)i] = {r};
			return;
		}
		case kSpecial: special(a, i); return;
		default: throw Err{std::string("node ") + get_irn_opname(n.n), true};
		}
	}
	void copy(uint64_t d, uint64_t s, uint64_t size)
	{
		if (size == 0) return;
		O *od = find(d, size), *os = find(s, size);
		if (!od || !os) err("block copy outside every live object");
		if (od->ro) err("block copy into a constant");
		std::vector<uint8_t> bd(os->d.begin() + (long)(s - os->base), os->d.begin() + (long)(s - os->base + size));
		std::vector<uint8_t> bs(os->st.begin() + (long)(s - os->base), os->st.begin() + (long)(s - os->base + size));
		std::copy(bd.begin(), bd.end(), od->d.begin() + (long)(d - od->base));
		std::copy(bs.begin(), bs.end(), od->st.begin() + (long)(d - od->base));
	}
	// target nodes created by the lowering phases
	void special(Act &a, int i)
	{
		Fn &f = *a.f;
		N &n = f.ns[(size_t)i];
		std::string o = get_irn_opname(n.n);
		size_t us = o.find('_');
		if (us != std::string::npos && (o.compare(0, us, "ia32") == 0 || o.compare(0, us, "arm") == 0 || o.compare(0, us, "sparc") == 0)) o = o.substr(us + 1);
		std::vector<V> x;
		for (int k : n.in) { if (f.ns[(size_t)k].m.kind == 3 && f.ns[(size_t)k].k != kProj) { x.push_back(V()); continue; } x.push_back(flagval(a, k)); }
		bool po = false;
		for (V &v : x) po |= v.poison;
		auto u32 = [&](int k) { return (uint64_t)(uint32_t)x[(size_t)k].v; };
		std::vector<V> &mu = a.multi[(size_t)i];
		V &out = a.val[(size_t)i];
		auto two = [&](uint64_t r0, uint64_t r1) { mu = {{r0, po}, {r1, po}}; };
		if (o == "AddS_t" || o == "AddCC_t" || o == "l_Add") two(u32(0) + u32(1), (u32(0) + u32(1)) >> 32);
		else if (o == "SubS_t" || o == "SubCC_t" || o == "l_Sub") {
			// flags: bit 0 borrow, bit 1 sign of the 32-bit result
			uint64_t r = u32(0) - u32(1);
			two(r, (u32(0) < u32(1) ? 1 : 0) | ((r >> 31 & 1) << 1));
		}
		else if (o == "AdC_t" || o == "AddX_t" || o == "l_Adc") { out = fix({u32(0) + u32(1) + (x[2].v & 1), po}, n.m); }
		else if (o == "SbC_t" || o == "SubX_t" || o == "l_Sbb") { out = fix({u32(0) - u32(1) - (x[2].v & 1), po}, n.m); }
		else if (o == "UMulL_t") { uint64_t r = u32(0) * u32(1); two(r, r >> 32); }
		else if (o == "SMulL_t") { uint64_t r = (uint64_t)((int64_t)(int32_t)x[0].v * (int32_t)x[1].v); two(r, r >> 32); }
		else if (o == "l_Minus64") { uint64_t r = 0 - (u32(0) | x[1].v << 32); two(r, r >> 32); }
		else if (o == "l_Mul" || o == "l_IMul") {
			uint64_t r = o == "l_Mul" ? u32(0) * u32(1) : (uint64_t)((int64_t)(int32_t)x[0].v * (int32_t)x[1].v);
			ia32_res(mu, n, r, po);
		}
		else throw Err{"target node " + o, true};
		(void)out;
	}
	void ia32_res(std::vector<V> &mu, N &, uint64_t r, bool po) { mu = {{r, po}, {0, false}, {0, false}, {r >> 32, po}}; } // res_low, flags, M, res_high
	V flagval(Act &a, int k)
	{
		N &n = a.f->ns[(size_t)k];
		if (n.k == kProj && n.m.kind == 3) {
			std::vector<V> &mu = a.multi[(size_t)n.in[0]];
			if (n.op < mu.size()) return mu[n.op];
			return V();
		}
		return value(a, k);
	}
};

// run-time library functions the lowering phases call
std::vector<V> In::compilerlib(const std::string &name, const std::vector<V> &a, ir_type *mt)
{
	bool poison = false;
	for (const V &v : a) poison |= v.poison;
	auto ret = [&](uint64_t v) {
		std::vector<V> r = split_ret(v, MLu, mt);
		for (V &x : r) x.poison |= poison;
		return r;
	};
	auto u = [&](size_t k) { return (uint64_t)(uint32_t)a.at(k).v; };
	// k-th doubleword argument when everything before occupies `at` words
	auto dw = [&](size_t at) { return ar.ptr_bits == 64 ? a.at(at).v : ar.big_endian ? u(at) << 32 | u(at + 1) : u(at) | u(at + 1) << 32; };
	unsigned per = 2;
	auto full = [&](size_t k) -> uint64_t { // k-th 64-bit argument
		if (ar.ptr_bits == 64) return a.at(k).v;
		// unsplit if the method type takes 64-bit values
		ir_mode *m = get_type_mode(get_method_param_type(mt, 0));
		if (m && get_mode_size_bits(m) == 64) return a.at(k).v;
		return dw(per * k);
	};
	std::string n = name;
	while (!n.empty() && n[0] == '_') n = n.substr(1);
	if (n == "memcpy" || n == "memmove") {
		if (poison) err("memcpy with an undefined argument");
		copy(a.at(0).v, a.at(1).v, a.at(2).v);
		return ret(a.at(0).v);
	}
	if (n == "divdi3" || n == "moddi3") {
		int64_t x = (int64_t)full(0), y = (int64_t)full(1);
		if (y == 0 || (x == INT64_MIN && y == -1)) poison = true, y = 1;
		return ret((uint64_t)(n == "divdi3" ? x / y : x % y));
	}
	if (n == "udivdi3" || n == "umoddi3") {
		uint64_t x = full(0), y = full(1);
		if (y == 0) poison = true, y = 1;
		return ret(n == "udivdi3" ? x / y : x % y);
	}
	if (n == "muldi3") return ret(full(0) * full(1));
	if (n == "divsi3" || n == "modsi3") {
		int64_t x = (int32_t)u(0), y = (int32_t)u(1);
		if (y == 0) poison = true, y = 1;
		return ret((uint64_t)(n == "divsi3" ? x / y : x % y));
	}
	if (n == "udivsi3" || n == "umodsi3") {
		uint64_t x = u(0), y = u(1);
		if (y == 0) poison = true, y = 1;
		return ret(n == "udivsi3" ? x / y : x % y);
	}
	if (n == "aeabi_uldivmod" || n == "aeabi_ldivmod") {
		uint64_t x = dw(0), y = dw(2), q, r;
		if (y == 0 || (n == "aeabi_ldivmod" && (int64_t)x == INT64_MIN && (int64_t)y == -1)) poison = true, y = 1;
		if (n == "aeabi_uldivmod") q = x / y, r = x % y;
		else q = (uint64_t)((int64_t)x / (int64_t)y), r = (uint64_t)((int64_t)x % (int64_t)y);
		std::vector<V> o = {{q, poison}, {q >> 32, poison}, {r, poison}, {r >> 32, poison}};
		for (size_t i = 0; i < 4; ++i) o[i] = fix(o[i], mi(get_type_mode(get_method_res_type(mt, i))));
		return o;
	}
	if (n == "ashldi3" || n == "ashrdi3" || n == "lshrdi3") {
		uint64_t x = full(0);
		unsigned s = (unsigned)a.back().v;
		// libgcc only defines counts below 64
		if (s >= 64) err("%s called with count %u", n.c_str(), s);
		return ret(n == "ashldi3" ? x << s : n == "lshrdi3" ? x >> s : (uint64_t)((int64_t)x >> s));
	}
	// bit operations; suffix si2/di2 gives the operand width
	static const struct { const char *n; BK k; } bits[] = {{"ffs", BKffs}, {"clz", BKclz}, {"ctz", BKctz}, {"popcount", BKpopcount}, {"parity", BKparity}, {"bswap", BKbswap}};
	for (auto &bt : bits) {
		std::string s = std::string(bt.n) + "si2", d = std::string(bt.n) + "di2";
		if (n == s || n == d) {
			uint64_t r, x = n == s ? u(0) : full(0);
			if (!sem_builtin(bt.k, x, n == s ? 32 : 64, r)) poison = true, r = 0;
			return ret(r);
		}
	}
	// soft float: operations on bit patterns
	auto fa = [&](size_t k, bool dbl) { // k-th float argument of equal-width arguments
		if (!dbl) return u(k);
		ir_mode *m = get_type_mode(get_method_param_type(mt, 0));
		if (get_mode_size_bits(m) == 64) return a.at(k).v;
		return dw(2 * k);
	};
	for (int dbl = 0; dbl < 2; ++dbl) {
		const char *sf = dbl ? "df" : "sf";
		M m = dbl ? MD : MF;
		static const struct { const char *n; Op o; } ar2[] = {{"add", OAdd}, {"sub", OSub}, {"mul", OMul}, {"div", ODiv}};
		for (auto &x : ar2)
			if (n == std::string(x.n) + sf + "3") {
				uint64_t r = 0;
				sem_fbinop(x.o, nan_canon(fa(0, dbl), m), nan_canon(fa(1, dbl), m), m, r);
				return ret(r);
			}
		if (n == std::string("neg") + sf + "2") return ret(fa(0, dbl) ^ (dbl ? 1ull << 63 : 1ull << 31));
		static const char *const cm[] = {"eq", "ne", "lt", "le", "gt", "ge", "unord", "cmp"};
		for (int c = 0; c < 8; ++c)
			if (n == std::string(cm[c]) + sf + "2") {
				unsigned rl = sem_relation(fa(0, dbl), fa(1, dbl), m);
				int v;
				bool un = rl == RUN;
				int three = rl == RLT ? -1 : rl == RGT ? 1 : 0;
				switch (c) {
				case 0: case 1: v = un ? 1 : three; break;       // eq/ne: nonzero if unordered
				case 2: v = un ? 1 : three; break;               // lt: >=0 if unordered
				case 3: v = un ? 1 : three; break;
				case 4: case 5: v = un ? -1 : three; break;
				case 6: v = un; break;
				default: v = un ? 1 : three; break;
				}
				return ret((uint64_t)(int64_t)v);
			}
		static const struct { const char *n; M m; bool sg; } to[] = {{"fix%ssi", MIs, true}, {"fix%sdi", MLs, true}, {"fixuns%ssi", MIu, false}, {"fixuns%sdi", MLu, false}};
		for (auto &x : to)
			if (n == pbt::strf(x.n, sf)) {
				uint64_t r = 0;
				if (!sem_conv(fa(0, dbl), m, x.m, ar, r)) poison = true;
				return ret(r);
			}
		static const struct { const char *n; M m; } fr[] = {{"floatsi%s", MIs}, {"floatdi%s", MLs}, {"floatunsi%s", MIu}, {"floatundi%s", MLu}};
		for (auto &x : fr)
			if (n == pbt::strf(x.n, sf)) {
				uint64_t r = 0, v = mbits(x.m, ar) == 64 ? full(0) : canon(a.at(0).v, 32, msigned(x.m));
				sem_conv(v, x.m, m, ar, r);
				return ret(r);
			}
	}
	if (n == "extendsfdf2") { uint64_t r; sem_conv(u(0), MF, MD, ar, r); return ret(r); }
	if (n == "truncdfsf2") { uint64_t r; sem_conv(fa(0, true), MD, MF, ar, r); return ret(r); }
	throw Err{"unknown library function " + name, true};
}
} // namespace

#pragma GCC diagnostic ignored "-Wformat-nonliteral"
InterpResult interp_program(const Program &p, const TargetDesc &t, const Built &b, size_t nvec, uint64_t fuel, uint64_t seed)
{
	InterpResult res;
	In in(p, t, b, seed);
	const Sig &es = p.sigs[(size_t)p.funcs[0].sig];
	const Arch &ar = t.arch;
	size_t vec = 0;
	try {
		// objects exist before the program runs
		std::set<ir_entity *> live;
		for (size_t i = 0; i < get_compound_n_members(get_glob_type()); ++i) live.insert(get_compound_member(get_glob_type(), i));
		for (size_t g = 0; g < p.globals.size(); ++g) {
			if (p.globals[g].is_private) continue;
			if (!live.count(b.globals[g])) err("public object g%zu was removed", g);
			in.entity_addr(b.globals[g]);
		}
		if (!live.count(b.in) || !live.count(b.out) || !live.count(b.entry)) err("an externally visible entity was removed");
		uint64_t ia = in.entity_addr(b.in), oa = in.entity_addr(b.out);
		for (; vec < nvec; ++vec) {
			RunResult r;
			in.rr    = &r;
			in.fuel  = fuel;
			in.depth = 0;
			for (size_t i = 0; i < es.params.size(); ++i) in.put(in.find(ia, 8), i * 8, mbits(es.params[i], ar) / 8, p.vectors[vec][i], true);
			in.run(get_entity_irg(b.entry), {});
			if (es.ret != Mvoid) {
				V v = in.load({oa, false}, mbits(es.ret, ar) / 8);
				if (v.poison) throw Err{"the result is undefined"};
				r.ret = mfloat(es.ret) ? nan_canon(v.v, es.ret) : canon(v.v, mbits(es.ret, ar), msigned(es.ret));
			}
			std::vector<std::vector<uint8_t>> und;
			for (size_t g = 0; g < p.globals.size(); ++g) {
				std::vector<uint64_t> vals;
				std::vector<uint8_t> u;
				if (!p.globals[g].is_private) {
					uint64_t ga = in.entity_addr(b.globals[g]);
					for (const Elem &e : elems(p.types[(size_t)p.globals[g].type], ar)) {
						V v = in.load({ga + firm_elem_offset(b, p, p.globals[g].type, e, ar), false}, mbits(e.mode, ar) / 8);
						vals.push_back(v.v);
						u.push_back(v.poison);
					}
				}
				r.globals.push_back(vals);
				und.push_back(u);
			}
			res.runs.push_back(r);
			res.gundef.push_back(und);
		}
	} catch (Err &e) {
		res.error       = pbt::strf("vector %zu: %s", vec, e.m.c_str());
		res.unsupported = e.unsup;
	}
	res.steps = in.steps;
	return res;
}

std::string compare_runs(const Program &p, const Arch &a, const std::vector<RunResult> &ref, const InterpResult &got)
{
	if (!got.error.empty()) return got.error;
	const Sig &es = p.sigs[(size_t)p.funcs[0].sig];
	for (size_t v = 0; v < ref.size(); ++v) {
		if (v >= got.runs.size()) return "missing run";
		const RunResult &r = ref[v], &g = got.runs[v];
		if (es.ret != Mvoid && r.ret != g.ret)
			return pbt::strf("vector %zu: result 0x%llx, expected 0x%llx", v, (unsigned long long)g.ret, (unsigned long long)r.ret);
		if (!(r.trace == g.trace)) {
			size_t k = 0;
			while (k < r.trace.size() && k < g.trace.size() && r.trace[k] == g.trace[k]) ++k;
			return pbt::strf("vector %zu: external call %zu differs (%zu calls, expected %zu)", v, k, g.trace.size(), r.trace.size());
		}
		for (size_t q = 0; q < p.globals.size(); ++q) {
			if (p.globals[q].is_private || q >= g.globals.size()) continue;
			std::vector<Elem> es2 = elems(p.types[(size_t)p.globals[q].type], a);
			for (size_t k = 0; k < es2.size(); ++k) {
				if (!r.gdef[q][k]) continue;
				if (!got.gundef.empty() && got.gundef[v][q][k]) return pbt::strf("vector %zu: g%zu element %zu is undefined, expected 0x%llx", v, q, k, (unsigned long long)r.globals[q][k]);
				if (g.globals[q][k] != r.globals[q][k])
					return pbt::strf("vector %zu: g%zu element %zu is 0x%llx, expected 0x%llx", v, q, k, (unsigned long long)g.globals[q][k], (unsigned long long)r.globals[q][k]);
			}
		}
	}
	return "";
}
