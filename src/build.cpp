#include "build.h"

const TargetDesc targets[] = {
	{"amd64", "x86_64-unknown-linux-gnu", {64, false, 32}},
	{"ia32", "i686-unknown-linux-gnu", {32, false, 32}},
	{"arm", "arm-unknown-linux-gnueabi", {32, false, 256}},
	{"mips", "mips-unknown-linux-gnu", {32, true, 32}},
	{"riscv", "riscv32-unknown-linux-gnu", {32, false, 32}},
	{"sparc", "sparc-unknown-linux-gnu", {32, true, 32}},
};
const int n_targets = 6;
const TargetDesc &target(const char *name)
{
	for (const TargetDesc &t : targets) if (!strcmp(t.name, name)) return t;
	fprintf(stderr, "unknown target %s\n", name);
	abort();
}

void firm_start(const TargetDesc &t, const std::vector<std::string> &options)
{
	ir_init_library();
	if (!ir_target_set(t.triple)) { fprintf(stderr, "ir_target_set(%s) failed\n", t.triple); abort(); }
	for (const std::string &o : options)
		if (ir_target_option(o.c_str()) <= 0) { fprintf(stderr, "option %s rejected\n", o.c_str()); abort(); }
	ir_target_init();
}

// target-specific integer modes (their shift behaviour differs from the builtin ones)
static ir_mode *tmode[Mvoid + 1];

ir_mode *fmode(M m) { return tmode[m]; }

static void init_modes(const Arch &)
{
	tmode[MBs] = ir_platform_type_mode(IR_TYPE_CHAR, 1);
	tmode[MBu] = ir_platform_type_mode(IR_TYPE_CHAR, 0);
	tmode[MHs] = ir_platform_type_mode(IR_TYPE_SHORT, 1);
	tmode[MHu] = ir_platform_type_mode(IR_TYPE_SHORT, 0);
	tmode[MIs] = ir_platform_type_mode(IR_TYPE_INT, 1);
	tmode[MIu] = ir_platform_type_mode(IR_TYPE_INT, 0);
	tmode[MLs] = ir_platform_type_mode(IR_TYPE_LONG_LONG, 1);
	tmode[MLu] = ir_platform_type_mode(IR_TYPE_LONG_LONG, 0);
	tmode[MF]  = mode_F;
	tmode[MD]  = mode_D;
	tmode[MP]  = mode_P;
	tmode[Mb]  = mode_b;
}

namespace {
struct Bu {
	Program &p;
	const TargetDesc &td;
	const BuildKnobs &k;
	Built &b;
	ir_type *prim[Mvoid + 1] = {};
	std::vector<ir_type *> sigt;
	std::map<int, ir_type *> arr;  // cached array types of struct fields
	Func *fn = nullptr;
	ir_graph *irg = nullptr;
	std::vector<ir_entity *> fobj;
	std::map<E, ir_node *> memo;
	pbt::Rng rng{1};

	bool reachable = true;
	ir_node *brk = nullptr, *cont = nullptr;

	ir_type *pt(M m)
	{
		if (!prim[m]) prim[m] = m == MP ? new_type_pointer(get_unknown_type()) : get_type_for_mode(fmode(m));
		return prim[m];
	}
	ir_type *array(M m, unsigned n)
	{
		ir_type *at = new_type_array(pt(m), n);
		set_type_size(at, n * get_type_size(pt(m)));
		set_type_state(at, layout_fixed);
		return at;
	}
	void types()
	{
		for (size_t i = 0; i < p.types.size(); ++i) {
			ObjType &ot = p.types[i];
			b.members.emplace_back();
			b.member_types.emplace_back();
			if (!ot.is_struct) { b.types.push_back(array(ot.mode, ot.n)); continue; }
			ir_type *st = new_type_struct(new_id_from_str(pbt::strf("%sS%zu", p.prefix.c_str(), i).c_str()));
			for (size_t f = 0; f < ot.fields.size(); ++f) {
				Field &fd = ot.fields[f];
				ir_type *ft = fd.is_arr ? array(fd.mode, fd.n) : pt(fd.mode);
				b.member_types.back().push_back(ft);
				b.members.back().push_back(new_entity(st, new_id_from_str(pbt::strf("m%zu", f).c_str()), ft));
			}
			default_layout_compound_type(st);
			b.types.push_back(st);
		}
	}
	ir_type *method(const Sig &s)
	{
		ir_type *mt = new_type_method(s.params.size(), s.ret != Mvoid, false, cc_cdecl_set, mtp_no_property);
		for (size_t i = 0; i < s.params.size(); ++i) set_method_param_type(mt, i, pt(s.params[i]));
		if (s.ret != Mvoid) set_method_res_type(mt, 0, pt(s.ret));
		return mt;
	}
	static ir_tarval *tv(M m, uint64_t v)
	{
		if (m == MF) return new_tarval_from_double((long double)u2f(v), mode_F);
		if (m == MD) return new_tarval_from_double((long double)u2d(v), mode_D);
		if (m == Mb) return v ? tarval_b_true : tarval_b_false;
		if (m == MP) return get_mode_null(mode_P);
		unsigned char buf[8];
		unsigned n = get_mode_size_bytes(fmode(m));
		for (unsigned i = 0; i < n; ++i) buf[i] = (unsigned char)(v >> 8 * i);
		return new_tarval_from_bytes(buf, fmode(m));
	}
	void globals()
	{
		for (size_t i = 0; i < p.globals.size(); ++i) {
			Global &g = p.globals[i];
			ir_entity *e = new_global_entity(get_glob_type(), new_id_from_str(g.name.c_str()), b.types[(size_t)g.type],
			                                 g.is_private ? ir_visibility_local : ir_visibility_external, g.is_const ? IR_LINKAGE_CONSTANT : IR_LINKAGE_DEFAULT);
			b.globals.push_back(e);
			const ObjType &ot = p.types[(size_t)g.type];
			if (g.init.empty()) { set_entity_initializer(e, get_initializer_null()); continue; }
			auto val = [&](M m, uint64_t v) -> ir_initializer_t * { return v == 0 ? get_initializer_null() : create_initializer_tarval(tv(m, v)); };
			size_t at = 0;
			if (!ot.is_struct) {
				ir_initializer_t *in = create_initializer_compound(ot.n);
				for (unsigned j = 0; j < ot.n; ++j) set_initializer_compound_value(in, j, val(ot.mode, g.init[at++]));
				set_entity_initializer(e, in);
			} else {
				ir_initializer_t *in = create_initializer_compound(ot.fields.size());
				for (size_t f = 0; f < ot.fields.size(); ++f) {
					const Field &fd = ot.fields[f];
					if (!fd.is_arr) set_initializer_compound_value(in, f, val(fd.mode, g.init[at++]));
					else {
						ir_initializer_t *ai = create_initializer_compound(fd.n);
						for (unsigned j = 0; j < fd.n; ++j) set_initializer_compound_value(ai, j, val(fd.mode, g.init[at++]));
						set_initializer_compound_value(in, f, ai);
					}
				}
				set_entity_initializer(e, in);
			}
		}
	}
	ir_node *konst(M m, uint64_t v) { return new_Const(tv(m, v)); }

	ir_node *top(E e) { memo.clear(); return ex(e); }
	ir_node *ex(E e)
	{
		auto it = memo.find(e);
		if (it != memo.end()) return it->second;
		ir_node *n = ex2(e);
		memo[e] = n;
		return n;
	}
	// float arithmetic is done in the target's arithmetic mode and every result rounded to its own mode
	ir_node *wide(ir_node *n, bool int_too = false)
	{
		if (!k.arith) return n;
		if (!mode_is_float(get_irn_mode(n)) && !int_too) return n;
		return get_irn_mode(n) == k.arith ? n : new_Conv(n, k.arith);
	}
	ir_node *conv(ir_node *n, M m)
	{
		bool f = mode_is_float(get_irn_mode(n)) || mfloat(m);
		return new_Conv(f ? wide(n, true) : n, fmode(m));
	}
	ir_node *narrow(ir_node *n, M m)
	{
		return get_irn_mode(n) == fmode(m) ? n : new_Conv(n, fmode(m));
	}
	ir_node *ex2(E e)
	{
		M m = e->mode;
		switch (e->op) {
		case OConst: return konst(m, e->c);
		case OLocal: return get_value((int)e->c, fmode(m));
		case OAddrG: return new_Address(b.globals[e->c]);
		case OAddrF: return new_Member(get_irg_frame(irg), fobj[e->c]);
		case OFuncAddr: return new_Address(b.funcs[e->c]);
		case OLoad: {
			ir_node *a  = ex(e->k[0]);
			ir_node *ld = new_Load(get_store(), a, fmode(m), pt(m), e->vol ? cons_volatile : cons_none);
			set_store(new_Proj(ld, mode_M, pn_Load_M));
			return new_Proj(ld, fmode(m), pn_Load_res);
		}
		case OSel: {
			ir_type *at;
			if (e->type >= 0x10000) { int x = e->type - 0x10000; at = b.member_types[(size_t)(x / 256)][(size_t)(x % 256)]; }
			else at = b.types[(size_t)e->type];
			ir_node *base = ex(e->k[0]);
			return new_Sel(base, ex(e->k[1]), at);
		}
		case OMember: return new_Member(ex(e->k[0]), b.members[(size_t)e->type][e->c]);
		case OPtrAdd: { ir_node *a = ex(e->k[0]); return new_Add(a, ex(e->k[1])); }
		case OMux: {
			ir_node *c = ex(e->k[0]), *f = ex(e->k[1]), *t = ex(e->k[2]);
			return new_Mux(c, f, t);
		}
		case OCmp: {
			ir_node *l = wide(ex(e->k[0])), *r = wide(ex(e->k[1]));
			return new_Cmp(l, r, (ir_relation)e->c);
		}
		case OConv: return conv(ex(e->k[0]), m);
		case OBitcast: return new_Bitcast(ex(e->k[0]), fmode(m));
		case OMinus: return narrow(new_Minus(wide(ex(e->k[0]))), m);
		case ONot: return new_Not(ex(e->k[0]));
		case OBuiltin: {
			static const ir_builtin_kind kinds[] = {ir_bk_ffs, ir_bk_clz, ir_bk_ctz, ir_bk_popcount, ir_bk_parity, ir_bk_bswap, ir_bk_saturating_increment};
			ir_node *x = ex(e->k[0]);
			ir_type *mt = new_type_method(1, 1, false, cc_cdecl_set, mtp_no_property);
			set_method_param_type(mt, 0, pt(e->k[0]->mode));
			set_method_res_type(mt, 0, pt(m));
			ir_node *bi = new_Builtin(k.pure_builtins ? new_NoMem() : get_store(), 1, &x, kinds[e->c], mt);
			if (!k.pure_builtins) set_store(new_Proj(bi, mode_M, pn_Builtin_M));
			return new_Proj(bi, fmode(m), pn_Builtin_max + 1);
		}
		case ODiv: case OMod: {
			ir_node *l = wide(ex(e->k[0])), *r = wide(ex(e->k[1]));
			int pinned = !(mfloat(m) && rng.next() % 2);
			if (e->op == ODiv) {
				ir_node *d = new_Div(get_store(), l, r, pinned);
				set_store(new_Proj(d, mode_M, pn_Div_M));
				return narrow(new_Proj(d, get_irn_mode(l), pn_Div_res), m);
			}
			ir_node *d = new_Mod(get_store(), l, r, 1);
			set_store(new_Proj(d, mode_M, pn_Mod_M));
			return new_Proj(d, fmode(m), pn_Mod_res);
		}
		default: break;
		}
		ir_node *l = wide(ex(e->k[0])), *r = wide(ex(e->k[1]));
		switch (e->op) {
		case OAdd: return narrow(new_Add(l, r), m);
		case OSub: return narrow(new_Sub(l, r), m);
		case OMul: return narrow(new_Mul(l, r), m);
		case OMulh: return new_Mulh(l, r);
		case OAnd: return new_And(l, r);
		case OOr: return new_Or(l, r);
		case OEor: return new_Eor(l, r);
		case OShl: return new_Shl(l, r);
		case OShr: return new_Shr(l, r);
		case OShrs: return new_Shrs(l, r);
		default: abort();
		}
	}

	void jump_to(ir_node *block)
	{
		if (!reachable) return;
		add_immBlock_pred(block, new_Jmp());
		reachable = false;
		set_cur_block(nullptr);
	}
	void enter(ir_node *block, bool mature)
	{
		if (mature) mature_immBlock(block);
		set_cur_block(block);
		reachable = true;
	}
	// branches to t / f
	void cond(E c, ir_node *t, ir_node *f) { condn(top(c), t, f); }
	void condn(ir_node *c, ir_node *t, ir_node *f)
	{
		ir_node *cn = new_Cond(c);
		ir_node *pt_ = new_Proj(cn, mode_X, pn_Cond_true), *pf = new_Proj(cn, mode_X, pn_Cond_false);
		add_immBlock_pred(t, pt_);
		add_immBlock_pred(f, pf);
		reachable = false;
		set_cur_block(nullptr);
	}
	// a join block may have no predecessors at all
	void join(ir_node *block)
	{
		mature_immBlock(block);
		if (get_Block_n_cfgpreds(block) == 0) { reachable = false; set_cur_block(nullptr); return; }
		set_cur_block(block);
		reachable = true;
	}

	void blk(const Block &bl)
	{
		for (Stmt *s : bl) { if (!reachable) return; st(s); }
	}
	void st(Stmt *s)
	{
		switch (s->k) {
		case SAssign: set_value(s->dst, top(s->e)); return;
		case SStore: {
			ir_node *a = top(s->e), *v = top(s->e2);
			ir_node *n = new_Store(get_store(), a, v, pt(s->mode), s->vol ? cons_volatile : cons_none);
			set_store(new_Proj(n, mode_M, pn_Store_M));
			return;
		}
		case SIf: {
			ir_node *t = new_immBlock(), *f = new_immBlock(), *j = new_immBlock();
			if (s->e2) {
				ir_node *mid = new_immBlock();
				if (s->short_or) cond(s->e, t, mid); else cond(s->e, mid, f);
				enter(mid, true);
				cond(s->e2, t, f);
			} else cond(s->e, t, f);
			enter(t, true);
			blk(s->b1);
			jump_to(j);
			enter(f, true);
			blk(s->b2);
			jump_to(j);
			join(j);
			return;
		}
		case SLoop: case SLoopP: {
			ir_node *end = nullptr;
			int var = s->fuel >= 0 ? s->fuel : s->dst;
			if (s->k == SLoopP) {
				ir_node *base = top(s->e);
				ir_mode *om = get_reference_offset_mode(mode_P);
				set_value(var, new_Add(base, new_Const_long(om, (long)s->ranges[0].first)));
				end = new_Add(base, new_Const_long(om, (long)s->ranges[0].second));
			} else set_value(var, top(s->e));
			ir_node *head = new_immBlock(), *body = new_immBlock(), *step = new_immBlock(), *exit = new_immBlock();
			jump_to(s->form == 0 ? head : body);
			if (k.keep_loops) keep_alive(s->form == 0 ? head : body);
			ir_node *sb = brk, *sc = cont;
			brk  = exit;
			cont = step;
			auto cmpjmp = [&](ir_node *l, ir_node *r) {
				if (s->neg) condn(new_Cmp(l, r, (ir_relation)(s->rel ^ (RLT | REQ | RGT))), exit, body);
				else condn(new_Cmp(l, r, (ir_relation)s->rel), body, exit);
			};
			auto test = [&] {
				if (s->fuel >= 0) {
					ir_node *mid = new_immBlock();
					condn(new_Cmp(get_value(var, fmode(MIs)), konst(MIs, 0), ir_relation_greater), mid, exit);
					enter(mid, true);
					ir_node *dec = new_immBlock();
					cond(s->e3, dec, exit);
					enter(dec, true);
					set_value(var, new_Sub(get_value(var, fmode(MIs)), konst(MIs, 1)));
					jump_to(body);
				} else if (s->k == SLoopP) cmpjmp(get_value(var, mode_P), end);
				else {
					ir_node *bnd = top(s->e2);
					cmpjmp(get_value(var, fmode(fn->locals[(size_t)var].mode)), bnd);
				}
			};
			auto bump = [&] {
				if (s->fuel >= 0) return;
				if (s->k == SLoopP) set_value(var, new_Add(get_value(var, mode_P), new_Const_long(get_reference_offset_mode(mode_P), (long)s->step)));
				else {
					M m = fn->locals[(size_t)var].mode;
					set_value(var, new_Add(get_value(var, fmode(m)), konst(m, canon((uint64_t)s->step, mbits(m, td.arch), msigned(m)))));
				}
			};
			if (s->form == 0) {
				set_cur_block(head);
				reachable = true;
				test();
				enter(body, true);
				blk(s->b1);
				jump_to(step);
				join(step);
				if (reachable) { bump(); jump_to(head); }
				mature_immBlock(head);
			} else {
				set_cur_block(body);
				reachable = true;
				blk(s->b1);
				jump_to(step);
				join(step);
				if (reachable) { bump(); test(); }
				mature_immBlock(body);
				mature_immBlock(head); // unused
			}
			brk  = sb;
			cont = sc;
			join(exit);
			return;
		}
		case SSwitch: {
			ir_node *sel = top(s->e);
			size_t n = s->cases.size();
			ir_switch_table *tab = ir_new_switch_table(irg, n);
			M m = s->e->mode;
			for (size_t i = 0; i < n; ++i)
				ir_switch_table_set(tab, i, tv(m, canon((uint64_t)s->ranges[i].first, mbits(m, td.arch), msigned(m))),
				                    tv(m, canon((uint64_t)s->ranges[i].second, mbits(m, td.arch), msigned(m))), (unsigned)i + 1);
			ir_node *sw = new_Switch(sel, (unsigned)n + 1, tab);
			std::vector<ir_node *> blks;
			for (size_t i = 0; i <= n; ++i) {
				ir_node *x = new_Proj(sw, mode_X, (unsigned)i);
				blks.push_back(new_immBlock());
				add_immBlock_pred(blks.back(), x);
			}
			ir_node *j = new_immBlock();
			reachable = false;
			for (size_t i = 0; i < n; ++i) {
				if (i && s->fall[i - 1]) jump_to(blks[i + 1]);
				enter(blks[i + 1], true);
				blk(s->cases[i]);
				if (!s->fall[i]) jump_to(j);
			}
			if (s->fall[n - 1]) jump_to(blks[0]);
			enter(blks[0], true);
			blk(s->b1);
			jump_to(j);
			join(j);
			return;
		}
		case SReturn: {
			ir_node *v = s->e ? top(s->e) : nullptr;
			ret(v);
			return;
		}
		case SBreak: jump_to(brk); return;
		case SContinue: jump_to(cont); return;
		case SCall: case SExt: {
			ir_node *callee;
			ir_type *mt;
			M rm;
			if (s->k == SExt) { callee = new_Address(b.exts[(size_t)s->callee]); mt = get_entity_type(b.exts[(size_t)s->callee]); rm = ext_sigs[s->callee].ret; }
			else {
				callee = s->callee >= 0 ? new_Address(b.funcs[(size_t)s->callee]) : top(s->e);
				mt     = sigt[(size_t)s->sig];
				rm     = p.sigs[(size_t)s->sig].ret;
			}
			std::vector<ir_node *> in;
			for (E e : s->args) in.push_back(top(e));
			ir_node *c = new_Call(get_store(), callee, (int)in.size(), in.data(), mt);
			set_store(new_Proj(c, mode_M, pn_Call_M));
			if (s->dst >= 0 && rm != Mvoid) set_value(s->dst, new_Proj(new_Proj(c, mode_T, pn_Call_T_result), fmode(rm), 0));
			return;
		}
		case SCopyB: {
			ir_node *d = top(s->e), *src = top(s->e2);
			set_store(new_CopyB(get_store(), d, src, b.types[(size_t)s->type], cons_none));
			return;
		}
		case SCfg: {
			set_value(s->fuel, top(s->e));
			std::vector<ir_node *> heads;
			for (size_t i = 0; i < s->cfg.size(); ++i) heads.push_back(new_immBlock());
			ir_node *leave = new_immBlock();
			jump_to(heads[0]);
			// blocks may be unreachable, then they have no predecessors in the end
			std::vector<uint8_t> used(s->cfg.size());
			std::vector<int> work{0};
			while (!work.empty()) {
				int i = work.back();
				work.pop_back();
				if (used[(size_t)i]) continue;
				used[(size_t)i] = 1;
				for (int x : s->cfg[(size_t)i].succ) if ((size_t)x < s->cfg.size()) work.push_back(x);
			}
			for (size_t i = 0; i < s->cfg.size(); ++i) {
				if (!used[i]) continue;
				const CfgBlock &c = s->cfg[i];
				set_cur_block(heads[i]);
				reachable = true;
				ir_node *body = new_immBlock();
				condn(new_Cmp(get_value(s->fuel, fmode(MIs)), konst(MIs, 0), ir_relation_greater), body, leave);
				enter(body, true);
				set_value(s->fuel, new_Sub(get_value(s->fuel, fmode(MIs)), konst(MIs, 1)));
				blk(c.body);
				if (!reachable) continue;
				auto tgt = [&](int x) { return (size_t)x == s->cfg.size() ? leave : heads[(size_t)x]; };
				if (c.kind == 0) jump_to(tgt(c.succ[0]));
				else if (c.kind == 1) cond(c.cond, tgt(c.succ[0]), tgt(c.succ[1]));
				else {
					ir_node *sel = top(c.cond);
					ir_switch_table *tab = ir_new_switch_table(irg, c.cases.size());
					for (size_t x = 0; x < c.cases.size(); ++x) ir_switch_table_set(tab, x, tv(MIu, c.cases[x]), tv(MIu, c.cases[x]), (unsigned)x + 1);
					ir_node *sw = new_Switch(sel, (unsigned)c.succ.size(), tab);
					for (size_t x = 0; x < c.succ.size(); ++x) add_immBlock_pred(tgt(c.succ[x]), new_Proj(sw, mode_X, (unsigned)x));
					reachable = false;
					set_cur_block(nullptr);
				}
			}
			for (size_t i = 0; i < s->cfg.size(); ++i) mature_immBlock(heads[i]);
			join(leave);
			return;
		}
		default: return;
		}
	}
	void ret(ir_node *v)
	{
		ir_node *r = new_Return(get_store(), v ? 1 : 0, &v);
		add_immBlock_pred(get_irg_end_block(irg), r);
		set_cur_block(nullptr);
		reachable = false;
	}
	void function(size_t i)
	{
		fn = &p.funcs[i];
		const Sig &sg = p.sigs[(size_t)fn->sig];
		irg = new_ir_graph(b.funcs[i], (int)fn->locals.size());
		if (k.norm2) add_irg_constraints(irg, (ir_graph_constraints_t)k.norm2);
		set_current_ir_graph(irg);
		fobj.clear();
		for (size_t k2 = 0; k2 < fn->frame.size(); ++k2)
			fobj.push_back(new_entity(get_irg_frame_type(irg), new_id_from_str(pbt::strf("fo%zu", k2).c_str()), b.types[(size_t)fn->frame[k2]]));
		ir_node *args = get_irg_args(irg);
		for (size_t k2 = 0; k2 < sg.params.size(); ++k2) set_value((int)k2, new_Proj(args, fmode(sg.params[k2]), (unsigned)k2));
		for (size_t k2 = sg.params.size(); k2 < fn->locals.size(); ++k2) set_value((int)k2, konst(fn->locals[k2].mode, 0));
		for (size_t k2 = 0; k2 < fn->frame.size(); ++k2) {
			if (!fn->frame_init[k2]) continue;
			const ObjType &ot = p.types[(size_t)fn->frame[k2]];
			unsigned n = 0;
			for (const Elem &e : elems(ot, td.arch)) {
				ir_node *a = new_Member(get_irg_frame(irg), fobj[k2]);
				if (ot.is_struct) {
					a = new_Member(a, b.members[(size_t)fn->frame[k2]][(size_t)e.field]);
					if (ot.fields[(size_t)e.field].is_arr) a = new_Sel(a, konst(MIs, e.idx), b.member_types[(size_t)fn->frame[k2]][(size_t)e.field]);
				} else a = new_Sel(a, konst(MIs, e.idx), b.types[(size_t)fn->frame[k2]]);
				ir_node *s = new_Store(get_store(), a, konst(e.mode, frame_init_val(e.mode, n++)), pt(e.mode), cons_none);
				set_store(new_Proj(s, mode_M, pn_Store_M));
			}
		}
		reachable = true;
		blk(fn->body);
		if (reachable) ret(fn->ret ? top(fn->ret) : nullptr);
		mature_immBlock(get_irg_end_block(irg));
		irg_finalize_cons(irg);
	}
	void entry()
	{
		Sig s;
		ir_type *at = array(MBu, 64 * 8);
		set_type_alignment(at, 8);
		b.in  = new_global_entity(get_glob_type(), new_id_from_str((p.prefix + "in").c_str()), at, ir_visibility_external, IR_LINKAGE_DEFAULT);
		b.out = new_global_entity(get_glob_type(), new_id_from_str((p.prefix + "out").c_str()), at, ir_visibility_external, IR_LINKAGE_DEFAULT);
		b.entry = new_global_entity(get_glob_type(), new_id_from_str((p.prefix + "entry").c_str()), method(s), ir_visibility_external, IR_LINKAGE_DEFAULT);
		irg = new_ir_graph(b.entry, 0);
		set_current_ir_graph(irg);
		const Sig &es = p.sigs[(size_t)p.funcs[0].sig];
		std::vector<ir_node *> in;
		for (size_t i = 0; i < es.params.size(); ++i) {
			ir_node *a  = new_Add(new_Address(b.in), new_Const_long(get_reference_offset_mode(mode_P), (long)i * 8));
			ir_node *ld = new_Load(get_store(), a, fmode(es.params[i]), pt(es.params[i]), cons_volatile);
			set_store(new_Proj(ld, mode_M, pn_Load_M));
			in.push_back(new_Proj(ld, fmode(es.params[i]), pn_Load_res));
		}
		ir_node *c = new_Call(get_store(), new_Address(b.funcs[0]), (int)in.size(), in.data(), sigt[(size_t)p.funcs[0].sig]);
		set_store(new_Proj(c, mode_M, pn_Call_M));
		if (es.ret != Mvoid) {
			ir_node *r = new_Proj(new_Proj(c, mode_T, pn_Call_T_result), fmode(es.ret), 0);
			ir_node *n = new_Store(get_store(), new_Address(b.out), r, pt(es.ret), cons_volatile);
			set_store(new_Proj(n, mode_M, pn_Store_M));
		}
		ret(nullptr);
		mature_immBlock(get_irg_end_block(irg));
		irg_finalize_cons(irg);
	}
	void run()
	{
		init_modes(td.arch);
		rng = pbt::Rng(k.pin_seed);
		set_optimize(k.opt_while_building);
		types();
		for (const Sig &s : p.sigs) sigt.push_back(method(s));
		globals();
		for (int i = 0; i < NEXT; ++i) {
			bool usable = true;
			for (M m : ext_sigs[i].params) (void)m;
			ir_entity *e = nullptr;
			if (usable) e = new_global_entity(get_glob_type(), new_id_from_str(pbt::strf("%sext%d", p.prefix.c_str(), i).c_str()), method(ext_sigs[i]), ir_visibility_external, IR_LINKAGE_DEFAULT);
			b.exts.push_back(e);
		}
		for (size_t i = 0; i < p.funcs.size(); ++i)
			b.funcs.push_back(new_global_entity(get_glob_type(), new_id_from_str(p.funcs[i].name.c_str()), sigt[(size_t)p.funcs[i].sig],
			                                    p.funcs[i].is_private ? ir_visibility_local : ir_visibility_external, IR_LINKAGE_DEFAULT));
		for (size_t i = 0; i < p.funcs.size(); ++i) function(i);
		if (k.entry_harness) entry();
		set_optimize(1);
	}
};
} // namespace

void build_program(Program &p, const TargetDesc &t, const BuildKnobs &k, Built &b)
{
	Bu bu{p, t, k, b};
	bu.run();
}
unsigned firm_elem_offset(const Built &b, const Program &p, int type, const Elem &e, const Arch &a)
{
	const ObjType &ot = p.types[(size_t)type];
	if (!ot.is_struct) return e.off;
	return (unsigned)get_entity_offset(b.members[(size_t)type][(size_t)e.field]) + e.idx * (mbits(e.mode, a) / 8);
}
unsigned firm_type_size(const Built &b, int type) { return get_type_size(b.types[(size_t)type]); }
