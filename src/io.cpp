// The textual interchange format (P30), the verifier (P31) and determinism (P32).
#include "semutil.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
extern "C" {
#include <libfirm/irio.h>
#include "irnode_t.h"
#include "irgraph_t.h"
#include "irprog_t.h"
#include "entity_t.h"
#include "type_t.h"
#include "irop_t.h"
}
using namespace pbt;

namespace {
// ------------------------------------------------- canonical description
// A complete textual description of the whole program, with objects numbered in
// the order in which a fixed traversal reaches them.  Two programs with equal
// descriptions are isomorphic.
struct Canon {
	std::string s;
	std::unordered_map<const void *, size_t> tn, en;
	std::deque<ir_type *> tq;
	std::deque<ir_entity *> eq;
	std::vector<std::string> lines;
	std::vector<ir_type *> ts;   // by number
	std::vector<ir_entity *> es;
	bool align = false;          // describe the explicit alignment of entities
	void line(const char *f, ...) __attribute__((format(printf, 2, 3)))
	{
		char b[4000];
		va_list a;
		va_start(a, f);
		vsnprintf(b, sizeof b, f, a);
		va_end(a);
		lines.push_back(b);
	}
	std::string T(ir_type *t)
	{
		if (!t) return "none";
		if (is_unknown_type(t)) return "unknown";
		if (is_code_type(t)) return "code";
		auto r = tn.emplace(t, tn.size());
		if (r.second) { tq.push_back(t); ts.push_back(t); }
		return strf("t%zu", r.first->second);
	}
	std::string N(ir_entity *e)
	{
		if (!e) return "none";
		if (is_unknown_entity(e)) return "unknown";
		auto r = en.emplace(e, en.size());
		if (r.second) { eq.push_back(e); es.push_back(e); }
		return strf("e%zu", r.first->second);
	}
	static std::string id(ident *i)
	{
		if (!i) return "-";
		std::string r = "'";
		for (const char *p = get_id_str(i); *p; ++p) r += *p == '\n' ? "\\n" : std::string(1, *p);
		return r + "'";
	}
	static std::string V(ir_tarval *v)
	{
		ir_mode *m = get_tarval_mode(v);
		std::string r = get_mode_name(m);
		if (m == mode_b) return r + (v == tarval_b_true ? ":true" : v == tarval_b_false ? ":false" : ":?");
		if (v == tarval_bad || v == tarval_unknown || !(mode_is_num(m) || mode_is_reference(m))) return r + ":special";
		r += ":";
		for (unsigned i = (get_mode_size_bits(m) + 7) / 8; i-- > 0;) r += strf("%02x", get_tarval_sub_bits(v, i));
		return r;
	}
	std::string I(const ir_initializer_t *i)
	{
		switch (get_initializer_kind(i)) {
		case IR_INITIALIZER_NULL: return "null";
		case IR_INITIALIZER_TARVAL: return V(get_initializer_tarval_value(i));
		case IR_INITIALIZER_CONST: return "(" + tree(get_initializer_const_value(i)) + ")";
		case IR_INITIALIZER_COMPOUND: {
			std::string r = "{";
			for (size_t k = 0; k < get_initializer_compound_n_entries(i); ++k) r += I(get_initializer_compound_value(i, k)) + " ";
			return r + "}";
		}
		}
		return "?";
	}
	std::string tree(ir_node *n)
	{
		std::string r = attr(n);
		for (int i = 0; i < get_irn_arity(n); ++i) r += " (" + tree(get_irn_n(n, i)) + ")";
		return r;
	}
	std::string attr(ir_node *n)
	{
		std::string r = strf("%s %s", get_irn_opname(n), get_mode_name(get_irn_mode(n)));
		r += get_irn_pinned(n) ? " pinned" : " floats";
		if (is_fragile_op(n) && ir_throws_exception(n)) r += " throws";
		switch (get_irn_opcode(n)) {
		case iro_Address: r += " " + N(get_Address_entity(n)); break;
		case iro_Align:   r += " " + T(get_Align_type(n)); break;
		case iro_Size:    r += " " + T(get_Size_type(n)); break;
		case iro_Offset:  r += " " + N(get_Offset_entity(n)); break;
		case iro_Alloc:   r += strf(" align %u", get_Alloc_alignment(n)); break;
		case iro_Block:   r += " " + N(get_Block_entity(n)); break;
		case iro_Builtin: r += strf(" %s ", get_builtin_kind_name(get_Builtin_kind(n))) + T(get_Builtin_type(n)); break;
		case iro_Call:    r += " " + T(get_Call_type(n)); break;
		case iro_Cmp:     r += strf(" %s", get_relation_string(get_Cmp_relation(n))); break;
		case iro_Confirm: r += strf(" %s", get_relation_string(get_Confirm_relation(n))); break;
		case iro_Cond:    r += strf(" %s", get_cond_jmp_predicate_name(get_Cond_jmp_pred(n))); break;
		case iro_Const:   r += " " + V(get_Const_tarval(n)); break;
		case iro_CopyB:   r += " " + T(get_CopyB_type(n)) + strf(" vol%d", get_CopyB_volatility(n)); break;
		case iro_Div:     r += strf(" %s rem%d", get_mode_name(get_Div_resmode(n)), get_Div_no_remainder(n)); break;
		case iro_Mod:     r += strf(" %s", get_mode_name(get_Mod_resmode(n))); break;
		case iro_Load:    r += strf(" %s ", get_mode_name(get_Load_mode(n))) + T(get_Load_type(n)) + strf(" vol%d align%d", get_Load_volatility(n), get_Load_unaligned(n)); break;
		case iro_Store:   r += " " + T(get_Store_type(n)) + strf(" vol%d align%d", get_Store_volatility(n), get_Store_unaligned(n)); break;
		case iro_Member:  r += " " + N(get_Member_entity(n)); break;
		case iro_Sel:     r += " " + T(get_Sel_type(n)); break;
		case iro_Phi:     r += strf(" loop%d", get_Phi_loop(n)); break;
		case iro_Proj:    r += strf(" %u", get_Proj_num(n)); break;
		case iro_Switch: {
			r += strf(" %u outs", get_Switch_n_outs(n));
			const ir_switch_table *t = get_Switch_table(n);
			for (size_t i = 0; i < ir_switch_table_get_n_entries(t); ++i)
				if (ir_switch_table_get_pn(t, i)) r += " " + V(ir_switch_table_get_min(t, i)) + ".." + V(ir_switch_table_get_max(t, i)) + strf("->%u", ir_switch_table_get_pn(t, i));
			break;
		}
		case iro_ASM: {
			r += " " + id(get_ASM_text(n));
			for (size_t i = 0; i < get_ASM_n_constraints(n); ++i) {
				ir_asm_constraint *k = &get_ASM_constraints(n)[i];
				r += strf(" [%d %d ", k->in_pos, k->out_pos) + id(k->constraint) + strf(" %s]", get_mode_name(k->mode));
			}
			for (size_t i = 0; i < get_ASM_n_clobbers(n); ++i) r += " clobber " + id(get_ASM_clobbers(n)[i]);
			break;
		}
		default: break;
		}
		return r;
	}
	void graph(ir_graph *irg)
	{
		line("graph of %s frame %s", N(get_irg_entity(irg)).c_str(), T(get_irg_frame_type(irg)).c_str());
		std::unordered_map<ir_node *, size_t> nn;
		std::vector<ir_node *> order, st;
		auto num = [&](ir_node *n) {
			auto r = nn.emplace(n, nn.size());
			if (r.second) order.push_back(n);
			return r.first->second;
		};
		num(get_irg_anchor(irg));
		for (size_t i = 0; i < order.size(); ++i) {
			ir_node *n = order[i];
			std::string r = attr(n);
			if (!is_Block(n)) r += strf(" @%zu", num(get_nodes_block(n)));
			for (int k = 0; k < get_irn_arity(n); ++k) r += strf(" %zu", num(get_irn_n(n, k)));
			line(" %zu: %s", i, r.c_str());
		}
	}
	void type(ir_type *t)
	{
		std::string r = strf("type t%zu %s size %u align %u state %d flags %x", tn[t], get_type_opcode_name(get_type_opcode(t)), get_type_size(t), get_type_alignment(t), get_type_state(t), t->flags);
		if (is_compound_type(t)) {
			r += " " + id(get_compound_ident(t)) + " members";
			for (size_t i = 0; i < get_compound_n_members(t); ++i) r += " " + N(get_compound_member(t, i));
		} else if (is_Array_type(t)) r += " of " + T(get_array_element_type(t)) + strf(" x %u", get_array_size(t));
		else if (is_Pointer_type(t)) r += " to " + T(get_pointer_points_to_type(t));
		else if (is_Primitive_type(t)) r += strf(" %s", get_mode_name(get_type_mode(t)));
		else if (is_Method_type(t)) {
			r += strf(" cc %x props %x variadic %d (", get_method_calling_convention(t), get_method_additional_properties(t), is_method_variadic(t));
			for (size_t i = 0; i < get_method_n_params(t); ++i) r += T(get_method_param_type(t, i)) + " ";
			r += ")";
			for (size_t i = 0; i < get_method_n_ress(t); ++i) r += " " + T(get_method_res_type(t, i));
		}
		lines.push_back(r);
	}
	void entity(ir_entity *e)
	{
		std::string r = strf("entity e%zu kind %d vis %d linkage %x vol %d type ", en[e], (int)e->kind, get_entity_visibility(e), get_entity_linkage(e), get_entity_volatility(e));
		r += T(get_entity_type(e));
		if (e->kind != IR_ENTITY_LABEL) r += " owner " + T(get_entity_owner(e));
		if (e->kind != IR_ENTITY_LABEL && e->kind != IR_ENTITY_PARAMETER) {
			r += " " + id(get_entity_ident(e));
			r += entity_has_ld_ident(e) ? " ld " + id(get_entity_ld_ident(e)) : " no ld";
		}
		if (align && e->kind != IR_ENTITY_LABEL) r += strf(" align %u aligned %d", get_entity_alignment(e), get_entity_aligned(e));
		if (e->kind == IR_ENTITY_ALIAS) r += " of " + N(get_entity_alias(e)) + strf(" props %x", get_entity_additional_properties(e));
		if (e->kind == IR_ENTITY_COMPOUND_MEMBER || e->kind == IR_ENTITY_PARAMETER) r += strf(" offset %d bits %u+%u", get_entity_offset(e), get_entity_bitfield_offset(e), get_entity_bitfield_size(e));
		if (e->kind == IR_ENTITY_PARAMETER) r += strf(" number %zu", get_entity_parameter_number(e));
		if (e->kind == IR_ENTITY_METHOD) r += strf(" props %x graph %d", get_entity_additional_properties(e), get_entity_irg(e) != nullptr);
		if (e->kind == IR_ENTITY_NORMAL && get_entity_initializer(e)) r += " = " + I(get_entity_initializer(e));
		lines.push_back(r);
	}
	void program()
	{
		line("name %s", irp_prog_name_is_set() ? get_irp_name() : "(none)");
		for (int i = IR_SEGMENT_FIRST; i <= IR_SEGMENT_LAST; ++i) line("segment %d %s", i, T(get_segment_type((ir_segment_t)i)).c_str());
		for (size_t i = 0; i < get_irp_n_asms(); ++i) line("asm %s", id(get_irp_asm(i)).c_str());
		for (size_t i = 0; i < get_irp_n_irgs(); ++i) graph(get_irp_irg(i));
		while (!tq.empty() || !eq.empty()) {
			while (!tq.empty()) { ir_type *t = tq.front(); tq.pop_front(); type(t); }
			while (!eq.empty()) { ir_entity *e = eq.front(); eq.pop_front(); entity(e); }
		}
		line("%zu graphs", get_irp_n_irgs());
	}
};
std::string differ(const std::vector<std::string> &a, const std::vector<std::string> &b)
{
	for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
		const std::string x = i < a.size() ? a[i] : "(end)", y = i < b.size() ? b[i] : "(end)";
		if (x != y) return strf("line %zu is\n  %s\nbefore and\n  %s\nafter", i, x.substr(0, 900).c_str(), y.substr(0, 900).c_str());
	}
	return "";
}

// ------------------------------------------------- decorations
struct Decor {
	Ctx &c;
	Tape &t;
	std::string log;
	unsigned k = 0;
	bool align = false; // explicit alignments of entities, a known finding
	std::vector<ir_type *> types;
	explicit Decor(Ctx &c) : c(c), t(c.t) {}
	ident *name()
	{
		static const char *const odd[] = {"plain", "with space", "quote\"inside", "back\\slash", "new\nline", "NULL", "none", "tab\there", "}", "]", "{ [", "\xc3\xa9\xe2\x82\xac", "initializer", "#hash", "a.b$c@d", "-1"};
		std::string s = t.chance(1, 2) ? odd[t.below(16)] : "n";
		s += std::to_string(k++);
		if (t.chance(1, 12)) s = odd[t.below(16)] + s;
		return new_id_from_str(s.c_str());
	}
	ir_mode *mode() { static const M ms[] = {MBs, MBu, MHs, MHu, MIs, MIu, MLs, MLu, MF, MD, MP}; return fmode(ms[t.below(11)]); }
	ir_type *type(int depth)
	{
		SpanGuard sg(t);
		if (!types.empty() && t.chance(1, 3)) return t.pick(types);
		ir_type *r = nullptr;
		switch (depth > 3 ? 0 : t.weighted({4, 2, 2, 2, 1, 2, 2})) {
		case 0: r = new_type_primitive(mode()); break;
		case 1: r = new_type_pointer(t.chance(1, 6) ? get_unknown_type() : type(depth + 1)); break;
		case 2: { ir_type *e = type(depth + 1); if (is_Method_type(e) || get_type_alignment(e) == 0) e = new_type_pointer(e); unsigned n = t.below(5); r = new_type_array(e, n); set_type_size(r, n * get_type_size(e)); set_type_state(r, layout_fixed); break; }
		case 3: case 4: case 5: {
			unsigned w = t.below(3);
			ident *n = t.chance(1, 8) ? nullptr : name();
			r = w == 0 ? new_type_struct(n) : w == 1 ? new_type_union(n) : new_type_class(n ? n : name());
			unsigned m = t.below(5);
			for (unsigned i = 0; i < m; ++i) {
				ir_type *mt = type(depth + 1);
				if (is_Method_type(mt)) mt = new_type_pointer(mt);
				ir_entity *e = new_entity(r, name(), mt);
				if (t.chance(1, 5) && is_Primitive_type(mt) && mode_is_int(get_type_mode(mt))) {
					set_entity_bitfield_size(e, 1 + t.below(get_mode_size_bits(get_type_mode(mt))));
					if (t.flip()) set_entity_bitfield_offset(e, t.below(8));
				}
				if (t.chance(1, 6)) set_entity_volatility(e, volatility_is_volatile);
				if (align && t.chance(1, 3)) set_entity_aligned(e, align_non_aligned);
				if (align && t.chance(1, 3)) set_entity_alignment(e, 1u << t.below(5));
			}
			bool can = true;
			for (size_t i = 0; i < get_compound_n_members(r); ++i) {
				ir_entity *e = get_compound_member(r, i);
				can &= !get_entity_bitfield_size(e) && get_type_state(get_entity_type(e)) == layout_fixed && get_type_alignment(get_entity_type(e)) > 0;
			}
			if (can && t.chance(2, 3)) default_layout_compound_type(r);
			break;
		}
		case 6: {
			unsigned np = t.below(4), nr = t.below(2);
			static const unsigned ccs[] = {cc_cdecl_set, cc_stdcall_set, cc_fastcall_set, cc_reg_param | cc_this_call, cc_compound_ret};
			r = new_type_method(np, nr, t.chance(1, 4), t.chance(1, 2) ? 0 : ccs[t.below(5)], (mtp_additional_properties)(t.flip() ? 0 : t.below(1u << 12)));
			for (unsigned i = 0; i < np; ++i) { ir_type *x = type(depth + 1); set_method_param_type(r, i, is_Method_type(x) ? new_type_pointer(x) : x); }
			for (unsigned i = 0; i < nr; ++i) { ir_type *x = type(depth + 1); set_method_res_type(r, i, is_Method_type(x) ? new_type_pointer(x) : x); }
			break;
		}
		}
		if (t.chance(1, 10)) set_type_alignment(r, 1u << t.below(5));
		types.push_back(r);
		return r;
	}
	ir_tarval *value(ir_mode *m)
	{
		if (mode_is_reference(m)) return t.flip() ? get_mode_null(m) : new_tarval_from_long((long)t.below(1u << 30), m);
		if (mode_is_int(m)) return new_integer_tarval_from_str("0", 1, 0, 10, m) && t.flip() ? get_mode_min(m) : t.flip() ? get_mode_max(m) : new_tarval_from_long((long)(int32_t)t.raw32(), m);
		switch (t.below(8)) {
		case 0: return get_mode_null(m);
		case 1: return tarval_neg(get_mode_null(m));
		case 2: return get_mode_infinite(m);
		case 3: return tarval_neg(get_mode_infinite(m));
		case 4: return get_mode_min(m);
		case 5: { unsigned char b[16] = {0}; unsigned n = get_mode_size_bytes(m); for (unsigned i = 0; i < n && i < 8; ++i) b[i] = (unsigned char)t.below(256); return new_tarval_from_bytes(b, m); }
		case 6: { unsigned char b[16] = {0}; b[0] = (unsigned char)(1 + t.below(255)); return new_tarval_from_bytes(b, m); }
		default: return new_tarval_from_double(ldexp((double)(int32_t)t.raw32(), (int)t.below(80) - 40), m);
		}
	}
	ir_initializer_t *init(ir_type *ty, int depth)
	{
		if (t.chance(1, 8)) return get_initializer_null();
		if (is_Primitive_type(ty)) {
			ir_mode *m = get_type_mode(ty);
			ir_tarval *v = value(m);
			if (t.chance(1, 3)) {
				ir_node *n = new_rd_Const(nullptr, get_const_code_irg(), v);
				return create_initializer_const(n);
			}
			return create_initializer_tarval(v);
		}
		if (is_Pointer_type(ty)) {
			ir_type *g = get_glob_type();
			if (get_compound_n_members(g) && t.chance(2, 3)) {
				ir_entity *e = get_compound_member(g, t.below((uint32_t)get_compound_n_members(g)));
				if (e->kind == IR_ENTITY_NORMAL || e->kind == IR_ENTITY_METHOD || e->kind == IR_ENTITY_ALIAS) {
					ir_graph *cg = get_const_code_irg();
					ir_node *a = new_r_Address(cg, e);
					if (t.chance(1, 3)) a = new_r_Add(get_irg_start_block(cg), a, new_r_Const_long(cg, get_reference_offset_mode(mode_P), (long)t.below(32)));
					return create_initializer_const(a);
				}
			}
			return create_initializer_tarval(get_mode_null(mode_P));
		}
		size_t n = is_Array_type(ty) ? get_array_size(ty) : is_compound_type(ty) ? get_compound_n_members(ty) : 0;
		if (is_Union_type(ty) && n > 1) n = 1 + t.below((uint32_t)n);
		if (is_Method_type(ty) || depth > 4) return get_initializer_null();
		ir_initializer_t *r = create_initializer_compound(n);
		for (size_t i = 0; i < n; ++i) {
			ir_type *s = is_Array_type(ty) ? get_array_element_type(ty) : get_entity_type(get_compound_member(ty, i));
			set_initializer_compound_value(r, i, init(s, depth + 1));
		}
		return r;
	}
	void run()
	{
		unsigned n = t.below(8);
		for (unsigned i = 0; i < n; ++i) {
			SpanGuard sg(t);
			ir_type *ty = type(0);
			ir_type *owner = t.chance(1, 5) ? get_segment_type((ir_segment_t)t.below(IR_SEGMENT_LAST + 1)) : get_glob_type();
			if (owner->flags & tf_info) owner = get_glob_type();
			static const ir_visibility vs[] = {ir_visibility_external, ir_visibility_local, ir_visibility_private, ir_visibility_external_private, ir_visibility_external_protected};
			ir_visibility vis = vs[t.weighted({4, 2, 2, 1, 1})];
			ir_entity *e;
			ident *nm = name();
			if (t.chance(1, 8) && get_compound_n_members(get_glob_type())) {
				ir_entity *a = get_compound_member(get_glob_type(), t.below((uint32_t)get_compound_n_members(get_glob_type())));
				e = new_alias_entity(owner, nm, a, get_entity_type(a), vis);
				if (t.chance(1, 3)) add_entity_additional_properties(e, (mtp_additional_properties)(1u << t.below(14)));
			} else {
				e = new_entity(owner, nm, ty);
				set_entity_visibility(e, vis);
				if (e->kind == IR_ENTITY_NORMAL && t.chance(2, 3)) set_entity_initializer(e, init(ty, 0));
				if (e->kind == IR_ENTITY_METHOD && t.flip()) add_entity_additional_properties(e, (mtp_additional_properties)(1u << t.below(14)));
				if (t.chance(1, 4)) set_entity_ld_ident(e, name());
			}
			if (t.chance(1, 4)) set_entity_linkage(e, (ir_linkage)t.below(128));
			if (t.chance(1, 5)) set_entity_volatility(e, volatility_is_volatile);
			if (align && t.chance(1, 2)) set_entity_alignment(e, 1u << t.below(6));
			if (align && t.chance(1, 3)) set_entity_aligned(e, align_non_aligned);
		}
		for (unsigned i = t.weighted({4, 1, 1}); i-- > 0;) add_irp_asm(name());
		if (t.chance(1, 3)) set_irp_prog_name(name());
	}
};

// finds the counterparts of the entities and types the harness refers to
void rebind(Built &b, Canon &from, Canon &to)
{
	auto E1 = [&](ir_entity *&e) { if (e) { auto i = from.en.find(e); e = i == from.en.end() ? nullptr : to.es[i->second]; } };
	for (auto *v : {&b.globals, &b.funcs, &b.exts}) for (ir_entity *&e : *v) E1(e);
	for (auto &v : b.members) for (ir_entity *&e : v) E1(e);
	for (ir_entity **e : {&b.entry, &b.in, &b.out}) E1(*e);
	auto T1 = [&](ir_type *&t) { if (t) { auto i = from.tn.find(t); t = i == from.tn.end() ? nullptr : to.ts[i->second]; } };
	for (ir_type *&t : b.types) T1(t);
	for (auto &v : b.member_types) for (ir_type *&t : v) T1(t);
}

const TargetDesc &pick_target(Ctx &c)
{
	static const char *const names[] = {"amd64", "ia32", "arm", "sparc", "riscv", "mips"};
	return target(names[c.t.weighted({4, 4, 1, 1, 1, 1})]);
}

std::string export_text()
{
	char *buf = nullptr;
	size_t n = 0;
	FILE *f = open_memstream(&buf, &n);
	ir_export_file(f);
	fclose(f);
	std::string r(buf, n);
	free(buf);
	return r;
}
int import_text(const std::string &s)
{
	FILE *f = fmemopen((void *)s.data(), s.size(), "r");
	int r = ir_import_file(f, "memory");
	fclose(f);
	return r;
}

void roundtrip(Ctx &c)
{
	Case k;
	k.t = &pick_target(c);
	firm_start(*k.t);
	BuildKnobs kn;
	kn.opt_while_building = !c.t.chance(1, 3);
	kn.pin_seed = c.t.raw32();
	kn.keep_loops = c.t.chance(1, 4);
	std::vector<const Pass *> prep, seq;
	for (int i = 0; i < n_passes; ++i) if (all_passes[i].prep) prep.push_back(&all_passes[i]);
	for (unsigned i = c.t.weighted({5, 2, 2, 1}); i-- > 0;) seq.push_back(c.t.pick(prep));
	bool confirms = c.t.chance(1, 6), align = c.t.chance(1, 60);
	GenCfg g;
	static const unsigned bud[] = {30, 10, 80, 3};
	g.budget = bud[c.t.weighted({4, 3, 2, 2})];
	make_case(c, k, g);
	std::string desc = "passes:";
	for (auto *p : seq) desc += std::string(" ") + p->name;
	if (confirms) desc += " construct_confirms";
	c.sample = desc + "\n" + show(k.p);
	c.note(c.sample);
	c.excuse_crash(true);
	build_program(k.p, *k.t, kn, k.b);
	for (auto *p : seq) { SpanGuard sg(c.t); p->run(c.t); }
	if (confirms) for (size_t i = 0; i < get_irp_n_irgs(); ++i) construct_confirms(get_irp_irg(i));
	Decor d(c);
	d.align = align;
	d.run();
	if (!verify_all().empty()) discard("prefix left an invalid graph");
	bool judge = !confirms;
	if (judge && !check_graphs(k, kn.pin_seed).empty()) discard("prefix changed the program");
	c.excuse_crash(false);
	Canon a, a2;
	a.program();
	a2.align = true;
	a2.program();
	stage("export");
	std::string text = export_text();
	if (getenv("VERIF_DUMP")) fputs(text.c_str(), stderr);
	unsigned rounds = c.t.chance(1, 4) ? 2 : 1;
	for (unsigned r = 1; r <= rounds; ++r) {
		ir_finish();
		firm_start(*k.t);
		stage("import");
		if (int e = import_text(text)) fail("import:rejected", "%d errors reading what was written (round %u)", e, r);
		stage("verify");
		std::string v = verify_all();
		if (!v.empty()) fail("import:invalid", "irg_verify rejects %s after import", v.c_str());
		Canon b, b2;
		b.program();
		std::string df = differ(a.lines, b.lines);
		if (!df.empty()) fail("import:different", "round %u: %s", r, df.c_str());
		b2.align = true;
		b2.program();
		df = differ(a2.lines, b2.lines);
		if (!df.empty()) fail("import:alignment", "round %u: explicit alignment of an entity: %s", r, df.c_str());
		if (r == 1 && judge) {
			rebind(k.b, a, b);
			std::string s = check_graphs(k, kn.pin_seed + 1);
			if (!s.empty()) fail("import:semantics", "after import: %s", s.c_str());
		}
		if (r < rounds) { stage("export again"); text = export_text(); }
	}
	if (a.lines.size() >= 60) c.nontrivial();
	if (confirms) c.label("with Confirm nodes");
	if (d.types.size() > 3) c.label("with more than 3 additional types");
	if (rounds > 1) c.label("two rounds");
}
Reg r30(Prop{"P30", "the described program has at least 60 lines (nodes, types, entities)", {{"roundtrip", roundtrip, 100000, 1500000, 1, 10}}, {"the canonical description lists every attribute that the documented accessors expose"}});

// ------------------------------------------------------------ P31: verifier
// One rule of the graph language, broken at one place, must be reported; a
// replacement of an operand that respects the rules must be accepted.
struct Mut {
	Ctx &c;
	Tape &t;
	ir_graph *irg;
	std::vector<ir_node *> nodes, blocks;
	std::unordered_set<const ir_node *> reach; // blocks reachable from the start block
	std::map<const ir_node *, std::vector<ir_node *>> succ;
	std::string what;
	Mut(Ctx &c, ir_graph *g) : c(c), t(c.t), irg(g)
	{
		irg_walk_graph(irg, nullptr, [](ir_node *n, void *e) { ((Mut *)e)->nodes.push_back(n); }, this);
		for (ir_node *n : nodes) if (is_Block(n)) blocks.push_back(n);
		for (ir_node *b : blocks)
			for (int i = 0; i < get_Block_n_cfgpreds(b); ++i) {
				ir_node *pb = get_Block_cfgpred_block(b, i);
				if (pb && is_Block(pb)) succ[pb].push_back(b);
			}
		reach = from_start(nullptr);
	}
	std::unordered_set<const ir_node *> from_start(const ir_node *without)
	{
		std::unordered_set<const ir_node *> r;
		std::vector<ir_node *> w;
		ir_node *s = get_irg_start_block(irg);
		if (s != without) { r.insert(s); w.push_back(s); }
		while (!w.empty()) {
			ir_node *b = w.back();
			w.pop_back();
			for (ir_node *x : succ[b]) if (x != without && r.insert(x).second) w.push_back(x);
		}
		return r;
	}
	bool dominates(const ir_node *a, const ir_node *b) { return a == b || !from_start(a).count(b); }
	static std::string nm(const ir_node *n) { return strf("%s %ld", get_irn_opname(n), get_irn_node_nr(n)); }
	template<class F> ir_node *pick(F f)
	{
		std::vector<ir_node *> v;
		for (ir_node *n : nodes) if (f(n)) v.push_back(n);
		if (v.empty()) return nullptr;
		return v[t.below((uint32_t)v.size())];
	}
	static bool isref(ir_mode *m) { return mode_is_reference(m); }
	static bool isuint(ir_mode *m) { return mode_is_int(m) && !mode_is_signed(m); }
	static bool isdata(ir_mode *m) { return mode_is_data(m) && m != mode_b; }
	static bool is3(const ir_node *n) { return is_Add(n) || is_Sub(n); }
	// may operand i of n have mode m, given all else?  -1: no rule
	static int allowed(const ir_node *n, int i, ir_mode *m)
	{
		ir_mode *r = get_irn_mode(n);
		auto other = [&](int k) { return get_irn_mode(get_irn_n(n, k)); };
		switch (get_irn_opcode(n)) {
		case iro_Add: {
			if (!isref(r)) return m == r;
			ir_mode *o = other(1 - i), *off = get_reference_offset_mode(r);
			return (m == r && o == off) || (m == off && o == r);
		}
		case iro_Sub: {
			ir_mode *l = i == 0 ? m : other(0), *x = i == 1 ? m : other(1);
			if (isref(r)) return l == r && x == get_reference_offset_mode(r);
			if (isref(l)) return x == l && r == get_reference_offset_mode(l);
			return l == r && x == r;
		}
		case iro_Minus: case iro_Mul: case iro_Mulh: case iro_And: case iro_Or: case iro_Eor: case iro_Not: case iro_Phi: return m == r;
		case iro_Mux:   return i == n_Mux_sel ? m == mode_b : m == r;
		case iro_Cmp:   return isdata(m) && m == other(1 - i);
		case iro_Shl: case iro_Shr: case iro_Shrs: return i == 0 ? m == r : isuint(m);
		case iro_Conv:  return isdata(m);
		case iro_Bitcast: return isdata(m) && get_mode_size_bits(m) == get_mode_size_bits(r) && get_mode_arithmetic(m) != get_mode_arithmetic(r);
		case iro_Div:   return i == n_Div_mem ? m == mode_M : m == get_Div_resmode(n);
		case iro_Mod:   return i == n_Mod_mem ? m == mode_M : m == get_Mod_resmode(n);
		case iro_Load:  return i == n_Load_mem ? m == mode_M : isref(m);
		case iro_Store: return i == n_Store_mem ? m == mode_M : i == n_Store_ptr ? isref(m) : isdata(m);
		case iro_Alloc: return i == n_Alloc_mem ? m == mode_M : isuint(m);
		case iro_Free:  return i == n_Free_mem ? m == mode_M : isref(m);
		case iro_CopyB: return i == n_CopyB_mem ? m == mode_M : isref(m);
		case iro_Sync:  return m == mode_M;
		case iro_Sel:   return i == n_Sel_ptr ? isref(m) : mode_is_int(m);
		case iro_Member: return isref(m);
		case iro_Cond:  return m == mode_b;
		case iro_Switch: {
			if (!mode_is_int(m)) return 0;
			if (m == other(i)) return 1;
			const ir_switch_table *tb = get_Switch_table(n);
			for (size_t k = 0; k < ir_switch_table_get_n_entries(tb); ++k) if (ir_switch_table_get_pn(tb, k)) return 0;
			return 1;
		}
		case iro_Call: {
			if (i == n_Call_mem) return m == mode_M;
			if (i == n_Call_ptr) return isref(m);
			ir_type *mt = get_Call_type(n);
			unsigned k = (unsigned)(i - n_Call_max - 1);
			if (k >= get_method_n_params(mt)) return isdata(m);
			ir_type *pt = get_method_param_type(mt, k);
			return is_atomic_type(pt) ? m == get_type_mode(pt) : isref(m);
		}
		case iro_Return: {
			if (i == n_Return_mem) return m == mode_M;
			ir_type *rt = get_method_res_type(get_entity_type(get_irg_entity(get_irn_irg(n))), i - n_Return_max - 1);
			return is_atomic_type(rt) ? m == get_type_mode(rt) : isref(m);
		}
		default: return -1;
		}
	}
	// may n have mode m, given its operands and attributes?
	static int allowed_res(const ir_node *n, ir_mode *m)
	{
		auto in = [&](int k) { return get_irn_mode(get_irn_n(n, k)); };
		switch (get_irn_opcode(n)) {
		case iro_Add: {
			if (isref(m)) { ir_mode *off = get_reference_offset_mode(m); return (in(0) == m && in(1) == off) || (in(1) == m && in(0) == off); }
			return mode_is_num(m) && in(0) == m && in(1) == m;
		}
		case iro_Sub:
			if (isref(m)) return in(0) == m && in(1) == get_reference_offset_mode(m);
			if (!mode_is_num(m)) return -1; // no documented check
			if (isref(in(0))) return in(1) == in(0) && m == get_reference_offset_mode(in(0));
			return in(0) == m && in(1) == m;
		case iro_Minus: case iro_Mul: case iro_Mulh: case iro_And: case iro_Or: case iro_Eor: case iro_Not: case iro_Shl: case iro_Shr: case iro_Shrs: return m == in(0);
		case iro_Phi: if (get_irn_arity(n) == 0) return -1; return m == in(0);
		case iro_Mux: return m == in(n_Mux_true);
		case iro_Cmp: return m == mode_b;
		case iro_Conv: return isdata(m);
		case iro_Bitcast: return isdata(m) && get_mode_size_bits(m) == get_mode_size_bits(in(0)) && get_mode_arithmetic(m) != get_mode_arithmetic(in(0));
		case iro_Const: return m == get_tarval_mode(get_Const_tarval(n));
		case iro_Address: case iro_Member: case iro_Sel: return isref(m);
		case iro_Align: case iro_Size: case iro_Offset: return mode_is_int(m);
		case iro_Sync: case iro_CopyB: case iro_Free: return m == mode_M;
		case iro_Load: case iro_Store: case iro_Call: case iro_Div: case iro_Mod: case iro_Alloc: case iro_Cond: case iro_Switch: case iro_Start: return m == mode_T;
		case iro_Return: case iro_End: return m == mode_X;
		case iro_Block: return m == mode_BB;
		case iro_Proj: {
			ir_node *p = get_Proj_pred(n);
			unsigned k = get_Proj_num(n);
			switch (get_irn_opcode(p)) {
			case iro_Start: return k == pn_Start_M ? m == mode_M : k == pn_Start_P_frame_base ? isref(m) : k == pn_Start_T_args ? m == mode_T : -1;
			case iro_Cond: case iro_Switch: return m == mode_X;
			case iro_Load: return k == pn_Load_M ? m == mode_M : k == pn_Load_res ? m == get_Load_mode(p) : m == mode_X;
			case iro_Store: return k == pn_Store_M ? m == mode_M : m == mode_X;
			case iro_Div: return k == pn_Div_M ? m == mode_M : k == pn_Div_res ? m == get_Div_resmode(p) : m == mode_X;
			case iro_Mod: return k == pn_Mod_M ? m == mode_M : k == pn_Mod_res ? m == get_Mod_resmode(p) : m == mode_X;
			case iro_Alloc: return k == pn_Alloc_M ? m == mode_M : isref(m);
			case iro_Call: return k == pn_Call_M ? m == mode_M : k == pn_Call_T_result ? m == mode_T : m == mode_X;
			case iro_Proj: {
				ir_node *pp = get_Proj_pred(p);
				if (is_Call(pp)) { ir_type *rt = get_method_res_type(get_Call_type(pp), k); return is_atomic_type(rt) ? m == get_type_mode(rt) : -1; }
				if (is_Start(pp)) { ir_type *pt = get_method_param_type(get_entity_type(get_irg_entity(get_irn_irg(n))), k); return m == get_type_mode(pt); }
				return -1;
			}
			default: return -1;
			}
		}
		default: return -1;
		}
	}
	ir_node *value(ir_mode *m)
	{
		if (m == mode_M) return get_irg_no_mem(irg);
		if (mode_is_num(m) && t.flip()) return new_r_Const(irg, get_mode_null(m));
		return new_r_Unknown(irg, m);
	}
	std::vector<ir_mode *> modes()
	{
		std::vector<ir_mode *> r;
		static const M ms[] = {MBs, MBu, MHs, MHu, MIs, MIu, MLs, MLu, MF, MD, MP};
		for (M m : ms) r.push_back(fmode(m));
		ir_mode *off = get_reference_offset_mode(mode_P);
		if (std::find(r.begin(), r.end(), off) == r.end()) r.push_back(off);
		r.push_back(mode_b);
		r.push_back(mode_M);
		return r;
	}
	bool operand(bool bad)
	{
		ir_node *n = pick([](ir_node *n) { for (int i = 0; i < get_irn_arity(n); ++i) if (allowed(n, i, mode_T) >= 0) return true; return false; });
		if (!n) return false;
		int i = (int)t.below((uint32_t)get_irn_arity(n));
		if (allowed(n, i, mode_T) < 0) return false;
		std::vector<ir_mode *> v;
		for (ir_mode *m : modes()) if (allowed(n, i, m) == !bad) v.push_back(m);
		if (v.empty()) return false;
		ir_mode *m = t.pick(v);
		what = strf("%s: operand %d of mode %s replaced by one of mode %s (result mode %s)", nm(n).c_str(), i, get_mode_name(get_irn_mode(get_irn_n(n, i))), get_mode_name(m), get_mode_name(get_irn_mode(n)));
		set_irn_n(n, i, value(m));
		return true;
	}
	bool resmode()
	{
		ir_node *n = pick([](ir_node *n) { return allowed_res(n, mode_ANY) >= 0; });
		if (!n) return false;
		std::vector<ir_mode *> v, all = modes();
		all.push_back(mode_T);
		all.push_back(mode_X);
		all.push_back(mode_BB);
		for (ir_mode *m : all) if (!allowed_res(n, m)) v.push_back(m);
		if (v.empty()) return false;
		ir_mode *m = t.pick(v);
		what = strf("%s: mode %s replaced by %s", nm(n).c_str(), get_mode_name(get_irn_mode(n)), get_mode_name(m));
		set_irn_mode(n, m);
		return true;
	}
	bool arity()
	{
		ir_node *n = pick([](ir_node *n) { return is_Call(n) || is_Return(n) || (is_Phi(n) && get_irn_arity(n) > 0); });
		if (!n) return false;
		std::vector<ir_node *> in;
		for (int i = 0; i < get_irn_arity(n); ++i) in.push_back(get_irn_n(n, i));
		size_t fixed = is_Call(n) ? (size_t)n_Call_max + 1 : is_Return(n) ? (size_t)n_Return_max + 1 : 1;
		bool variadic = is_Call(n) && is_method_variadic(get_Call_type(n));
		if (in.size() > fixed && (variadic || t.flip())) {
			if (variadic && in.size() - fixed > get_method_n_params(get_Call_type(n))) in.resize(fixed + get_method_n_params(get_Call_type(n)));
			if (in.size() <= fixed) return false;
			in.pop_back();
			what = nm(n) + ": one operand too few";
		} else {
			if (variadic) return false;
			in.push_back(is_Phi(n) ? in.back() : value(fmode(MIs)));
			what = nm(n) + ": one operand too many";
		}
		set_irn_in(n, (int)in.size(), in.data());
		return true;
	}
	bool proj_num()
	{
		auto lim = [this](ir_node *n) -> int {
			if (!is_Proj(n)) return -1;
			ir_node *p = get_Proj_pred(n);
			switch (get_irn_opcode(p)) {
			case iro_Start: return pn_Start_max + 1;
			case iro_Cond: return pn_Cond_max + 1;
			case iro_Switch: return (int)get_Switch_n_outs(p);
			case iro_Load: return pn_Load_max + 1;
			case iro_Store: return pn_Store_max + 1;
			case iro_Div: return pn_Div_max + 1;
			case iro_Mod: return pn_Mod_max + 1;
			case iro_Alloc: return pn_Alloc_max + 1;
			case iro_Call: return pn_Call_max + 1;
			case iro_Proj: {
				ir_node *pp = get_Proj_pred(p);
				if (is_Call(pp)) return (int)get_method_n_ress(get_Call_type(pp));
				if (is_Start(pp)) return (int)get_method_n_params(get_entity_type(get_irg_entity(irg)));
				return -1;
			}
			default: return -1;
			}
		};
		ir_node *n = pick([&](ir_node *n) { return lim(n) >= 0; });
		if (!n) return false;
		unsigned l = (unsigned)lim(n) + (t.flip() ? 0 : t.below(20));
		what = strf("%s of %s: number %u replaced by %u", nm(n).c_str(), nm(get_Proj_pred(n)).c_str(), get_Proj_num(n), l);
		set_Proj_num(n, l);
		return true;
	}
	bool proj_exc()
	{
		ir_node *n = pick([](ir_node *n) { if (!is_Proj(n)) return false; ir_node *p = get_Proj_pred(n); return (is_Load(p) || is_Store(p) || is_Div(p) || is_Mod(p) || is_Call(p)) && !ir_throws_exception(p); });
		if (!n) return false;
		ir_node *p = get_Proj_pred(n);
		bool ex = t.flip();
		unsigned k = is_Load(p) ? (unsigned)(ex ? pn_Load_X_except : pn_Load_X_regular) : is_Store(p) ? (unsigned)(ex ? pn_Store_X_except : pn_Store_X_regular) : is_Div(p) ? (unsigned)(ex ? pn_Div_X_except : pn_Div_X_regular) : is_Mod(p) ? (unsigned)(ex ? pn_Mod_X_except : pn_Mod_X_regular) : (unsigned)(ex ? pn_Call_X_except : pn_Call_X_regular);
		what = strf("%s of %s: turned into an exception Proj of a node that does not throw", nm(n).c_str(), nm(p).c_str());
		set_Proj_num(n, k);
		set_irn_mode(n, mode_X);
		return true;
	}
	bool placement()
	{
		bool proj = t.flip();
		ir_node *n = pick([&](ir_node *n) { return !is_Block(n) && (proj ? is_Proj(n) : is_irn_start_block_placed(n) && !is_Proj(n)); });
		if (!n || blocks.size() < 2) return false;
		ir_node *b = t.pick(blocks);
		if (b == get_nodes_block(n)) return false;
		what = strf("%s: moved to %s", nm(n).c_str(), nm(b).c_str());
		set_nodes_block(n, b);
		return true;
	}
	bool keepalive()
	{
		ir_node *n = pick([](ir_node *n) { return !is_Block(n) && !is_Call(n) && !is_Bad(n) && !(is_Phi(n) && get_Phi_loop(n)) && !is_End(n) && !is_Anchor(n) && get_irn_mode(n) != mode_X && get_irn_mode(n) != mode_T; });
		if (!n) return false;
		what = nm(n) + ": kept alive";
		add_End_keepalive(get_irg_end(irg), n);
		return true;
	}
	bool attribute()
	{
		ir_node *n = pick([](ir_node *n) { return is_Address(n) || is_Member(n) || is_Sel(n) || is_CopyB(n) || is_Load(n) || is_Div(n) || is_Mod(n) || is_Const(n) || is_Block(n); });
		if (!n) return false;
		if (is_Address(n)) {
			for (ir_node *m : nodes)
				if (is_Member(m)) { set_Address_entity(n, get_Member_entity(m)); what = nm(n) + ": address of a member"; return true; }
			ir_type *s = new_type_struct(new_id_from_str("mut"));
			set_Address_entity(n, new_entity(s, new_id_from_str("mut_m"), new_type_primitive(fmode(MIs))));
			what = nm(n) + ": address of a member";
			return true;
		}
		if (is_Member(n)) {
			if (t.flip()) { set_Member_entity(n, new_entity(get_glob_type(), new_id_from_str("mut_g"), new_type_primitive(fmode(MIs)))); what = nm(n) + ": member is a global"; return true; }
			if (get_Member_ptr(n) != get_irg_frame(irg)) return false;
			ir_type *s = new_type_struct(new_id_from_str("mut"));
			set_Member_entity(n, new_entity(s, new_id_from_str("mut_m"), new_type_primitive(fmode(MIs))));
			what = nm(n) + ": member of the frame with a foreign entity";
			return true;
		}
		if (is_Sel(n)) { set_Sel_type(n, t.flip() ? new_type_primitive(fmode(MIs)) : new_type_struct(new_id_from_str("mut"))); what = nm(n) + ": type is not an array"; return true; }
		if (is_CopyB(n)) { set_CopyB_type(n, t.flip() ? new_type_primitive(fmode(MIs)) : new_type_pointer(new_type_primitive(fmode(MIs)))); what = nm(n) + ": copies a scalar type"; return true; }
		if (is_Load(n)) { set_Load_mode(n, t.flip() ? mode_b : mode_M); for (ir_node *p : nodes) if (is_Proj(p) && get_Proj_pred(p) == n && get_Proj_num(p) == pn_Load_res) set_irn_mode(p, get_Load_mode(n)); what = nm(n) + ": loads a mode that is not data"; return true; }
		if (is_Div(n) || is_Mod(n)) {
			ir_mode *old = is_Div(n) ? get_Div_resmode(n) : get_Mod_resmode(n);
			ir_mode *m = t.pick(modes());
			if (m == old) return false;
			for (ir_node *p : nodes) if (is_Proj(p) && get_Proj_pred(p) == n && get_Proj_num(p) == (is_Div(n) ? (unsigned)pn_Div_res : (unsigned)pn_Mod_res)) set_irn_mode(p, m);
			if (is_Div(n)) set_Div_resmode(n, m); else set_Mod_resmode(n, m);
			what = nm(n) + strf(": result mode %s replaced by %s", get_mode_name(old), get_mode_name(m));
			return true;
		}
		if (is_Const(n)) {
			static const M ms[] = {MBs, MHu, MIs, MIu, MLs, MLu, MF, MD};
			ir_mode *m = fmode(ms[t.below(8)]);
			if (m == get_irn_mode(n)) return false;
			set_Const_tarval(n, get_mode_null(m));
			what = nm(n) + strf(": constant of mode %s in a node of mode %s", get_mode_name(m), get_mode_name(get_irn_mode(n)));
			return true;
		}
		if (is_Block(n) && get_Block_matured(n)) { set_Block_matured(n, 0); what = nm(n) + ": immature"; return true; }
		return false;
	}
	bool swtable()
	{
		ir_node *n = pick([](ir_node *n) { return is_Switch(n) && ir_switch_table_get_n_entries(get_Switch_table(n)) > 0; });
		if (!n) return false;
		ir_switch_table *tb = get_Switch_table(n);
		size_t k = t.below((uint32_t)ir_switch_table_get_n_entries(tb));
		ir_tarval *lo = ir_switch_table_get_min(tb, k), *hi = ir_switch_table_get_max(tb, k);
		unsigned pn = ir_switch_table_get_pn(tb, k);
		ir_mode *m = get_irn_mode(get_Switch_selector(n));
		if (pn == 0) return false;
		switch (t.below(4)) {
		case 0: ir_switch_table_set(tb, k, lo, hi, get_Switch_n_outs(n) + t.below(3)); what = nm(n) + ": table entry with an invalid target"; return true;
		case 1: if (lo == get_mode_max(m)) return false; ir_switch_table_set(tb, k, tarval_add(lo, get_mode_one(m)), lo, pn); what = nm(n) + ": table entry with min > max"; return true;
		case 2: { ir_mode *o = m == fmode(MIs) ? fmode(MIu) : fmode(MIs); ir_switch_table_set(tb, k, get_mode_one(o), hi, pn); what = nm(n) + ": table entry whose min has a wrong mode"; return true; }
		default: { ir_mode *o = m == fmode(MIs) ? fmode(MIu) : fmode(MIs); ir_switch_table_set(tb, k, lo, get_mode_max(o), pn); what = nm(n) + ": table entry whose max has a wrong mode"; return true; }
		}
	}
	void add_pred(ir_node *b, ir_node *x)
	{
		std::vector<ir_node *> in;
		for (int i = 0; i < get_irn_arity(b); ++i) in.push_back(get_irn_n(b, i));
		in.push_back(x);
		set_irn_in(b, (int)in.size(), in.data());
		for (ir_node *p : nodes)
			if (is_Phi(p) && get_nodes_block(p) == b) {
				std::vector<ir_node *> pi;
				for (int i = 0; i < get_irn_arity(p); ++i) pi.push_back(get_irn_n(p, i));
				pi.push_back(value(get_irn_mode(p)));
				set_irn_in(p, (int)pi.size(), pi.data());
			}
	}
	bool cfg()
	{
		ir_node *sb = get_irg_start_block(irg), *eb = get_irg_end_block(irg);
		auto normal = [&](ir_node *n) { return is_Block(n) && n != sb && n != eb; };
		switch (t.below(7)) {
		case 0: { // one control flow value used twice
			ir_node *n = pick([&](ir_node *n) { return normal(n) && get_irn_arity(n) > 0 && reach.count(n); });
			ir_node *u = pick([&](ir_node *n) { return normal(n); });
			if (!n || !u) return false;
			ir_node *x = get_Block_cfgpred(n, (int)t.below((uint32_t)get_irn_arity(n)));
			if (is_Bad(x) || is_unknown_jump(skip_Proj(x))) return false;
			add_pred(u, x);
			what = nm(u) + ": gets " + nm(x) + " as predecessor, which " + nm(n) + " has already";
			return true;
		}
		case 1: { // two branches in a block
			ir_node *n = pick([&](ir_node *n) { return is_Block(n) && n != eb && !succ[n].empty() && reach.count(n); });
			ir_node *u = pick([&](ir_node *n) { return normal(n) && reach.count(n); });
			if (!n || !u) return false;
			add_pred(u, new_r_Jmp(n));
			what = nm(n) + ": has a second jump, to " + nm(u);
			return true;
		}
		case 2: { // Cond without one of its Projs / Switch without default
			ir_node *x = nullptr, *b = nullptr;
			int at = 0;
			std::vector<std::pair<ir_node *, int>> v;
			std::map<ir_node *, std::set<ir_node *>> used;
			for (ir_node *k : blocks) for (int i = 0; i < get_irn_arity(k); ++i) {
				ir_node *p = get_irn_n(k, i);
				if (!is_Proj(p)) continue;
				ir_node *br = get_Proj_pred(p);
				used[br].insert(p);
				if (is_Cond(br) || (is_Switch(br) && get_Proj_num(p) == pn_Switch_default)) v.push_back({k, i});
			}
			if (v.empty()) return false;
			std::tie(b, at) = t.pick(v);
			x = get_irn_n(b, at);
			ir_node *br = get_Proj_pred(x);
			if (used[br].size() < 2) return false;
			clear_irg_properties(irg, IR_GRAPH_PROPERTY_NO_BADS);
			what = nm(b) + ": predecessor " + nm(x) + " of " + nm(br) + " replaced by Bad";
			set_irn_n(b, at, new_r_Bad(irg, mode_X));
			// the branch must still be reachable from the end
			bool found = false;
			std::vector<ir_node *> now;
			irg_walk_graph(irg, nullptr, [](ir_node *n, void *e) { ((std::vector<ir_node *> *)e)->push_back(n); }, &now);
			for (ir_node *n : now) found |= n == br;
			return found;
		}
		case 3: { // start block with predecessor
			ir_node *n = pick([&](ir_node *n) { return normal(n) && reach.count(n); });
			if (!n) return false;
			ir_node *x = new_r_Jmp(n);
			set_irn_in(sb, 1, &x);
			what = "start block gets a predecessor";
			return true;
		}
		case 4: { // end block reached by a jump
			ir_node *n = pick([&](ir_node *n) { return is_Return(n); });
			if (!n) return false;
			for (int i = 0; i < get_irn_arity(eb); ++i)
				if (get_irn_n(eb, i) == n) {
					set_irn_n(eb, i, new_r_Jmp(get_nodes_block(n)));
					what = "end block is reached by a jump instead of " + nm(n);
					return true;
				}
			return false;
		}
		case 5: { // block without predecessors
			ir_node *b = pick([&](ir_node *n) { return normal(n) && get_irn_arity(n) > 0; });
			if (!b) return false;
			for (ir_node *p : nodes) if (is_Phi(p) && get_nodes_block(p) == b) return false;
			set_irn_in(b, 0, nullptr);
			what = nm(b) + ": no predecessors";
			return true;
		}
		default: { // a block that does not end in a branch
			ir_node *b = pick([&](ir_node *n) { return normal(n) && reach.count(n); });
			if (!b) return false;
			ir_node *nb[1] = {new_r_Bad(irg, mode_X)};
			clear_irg_properties(irg, IR_GRAPH_PROPERTY_NO_BADS);
			ir_node *dead = new_r_Block(irg, 1, nb);
			ir_node *n = pick([&](ir_node *n) { return is_Add(n) || is_Conv(n) || is_Eor(n) || is_Mul(n) || is_Sub(n); });
			if (!n) return false;
			set_nodes_block(n, dead);
			what = nm(n) + ": moved to a block that does not end in a branch";
			return true;
		}
		}
	}
	bool dominance()
	{
		ir_node *use = pick([&](ir_node *n) { return !is_Block(n) && !is_End(n) && !is_Proj(n) && !is_Anchor(n) && get_irn_arity(n) > 0 && reach.count(get_nodes_block(n)); });
		if (!use) return false;
		int i = (int)t.below((uint32_t)get_irn_arity(use));
		ir_node *at = get_nodes_block(use);
		if (is_Phi(use)) at = get_Block_cfgpred_block(at, i);
		if (!at || !is_Block(at) || !reach.count(at)) return false;
		ir_mode *m = get_irn_mode(get_irn_n(use, i));
		ir_node *def = pick([&](ir_node *n) { return !is_Block(n) && n != use && get_irn_mode(n) == m && reach.count(get_nodes_block(n)) && !dominates(get_nodes_block(n), at); });
		if (!def) return false;
		set_irn_n(use, i, def);
		what = strf("%s: operand %d replaced by %s, whose block does not dominate the use", nm(use).c_str(), i, nm(def).c_str());
		return true;
	}
	bool properties()
	{
		switch (t.below(4)) {
		case 0: {
			ir_node *n = pick([](ir_node *n) { return is_Phi(n) && get_irn_arity(n) > 1; });
			if (!n) return false;
			set_irn_n(n, (int)t.below((uint32_t)get_irn_arity(n)), new_r_Bad(irg, get_irn_mode(n)));
			add_irg_properties(irg, IR_GRAPH_PROPERTY_NO_BADS);
			what = nm(n) + ": Bad operand although the graph is said to have none";
			return true;
		}
		case 1: {
			size_t r = 0;
			for (ir_node *n : nodes) r += is_Return(n);
			if (r < 2) return false;
			add_irg_properties(irg, IR_GRAPH_PROPERTY_ONE_RETURN);
			what = strf("one return claimed, %zu present", r);
			return true;
		}
		case 2: {
			size_t k = 0;
			for (ir_node *b : blocks) if (get_irn_arity(b) > 1) for (int i = 0; i < get_irn_arity(b); ++i) { ir_node *p = skip_Proj(get_irn_n(b, i)); k += is_Cond(p) || is_Switch(p); }
			if (!k) return false;
			add_irg_properties(irg, IR_GRAPH_PROPERTY_NO_CRITICAL_EDGES);
			what = strf("no critical edges claimed, %zu present", k);
			return true;
		}
		default: {
			size_t k = 0;
			for (ir_node *b : blocks) k += !reach.count(b) && b != get_irg_end_block(irg);
			if (!k) return false;
			add_irg_properties(irg, IR_GRAPH_PROPERTY_NO_UNREACHABLE_CODE);
			what = strf("no unreachable code claimed, %zu unreachable blocks", k);
			return true;
		}
		}
	}
};

void verifier(Ctx &c)
{
	Case k;
	k.t = &pick_target(c);
	firm_start(*k.t);
	BuildKnobs kn;
	kn.opt_while_building = !c.t.chance(1, 3);
	kn.pin_seed = c.t.raw32();
	kn.keep_loops = c.t.chance(1, 4);
	std::vector<const Pass *> prep, seq;
	for (int i = 0; i < n_passes; ++i) if (all_passes[i].prep) prep.push_back(&all_passes[i]);
	for (unsigned i = c.t.weighted({5, 2, 2}); i-- > 0;) seq.push_back(c.t.pick(prep));
	GenCfg g;
	static const unsigned bud[] = {30, 10, 60, 3};
	g.budget = bud[c.t.weighted({4, 3, 2, 2})];
	make_case(c, k, g);
	std::string desc = "passes:";
	for (auto *p : seq) desc += std::string(" ") + p->name;
	c.sample = desc + "\n" + show(k.p);
	c.note(c.sample);
	c.excuse_crash(true);
	build_program(k.p, *k.t, kn, k.b);
	for (auto *p : seq) { SpanGuard sg(c.t); p->run(c.t); }
	if (!verify_all().empty()) discard("prefix left an invalid graph");
	c.excuse_crash(false);
	std::string desc2;
	unsigned done = 0;
	// every graph is mutated once: broken graphs are thrown away with the case
	for (size_t gi = 0; gi < get_irp_n_irgs(); ++gi) {
		ir_graph *irg = get_irp_irg(gi);
		if (get_irg_last_idx(irg) > 5000) continue; // the verifier's storage check is quadratic
		edges_deactivate(irg); // nodes that become unused stay in the use lists
		for (unsigned tries = 0; tries < 6; ++tries) {
			SpanGuard sg(c.t);
			Mut m(c, irg);
			unsigned w = c.t.weighted({8, 4, 3, 3, 1, 2, 2, 3, 1, 4, 4, 2, 2});
			bool ok = false, good = false;
			static const char *const kinds[] = {"operand mode", "result mode", "arity", "Proj number", "exception Proj", "placement", "keep-alive", "attribute", "switch table", "control flow", "dominance", "graph property", "legal operand"};
			c.excuse_crash(true);
			switch (w) {
			case 0: ok = m.operand(true); break;
			case 1: ok = m.resmode(); break;
			case 2: ok = m.arity(); break;
			case 3: ok = m.proj_num(); break;
			case 4: ok = m.proj_exc(); break;
			case 5: ok = m.placement(); break;
			case 6: ok = m.keepalive(); break;
			case 7: ok = m.attribute(); break;
			case 8: ok = m.swtable(); break;
			case 9: ok = m.cfg(); break;
			case 10: ok = m.dominance(); break;
			case 11: ok = m.properties(); break;
			default: ok = m.operand(false); good = true; break;
			}
			c.excuse_crash(false);
			if (!ok && !m.what.empty()) break; // the graph is spoilt, the breach not certain
			if (!ok) continue;
			desc2 += strf("%s: %s\n", get_entity_name(get_irg_entity(irg)), m.what.c_str());
			c.note(c.sample + desc2);
			stage("verify");
			bool verdict = irg_verify(irg);
			if (verdict != good) {
				if (getenv("VERIF_DUMP")) dump_all("mutated");
				if (good) fail("verifier:rejects", "a valid graph: %s", m.what.c_str());
				fail("verifier:accepts", "%s: %s", kinds[w], m.what.c_str());
			}
			c.label(kinds[w]);
			++done;
			if (!good) break;
		}
	}
	if (done) c.nontrivial();
	c.hash = c.hash * 31 + done;
}
Reg r31(Prop{"P31", "at least one rule was broken (or one legal replacement made) in a graph with at least one candidate place", {{"verifier", verifier, 250000, 4000000, 1, 10}}, {"graphs produced by the construction and the passes are valid before the mutation"}});
} // namespace
