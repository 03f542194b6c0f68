#include "semutil.h"
using namespace pbt;

void stage(const std::string &s) { fprintf(stderr, "verif-stage: %s\n", s.c_str()); }

GenCfg default_cfg(const TargetDesc &) { return GenCfg(); }

void make_case(Ctx &c, Case &k, const GenCfg &cfg)
{
	gen_program(c.t, cfg, k.t->arch, k.p);
	k.ref = eval_program(k.p, k.t->arch, k.st);
	c.note(std::string("target ") + k.t->name + "\n" + show(k.p));
	if (k.ref.empty()) discard("no defined run");
	c.hash = prog_hash(k.p);
	c.label(strf("target %s", k.t->name).c_str());
	if (k.st.stores) c.label("stores");
	if (k.st.calls) c.label("calls");
	if (k.st.loop_iters > 2) c.label("loops iterated");
	if (k.st.branches) c.label("branches");
}

std::string check_graphs(Case &k, uint64_t seed)
{
	InterpResult r = interp_program(k.p, *k.t, k.b, k.ref.size(), 400000, seed);
	if (r.unsupported) discard(("interpreter: " + r.error).c_str());
	return compare_runs(k.p, k.t->arch, k.ref, r);
}

static void dump_node(ir_node *n, void *env)
{
	(void)env;
	if (is_Block(n)) {
		ir_fprintf(stderr, "%+F:", n);
		for (int i = 0; i < get_irn_arity(n); ++i) ir_fprintf(stderr, " <- %+F@%+F", get_irn_n(n, i), is_Bad(get_irn_n(n, i)) ? n : get_nodes_block(get_irn_n(n, i)));
	} else {
		ir_fprintf(stderr, "  %+F @%+F = ", n, get_nodes_block(n));
		if (is_Const(n)) ir_fprintf(stderr, "%T", get_Const_tarval(n));
		if (is_Proj(n)) ir_fprintf(stderr, "#%u", get_Proj_num(n));
		if (is_Cmp(n)) ir_fprintf(stderr, "%s", get_relation_string(get_Cmp_relation(n)));
		if (is_Address(n)) ir_fprintf(stderr, "%+F", get_Address_entity(n));
		if (is_Member(n)) ir_fprintf(stderr, "%+F", get_Member_entity(n));
		if (is_Switch(n)) {
			const ir_switch_table *t = get_Switch_table(n);
			for (size_t i = 0; i < ir_switch_table_get_n_entries(t); ++i)
				if (ir_switch_table_get_min(t, i)) ir_fprintf(stderr, "[%T..%T->%u]", ir_switch_table_get_min(t, i), ir_switch_table_get_max(t, i), ir_switch_table_get_pn(t, i));
		}
		for (int i = 0; i < get_irn_arity(n); ++i) ir_fprintf(stderr, " %+F", get_irn_n(n, i));
	}
	fputc('\n', stderr);
}
void dump_all(const char *what)
{
	if (!getenv("VERIF_DUMP")) return;
	for (size_t i = 0; i < get_irp_n_irgs(); ++i) {
		ir_graph *irg = get_irp_irg(i);
		ir_fprintf(stderr, "==== %s: %+F\n", what, irg);
		irg_walk_graph(irg, nullptr, dump_node, nullptr);
	}
}
