#include <cstdio>
#include <unistd.h>
#include "passes.h"

template <class F> static void each(F f)
{
	for (size_t i = get_irp_n_irgs(); i-- > 0;) f(get_irp_irg(i));
}
#define IRG(name, ...) static void p_##name(pbt::Tape &t) { (void)t; each([&](ir_graph *irg) { (void)irg; __VA_ARGS__; }); }
#define IRP(name, ...) static void p_##name(pbt::Tape &t) { (void)t; __VA_ARGS__; }

static int ifconv_yes(ir_node const *const, ir_node const *const, ir_node const *const) { return 1; }
static void after_inline(ir_graph *irg)
{
	scalar_replacement_opt(irg);
	local_optimize_graph(irg);
	optimize_cf(irg);
}
static void after_inline_nothing(ir_graph *) {}

IRG(cf, optimize_cf(irg))
IRG(jumpthreading, opt_jumpthreading(irg))
IRG(bool_, opt_bool(irg))
IRG(conv, conv_opt(irg))
IRP(funccalls, optimize_funccalls())
IRG(gvn_pre, do_gvn_pre(irg))
IRG(ifconv, opt_if_conv(irg))
IRG(ifconv_all, opt_if_conv_cb(irg, ifconv_yes))
IRG(parallelize, opt_parallelize_mem(irg))
IRG(loadstore, optimize_load_store(irg))
IRG(combine, combine_memops(irg))
IRG(ldst, opt_ldst(irg))
IRG(frame, opt_frame_irg(irg))
IRG(osr, opt_osr(irg, osr_flag_default))
IRG(osr_keep, opt_osr(irg, osr_flag_lftr_with_ov_check | osr_flag_keep_reg_pressure | osr_flag_ignore_x86_shift))
IRG(phicycles, remove_phi_cycles(irg))
IRP(cloning, proc_cloning(t.flip() ? 0.0f : 10.0f))
IRG(reassoc, optimize_reassociation(irg))
IRG(one_return, normalize_one_return(irg))
IRG(n_returns, normalize_n_returns(irg))
IRG(scalar, scalar_replacement_opt(irg))
IRG(tailrec, opt_tail_rec_irg(irg))
IRG(combo, combo(irg))
IRP(inline, { static const unsigned mx[] = {750, 100, 5000}; static const int th[] = {0, 100, -1000}; unsigned a = mx[t.below(3)]; int b = th[t.below(3)]; inline_functions(a, b, t.flip() ? after_inline_nothing : after_inline); })
IRG(shape, shape_blocks(irg))
IRG(inversion, do_loop_inversion(irg))
IRG(unrolling, do_loop_unrolling(irg))
IRG(unroll_loops, { static const unsigned fs[] = {2, 4, 3, 8}; unsigned f = fs[t.below(4)]; unroll_loops(irg, f, t.flip() ? 400 : 5000); })
IRG(peeling, do_loop_peeling(irg))
IRP(gc, garbage_collect_entities())
IRG(dne, dead_node_elimination(irg))
IRG(place, place_code(irg))
IRG(occult, occult_consts(irg))
IRG(local, local_optimize_graph(irg))
IRG(graph_df, optimize_graph_df(irg))
IRG(unreachable, remove_unreachable_code(irg))
IRG(bads, remove_bads(irg))
IRG(tuples, remove_tuples(irg))
IRG(critical, remove_critical_cf_edges(irg))
IRG(confirms, construct_confirms(irg))
IRG(confirms_local, { construct_confirms(irg); optimize_graph_df(irg); remove_confirms(irg); })
IRG(rm_confirms, remove_confirms(irg))
IRG(vrp, { set_vrp_data(irg); optimize_graph_df(irg); })
IRG(copyb, lower_CopyB(irg, t.flip() ? 64 : 4, 1u << 30, t.flip()))
IRG(mux, lower_mux(irg, nullptr))
IRG(switch_, lower_switch(irg, 4, t.flip() ? 256 : 8, mode_Iu))
IRG(highlevel, lower_highlevel_graph(irg))
IRP(const_code, lower_const_code())
IRP(cgana, { ir_entity **free_methods = nullptr; cgana(&free_methods); opt_call_addrs(); free_irp_callee_info(); })
IRG(global_cse, { set_opt_global_cse(1); optimize_graph_df(irg); place_code(irg); set_opt_global_cse(0); })

#define P(g, n, prep) {#n, g, p_##n, prep}
const Pass all_passes[] = {
	P("cf", cf, true), P("cf", jumpthreading, true), P("cf", one_return, true), P("cf", n_returns, true), P("cf", critical, true), P("cf", ifconv, true), P("cf", ifconv_all, true),
	P("cf", unreachable, true), P("cf", bads, true), P("cf", switch_, false), P("cf", mux, false), P("cf", bool_, true),
	P("value", local, true), P("value", graph_df, true), P("value", gvn_pre, true), P("value", combo, true), P("value", reassoc, true), P("value", conv, true), P("value", occult, true),
	P("confirms", confirms, false), P("confirms", confirms_local, false), P("value", vrp, true), P("value", phicycles, true), P("value", place, true), P("value", dne, true), P("value", tuples, true), P("value", global_cse, true),
	P("mem", loadstore, true), P("mem", combine, true), P("mem", parallelize, true), P("mem", scalar, true), P("mem", frame, true), P("mem", copyb, false), P("mem", highlevel, false),
	P("loop", inversion, true), P("loop", unrolling, false), P("loop", unroll_loops, false), P("loop", osr, true), P("loop", osr_keep, true),
	P("ipo", inline, true), P("ipo", tailrec, true), P("ipo", funccalls, true), P("ipo", gc, true), P("ipo", cgana, false), P("ipo", const_code, false),
};
const int n_passes = sizeof all_passes / sizeof *all_passes;

const Pass *find_pass(const char *name)
{
	for (const Pass &p : all_passes) if (!strcmp(p.name, name)) return &p;
	return nullptr;
}
// blocks that only the data walker reaches: a loop without exit whose block is not kept alive
static bool unkept_loop(ir_graph *irg)
{
	struct Env { std::vector<ir_node *> all, walked; } e;
	irg_walk_graph(irg, [](ir_node *n, void *p) { if (is_Block(n)) ((Env *)p)->all.push_back(n); }, nullptr, &e);
	irg_block_walk_graph(irg, [](ir_node *n, void *p) { ((Env *)p)->walked.push_back(n); }, nullptr, &e);
	return e.all.size() > e.walked.size();
}
std::string verify_all()
{
	for (size_t i = 0; i < get_irp_n_irgs(); ++i) {
		ir_graph *irg = get_irp_irg(i);
		fflush(stderr);
		off_t pos = lseek(2, 0, SEEK_END);
		if (!irg_verify(irg)) {
			std::string why;
			fflush(stderr);
			FILE *f = pos >= 0 ? fopen("/proc/self/fd/2", "r") : nullptr;
			char line[300];
			if (f && !fseeko(f, pos, SEEK_SET) && fgets(line, sizeof line, f)) { why = line; why = ": " + why.substr(0, why.find('\n')); }
			if (f) fclose(f);
			return std::string(get_entity_name(get_irg_entity(irg))) + (unkept_loop(irg) ? " (endless loop without a kept block)" : "") + why;
		}
	}
	return "";
}
