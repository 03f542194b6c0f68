// Construction, local optimisation and graph passes keep the meaning of programs.
#include <malloc.h>
#include "semutil.h"
using namespace pbt;

static const TargetDesc &pick_target(Ctx &c)
{
	static const char *const names[] = {"amd64", "ia32", "arm", "sparc", "riscv", "mips"};
	return target(names[c.t.weighted({8, 4, 2, 2, 1, 1})]);
}

static GenCfg pick_cfg(Ctx &c, unsigned probe_pct)
{
	GenCfg g;
	if (c.t.chance(probe_pct, 100)) {
		g.probe = true;
		g.mem = g.ptr = c.t.chance(1, 3);
		g.max_funcs = 1;
		g.nvec = 6;
		return g;
	}
	static const unsigned bud[] = {60, 20, 120, 200, 8};
	g.budget = bud[c.t.weighted({4, 3, 3, 1, 1})];
	if (c.t.chance(1, 8)) g.expr_only = true;
	return g;
}

static void finish(Ctx &c, Case &k)
{
	if (k.st.steps >= 8) c.nontrivial();
	if (c.sample.empty()) c.sample = show(k.p);
}

static void construct(Ctx &c)
{
	Case k;
	k.t = &pick_target(c);
	firm_start(*k.t);
	BuildKnobs kn;
	kn.opt_while_building = c.t.flip();
	kn.pin_seed           = c.t.raw32();
	kn.keep_loops         = c.t.flip();
	make_case(c, k, pick_cfg(c, 40));
	stage("build");
	static const unsigned cons[] = {0, IR_GRAPH_CONSTRAINT_NORMALISATION2, IR_GRAPH_CONSTRAINT_NORMALISATION2 | IR_GRAPH_CONSTRAINT_ARCH_DEP, IR_GRAPH_CONSTRAINT_ARCH_DEP};
	kn.norm2 = cons[c.t.weighted({5, 1, 3, 1})];
	build_program(k.p, *k.t, kn, k.b);
	stage("verify");
	std::string v = verify_all();
	if (!v.empty()) fail("invalid:construction", "irg_verify rejects %s", v.c_str());
	std::string d = check_graphs(k, kn.pin_seed);
	if (!d.empty()) fail("semantics:construction", "%s", d.c_str());
	finish(c, k);
}

static void run_pass(Ctx &c, const Pass &p)
{
	dump_all(p.name); 
	stage(strf("pass %s", p.name));
	SpanGuard sg(c.t);
	p.run(c.t);
}

// Repeated inlining can blow graphs up, in nodes or in the memory their obstack holds
// (the verifier walks its chunks for every operand), beyond what is worth checking.
static void bound_size()
{
	uint64_t n = 0;
	for (size_t i = 0; i < get_irp_n_irgs(); ++i) n += get_irg_last_idx(get_irp_irg(i));
	struct mallinfo2 mi = mallinfo2();
	if (n > 100000 || mi.uordblks + mi.hblkhd > (48u << 20)) discard("graphs too large");
}
static void group(Ctx &c, const char *grp, int nmain)
{
	std::vector<const Pass *> main, prep;
	for (int i = 0; i < n_passes; ++i) {
		if (!strcmp(all_passes[i].group, grp)) main.push_back(&all_passes[i]);
		if (all_passes[i].prep) prep.push_back(&all_passes[i]);
	}
	Case k;
	k.t = &pick_target(c);
	firm_start(*k.t);
	BuildKnobs kn;
	kn.opt_while_building = !c.t.chance(1, 3);
	kn.pin_seed           = c.t.raw32();
	kn.keep_loops         = c.t.flip();
	// passes first: shrinking the program then leaves them alone
	std::vector<const Pass *> seq;
	unsigned npre = c.t.weighted({5, 4, 3, 2, 1});
	for (unsigned i = 0; i < npre; ++i) seq.push_back(c.t.pick(prep));
	std::vector<const Pass *> ms;
	for (int i = 0; i < nmain; ++i) {
		ms.push_back(c.t.pick(main));
		if (!c.t.chance(1, 3)) break;
	}
	// second normalisation state: from the start, before the prefix or before the passes under test
	unsigned norm2 = c.t.weighted({6, 1, 1, 2});
	// ... and the state after architecture dependent lowering, which keeps shifts by constants
	unsigned cons = norm2 ? IR_GRAPH_CONSTRAINT_NORMALISATION2 | (c.t.chance(2, 3) ? IR_GRAPH_CONSTRAINT_ARCH_DEP : 0) : 0;
	GenCfg g = pick_cfg(c, !strcmp(grp, "value") ? 40 : 12);
	if (!strcmp(grp, "mem") && c.t.flip()) g.mem_heavy = true;
	if (!strcmp(grp, "ipo") && !g.probe && c.t.flip()) { g.ipo = true; g.budget = std::max(g.budget, 40u); }
	make_case(c, k, g);
	std::string desc = std::string("target ") + k.t->name + (kn.opt_while_building ? "" : " (no optimisation while building)") + (norm2 ? " (second normalisation)" : "") + (cons & IR_GRAPH_CONSTRAINT_ARCH_DEP ? " (arch dep)" : "") + "\npasses:";
	for (auto *p : seq) desc += std::string(" ") + p->name;
	desc += " |";
	for (auto *p : ms) desc += std::string(" ") + p->name;
	c.sample = desc + "\n" + show(k.p);
	c.note(c.sample);
	c.excuse_crash(true);
	kn.norm2 = norm2 == 1 ? cons : 0;
	build_program(k.p, *k.t, kn, k.b);
	auto set_norm2 = [&] { for (size_t i = 0; i < get_irp_n_irgs(); ++i) add_irg_constraints(get_irp_irg(i), (ir_graph_constraints_t)cons); };
	if (norm2 == 2) set_norm2();
	for (auto *p : seq) { run_pass(c, *p); bound_size(); }
	if (!verify_all().empty()) discard("prefix left an invalid graph");
	std::string d = check_graphs(k, kn.pin_seed);
	if (!d.empty()) discard("prefix changed the program");
	c.excuse_crash(false);
	if (norm2 == 3) set_norm2();
	for (auto *p : ms) {
		run_pass(c, *p);
		c.label(strf("pass %s", p->name).c_str());
		bound_size();
		dump_all("after"); stage(strf("after %s", p->name));
		std::string v = verify_all();
		if (!v.empty()) fail(strf("invalid:%s", p->name).c_str(), "irg_verify rejects %s after %s", v.c_str(), p->name);
		d = check_graphs(k, kn.pin_seed + 1);
		if (!d.empty()) fail(strf("semantics:%s", p->name).c_str(), "after %s: %s", p->name, d.c_str());
	}
	finish(c, k);
}
static void g_cf(Ctx &c) { group(c, "cf", 3); }
static void g_value(Ctx &c) { group(c, "value", 3); }
static void g_mem(Ctx &c) { group(c, "mem", 3); }
static void g_loop(Ctx &c) { group(c, "loop", 2); }
static void g_ipo(Ctx &c) { group(c, "ipo", 3); }

#define RULE "a generated program counts if it has a defined run of at least 8 evaluation steps"
#define ASM1 "the reference evaluator and the graph interpreter share host integer/IEEE arithmetic with each other but not with libfirm"
#define ASM2 "programs whose reference run is undefined (division by zero, uninitialised read, float-to-int overflow) are outside the property's domain"
static Reg r0(Prop{"P01", RULE, {{"construct", construct, 200000, 1500000, 1, 10}}, {ASM1, ASM2}});
static Reg r1(Prop{"P02", RULE, {{"passes", g_cf, 150000, 1200000, 1, 10}}, {ASM1, ASM2}});
static Reg r2(Prop{"P03", RULE, {{"passes", g_value, 150000, 1200000, 1, 10}}, {ASM1, ASM2}});
static Reg r3(Prop{"P04", RULE, {{"passes", g_mem, 150000, 1200000, 1, 10}}, {ASM1, ASM2}});
static Reg r4(Prop{"P05", RULE, {{"passes", g_loop, 150000, 1200000, 1, 10}}, {ASM1, ASM2}});
static Reg r5(Prop{"P06", RULE, {{"passes", g_ipo, 150000, 1200000, 1, 10}}, {ASM1, ASM2}});
