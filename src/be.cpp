// Target lowering and code generation keep the meaning of programs.
#include "native.h"
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <algorithm>
#include <map>
#include <fstream>
using namespace pbt;

static GenCfg pick_cfg(Ctx &c, const TargetDesc &t)
{
	GenCfg g;
	if (!strcmp(t.name, "arm")) g.builtins &= ~(1u << BKsatinc); // documented as unsupported
	g.mulh_bits = !strcmp(t.name, "amd64") ? 32 | 64 : 32; // what the code generators support
	if (c.t.chance(1, 3)) {
		g.probe = true;
		g.mem = g.ptr = c.t.chance(1, 3);
		g.max_funcs = 1;
		g.nvec = 6;
		return g;
	}
	static const unsigned bud[] = {60, 20, 120, 200, 8};
	g.budget = bud[c.t.weighted({4, 3, 3, 1, 1})];
	if (c.t.chance(1, 8)) g.expr_only = true;
	return g;
}

// passes a compiler runs before code generation; what they break is judged elsewhere
static void prepare(Ctx &c, Case &k, const BuildKnobs &kn, bool nofloat = false, const std::string &head = "", bool judge = true)
{
	static const char *const names[] = {"local", "cf", "scalar", "loadstore", "combo", "ifconv", "inline", "gvn_pre", "place", "global_cse", "inversion", "unroll_loops", "reassoc", "conv", "bool_", "jumpthreading", "tailrec", "n_returns", "parallelize", "frame", "combine", "funccalls", "osr", "highlevel"};
	std::vector<const Pass *> seq;
	unsigned n = c.t.weighted({5, 3, 3, 2, 2, 1, 1});
	for (unsigned i = 0; i < n; ++i) seq.push_back(find_pass(names[c.t.below(sizeof names / sizeof *names)]));
	// these order nodes by address, see DESIGN.md
	if (!judge) seq.erase(std::remove_if(seq.begin(), seq.end(), [](const Pass *p) { return !strcmp(p->name, "reassoc") || !strcmp(p->name, "loadstore"); }), seq.end());
	GenCfg g = pick_cfg(c, *k.t);
	if (nofloat) { g.f32 = g.f64 = g.fconv = false; g.float_pct = 0; }
	make_case(c, k, g);
	std::string desc = head + std::string("target ") + k.t->name + (kn.opt_while_building ? "" : " (no optimisation while building)") + "\npasses:";
	for (auto *p : seq) desc += std::string(" ") + p->name;
	c.sample = desc + "\n" + show(k.p);
	c.note(c.sample);
	c.excuse_crash(true);
	build_program(k.p, *k.t, kn, k.b);
	dump_all("built");
	for (auto *p : seq) { SpanGuard sg(c.t); stage(std::string("prep ") + p->name); p->run(c.t); dump_all(p->name); }
	// the interface asks for these before code generation; if conversion only creates what the target has
	bool ifc = c.t.flip(), opt2 = c.t.flip();
	for (size_t i = 0; i < get_irp_n_irgs(); ++i) {
		ir_graph *irg = get_irp_irg(i);
		lower_highlevel_graph(irg);
		lower_mux(irg, nullptr);
		if (ifc) opt_if_conv(irg);
		if (opt2) { optimize_graph_df(irg); optimize_cf(irg); }
	}
	if (!verify_all().empty()) discard("prefix left an invalid graph");
	if (judge && !kn.arith && !check_graphs(k, 1).empty()) discard("prefix changed the program"); // the interpreter has no 80-bit floats
	c.excuse_crash(false);
}

static void lower(Ctx &c, const char *tname)
{
	Case k;
	k.t = &target(tname);
	firm_start(*k.t);
	BuildKnobs kn;
	kn.opt_while_building = !c.t.chance(1, 3);
	kn.pin_seed           = c.t.raw32();
	kn.keep_loops         = true;
	kn.pure_builtins      = true;
	prepare(c, k, kn);
	stage("lower");
	be_lower_for_target();
	dump_all("lowered");
	std::string v = verify_all();
	if (!v.empty()) fail("invalid:lowering", "irg_verify rejects %s after lowering", v.c_str());
	std::string d = check_graphs(k, 2);
	if (!d.empty()) fail("semantics:lowering", "after lowering: %s", d.c_str());
	if (k.st.steps >= 8) c.nontrivial();
}
static void l_amd64(Ctx &c) { lower(c, "amd64"); }
static void l_ia32(Ctx &c) { lower(c, "ia32"); }
static void l_arm(Ctx &c) { lower(c, "arm"); }
static void l_sparc(Ctx &c) { lower(c, "sparc"); }
static void l_mips(Ctx &c) { lower(c, "mips"); }
static void l_riscv(Ctx &c) { lower(c, "riscv"); }

// code generation options: one choice per group, the default most of the time
typedef std::vector<std::vector<const char *>> OptGroups;
static const OptGroups common_opts = {
	{"scheduler=trivial", "scheduler=random", "scheduler=normal"},
	{"spill-algo=daemel"},
	{"ra-chordal-co-algo=none", "ra-chordal-co-algo=heur4"},
	{"ra-chordal-co-cost=loop", "ra-chordal-co-cost=one"},
	{"ra-chordal-perm=swap"},
	{"spill-coalesce_slots=no"},
	{"spill-remat=no"},
	{"omitfp"},
	{"belady-movespills"},
	{"belady-respectloopdepth=no"},
	{"belady-improveknownpreds=no"},
	{"pic"},
};
static const OptGroups amd64_opts = {
	{"arch=haswell", "arch=nocona", "arch=k8", "arch=silvermont", "arch=znver1", "arch=core2"},
	{"no-red-zone"},
};
static const OptGroups ia32_opts = {
	{"arch=core2", "arch=generic", "arch=pentium4", "arch=pentium-m", "arch=atom", "arch=nehalem", "arch=i386", "arch=i486", "arch=pentium", "arch=pentiumpro", "arch=pentium3", "arch=pentium-mmx"},
	{"size"},
	{"optcc=no"},
	{"cmov=no", "cmov"},
};
static void pick_opts(Ctx &c, const OptGroups &g, std::vector<std::string> &o)
{
	for (auto &v : g) {
		bool take = c.t.chance(1, 5);
		size_t i = v.size() > 1 ? c.t.below(v.size()) : 0;
		if (take) o.push_back(v[i]);
	}
}

struct NativeSpec { const char *target; std::vector<std::string> opts; bool vary; enum { FPnone, FPx87, FPnormal } fp; };

static void native(Ctx &c, const NativeSpec &sp)
{
	std::vector<std::string> opts = sp.opts;
	if (sp.vary) {
		pick_opts(c, common_opts, opts);
		pick_opts(c, !strcmp(sp.target, "amd64") ? amd64_opts : ia32_opts, opts);
	}
	Case k;
	static TargetDesc td;
	td = target(sp.target);
	td.arch.x87 = sp.fp == NativeSpec::FPx87;
	k.t = &td;
	bool m32 = k.t->arch.ptr_bits == 32;
	firm_start(*k.t, opts);
	BuildKnobs kn;
	kn.opt_while_building = !c.t.chance(1, 3);
	kn.pin_seed           = c.t.raw32();
	kn.keep_loops         = true;
	kn.pure_builtins      = true;
	if (td.arch.x87) kn.arith = ir_target_float_arithmetic_mode();
	std::string o = "options:";
	for (auto &x : opts) { o += " " + x; c.label(("option " + x).c_str()); }
	prepare(c, k, kn, sp.fp == NativeSpec::FPnone, o + "\n");
	stage("lower");
	if (!kn.arith) {
		c.excuse_crash(true);
		be_lower_for_target();
		if (!verify_all().empty()) discard("lowering left an invalid graph");
		if (!check_graphs(k, 1).empty()) discard("lowering changed the program");
		c.excuse_crash(false);
	} else be_lower_for_target();
	stage(o);
	stage("be_main");
	std::string s = c.scratch + "/case.s";
	emit_asm(c, s.c_str());
	stage("run");
	InterpResult r = run_native(c, k, s, m32);
	if (getenv("VERIF_DUMP")) fprintf(stderr, "%s\n", slurp(s).c_str());
	std::string d = compare_runs(k.p, k.t->arch, k.ref, r);
	if (!d.empty()) fail("semantics:native", "native run: %s", d.c_str());
	if (k.st.steps >= 8) c.nontrivial();
}
static void n_amd64(Ctx &c) { native(c, {"amd64", {}, false, NativeSpec::FPnormal}); }
static void n_amd64o(Ctx &c) { native(c, {"amd64", {}, true, NativeSpec::FPnormal}); }
static void n_ia32(Ctx &c) { native(c, {"ia32", {}, false, NativeSpec::FPnone}); }
static void n_ia32o(Ctx &c) { native(c, {"ia32", {}, true, NativeSpec::FPnone}); }
static void n_x87(Ctx &c) { native(c, {"ia32", {}, true, NativeSpec::FPx87}); }

// ---- P32: the output is a function of the program and the options ----
static void compile(Ctx &c, Case &k, const std::string &file)
{
	std::vector<std::string> opts;
	pick_opts(c, common_opts, opts);
	if (!strcmp(k.t->name, "amd64")) pick_opts(c, amd64_opts, opts);
	if (!strcmp(k.t->name, "ia32")) pick_opts(c, ia32_opts, opts);
	// asking for a random schedule is asking for this
	for (auto &o : opts) if (o == "scheduler=random") o = "scheduler=normal";
	if (getenv("VERIF_KEEP")) opts.push_back("dump=all");
	if (getenv("VERIF_OPTS")) opts.push_back(getenv("VERIF_OPTS"));
	firm_start(*k.t, opts);
	if (getenv("VERIF_KEEP")) ir_set_dump_path((std::string(getenv("VERIF_KEEP")) + (c.excuse ? "/a" : "/b")).c_str());
	BuildKnobs kn;
	kn.opt_while_building = !c.t.chance(1, 3);
	kn.pin_seed           = c.t.raw32();
	kn.keep_loops         = true;
	kn.pure_builtins      = true;
	std::string o = "options:";
	for (auto &x : opts) o += " " + x;
	prepare(c, k, kn, strcmp(k.t->name, "amd64") != 0, o + "\n", false);
	dump_all("prepared");
	be_lower_for_target();
	dump_all("lowered");
	emit_asm(c, file.c_str());
}
static volatile void *leak_sink;
static void scramble_heap(uint64_t seed)
{
	Rng r; r.s = seed;
	std::vector<void *> v;
	unsigned n = 200 + (unsigned)(r.next() % 3000);
	for (unsigned i = 0; i < n; ++i) {
		size_t sz = 16 + (size_t)(r.next() % (r.next() % 4 ? 300 : 6000));
		v.push_back(malloc(sz));
		leak_sink = v.back();
	}
	for (unsigned i = 0; i < n; ++i) if (r.next() % 3) { size_t j = (size_t)(r.next() % n); free(v[j]); v[j] = nullptr; }
}
// the text without comments (they number the nodes), labels and unique names renumbered
static std::string bare(const std::string &s)
{
	std::string r;
	std::map<std::string, int> names;
	for (size_t i = 0; i < s.size();) {
		if (s.compare(i, 2, "/*") == 0) { i = s.find("*/", i); if (i == s.npos) break; i += 2; while (!r.empty() && r.back() == ' ') r.pop_back(); continue; }
		if (isalpha((unsigned char)s[i]) || s[i] == '.' || s[i] == '_') {
			size_t j = i;
			while (j < s.size() && (isalnum((unsigned char)s[j]) || s[j] == '.' || s[j] == '_' || s[j] == '$')) ++j;
			std::string w = s.substr(i, j - i);
			i = j;
			if (w.compare(0, 2, ".L") == 0) w = strf(".L<%d>", names.emplace(w, (int)names.size()).first->second);
			r += w;
			continue;
		}
		r += s[i++];
	}
	return r;
}
static void same_output(Ctx &c, const char *tname)
{
	Case k;
	k.t = &target(tname);
	unsigned how = c.t.weighted({3, 3, 2}); // scrambled heap; compiled twice; after another program
	uint64_t seed = c.t.raw64();
	const TargetDesc *ot = &target(c.t.flip() ? "ia32" : "amd64"); // the others cannot emit everything generated here
	std::string fa = c.scratch + "/a.s", fb = c.scratch + "/b.s", fw = c.scratch + "/w.s";
	unlink(fa.c_str()); unlink(fb.c_str());
	// what the other process has come to
	volatile char *at = (volatile char *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (at == MAP_FAILED) discard("mmap failed");
	c.excuse_crash(true);
	fflush(nullptr);
	pid_t pid = fork();
	if (pid < 0) discard("fork failed");
	if (pid == 0) {
		int rc = 0;
		try {
			c.excuse = nullptr; // shared
			c.note = [](std::string) {};
			Ctx d = c;
			if (how == 0) scramble_heap(seed);
			if (how == 1) { Case w; w.t = k.t; compile(d, w, fw); ir_finish(); d = c; }
			if (how == 2) {
				Ctx e = c;
				e.t = Tape();
				e.t.rng.s = seed;
				Case w; w.t = ot;
				// the options stay set, so this one is compiled without any
				firm_start(*w.t);
				BuildKnobs kn; kn.keep_loops = true; kn.pure_builtins = true;
				prepare(e, w, kn, true, "", false);
				be_lower_for_target();
				emit_asm(e, fw.c_str());
				ir_finish();
			}
			*at = 1;
			stage("again");
			if (getenv("VERIF_DUMP")) freopen((std::string(getenv("VERIF_DUMP")) + ".again").c_str(), "w", stderr);
			compile(d, k, fb);
		} catch (Discard &) { rc = 9; } catch (Failure &) { rc = 9; }
		_exit(rc);
	}
	struct Wait { pid_t p; int st = 0; bool done = false; int get() { if (!done) { while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} done = true; } return st; } ~Wait() { if (!done) { kill(p, SIGKILL); get(); } } } w{pid};
	compile(c, k, fa);
	c.excuse_crash(false);
	int st = w.get();
	static const char *const hows[] = {"with a scrambled heap", "for the second time", "after another program"};
	c.label(hows[how]);
	c.sample = std::string("second compilation ") + hows[how] + (how == 2 ? std::string(" for ") + ot->name : "") + "\n" + c.sample;
	c.note(c.sample);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 9) discard("the other compilation was rejected");
	if (st && !*at) discard("crash in the compilation before");
	if (st) fail("crash:again", "compiling %s: signal %d, status %d", hows[how], WIFSIGNALED(st) ? WTERMSIG(st) : 0, WEXITSTATUS(st));
	std::string a = bare(slurp(fa)), b = bare(slurp(fb));
	if (getenv("VERIF_KEEP")) { std::string d = getenv("VERIF_KEEP"); std::ofstream(d + "/a.s") << slurp(fa); std::ofstream(d + "/b.s") << slurp(fb); }
	if (a != b) {
		size_t i = 0, line = 1;
		while (i < a.size() && i < b.size() && a[i] == b[i]) { line += a[i] == '\n'; ++i; }
		size_t s = a.rfind('\n', i ? i - 1 : 0);
		s = s == std::string::npos ? 0 : s + 1;
		auto ln = [&](const std::string &x) { return x.substr(std::min(s, x.size()), 60); };
		fail("differs", "compiling %s gives other code, line %zu\n%s\n--- instead of\n%s", hows[how], line, ln(b).c_str(), ln(a).c_str());
	}
	size_t n = (size_t)std::count(a.begin(), a.end(), '\n');
	if (n >= 30) c.nontrivial();
}
static void s_amd64(Ctx &c) { same_output(c, "amd64"); }
static void s_ia32(Ctx &c) { same_output(c, "ia32"); }
static Reg r32(Prop{"P32", "a case counts if the emitted assembly has at least 30 lines", {{"amd64", s_amd64, 5000, 80000, 1, 20}, {"ia32", s_ia32, 5000, 80000, 1, 20}}, {"the random scheduler is not asked for"}});

#define RULE "a generated program counts if it has a defined run of at least 8 evaluation steps"
#define ASM2 "programs whose reference run is undefined are outside the property's domain"
static Reg r0(Prop{"P10", RULE, {{"amd64", l_amd64, 20000, 300000, 1, 10}, {"ia32", l_ia32, 20000, 300000, 1, 10}, {"arm", l_arm, 20000, 300000, 1, 10}, {"sparc", l_sparc, 20000, 300000, 1, 10}, {"mips", l_mips, 20000, 300000, 1, 10}, {"riscv", l_riscv, 20000, 300000, 1, 10}}, {ASM2}});
static Reg r1(Prop{"P11", RULE, {{"amd64", n_amd64, 12000, 150000, 1, 20}, {"options", n_amd64o, 15000, 200000, 1, 20}}, {ASM2, "the host CPU, GNU as and ld are right"}, native_setup});
static Reg r2(Prop{"P12", RULE, {{"int", n_ia32, 7000, 100000, 1, 20}, {"int-options", n_ia32o, 10000, 150000, 1, 20}, {"x87", n_x87, 8000, 100000, 1, 20}}, {ASM2, "the host CPU, GNU as and ld are right"}, native_setup});
