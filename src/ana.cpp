// Analyses: what they claim about a graph against naive recomputation from the
// definition, or against what execution of the graph actually does.
#include "semutil.h"
#include <algorithm>
#include <climits>
#include <cmath>
#include <functional>
#include <set>
#include <unordered_map>
#include <unordered_set>
extern "C" {
#include <libfirm/adt/array.h>
int get_Block_dom_depth(const ir_node *bl);
int get_Block_postdom_depth(const ir_node *bl);
ir_node *get_Block_dominated_first(const ir_node *block);
struct lv_chk_t;
lv_chk_t *lv_chk_new(ir_graph *irg);
void lv_chk_free(lv_chk_t *lv);
unsigned lv_chk_bl_xxx(lv_chk_t *lv, const ir_node *bl, const ir_node *irn);
typedef enum { BITINFO_INVALID, BITINFO_VALID, BITINFO_IN_FLIGHT, BITINFO_UNSTABLE } bitinfo_state;
typedef struct bitinfo { ir_tarval *z, *o; bitinfo_state state; } bitinfo;
bitinfo *get_bitinfo(ir_node const *irn);
void constbits_analyze(ir_graph *irg);
void constbits_clear(ir_graph *irg);
void dca_analyze(ir_graph *irg);
}
using namespace pbt;
namespace {
typedef unsigned long long ull;

// ------------------------------------------------------------ a plain copy of a graph
struct G {
	ir_graph *irg;
	std::vector<ir_node *> nodes, blocks;
	std::unordered_map<ir_node *, int> bi;
	std::unordered_set<ir_node *> in;
	std::vector<std::vector<int>> pred, succ; // block graph; pred -1: Bad
	std::vector<int> kept;
	int start, end;
	explicit G(ir_graph *g) : irg(g)
	{
		std::vector<ir_node *> st{get_irg_end(g)};
		in.insert(st[0]);
		auto push = [&](ir_node *n) { if (in.insert(n).second) st.push_back(n); };
		while (!st.empty()) {
			ir_node *n = st.back();
			st.pop_back();
			nodes.push_back(n);
			if (is_Block(n)) { bi[n] = (int)blocks.size(); blocks.push_back(n); }
			else push(get_nodes_block(n));
			for (int i = 0; i < get_irn_arity(n); ++i) push(get_irn_n(n, i));
		}
		for (ir_node *b : {get_irg_start_block(g), get_irg_end_block(g)})
			if (!bi.count(b)) { bi[b] = (int)blocks.size(); blocks.push_back(b); }
		pred.resize(blocks.size());
		succ.resize(blocks.size());
		for (size_t b = 0; b < blocks.size(); ++b)
			for (int i = 0; i < get_irn_arity(blocks[b]); ++i) {
				ir_node *p = get_irn_n(blocks[b], i);
				int q = is_Bad(p) ? -1 : bi.at(get_nodes_block(p));
				pred[b].push_back(q);
				if (q >= 0) succ[(size_t)q].push_back((int)b);
			}
		start = bi.at(get_irg_start_block(g));
		end   = bi.at(get_irg_end_block(g));
		ir_node *e = get_irg_end(g);
		for (int i = 0; i < get_irn_arity(e); ++i) if (is_Block(get_irn_n(e, i))) kept.push_back(bi.at(get_irn_n(e, i)));
	}
	size_t n() const { return blocks.size(); }
};
typedef std::vector<std::vector<int>> Adj;
std::vector<char> reach(const Adj &a, int from, int without = -1)
{
	std::vector<char> r(a.size(), 0);
	if (from == without) return r;
	std::vector<int> st{from};
	r[(size_t)from] = 1;
	while (!st.empty()) {
		int b = st.back();
		st.pop_back();
		for (int s : a[(size_t)b]) if (s != without && !r[(size_t)s]) { r[(size_t)s] = 1; st.push_back(s); }
	}
	return r;
}
// dom[a][b]: a dominates b (b reachable), by removing a
std::vector<std::vector<char>> dominance(const Adj &a, int root, const std::vector<char> &re)
{
	size_t n = a.size();
	std::vector<std::vector<char>> d(n, std::vector<char>(n, 0));
	for (size_t x = 0; x < n; ++x) {
		if (!re[x]) continue;
		std::vector<char> r = reach(a, root, (int)x);
		for (size_t y = 0; y < n; ++y) d[x][y] = re[y] && !r[y];
	}
	return d;
}
std::vector<int> idoms(const std::vector<std::vector<char>> &d, const std::vector<char> &re)
{
	size_t n = d.size();
	std::vector<int> depth(n, 0), id(n, -1);
	for (size_t y = 0; y < n; ++y) for (size_t x = 0; x < n; ++x) depth[y] += d[x][y];
	for (size_t y = 0; y < n; ++y) {
		if (!re[y]) continue;
		for (size_t x = 0; x < n; ++x) if (x != y && d[x][y] && depth[x] == depth[y] - 1) id[y] = (int)x;
	}
	return id;
}

// ------------------------------------------------------------ the graphs under test
const TargetDesc &pick_target(Ctx &c)
{
	static const char *const names[] = {"amd64", "ia32", "sparc"};
	return target(names[c.t.weighted({6, 2, 1})]);
}
enum { CFGY = 1, LOOPY = 2, MEMY = 4, PROBE = 8, CALLY = 16 };
// builds a program and lets a few passes shape it
void shape(Ctx &c, Case &k, int want, bool need_semantics)
{
	k.t = &pick_target(c);
	firm_start(*k.t);
	BuildKnobs kn;
	kn.opt_while_building = !c.t.chance(1, 3);
	kn.pin_seed           = c.t.raw32();
	kn.keep_loops         = c.t.chance(1, 4);
	GenCfg g;
	static const unsigned bud[] = {60, 20, 120, 200, 8};
	g.budget = bud[c.t.weighted({4, 2, 3, 2, 1})];
	g.nvec = 3;
	if (want & MEMY) g.mem_heavy = c.t.chance(2, 3);
	if (want & CALLY) { g.max_funcs = 5; }
	else if (!(want & MEMY)) g.max_funcs = 2;
	if ((want & PROBE) && c.t.chance(1, 3)) { g.probe = true; g.max_funcs = 1; g.mem = g.ptr = false; g.nvec = 4; }
	std::vector<const Pass *> prep, seq;
	for (int i = 0; i < n_passes; ++i) if (all_passes[i].prep) prep.push_back(&all_passes[i]);
	unsigned npre = c.t.weighted({5, 3, 2, 2, 1});
	for (unsigned i = 0; i < npre; ++i) seq.push_back(c.t.pick(prep));
	make_case(c, k, g);
	std::string desc = std::string("target ") + k.t->name + (kn.opt_while_building ? "" : " (no optimisation while building)") + "\npasses:";
	for (auto *p : seq) desc += std::string(" ") + p->name;
	c.sample = desc + "\n" + show(k.p);
	c.note(c.sample);
	c.excuse_crash(true);
	build_program(k.p, *k.t, kn, k.b);
	for (auto *p : seq) { SpanGuard sg(c.t); p->run(c.t); }
	if (!verify_all().empty()) discard("prefix left an invalid graph");
	if (need_semantics && !check_graphs(k, kn.pin_seed).empty()) discard("prefix changed the program");
	dump_all("analysed");
	c.excuse_crash(false);
	stage("analysis");
}
template <class F> void each_graph(F f)
{
	for (size_t i = 0; i < get_irp_n_irgs(); ++i) f(get_irp_irg(i));
}
long nr(ir_node *n) { return n ? get_irn_node_nr(n) : -1; }

// ------------------------------------------------------------ P40 dominance
void dom_case(Ctx &c)
{
	Case k;
	shape(c, k, CFGY, false);
	uint64_t blocks = 0;
	each_graph([&](ir_graph *irg) {
		assure_irg_properties(irg, IR_GRAPH_PROPERTY_NO_TUPLES);
		compute_doms(irg);
		G g(irg);
		size_t n = g.n();
		blocks += n;
		Adj ka = g.succ;
		for (int b : g.kept) if (b != g.end) ka[(size_t)b].push_back(g.end);
		std::vector<char> re = reach(ka, g.start);
		auto d  = dominance(ka, g.start, re);
		auto id = idoms(d, re);
		std::vector<int> depth(n);
		for (size_t x = 0; x < n; ++x) for (size_t y = 0; y < n; ++y) depth[y] += d[x][y];
		for (size_t y = 0; y < n; ++y) {
			if (!re[y]) continue;
			ir_node *got = get_Block_idom(g.blocks[y]), *want = id[y] < 0 ? nullptr : g.blocks[(size_t)id[y]];
			if (got != want) fail("dominance:idom", "immediate dominator of block %ld is %ld, but should be %ld", nr(g.blocks[y]), nr(got), nr(want));
			int dep = depth[y];
			if (get_Block_dom_depth(g.blocks[y]) != dep) fail("dominance:depth", "depth of block %ld is %d, should be %d", nr(g.blocks[y]), get_Block_dom_depth(g.blocks[y]), dep);
			for (size_t x = 0; x < n; ++x) {
				if (!re[x]) continue;
				if (!!block_dominates(g.blocks[x], g.blocks[y]) != (bool)d[x][y]) fail("dominance:query", "block_dominates(%ld, %ld) = %d", nr(g.blocks[x]), nr(g.blocks[y]), !d[x][y]);
				ir_node *com = ir_deepest_common_dominator(g.blocks[x], g.blocks[y]);
				int best = -1, bd = -1;
				for (size_t z = 0; z < n; ++z) if (d[z][x] && d[z][y] && depth[z] > bd) { bd = depth[z]; best = (int)z; }
				if (best >= 0 && com != g.blocks[(size_t)best]) fail("dominance:common", "deepest common dominator of %ld and %ld is %ld, should be %ld", nr(g.blocks[x]), nr(g.blocks[y]), nr(com), nr(g.blocks[(size_t)best]));
			}
		}
		// the tree walkers visit exactly the reachable blocks, parents first
		struct W { std::vector<ir_node *> pre, post; } w;
		dom_tree_walk_irg(irg, [](ir_node *b, void *e) { ((W *)e)->pre.push_back(b); }, [](ir_node *b, void *e) { ((W *)e)->post.push_back(b); }, &w);
		std::unordered_map<ir_node *, size_t> pp, qq;
		for (size_t i = 0; i < w.pre.size(); ++i) if (!pp.emplace(w.pre[i], i).second) fail("dominance:walk", "block %ld visited twice", nr(w.pre[i]));
		for (size_t i = 0; i < w.post.size(); ++i) qq.emplace(w.post[i], i);
		size_t nre = 0;
		for (size_t y = 0; y < n; ++y) if (re[y]) {
			++nre;
			if (!pp.count(g.blocks[y])) fail("dominance:walk", "block %ld not visited", nr(g.blocks[y]));
			if (id[y] >= 0 && (pp[g.blocks[(size_t)id[y]]] > pp[g.blocks[y]] || qq[g.blocks[(size_t)id[y]]] < qq[g.blocks[y]])) fail("dominance:walk", "block %ld visited before its dominator", nr(g.blocks[y]));
		}
		if (pp.size() != nre || qq.size() != nre) fail("dominance:walk", "%zu blocks visited, %zu are reachable", pp.size(), nre);
		// frontiers
		bool all = nre == n;
		if (all && g.kept.empty()) {
			ir_compute_dominance_frontiers(irg);
			for (size_t x = 0; x < n; ++x) {
				std::set<ir_node *> want, got;
				for (size_t y = 0; y < n; ++y) {
					if (d[x][y] && x != y) continue;
					for (int p : g.pred[y]) if (p >= 0 && d[x][(size_t)p]) want.insert(g.blocks[y]);
				}
				ir_node **df = ir_get_dominance_frontier(g.blocks[x]);
				if (!df) fail("dominance:frontier", "no frontier for block %ld", nr(g.blocks[x]));
				for (size_t i = 0; i < ARR_LEN(df); ++i) got.insert(df[i]);
				if (want != got) fail("dominance:frontier", "frontier of block %ld has %zu blocks, should have %zu", nr(g.blocks[x]), got.size(), want.size());
			}
		}
		// post dominance: blocks that cannot reach End count as reaching it when they are kept
		compute_postdoms(irg);
		Adj rev(n);
		for (size_t y = 0; y < n; ++y) for (int p : g.pred[y]) if (p >= 0) rev[y].push_back(p);
		std::vector<char> toend = reach(rev, g.end);
		for (int b : g.kept) if (!toend[(size_t)b]) rev[(size_t)g.end].push_back(b);
		std::vector<char> pre = reach(rev, g.end);
		auto pd  = dominance(rev, g.end, pre);
		auto ipd = idoms(pd, pre);
		for (size_t y = 0; y < n; ++y) {
			if (!pre[y] || !re[y]) continue;
			ir_node *got = get_Block_ipostdom(g.blocks[y]), *want = ipd[y] < 0 ? nullptr : g.blocks[(size_t)ipd[y]];
			if (got != want) fail("postdominance:ipostdom", "immediate postdominator of block %ld is %ld, should be %ld", nr(g.blocks[y]), nr(got), nr(want));
			int dep = 0;
			for (size_t x = 0; x < n; ++x) dep += pd[x][y];
			if (get_Block_postdom_depth(g.blocks[y]) != dep) fail("postdominance:depth", "postdominator depth of block %ld is %d, should be %d", nr(g.blocks[y]), get_Block_postdom_depth(g.blocks[y]), dep);
			for (size_t x = 0; x < n; ++x) if (pre[x] && re[x] && !!block_postdominates(g.blocks[x], g.blocks[y]) != (bool)pd[x][y])
				fail("postdominance:query", "block_postdominates(%ld, %ld) = %d", nr(g.blocks[x]), nr(g.blocks[y]), !pd[x][y]);
		}
		// control dependence: y depends on x iff y postdominates a successor of x but not strictly x (Ferrante et al.)
		bool fine = all && g.kept.empty();
		for (size_t y = 0; y < n; ++y) if (!pre[y]) fine = false;
		if (fine) {
			compute_cdep(irg);
			for (size_t y = 0; y < n; ++y) {
				std::set<int> want;
				for (size_t x = 0; x < n; ++x) {
					if (pd[y][x] && x != y) continue;
					// the start block counts as postdominated by End only (phantom edge from Start to End)
					for (int s : g.succ[x]) if (pd[y][(size_t)s]) want.insert((int)x);
				}
				std::set<int> got;
				for (ir_cdep *cd = find_cdep(g.blocks[y]); cd; cd = get_cdep_next(cd)) got.insert(g.bi.at(get_cdep_node(cd)));
				// the phantom edge: everything between Start and End's ipostdom chain depends on Start
				if ((int)y != g.end) for (int z = g.start; z >= 0 && z != g.end; z = ipd[(size_t)z]) if (z != g.start && z == (int)y) { want.erase(g.start); got.erase(g.start); }
				want.erase(g.start); got.erase(g.start);
				if (want != got) fail("control dependence", "block %ld depends on %zu blocks, should on %zu", nr(g.blocks[y]), got.size(), want.size());
				for (size_t x = 0; x < n; ++x) if ((int)x != g.start && !!is_cdep_on(g.blocks[y], g.blocks[x]) != (bool)want.count((int)x)) fail("control dependence", "is_cdep_on(%ld, %ld) = %d", nr(g.blocks[y]), nr(g.blocks[x]), !want.count((int)x));
			}
			free_cdep(irg);
			c.label("control dependence");
		}
		if (n > 12) c.label("graphs with more than 12 blocks");
	});
	if (blocks >= 10) c.nontrivial();
}

// ------------------------------------------------------------ P41 loops
void sccs(const Adj &a, std::vector<int> &comp, std::vector<char> &cyc)
{
	size_t n = a.size();
	comp.assign(n, -1);
	cyc.assign(n, 0);
	std::vector<std::vector<char>> r;
	for (size_t i = 0; i < n; ++i) r.push_back(reach(a, (int)i));
	for (size_t i = 0; i < n; ++i) {
		for (int s : a[i]) if (r[(size_t)s][i]) cyc[i] = 1;
		if (comp[i] < 0) for (size_t j = i; j < n; ++j) if (r[i][j] && r[j][i]) comp[j] = (int)i;
	}
}
void loop_case(Ctx &c)
{
	Case k;
	shape(c, k, LOOPY, false);
	bool any = false;
	each_graph([&](ir_graph *irg) {
		assure_irg_properties(irg, IR_GRAPH_PROPERTY_NO_BADS | IR_GRAPH_PROPERTY_NO_UNREACHABLE_CODE | IR_GRAPH_PROPERTY_NO_TUPLES);
		construct_cf_backedges(irg);
		G g(irg);
		size_t n = g.n();
		std::vector<int> comp;
		std::vector<char> cyc;
		sccs(g.succ, comp, cyc);
		// without the backedges the block graph has no cycle
		Adj f(n);
		std::vector<std::pair<int, int>> be; // (head, tail)
		for (size_t b = 0; b < n; ++b)
			for (size_t i = 0; i < g.pred[b].size(); ++i) {
				int p = g.pred[b][i];
				if (p < 0) continue;
				if (is_backedge(g.blocks[b], (int)i)) be.push_back({(int)b, p});
				else f[(size_t)p].push_back((int)b);
			}
		std::vector<int> c2;
		std::vector<char> cy2;
		sccs(f, c2, cy2);
		for (size_t b = 0; b < n; ++b) if (cy2[b]) fail("loops:backedges", "a cycle through block %ld contains no backedge", nr(g.blocks[b]));
		for (auto &e : be) if (comp[(size_t)e.first] != comp[(size_t)e.second]) fail("loops:backedges", "backedge from block %ld to %ld is not part of a cycle", nr(g.blocks[(size_t)e.second]), nr(g.blocks[(size_t)e.first]));
		// the loop tree
		ir_loop *root = get_irg_loop(irg);
		if (!root || get_loop_outer_loop(root) != root || get_loop_depth(root) != 0) fail("loops:tree", "odd root loop");
		std::map<ir_loop *, std::set<int>> body;
		std::map<int, ir_loop *> of;
		std::function<void(ir_loop *, unsigned)> walk = [&](ir_loop *l, unsigned depth) {
			if (get_loop_depth(l) != depth) fail("loops:tree", "loop depth is %u at nesting %u", get_loop_depth(l), depth);
			body[l];
			for (size_t i = 0; i < get_loop_n_elements(l); ++i) {
				loop_element e = get_loop_element(l, i);
				if (*e.kind == k_ir_node) {
					if (!g.bi.count(e.node)) fail("loops:tree", "loop contains node %ld, which is not a block of the graph", nr(e.node));
					int b = g.bi.at(e.node);
					if (of.count(b)) fail("loops:tree", "block %ld is an element of two loops", nr(e.node));
					of[b] = l;
					if (get_irn_loop(e.node) != l) fail("loops:tree", "block %ld is an element of a loop that is not its loop", nr(e.node));
					body[l].insert(b);
				} else {
					if (get_loop_outer_loop(e.son) != l) fail("loops:tree", "inner loop does not name its outer loop");
					walk(e.son, depth + 1);
					body[l].insert(body[e.son].begin(), body[e.son].end());
				}
			}
		};
		walk(root, 0);
		for (size_t b = 0; b < n; ++b) {
			if (!of.count((int)b)) fail("loops:tree", "block %ld belongs to no loop", nr(g.blocks[b]));
			if ((of[(int)b] != root) != (bool)cyc[b]) fail("loops:tree", "block %ld: in a cycle: %d, in a loop: %d", nr(g.blocks[b]), cyc[b], of[(int)b] != root);
		}
		for (auto &lb : body) {
			if (lb.first == root) continue;
			any = true;
			if (lb.second.empty()) fail("loops:tree", "loop without blocks");
			// strongly connected
			Adj s(n);
			for (int b : lb.second) for (int t : g.succ[(size_t)b]) if (lb.second.count(t)) s[(size_t)b].push_back(t);
			std::vector<int> c3;
			std::vector<char> cy3;
			sccs(s, c3, cy3);
			for (int b : lb.second) if (c3[(size_t)b] != c3[(size_t)*lb.second.begin()]) fail("loops:tree", "the blocks of a loop are not strongly connected (block %ld)", nr(g.blocks[(size_t)b]));
			if (!cy3[(size_t)*lb.second.begin()]) fail("loops:tree", "a loop without a cycle");
		}
		// outermost loops are the whole strongly connected components
		for (size_t b = 0; b < n; ++b) {
			if (!cyc[b]) continue;
			ir_loop *l = of[(int)b];
			while (get_loop_outer_loop(l) != root) l = get_loop_outer_loop(l);
			for (size_t q = 0; q < n; ++q) if ((comp[q] == comp[b]) != (bool)body[l].count((int)q)) fail("loops:tree", "block %ld: outermost loop is not the strongly connected component", nr(g.blocks[q]));
		}
		// natural loops of reducible graphs
		std::vector<char> re = reach(g.succ, g.start);
		bool allre = true;
		for (size_t b = 0; b < n; ++b) if (!re[b] && (int)b != g.end) allre = false;
		if (allre) {
			auto d = dominance(g.succ, g.start, re);
			Adj nb(n);
			std::vector<std::pair<int, int>> nat;
			for (size_t p = 0; p < n; ++p) for (int s : g.succ[p]) if (d[(size_t)s][p]) nat.push_back({s, (int)p}); else nb[p].push_back(s);
			std::vector<int> c4;
			std::vector<char> cy4;
			sccs(nb, c4, cy4);
			bool red = std::none_of(cy4.begin(), cy4.end(), [](char x) { return x; });
			if (red) {
				std::set<std::pair<int, int>> bs(be.begin(), be.end()), ns(nat.begin(), nat.end());
				if (bs != ns) fail("loops:reducible", "%zu backedges marked, the reducible graph has %zu", bs.size(), ns.size());
				std::map<int, std::set<int>> nl;
				for (auto &e : nat) {
					Adj rv(n);
					for (size_t p = 0; p < n; ++p) for (int s : g.succ[p]) if (s != e.first) rv[(size_t)s].push_back((int)p);
					auto r = reach(rv, e.second);
					for (size_t b = 0; b < n; ++b) if (r[b] && d[(size_t)e.first][b]) nl[e.first].insert((int)b);
					nl[e.first].insert(e.first);
				}
				for (size_t b = 0; b < n; ++b) {
					unsigned depth = 0;
					for (auto &l : nl) depth += l.second.count((int)b);
					if (get_loop_depth(of[(int)b]) < depth) fail("loops:reducible", "loop depth of block %ld is %u, but %u natural loops contain it", nr(g.blocks[b]), get_loop_depth(of[(int)b]), depth);
				}
				if (!nat.empty()) c.label("reducible graphs with loops");
			} else c.label("irreducible graphs");
		}
		if (body.size() > 2) c.label("graphs with several loops");
		free_loop_information(irg);
	});
	if (any) c.nontrivial();
}

// ------------------------------------------------------------ P42 liveness
bool lnode(ir_node *n) { return !is_Block(n) && !is_Bad(n) && !is_End(n) && !is_Anchor(n) && !is_NoMem(n); }
void live_case(Ctx &c)
{
	Case k;
	shape(c, k, LOOPY, false);
	uint64_t q = 0, live = 0;
	each_graph([&](ir_graph *irg) {
		assure_irg_properties(irg, IR_GRAPH_PROPERTY_NO_BADS | IR_GRAPH_PROPERTY_NO_UNREACHABLE_CODE | IR_GRAPH_PROPERTY_NO_TUPLES | IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE | IR_GRAPH_PROPERTY_CONSISTENT_OUT_EDGES);
		G g(irg);
		size_t n = g.n();
		std::vector<char> re = reach(g.succ, g.start);
		for (size_t b = 0; b < n; ++b) if (!re[b]) return;
		if (n > 60) return;
		lv_chk_t *lv = lv_chk_new(irg);
		std::unordered_map<ir_node *, std::vector<std::pair<ir_node *, int>>> uses;
		for (ir_node *u : g.nodes) if (lnode(u)) for (int i = 0; i < get_irn_arity(u); ++i) uses[get_irn_n(u, i)].push_back({u, i});
		size_t limit = 150;
		for (ir_node *v : g.nodes) {
			if (!lnode(v) || limit == 0) continue;
			--limit;
			int D = g.bi.at(get_nodes_block(v));
			std::vector<char> in(n, 0), end(n, 0), out(n, 0), useb(n, 0), usee(n, 0);
			for (auto &u : uses[v]) {
				int ub = g.bi.at(get_nodes_block(u.first));
				if (is_Phi(u.first)) { int p = g.pred[(size_t)ub][(size_t)u.second]; if (p >= 0) usee[(size_t)p] = 1; }
				else useb[(size_t)ub] = 1;
			}
			for (bool ch = true; ch;) {
				ch = false;
				for (size_t b = 0; b < n; ++b) {
					char o = 0;
					for (int s : g.succ[b]) o |= in[(size_t)s];
					char e = o | usee[b];
					char i = (int)b != D && (useb[b] || e);
					if (o != out[b] || e != end[b] || i != in[b]) ch = true;
					out[b] = o; end[b] = e; in[b] = i;
				}
			}
			for (size_t b = 0; b < n; ++b) {
				unsigned m = lv_chk_bl_xxx(lv, g.blocks[b], v);
				bool gi = m & 1, ge = m & 2, go = m & 4;
				++q;
				live += in[b];
				if (gi != (bool)in[b]) fail("liveness:in", "value %ld at block %ld: live-in is %d, should be %d", nr(v), nr(g.blocks[b]), gi, in[b]);
				if (ge != (bool)end[b]) fail("liveness:end", "value %ld (block %ld) at the end of block %ld: live is %d, should be %d", nr(v), nr(g.blocks[(size_t)D]), nr(g.blocks[b]), ge, end[b]);
				if (go != (bool)out[b]) {
					// a Phi operand in the same block may be reported as out together with end
					fail("liveness:out", "value %ld at block %ld: live-out is %d, should be %d", nr(v), nr(g.blocks[b]), go, out[b]);
				}
			}
		}
		lv_chk_free(lv);
	});
	c.label("queries", q);
	if (live > 3) c.nontrivial();
}

// ------------------------------------------------------------ P43 uses and walkers
void check_uses(ir_graph *irg, bool edges)
{
	G g(irg);
	typedef std::multiset<std::pair<ir_node *, int>> US;
	std::unordered_map<ir_node *, US> want;
	for (ir_node *u : g.nodes)
		for (int i = is_Block(u) ? 0 : -1; i < get_irn_arity(u); ++i) want[get_irn_n(u, i)].insert({u, i});
	for (ir_node *n : g.nodes) {
		US got;
		if (edges) {
			int cnt = 0;
			foreach_out_edge(n, e) {
				ir_node *u = get_edge_src_irn(e);
				int pos = get_edge_src_pos(e);
				++cnt;
				if (!g.in.count(u)) {
					if (is_Anchor(u)) continue;
					if (pos >= get_irn_arity(u) || (pos < 0 && is_Block(u)) || get_irn_n(u, pos) != n) fail("uses:edges", "node %ld has an edge from node %ld, operand %d, which is something else", nr(n), nr(u), pos);
					continue;
				}
				got.insert({u, pos});
			}
			if (cnt != get_irn_n_edges(n)) fail("uses:edges", "get_irn_n_edges(%ld) = %d, but there are %d", nr(n), get_irn_n_edges(n), cnt);
			// uses by the block membership are edges at position -1
			if (got != want[n]) {
				for (auto &u : want[n]) if (got.count(u) != want[n].count(u)) fail("uses:edges", "node %ld is operand %d of node %ld, but has no such edge", nr(n), u.second, nr(u.first));
				for (auto &u : got) if (got.count(u) != want[n].count(u)) fail("uses:edges", "node %ld has a stray edge from node %ld, operand %d", nr(n), nr(u.first), u.second);
			}
			if (is_Block(n)) {
				std::multiset<ir_node *> ws, gs;
				for (int s : g.succ[(size_t)g.bi[n]]) ws.insert(g.blocks[(size_t)s]);
				foreach_block_succ(n, e) if (g.in.count(get_edge_src_irn(e))) gs.insert(get_edge_src_irn(e));
				if (ws != gs) fail("uses:edges", "block %ld has %zu successors, but should have %zu", nr(n), gs.size(), ws.size());
			}
		} else {
			for (unsigned i = 0; i < get_irn_n_outs(n); ++i) {
				int pos;
				ir_node *u = get_irn_out_ex(n, i, &pos);
				if (get_irn_out(n, i) != u) fail("uses:outs", "get_irn_out and get_irn_out_ex differ");
				got.insert({u, pos});
			}
			if (got != want[n]) fail("uses:outs", "node %ld has %zu users recorded, but has %zu", nr(n), got.size(), want[n].size());
			if (is_Block(n)) {
				std::multiset<ir_node *> ws, gs;
				for (int s : g.succ[(size_t)g.bi[n]]) ws.insert(g.blocks[(size_t)s]);
				for (unsigned i = 0; i < get_Block_n_cfg_outs(n); ++i) gs.insert(get_Block_cfg_out(n, i));
				if (ws != gs) fail("uses:outs", "block %ld has %zu successors, but should have %zu", nr(n), gs.size(), ws.size());
			}
		}
	}
}
struct Visit { std::vector<ir_node *> pre, post; };
void vpre(ir_node *n, void *e) { ((Visit *)e)->pre.push_back(n); }
void vpost(ir_node *n, void *e) { ((Visit *)e)->post.push_back(n); }
void check_walk(const G &g, const Visit &v, const char *what, bool blocks_only, bool has_post)
{
	for (int k = 0; k < (has_post ? 2 : 1); ++k) {
		const std::vector<ir_node *> &l = k ? v.post : v.pre;
		std::unordered_set<ir_node *> s;
		for (ir_node *n : l) {
			if (!s.insert(n).second) fail("walk", "%s visits node %ld twice", what, nr(n));
			if (blocks_only ? !g.bi.count(n) : !g.in.count(n)) fail("walk", "%s visits node %ld, which is not in the graph", what, nr(n));
		}
		for (ir_node *n : g.nodes) if ((!blocks_only || is_Block(n)) && !s.count(n)) fail("walk", "%s does not visit node %ld", what, nr(n));
	}
}
void uses_case(Ctx &c)
{
	Case k;
	shape(c, k, 0, false);
	uint64_t edits = 0;
	each_graph([&](ir_graph *irg) {
		SpanGuard sg(c.t);
		{
			G g(irg);
			Visit v;
			irg_walk_graph(irg, vpre, vpost, &v);
			check_walk(g, v, "irg_walk_graph", false, true);
			v = Visit();
			irg_walk_blkwise_graph(irg, vpre, vpost, &v);
			check_walk(g, v, "irg_walk_blkwise_graph", false, true);
			v = Visit();
			irg_walk_topological(irg, vpre, &v);
			check_walk(g, v, "irg_walk_topological", false, false);
			std::unordered_map<ir_node *, size_t> at;
			for (size_t i = 0; i < v.pre.size(); ++i) at[v.pre[i]] = i;
			for (ir_node *n : g.nodes) {
				if (is_Block(n) || is_Phi(n) || is_End(n)) continue;
				for (int i = 0; i < get_irn_arity(n); ++i) {
					ir_node *p = get_irn_n(n, i);
					if (get_nodes_block(p) == get_nodes_block(n) && at[p] > at[n]) fail("walk", "irg_walk_topological visits node %ld before its operand %ld", nr(n), nr(p));
				}
			}
			// blocks that only data reaches are beyond the block walker
			std::vector<ir_node *> st{get_irg_end_block(irg)};
			for (int b : g.kept) st.push_back(g.blocks[(size_t)b]);
			std::unordered_set<ir_node *> br(st.begin(), st.end());
			while (!st.empty()) {
				ir_node *b = st.back();
				st.pop_back();
				for (int p : g.pred[(size_t)g.bi.at(b)]) if (p >= 0 && br.insert(g.blocks[(size_t)p]).second) st.push_back(g.blocks[(size_t)p]);
			}
			v = Visit();
			irg_block_walk_graph(irg, vpre, vpost, &v);
			for (auto *l : {&v.pre, &v.post}) {
				std::unordered_set<ir_node *> s(l->begin(), l->end());
				if (s.size() != l->size()) fail("walk", "irg_block_walk_graph visits a block twice");
				if (s != br) fail("walk", "irg_block_walk_graph visits %zu blocks, %zu are reachable", s.size(), br.size());
			}
		}
		edges_deactivate(irg);
		compute_irg_outs(irg);
		check_uses(irg, false);
		free_irg_outs(irg);
		edges_activate(irg);
		check_uses(irg, true);
		// edit the graph in place; the edges must follow
		set_optimize(0);
		unsigned ne = c.t.weighted({2, 3, 4, 4}) * 4;
		for (unsigned e = 0; e < ne; ++e) {
			SpanGuard sg2(c.t);
			std::vector<ir_node *> data;
			G g(irg);
			for (ir_node *n : g.nodes) if (!is_Block(n) && mode_is_data(get_irn_mode(n)) && !is_Phi(n)) data.push_back(n);
			std::sort(data.begin(), data.end(), [](ir_node *a, ir_node *b) { return get_irn_node_nr(a) < get_irn_node_nr(b); });
			if (data.empty()) break;
			ir_node *a = c.t.pick(data);
			std::vector<ir_node *> same;
			for (ir_node *n : data) if (get_irn_mode(n) == get_irn_mode(a) && n != a) same.push_back(n);
			++edits;
			switch (c.t.below(8)) {
			case 0: // change an operand
				if (get_irn_arity(a) > 0) {
					int i = (int)c.t.below((uint32_t)get_irn_arity(a));
					std::vector<ir_node *> o;
					for (ir_node *n : data) if (get_irn_mode(n) == get_irn_mode(get_irn_n(a, i))) o.push_back(n);
					if (!o.empty()) set_irn_n(a, i, c.t.pick(o));
				}
				break;
			case 1: // replace by a new constant
				if (!is_Proj(a) && (mode_is_int(get_irn_mode(a)) || mode_is_float(get_irn_mode(a)))) exchange(a, new_r_Const(irg, get_mode_one(get_irn_mode(a))));
				break;
			case 2: // replace by another node
				if (!same.empty()) { ir_node *b = c.t.pick(same); exchange(a, b); }
				break;
			case 3: // move all uses
				if (!same.empty()) edges_reroute(a, c.t.pick(same));
				break;
			case 4: // move uses except one
				if (!same.empty()) {
					std::vector<ir_node *> us;
					foreach_out_edge(a, ed) us.push_back(get_edge_src_irn(ed));
					if (!us.empty()) { ir_node *ex = us[c.t.below((uint32_t)us.size())]; edges_reroute_except(a, c.t.pick(same), ex); }
				}
				break;
			case 5: // keep alive and drop again
				keep_alive(a);
				break;
			case 6: // new user
				if (mode_is_int(get_irn_mode(a))) keep_alive(new_r_Add(get_nodes_block(a), a, same.empty() ? a : c.t.pick(same)));
				break;
			case 7: // another block
				if (!is_Proj(a) && get_irn_arity(a) > 0 && !is_Start(a)) {
					ir_node *b = get_nodes_block(c.t.pick(data));
					set_nodes_block(a, b);
				}
				break;
			}
			if (e % 3 == 2) check_uses(irg, true);
		}
		check_uses(irg, true);
		set_optimize(1);
		if (!edges_verify_kind(irg, EDGE_KIND_NORMAL)) fail("uses:verify", "edges_verify_kind rejects edges that are fine");
		edges_deactivate(irg);
	});
	c.label("edits", edits);
	if (edits >= 4) c.nontrivial();
}

// ------------------------------------------------------------ P44 heights
void height_case(Ctx &c)
{
	Case k;
	shape(c, k, MEMY, false);
	uint64_t pairs = 0;
	each_graph([&](ir_graph *irg) {
		edges_deactivate(irg);
		edges_activate(irg); // no edges from dead nodes
		ir_heights_t *h = heights_new(irg);
		for (int round = 0; round < 2; ++round) {
			G g(irg);
			std::unordered_map<ir_node *, std::vector<ir_node *>> by;
			std::unordered_set<ir_node *> walked;
			{
				Visit v;
				irg_block_walk_graph(irg, vpre, nullptr, &v);
				walked.insert(v.pre.begin(), v.pre.end());
			}
			for (ir_node *n : g.nodes) if (!is_Block(n) && walked.count(get_nodes_block(n))) by[get_nodes_block(n)].push_back(n);
			for (auto &b : by) {
				std::unordered_map<ir_node *, unsigned> hh;
				std::unordered_map<ir_node *, std::vector<ir_node *>> users;
				for (ir_node *n : b.second) if (!is_Phi(n)) for (int i = 0; i < get_irn_arity(n); ++i) { ir_node *p = get_irn_n(n, i); if (!is_Block(p) && get_nodes_block(p) == b.first) users[p].push_back(n); }
				std::function<unsigned(ir_node *)> ht = [&](ir_node *n) -> unsigned {
					auto it = hh.find(n);
					if (it != hh.end()) return it->second;
					unsigned x = 0;
					for (ir_node *u : users[n]) x = std::max(x, ht(u) + 1);
					return hh[n] = x;
				};
				if (round == 1) heights_recompute_block(h, b.first);
				unsigned m = 0;
				for (ir_node *n : b.second) {
					m = std::max(m, ht(n));
					unsigned got = get_irn_height(h, n);
					if (got != ht(n)) fail("heights", "height of node %ld is %u, should be %u", nr(n), got, ht(n));
				}
				unsigned mm = heights_recompute_block(h, b.first);
				if (mm != m) fail("heights", "maximal height of block %ld is %u, should be %u", nr(b.first), mm, m);
				if (b.second.size() <= 40)
					for (ir_node *x : b.second) {
						// from x along operands
						std::unordered_set<ir_node *> seen{x};
						std::vector<ir_node *> st{x};
						while (!st.empty()) {
							ir_node *y = st.back();
							st.pop_back();
							if (is_Phi(y)) continue;
							for (int i = 0; i < get_irn_arity(y); ++i) { ir_node *p = get_irn_n(y, i); if (!is_Block(p) && get_nodes_block(p) == b.first && seen.insert(p).second) st.push_back(p); }
						}
						for (ir_node *y : b.second) {
							++pairs;
							if (!!heights_reachable_in_block(h, x, y) != (bool)seen.count(y)) fail("heights:reachable", "node %ld reaches node %ld: %d expected", nr(x), nr(y), (int)seen.count(y));
						}
					}
			}
			if (round == 0) {
				// a change, then recomputation
				std::vector<ir_node *> add;
				for (ir_node *n : g.nodes) if (mode_is_int(get_irn_mode(n)) && !is_Const(n) && walked.count(get_nodes_block(n))) add.push_back(n);
				if (add.empty()) break;
				std::sort(add.begin(), add.end(), [](ir_node *a, ir_node *b) { return get_irn_node_nr(a) < get_irn_node_nr(b); });
				set_optimize(0);
				ir_node *a = c.t.pick(add);
				keep_alive(new_r_Not(get_nodes_block(a), new_r_Minus(get_nodes_block(a), a)));
				set_optimize(1);
			}
		}
		heights_free(h);
	});
	c.label("pairs", pairs);
	if (pairs > 50) c.nontrivial();
}

// ------------------------------------------------------------ executed facts
struct Obs {
	Ctx *c;
	uint64_t checked = 0;
	std::unordered_map<ir_node *, std::pair<uint64_t, uint64_t>> bits; // z, o
	std::unordered_map<ir_node *, vrp_attr> vrp;
	std::string bad;
};
uint64_t tvv(ir_tarval *tv)
{
	if (get_tarval_mode(tv) == mode_b) return tv == tarval_b_true;
	uint64_t v = 0;
	for (unsigned i = 0; i < get_mode_size_bytes(get_tarval_mode(tv)) && i < 8; ++i) v |= (uint64_t)get_tarval_sub_bits(tv, i) << 8 * i;
	return v;
}
uint64_t mmask(ir_mode *m) { unsigned b = m == mode_b ? 1 : get_mode_size_bits(m); return b >= 64 ? ~0ull : (1ull << b) - 1; }
void obs_value(void *env, ir_node *n, uint64_t v, bool poison, uint64_t)
{
	Obs *o = (Obs *)env;
	if (poison || !o->bad.empty()) return;
	auto it = o->bits.find(n);
	uint64_t mk = 0;
	if (it != o->bits.end()) {
		mk = mmask(get_irn_mode(n));
		++o->checked;
		if ((v & ~it->second.first & mk) || (~v & it->second.second & mk))
			o->bad = strf("constant bits: %s %ld has the value 0x%llx, but is claimed to have at most the bits 0x%llx and at least 0x%llx", get_irn_opname(n), nr(n), (ull)(v & mk), (ull)it->second.first, (ull)it->second.second);
	}
	auto jt = o->vrp.find(n);
	if (jt != o->vrp.end()) {
		const vrp_attr &a = jt->second;
		ir_mode *m = get_irn_mode(n);
		mk = mmask(m);
		++o->checked;
		if (a.bits_not_set && (v & ~tvv(a.bits_not_set) & mk)) o->bad = strf("value ranges: %s %ld has the value 0x%llx outside the possible bits 0x%llx", get_irn_opname(n), nr(n), (ull)(v & mk), (ull)tvv(a.bits_not_set));
		else if (a.bits_set && (~v & tvv(a.bits_set) & mk)) o->bad = strf("value ranges: %s %ld has the value 0x%llx without the sure bits 0x%llx", get_irn_opname(n), nr(n), (ull)(v & mk), (ull)tvv(a.bits_set));
		else if ((a.range_type == VRP_RANGE || a.range_type == VRP_ANTIRANGE) && a.range_bottom && a.range_top && get_tarval_mode(a.range_bottom) == m && get_tarval_mode(a.range_top) == m) {
			unsigned b = get_mode_size_bits(m);
			uint64_t lo = canon(tvv(a.range_bottom), b, mode_is_signed(m)), hi = canon(tvv(a.range_top), b, mode_is_signed(m)), x = canon(v, b, mode_is_signed(m));
			auto le = [&](uint64_t p, uint64_t q) { return mode_is_signed(m) ? (int64_t)p <= (int64_t)q : p <= q; };
			auto lt = [&](uint64_t p, uint64_t q) { return le(p, q) && p != q; };
			bool in = le(lo, x) && le(x, hi), inside = lt(lo, x) && lt(x, hi);
			if (a.range_type == VRP_RANGE && !in) o->bad = strf("value ranges: %s %ld has the value 0x%llx outside [0x%llx, 0x%llx]", get_irn_opname(n), nr(n), (ull)x, (ull)lo, (ull)hi);
			if (a.range_type == VRP_ANTIRANGE && inside) o->bad = strf("value ranges: %s %ld has the value 0x%llx inside the excluded ]0x%llx, 0x%llx[", get_irn_opname(n), nr(n), (ull)x, (ull)lo, (ull)hi);
		}
	}
}
void bits_case(Ctx &c)
{
	Case k;
	shape(c, k, PROBE, true);
	Obs o;
	o.c = &c;
	uint64_t facts = 0;
	each_graph([&](ir_graph *irg) {
		stage("constbits");
		constbits_analyze(irg);
		G g(irg);
		for (ir_node *n : g.nodes) {
			ir_mode *m = get_irn_mode(n);
			if (is_Block(n) || !(mode_is_int(m) || m == mode_b)) continue;
			bitinfo *b = get_bitinfo(n);
			if (!b || !b->z || !b->o || (get_tarval_mode(b->z) != m)) continue;
			uint64_t z = tvv(b->z), s = tvv(b->o), mk = mmask(m);
			o.bits[n] = {z, s};
			if (!is_Const(n) && (((~z | s) & mk))) ++facts;
		}
		constbits_clear(irg);
		stage("vrp");
		set_vrp_data(irg);
		G g2(irg);
		for (ir_node *n : g2.nodes) {
			if (is_Block(n) || !mode_is_int(get_irn_mode(n))) continue;
			vrp_attr *a = vrp_get_info(n);
			if (!a) continue;
			o.vrp[n] = *a;
			if (!is_Const(n) && (a->range_type == VRP_RANGE || a->range_type == VRP_ANTIRANGE)) ++facts;
		}
	});
	stage("run");
	interp_observer_env = &o;
	interp_observer     = obs_value;
	std::string d = check_graphs(k, 7);
	interp_observer = nullptr;
	if (!o.bad.empty()) fail("unsound", "%s", o.bad.c_str());
	if (!d.empty()) fail("semantics:analysis", "the analysis changed the program: %s", d.c_str());
	c.label("facts", facts);
	c.label("checked", o.checked);
	if (facts >= 3) c.nontrivial();
}

// ------------------------------------------------------------ P49 don't care bits
struct Pert { ir_node *n; uint64_t dc; Rng *rng; uint64_t hits = 0; };
uint64_t perturb(void *env, ir_node *n, uint64_t v)
{
	Pert *p = (Pert *)env;
	if (n != p->n) return v;
	++p->hits;
	return v ^ (p->rng->next() & p->dc);
}
void dca_case(Ctx &c)
{
	Case k;
	shape(c, k, PROBE, true);
	std::vector<std::pair<ir_node *, uint64_t>> cand;
	each_graph([&](ir_graph *irg) {
		stage("dca");
		constbits_analyze(irg);
		ir_reserve_resources(irg, IR_RESOURCE_IRN_LINK);
		dca_analyze(irg);
		G g(irg);
		for (ir_node *n : g.nodes) {
			if (is_Block(n) || !mode_is_int(get_irn_mode(n))) continue;
			ir_tarval *tv = (ir_tarval *)get_irn_link(n);
			if (!tv || get_tarval_mode(tv) != get_irn_mode(n)) continue;
			uint64_t dc = ~tvv(tv) & mmask(get_irn_mode(n));
			if (dc) cand.push_back({n, dc});
		}
		ir_free_resources(irg, IR_RESOURCE_IRN_LINK);
		constbits_clear(irg);
	});
	std::sort(cand.begin(), cand.end(), [](auto &a, auto &b) { return get_irn_idx(a.first) < get_irn_idx(b.first); });
	c.label("nodes with don't care bits", cand.size());
	uint64_t hits = 0;
	if (!cand.empty())
		for (int r = 0; r < 6; ++r) {
			auto &x = cand[c.t.below((uint32_t)cand.size())];
			Rng rng(c.t.raw32() + 1);
			Pert p{x.first, x.second, &rng};
			interp_observer_env = &p;
			interp_perturb      = perturb;
			std::string d = check_graphs(k, 7);
			interp_perturb = nullptr;
			hits += p.hits;
			if (!d.empty()) fail("unsound", "the bits 0x%llx of %s %ld do not matter, but: %s", (ull)x.second, get_irn_opname(x.first), nr(x.first), d.c_str());
		}
	c.label("perturbed values", hits);
	if (hits) c.nontrivial();
}

// ------------------------------------------------------------ P45 memory disambiguation
struct Acc { ir_node *n, *ptr; uint64_t addr; unsigned size; uint64_t stamp; };
struct Alias {
	std::unordered_map<uint64_t, std::unordered_map<ir_node *, Acc>> last; // per activation
	std::unordered_map<uint64_t, std::unordered_map<ir_node *, uint64_t>> entered; // block -> entry stamp
	std::unordered_map<uint64_t, std::unordered_map<ir_node *, uint64_t>> val, valstamp; // pointer node -> value
	std::unordered_set<ir_node *> ptrs;
	uint64_t stamp = 0, checked = 0, no = 0, sure = 0;
	std::string bad;
};
const ir_type *acc_type(ir_node *n) { return is_Load(n) ? get_Load_type(n) : get_Store_type(n); }
void al_block(void *env, ir_node *b, uint64_t act) { Alias *a = (Alias *)env; a->entered[act][b] = ++a->stamp; }
void al_value(void *env, ir_node *n, uint64_t v, bool poison, uint64_t act)
{
	Alias *a = (Alias *)env;
	if (!a->ptrs.count(n)) return;
	if (poison) { a->val[act].erase(n); return; }
	a->val[act][n] = v;
	a->valstamp[act][n] = ++a->stamp;
}
// is the value of x the one an observer in block b sees now?
bool current(Alias *a, uint64_t act, ir_node *x, ir_node *b)
{
	ir_node *xb = get_nodes_block(x);
	if (!block_dominates(xb, b)) return false;
	auto &vs = a->valstamp[act];
	auto it = vs.find(x);
	if (it == vs.end() || !a->val[act].count(x)) return false;
	return it->second >= a->entered[act][xb];
}
void al_mem(void *env, ir_node *n, ir_node *ptr, uint64_t addr, unsigned size, bool, uint64_t act)
{
	Alias *a = (Alias *)env;
	++a->stamp;
	auto &last = a->last[act];
	for (auto &l : last) {
		const Acc &o = l.second;
		if (o.n == n || !a->bad.empty()) continue;
		// both addresses as of now
		if (!current(a, act, o.ptr, get_nodes_block(n)) || !current(a, act, ptr, get_nodes_block(n))) continue;
		// the earlier access used the value its address has now
		if (a->val[act][o.ptr] != o.addr || a->valstamp[act][o.ptr] > o.stamp) continue;
		ir_alias_relation r = get_alias_relation(ptr, acc_type(n), size, o.ptr, acc_type(o.n), o.size);
		if (get_alias_relation(o.ptr, acc_type(o.n), o.size, ptr, acc_type(n), size) != r) a->bad = strf("alias(%ld, %ld) is not symmetric", nr(ptr), nr(o.ptr));
		bool overlap = addr < o.addr + o.size && o.addr < addr + size;
		++a->checked;
		a->no += r == ir_no_alias;
		a->sure += r == ir_sure_alias;
		if (r == ir_no_alias && overlap) a->bad = strf("accesses %ld (%s, %u bytes at 0x%llx) and %ld (%s, %u bytes at 0x%llx) overlap, but ir_no_alias is claimed", nr(n), get_irn_opname(ptr), size, (ull)addr, nr(o.n), get_irn_opname(o.ptr), o.size, (ull)o.addr);
		if (r == ir_sure_alias && !overlap) a->bad = strf("accesses %ld (%s, %u bytes at 0x%llx) and %ld (%s, %u bytes at 0x%llx) do not overlap, but ir_sure_alias is claimed", nr(n), get_irn_opname(ptr), size, (ull)addr, nr(o.n), get_irn_opname(o.ptr), o.size, (ull)o.addr);
	}
	last[n] = Acc{n, ptr, addr, size, a->stamp};
}
void alias_case(Ctx &c)
{
	Case k;
	shape(c, k, MEMY, true);
	Alias a;
	bool usage = c.t.flip();
	each_graph([&](ir_graph *irg) {
		assure_irg_properties(irg, IR_GRAPH_PROPERTY_NO_TUPLES | IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE);
		if (usage) assure_irg_entity_usage_computed(irg);
		G g(irg);
		for (ir_node *n : g.nodes) {
			if (is_Load(n)) a.ptrs.insert(get_Load_ptr(n));
			if (is_Store(n)) a.ptrs.insert(get_Store_ptr(n));
		}
	});
	if (usage) assure_irp_globals_entity_usage_computed();
	interp_observer_env   = &a;
	interp_observer       = al_value;
	interp_block_observer = al_block;
	interp_mem_observer   = al_mem;
	std::string d = check_graphs(k, 7);
	interp_observer       = nullptr;
	interp_block_observer = nullptr;
	interp_mem_observer   = nullptr;
	if (!a.bad.empty()) fail("unsound", "%s", a.bad.c_str());
	if (!d.empty()) fail("semantics:analysis", "the analysis changed the program: %s", d.c_str());
	c.label("pairs of accesses", a.checked);
	c.label("no alias", a.no);
	c.label("sure alias", a.sure);
	if (a.checked >= 3) c.nontrivial();
}

// ------------------------------------------------------------ P46 call graph
struct Calls { std::vector<std::pair<ir_node *, ir_entity *>> edges; };
void on_call(void *env, ir_node *call, ir_entity *callee, uint64_t) { ((Calls *)env)->edges.push_back({call, callee}); }
// Plants uses of function addresses where ordinary programs have none, without changing what is computed:
// loop-carried addresses passed on through Phi and Mux, address constants in initializers, aliases.
void plant_addresses(Ctx &c, Case &k)
{
	bool opt = get_optimize();
	set_optimize(0);
	std::vector<ir_entity *> funs, users;
	each_graph([&](ir_graph *irg) { funs.push_back(get_irg_entity(irg)); });
	size_t n_orig = funs.size();
	// functions only reachable through what is planted here
	ir_type *sink_t = new_type_method(1, 0, 0, cc_cdecl_set, mtp_no_property);
	set_method_param_type(sink_t, 0, new_type_primitive(mode_P));
	auto mk = [&](const char *name) {
		ir_entity *e = new_global_entity(get_glob_type(), new_id_from_str(name), sink_t, ir_visibility_local, IR_LINKAGE_DEFAULT);
		ir_graph *irg = new_ir_graph(e, 0);
		set_r_cur_block(irg, get_irg_start_block(irg));
		add_immBlock_pred(get_irg_end_block(irg), new_r_Return(get_irg_start_block(irg), get_irg_initial_mem(irg), 0, nullptr));
		irg_finalize_cons(irg);
		return e;
	};
	unsigned extra = c.t.below(4);
	for (unsigned i = 0; i < extra; ++i) funs.push_back(mk(pbt::strf("planted%u", i).c_str()));
	ir_entity *sink = mk("sink");
	auto anyfun = [&]() {
		ir_entity *e = c.t.pick(funs);
		if (c.t.chance(1, 6)) {
			ir_entity *a = new_alias_entity(get_glob_type(), id_unique("alias"), e, get_entity_type(e), c.t.chance(1, 3) ? ir_visibility_external : ir_visibility_local);
			if (c.t.chance(1, 4)) add_entity_linkage(a, IR_LINKAGE_WEAK);
			e = a;
		}
		return e;
	};
	// addresses in initializers
	unsigned ninit = c.t.weighted({3, 2, 1});
	for (unsigned i = 0; i < ninit; ++i) {
		ir_graph *cg = get_const_code_irg();
		auto addr = [&](bool plain) {
			ir_node *a = new_r_Address(cg, anyfun());
			switch (plain ? 0 : c.t.weighted({3, 1, 1})) {
			case 1: return new_r_Conv(get_irg_start_block(cg), a, get_reference_offset_mode(mode_P));
			case 2: return new_r_Add(get_irg_start_block(cg), a, new_r_Const_long(cg, get_reference_offset_mode(mode_P), 4));
			default: return a;
			}
		};
		static const ir_segment_t segs[] = {IR_SEGMENT_GLOBAL, IR_SEGMENT_THREAD_LOCAL, IR_SEGMENT_CONSTRUCTORS, IR_SEGMENT_DESTRUCTORS};
		ir_type *seg = get_segment_type(segs[c.t.weighted({3, 1, 1, 1})]);
		unsigned n = 1 + c.t.below(3);
		if (n == 1) {
			ir_node *a = addr(false);
			ir_entity *g = new_entity(seg, id_unique("tab"), new_type_primitive(get_irn_mode(a)));
			set_entity_visibility(g, ir_visibility_private);
			set_entity_initializer(g, create_initializer_const(a));
		} else {
			ir_type *at = new_type_array(new_type_primitive(mode_P), n);
			set_type_size(at, n * get_mode_size_bytes(mode_P));
			set_type_state(at, layout_fixed);
			ir_entity *g = new_entity(seg, id_unique("tab"), at);
			set_entity_visibility(g, ir_visibility_private);
			ir_initializer_t *in = create_initializer_compound(n);
			for (unsigned j = 0; j < n; ++j) set_initializer_compound_value(in, j, c.t.chance(1, 4) ? get_initializer_null() : create_initializer_const(addr(true)));
			set_entity_initializer(g, in);
		}
	}
	// loop-carried addresses
	unsigned nphi = c.t.weighted({2, 3, 2, 1});
	for (unsigned i = 0; i < nphi; ++i) {
		ir_graph *irg = get_entity_irg(funs[c.t.below((uint32_t)n_orig)]);
		assure_irg_properties(irg, IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE);
		G g(irg);
		std::vector<ir_node *> phis, mems;
		for (ir_node *n : g.nodes) {
			if (is_Phi(n) && mode_is_int(get_irn_mode(n)) && get_Phi_n_preds(n) >= 1) {
				bool ok = true;
				for (int j = 0; j < get_Phi_n_preds(n); ++j) if (is_Bad(get_Phi_pred(n, j)) || is_Bad(get_Block_cfgpred(get_nodes_block(n), j))) ok = false;
				if (ok) phis.push_back(n);
			}
			if (is_Load(n) || is_Store(n) || is_Call(n)) mems.push_back(n);
		}
		std::sort(phis.begin(), phis.end(), [](ir_node *a, ir_node *b) { return nr(a) < nr(b); });
		std::sort(mems.begin(), mems.end(), [](ir_node *a, ir_node *b) { return nr(a) < nr(b); });
		if (phis.empty()) continue;
		ir_node *ph = c.t.pick(phis), *bl = get_nodes_block(ph);
		int n = get_Phi_n_preds(ph);
		std::vector<ir_node *> in((size_t)n, new_r_Dummy(irg, mode_P));
		ir_node *pp = new_r_Phi(bl, n, in.data(), mode_P);
		for (int j = 0; j < n; ++j) {
			ir_node *pb = get_nodes_block(get_Block_cfgpred(bl, j)), *a = new_r_Address(irg, anyfun());
			if (c.t.chance(2, 3)) {
				ir_node *x = get_Phi_pred(ph, j);
				ir_node *cmp = new_r_Cmp(pb, x, new_r_Const(irg, get_mode_null(get_irn_mode(x))), ir_relation_equal);
				ir_node *o = block_dominates(bl, pb) ? pp : new_r_Address(irg, anyfun());
				a = c.t.chance(1, 2) ? new_r_Mux(pb, cmp, a, o) : new_r_Mux(pb, cmp, o, a);
			}
			set_Phi_pred(pp, j, a);
		}
		auto isnull = [&](ir_node *b) { return new_r_Cmp(b, pp, new_r_Const(irg, get_mode_null(mode_P)), ir_relation_equal); };
		if (c.t.chance(1, 2)) { // used by a test that never holds
			int j = (int)c.t.below((uint32_t)n);
			ir_node *pb = get_nodes_block(get_Block_cfgpred(bl, j));
			if (block_dominates(bl, pb)) {
				ir_node *x = get_Phi_pred(ph, j);
				set_Phi_pred(ph, j, new_r_Mux(pb, isnull(pb), x, new_r_Const(irg, get_mode_null(get_irn_mode(x)))));
			}
		}
		std::vector<ir_node *> dm;
		for (ir_node *m : mems) if (block_dominates(bl, get_nodes_block(m))) dm.push_back(m);
		if (!dm.empty() && c.t.chance(3, 4)) {
			ir_node *m = c.t.pick(dm), *b = get_nodes_block(m), *arg = pp;
			if (c.t.chance(1, 3)) arg = new_r_Mux(b, isnull(b), pp, new_r_Address(irg, anyfun()));
			ir_node *mem = get_memop_mem(m);
			ir_entity *callee = sink;
			if (c.t.chance(1, 4)) callee = new_alias_entity(get_glob_type(), id_unique("salias"), sink, sink_t, ir_visibility_local);
			ir_node *call = new_r_Call(b, mem, new_r_Address(irg, callee), 1, &arg, sink_t);
			set_memop_mem(m, new_r_Proj(call, mode_M, pn_Call_M));
			c.label("planted calls");
		}
		confirm_irg_properties(irg, IR_GRAPH_PROPERTIES_NONE);
	}
	set_optimize(opt);
	std::string bad = verify_all();
	if (!bad.empty()) fail("harness", "planting made an invalid graph: %s", bad.c_str());
	dump_all("planted");
}
ir_entity *behind(ir_entity *e)
{
	while (is_alias_entity(e)) e = get_entity_alias(e);
	return e;
}
// functions whose address leaves the calls it is used for
std::set<ir_entity *> escaping()
{
	std::set<ir_entity *> res;
	auto add = [&](ir_entity *e) { e = behind(e); if (is_method_entity(e)) res.insert(e); };
	each_graph([&](ir_graph *irg) {
		if (entity_is_externally_visible(get_irg_entity(irg))) res.insert(get_irg_entity(irg));
		G g(irg);
		std::unordered_map<ir_node *, std::vector<ir_node *>> phis; // value -> Phis using it
		std::unordered_set<ir_node *> esc;
		std::vector<ir_node *> todo;
		for (ir_node *n : g.nodes) {
			if (is_End(n) || is_Block(n)) continue;
			for (int i = 0; i < get_irn_arity(n); ++i) {
				ir_node *p = get_irn_n(n, i);
				if (is_Call(n) && i == n_Call_ptr) continue;
				if (is_Phi(n)) phis[n].push_back(p);
				else if (esc.insert(p).second) todo.push_back(p);
			}
		}
		while (!todo.empty()) {
			ir_node *n = todo.back();
			todo.pop_back();
			if (is_Address(n)) add(get_Address_entity(n));
			if (is_Phi(n)) for (ir_node *p : phis[n]) if (esc.insert(p).second) todo.push_back(p);
		}
	});
	for (int s = IR_SEGMENT_FIRST; s <= IR_SEGMENT_LAST; ++s) {
		ir_type *seg = get_segment_type((ir_segment_t)s);
		for (size_t i = 0; i < get_compound_n_members(seg); ++i) {
			ir_entity *e = get_compound_member(seg, i);
			if (is_alias_entity(e) && entity_is_externally_visible(e)) add(e);
			if (is_alias_entity(e) || is_method_entity(e) || !get_entity_initializer(e)) continue;
			std::function<void(ir_node *)> node = [&](ir_node *n) {
				if (is_Address(n)) add(get_Address_entity(n));
				for (int j = 0; j < get_irn_arity(n); ++j) node(get_irn_n(n, j));
			};
			std::function<void(ir_initializer_t *)> init = [&](ir_initializer_t *in) {
				if (get_initializer_kind(in) == IR_INITIALIZER_CONST) node(get_initializer_const_value(in));
				if (get_initializer_kind(in) == IR_INITIALIZER_COMPOUND) for (size_t j = 0; j < get_initializer_compound_n_entries(in); ++j) init(get_initializer_compound_value(in, j));
			};
			init(get_entity_initializer(e));
		}
	}
	return res;
}
void cg_case(Ctx &c)
{
	Case k;
	shape(c, k, CALLY, true);
	if (c.t.chance(1, 2)) {
		stage("planting");
		plant_addresses(c, k);
	}
	std::set<ir_entity *> esc = escaping();
	Calls calls;
	interp_observer_env  = &calls;
	interp_call_observer = on_call;
	ir_entity **free_methods = nullptr;
	stage("cgana");
	size_t nfree = cgana(&free_methods);
	std::set<ir_entity *> fm(free_methods, free_methods + nfree);
	for (ir_entity *e : esc) if (get_entity_irg(e) && !fm.count(e)) fail("callgraph:free", "the address of %s is used, but it is not listed as a free method", get_entity_name(e));
	stage("callgraph");
	compute_callgraph();
	stage("run");
	std::string d = check_graphs(k, 7);
	interp_call_observer = nullptr;
	if (!d.empty()) fail("semantics:cgana", "the analysis changed the program: %s", d.c_str());
	// every executed call is predicted
	std::set<std::pair<ir_graph *, ir_graph *>> want;
	for (auto &e : calls.edges) {
		bool found = false, unknown = false;
		for (size_t i = 0; i < cg_get_call_n_callees(e.first); ++i) {
			ir_entity *x = cg_get_call_callee(e.first, i);
			if (x == e.second) found = true;
			if (is_unknown_entity(x)) unknown = true;
		}
		if (!found && !unknown) fail("callgraph:call", "call %ld calls %s, which is not among its callees", nr(e.first), get_entity_name(e.second));
		if (!found && unknown && get_entity_irg(e.second) && !fm.count(e.second)) fail("callgraph:free", "call %ld reaches %s, which is not listed as a free method", nr(e.first), get_entity_name(e.second));
	}
	each_graph([&](ir_graph *irg) {
		G g(irg);
		for (ir_node *n : g.nodes) {
			if (!is_Call(n)) continue;
			ir_node *ptr = get_Call_ptr(n);
			if (is_Address(ptr) && is_method_entity(get_Address_entity(ptr)) && (cg_get_call_n_callees(n) != 1 || cg_get_call_callee(n, 0) != get_Address_entity(ptr))) fail("callgraph:call", "direct call %ld has other callees", nr(n));
			for (size_t i = 0; i < cg_get_call_n_callees(n); ++i) {
				ir_entity *x = cg_get_call_callee(n, i);
				ir_graph *t = is_unknown_entity(x) ? nullptr : get_entity_linktime_irg(x);
				if (t) want.insert({irg, t});
			}
		}
	});
	std::set<std::pair<ir_graph *, ir_graph *>> got, inv;
	each_graph([&](ir_graph *irg) {
		for (size_t i = 0; i < get_irg_n_callees(irg); ++i) if (!got.insert({irg, get_irg_callee(irg, i)}).second) fail("callgraph:edges", "callee listed twice");
		for (size_t i = 0; i < get_irg_n_callers(irg); ++i) if (!inv.insert({get_irg_caller(irg, i), irg}).second) fail("callgraph:edges", "caller listed twice");
	});
	if (got != want) fail("callgraph:edges", "%zu edges in the call graph, the calls have %zu", got.size(), want.size());
	if (inv != want) fail("callgraph:edges", "callers are not the inverse of callees");
	struct W { std::vector<ir_graph *> pre, post; } w;
	callgraph_walk([](ir_graph *g, void *e) { ((W *)e)->pre.push_back(g); }, [](ir_graph *g, void *e) { ((W *)e)->post.push_back(g); }, &w);
	for (auto *l : {&w.pre, &w.post}) {
		std::set<ir_graph *> s(l->begin(), l->end());
		if (s.size() != l->size()) fail("callgraph:walk", "a graph is visited twice");
		if (s.size() != get_irp_n_irgs()) fail("callgraph:walk", "%zu of %zu graphs visited", s.size(), get_irp_n_irgs());
	}
	stage("recursions");
	set_irp_main_irg(get_entity_irg(k.b.entry));
	find_callgraph_recursions();
	std::map<ir_graph *, int> ix;
	each_graph([&](ir_graph *irg) { int n = (int)ix.size(); ix[irg] = n; });
	Adj all(ix.size()), fwd(ix.size());
	each_graph([&](ir_graph *irg) {
		for (size_t i = 0; i < get_irg_n_callees(irg); ++i) {
			ir_graph *t = get_irg_callee(irg, i);
			all[(size_t)ix[irg]].push_back(ix[t]);
			bool be = is_irg_callee_backedge(irg, i), be2 = false;
			for (size_t j = 0; j < get_irg_n_callers(t); ++j) if (get_irg_caller(t, j) == irg) be2 = is_irg_caller_backedge(t, j);
			if (be != be2) fail("callgraph:recursion", "caller and callee disagree about a recursive call");
			if (!be) fwd[(size_t)ix[irg]].push_back(ix[t]);
		}
	});
	std::vector<int> cp, cp2;
	std::vector<char> cy, cy2;
	sccs(all, cp, cy);
	sccs(fwd, cp2, cy2);
	for (size_t i = 0; i < cy2.size(); ++i) {
		if (!cy2[i]) continue;
		size_t members = (size_t)std::count(cp2.begin(), cp2.end(), cp2[i]);
		fail("callgraph:recursion", "a recursion of %zu graphs without a marked edge", members);
	}
	each_graph([&](ir_graph *irg) {
		for (size_t i = 0; i < get_irg_n_callees(irg); ++i)
			if (is_irg_callee_backedge(irg, i) && cp[(size_t)ix[irg]] != cp[(size_t)ix[get_irg_callee(irg, i)]]) fail("callgraph:recursion", "an edge outside any recursion is marked");
	});
	for (char x : cy) if (x) { c.label("recursive programs"); break; }
	c.label("executed calls", calls.edges.size());
	if (want.size() >= 2 && calls.edges.size() >= 3) c.nontrivial();
}

// ------------------------------------------------------------ P54 class hierarchies
struct Hier {
	std::vector<ir_type *> cls;              // any superclass has a smaller index
	std::vector<std::vector<int>> sup;       // direct superclasses
	std::vector<ir_entity *> ent;
	std::vector<int> owner;
	std::vector<std::vector<int>> over;      // entities directly overwritten
};
// transitive closure of a relation (rows reach columns), not reflexive
std::vector<std::vector<char>> closure(const std::vector<std::vector<int>> &r)
{
	size_t n = r.size();
	std::vector<std::vector<char>> m(n, std::vector<char>(n, 0));
	for (size_t i = 0; i < n; ++i) for (int j : r[i]) { // relations lead to smaller indices
		m[i][(size_t)j] = 1;
		for (size_t k = 0; k < n; ++k) if (m[(size_t)j][k]) m[i][k] = 1;
	}
	return m;
}
void make_hier(Ctx &c, Hier &h, bool single)
{
	size_t n = 1 + c.t.below(9);
	unsigned nfam = 1 + c.t.below(2);
	std::vector<size_t> order(n);
	for (size_t i = 0; i < n; ++i) order[i] = i;
	if (c.t.chance(3, 4)) for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[c.t.below((uint32_t)i)]);
	h.cls.resize(n);
	h.sup.resize(n);
	for (size_t i : order) h.cls[i] = new_type_class(new_id_from_str(pbt::strf("class%zu", i).c_str()));
	std::vector<std::pair<int, int>> links;
	for (size_t i = 1; i < n; ++i) {
		unsigned ns = single ? c.t.below(2) || c.t.flip() : c.t.weighted({1, 3, 3, 1});
		for (unsigned k = 0; k < ns; ++k) {
			int j = (int)i - 1 - (int)c.t.below((uint32_t)i);
			if (std::count(h.sup[i].begin(), h.sup[i].end(), j)) continue;
			h.sup[i].push_back(j);
			links.push_back({(int)i, j});
		}
	}
	if (c.t.flip()) for (size_t i = links.size(); i > 1; --i) std::swap(links[i - 1], links[c.t.below((uint32_t)i)]);
	for (auto &l : links) {
		if (c.t.flip()) add_class_supertype(h.cls[(size_t)l.first], h.cls[(size_t)l.second]);
		else add_class_subtype(h.cls[(size_t)l.second], h.cls[(size_t)l.first]);
	}
	ir_type *mt = new_type_method(1, 0, 0, cc_cdecl_set, mtp_no_property);
	set_method_param_type(mt, 0, new_type_primitive(mode_P));
	std::vector<std::vector<int>> has(n, std::vector<int>(nfam, -1));
	std::vector<std::pair<int, int>> ov;
	for (size_t i = 0; i < n; ++i) for (unsigned f = 0; f < nfam; ++f) {
		if (!c.t.chance(2, 3)) continue;
		std::vector<int> near;
		std::function<void(int)> look = [&](int k) {
			for (int s : h.sup[(size_t)k]) {
				int e = has[(size_t)s][f];
				if (e < 0) look(s);
				else if (!std::count(near.begin(), near.end(), e)) near.push_back(e);
			}
		};
		look((int)i);
		int id = (int)h.ent.size();
		has[i][f] = id;
		h.ent.push_back(new_entity(h.cls[i], new_id_from_str(pbt::strf("m%u_class%zu", f, i).c_str()), mt));
		h.owner.push_back((int)i);
		h.over.push_back(near);
		for (int e : near) ov.push_back({id, e});
	}
	if (c.t.flip()) for (size_t i = ov.size(); i > 1; --i) std::swap(ov[i - 1], ov[c.t.below((uint32_t)i)]);
	for (auto &o : ov) add_entity_overwrites(h.ent[(size_t)o.first], h.ent[(size_t)o.second]);
}
void check_hier(Ctx &c, Hier &h, bool single, bool closed)
{
	size_t n = h.cls.size(), m = h.ent.size();
	auto cu = closure(h.sup), eu = closure(h.over);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
		bool want = i == j || cu[i][j];
		if (!!is_SubClass_of(h.cls[i], h.cls[j]) != want) fail("hierarchy:subclass", "is_SubClass_of(class%zu, class%zu) = %d", i, j, !want);
		if (closed && !!is_class_trans_subtype(h.cls[j], h.cls[i]) != (bool)cu[i][j]) fail("hierarchy:closure", "is_class_trans_subtype(class%zu, class%zu) = %d", j, i, !cu[i][j]);
	}
	for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < m; ++j)
		if (!!is_overwritten_by(h.ent[j], h.ent[i]) != (bool)eu[i][j]) fail("hierarchy:overwritten", "is_overwritten_by(%s, %s) = %d", get_entity_name(h.ent[j]), get_entity_name(h.ent[i]), !eu[i][j]);
	if (closed) {
		for (size_t i = 0; i < n; ++i) {
			std::set<ir_type *> up, down, gu, gd;
			for (size_t j = 0; j < n; ++j) { if (cu[i][j]) up.insert(h.cls[j]); if (cu[j][i]) down.insert(h.cls[j]); }
			for (ir_type *t = get_class_trans_supertype_first(h.cls[i]); t; t = get_class_trans_supertype_next(h.cls[i])) if (!gu.insert(t).second) fail("hierarchy:closure", "superclass listed twice");
			for (ir_type *t = get_class_trans_subtype_first(h.cls[i]); t; t = get_class_trans_subtype_next(h.cls[i])) if (!gd.insert(t).second) fail("hierarchy:closure", "subclass listed twice");
			if (gu != up) fail("hierarchy:closure", "class%zu: %zu superclasses listed, has %zu", i, gu.size(), up.size());
			if (gd != down) fail("hierarchy:closure", "class%zu: %zu subclasses listed, has %zu", i, gd.size(), down.size());
		}
		for (size_t i = 0; i < m; ++i) {
			std::set<ir_entity *> up, down, gu, gd;
			for (size_t j = 0; j < m; ++j) { if (eu[i][j]) up.insert(h.ent[j]); if (eu[j][i]) down.insert(h.ent[j]); }
			for (ir_entity *e = get_entity_trans_overwrites_first(h.ent[i]); e; e = get_entity_trans_overwrites_next(h.ent[i])) gu.insert(e);
			for (ir_entity *e = get_entity_trans_overwrittenby_first(h.ent[i]); e; e = get_entity_trans_overwrittenby_next(h.ent[i])) gd.insert(e);
			if (gu != up) fail("hierarchy:closure", "%s: %zu overwritten entities listed, has %zu", get_entity_name(h.ent[i]), gu.size(), up.size());
			if (gd != down) fail("hierarchy:closure", "%s: %zu overwriting entities listed, has %zu", get_entity_name(h.ent[i]), gd.size(), down.size());
		}
	}
	// direct relations are inverse to each other
	for (size_t i = 0; i < n; ++i) {
		std::set<ir_type *> up, down, gu, gd;
		for (int s : h.sup[i]) up.insert(h.cls[(size_t)s]);
		for (size_t j = 0; j < n; ++j) for (int s : h.sup[j]) if (s == (int)i) down.insert(h.cls[j]);
		for (size_t k = 0; k < get_class_n_supertypes(h.cls[i]); ++k) gu.insert(get_class_supertype(h.cls[i], k));
		for (size_t k = 0; k < get_class_n_subtypes(h.cls[i]); ++k) gd.insert(get_class_subtype(h.cls[i], k));
		if (gu != up || gd != down || gu.size() != get_class_n_supertypes(h.cls[i]) || gd.size() != get_class_n_subtypes(h.cls[i])) fail("hierarchy:direct", "direct relations of class%zu differ from what was declared", i);
	}
	for (size_t i = 0; i < m; ++i) {
		std::set<ir_entity *> up, down, gu, gd;
		for (int s : h.over[i]) up.insert(h.ent[(size_t)s]);
		for (size_t j = 0; j < m; ++j) for (int s : h.over[j]) if (s == (int)i) down.insert(h.ent[j]);
		for (size_t k = 0; k < get_entity_n_overwrites(h.ent[i]); ++k) gu.insert(get_entity_overwrites(h.ent[i], k));
		for (size_t k = 0; k < get_entity_n_overwrittenby(h.ent[i]); ++k) gd.insert(get_entity_overwrittenby(h.ent[i], k));
		if (gu != up || gd != down) fail("hierarchy:direct", "overwriting of %s differs from what was declared", get_entity_name(h.ent[i]));
	}
	// dispatch: with single inheritance the nearest definition above the dynamic class
	if (single) for (size_t e = 0; e < m; ++e) for (size_t d = 0; d < n; ++d) {
		if ((int)d != h.owner[e] && !cu[d][(size_t)h.owner[e]]) continue;
		int best = (int)e;
		for (size_t x = 0; x < m; ++x) if (eu[x][e] && (h.owner[x] == (int)d || cu[d][(size_t)h.owner[x]]) && cu[(size_t)h.owner[x]][(size_t)h.owner[(size_t)best]]) best = (int)x;
		ir_entity *r = resolve_ent_polymorphy(h.cls[d], h.ent[e]);
		if (r != h.ent[(size_t)best]) fail("hierarchy:dispatch", "%s on an object of class%zu resolves to %s instead of %s", get_entity_name(h.ent[e]), d, get_entity_name(r), get_entity_name(h.ent[(size_t)best]));
	}
	// pointers of equal depth
	for (int k = 0; k < 3; ++k) {
		size_t a = c.t.below((uint32_t)n), b = c.t.below((uint32_t)n);
		unsigned da = c.t.below(3), db = c.t.chance(3, 4) ? da : c.t.below(3);
		ir_type *ta = h.cls[a], *tb = h.cls[b];
		for (unsigned i = 0; i < da; ++i) ta = new_type_pointer(ta);
		for (unsigned i = 0; i < db; ++i) tb = new_type_pointer(tb);
		bool want = da == db && (a == b || cu[a][b]);
		if (!!is_SubClass_ptr_of(ta, tb) != want) fail("hierarchy:subclass", "is_SubClass_ptr_of(class%zu %u, class%zu %u) = %d", a, da, b, db, !want);
	}
	// walks
	struct W { std::vector<ir_type *> pre, post; } w, v;
	class_walk_super2sub([](ir_type *t, void *e) { ((W *)e)->pre.push_back(t); }, [](ir_type *t, void *e) { ((W *)e)->post.push_back(t); }, &w);
	type_walk_super([](ir_type *t, ir_entity *, void *e) { ((W *)e)->pre.push_back(t); }, [](ir_type *t, ir_entity *, void *e) { ((W *)e)->post.push_back(t); }, &v);
	auto pos = [](std::vector<ir_type *> &l, ir_type *t) { return std::find(l.begin(), l.end(), t) - l.begin(); };
	for (size_t i = 0; i < n; ++i) {
		for (auto *l : {&w.pre, &w.post, &v.pre, &v.post}) if (std::count(l->begin(), l->end(), h.cls[i]) != 1) fail("hierarchy:walk", "class%zu is not visited exactly once", i);
		for (int s : h.sup[i]) {
			if (pos(w.pre, h.cls[i]) < pos(w.pre, h.cls[(size_t)s])) fail("hierarchy:walk", "class%zu is visited before its superclass", i);
			if (pos(v.post, h.cls[i]) < pos(v.post, h.cls[(size_t)s])) fail("hierarchy:walk", "class%zu is finished before its superclass", i);
		}
	}
}
void hier_case(Ctx &c)
{
	firm_start(target("amd64"));
	Hier h;
	bool single = c.t.chance(1, 3);
	make_hier(c, h, single);
	c.sample = pbt::strf("%zu classes, %zu methods:", h.cls.size(), h.ent.size());
	size_t links = 0;
	for (size_t i = 0; i < h.cls.size(); ++i) for (int s : h.sup[i]) { c.sample += pbt::strf(" %zu<%d", i, s); ++links; }
	for (size_t i = 0; i < h.ent.size(); ++i) for (int s : h.over[i]) { c.sample += pbt::strf(" %s<%s", get_entity_name(h.ent[i]), get_entity_name(h.ent[(size_t)s])); ++links; }
	c.note(c.sample);
	stage("queries");
	check_hier(c, h, single, false);
	stage("closure");
	compute_inh_transitive_closure();
	check_hier(c, h, single, true);
	// after changes the closure is computed again
	for (int i = 1; i < (int)h.cls.size(); ++i) {
		if (single || !c.t.chance(1, 4)) continue;
		int j = i - 1 - (int)c.t.below((uint32_t)i);
		auto &s = h.sup[(size_t)i];
		auto it = std::find(s.begin(), s.end(), j);
		if (it == s.end()) { s.push_back(j); add_class_supertype(h.cls[(size_t)i], h.cls[(size_t)j]); }
		else {
			auto cu = closure(h.sup);
			bool need = false; // an overwriting method lives there
			for (size_t x = 0; x < h.ent.size(); ++x) for (int y : h.over[x]) { std::vector<std::vector<int>> s2 = h.sup; auto &q = s2[(size_t)i]; q.erase(std::find(q.begin(), q.end(), j)); if (!closure(s2)[(size_t)h.owner[x]][(size_t)h.owner[(size_t)y]]) need = true; }
			if (need) continue;
			s.erase(it);
			remove_class_supertype(h.cls[(size_t)i], h.cls[(size_t)j]);
			remove_class_subtype(h.cls[(size_t)j], h.cls[(size_t)i]);
		}
	}
	for (size_t x = 0; x < h.ent.size(); ++x) if (!h.over[x].empty() && !single && c.t.chance(1, 5)) {
		remove_entity_overwrites(h.ent[x], h.ent[(size_t)h.over[x].back()]);
		remove_entity_overwrittenby(h.ent[(size_t)h.over[x].back()], h.ent[x]);
		h.over[x].pop_back();
	}
	stage("closure after changes");
	compute_inh_transitive_closure();
	check_hier(c, h, single, true);
	free_inh_transitive_closure();
	check_hier(c, h, single, false);
	c.label(single ? "single inheritance" : "multiple inheritance");
	if (links >= 3) c.nontrivial();
}

// ------------------------------------------------------------ P46 calls through the class hierarchy
void virtual_case(Ctx &c)
{
	firm_start(target("amd64"));
	bool opt = get_optimize();
	set_optimize(0);
	Hier h;
	make_hier(c, h, c.t.chance(1, 3));
	size_t m = h.ent.size();
	if (!m) discard("no methods");
	auto eu = closure(h.over);
	std::vector<char> impl(m);
	auto finish = [](ir_graph *irg, ir_node *mem) {
		add_immBlock_pred(get_irg_end_block(irg), new_r_Return(get_irg_start_block(irg), mem, 0, nullptr));
		irg_finalize_cons(irg);
	};
	for (size_t i = 0; i < m; ++i) {
		set_entity_visibility(h.ent[i], ir_visibility_local);
		impl[i] = c.t.chance(2, 3);
		if (!impl[i]) continue;
		ir_graph *irg = new_ir_graph(h.ent[i], 0);
		set_r_cur_block(irg, get_irg_start_block(irg));
		finish(irg, get_irg_initial_mem(irg));
	}
	ir_type *mt = get_entity_type(h.ent[0]);
	ir_entity *me = new_global_entity(get_glob_type(), new_id_from_str("caller"), mt, ir_visibility_external, IR_LINKAGE_DEFAULT);
	ir_graph *irg = new_ir_graph(me, 0);
	set_r_cur_block(irg, get_irg_start_block(irg));
	ir_node *bl = get_irg_start_block(irg), *obj = new_r_Proj(get_irg_args(irg), mode_P, 0), *mem = get_irg_initial_mem(irg);
	std::map<ir_node *, std::set<int>> calls;
	std::set<int> free_e;
	unsigned nc = 1 + c.t.below(4);
	for (unsigned k = 0; k < nc; ++k) {
		std::set<int> used;
		auto sel = [&]() { int e = (int)c.t.below((uint32_t)m); used.insert(e); return new_r_Member(bl, obj, h.ent[(size_t)e]); };
		ir_node *p = sel();
		if (c.t.chance(1, 4)) p = new_r_Mux(bl, new_r_Cmp(bl, obj, new_r_Const(irg, get_mode_null(mode_P)), ir_relation_equal), p, sel());
		ir_node *arg = obj;
		if (c.t.chance(1, 4)) { // the method's address is passed on
			int e = (int)c.t.below((uint32_t)m);
			free_e.insert(e);
			arg = new_r_Member(bl, obj, h.ent[(size_t)e]);
		}
		ir_node *call = new_r_Call(bl, mem, p, 1, &arg, mt);
		mem = new_r_Proj(call, mode_M, pn_Call_M);
		calls[call] = used;
	}
	finish(irg, mem);
	set_optimize(opt);
	std::string bad = verify_all();
	if (!bad.empty()) fail("harness", "irg_verify rejects %s", bad.c_str());
	c.sample = pbt::strf("%zu classes, %zu methods, %zu calls", h.cls.size(), m, calls.size());
	for (size_t i = 0; i < m; ++i) { c.sample += pbt::strf(" %s%s", get_entity_name(h.ent[i]), impl[i] ? "" : "=0"); for (int s : h.over[i]) c.sample += pbt::strf("<%s", get_entity_name(h.ent[(size_t)s])); }
	c.note(c.sample);
	auto targets = [&](const std::set<int> &used) {
		std::set<ir_entity *> r;
		for (int e : used) for (size_t x = 0; x < m; ++x) if (impl[x] && ((int)x == e || eu[x][(size_t)e])) r.insert(h.ent[x]);
		return r;
	};
	ir_entity **fmv = nullptr;
	stage("cgana");
	size_t nf = cgana(&fmv);
	std::set<ir_entity *> fm(fmv, fmv + nf);
	if (fm.size() != nf) fail("callgraph:free", "a free method is listed twice");
	for (ir_entity *e : targets(free_e)) if (!fm.count(e)) fail("callgraph:free", "%s can be called through an address that is passed on, but it is not listed as a free method", get_entity_name(e));
	std::set<ir_graph *> want, got;
	size_t poly = 0;
	for (auto &cl : calls) {
		std::set<ir_entity *> w = targets(cl.second), g;
		for (size_t i = 0; i < cg_get_call_n_callees(cl.first); ++i) if (!g.insert(cg_get_call_callee(cl.first, i)).second) fail("callgraph:call", "callee listed twice");
		for (ir_entity *e : w) { if (!g.count(e)) fail("callgraph:call", "call %ld may reach %s, which is not among its callees", nr(cl.first), get_entity_name(e)); want.insert(get_entity_irg(e)); }
		for (ir_entity *e : g) if (!is_unknown_entity(e) && !w.count(e)) fail("callgraph:call", "call %ld lists %s, which it cannot reach", nr(cl.first), get_entity_name(e));
		if (w.size() >= 2) ++poly;
	}
	stage("callgraph");
	compute_callgraph();
	for (size_t i = 0; i < get_irg_n_callees(irg); ++i) got.insert(get_irg_callee(irg, i));
	if (got != want) fail("callgraph:edges", "the caller has %zu callees in the call graph, should have %zu", got.size(), want.size());
	if (poly) c.nontrivial();
	c.label("polymorphic calls", poly);
}

// ------------------------------------------------------------ P47 execution frequencies
void freq_case(Ctx &c)
{
	Case k;
	shape(c, k, LOOPY, false);
	uint64_t blocks = 0;
	each_graph([&](ir_graph *irg) {
		ir_estimate_execfreq(irg);
		G g(irg);
		size_t n = g.n();
		blocks += n;
		std::vector<char> re = reach(g.succ, g.start);
		std::vector<double> f(n);
		for (size_t b = 0; b < n; ++b) {
			f[b] = get_block_execfreq(g.blocks[b]);
			if (!std::isfinite(f[b]) || f[b] < 0) fail("frequency", "frequency of block %ld is %g", nr(g.blocks[b]), f[b]);
		}
		auto close = [](double a, double b) { return std::fabs(a - b) <= 1e-6 * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); };
		std::vector<int> cp;
		std::vector<char> cy;
		sccs(g.succ, cp, cy);
		bool loops = std::any_of(cy.begin(), cy.end(), [](char x) { return x; });
		if (!loops && g.kept.empty() && !close(f[(size_t)g.start], 1)) fail("frequency", "frequency of the start block is %g", f[(size_t)g.start]);
		// documented fallback where the equations cannot be solved: a power of the loop weight
		if (loops) {
			bool weights = true, ones = true;
			for (size_t b = 0; b < n; ++b) {
				ir_loop *l = get_irn_loop(g.blocks[b]);
				if (!l || f[b] != std::pow(10., get_loop_depth(l))) weights = false;
				if (f[b] != 1) ones = false;
			}
			if (weights || ones) { c.label("fallback frequencies"); return; }
		}
		bool endless = false;
		Adj rev(n);
		for (size_t y = 0; y < n; ++y) for (int p : g.pred[y]) if (p >= 0) rev[y].push_back(p);
		auto toend = reach(rev, g.end);
		for (size_t b = 0; b < n; ++b) if (!toend[b]) endless = true;
		for (size_t b = 0; b < n; ++b) {
			if (!re[b] || (int)b == g.start || endless) continue;
			// what flows in: at least from the blocks with one way out, at most everything
			double lo = 0, hi = 0;
			for (int p : g.pred[b]) {
				if (p < 0) continue;
				hi += f[(size_t)p];
				if (g.succ[(size_t)p].size() == 1) lo += f[(size_t)p];
			}
			if (f[b] < lo && !close(f[b], lo)) fail("frequency:flow", "block %ld has frequency %g, but its predecessors certainly send %g", nr(g.blocks[b]), f[b], lo);
			if (f[b] > hi && !close(f[b], hi)) fail("frequency:flow", "block %ld has frequency %g, but its predecessors have only %g", nr(g.blocks[b]), f[b], hi);
			if (!loops && f[b] > 1 && !close(f[b], 1)) fail("frequency:flow", "block %ld of a loop-free graph has frequency %g", nr(g.blocks[b]), f[b]);
			// loop-free: edges out of a block are taken equally often
			if (!loops) {
				double sum = 0;
				for (int p : g.pred[b]) if (p >= 0) sum += f[(size_t)p] / (double)g.succ[(size_t)p].size();
				if (!close(f[b], sum)) fail("frequency:flow", "block %ld has frequency %g, should have %g", nr(g.blocks[b]), f[b], sum);
			}
		}
		if (!endless) {
			double ret = f[(size_t)g.end];
			if (!close(ret, f[(size_t)g.start])) fail("frequency:flow", "the start block has frequency %g, the end block %g", f[(size_t)g.start], ret);
		}
		if (loops) c.label("graphs with loops");
	});
	if (blocks >= 8) c.nontrivial();
}

#define A1 "graphs that the preparing passes leave invalid or change are outside the property's domain"
Reg p40(Prop{"P40", "programs with at least 10 blocks", {{"dominance", dom_case, 30000, 600000, 1, 10}}, {A1}});
Reg p41(Prop{"P41", "programs with at least one loop", {{"loops", loop_case, 30000, 600000, 1, 10}}, {A1}});
Reg p42(Prop{"P42", "programs with at least 4 block-crossing live ranges", {{"liveness", live_case, 30000, 600000, 1, 10}}, {A1}});
Reg p43(Prop{"P43", "at least 4 edits of the graph", {{"uses", uses_case, 30000, 600000, 1, 10}}, {A1}});
Reg p44(Prop{"P44", "at least 50 pairs of nodes queried", {{"heights", height_case, 30000, 600000, 1, 10}}, {A1}});
Reg p45(Prop{"P45", "at least 3 pairs of executed accesses compared", {{"alias", alias_case, 40000, 800000, 1, 10}}, {A1}});
Reg p46(Prop{"P46", "at least 2 call graph edges and 3 executed calls, or a call with at least 2 implementations", {{"callgraph", cg_case, 40000, 800000, 1, 10}, {"virtual calls", virtual_case, 40000, 800000, 1, 10}}, {A1}});
Reg p54(Prop{"P54", "at least 3 declared relations", {{"hierarchy", hier_case, 60000, 1200000, 1, 10}}, {A1}});
Reg p47(Prop{"P47", "programs with at least 8 blocks", {{"frequencies", freq_case, 30000, 600000, 1, 10}}, {A1}});
Reg p48(Prop{"P48", "at least 3 facts about values that are not constants", {{"facts", bits_case, 40000, 800000, 1, 10}}, {A1}});
Reg p49(Prop{"P49", "at least one executed value with don't care bits was changed", {{"dontcare", dca_case, 40000, 800000, 1, 10}}, {A1}});
}
