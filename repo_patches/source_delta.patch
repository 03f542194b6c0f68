From 967fac0a4a2f8f85180aa39d4318baffc6284205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:59 +0000
Subject: [PATCH 001/109] fix: do not constant-fold the memory Proj of a
 Builtin

---
 ir/opt/iropt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 80938f0..425f2a7 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -833,6 +833,10 @@ static ir_tarval *compute_cmp_ext(const ir_node *cmp)
 
 static ir_tarval *computed_value_Proj_Builtin(ir_node const *const proj)
 {
+	/* Only the result has a value, the memory Proj must not be folded. */
+	if (get_Proj_num(proj) == pn_Builtin_M)
+		return tarval_unknown;
+
 	long           val;
 	ir_node *const builtin = get_Proj_pred(proj);
 	switch (get_Builtin_kind(builtin)) {
-- 
2.43.0


From 801c35f623635ed7322e4004c31d87e23f0ff509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:15 +0000
Subject: [PATCH 002/109] fix: keep rounding and truncating inner conversions
 of Conv(Conv(x))

---
 ir/opt/iropt.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 425f2a7..0038ad2 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -6370,6 +6370,19 @@ bool may_leave_out_middle_conv(ir_mode *m0, ir_mode *m1, ir_mode *m2)
 	unsigned size0 = get_significand_size(m0);
 	unsigned size1 = get_significand_size(m1);
 	unsigned size2 = get_significand_size(m2);
+	if (mode_is_float(m1)) {
+		/* The first conversion rounds. */
+		if (size0 > size1 && (mode_is_float(m0) || mode_is_float(m2)))
+			return false;
+	} else if (mode_is_float(m0)) {
+		/* The first conversion does not overflow, but a direct one might. */
+		if (size1 > size2)
+			return false;
+	} else if (mode_is_float(m2)) {
+		/* The first conversion truncates. */
+		if (size0 > size1)
+			return false;
+	}
 	if (size1 < size2 && size0 >= size1)
 		return false;
 	if (size1 >= size2)
-- 
2.43.0


From a84cb49aae50f4bf439840715954d62038d78f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:43 +0000
Subject: [PATCH 003/109] fix: do not negate float sums in a way that loses the
 sign of zero

---
 ir/opt/iropt.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 0038ad2..a115a21 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -3639,7 +3639,9 @@ static ir_node *can_negate_cheaply(dbg_info *const dbgi, ir_node *const node)
 		return get_Minus_op(node);
 	/* -(a-b) => b-a */
 	ir_mode  *mode  = get_irn_mode(node);
-	if (is_Sub(node)) {
+	/* -(x-x) is -0.0, but x-x is +0.0 */
+	bool const sum_ok = !mode_is_float(mode) || ir_imprecise_float_transforms_allowed();
+	if (is_Sub(node) && sum_ok) {
 		ir_node  *block = get_nodes_block(node);
 		ir_node  *left  = get_Sub_left(node);
 		ir_node  *right = get_Sub_right(node);
@@ -3659,7 +3661,7 @@ static ir_node *can_negate_cheaply(dbg_info *const dbgi, ir_node *const node)
 		}
 	}
 	/* -(a + C) => -C - a */
-	if (is_Add(node)) {
+	if (is_Add(node) && sum_ok) {
 		ir_node *right = get_Add_right(node);
 		if (is_Const(right)) {
 			ir_node   *left  = get_Add_left(node);
@@ -4701,7 +4703,8 @@ static ir_node *transform_node_Minus(ir_node *n)
 	if (negated_op != NULL)
 		return negated_op;
 
-	if (is_Add(op) && only_one_user(op)) {
+	if (is_Add(op) && only_one_user(op)
+	    && (!mode_is_float(get_irn_mode(op)) || ir_imprecise_float_transforms_allowed())) {
 		ir_node  *l         = get_Add_left(op);
 		ir_node  *r         = get_Add_right(op);
 		ir_node  *negated_l = can_negate_cheaply(NULL, l);
-- 
2.43.0


From a0d9fc2e445cb630173da1db8a2520e0efb27e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:19 +0000
Subject: [PATCH 004/109] fix: do not replace the memory Proj of a saturating
 increment by an Add

---
 ir/opt/iropt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index a115a21..755fb47 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -4836,7 +4836,8 @@ static ir_node *transform_node_Proj_Store(ir_node *proj)
 static ir_node *transform_node_Proj_Builtin(ir_node *proj)
 {
 	ir_node *builtin = get_Proj_pred(proj);
-	if (get_Builtin_kind(builtin) != ir_bk_saturating_increment)
+	if (get_Builtin_kind(builtin) != ir_bk_saturating_increment
+	    || get_Proj_num(proj) == pn_Builtin_M)
 		return proj;
 
 	assert(get_Builtin_n_params(builtin) == 1);
-- 
2.43.0


From 97294a3345e45247c3209d968be422abb3e9dafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:38 +0000
Subject: [PATCH 005/109] fix: gvn-pre must not activate out edges that are
 active already

---
 ir/opt/gvn_pre.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ir/opt/gvn_pre.c b/ir/opt/gvn_pre.c
index 2665d1e..6b5e0bc 100644
--- a/ir/opt/gvn_pre.c
+++ b/ir/opt/gvn_pre.c
@@ -1807,7 +1807,7 @@ void do_gvn_pre(ir_graph *irg)
 	save_optimization_state(&state);
 	ir_reserve_resources(irg, IR_RESOURCE_IRN_LINK | IR_RESOURCE_LOOP_LINK);
 
-	edges_activate(irg);
+	assure_edges(irg);
 
 	environment = &env;
 	DEBUG_ONLY(init_stats();)
@@ -1877,5 +1877,5 @@ void do_gvn_pre(ir_graph *irg)
 
 	/* TODO assure nothing else breaks. */
 	set_opt_global_cse(0);
-	edges_activate(irg);
+	assure_edges(irg);
 }
-- 
2.43.0


From f0db5bec783311cf1686b255ce5fac94c405efb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:57 +0000
Subject: [PATCH 006/109] fix: dead node elimination must invalidate
 postdominance and dominance frontiers

---
 ir/opt/dead_code_elimination.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ir/opt/dead_code_elimination.c b/ir/opt/dead_code_elimination.c
index 242cb34..68977f5 100644
--- a/ir/opt/dead_code_elimination.c
+++ b/ir/opt/dead_code_elimination.c
@@ -16,6 +16,7 @@
  */
 #include "cgana.h"
 #include "iredges_t.h"
+#include "irdom_t.h"
 #include "irgraph_t.h"
 #include "irgwalk.h"
 #include "irhooks.h"
@@ -81,7 +82,11 @@ void dead_node_elimination(ir_graph *irg)
 	free_irg_outs(irg);
 	free_loop_information(irg);
 	free_vrp_data(irg);
-	clear_irg_properties(irg, IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE);
+	ir_free_dominance_frontiers(irg);
+	clear_irg_properties(irg, IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE
+		| IR_GRAPH_PROPERTY_CONSISTENT_POSTDOMINANCE
+		| IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE_FRONTIERS
+		| IR_GRAPH_PROPERTY_CONSISTENT_OUT_EDGES);
 
 	/* A quiet place, where the old obstack can rest in peace,
 	   until it will be cremated. */
-- 
2.43.0


From 5ed3a45e21756ae186b1662b38c9d0466331c7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:57 +0000
Subject: [PATCH 007/109] fix: opt_ldst has to reserve the Phi list resource it
 uses

---
 ir/opt/opt_ldst.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ir/opt/opt_ldst.c b/ir/opt/opt_ldst.c
index e6966e9..9c9ddeb 100644
--- a/ir/opt/opt_ldst.c
+++ b/ir/opt/opt_ldst.c
@@ -1784,7 +1784,7 @@ void opt_ldst(ir_graph *irg)
 	env.id_2_address  = NEW_ARR_F(ir_node *, 0);
 #endif
 
-	ir_reserve_resources(irg, IR_RESOURCE_IRN_LINK | IR_RESOURCE_BLOCK_MARK);
+	ir_reserve_resources(irg, IR_RESOURCE_IRN_LINK | IR_RESOURCE_BLOCK_MARK | IR_RESOURCE_PHI_LIST);
 
 	/* first step: allocate block entries. Note that some blocks might be
 	   unreachable here. Using the normal walk ensures that ALL blocks are initialized. */
@@ -1876,7 +1876,7 @@ no_changes:
 		confirm_irg_properties(irg, IR_GRAPH_PROPERTIES_ALL);
 	}
 
-	ir_free_resources(irg, IR_RESOURCE_IRN_LINK | IR_RESOURCE_BLOCK_MARK);
+	ir_free_resources(irg, IR_RESOURCE_IRN_LINK | IR_RESOURCE_BLOCK_MARK | IR_RESOURCE_PHI_LIST);
 	ir_nodehashmap_destroy(&env.adr_map);
 	obstack_free(&env.obst, NULL);
 
-- 
2.43.0


From ff6714a07a70c4ca83eadfd9701d8c366a19b5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:43 +0000
Subject: [PATCH 008/109] fix: unsigned range check for case ranges of signed
 switches

---
 ir/lower/lower_switch.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ir/lower/lower_switch.c b/ir/lower/lower_switch.c
index a58a055..db705bf 100644
--- a/ir/lower/lower_switch.c
+++ b/ir/lower/lower_switch.c
@@ -286,6 +286,13 @@ static ir_node *create_case_cond(const ir_switch_table_entry *entry,
 	} else {
 		ir_tarval *adjusted_max = tarval_sub(entry->max, entry->min);
 		ir_node   *sub          = new_rd_Sub(dbgi, block, selector, minconst);
+		ir_mode   *mode         = get_irn_mode(sub);
+		if (mode_is_signed(mode)) {
+			/* values below the minimum must wrap around */
+			mode         = find_unsigned_mode(mode);
+			sub          = new_rd_Conv(dbgi, block, sub, mode);
+			adjusted_max = tarval_convert_to(adjusted_max, mode);
+		}
 		ir_node   *maxconst     = new_r_Const(irg, adjusted_max);
 		cmp = new_rd_Cmp(dbgi, block, sub, maxconst, ir_relation_less_equal);
 	}
-- 
2.43.0


From 13056a86039b24b1f9a2506043e2332414e2189c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:37 +0000
Subject: [PATCH 009/109] fix: loop unrolling must not replace a Phi by itself
 when removing one-input Phis

---
 ir/opt/loop.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ir/opt/loop.c b/ir/opt/loop.c
index 546d4c5..4791f59 100644
--- a/ir/opt/loop.c
+++ b/ir/opt/loop.c
@@ -1240,12 +1240,10 @@ static void correct_phis(ir_node *const node, void *const env)
 	(void)env;
 
 	if (is_Phi(node) && get_irn_arity(node) == 1) {
-		dbg_info *const dbgi  = get_irn_dbg_info(node);
-		ir_node  *const block = get_nodes_block(node);
-		ir_node  *const in[]  = { get_Phi_pred(node, 0) };
-		ir_mode  *const mode  = get_irn_mode(node);
-		ir_node  *const exch  = new_rd_Phi(dbgi, block, ARRAY_SIZE(in), in, mode);
-		exchange(node, exch);
+		ir_node *const pred = get_Phi_pred(node, 0);
+		/* Keep-alive edges may hold a memory Phi of an endless loop. */
+		if (pred != node && !get_Phi_loop(node))
+			exchange(node, pred);
 	}
 }
 
-- 
2.43.0


From 0cf707dd24e5d416bc0bf79e8d8e32dd3420116d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:37 +0000
Subject: [PATCH 010/109] fix: LCSSA construction requires a graph without Bads

---
 ir/opt/lcssa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ir/opt/lcssa.c b/ir/opt/lcssa.c
index a6696a8..3dea010 100644
--- a/ir/opt/lcssa.c
+++ b/ir/opt/lcssa.c
@@ -330,7 +330,7 @@ static void verify_lcssa(ir_graph *const irg)
 void assure_lcssa(ir_graph *const irg)
 {
 	FIRM_DBG_REGISTER(dbg, "firm.opt.lcssa");
-	assure_irg_properties(irg, IR_GRAPH_PROPERTY_CONSISTENT_LOOPINFO | IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE | IR_GRAPH_PROPERTY_NO_CRITICAL_EDGES);
+	assure_irg_properties(irg, IR_GRAPH_PROPERTY_NO_BADS | IR_GRAPH_PROPERTY_CONSISTENT_LOOPINFO | IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE | IR_GRAPH_PROPERTY_NO_CRITICAL_EDGES);
 	ir_reserve_resources(irg, IR_RESOURCE_IRN_LINK);
 	irg_walk_graph(irg, firm_clear_link, NULL, NULL);
 	DB((dbg, LEVEL_1, "Begin LCSSA construction on %+F\n", irg));
@@ -344,7 +344,7 @@ void assure_lcssa(ir_graph *const irg)
 void assure_loop_lcssa(ir_graph *const irg, ir_loop *const loop)
 {
 	FIRM_DBG_REGISTER(dbg, "firm.opt.lcssa");
-	assure_irg_properties(irg, IR_GRAPH_PROPERTY_CONSISTENT_LOOPINFO | IR_GRAPH_PROPERTY_CONSISTENT_OUTS | IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE);
+	assure_irg_properties(irg, IR_GRAPH_PROPERTY_NO_BADS | IR_GRAPH_PROPERTY_CONSISTENT_LOOPINFO | IR_GRAPH_PROPERTY_CONSISTENT_OUTS | IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE);
 	inc_irg_visited(irg);
 	ir_reserve_resources(irg, IR_RESOURCE_IRN_LINK);
 	irg_walk_graph(irg, firm_clear_link, NULL, NULL);
-- 
2.43.0


From 948353b3e10b8bb63f0ab1ba9b5ce9b5c973418b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:20 +0000
Subject: [PATCH 011/109] fix: LCSSA construction has to handle edges leaving
 several loops

---
 ir/opt/lcssa.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ir/opt/lcssa.c b/ir/opt/lcssa.c
index 3dea010..2baa1c6 100644
--- a/ir/opt/lcssa.c
+++ b/ir/opt/lcssa.c
@@ -87,14 +87,15 @@ static bool is_nested_loop_exit(ir_node const *const block, ir_node const *const
 	}
 
 	ir_node const *const target_block = get_nodes_block(target);
-	ir_loop const *const target_loop = get_irn_loop(target_block);
-	assert(target_loop && get_loop_depth(target_loop) > 0);
+	ir_loop const       *loop         = get_irn_loop(target_block);
+	assert(loop && get_loop_depth(loop) > 0);
 
-	unsigned const block_depth = get_loop_depth(block_loop);
-	unsigned const pred_depth  = get_loop_depth(pred_loop);
-
-	return is_loop_nested_inside(target_loop, pred_loop) &&
-		pred_depth > block_depth;
+	/* An edge may leave several loops at once, so consider the innermost loop,
+	 * which contains the target as well as the predecessor. */
+	while (!is_loop_nested_inside(pred_loop, loop)) {
+		loop = get_loop_outer_loop(loop);
+	}
+	return !is_loop_nested_inside(block_loop, loop);
 }
 
 static ir_node *new_linked_Phi(ir_node *block, ir_mode *mode)
-- 
2.43.0


From adb17d549e37ca3e44caa115e88a757a1ca9bd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:22 +0000
Subject: [PATCH 012/109] fix: find the unroll factor without trying all
 divisors of a huge loop count

---
 ir/opt/loop_unrolling.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/ir/opt/loop_unrolling.c b/ir/opt/loop_unrolling.c
index ccf4764..69c4a23 100644
--- a/ir/opt/loop_unrolling.c
+++ b/ir/opt/loop_unrolling.c
@@ -243,18 +243,14 @@ static unsigned find_optimal_factor(unsigned long number, unsigned max) {
 		// loop can be unrolled completely
 		return (unsigned) number;
 	}
-	unsigned i;
-	for (i = 2; i <= number / 2; i++) {
-		if (number % i == 0) {
-			// found a small divisor i -> number/i is a large divisor of number
-			if ((number / i) <= max) {
-				unsigned candidate = (unsigned) number / i;
-				// limit to powers of two for now
-				if ((candidate != 0) && ((candidate & (candidate - 1)) == 0)) {
-					return candidate;
-				}
-
-			}
+	// limit to powers of two for now: use the largest one dividing number
+	unsigned candidate = 1;
+	while (candidate <= max / 2) {
+		candidate *= 2;
+	}
+	for (; candidate > 1; candidate /= 2) {
+		if (number % candidate == 0) {
+			return candidate;
 		}
 	}
 	return 0;
-- 
2.43.0


From 35f79ecb5ae28c0cdc9c366952ca0a8678df5b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 013/109] fix: fully unroll only loops that provably end after
 the computed number of iterations

---
 ir/opt/loop_unrolling.c | 113 +++++++++++++++++++++++++++-------------
 1 file changed, 78 insertions(+), 35 deletions(-)

diff --git a/ir/opt/loop_unrolling.c b/ir/opt/loop_unrolling.c
index 69c4a23..967699c 100644
--- a/ir/opt/loop_unrolling.c
+++ b/ir/opt/loop_unrolling.c
@@ -266,6 +266,53 @@ static ir_node* skip_trivial_phis(ir_node *start) {
 	return start;
 }
 
+/**
+ * Returns whether the loop is left via @p cond as soon as its condition is false.
+ * If it is left as soon as the condition is true, @p rel gets negated.
+ */
+static bool get_continue_relation(ir_node *const cond, ir_loop *const loop, ir_relation *const rel)
+{
+	bool     continues[2] = { false, false };
+	unsigned n_outs       = get_irn_n_outs(cond);
+	for (unsigned i = 0; i < n_outs; ++i) {
+		ir_node *const proj = get_irn_out(cond, i);
+		if (get_irn_n_outs(proj) != 1)
+			return false;
+		ir_node *const succ = get_irn_out(proj, 0);
+		if (!is_Block(succ))
+			return false;
+		continues[get_Proj_num(proj) == pn_Cond_true] = block_is_inside_loop(succ, loop);
+	}
+	if (n_outs != 2 || continues[0] == continues[1])
+		return false;
+	if (continues[0])
+		*rel = get_negated_relation(*rel) & ir_relation_less_equal_greater;
+	return true;
+}
+
+/**
+ * Returns whether the last execution of the header, i.e. the one leaving the
+ * loop, can be dropped: Only its Phis may be visible after the loop.
+ */
+static bool can_skip_last_header(ir_node *const header, ir_loop *const loop)
+{
+	unsigned const n_outs = get_irn_n_outs(header);
+	for (unsigned i = 0; i < n_outs; ++i) {
+		ir_node *const node = get_irn_out(header, i);
+		if (get_nodes_block(node) != header || is_Phi(node) || is_cfop(skip_Proj(node)))
+			continue;
+		if (!mode_is_data(get_irn_mode(node)) && get_irn_mode(node) != mode_b)
+			return false;
+		unsigned const n_users = get_irn_n_outs(node);
+		for (unsigned j = 0; j < n_users; ++j) {
+			ir_node *const user = get_irn_out(node, j);
+			if (!is_Block(user) && !is_End(user) && !block_is_inside_loop(get_nodes_block(user), loop))
+				return false;
+		}
+	}
+	return true;
+}
+
 /**
  * Analyzes loop and decides whether it should be unrolled or not and chooses a suitable unroll factor.
  *
@@ -279,7 +326,7 @@ static ir_node* skip_trivial_phis(ir_node *start) {
  * @param fully_unroll pointer to where the decision to fully unroll the loop is stored
  * @return unroll factor to use fot this loop; 0 if loop should not be unrolled
  */
-static unsigned find_suitable_factor(ir_node *const header, unsigned max, bool *fully_unroll) {
+static unsigned find_suitable_factor(ir_loop *const loop, ir_node *const header, unsigned max, bool *fully_unroll) {
 	unsigned const DONT_UNROLL = 0;
 	unsigned const n_outs = get_irn_n_outs(header);
 	unsigned factor = 1;
@@ -289,9 +336,17 @@ static unsigned find_suitable_factor(ir_node *const header, unsigned max, bool *
 		if (get_nodes_block(node) != header)
 			continue;
 
-		if (is_Cmp(node)) {
+		if (is_Cond(node)) {
+			ir_node *const cmp = get_Cond_selector(node);
+			if (!is_Cmp(cmp)) {
+				return DONT_UNROLL;
+			}
 
-			ir_relation cmp_rel = get_Cmp_relation(node);
+			ir_relation cmp_rel = get_Cmp_relation(cmp);
+			if (!get_continue_relation(node, loop, &cmp_rel)) {
+				return DONT_UNROLL;
+			}
+			ir_relation const continue_rel = cmp_rel;
 			if (cmp_rel == ir_relation_less_greater || cmp_rel == ir_relation_equal || cmp_rel & ir_relation_unordered) {
 				return DONT_UNROLL;
 			}
@@ -301,14 +356,14 @@ static unsigned find_suitable_factor(ir_node *const header, unsigned max, bool *
 			ir_tarval *tv_limit = NULL;
 
 			ir_node *header_phi;
-			ir_node *cmp_right = get_Cmp_right(node);
+			ir_node *cmp_right = get_Cmp_right(cmp);
 			if (is_Const(cmp_right) && mode_is_int(get_irn_mode(cmp_right))) {
-				if (!is_Phi(get_Cmp_left(node))) {
+				header_phi = get_Cmp_left(cmp);
+				if (!is_Phi(header_phi) || get_nodes_block(header_phi) != header) {
 					return DONT_UNROLL;
 				}
 				// found Cmp(?, const)
-				header_phi = get_Cmp_left(node);
-				tv_limit = get_Const_tarval(get_Cmp_right(node));
+				tv_limit = get_Const_tarval(cmp_right);
 			} else {
 				return DONT_UNROLL;
 			}
@@ -316,7 +371,7 @@ static unsigned find_suitable_factor(ir_node *const header, unsigned max, bool *
 			ir_node *cnt_add = NULL;
 			for (int j = 0; j < phi_preds; j++) {
 				ir_node *phi_pred = get_Phi_pred(header_phi, j);
-				if (is_Const(phi_pred) && mode_is_int(get_irn_mode(cmp_right))) {
+				if (is_Const(phi_pred) && !block_is_inside_loop(get_Block_cfgpred_block(header, j), loop)) {
 					// found constant init for (possible) counter
 					ir_tarval *const_tv = get_Const_tarval(phi_pred);
 					if (tv_init == NULL || tarval_cmp(tv_init, const_tv) == ir_relation_equal) {
@@ -359,7 +414,12 @@ static unsigned find_suitable_factor(ir_node *const header, unsigned max, bool *
 				}
 			}
 
-			assert(tv_limit != NULL && tv_init != NULL && tv_step != NULL);
+			if (tv_init == NULL || tv_step == NULL) {
+				return DONT_UNROLL;
+			}
+			ir_tarval *tv_counter = tv_init;
+			ir_tarval *const tv_increment = tv_step;
+			ir_tarval *const tv_bound = tv_limit;
 
 			// normalize: use less or less_equal as relation
 			if (cmp_rel & ir_relation_greater) {
@@ -398,7 +458,11 @@ static unsigned find_suitable_factor(ir_node *const header, unsigned max, bool *
 #endif
 			factor = find_optimal_factor((unsigned long) loop_count, max);
 			if (factor == (unsigned long) loop_count) {
-				*fully_unroll = true;
+				// make sure that the loop really ends by then, e.g. the counter may wrap around
+				for (unsigned j = 0; j < factor; ++j) {
+					tv_counter = tarval_add(tv_counter, tv_increment);
+				}
+				*fully_unroll = !(tarval_cmp(tv_counter, tv_bound) & continue_rel) && can_skip_last_header(header, loop);
 			}
 			break;
 		}
@@ -494,30 +558,9 @@ static void rewire_fully_unrolled(ir_loop *const loop, ir_node *header) {
 			ir_node *const phi = get_irn_out(after_loop, j);
 			if (is_Phi(phi)) {
 				ir_node *const pred = get_irn_n(phi, n_after);
-				ir_node *new_pred = NULL;
-				if (is_Phi(pred)) {
-					// case: pred is phi in loop header. use input i of loop header phi
-					new_pred = get_irn_n(pred, i);
-				} else if (get_irn_mode(phi) == mode_M) {
-					// case: memory phi in after_loop: search memory phi in loop header
-					// note: if there are no nodes except the phi on the memory path within the loop header, the case
-					// above already handled the memory phi correctly.
-					new_pred = pred;
-					// walk memory path until phi is found
-					while (!is_Phi(new_pred)) {
-						new_pred = is_memop(new_pred) ? get_memop_mem(new_pred) : get_irn_n(new_pred, 0);
-					}
-					assert(is_Phi(new_pred));
-					// use input i of loop header memory phi
-					new_pred = get_irn_n(new_pred, i);
-				} else {
-					// case: pred was copied during loop unrolling
-					new_pred = get_irn_link(pred);
-				}
-				if (new_pred == NULL) {
-					// case: pred was defined outside of the loop
-					new_pred = pred;
-				}
+				// Use input i of a Phi in the loop header.
+				// Everything else is defined outside of the loop.
+				ir_node *const new_pred = is_Phi(pred) && get_nodes_block(pred) == header ? get_irn_n(pred, i) : pred;
 				add_edge(phi, new_pred);
 			}
 		}
@@ -554,7 +597,7 @@ static bool unroll_loop(ir_loop *const loop, unsigned factor)
 	DB((dbg, LEVEL_4, "\tidentified loop header %+F\n", header));
 
 	bool fully_unroll = false;
-	factor = find_suitable_factor(header, factor, &fully_unroll);
+	factor = find_suitable_factor(loop, header, factor, &fully_unroll);
 	if (factor < 1 || (factor == 1 && !fully_unroll)) {
 		return false;
 	}
-- 
2.43.0


From b63ac0ebeaa54b65f734f7c66b95a7b5ac1dc0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:21 +0000
Subject: [PATCH 014/109] fix: no linear function test replacement with
 negative factors

---
 ir/opt/opt_osr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ir/opt/opt_osr.c b/ir/opt/opt_osr.c
index e833d5c..633b044 100644
--- a/ir/opt/opt_osr.c
+++ b/ir/opt/opt_osr.c
@@ -995,6 +995,12 @@ static ir_node *apply_one_edge(ir_node *iv, ir_node *rc, ldtr_edge_t *e,
 		ir_tarval *tv_l = get_Const_tarval(rc);
 		ir_tarval *tv_r = get_Const_tarval(e->rc);
 
+		/* A negative factor would reverse the relation of the Cmp. */
+		if (e->code == iro_Mul && tarval_is_negative(tv_r)) {
+			DB((dbg, LEVEL_4, " = negative factor"));
+			return NULL;
+		}
+
 		int old_wrap_on_overflow = tarval_get_wrap_on_overflow();
 		tarval_set_wrap_on_overflow(false);
 
-- 
2.43.0


From 65234d3888e4bf3a31c1f8b5babd8d16bfc96efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:45 +0000
Subject: [PATCH 015/109] fix: LCSSA construction has to check the values found
 on the way

---
 ir/opt/lcssa.c | 35 +++++++----------------------------
 1 file changed, 7 insertions(+), 28 deletions(-)

diff --git a/ir/opt/lcssa.c b/ir/opt/lcssa.c
index 2baa1c6..3f16b82 100644
--- a/ir/opt/lcssa.c
+++ b/ir/opt/lcssa.c
@@ -76,28 +76,6 @@ static bool cf_has_loop_exit(ir_node const *const from_block, ir_node const *con
 	return !nested;
 }
 
-/* Returns true if control flow from pred_block to block is an exit of any loop containing target. */
-static bool is_nested_loop_exit(ir_node const *const block, ir_node const *const pred_block, ir_node const *const target)
-{
-	ir_loop const *const block_loop = get_irn_loop(block);
-	ir_loop const *const pred_loop = get_irn_loop(pred_block);
-
-	if (!block_loop || !pred_loop || block_loop == pred_loop) {
-		return false;
-	}
-
-	ir_node const *const target_block = get_nodes_block(target);
-	ir_loop const       *loop         = get_irn_loop(target_block);
-	assert(loop && get_loop_depth(loop) > 0);
-
-	/* An edge may leave several loops at once, so consider the innermost loop,
-	 * which contains the target as well as the predecessor. */
-	while (!is_loop_nested_inside(pred_loop, loop)) {
-		loop = get_loop_outer_loop(loop);
-	}
-	return !is_loop_nested_inside(block_loop, loop);
-}
-
 static ir_node *new_linked_Phi(ir_node *block, ir_mode *mode)
 {
 	ir_node *unknown = new_r_Unknown(get_irn_irg(block), mode);
@@ -139,18 +117,19 @@ static ir_node *insert_phis_recursive(ir_node *const target, ir_node *const bloc
 	} else if (arity == 1) {
 		ir_node *pred_block = get_Block_cfgpred_block(block, 0);
 
-		if (is_nested_loop_exit(block, pred_block, target)) {
-			ir_node *phi  = new_linked_Phi(block, mode);
-			DB((dbg, LEVEL_2, "Loop exit, constructing %+F\n", phi));
+		ir_node *const pred = insert_phis_recursive(target, pred_block);
 
-			ir_node *pred = insert_phis_recursive(target, pred_block);
+		/* Check the found value instead of the target: It may be a Phi in
+		 * another loop on the path from the target. */
+		if (cf_has_loop_exit(get_nodes_block(pred), block)) {
+			ir_node *phi  = new_linked_Phi(block, mode);
 			set_irn_n(phi, 0, pred);
-			DB((dbg, LEVEL_2, "\tsetting pred of loop-exiting %+F to %+F\n", phi, pred));
+			DB((dbg, LEVEL_2, "Loop exit, constructing %+F with pred %+F\n", phi, pred));
 
 			result = phi;
 		} else {
 			DB((dbg, LEVEL_2, "One predecessor, pass-through\n"));
-			result = insert_phis_recursive(target, pred_block);
+			result = pred;
 		}
 
 	} else {
-- 
2.43.0


From 03590ce79dc82818d06e3471c20573d527e48111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:49 +0000
Subject: [PATCH 016/109] fix: entities of array type are no primitive objects

---
 ir/ana/irmemory.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/ana/irmemory.c b/ir/ana/irmemory.c
index 3e954be..6831d19 100644
--- a/ir/ana/irmemory.c
+++ b/ir/ana/irmemory.c
@@ -232,7 +232,7 @@ analyze_entity:
 	if (!(get_entity_usage(entity) & ir_usage_address_taken))
 		res |= ir_sc_modifier_nottaken;
 	const ir_type *type = get_entity_type(entity);
-	res |= is_compound_type(type) ? ir_sc_modifier_obj_comp
+	res |= is_aggregate_type(type) ? ir_sc_modifier_obj_comp
 	                              : ir_sc_modifier_obj_prim;
 	return res;
 }
-- 
2.43.0


From 0af9c756d62c77101618878262cced71c5ce3e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:53 +0000
Subject: [PATCH 017/109] fix: SSA construction on an existing graph has to
 deactivate the out edges

---
 ir/ir/irssacons.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ir/ir/irssacons.c b/ir/ir/irssacons.c
index c7a5c9f..28bc6fc 100644
--- a/ir/ir/irssacons.c
+++ b/ir/ir/irssacons.c
@@ -9,6 +9,7 @@
  * @author  Michael Beck
  */
 #include "ircons_t.h"
+#include "iredges_t.h"
 #include "irgraph_t.h"
 #include "irgwalk.h"
 #include "irnode_t.h"
@@ -37,6 +38,10 @@ void ssa_cons_start(ir_graph *irg, int n_loc)
 {
 	add_irg_constraints(irg, IR_GRAPH_CONSTRAINT_CONSTRUCTION);
 
+	/* With active out edges exchange() deletes the replaced Phi, but it may
+	 * still be recorded as value of a block. */
+	edges_deactivate(irg);
+
 	irg_set_nloc(irg, n_loc);
 
 	/*
-- 
2.43.0


From 918888ba8a61b0de40a9f3e0d2cd4b5952ce5579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:32 +0000
Subject: [PATCH 018/109] fix: tail recursion must only treat results as
 accumulated that depend on the call through a single chain of operations

---
 ir/opt/tailrec.c | 155 ++++++++++++++++++-----------------------------
 1 file changed, 60 insertions(+), 95 deletions(-)

diff --git a/ir/opt/tailrec.c b/ir/opt/tailrec.c
index ae3cb12..875f18d 100644
--- a/ir/opt/tailrec.c
+++ b/ir/opt/tailrec.c
@@ -329,120 +329,81 @@ static bool check_lifetime_of_locals(ir_graph *irg)
 }
 
 /**
- * Examine irn and detect the recursion variant.
+ * Mark all nodes in the block of the call which depend on the call.
  */
-static tail_rec_variants find_variant(ir_node *irn, ir_node *call)
+static void mark_dependent_nodes(ir_node *const node, ir_node *const block)
 {
-	if (skip_Proj(skip_Proj(irn)) == call) {
-		/* found it */
-		return TR_DIRECT;
+	if (irn_visited_else_mark(node))
+		return;
+	foreach_irn_out_r(node, i, succ) {
+		if (!is_Block(succ) && get_nodes_block(succ) == block)
+			mark_dependent_nodes(succ, block);
 	}
+}
 
-	switch (get_irn_opcode(irn)) {
-	case iro_Add: {
-		/* try additive */
-		ir_node           *a          = get_Add_left(irn);
-		ir_node           *call_block = get_nodes_block(call);
-		tail_rec_variants  va;
-		if (get_nodes_block(a) != call_block) {
-			/* we are outside, ignore */
-			va = TR_UNKNOWN;
-		} else {
-			va = find_variant(a, call);
-			if (va == TR_BAD)
-				return TR_BAD;
-		}
-		ir_node           *b  = get_Add_right(irn);
-		tail_rec_variants  vb;
-		if (get_nodes_block(b) != call_block) {
-			/* we are outside, ignore */
-			vb = TR_UNKNOWN;
-		} else {
-			vb = find_variant(b, call);
-			if (vb == TR_BAD)
-				return TR_BAD;
+/**
+ * Examine the @p res_num-th return value @p irn and detect the recursion
+ * variant. The nodes depending on the call have to be marked.
+ */
+static tail_rec_variants find_variant(ir_node *const irn, ir_node *const call, unsigned const res_num)
+{
+	/* the value does not depend on the call */
+	if (!irn_visited(irn))
+		return TR_UNKNOWN;
+
+	if (is_Proj(irn)) {
+		ir_node *const pred = get_Proj_pred(irn);
+		if (is_Proj(pred) && get_Proj_num(pred) == pn_Call_T_result
+		 && get_Proj_pred(pred) == call && get_Proj_num(irn) == res_num) {
+			/* found it */
+			return TR_DIRECT;
 		}
-		tail_rec_variants res = va == vb         ? va :
-		                        va == TR_UNKNOWN ? vb :
-		                        vb == TR_UNKNOWN ? va :
-		                        TR_BAD;
-		if (res == TR_DIRECT || res == TR_ADD)
-			return TR_ADD;
-		/* not compatible */
 		return TR_BAD;
 	}
 
+	/* floating point operations must not be reordered */
+	if (mode_is_float(get_irn_mode(irn)))
+		return TR_BAD;
+
+	switch (get_irn_opcode(irn)) {
+	case iro_Add: {
+		/* try additive, only one of the operands may depend on the call */
+		ir_node *const a = get_Add_left(irn);
+		ir_node *const b = get_Add_right(irn);
+		if (irn_visited(a) && irn_visited(b))
+			return TR_BAD;
+		ir_node           *const op  = irn_visited(a) ? a : b;
+		tail_rec_variants  const res = find_variant(op, call, res_num);
+		return res == TR_DIRECT || res == TR_ADD ? TR_ADD : TR_BAD;
+	}
+
 	case iro_Sub: {
 		/* try additive, but return value must be left */
-		ir_node           *a  = get_Sub_left(irn);
-		tail_rec_variants  va;
-		if (get_nodes_block(a) != get_nodes_block(call)) {
-			/* we are outside, ignore */
-			va = TR_UNKNOWN;
-		} else {
-			va = find_variant(a, call);
-			if (va == TR_BAD)
-				return TR_BAD;
-		}
-		ir_node *b = get_Sub_right(irn);
-		if (get_nodes_block(b) == get_nodes_block(call)) {
-			tail_rec_variants vb = find_variant(b, call);
-			if (vb != TR_UNKNOWN)
-				return TR_BAD;
-		}
-		tail_rec_variants res = va;
-		if (res == TR_DIRECT || res == TR_ADD)
-			return res;
-		/* not compatible */
-		return TR_BAD;
+		if (irn_visited(get_Sub_right(irn)))
+			return TR_BAD;
+		tail_rec_variants const res = find_variant(get_Sub_left(irn), call, res_num);
+		return res == TR_DIRECT || res == TR_ADD ? TR_ADD : TR_BAD;
 	}
 
 	case iro_Mul: {
-		/* try multiplicative */
-		ir_node           *a  = get_Mul_left(irn);
-		tail_rec_variants  va;
-		if (get_nodes_block(a) != get_nodes_block(call)) {
-			/* we are outside, ignore */
-			va = TR_UNKNOWN;
-		} else {
-			va = find_variant(a, call);
-			if (va == TR_BAD)
-				return TR_BAD;
-		}
-		ir_node           *b  = get_Mul_right(irn);
-		tail_rec_variants  vb;
-		if (get_nodes_block(b) != get_nodes_block(call)) {
-			/* we are outside, ignore */
-			vb = TR_UNKNOWN;
-		} else {
-			vb = find_variant(b, call);
-			if (vb == TR_BAD)
-				return TR_BAD;
-		}
-		tail_rec_variants res = va == vb         ? va :
-		                        va == TR_UNKNOWN ? vb :
-		                        vb == TR_UNKNOWN ? va :
-		                        TR_BAD;
-		if (res == TR_DIRECT || res == TR_MUL)
-			return TR_MUL;
-		/* not compatible */
-		return TR_BAD;
+		/* try multiplicative, only one of the operands may depend on the call */
+		ir_node *const a = get_Mul_left(irn);
+		ir_node *const b = get_Mul_right(irn);
+		if (irn_visited(a) && irn_visited(b))
+			return TR_BAD;
+		ir_node           *const op  = irn_visited(a) ? a : b;
+		tail_rec_variants  const res = find_variant(op, call, res_num);
+		return res == TR_DIRECT || res == TR_MUL ? TR_MUL : TR_BAD;
 	}
 
 	case iro_Minus: {
 		/* try multiplicative */
-		ir_node           *a   = get_Minus_op(irn);
-		tail_rec_variants  res = find_variant(a, call);
-		if (res == TR_DIRECT)
-			return TR_MUL;
-		if (res == TR_MUL || res == TR_UNKNOWN)
-			return res;
-		/* not compatible */
-		return TR_BAD;
+		tail_rec_variants const res = find_variant(get_Minus_op(irn), call, res_num);
+		return res == TR_DIRECT || res == TR_MUL ? TR_MUL : TR_BAD;
 	}
 
 	default:
-		return TR_UNKNOWN;
+		return TR_BAD;
 	}
 }
 
@@ -545,10 +506,12 @@ static unsigned find_tail_rec_possibilities(tr_env *env, ir_graph *irg)
 		}
 
 		/* ok, mem is routed to a recursive call, check return args */
+		inc_irg_visited(irg);
+		mark_dependent_nodes(call, get_nodes_block(call));
 		ir_node **ress = get_Return_res_arr(ret);
 		int       j;
 		for (j = get_Return_n_ress(ret); j-- > 0; ) {
-			tail_rec_variants var = find_variant(ress[j], call);
+			tail_rec_variants var = find_variant(ress[j], call, j);
 
 			/* cannot be transformed */
 			if (var >= TR_BAD)
@@ -592,7 +555,9 @@ void opt_tail_rec_irg(ir_graph *irg)
 
 	tr_env   env;
 	memset(&env, 0, sizeof(env));
+	ir_reserve_resources(irg, IR_RESOURCE_IRN_VISITED);
 	unsigned n_tail_calls = find_tail_rec_possibilities(&env, irg);
+	ir_free_resources(irg, IR_RESOURCE_IRN_VISITED);
 
 	/* now, end_block->link contains the list of all tail calls */
 	if (n_tail_calls > 0) {
-- 
2.43.0


From 3a112fd17a4042f14167fc182290ff0f3a96dba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:17 +0000
Subject: [PATCH 019/109] fix: folding a Switch on a constant creates
 unreachable code

---
 ir/opt/iropt.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 755fb47..9280975 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -4242,6 +4242,12 @@ static ir_node *transform_node_Switch(ir_node *n)
 				in[o] = bad;
 			}
 		}
+		clear_irg_properties(irg, IR_GRAPH_PROPERTY_NO_UNREACHABLE_CODE
+		                        | IR_GRAPH_PROPERTY_NO_BADS
+		                        | IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE
+		                        | IR_GRAPH_PROPERTY_CONSISTENT_POSTDOMINANCE
+		                        | IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE_FRONTIERS
+		                        | IR_GRAPH_PROPERTY_CONSISTENT_OUTS);
 		return new_r_Tuple(block, (int)n_outs, in);
 	}
 	return n;
-- 
2.43.0


From 4aa51e61bb320714837f704756355ec82247141d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:48 +0000
Subject: [PATCH 020/109] fix: fltcalc: subnormal operands of divisions and
 multiplications, subnormals with trailing zero bits, exactness of overflows

---
 ir/tv/fltcalc.c | 58 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/ir/tv/fltcalc.c b/ir/tv/fltcalc.c
index 02c1e5e..9d6212e 100644
--- a/ir/tv/fltcalc.c
+++ b/ir/tv/fltcalc.c
@@ -190,7 +190,7 @@ static bool normalize(fp_value *val, bool sticky)
 	}
 
 	/* could have rounded down to zero */
-	if (sc_is_zero(_mant(val), value_size)
+	if (sc_is_zero(_mant(val), value_size * SC_BITS)
 	    && (val->clss == FC_SUBNORMAL))
 		val->clss = FC_ZERO;
 
@@ -233,6 +233,7 @@ static bool normalize(fp_value *val, bool sticky)
 		 * TO_ZERO     |      +        |   largest representable value
 		 *             |      -        |   smallest representable value
 		 *--------------------------------------------------------------*/
+		exact = false;
 		switch (rounding_mode) {
 		case FC_TONEAREST:
 		case FC_TOPOSITIVE:
@@ -389,6 +390,25 @@ static void _fadd(const fp_value *a, const fp_value *b, fp_value *result)
 	fc_exact &= normalize(result, sticky);
 }
 
+/**
+ * Determine mantissa and exponent of a normal or subnormal value such that the
+ * leading one of the mantissa is at the position of normal values. For
+ * subnormal values this results in an exponent less than one.
+ */
+static void get_normalized(const fp_value *a, sc_word *exp, sc_word *mant)
+{
+	memcpy(exp, _exp(a), value_size);
+	memcpy(mant, _mant(a), value_size);
+	if (a->clss == FC_SUBNORMAL) {
+		const float_descriptor_t *desc = &a->desc;
+		unsigned effective_mantissa = desc->mantissa_size - desc->explicit_one;
+		int      shift = (int)(effective_mantissa + ROUNDING_BITS)
+		               - sc_get_highest_set_bit(mant);
+		sc_shlI(mant, shift, mant);
+		sc_val_from_long(1 - shift, exp);
+	}
+}
+
 void fc_mul(const fp_value *a, const fp_value *b, fp_value *result)
 {
 	fc_exact = true;
@@ -440,18 +460,21 @@ void fc_mul(const fp_value *a, const fp_value *b, fp_value *result)
 		return;
 	}
 
+	sc_word *exp_a  = ALLOCAN(sc_word, value_size);
+	sc_word *mant_a = ALLOCAN(sc_word, value_size);
+	sc_word *exp_b  = ALLOCAN(sc_word, value_size);
+	sc_word *mant_b = ALLOCAN(sc_word, value_size);
+	get_normalized(a, exp_a, mant_a);
+	get_normalized(b, exp_b, mant_b);
+
 	/* exp = exp(a) + exp(b) - excess */
-	sc_add(_exp(a), _exp(b), _exp(result));
+	sc_add(exp_a, exp_b, _exp(result));
 
 	sc_word *temp = ALLOCAN(sc_word, value_size);
 	sc_val_from_ulong((1 << (a->desc.exponent_size - 1)) - 1, temp);
 	sc_sub(_exp(result), temp, _exp(result));
 
-	/* mixed normal, subnormal values introduce an error of 1, correct it */
-	if ((a->clss == FC_SUBNORMAL) ^ (b->clss == FC_SUBNORMAL))
-		sc_inc(_exp(result));
-
-	sc_mul(_mant(a), _mant(b), _mant(result));
+	sc_mul(mant_a, mant_b, _mant(result));
 
 	/* realign result: after a multiplication the digits right of the radix
 	 * point are the sum of the factors' digits after the radix point. As all
@@ -520,16 +543,19 @@ void fc_div(const fp_value *a, const fp_value *b, fp_value *result)
 		return;
 	}
 
+	sc_word *exp_a  = ALLOCAN(sc_word, value_size);
+	sc_word *mant_a = ALLOCAN(sc_word, value_size);
+	sc_word *exp_b  = ALLOCAN(sc_word, value_size);
+	sc_word *mant_b = ALLOCAN(sc_word, value_size);
+	get_normalized(a, exp_a, mant_a);
+	get_normalized(b, exp_b, mant_b);
+
 	/* exp = exp(a) - exp(b) + excess - 1*/
 	sc_word *temp = ALLOCAN(sc_word, value_size);
-	sc_sub(_exp(a), _exp(b), _exp(result));
+	sc_sub(exp_a, exp_b, _exp(result));
 	sc_val_from_ulong((1 << (a->desc.exponent_size - 1)) - 2, temp);
 	sc_add(_exp(result), temp, _exp(result));
 
-	/* mixed normal, subnormal values introduce an error of 1, correct it */
-	if ((a->clss == FC_SUBNORMAL) ^ (b->clss == FC_SUBNORMAL))
-		sc_inc(_exp(result));
-
 	/* mant(res) = mant(a) / 1/2mant(b) */
 	/* to gain more bits of precision in the result the dividend could be
 	 * shifted left, as this operation does not loose bits. This would not
@@ -537,11 +563,11 @@ void fc_div(const fp_value *a, const fp_value *b, fp_value *result)
 	 * are always zero because the values are all normalized) the divisor
 	 * can be shifted right instead to achieve the same result */
 	sc_word *dividend = ALLOCAN(sc_word, value_size);
-	sc_shlI(_mant(a), (result->desc.mantissa_size - result->desc.explicit_one)
-	                  + ROUNDING_BITS, dividend);
+	sc_shlI(mant_a, (result->desc.mantissa_size - result->desc.explicit_one)
+	                + ROUNDING_BITS, dividend);
 
 	sc_word *divisor = ALLOCAN(sc_word, value_size);
-	sc_shrI(_mant(b), 1, divisor);
+	sc_shrI(mant_b, 1, divisor);
 	bool sticky = sc_div(dividend, divisor, _mant(result));
 	fc_exact &= !sticky;
 
@@ -632,7 +658,7 @@ void fc_val_from_bytes(fp_value *result, const unsigned char *buffer,
 
 	/* check for special values */
 	if (sc_is_zero(_exp(result), value_size)) {
-		if (sc_is_zero(_mant(result), value_size)) {
+		if (sc_is_zero(_mant(result), value_size * SC_BITS)) {
 			result->clss = FC_ZERO;
 		} else {
 			result->clss = FC_SUBNORMAL;
-- 
2.43.0


From aed05676480a989cf275e0e693a336ff5a3728e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:21 +0000
Subject: [PATCH 021/109] fix: SSA construction must not replace memory Phis
 that are kept alive already

---
 ir/ir/ircons.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ir/ir/ircons.c b/ir/ir/ircons.c
index 85d1ec7..24cb749 100644
--- a/ir/ir/ircons.c
+++ b/ir/ir/ircons.c
@@ -82,8 +82,9 @@ static void try_remove_unnecessary_phi(ir_node *phi)
 		return;
 
 	/* Do not remove PhiM with self-loops as potentially endless loops are
-	 * observable, see comment in equivalent_node_Phi() to learn more. */
-	if (have_self_loop && get_irn_mode(phi) == mode_M)
+	 * observable, see comment in equivalent_node_Phi() to learn more.
+	 * A PhiM that has been kept alive already has to stay for the same reason. */
+	if (get_irn_mode(phi) == mode_M && (have_self_loop || get_Phi_loop(phi)))
 		return;
 
 	/* if we're here then all phi inputs have been either phi_value
-- 
2.43.0


From 30fc85fec5ad62dee85540f56f32b623ea0abc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:20 +0000
Subject: [PATCH 022/109] fix: x >> x is only zero if no modulo shift is
 performed

---
 ir/opt/iropt.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 9280975..47ebb90 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -534,7 +534,10 @@ static ir_tarval *computed_value_Shr(const ir_node *n)
 
 	if (ta != tarval_unknown && tb != tarval_unknown)
 		return tarval_shr(ta, tb);
-	if (a == b || is_oversize_shift(n))
+	/* x >> x == 0, unless only some bits of the shift amount are used */
+	if (a == b && get_mode_modulo_shift(get_irn_mode(n)) == 0)
+		return get_mode_null(get_irn_mode(n));
+	if (is_oversize_shift(n))
 		return get_mode_null(get_irn_mode(n));
 	return tarval_unknown;
 }
-- 
2.43.0


From 4b8a8df541a210f7df1a08a5d4ba66697d64c336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:35 +0000
Subject: [PATCH 023/109] fix: no reassociation of floating-point constants

---
 ir/opt/iropt.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 47ebb90..ecf4f88 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -2532,6 +2532,11 @@ static ir_node *fold_constant_associativity(ir_node *node, tarval_binop fold)
 	if (!is_Const(right))
 		return node;
 
+	/* floating-point operations are not associative */
+	if (mode_is_float(get_irn_mode(node))
+	    && !ir_imprecise_float_transforms_allowed())
+		return node;
+
 	const ir_op   *op   = get_irn_op(node);
 	const ir_node *left = get_binop_left(node);
 	if (get_irn_op(left) != op)
-- 
2.43.0


From 50849f04a62c0426da925429645c7a89827a8f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:35 +0000
Subject: [PATCH 024/109] fix: a Mux selected by x != 0 does not compute the
 absolute value

---
 ir/opt/iropt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index ecf4f88..9b1a230 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -6554,7 +6554,8 @@ int ir_mux_is_abs(const ir_node *sel, const ir_node *mux_false,
 
 	/* must be <, <=, >=, > */
 	ir_relation relation = get_Cmp_relation(sel);
-	if ((relation & ir_relation_less_greater) == 0)
+	ir_relation less_greater = relation & ir_relation_less_greater;
+	if (less_greater != ir_relation_less && less_greater != ir_relation_greater)
 		return 0;
 
 	if (!ir_is_negated_value(mux_true, mux_false))
-- 
2.43.0


From 7562ba6b4a8a8401175c740b0c5dc2456c1fafe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:18 +0000
Subject: [PATCH 025/109] fix: abs pattern of Mux only for signed compares

---
 ir/opt/iropt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 9b1a230..2b4440e 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -6569,7 +6569,11 @@ int ir_mux_is_abs(const ir_node *sel, const ir_node *mux_false,
 	if (!is_irn_null(cmp_right))
 		return 0;
 
+	/* unsigned values have no sign to remove */
 	ir_node *cmp_left = get_Cmp_left(sel);
+	if (!mode_is_signed(get_irn_mode(cmp_left)))
+		return 0;
+
 	if (cmp_left == mux_false) {
 		if (relation & ir_relation_less) {
 			return 1;
-- 
2.43.0


From 56ab55a2a7afcca0fe934ddb858d276589b60163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:31 +0000
Subject: [PATCH 026/109] fix: combine relations only of compares with the same
 operands

---
 ir/opt/iropt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 2b4440e..1b144fc 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -2636,7 +2636,7 @@ static ir_node *transform_node_Or_(ir_node *n)
 		ir_node *a_right = get_Cmp_right(a);
 		ir_node *b_left  = get_Cmp_left(b);
 		ir_node *b_right = get_Cmp_right(b);
-		if (a_left == b_left && b_left == b_right) {
+		if (a_left == b_left && a_right == b_right) {
 			dbg_info   *dbgi         = get_irn_dbg_info(n);
 			ir_node    *block        = get_nodes_block(n);
 			ir_relation a_relation   = get_Cmp_relation(a);
@@ -2762,7 +2762,7 @@ static ir_node *transform_node_Eor_(ir_node *n)
 		ir_node       *a_right = get_Cmp_right(a);
 		const ir_node *b_left  = get_Cmp_left(b);
 		const ir_node *b_right = get_Cmp_right(b);
-		if (a_left == b_left && b_left == b_right) {
+		if (a_left == b_left && a_right == b_right) {
 			dbg_info   *dbgi         = get_irn_dbg_info(n);
 			ir_node    *block        = get_nodes_block(n);
 			ir_relation a_relation   = get_Cmp_relation(a);
@@ -4359,7 +4359,7 @@ static ir_node *transform_node_And(ir_node *n)
 		ir_relation b_relation = get_Cmp_relation(b);
 		/* we can combine the relations of two compares with the same
 		 * operands */
-		if (a_left == b_left && b_left == b_right) {
+		if (a_left == b_left && a_right == b_right) {
 			dbg_info   *dbgi         = get_irn_dbg_info(n);
 			ir_node    *block        = get_nodes_block(n);
 			ir_relation new_relation = a_relation & b_relation;
-- 
2.43.0


From 22ffddc539dcb99d7d3550e8949d7da3e49f03db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:46 +0000
Subject: [PATCH 027/109] fix: infinities compare greater than the greatest
 floating-point number

---
 ir/opt/iropt.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 1b144fc..80abacc 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -701,14 +701,17 @@ ir_relation ir_get_possible_cmp_relations(const ir_node *left,
 	 * greater than the greatest representable number */
 	ir_tarval       *min = get_mode_min(mode);
 	const ir_tarval *max = get_mode_max(mode);
-	if (tv_l == min)
-		possible &= ~ir_relation_greater;
-	if (tv_l == max)
-		possible &= ~ir_relation_less;
-	if (tv_r == max)
-		possible &= ~ir_relation_greater;
-	if (tv_r == min)
-		possible &= ~ir_relation_less;
+	/* infinities are beyond the least and greatest floating-point numbers */
+	if (!mode_is_float(mode)) {
+		if (tv_l == min)
+			possible &= ~ir_relation_greater;
+		if (tv_l == max)
+			possible &= ~ir_relation_less;
+		if (tv_r == max)
+			possible &= ~ir_relation_greater;
+		if (tv_r == min)
+			possible &= ~ir_relation_less;
+	}
 
 	/* Try to use bit information. */
 	const bitinfo *const bl = get_bitinfo(left);
-- 
2.43.0


From 148c9f6213b0c0008722c1111a100d3380970c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:37 +0000
Subject: [PATCH 028/109] fix: do not reassociate the constants of a
 floating-point Sub and Add

---
 ir/opt/iropt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 80abacc..9be94e3 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -3096,7 +3096,8 @@ static ir_node *transform_node_Add(ir_node *n)
 					return new_rd_Confirm(dbgi, block, add, cnst, ir_relation_less_equal);
 				}
 			}
-		} else if (is_Sub(a)) {
+		} else if (is_Sub(a)
+		           && (!mode_is_float(mode) || ir_imprecise_float_transforms_allowed())) {
 			const ir_node *sub_l = get_Sub_left(a);
 			ir_tarval     *ts    = value_of(sub_l);
 
-- 
2.43.0


From 7f2523eb405d8262272895986679b20bd2f2a081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:37 +0000
Subject: [PATCH 029/109] fix: compares with a constant in a smaller mode only
 if the mode can represent it

---
 ir/opt/iropt.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 9be94e3..ea87e3c 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -5269,7 +5269,9 @@ cmp_x_eq_0:
 			tarval_set_wrap_on_overflow(false);
 			ir_tarval *new_tv = tarval_convert_to(tv, mode_left);
 			tarval_set_wrap_on_overflow(old_wrap_on_overflow);
-			if (tarval_is_constant(new_tv)) {
+			/* the smaller mode has to be able to represent the constant */
+			if (tarval_is_constant(new_tv)
+			    && tarval_convert_to(new_tv, mode) == tv) {
 				left    = op_left;
 				right   = new_r_Const(irg, new_tv);
 				changed = true;
-- 
2.43.0


From ca72205d8e0e4caebcbdc9cad8ac6f93337d8aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:18 +0000
Subject: [PATCH 030/109] fix: an oversized Shrs shifts by the size of the
 value, not of the amount

---
 ir/opt/iropt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index ea87e3c..4f3e97a 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -6258,7 +6258,7 @@ static ir_node *transform_node_Shrs(ir_node *n)
 		ir_node  *block = get_nodes_block(n);
 		dbg_info *dbgi  = get_irn_dbg_info(n);
 		ir_mode  *cmode = get_irn_mode(b);
-		long      val   = get_mode_size_bits(cmode)-1;
+		long      val   = get_mode_size_bits(mode)-1;
 		ir_graph *irg   = get_irn_irg(n);
 		ir_node  *cnst  = new_r_Const_long(irg, cmode, val);
 		return new_rd_Shrs(dbgi, block, a, cnst);
-- 
2.43.0


From 75d66f1f7aed7b2fa61b0240824ca00a3df4ccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:00 +0000
Subject: [PATCH 031/109] fix: gvn-pre must not ask for the block of the Anchor

---
 ir/opt/gvn_pre.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ir/opt/gvn_pre.c b/ir/opt/gvn_pre.c
index 6b5e0bc..b308e5c 100644
--- a/ir/opt/gvn_pre.c
+++ b/ir/opt/gvn_pre.c
@@ -1562,6 +1562,10 @@ static void hoist_high(ir_node *block, void *ctx)
 						ir_node *succ = get_edge_src_irn(edge);
 						DB((dbg, LEVEL_4, "testing succ %+F\n", succ));
 
+						/* the Anchor is in no block and no real user */
+						if (is_Anchor(succ))
+							continue;
+
 						/* check only successors on current path to end */
 						if (block_dominates(dom, get_nodes_block(succ))) {
 							ir_node *succ_value = identify(succ);
-- 
2.43.0


From e6f7e1cc38d0aec9a195642cae177ef9baeaf353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:00 +0000
Subject: [PATCH 032/109] fix: Phi cycle removal must not remove memory Phis
 that are kept alive

---
 ir/opt/opt_osr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ir/opt/opt_osr.c b/ir/opt/opt_osr.c
index 633b044..4f93f63 100644
--- a/ir/opt/opt_osr.c
+++ b/ir/opt/opt_osr.c
@@ -775,7 +775,8 @@ static void remove_phi_cycle(scc *pscc, iv_env *env)
 		node_entry *e = get_irn_ne(irn, env);
 
 		next = e->next;
-		if (!is_Phi(irn))
+		/* PhiM loops are kept alive and must not be removed */
+		if (!is_Phi(irn) || get_Phi_loop(irn))
 			return;
 
 		foreach_irn_in_r(irn, i, pred) {
-- 
2.43.0


From 9539db2260317a0ef45d57384d90be3181ce2ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:00 +0000
Subject: [PATCH 033/109] fix: local optimization leaves replaced nodes in the
 out edges

---
 ir/opt/convopt.c | 3 +--
 ir/opt/irgopt.c  | 5 +++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ir/opt/convopt.c b/ir/opt/convopt.c
index 82c4d90..64fff12 100644
--- a/ir/opt/convopt.c
+++ b/ir/opt/convopt.c
@@ -277,14 +277,13 @@ void conv_opt(ir_graph *irg)
 {
 	FIRM_DBG_REGISTER(dbg, "firm.opt.conv");
 
-	assure_irg_properties(irg, IR_GRAPH_PROPERTY_CONSISTENT_OUT_EDGES);
-
 	DB((dbg, LEVEL_1, "===> Performing conversion optimization on %+F\n", irg));
 
 	bool global_changed = false;
 	bool changed;
 	do {
 		changed = false;
+		assure_irg_properties(irg, IR_GRAPH_PROPERTY_CONSISTENT_OUT_EDGES);
 		irg_walk_graph(irg, NULL, conv_opt_walker, &changed);
 		if (changed)
 			local_optimize_graph(irg);
diff --git a/ir/opt/irgopt.c b/ir/opt/irgopt.c
index cf88a02..5ed2006 100644
--- a/ir/opt/irgopt.c
+++ b/ir/opt/irgopt.c
@@ -124,6 +124,11 @@ static void find_unreachable_blocks(ir_node *block, void *env)
 void local_optimize_graph(ir_graph *irg)
 {
 	local_optimize_node(get_irg_end(irg));
+
+	/* replaced nodes are not removed from the out edges */
+	confirm_irg_properties(irg, IR_GRAPH_PROPERTY_ONE_RETURN
+	                            | IR_GRAPH_PROPERTY_MANY_RETURNS
+	                            | IR_GRAPH_PROPERTY_NO_CRITICAL_EDGES);
 }
 
 /**
-- 
2.43.0


From 8fe14018fff8051aa84c65b16ccb6134f1cc3f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:00 +0000
Subject: [PATCH 034/109] fix: global CSE has to cope with dominance
 invalidated while optimizing

---
 ir/opt/iropt.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 4f3e97a..d3faf44 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -7825,7 +7825,14 @@ static int identities_cmp(const void *elt, const void *key)
 			 * to be worse in practice than the missed opportunities.
 			 * So we use a very conservative variant here and only CSE if one value dominates the
 			 * other or one value postdominates the common dominator. */
-			if (!block_dominates(block_a, block_b)
+			if (block_a != block_b
+			 && !irg_has_properties(get_irn_irg(a), IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE
+			                                      | IR_GRAPH_PROPERTY_CONSISTENT_POSTDOMINANCE)) {
+				/* A control flow optimization just invalidated the dominance information. */
+				return 1;
+			}
+			if (block_a != block_b
+			 && !block_dominates(block_a, block_b)
 			 && !block_dominates(block_b, block_a)) {
 				if (get_Block_dom_depth(block_a) < 0
 				 || get_Block_dom_depth(block_b) < 0)
-- 
2.43.0


From c47d2f56051aca598ca529f64dbae367a9afd2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:58 +0000
Subject: [PATCH 035/109] fix: n_returns must not leave users of removed Phis
 in unreachable code

---
 ir/opt/return.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ir/opt/return.c b/ir/opt/return.c
index 044d3ca..39547f5 100644
--- a/ir/opt/return.c
+++ b/ir/opt/return.c
@@ -201,6 +201,10 @@ static bool can_move_ret(ir_node *ret)
  */
 void normalize_n_returns(ir_graph *irg)
 {
+	/* A Return in unreachable code may use a Phi of a block which loses all
+	 * its predecessors below. */
+	assure_irg_properties(irg, IR_GRAPH_PROPERTY_NO_UNREACHABLE_CODE);
+
 	/* First, link all returns:
 	 * These must be predecessors of the endblock.
 	 * Place Returns that can be moved on list, all others
-- 
2.43.0


From 387073617116e458a2d0ffa0576f730eab863979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:58 +0000
Subject: [PATCH 036/109] fix: do not follow cycles of Confirms in unreachable
 code

---
 ir/opt/iropt.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index d3faf44..0b15a6c 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -1750,13 +1750,14 @@ static ir_node *equivalent_node_Confirm(ir_node *n)
 	if (relation == ir_relation_equal)
 		return pred;
 
-	while (is_Confirm(pred) && relation == get_Confirm_relation(pred)) {
+	if (is_Confirm(pred) && relation == get_Confirm_relation(pred)) {
 		/*
 		 * rare case: two identical Confirms one after another,
 		 * replace the second one with the first.
+		 * Note: Confirms may form a cycle in unreachable code, so do not
+		 * follow them any further.
 		 */
-		n    = pred;
-		pred = get_Confirm_value(n);
+		return pred;
 	}
 	return n;
 }
-- 
2.43.0


From 0e295f91dfcdecdcd52d677ff34a5dd46dffed74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:58 +0000
Subject: [PATCH 037/109] fix: jump threading copied nodes twice

---
 ir/opt/jumpthreading.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ir/opt/jumpthreading.c b/ir/opt/jumpthreading.c
index 2797e94..110b6b6 100644
--- a/ir/opt/jumpthreading.c
+++ b/ir/opt/jumpthreading.c
@@ -287,6 +287,9 @@ static void copy_and_fix(const jumpthreading_env_t *env, ir_node *block,
 			continue;
 		}
 #endif
+		/* nodes may have been copied along with one of their users already */
+		if (get_irn_visited(node) >= env->visited_nr)
+			continue;
 		ir_node *copy = copy_and_fix_node(env, block, copy_block, j, node);
 
 		/* we might hit values in blocks that have already been processed by a
@@ -438,8 +441,6 @@ static ir_node *find_const_or_confirm(jumpthreading_env_t *env, ir_node *jump,
 	}
 
 	if (is_Phi(value)) {
-		assert(get_irn_arity(value) > 1);
-
 		/* the Phi has to be in the same Block as the Jmp */
 		if (get_nodes_block(value) != block)
 			return NULL;
-- 
2.43.0


From 206dda5e5edf5cba53975182c6da442945dc15cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:06 +0000
Subject: [PATCH 038/109] fix: reassociation must not treat both operands of x
 - x as subtrahend

---
 ir/opt/reassoc.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/ir/opt/reassoc.c b/ir/opt/reassoc.c
index 145227c..f876919 100644
--- a/ir/opt/reassoc.c
+++ b/ir/opt/reassoc.c
@@ -1110,6 +1110,19 @@ static void add_to_And_Or_set(multi_op_env *multi_env, ir_node *node, multi_op *
 	}
 }
 
+/**
+ * Returns true iff the given Sub can be seen as an Add.
+ */
+static bool is_supported_Sub(ir_node *node)
+{
+	ir_node *left  = get_Sub_left(node);
+	ir_node *right = get_Sub_right(node);
+	/* the operands of x - x cannot be told apart */
+	return left != right
+	    && !mode_is_reference(get_irn_mode(left))
+	    && !mode_is_reference(get_irn_mode(right));
+}
+
 /**
  * Adds a node to a Add set, with given entry. The entry is the user of the node and indicates it's value.
  * Example: In 3*(x + y) is 3 the value of (x+y) and * is the entry.
@@ -1147,8 +1160,7 @@ static void add_to_Add_set(multi_op_env *multi_env, ir_node *node, multi_op *set
 		pset_insert_ptr(set->nodes, node);
 		pmap_insert(multi_env->set_map, node, set);
 		pmap_insert(set->edge_value, node, val);
-	} else if ((op == op_Add || (op == op_Sub && !mode_is_reference(get_irn_mode(get_Sub_right(node)))
-		       && !mode_is_reference(get_irn_mode(get_Sub_left(node))))) && mode == base_mode) {
+	} else if ((op == op_Add || (op == op_Sub && is_supported_Sub(node))) && mode == base_mode) {
 		/* add Add or Sub to set */
 		assert(!entry);
 		assert(!pset_find_ptr(set->nodes, node));
@@ -1359,8 +1371,7 @@ static bool is_supported_node(ir_node *node)
 	case iro_Add:
 		return true;
 	case iro_Sub:
-		return !mode_is_reference(get_irn_mode(get_Sub_left(node)))
-		    && !mode_is_reference(get_irn_mode(get_Sub_right(node)));
+		return is_supported_Sub(node);
 	case iro_Mul:
 		return is_scalar_Mul(node);
 	default:
-- 
2.43.0


From 7a837f363557f4ac58be01df630241cbe0a6b184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:53 +0000
Subject: [PATCH 039/109] fix: reassociation dropped both factors of a product
 of constants

---
 ir/opt/reassoc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ir/opt/reassoc.c b/ir/opt/reassoc.c
index f876919..aeccd81 100644
--- a/ir/opt/reassoc.c
+++ b/ir/opt/reassoc.c
@@ -1077,7 +1077,8 @@ static void destroy_multi_op(multi_op *o)
  */
 static bool is_scalar_Mul(ir_node *node)
 {
-	return is_Mul(node) && (is_Const(get_Mul_left(node)) || is_Const(get_Mul_right(node)));
+	/* the scalar and the factor of a Mul of two constants cannot be told apart */
+	return is_Mul(node) && is_Const(get_Mul_left(node)) != is_Const(get_Mul_right(node));
 }
 
 /**
-- 
2.43.0


From 040055ac54ddff94f92fc5877b25a26dee638ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:12 +0000
Subject: [PATCH 040/109] fix: do not turn Or and Eor in mode_b into Add

---
 ir/opt/iropt.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 0b15a6c..e6f9ac4 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -55,7 +55,9 @@ int ir_imprecise_float_transforms_allowed(void)
  * the same result. */
 static bool is_Or_Eor_Add(const ir_node *node)
 {
-	if (is_Or(node) || is_Eor(node) || is_Add(node)) {
+	/* there is no Add in mode_b */
+	if ((is_Or(node) || is_Eor(node) || is_Add(node))
+	    && get_irn_mode(node) != mode_b) {
 		const ir_node *const left  = get_binop_left(node);
 		const ir_node *const right = get_binop_right(node);
 		const bitinfo *const bl    = get_bitinfo(left);
-- 
2.43.0


From c7d644fe8059b79029001ad9b955e1c45edd2c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:48 +0000
Subject: [PATCH 041/109] fix: Mulh is not associative

---
 ir/opt/reassoc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ir/opt/reassoc.c b/ir/opt/reassoc.c
index aeccd81..0de7f00 100644
--- a/ir/opt/reassoc.c
+++ b/ir/opt/reassoc.c
@@ -559,7 +559,8 @@ static void reverse_rules(ir_node *node, void *env)
 		res = false;
 
 		ir_op *op = get_irn_op(node);
-		if (is_op_commutative(op)) {
+		/* Mulh is commutative, but not associative */
+		if (is_op_commutative(op) && op != op_Mulh) {
 			res = move_consts_up(&node);
 		}
 		/* beware: move_consts_up might have changed the opcode, check again */
-- 
2.43.0


From b9b47d3cc0932fa21b69cd8bb8e9d437e85b40c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:48 +0000
Subject: [PATCH 042/109] fix: a load may cover more than a zero-initialized
 part of a constant entity

---
 ir/opt/iropt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index e6f9ac4..35a1dcb 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -7393,6 +7393,9 @@ static ir_node *extract_from_initializer(const ir_type *type,
 	ir_tarval *tv;
 	switch (get_initializer_kind(initializer)) {
 	case IR_INITIALIZER_NULL:
+		/* the load may cover more than this part of the entity */
+		if (offset + get_mode_size_bytes(mode) > size)
+			return NULL;
 		return new_r_Const_null(irg, mode);
 
 	case IR_INITIALIZER_TARVAL: {
-- 
2.43.0


From a758dac278f8eb2625b0d3223ca91a122831a101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:10 +0000
Subject: [PATCH 043/109] fix: no linear function test replacement with a
 factor of zero

---
 ir/opt/opt_osr.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ir/opt/opt_osr.c b/ir/opt/opt_osr.c
index 4f93f63..a507758 100644
--- a/ir/opt/opt_osr.c
+++ b/ir/opt/opt_osr.c
@@ -996,9 +996,10 @@ static ir_node *apply_one_edge(ir_node *iv, ir_node *rc, ldtr_edge_t *e,
 		ir_tarval *tv_l = get_Const_tarval(rc);
 		ir_tarval *tv_r = get_Const_tarval(e->rc);
 
-		/* A negative factor would reverse the relation of the Cmp. */
-		if (e->code == iro_Mul && tarval_is_negative(tv_r)) {
-			DB((dbg, LEVEL_4, " = negative factor"));
+		/* A negative factor would reverse the relation of the Cmp, zero would
+		 * make both operands equal. */
+		if (e->code == iro_Mul && (tarval_is_negative(tv_r) || tarval_is_null(tv_r))) {
+			DB((dbg, LEVEL_4, " = factor is not positive"));
 			return NULL;
 		}
 
-- 
2.43.0


From 0b506433e4e3c32f254297017b0f7c53e284b354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:27 +0000
Subject: [PATCH 044/109] fix: operator strength reduction must not find dead
 nodes with stale links

---
 ir/opt/opt_osr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ir/opt/opt_osr.c b/ir/opt/opt_osr.c
index a507758..6403897 100644
--- a/ir/opt/opt_osr.c
+++ b/ir/opt/opt_osr.c
@@ -25,6 +25,7 @@
 #include "irhooks.h"
 #include "irloop_t.h"
 #include "irop_t.h"
+#include "iropt_t.h"
 #include "iroptimize.h"
 #include "irouts.h"
 #include "irtools.h"
@@ -1337,6 +1338,9 @@ void opt_osr(ir_graph *irg, unsigned flags)
 	 * This can improve the placement of new nodes.
 	 */
 	ir_reserve_resources(irg, IR_RESOURCE_IRN_LINK);
+	/* CSE must not find dead nodes: the walker does not reach them, so they may
+	 * have stale links. */
+	new_identities(irg);
 	irg_walk_graph(irg, NULL, firm_clear_link, NULL);
 
 	irg_block_edges_walk(get_irg_start_block(irg), NULL, assign_po, &env);
-- 
2.43.0


From f6a75d32cb114e100d6fb46cd3b3c1399b3a2c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:27 +0000
Subject: [PATCH 045/109] fix: combining memory operations leaves replaced
 nodes in the out edges

---
 ir/opt/ldstopt.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ir/opt/ldstopt.c b/ir/opt/ldstopt.c
index 7c76a23..3b13728 100644
--- a/ir/opt/ldstopt.c
+++ b/ir/opt/ldstopt.c
@@ -2291,6 +2291,11 @@ void combine_memops(ir_graph *irg)
 		return;
 
 	irg_walk_graph(irg, combine_memop, NULL, NULL);
+
+	/* The replaced nodes are dead but still in the out edges. */
+	confirm_irg_properties(irg, IR_GRAPH_PROPERTIES_CONTROL_FLOW
+	                          | IR_GRAPH_PROPERTY_NO_TUPLES
+	                          | IR_GRAPH_PROPERTY_NO_BADS);
 }
 
 void optimize_load_store(ir_graph *irg)
-- 
2.43.0


From c36e1cdea3c22176a43eebc50e420eb590ee8fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:04 +0000
Subject: [PATCH 046/109] fix: no multiply high narrower than 32 bit for
 divisions by constants

No code generator has one: ia32 panics, amd64 takes the upper half of the
32 bit product.
---
 ir/ir/irarch.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ir/ir/irarch.c b/ir/ir/irarch.c
index 6e4fe64..e972653 100644
--- a/ir/ir/irarch.c
+++ b/ir/ir/irarch.c
@@ -48,7 +48,9 @@ void ir_arch_lower(ir_settings_arch_dep_t const *const new_settings)
 /** check, whether a mode allows a Mulh instruction. */
 static bool allow_Mulh(ir_mode *mode)
 {
-	if (get_mode_size_bits(mode) > settings.max_bits_for_mulh)
+	/* no target can take the upper half of a product narrower than 32 bit */
+	unsigned const bits = get_mode_size_bits(mode);
+	if (bits < 32 || bits > settings.max_bits_for_mulh)
 		return false;
 	return mode_is_signed(mode) ? settings.allow_mulhs : settings.allow_mulhu;
 }
-- 
2.43.0


From 30c2c001c341ac7c3b15aff3c716f46747b7819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:22 +0000
Subject: [PATCH 047/109] fix: amd64 float to unsigned long rewrite of
 constants

The Phi might be optimized away, then there is nothing to collect.
---
 ir/be/amd64/amd64_bearch.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ir/be/amd64/amd64_bearch.c b/ir/be/amd64/amd64_bearch.c
index f6258f6..d972f33 100644
--- a/ir/be/amd64/amd64_bearch.c
+++ b/ir/be/amd64/amd64_bearch.c
@@ -313,7 +313,9 @@ static void rewrite_float_unsigned_Conv(ir_node *node)
 	set_irn_in(lower_block, ARRAY_SIZE(lower_in), lower_in);
 	ir_node *phi = new_r_Phi(lower_block, ARRAY_SIZE(phi_in), phi_in,
 	                         dest_mode);
-	collect_new_phi_node(phi);
+	/* the Phi might have been optimized away */
+	if (is_Phi(phi) && get_nodes_block(phi) == lower_block)
+		collect_new_phi_node(phi);
 	exchange(node, phi);
 }
 
-- 
2.43.0


From 4f46539d2f0959b1cad1a40272684402ac1f26c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:22 +0000
Subject: [PATCH 048/109] fix: amd64 division does not extend operands narrower
 than 32 bit

---
 ir/be/amd64/amd64_transform.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ir/be/amd64/amd64_transform.c b/ir/be/amd64/amd64_transform.c
index a8048a8..a390533 100644
--- a/ir/be/amd64/amd64_transform.c
+++ b/ir/be/amd64/amd64_transform.c
@@ -1320,6 +1320,9 @@ static ir_node *gen_Shrs(ir_node *const node)
 	                       match_immediate);
 }
 
+static ir_node *extend_if_necessary(dbg_info *dbgi, ir_node *block,
+                                    ir_node *value);
+
 static ir_node *create_div(ir_node *const node, ir_mode *const mode,
                            ir_node *const op1, ir_node *const op2,
                            ir_node *const mem)
@@ -1328,8 +1331,9 @@ static ir_node *create_div(ir_node *const node, ir_mode *const mode,
 	ir_node        *const new_block = be_transform_nodes_block(node);
 	x86_insn_size_t const size      = get_size_32_64_from_mode(mode);
 
-	ir_node *const new_op1 = be_transform_node(op1);
-	ir_node *const new_op2 = be_transform_node(op2);
+	/* division operates on at least 32 bits */
+	ir_node *const new_op1 = extend_if_necessary(dbgi, new_block, op1);
+	ir_node *const new_op2 = extend_if_necessary(dbgi, new_block, op2);
 	ir_node *const new_mem = be_transform_node(mem);
 	ir_node *upper_value;
 	ir_node *(*constructor)(dbg_info*, ir_node*, int, ir_node *const*,
-- 
2.43.0


From 003ee78634a3b5469811024458917b7215c34db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:22 +0000
Subject: [PATCH 049/109] fix: amd64 float to signed 64 bit conversion converts
 to 32 bit

The size of the conversion is the size of the result, cvttss2si with a 32 bit
register does not sign extend into the upper half.
---
 ir/be/amd64/amd64_transform.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ir/be/amd64/amd64_transform.c b/ir/be/amd64/amd64_transform.c
index a390533..3a86d67 100644
--- a/ir/be/amd64/amd64_transform.c
+++ b/ir/be/amd64/amd64_transform.c
@@ -2659,10 +2659,13 @@ static ir_node *gen_Conv(ir_node *const node)
 	} else if (src_float && !dst_float) {
 		/* float to int */
 
-		if (!mode_is_signed(dst_mode) && dst_bits <= 32) {
+		if (mode_is_signed(dst_mode)) {
+			/* the size is the size of the result, not that of the operand */
+			size = dst_bits == 64 ? X86_SIZE_64 : X86_SIZE_32;
+		} else if (dst_bits <= 32) {
 			/* The conversion is signed only; simply use 64-bit register*/
 			size = X86_SIZE_64;
-		} else if (!mode_is_signed(dst_mode) && dst_bits == 64) {
+		} else {
 			panic("cannot convert floating point to 64-bit unsigned");
 		}
 
-- 
2.43.0


From 27d3611f06ee4e22aef7d954aa0a8eca18f5df69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:33 +0000
Subject: [PATCH 050/109] fix: modulo by a constant in bad code

replace_div_by_mulh() returns the Mod itself, if the operand is Bad.
---
 ir/ir/irarch.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ir/ir/irarch.c b/ir/ir/irarch.c
index e972653..bc68914 100644
--- a/ir/ir/irarch.c
+++ b/ir/ir/irarch.c
@@ -1047,6 +1047,8 @@ ir_node *arch_dep_replace_mod_by_const(ir_node *irn)
 	/* other constant */
 	} else if (allow_Mulh(mode)) {
 		res = replace_div_by_mulh(irn, tv);
+		if (res == irn) /* bad code */
+			return irn;
 		res = new_rd_Mul(dbg, block, res, c);
 		res = new_rd_Sub(dbg, block, left, res);
 	}
-- 
2.43.0


From d2f5b2a95226d6b1ecb465174c90f27a19d539d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:33 +0000
Subject: [PATCH 051/109] fix: soft float lowering of conversions and divisions

- the Conv operand and result might have integer modes, which only are
  equivalent to the modes of the parameters of the library functions (like the
  ones of the arm target)
- the memory of a division must not get lost, the library function does not
  access memory
- the second walk changes the graph, too
---
 ir/lower/lower_softfloat.c | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/ir/lower/lower_softfloat.c b/ir/lower/lower_softfloat.c
index 31c3687..7b6c67d 100644
--- a/ir/lower/lower_softfloat.c
+++ b/ir/lower/lower_softfloat.c
@@ -82,12 +82,12 @@ static ir_mode *get_lowered_mode(ir_mode *mode)
  */
 static void lower_mode(ir_node *n, void *env)
 {
-	(void)env;
 	ir_op                *op         = get_irn_op(n);
 	lower_softfloat_func  lower_func = (lower_softfloat_func) op->ops.generic;
 	ir_mode              *mode       = get_irn_mode(n);
 	if (lower_func != NULL) {
-		lower_func(n);
+		bool *changed = (bool*)env;
+		*changed |= lower_func(n);
 		return;
 	}
 
@@ -248,15 +248,18 @@ static ir_node *create_softfloat_address(const ir_node *n, const char *name)
 
 	/* Result type. */
 	char     const *result = "";
-	ir_mode *const  mode   = is_Div(n) ? get_Div_resmode(n) : get_irn_mode(n);
+	/* A Conv might have an integer mode, which only is equivalent to the mode
+	 * used by the function. */
+	ir_mode *const  mode   = is_Div(n)  ? get_Div_resmode(n) :
+	                         is_Conv(n) ? get_type_mode(get_method_res_type(method, 0)) :
+	                         get_irn_mode(n);
 	if (mode == mode_F) {
 		result = float_types > 0 ? "" : "sf";
 		float_types++;
 	} else if (mode == mode_D) {
 		result = double_types > 0 ? "" : "df";
 		double_types++;
-	} else if (mode == mode_Iu || mode == mode_Hu || mode == mode_Bu ||
-	           mode == mode_Is || mode == mode_Hs || mode == mode_Bs)
+	} else if (mode == mode_Iu || mode == mode_Is)
 		result = "si";
 	else if (mode == mode_Lu || mode == mode_Ls)
 		result = "di";
@@ -556,16 +559,13 @@ static bool lower_Conv(ir_node *const n)
 		else
 			name = "fixuns";
 	} else if (!mode_is_float(op_mode)) {
-		ir_mode *min_mode;
-		if (mode_is_signed(op_mode)) {
-			name     = "float";
-			min_mode = mode_Is;
-		} else {
-			name     = "floatun";
-			min_mode = mode_Iu;
-		}
-		if (get_mode_size_bits(op_mode) < get_mode_size_bits(min_mode)) {
-			op_mode = min_mode;
+		name = mode_is_signed(op_mode) ? "float" : "floatun";
+		/* the operand might be narrower than the parameter or of a mode, which
+		 * only is equivalent to the mode of the parameter */
+		ir_type *const method     = get_softfloat_type(n);
+		ir_mode *const param_mode = get_type_mode(get_method_param_type(method, 0));
+		if (op_mode != param_mode) {
+			op_mode = param_mode;
 			op      = new_rd_Conv(dbgi, block, op, op_mode);
 		}
 	} else {
@@ -634,8 +634,8 @@ static bool lower_Div(ir_node *const n)
 
 		switch ((pn_Div)get_Proj_num(proj)) {
 		case pn_Div_M:
-			set_Proj_pred(proj, call);
-			set_Proj_num(proj, pn_Call_M);
+			/* The called function does not access memory. */
+			exchange(proj, get_Div_mem(n));
 			continue;
 		case pn_Div_X_regular:
 			set_Proj_pred(proj, call);
-- 
2.43.0


From 7891830bfb88d817c153437b12b2b9ce88882266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:43 +0000
Subject: [PATCH 052/109] fix: ia32 with fpmath=sse or softfloat has no mode
 for the x87 registers

---
 ir/be/ia32/ia32_bearch.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ir/be/ia32/ia32_bearch.c b/ir/be/ia32/ia32_bearch.c
index e6dc546..847b4fb 100644
--- a/ir/be/ia32/ia32_bearch.c
+++ b/ir/be/ia32/ia32_bearch.c
@@ -1354,10 +1354,10 @@ static void ia32_init(void)
 	ir_target.float_int_overflow       = ir_overflow_indefinite;
 	ir_platform_set_va_list_type_pointer();
 
-	if (!ia32_cg_config.use_sse2 && !ia32_cg_config.use_softfloat) {
-		ir_type *const type_f80 = x86_init_x87_type();
+	/* the x87 registers always need a mode (e.g. for float return values) */
+	ir_type *const type_f80 = x86_init_x87_type();
+	if (!ia32_cg_config.use_sse2 && !ia32_cg_config.use_softfloat)
 		ir_target.mode_float_arithmetic = get_type_mode(type_f80);
-	}
 
 	ia32_register_init();
 	obstack_init(&opcodes_obst);
-- 
2.43.0


From dda4dfb796241db5bbe3b685cda81a96e5cf3c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:46 +0000
Subject: [PATCH 053/109] fix: memory chain lost at divisions looked at twice

transform_node_Proj_Div/Mod removed the memory edge of the division in
place, so a second look at the same memory Proj yielded NoMem.
---
 ir/opt/iropt.c | 51 +++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 5 deletions(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 35a1dcb..6e84881 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -4914,13 +4914,33 @@ static ir_node *transform_node_Proj_Div(ir_node *proj)
 			ir_node  *res     = get_Div_mem(div);
 			ir_node  *new_mem = get_irg_no_mem(irg);
 
+			/* The memory edge is already removed. */
+			if (is_NoMem(skip_Pin(res)))
+				return res;
+
 			/* This node can only float up to the Confirm block */
 			if (confirm)
 				new_mem = new_r_Pin(get_nodes_block(confirm), new_mem);
 
-			set_irn_pinned(div, false);
-			/* this is a Div without exception, we can remove the memory edge */
-			set_Div_mem(div, new_mem);
+			/* This is a Div without exception, we can remove the memory edge.
+			 * The Proj may be looked at again before it is replaced, so the old
+			 * memory has to stay reachable through the old node. */
+			ir_node *const block   = get_nodes_block(div);
+			ir_node *const new_div = exact_copy(div);
+			set_Div_mem(new_div, new_mem);
+			set_irn_pinned(new_div, false);
+			ir_set_throws_exception(new_div, false);
+
+			bool     const throws  = ir_throws_exception(div);
+			ir_mode *const mode    = get_Div_resmode(div);
+			ir_node *const bad     = new_r_Bad(irg, mode_X);
+			ir_node *const in[]    = {
+				[pn_Div_M]         = res,
+				[pn_Div_res]       = new_r_Proj(new_div, mode, pn_Div_res),
+				[pn_Div_X_regular] = throws ? new_r_Jmp(block) : bad,
+				[pn_Div_X_except]  = bad,
+			};
+			turn_into_tuple(div, ARRAY_SIZE(in), in);
 			return res;
 		}
 		}
@@ -4966,12 +4986,33 @@ static ir_node *transform_node_Proj_Mod(ir_node *proj)
 			ir_node  *res     = get_Mod_mem(mod);
 			ir_node  *new_mem = get_irg_no_mem(irg);
 
+			/* The memory edge is already removed. */
+			if (is_NoMem(skip_Pin(res)))
+				return res;
+
 			/* This node can only float up to the Confirm block */
 			if (confirm)
 				new_mem = new_r_Pin(get_nodes_block(confirm), new_mem);
 
-			/* this is a Mod without exception, we can remove the memory edge */
-			set_Mod_mem(mod, new_mem);
+			/* This is a Mod without exception, we can remove the memory edge.
+			 * The Proj may be looked at again before it is replaced, so the old
+			 * memory has to stay reachable through the old node. */
+			ir_node *const block   = get_nodes_block(mod);
+			ir_node *const new_mod = exact_copy(mod);
+			set_Mod_mem(new_mod, new_mem);
+			set_irn_pinned(new_mod, false);
+			ir_set_throws_exception(new_mod, false);
+
+			bool     const throws  = ir_throws_exception(mod);
+			ir_mode *const mode    = get_Mod_resmode(mod);
+			ir_node *const bad     = new_r_Bad(irg, mode_X);
+			ir_node *const in[]    = {
+				[pn_Mod_M]         = res,
+				[pn_Mod_res]       = new_r_Proj(new_mod, mode, pn_Mod_res),
+				[pn_Mod_X_regular] = throws ? new_r_Jmp(block) : bad,
+				[pn_Mod_X_except]  = bad,
+			};
+			turn_into_tuple(mod, ARRAY_SIZE(in), in);
 			return res;
 		}
 		case pn_Mod_res:
-- 
2.43.0


From 75f9f666e5e5bbfba0c96f8ee685f5ec1fd50967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:46 +0000
Subject: [PATCH 054/109] fix: lower_mux with enabled optimizations creates
 invalid graphs

---
 ir/lower/lower_mux.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ir/lower/lower_mux.c b/ir/lower/lower_mux.c
index 3d25727..5bca8bb 100644
--- a/ir/lower/lower_mux.c
+++ b/ir/lower/lower_mux.c
@@ -90,9 +90,13 @@ void lower_mux(ir_graph *irg, lower_mux_callback *cb_func)
 		ir_reserve_resources(irg, resources);
 		collect_phiprojs_and_start_block_nodes(irg);
 
+		/* The new Conds and Phis must not be optimized away. */
+		int rem_opt = get_optimize();
+		set_optimize(0);
 		for (size_t i = 0; i < n_muxes; ++i) {
 			lower_mux_node(env.muxes[i]);
 		}
+		set_optimize(rem_opt);
 
 		/* Cleanup, verify the graph. */
 		ir_free_resources(irg, resources);
-- 
2.43.0


From 3f2c192c9eb9b5b44037884e03901316311dc909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 055/109] fix: lower_switch gives blocks with Phis further
 predecessors

---
 ir/lower/lower_switch.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ir/lower/lower_switch.c b/ir/lower/lower_switch.c
index db705bf..02a7fca 100644
--- a/ir/lower/lower_switch.c
+++ b/ir/lower/lower_switch.c
@@ -299,6 +299,23 @@ static ir_node *create_case_cond(const ir_switch_table_entry *entry,
 	return new_rd_Cond(dbgi, block, cmp);
 }
 
+/**
+ * A block behind a switch has one predecessor, but it may nevertheless contain
+ * Phis: Give them an operand for each of the new predecessors.
+ */
+static void adapt_phis(ir_node *block, int n_preds)
+{
+	foreach_irn_out_r(block, i, phi) {
+		if (!is_Phi(phi) || get_irn_arity(phi) == n_preds)
+			continue;
+		ir_node **const in = ALLOCAN(ir_node*, n_preds);
+		for (int p = 0; p < n_preds; ++p) {
+			in[p] = get_Phi_pred(phi, 0);
+		}
+		set_irn_in(phi, n_preds, in);
+	}
+}
+
 static void connect_to_target(target_t *target, ir_node *cf)
 {
 	ir_node *block     = target->block;
@@ -311,6 +328,7 @@ static void connect_to_target(target_t *target, ir_node *cf)
 			new_in[i] = dummy;
 		}
 		set_irn_in(block, n_entries, new_in);
+		adapt_phis(block, n_entries);
 		assert(target->i == 0);
 	}
 	assert(target->i < n_entries);
@@ -438,6 +456,7 @@ static void find_switch_nodes(ir_node *block, void *ctx)
 
 	/* Connect new default case users */
 	set_irn_in(info.default_block, ARR_LEN(info.defusers), info.defusers);
+	adapt_phis(info.default_block, ARR_LEN(info.defusers));
 
 	DEL_ARR_F(info.defusers);
 	free(info.targets);
-- 
2.43.0


From f6d09f167b56051aa6975ce1278117b663d83375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 056/109] fix: ia32 memory chain lost at floating point
 divisions

---
 ir/be/ia32/ia32_transform.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ir/be/ia32/ia32_transform.c b/ir/be/ia32/ia32_transform.c
index f051e49..d1ea5e1 100644
--- a/ir/be/ia32/ia32_transform.c
+++ b/ir/be/ia32/ia32_transform.c
@@ -4475,10 +4475,9 @@ static ir_node *gen_Proj_Div(ir_node *node)
 	case pn_Div_M:
 		if (is_ia32_Div(new_pred) || is_ia32_IDiv(new_pred)) {
 			return be_new_Proj(new_pred, pn_ia32_Div_M);
-		} else if (is_ia32_Divs(new_pred)) {
-			return be_new_Proj(new_pred, pn_ia32_Divs_M);
-		} else if (is_ia32_fdiv(new_pred)) {
-			return be_new_Proj(new_pred, pn_ia32_fdiv_M);
+		} else if (is_ia32_Divs(new_pred) || is_ia32_fdiv(new_pred)) {
+			/* float divs don't trap, skip memory */
+			return be_transform_node(get_Div_mem(pred));
 		} else {
 			panic("Div transformed to unexpected thing %+F", new_pred);
 		}
-- 
2.43.0


From c28d2ad831970b271133b623b1834d870abd7d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:01 +0000
Subject: [PATCH 057/109] fix: amd64 constraints of not commutative xmm
 instructions can become unresolvable

---
 ir/be/amd64/amd64_transform.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ir/be/amd64/amd64_transform.c b/ir/be/amd64/amd64_transform.c
index 3a86d67..2dbe113 100644
--- a/ir/be/amd64/amd64_transform.c
+++ b/ir/be/amd64/amd64_transform.c
@@ -110,6 +110,13 @@ static const arch_register_req_t amd64_requirement_xmm_same_0_not_1 = {
 	.width             = 1,
 };
 
+static const arch_register_req_t amd64_requirement_xmm_same_0_not_1_not_2 = {
+	.cls               = &amd64_reg_classes[CLASS_amd64_xmm],
+	.should_be_same    = BIT(0),
+	.must_be_different = BIT(1) | BIT(2),
+	.width             = 1,
+};
+
 static const arch_register_req_t amd64_requirement_x87killed = {
 	.cls         = &amd64_reg_classes[CLASS_amd64_x87],
 	.width       = 1,
@@ -932,7 +939,11 @@ static ir_node *gen_binop_xmm(ir_node *node, ir_node *op0, ir_node *op1,
 
 	fix_node_mem_proj(new_node, args.mem_proj);
 
-	arch_set_irn_register_req_out(new_node, 0, &amd64_requirement_xmm_same_0);
+	/* If both operands are xmm registers, leave the finishing phase enough
+	 * room for a copy, because the operands cannot be swapped. */
+	arch_set_irn_register_req_out(new_node, 0,
+		use_am ? &amd64_requirement_xmm_same_0
+		       : &amd64_requirement_xmm_same_0_not_1);
 	return be_new_Proj(new_node, pn_amd64_subs_res);
 }
 
@@ -1117,7 +1128,10 @@ static ir_node *gen_fma(ir_node *const add, ir_node *const op1, ir_node *const o
 	ir_node  *const new_node  = fma_variant(dbgi, new_block, arity, in, reqs, size, op_mode, addr);
 
 	fix_node_mem_proj(new_node, mem_proj);
-	arch_set_irn_register_req_out(new_node, 0, &amd64_requirement_xmm_same_0);
+	/* The operands cannot be swapped, leave room for a copy. */
+	arch_set_irn_register_req_out(new_node, 0,
+		mem_proj ? &amd64_requirement_xmm_same_0_not_1
+		         : &amd64_requirement_xmm_same_0_not_1_not_2);
 	return be_new_Proj(new_node, pn_amd64_vfmadd132s_res);
 }
 
-- 
2.43.0


From 1eb0cd9deac0287da7c542dddc584d8709d39658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:09 +0000
Subject: [PATCH 058/109] fix: ia32 conversion of 64 bit integers keeps excess
 precision

---
 ir/be/ia32/ia32_transform.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ir/be/ia32/ia32_transform.c b/ir/be/ia32/ia32_transform.c
index d1ea5e1..e35afe5 100644
--- a/ir/be/ia32/ia32_transform.c
+++ b/ir/be/ia32/ia32_transform.c
@@ -4331,6 +4331,13 @@ static ir_node *gen_ia32_l_LLtoFloat(ir_node *node)
 		res = new_bd_ia32_fadd(dbgi, block, base, index, nomem, res, noreg, fpcw, X86_SIZE_32);
 		set_indexed_ent(res, 2, ia32_gen_fp_known_const(ia32_ULLBIAS));
 	}
+
+	/* We need a float-conv, if the int mode has more bits than the float
+	 * mantissa. */
+	ir_mode *const tgt_mode     = get_irn_mode(node);
+	unsigned const int_mantissa = mode_is_signed(get_irn_mode(val_high)) ? 63 : 64;
+	if (get_mode_mantissa_size(tgt_mode) < int_mantissa)
+		res = gen_x87_conv(dbgi, x86_size_from_mode(tgt_mode), res);
 	return res;
 }
 
-- 
2.43.0


From 363e08e68d1a7a469d1d14543828fd380197ec2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:44 +0000
Subject: [PATCH 059/109] fix: ia32 minus of 64 bit values with equal halves

---
 ir/be/ia32/ia32_emitter.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ir/be/ia32/ia32_emitter.c b/ir/be/ia32/ia32_emitter.c
index ac6af26..257aca3 100644
--- a/ir/be/ia32/ia32_emitter.c
+++ b/ir/be/ia32/ia32_emitter.c
@@ -1010,14 +1010,14 @@ static void emit_ia32_Minus64(const ir_node *node)
 			goto normal_neg;
 		}
 	} else {
-		if (out_hi == in_lo) {
+		if (out_hi == in_hi) {
+			/* a -> c, b -> b (a and b may be the same) */
+			emit_mov(node, in_lo, out_lo);
+			goto normal_neg;
+		} else if (out_hi == in_lo) {
 			/* a -> c, b -> a */
 			emit_mov(node, in_lo, out_lo);
 			goto zero_neg;
-		} else if (out_hi == in_hi) {
-			/* a -> c, b -> b */
-			emit_mov(node, in_lo, out_lo);
-			goto normal_neg;
 		} else {
 			/* a -> c, b -> d */
 			emit_mov(node, in_lo, out_lo);
-- 
2.43.0


From b53a821ae93b57168a1380bedef86faae7ed25a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:44 +0000
Subject: [PATCH 060/109] fix: upper bits of unsigned Shrs are not clean

---
 ir/be/betranshlp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ir/be/betranshlp.c b/ir/be/betranshlp.c
index 7337877..7602fc1 100644
--- a/ir/be/betranshlp.c
+++ b/ir/be/betranshlp.c
@@ -393,6 +393,10 @@ static bool shr_upper_bits_clean(const ir_node *node, ir_mode *mode)
 
 static bool shrs_upper_bits_clean(const ir_node *node, ir_mode *mode)
 {
+	/* the sign of an unsigned value gets shifted into the upper bits */
+	if (!mode_is_signed(mode)
+	 && get_mode_size_bits(get_irn_mode(node)) <= get_mode_size_bits(mode))
+		return false;
 	return be_upper_bits_clean(get_Shrs_left(node), mode);
 }
 
-- 
2.43.0


From 181bc9e862cf5f9332aaf06c4234186713b8bae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:04 +0000
Subject: [PATCH 061/109] fix: ia32 x87 stores round with a changed rounding
 mode

---
 ir/be/ia32/ia32_transform.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ir/be/ia32/ia32_transform.c b/ir/be/ia32/ia32_transform.c
index e35afe5..c8de0ca 100644
--- a/ir/be/ia32/ia32_transform.c
+++ b/ir/be/ia32/ia32_transform.c
@@ -2673,7 +2673,22 @@ static ir_node *create_fst(dbg_info *dbgi, ir_node *block, ir_node *base,
 		res = new_bd_ia32_fstp(dbgi, block, base, index, mem, val, size);
 	} else {
 		assert(size == X86_SIZE_32 || size == X86_SIZE_64);
+		/* storing rounds, so it needs the right rounding mode */
+		ir_graph *const irg  = get_irn_irg(block);
+		ir_node  *const fpcw = get_initial_fpcw(irg);
 		res = new_bd_ia32_fst(dbgi, block, base, index, mem, val, size);
+
+		unsigned                    const n_ins   = get_irn_arity(res);
+		ir_node                   **const ins     = ALLOCAN(ir_node*, n_ins + 1);
+		arch_register_req_t const **const in_reqs = be_allocate_in_reqs(irg, n_ins + 1);
+		foreach_irn_in(res, i, in) {
+			ins[i]     = in;
+			in_reqs[i] = arch_get_irn_register_req_in(res, i);
+		}
+		ins[n_ins]     = fpcw;
+		in_reqs[n_ins] = arch_get_irn_register_req(fpcw)->cls->class_req;
+		set_irn_in(res, n_ins + 1, ins);
+		arch_set_irn_register_reqs_in(res, in_reqs);
 	}
 	return res;
 }
-- 
2.43.0


From e8d5dbac38030cc568f63ebdd459575cd50373bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:12 +0000
Subject: [PATCH 062/109] fix: ia32 PIC jump table read moved before the range
 check

---
 ir/be/ia32/ia32_transform.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ir/be/ia32/ia32_transform.c b/ir/be/ia32/ia32_transform.c
index c8de0ca..67a10cf 100644
--- a/ir/be/ia32/ia32_transform.c
+++ b/ir/be/ia32/ia32_transform.c
@@ -2829,6 +2829,8 @@ static ir_node *gen_Switch(ir_node *node)
 		ir_node *const add = new_bd_ia32_Add(dbgi, block, base, new_sel, nomem,
 		                                     base, noreg_GP, X86_SIZE_32);
 		set_ia32_commutative(add);
+		/* must not load from the table before the selector is checked */
+		set_irn_pinned(add, true);
 		table_am = add;
 		switchjmp = new_bd_ia32_SwitchJmp(dbgi, block, add, noreg_GP, n_outs,
 		                                  table, entity);
-- 
2.43.0


From b39d90365f2077bf67866dafda40d269b1b478ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:28 +0000
Subject: [PATCH 063/109] fix: ia32 every 16 bit rotate became a byte swap when
 optimizing for size

---
 ir/be/ia32/ia32_optimize.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ir/be/ia32/ia32_optimize.c b/ir/be/ia32/ia32_optimize.c
index c967440..4c9d96f 100644
--- a/ir/be/ia32/ia32_optimize.c
+++ b/ir/be/ia32/ia32_optimize.c
@@ -1063,8 +1063,10 @@ static void peephole_ia32_Conv_I2I(ir_node *node)
 /* Replace rolw $8, %[abcd]x by shorter xchgb %[abcd]l, %[abcd]h */
 static void peephole_ia32_Rol(ir_node *node)
 {
-	ia32_attr_t const *const attr = get_ia32_attr_const(node);
-	if (attr->size == X86_SIZE_16) {
+	ia32_attr_t const *const attr  = get_ia32_attr_const(node);
+	ir_node     const *const count = get_irn_n(node, n_ia32_Rol_count);
+	if (attr->size == X86_SIZE_16 && is_ia32_Immediate(count)
+	 && get_ia32_immediate_attr_const(count)->imm.offset == 8) {
 		arch_register_t const *const reg
 			= arch_get_irn_register_out(node, pn_ia32_Rol_res);
 		if (is_hl_register(reg)) {
-- 
2.43.0


From 4f4c6e8a15860344f4e82da8c7c3672d8e4f9b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:27 +0000
Subject: [PATCH 064/109] fix: ia32 GetEIP destroys live flags

---
 ir/be/ia32/ia32_transform.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ir/be/ia32/ia32_transform.c b/ir/be/ia32/ia32_transform.c
index 67a10cf..2694a96 100644
--- a/ir/be/ia32/ia32_transform.c
+++ b/ir/be/ia32/ia32_transform.c
@@ -194,6 +194,8 @@ ir_node *ia32_get_pic_base(ir_graph *irg)
 	if (!*get_eip) {
 		ir_node *const block = get_irg_start_block(irg);
 		*get_eip = new_bd_ia32_GetEIP(NULL, block);
+		/* adding the offset of the GOT changes the flags */
+		arch_add_irn_flags(*get_eip, arch_irn_flag_modify_flags);
 	}
 	return *get_eip;
 }
-- 
2.43.0


From e3524eb34f2ce420f577810c6b491a7dc3b4b802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:27 +0000
Subject: [PATCH 065/109] fix: ia32 result of an 8 bit rotate in a register
 without 8 bit part

---
 ir/be/ia32/ia32_transform.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/ir/be/ia32/ia32_transform.c b/ir/be/ia32/ia32_transform.c
index 2694a96..5ab17a6 100644
--- a/ir/be/ia32/ia32_transform.c
+++ b/ir/be/ia32/ia32_transform.c
@@ -1201,6 +1201,19 @@ static ir_node *skip_shift_amount_conv(ir_node *n)
 	return n;
 }
 
+static unsigned const limited_8bit[] = {
+	1u << REG_GP_EAX | 1u << REG_GP_EBX | 1u << REG_GP_ECX | 1u << REG_GP_EDX
+};
+
+/** The requirement for the result of an 8 bit shift. */
+static arch_register_req_t const requirement_8bit_same_0_not_1 = {
+	.cls               = &ia32_reg_classes[CLASS_ia32_gp],
+	.limited           = limited_8bit,
+	.should_be_same    = 1u << 0,
+	.must_be_different = 1u << 1,
+	.width             = 1,
+};
+
 /**
  * Construct a shift/rotate binary operation, sets AM and immediate if required.
  *
@@ -1247,7 +1260,11 @@ static ir_node *gen_shift_binop(ir_node *const node, ir_node *op1, ir_node *op2,
 	dbg_info             *const dbgi      = get_irn_dbg_info(node);
 	ir_node              *const new_block = be_transform_nodes_block(node);
 	construct_shift_func *const cons      = size == X86_SIZE_8 ? func8 : func;
-	return cons(dbgi, new_block, new_op1, new_op2, size);
+	ir_node              *const res       = cons(dbgi, new_block, new_op1, new_op2, size);
+	/* the result needs a register with an 8 bit part, too */
+	if (size == X86_SIZE_8)
+		arch_set_irn_register_req_out(res, 0, &requirement_8bit_same_0_not_1);
+	return res;
 }
 
 /**
-- 
2.43.0


From fb25c6141dea6677626965eafb932f66c2afb921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:42 +0000
Subject: [PATCH 066/109] fix: amd64 jump table index with garbage in the upper
 half

---
 ir/be/amd64/amd64_transform.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ir/be/amd64/amd64_transform.c b/ir/be/amd64/amd64_transform.c
index 2dbe113..e9f40e2 100644
--- a/ir/be/amd64/amd64_transform.c
+++ b/ir/be/amd64/amd64_transform.c
@@ -1706,13 +1706,19 @@ static ir_node *gen_Jmp(ir_node *const node)
 	return new_bd_amd64_jmp(dbgi, new_block);
 }
 
+static ir_node *gen_extend(dbg_info *dbgi, ir_node *block, ir_node *value,
+                           ir_mode *from);
+
 static ir_node *gen_Switch(ir_node *const node)
 {
 	ir_graph *irg       = get_irn_irg(node);
 	ir_node  *new_block = be_transform_nodes_block(node);
 	ir_node  *sel       = get_Switch_selector(node);
 	dbg_info *dbgi      = get_irn_dbg_info(node);
-	ir_node  *new_sel   = be_transform_node(sel);
+	/* the whole register is used as index */
+	ir_mode  *sel_mode  = get_irn_mode(sel);
+	ir_node  *new_sel   = get_mode_size_bits(sel_mode) < 64
+		? gen_extend(dbgi, new_block, sel, sel_mode) : be_transform_node(sel);
 	const ir_switch_table *table  = get_Switch_table(node);
 	unsigned               n_outs = get_Switch_n_outs(node);
 
-- 
2.43.0


From b01c51c32d7f2a2eb3bf499bbac2e18d00a39114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:03 +0000
Subject: [PATCH 067/109] fix: buffer overflow in sc_val_from_bytes

---
 ir/tv/strcalc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/tv/strcalc.c b/ir/tv/strcalc.c
index 4e13d24..64da7fa 100644
--- a/ir/tv/strcalc.c
+++ b/ir/tv/strcalc.c
@@ -603,7 +603,7 @@ void sc_val_from_bytes(unsigned char const *const bytes, size_t n_bytes,
 	sc_word *p = buffer;
 	assert(SC_BITS == CHAR_BIT);
 	memcpy(p, bytes, n_bytes);
-	memset(p+n_bytes, 0, buffer+calc_buffer_size-p);
+	memset(p+n_bytes, 0, calc_buffer_size-n_bytes);
 }
 
 void sc_val_to_bytes(const sc_word *buffer, unsigned char *const dest,
-- 
2.43.0


From b5b327187b196b66503efe8aad3f91a80630272c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:26 +0000
Subject: [PATCH 068/109] fix: backend CSE brings back nodes without backend
 info

---
 ir/be/beinfo.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ir/be/beinfo.c b/ir/be/beinfo.c
index 8f81e76..345f256 100644
--- a/ir/be/beinfo.c
+++ b/ir/be/beinfo.c
@@ -18,6 +18,7 @@
 #include "irgwalk.h"
 #include "irhooks.h"
 #include "irnode_t.h"
+#include "iropt_t.h"
 #include "panic.h"
 #include "util.h"
 #include <stdbool.h>
@@ -191,6 +192,10 @@ void be_info_init_irg(ir_graph *irg)
 	add_irg_constraints(irg, IR_GRAPH_CONSTRAINT_BACKEND);
 	irg_walk_anchors(irg, init_walker, NULL, NULL);
 
+	/* Nodes, which are not reachable anymore, got no backend info, so CSE must
+	 * not bring them back. */
+	new_identities(irg);
+
 	set_dump_node_edge_hook(sched_edge_hook);
 }
 
-- 
2.43.0


From c177e84a97f7b618f1d03ccd4dfa292bbdcb8b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:21 +0000
Subject: [PATCH 069/109] fix: if conversion creates Mux nodes the target
 cannot handle

---
 ir/opt/ifconv.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/ir/opt/ifconv.c b/ir/opt/ifconv.c
index cff5431..131d524 100644
--- a/ir/opt/ifconv.c
+++ b/ir/opt/ifconv.c
@@ -8,6 +8,7 @@
  * @brief   If conversion
  * @author  Christoph Mallon
  */
+#include "array.h"
 #include "cdep_t.h"
 #include "debug.h"
 #include "ircons.h"
@@ -16,6 +17,7 @@
 #include "irgwalk.h"
 #include "irnode_t.h"
 #include "iroptimize.h"
+#include "iropt_t.h"
 #include "irtools.h"
 #include "pdeq.h"
 #include "target_t.h"
@@ -28,6 +30,7 @@
 typedef struct walker_env {
 	arch_allow_ifconv_func allow_ifconv;
 	bool                   changed; /**< Set if the graph was changed. */
+	ir_node              **muxes;   /**< All created Mux nodes. */
 } walker_env;
 
 DEBUG_ONLY(static firm_dbg_module_t *dbg;)
@@ -366,6 +369,7 @@ restart:;
 
 						dbg_info *const dbgi = get_irn_dbg_info(phi);
 						mux = new_rd_Mux(dbgi, mux_block, sel, f, t);
+						ARR_APP1(ir_node*, env->muxes, mux);
 						DB((dbg, LEVEL_2, "Generating %+F for %+F\n", mux, phi));
 					}
 
@@ -447,7 +451,7 @@ static void fill_waitq(ir_node *node, void *env) {
 
 void opt_if_conv_cb(ir_graph *irg, arch_allow_ifconv_func callback)
 {
-	walker_env  env   = { .allow_ifconv = callback, .changed = false };
+	walker_env  env   = { .allow_ifconv = callback, .changed = false, .muxes = NEW_ARR_F(ir_node*, 0) };
 	deq_t waitq;
 	deq_init(&waitq);
 
@@ -484,6 +488,18 @@ void opt_if_conv_cb(ir_graph *irg, arch_allow_ifconv_func callback)
 
 	ir_free_resources(irg, IR_RESOURCE_BLOCK_MARK | IR_RESOURCE_PHI_LIST);
 
+	/* The predicate might have allowed a Mux only because it gets optimized away.
+	 * Do so, before its operands change. */
+	for (size_t i = 0, n = ARR_LEN(env.muxes); i < n; ++i) {
+		ir_node *const mux = env.muxes[i];
+		if (!is_Mux(mux))
+			continue;
+		ir_node *const optimized = optimize_in_place_2(mux);
+		if (optimized != mux)
+			exchange(mux, optimized);
+	}
+	DEL_ARR_F(env.muxes);
+
 	if (env.changed) {
 		local_optimize_graph(irg);
 	}
-- 
2.43.0


From b42b59f6bb1a9170a9940dbb91a1200c2647d967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:07 +0000
Subject: [PATCH 070/109] fix: don't care analysis forgets the sign bit of Shrs
 by unknown amounts

---
 ir/ana/dca.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ir/ana/dca.c b/ir/ana/dca.c
index 15a9e15..678211e 100644
--- a/ir/ana/dca.c
+++ b/ir/ana/dca.c
@@ -308,11 +308,12 @@ static void dca_transfer(ir_node *irn)
 				care_left = create_lsb_mask(care);
 			}
 
-			if (is_Shrs(irn) && shift_amount != NULL) {
+			if (is_Shrs(irn)) {
 				unsigned   bits = get_mode_size_bits(mode);
 				ir_tarval *one  = get_mode_one(mode);
 				ir_tarval *msb  = tarval_shl_unsigned(one, bits - 1);
-				if (!tarval_is_null(tarval_and(tarval_shrs(msb, shift_amount), care))) {
+				if (shift_amount == NULL
+				    || !tarval_is_null(tarval_and(tarval_shrs(msb, shift_amount), care))) {
 					/* Care bits that disappeared still care about the sign bit. */
 					care_left = tarval_or(care_left, msb);
 				}
-- 
2.43.0


From 1bf87e34217bea7f2c059a36239d105b7fdccee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:07 +0000
Subject: [PATCH 071/109] fix: upper bits of a float conversion narrowed by
 another conversion

---
 ir/be/betranshlp.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ir/be/betranshlp.c b/ir/be/betranshlp.c
index 7602fc1..0742b69 100644
--- a/ir/be/betranshlp.c
+++ b/ir/be/betranshlp.c
@@ -419,11 +419,13 @@ static bool conv_upper_bits_clean(const ir_node *node, ir_mode *mode)
 	ir_mode       *dest_mode = get_irn_mode(node);
 	const ir_node *op        = get_Conv_op(node);
 	ir_mode       *src_mode  = get_irn_mode(op);
-	if (mode_is_float(src_mode))
-		return true;
-
 	unsigned src_bits  = get_mode_size_bits(src_mode);
 	unsigned dest_bits = get_mode_size_bits(dest_mode);
+	/* the result fits the destination mode, but not necessarily mode */
+	if (mode_is_float(src_mode))
+		return dest_bits <= get_mode_size_bits(mode)
+		    && mode_is_signed(dest_mode) == mode_is_signed(mode);
+
 	/* downconvs are a nop */
 	if (src_bits >= dest_bits)
 		return be_upper_bits_clean(op, mode);
-- 
2.43.0


From 0de4dbd9a7259bcd5cc9f544beeea9dcbc3e3400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:56 +0000
Subject: [PATCH 072/109] fix: combo fuses blocks without replacing Phis with a
 single operand

When a block with one predecessor is fused with it, a (memory) Phi of this
block with a single operand stayed and ended up in a block with another
number of predecessors.
---
 ir/opt/combo.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ir/opt/combo.c b/ir/opt/combo.c
index a809284..1641e6a 100644
--- a/ir/opt/combo.c
+++ b/ir/opt/combo.c
@@ -2781,6 +2781,19 @@ static void apply_cf(ir_node *block, void *ctx)
 			ir_node *new_block = get_nodes_block(pred);
 			DB((dbg, LEVEL_1, "Fuse %+F with %+F\n", block, new_block));
 			DBG_OPT_COMBO(block, new_block);
+			/* Phis have just one operand, the new block may have several
+			 * predecessors. */
+			for (ir_node *next, *phi = get_Block_phis(block); phi != NULL;
+			     phi = next) {
+				next = get_Phi_next(phi);
+				ir_node *s = get_Phi_pred(phi, 0);
+				if (get_Phi_loop(phi))
+					remove_keep_alive(phi);
+				get_irn_node(phi)->node = s;
+				DB((dbg, LEVEL_1, "%+F is replaced by %+F because of cf change\n", phi, s));
+				DBG_OPT_COMBO(phi, s);
+				exchange(phi, s);
+			}
 			exchange(block, new_block);
 			node->node = new_block;
 			env->modified = true;
-- 
2.43.0


From c1c29dff854abcd93e59100e21b1f90f6148ae63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:28 +0000
Subject: [PATCH 073/109] fix: boolean optimization leaves unused nodes in the
 out edges

---
 ir/opt/boolopt.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ir/opt/boolopt.c b/ir/opt/boolopt.c
index b982f9a..ff1fc6a 100644
--- a/ir/opt/boolopt.c
+++ b/ir/opt/boolopt.c
@@ -750,6 +750,9 @@ void opt_bool(ir_graph *const irg)
 	irg_block_walk_graph(irg, NULL, find_cf_and_or_walker, &env);
 	ir_free_resources(irg, IR_RESOURCE_BLOCK_MARK | IR_RESOURCE_PHI_LIST);
 
+	/* Even without a change we may have created nodes which turned out to be
+	 * useless. They are still in the out edges of their operands. */
 	confirm_irg_properties(irg,
-		env.changed ? IR_GRAPH_PROPERTIES_NONE : IR_GRAPH_PROPERTIES_ALL);
+		env.changed ? IR_GRAPH_PROPERTIES_NONE
+		: IR_GRAPH_PROPERTIES_ALL & ~IR_GRAPH_PROPERTY_CONSISTENT_OUT_EDGES);
 }
-- 
2.43.0


From 1d5d879e3498c918d81072232b9d6b7b642a5ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:28 +0000
Subject: [PATCH 074/109] fix: stale value range information for nodes whose
 mode was changed

---
 ir/ana/vrp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ir/ana/vrp.c b/ir/ana/vrp.c
index baaf2e7..d95dd19 100644
--- a/ir/ana/vrp.c
+++ b/ir/ana/vrp.c
@@ -56,7 +56,11 @@ vrp_attr *vrp_get_info(const ir_node *node)
 	ir_graph *irg = get_irn_irg(node);
 	if (irg->vrp.infos.data == NULL)
 		return NULL;
-	return ir_nodemap_get(vrp_attr, &irg->vrp.infos, node);
+	vrp_attr *const attr = ir_nodemap_get(vrp_attr, &irg->vrp.infos, node);
+	/* the mode of the node may have been changed since the analysis */
+	if (attr != NULL && get_tarval_mode(attr->bits_set) != get_irn_mode(node))
+		return NULL;
+	return attr;
 }
 
 static int vrp_update_node(ir_vrp_info *info, ir_node *node)
-- 
2.43.0


From 9a984884e109b43026464123a06b02a075e2e3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:28 +0000
Subject: [PATCH 075/109] fix: amd64 upper bits of float to signed integer
 conversions

The code selection assumes that the upper bits are clean, but the 32 bit
conversion zero extends.
---
 ir/be/amd64/amd64_transform.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ir/be/amd64/amd64_transform.c b/ir/be/amd64/amd64_transform.c
index e9f40e2..90e0567 100644
--- a/ir/be/amd64/amd64_transform.c
+++ b/ir/be/amd64/amd64_transform.c
@@ -2679,11 +2679,10 @@ static ir_node *gen_Conv(ir_node *const node)
 	} else if (src_float && !dst_float) {
 		/* float to int */
 
-		if (mode_is_signed(dst_mode)) {
-			/* the size is the size of the result, not that of the operand */
-			size = dst_bits == 64 ? X86_SIZE_64 : X86_SIZE_32;
-		} else if (dst_bits <= 32) {
-			/* The conversion is signed only; simply use 64-bit register*/
+		if (mode_is_signed(dst_mode) || dst_bits <= 32) {
+			/* The conversion is signed only; simply use 64-bit register.
+			 * Users rely on clean upper bits, so this must be done for
+			 * smaller signed results, too. */
 			size = X86_SIZE_64;
 		} else {
 			panic("cannot convert floating point to 64-bit unsigned");
-- 
2.43.0


From 1e69ef95b905767198fd8dcb17f56a38c7328eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:09 +0000
Subject: [PATCH 076/109] fix: constant bit analysis of oversized arithmetic
 right shifts

---
 ir/ana/constbits.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ir/ana/constbits.c b/ir/ana/constbits.c
index 2fb70c9..f3471ed 100644
--- a/ir/ana/constbits.c
+++ b/ir/ana/constbits.c
@@ -471,8 +471,15 @@ undefined:
 						ir_tarval  *const all_one       = get_mode_all_one(m);
 						ir_tarval  *const oversize_mask = tarval_andnot(modulo_mask, size_mask);
 
-						z = zero;
-						o = tarval_is_null(tarval_and(rz, oversize_mask)) ? all_one : zero;
+						if (tarval_is_null(tarval_and(rz, oversize_mask))) {
+							z = zero;
+							o = all_one;
+						} else {
+							/* Oversized shifts result in copies of the sign bit. */
+							ir_tarval *const max = new_tarval_from_long(size_bits - 1, rmode);
+							z = tarval_shrs(lz, max);
+							o = tarval_shrs(lo, max);
+						}
 
 						if (tarval_is_null(tarval_and(ro, oversize_mask))) {
 							ir_tarval *const rmask  = tarval_and(size_mask, modulo_mask);
-- 
2.43.0


From 2cf9911d74a7e7a8a221c46fd66153ecd84776f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:17 +0000
Subject: [PATCH 077/109] fix: shannon expansion mixes up the operands of a
 constant Eor

---
 ir/opt/reassoc.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ir/opt/reassoc.c b/ir/opt/reassoc.c
index 0de7f00..a325751 100644
--- a/ir/opt/reassoc.c
+++ b/ir/opt/reassoc.c
@@ -759,11 +759,13 @@ static ir_tarval *get_Eor_tarval(ir_node *node)
 	ir_node *l = get_Eor_left(node);
 	ir_node *r = get_Eor_right(node);
 
-	if (is_Const(l))
-		return get_Const_tarval(l);
+	/* Prefer the right operand as get_topnode_from_middlenode() does: Both
+	 * operands may be constants. */
+	if (is_Const(r))
+		return get_Const_tarval(r);
 
-	assert(is_Const(r));
-	return get_Const_tarval(r);
+	assert(is_Const(l));
+	return get_Const_tarval(l);
 }
 
 /**
-- 
2.43.0


From 1ebf1e54e38311db4c5d7e23f0fdb08dd7f0a2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:51 +0000
Subject: [PATCH 078/109] fix: operator strength reduction expects an increment
 in every counter

---
 ir/opt/opt_osr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ir/opt/opt_osr.c b/ir/opt/opt_osr.c
index 6403897..7acb3e5 100644
--- a/ir/opt/opt_osr.c
+++ b/ir/opt/opt_osr.c
@@ -503,6 +503,9 @@ static bool is_counter_iv(ir_node *iv, iv_env *env)
 		}
 		e = get_irn_ne(irn, env);
 	}
+	/* The strongly connected component may consist of Phis only. */
+	if (have_init == NULL || have_incr == NULL)
+		return false;
 	pscc->init = get_Const_tarval(have_init);
 	pscc->incr = get_Const_tarval(have_incr);
 	pscc->code = code;
-- 
2.43.0


From a261bb25ebf2bbfda0a9ad5816339ca0c333b7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:51 +0000
Subject: [PATCH 079/109] fix: loop inversion stumbles over Bad control flow
 predecessors

---
 ir/opt/loop.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/ir/opt/loop.c b/ir/opt/loop.c
index 4791f59..a9e5035 100644
--- a/ir/opt/loop.c
+++ b/ir/opt/loop.c
@@ -309,15 +309,13 @@ static ir_node *ssa_second_def_block;
 /**
  * Walks the graph bottom up, searching for definitions and creates phis.
  */
-static ir_node *search_def_and_create_phis(ir_node *const block, ir_mode *const mode, int const first)
+static ir_node *search_def_and_create_phis(ir_graph *const irg, ir_node *const block, ir_mode *const mode, int const first)
 {
-	ir_graph *const irg = get_irn_irg(block);
-
 	DB((dbg, LEVEL_5, "ssa search_def_and_create_phis: block %N\n", block));
 
 	/* Prevents creation of phi that would be bad anyway.
 	 * Dead and bad blocks. */
-	if (get_irn_arity(block) < 1 || is_Bad(block)) {
+	if (block == NULL || is_Bad(block) || get_irn_arity(block) < 1) {
 		DB((dbg, LEVEL_5, "ssa bad %N\n", block));
 		return new_r_Bad(irg, mode);
 	}
@@ -344,7 +342,7 @@ static ir_node *search_def_and_create_phis(ir_node *const block, ir_mode *const
 
 		DB((dbg, LEVEL_5, "ssa 1 pred: walk pred %N\n", pred_block));
 
-		value = search_def_and_create_phis(pred_block, mode, 0);
+		value = search_def_and_create_phis(irg, pred_block, mode, 0);
 		set_irn_link(block, value);
 		mark_irn_visited(block);
 
@@ -367,8 +365,7 @@ static ir_node *search_def_and_create_phis(ir_node *const block, ir_mode *const
 	/* set Phi predecessors */
 	for (int i = 0; i < n_cfgpreds; ++i) {
 		ir_node *const pred_block = get_Block_cfgpred_block(block, i);
-		assert(pred_block != NULL);
-		ir_node *const pred_val = search_def_and_create_phis(pred_block, mode, 0);
+		ir_node *const pred_val   = search_def_and_create_phis(irg, pred_block, mode, 0);
 
 		assert(pred_val != NULL);
 
@@ -419,9 +416,9 @@ static void construct_ssa(ir_node *const orig_block, ir_node *const orig_val, ir
 		int      const j          = get_edge_src_pos(edge);
 		if (is_Phi(user)) {
 			ir_node *pred_block = get_Block_cfgpred_block(user_block, j);
-			newval = search_def_and_create_phis(pred_block, mode, 1);
+			newval = search_def_and_create_phis(irg, pred_block, mode, 1);
 		} else {
-			newval = search_def_and_create_phis(user_block, mode, 1);
+			newval = search_def_and_create_phis(irg, user_block, mode, 1);
 		}
 		if (newval != user && !is_Bad(newval))
 			set_irn_n(user, j, newval);
-- 
2.43.0


From e577fa7c74d3a7c84dd0ddf9ad8e1cae39db40e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:14 +0000
Subject: [PATCH 080/109] fix: exponential run time of the load/store
 optimization with Syncs

---
 ir/opt/ldstopt.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ir/opt/ldstopt.c b/ir/opt/ldstopt.c
index 3b13728..2f72915 100644
--- a/ir/opt/ldstopt.c
+++ b/ir/opt/ldstopt.c
@@ -705,9 +705,9 @@ static changes_t follow_load_mem_chain(track_load_env_t *env, ir_node *start)
 			break;
 		}
 
-		/* check for cycles */
+		/* check for cycles, what is behind a visited node was handled already */
 		if (NODE_VISITED(node_info))
-			break;
+			return res;
 		MARK_NODE(node_info);
 	}
 
@@ -999,9 +999,9 @@ static changes_t follow_store_mem_chain(ir_node *store, ir_node *start,
 			break;
 		}
 
-		/* check for cycles */
+		/* check for cycles, what is behind a visited node was handled already */
 		if (NODE_VISITED(node_info))
-			break;
+			return res;
 		MARK_NODE(node_info);
 	}
 
@@ -1185,9 +1185,9 @@ static changes_t follow_copyb_mem_chain(ir_node *copyb, ir_node *start,
 			break;
 		}
 
-		/* check for cycles */
+		/* check for cycles, what is behind a visited node was handled already */
 		if (NODE_VISITED(node_info))
-			break;
+			return res;
 		MARK_NODE(node_info);
 	}
 
-- 
2.43.0


From d34177c00b6ec2176009203edd00daf2f1f128b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:18 +0000
Subject: [PATCH 081/109] fix: execution frequencies with several backward
 edges from one block

A block may be the source of more than one backward edge (or of two to the samenheader).  The second edge replaced the factor of the first one and the blockngot a second row in the equation system, which made it singular.
---
 ir/ana/execfreq.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ir/ana/execfreq.c b/ir/ana/execfreq.c
index 7b1bf11..1683a1a 100644
--- a/ir/ana/execfreq.c
+++ b/ir/ana/execfreq.c
@@ -516,8 +516,15 @@ void ir_estimate_execfreq(ir_graph *irg)
 			if (pred_visited) {
 				add_weighted(in_fac, idx, pred_idx, cf_probability);
 			} else {
-				ARR_APP1(int, lgs_to_mat, pred_idx);
-				setm(in_fac, idx, pred_idx, cf_probability);
+				/* A block may be the source of several backward edges. */
+				bool known = false;
+				for (size_t b = 0; b < ARR_LEN(lgs_to_mat); ++b) {
+					known |= lgs_to_mat[b] == (int)pred_idx;
+				}
+				if (!known)
+					ARR_APP1(int, lgs_to_mat, pred_idx);
+				double const val = getm(in_fac, idx, pred_idx);
+				setm(in_fac, idx, pred_idx, val + cf_probability);
 			}
 		}
 
-- 
2.43.0


From eafdd01ac67f3ff5e301c15b3e4113c5141a9e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:18 +0000
Subject: [PATCH 082/109] fix: callee analysis only sees an address used by
 several Calls once

The marks left by one Call (or by the search for free methods) made the nodesnlook visited for the next one, which then had no callees at all.
---
 ir/ana/cgana.c | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/ir/ana/cgana.c b/ir/ana/cgana.c
index a12a4a0..04d6fdd 100644
--- a/ir/ana/cgana.c
+++ b/ir/ana/cgana.c
@@ -489,25 +489,26 @@ static size_t get_free_methods(ir_entity ***free_methods)
 /* Callee analysis.                                                         */
 /*--------------------------------------------------------------------------*/
 
-static void callee_ana_node(ir_node *node, pset *methods);
+static void callee_ana_node(ir_node *node, ir_node *call, pset *methods);
 
-static void callee_ana_proj(ir_node *node, unsigned n, pset *methods)
+static void callee_ana_proj(ir_node *node, unsigned n, ir_node *call,
+                            pset *methods)
 {
 	assert(get_irn_mode(node) == mode_T);
-	if (get_irn_link(node) == MARK) {
+	if (get_irn_link(node) == call) {
 		/* already visited */
 		return;
 	}
-	set_irn_link(node, MARK);
+	set_irn_link(node, call);
 
 	switch (get_irn_opcode(node)) {
 	case iro_Proj: {
 		/* proj_proj: in a correct graph we now get an op_Tuple or a node
 		 * returning a free method. */
 		ir_node *pred = get_Proj_pred(node);
-		if (get_irn_link(pred) != MARK) {
+		if (get_irn_link(pred) != call) {
 			if (is_Tuple(pred)) {
-				callee_ana_proj(get_Tuple_pred(pred, get_Proj_num(node)), n, methods);
+				callee_ana_proj(get_Tuple_pred(pred, get_Proj_num(node)), n, call, methods);
 			} else {
 				pset_insert_ptr(methods, get_unknown_entity()); /* free method -> unknown */
 			}
@@ -516,7 +517,7 @@ static void callee_ana_proj(ir_node *node, unsigned n, pset *methods)
 	}
 
 	case iro_Tuple:
-		callee_ana_node(get_Tuple_pred(node, n), methods);
+		callee_ana_node(get_Tuple_pred(node, n), call, methods);
 		break;
 
 	default:
@@ -529,17 +530,18 @@ static void callee_ana_proj(ir_node *node, unsigned n, pset *methods)
  * Analyse a Call address.
  *
  * @param node     the node representing the call address
+ * @param call     the call, marks the nodes which were already visited for it
  * @param methods  after call contains the set of all possibly called entities
  */
-static void callee_ana_node(ir_node *node, pset *methods)
+static void callee_ana_node(ir_node *node, ir_node *call, pset *methods)
 {
 	assert(mode_is_reference(get_irn_mode(node)) || is_Bad(node));
 	/* Beware of recursion */
-	if (get_irn_link(node) == MARK) {
+	if (get_irn_link(node) == call) {
 		/* already visited */
 		return;
 	}
-	set_irn_link(node, MARK);
+	set_irn_link(node, call);
 
 	switch (get_irn_opcode(node)) {
 	case iro_Const:
@@ -576,17 +578,17 @@ static void callee_ana_node(ir_node *node, pset *methods)
 
 	case iro_Phi:
 		for (int i = get_Phi_n_preds(node) - 1; i >= 0; --i) {
-			callee_ana_node(get_Phi_pred(node, i), methods);
+			callee_ana_node(get_Phi_pred(node, i), call, methods);
 		}
 		break;
 
 	case iro_Mux:
-		callee_ana_node(get_Mux_false(node), methods);
-		callee_ana_node(get_Mux_true(node), methods);
+		callee_ana_node(get_Mux_false(node), call, methods);
+		callee_ana_node(get_Mux_true(node), call, methods);
 		break;
 
 	case iro_Proj:
-		callee_ana_proj(get_Proj_pred(node), get_Proj_num(node), methods);
+		callee_ana_proj(get_Proj_pred(node), get_Proj_num(node), call, methods);
 		break;
 
 	case iro_Add:
@@ -612,7 +614,7 @@ static void callee_walker(ir_node *call, void *env)
 		return;
 
 	pset *methods = pset_new_ptr_default();
-	callee_ana_node(get_Call_ptr(call), methods);
+	callee_ana_node(get_Call_ptr(call), call, methods);
 	ir_entity **arr = NEW_ARR_F(ir_entity*, pset_count(methods));
 	size_t      i   = 0;
 	foreach_pset(methods, ir_entity, ent) {
@@ -640,6 +642,7 @@ static void callee_ana(void)
 	foreach_irp_irg(i, irg) {
 		assure_irg_properties(irg, IR_GRAPH_PROPERTY_NO_TUPLES);
 		ir_reserve_resources(irg, IR_RESOURCE_IRN_LINK);
+		irg_walk_graph(irg, firm_clear_link, NULL, NULL);
 		irg_walk_graph(irg, callee_walker, NULL, NULL);
 		ir_free_resources(irg, IR_RESOURCE_IRN_LINK);
 		set_irg_callee_info_state(irg, irg_callee_info_consistent);
-- 
2.43.0


From d0e385706ab8378c78e93bb0bbc2404cbde168ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:18 +0000
Subject: [PATCH 083/109] fix: mark calls of a function to itself as recursion

If a function called nobody but itself, the edge was not marked.
---
 ir/ana/callgraph.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ir/ana/callgraph.c b/ir/ana/callgraph.c
index 2f4d884..f139c09 100644
--- a/ir/ana/callgraph.c
+++ b/ir/ana/callgraph.c
@@ -636,8 +636,13 @@ static ir_graph *find_tail(const ir_graph *n)
 			n == m)
 			return NULL;
 	} else {
-		if (m == n)
-			return NULL;    // Is this to catch Phi - self loops?
+		if (m == n) {
+			/* Either no recursion at all or n calls nobody but itself. */
+			if (!largest_dfn_pred(m, &res_index))
+				return NULL;
+			set_irg_callee_backedge(m, res_index);
+			return get_irg_callee(m, res_index);
+		}
 		for (size_t i = tos - 1; i > 0;) {
 			m = stack[--i];
 
-- 
2.43.0


From 3400efe6ad5cc6cd1abd63477d62e7eaa9ec9c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:18 +0000
Subject: [PATCH 084/109] fix: alias relation of elements behind the same
 Member

Sels with different indices may lie between the accesses and their commonnbase, so the same member does not imply the same address.
---
 ir/ana/irmemory.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ir/ana/irmemory.c b/ir/ana/irmemory.c
index 6831d19..ef26776 100644
--- a/ir/ana/irmemory.c
+++ b/ir/ana/irmemory.c
@@ -351,11 +351,10 @@ static ir_alias_relation _get_alias_relation(const ir_node *addr1, const ir_type
 
 	/* two struct accesses -> compare entities */
 	if (ent1 != NULL && ent2 != NULL) {
-		if (ent1 == ent2) {
-			if (base1 == base2)
-				return ir_sure_alias;
+		/* The same entity, but not necessarily the same element if there are
+		 * Sels on the way to it. */
+		if (ent1 == ent2)
 			goto check_classes;
-		}
 		ir_type *owner1 = get_entity_owner(ent1);
 		ir_type *owner2 = get_entity_owner(ent2);
 		if (owner1 != owner2) {
-- 
2.43.0


From bbd00d58763b85084cb051d1128b342f45a51212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:18 +0000
Subject: [PATCH 085/109] fix: Gauss-Jordan back substitution truncates to int

---
 ir/adt/gaussjordan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/adt/gaussjordan.c b/ir/adt/gaussjordan.c
index 4d13949..7e48d52 100644
--- a/ir/adt/gaussjordan.c
+++ b/ir/adt/gaussjordan.c
@@ -109,7 +109,7 @@ int firm_gaussjordansolve(double *A, double *vec, unsigned nsize)
 
 	/* answer needs sorting */
 	for (unsigned i = nsize - 1; i-- > 0;) {
-		int sum = 0;
+		double sum = 0.0;
 		for (unsigned j = i+1; j < nsize; ++j)
 			sum += _A(i,j) * scramvec[j];
 		scramvec[i] = (vec[i] - sum) / _A(i,i);
-- 
2.43.0


From 800a7d1475d698cff6ec03bead5cadb571627534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:18 +0000
Subject: [PATCH 086/109] fix: number of entries of a Gauss-Seidel matrix

Setting an entry to zero repeatedly was counted each time, new zero entries notnat all.
---
 ir/adt/gaussseidel.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ir/adt/gaussseidel.c b/ir/adt/gaussseidel.c
index e752ea1..c90ba51 100644
--- a/ir/adt/gaussseidel.c
+++ b/ir/adt/gaussseidel.c
@@ -20,7 +20,6 @@ typedef struct {
 
 struct gs_matrix_t {
 	unsigned   c_rows;
-	unsigned   n_zero_entries; /**< Upper bound on number of 0 entries */
 	row_col_t *rows;
 };
 
@@ -71,11 +70,14 @@ unsigned gs_matrix_get_n_entries(const gs_matrix_t *m)
 {
 	unsigned n_entries = 0;
 	for (unsigned i = 0; i < m->c_rows; ++i) {
-		n_entries += m->rows[i].n_cols;
+		for (unsigned c = 0; c < m->rows[i].n_cols; ++c) {
+			if (m->rows[i].cols[c].v != 0.0)
+				++n_entries;
+		}
 		n_entries += (m->rows[i].diag != 0.0) ? 1 : 0;
 	}
 
-	return n_entries - m->n_zero_entries;
+	return n_entries;
 }
 
 void gs_matrix_set(gs_matrix_t *m, unsigned row, unsigned col, double val)
@@ -111,8 +113,6 @@ void gs_matrix_set(gs_matrix_t *m, unsigned row, unsigned col, double val)
 	/* Have we found the entry? */
 	if (c < the_row->n_cols && the_row->cols[c].col_idx == col) {
 		the_row->cols[c].v = val;
-		if (val == 0.0)
-			m->n_zero_entries++;
 		return;
 	}
 
-- 
2.43.0


From 42335ba17a729d5694334fea194162839a4bfb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:18 +0000
Subject: [PATCH 087/109] fix: borrow in rbitset_minus1

Only an element that was 0 borrows from the next one.
---
 ir/adt/raw_bitset.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ir/adt/raw_bitset.h b/ir/adt/raw_bitset.h
index b8d51af..e787111 100644
--- a/ir/adt/raw_bitset.h
+++ b/ir/adt/raw_bitset.h
@@ -545,7 +545,8 @@ static inline void rbitset_minus1(unsigned *bitset, size_t size)
 		unsigned val_minus1 = val - 1;
 		bitset[i] = val_minus1 & mask;
 
-		if (((val >> (BITS_PER_ELEM-1)) ^ (val_minus1 >> (BITS_PER_ELEM-1))) == 0)
+		/* Only borrow from the next element if this one was 0. */
+		if (val != 0)
 			break;
 	}
 }
-- 
2.43.0


From b98214a46ff1e198db43d62d7b5097dde5cfecff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:56 +0000
Subject: [PATCH 088/109] fix: bipartite matching is not always maximum

---
 ir/adt/bipartite.c | 88 +++++++++++++++-------------------------------
 1 file changed, 29 insertions(+), 59 deletions(-)

diff --git a/ir/adt/bipartite.c b/ir/adt/bipartite.c
index 7e49e75..f8d6376 100644
--- a/ir/adt/bipartite.c
+++ b/ir/adt/bipartite.c
@@ -14,6 +14,8 @@
 #include "xmalloc.h"
 #include <assert.h>
 #include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
 
 struct bipartite_t {
 	unsigned  n_left;
@@ -59,75 +61,43 @@ int bipartite_adj(bipartite_t const *const gr, unsigned const i,
 	return bitset_is_set(gr->adj[i], j);
 }
 
-static int apply_alternating_path(bipartite_t const *const gr,
-                                  int *const matching,
-                                  bitset_t *const matched_left,
-                                  bitset_t *const matched_right)
+/**
+ * Tries to find an augmenting path starting at the left node @p left and
+ * applies it.
+ *
+ * @param match_right  left partner of each right node or -1
+ * @param visited      right nodes which were already tried
+ */
+static bool augment(bipartite_t const *const gr, unsigned const left,
+                    int *const matching, int *const match_right,
+                    bitset_t *const visited)
 {
-	bool done_something = false;
-	bitset_t *const tmp = bitset_alloca(gr->n_right);
-
-	for (unsigned left = 0; left < gr->n_left; ++left) {
-		bitset_t *left_adj = gr->adj[left];
-		bitset_copy(tmp, left_adj);
-
-		if (matching[left] >= 0) {
-			int old_right = matching[left];
-
-			/* Check of all neighbors of the left node are already matched.
-			 * We cannot improve this edge then. */
-			if (bitset_contains(left_adj, matched_right))
-				continue;
-
-			bitset_andnot(tmp, matched_right);
-			unsigned right = bitset_next_set(tmp, 0);
-			assert(right != ~0u);
-
-			/* We have to find another left node which has the old right one as
-			 * a neighbor. This node must not be part of a matching */
-			unsigned i;
-			for (i = 0; i < gr->n_left; ++i)
-				if (i != left && bitset_is_set(gr->adj[i], old_right) && !bitset_is_set(matched_left, i))
-					break;
-
-			/* If no such node can be found, exit. */
-			if (i >= gr->n_left)
-				continue;
-
-			/* Else, we can improve this edge. */
-			matching[left] = right;
-			matching[i] = old_right;
-			bitset_set(matched_left, i);
-			bitset_set(matched_right, right);
-			done_something = true;
-		} else {
-			/* We have to create a new single edge */
-			assert(!bitset_is_set(matched_left, left));
-
-			bitset_andnot(tmp, matched_right);
-			if (bitset_is_empty(tmp))
-				continue;
-
-			unsigned right = bitset_next_set(tmp, 0);
-			assert(!bitset_is_set(matched_right, right));
-			matching[left] = right;
-			bitset_set(matched_left, left);
-			bitset_set(matched_right, right);
-			done_something = true;
+	bitset_foreach(gr->adj[left], right) {
+		if (bitset_is_set(visited, right))
+			continue;
+		bitset_set(visited, right);
+		if (match_right[right] < 0
+		    || augment(gr, match_right[right], matching, match_right, visited)) {
+			matching[left]     = right;
+			match_right[right] = left;
+			return true;
 		}
 	}
-
-	return done_something;
+	return false;
 }
 
 void bipartite_matching(bipartite_t const *const gr, int *const matching)
 {
-	bitset_t *const matched_left = bitset_alloca(gr->n_left);
-	bitset_t *const matched_right = bitset_alloca(gr->n_right);
+	int      *const match_right = XMALLOCN(int, gr->n_right);
+	bitset_t *const visited     = bitset_alloca(gr->n_right);
 
 	memset(matching, -1, gr->n_left * sizeof(int));
-	while (apply_alternating_path(gr, matching, matched_left, matched_right)) {
+	memset(match_right, -1, gr->n_right * sizeof(int));
+	for (unsigned left = 0; left < gr->n_left; ++left) {
+		bitset_clear_all(visited);
+		augment(gr, left, matching, match_right, visited);
 	}
+	free(match_right);
 }
 
 void bipartite_dump_f(FILE *const f, bipartite_t const *gr)
-- 
2.43.0


From 6ec634d397e10a086a9215f2524b4f9da4da0a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:31 +0000
Subject: [PATCH 089/109] fix: rbitset_prev and rbitset_set_range touch the
 unit behind the bitset

---
 ir/adt/raw_bitset.h | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/ir/adt/raw_bitset.h b/ir/adt/raw_bitset.h
index e787111..26442d8 100644
--- a/ir/adt/raw_bitset.h
+++ b/ir/adt/raw_bitset.h
@@ -339,21 +339,26 @@ static inline size_t rbitset_prev(const unsigned *bitset, size_t pos,
 	size_t elem_pos = pos / BITS_PER_ELEM;
 	size_t bit_pos  = pos % BITS_PER_ELEM;
 
-	unsigned elem = bitset[elem_pos];
+	unsigned elem;
+	unsigned p;
 	unsigned mask = set ? 0 : ~0u;
 
-	/*
-	 * Mask out the bits larger than pos in the current unit.
-	 * We are only interested in bits set lower than pos.
-	 */
-	unsigned in_elem_mask = ~((1u << bit_pos) - 1u);
+	/* No bit of the unit of pos is lower than pos, if pos is at a unit border.
+	 * The unit may not even belong to the bitset then. */
+	if (bit_pos != 0) {
+		/*
+		 * Mask out the bits larger than pos in the current unit.
+		 * We are only interested in bits set lower than pos.
+		 */
+		unsigned in_elem_mask = ~((1u << bit_pos) - 1u);
 
-	elem ^= mask;
-	unsigned p = nlz(elem & ~in_elem_mask);
+		elem = bitset[elem_pos] ^ mask;
+		p    = nlz(elem & ~in_elem_mask);
 
-	/* If there is a bit set in the current elem, exit. */
-	if (p < BITS_PER_ELEM) {
-	  return (1+elem_pos) * BITS_PER_ELEM - p - 1;
+		/* If there is a bit set in the current elem, exit. */
+		if (p < BITS_PER_ELEM) {
+		  return (1+elem_pos) * BITS_PER_ELEM - p - 1;
+		}
 	}
 
 	/* Else search for set bits in the previous units. */
@@ -465,7 +470,9 @@ static inline void rbitset_set_range(unsigned *bitset, size_t from,
 			bitset[from_pos] |= from_unit_mask & to_unit_mask;
 		} else {
 			bitset[from_pos] |= from_unit_mask;
-			bitset[to_pos]   |= to_unit_mask;
+			/* the last unit is not part of the range, if to is at a unit border */
+			if (to_bit != 0)
+				bitset[to_pos] |= to_unit_mask;
 			for (size_t i = from_pos + 1; i < to_pos; ++i)
 				bitset[i] = ~0u;
 		}
@@ -475,7 +482,8 @@ static inline void rbitset_set_range(unsigned *bitset, size_t from,
 			bitset[from_pos] &= ~(from_unit_mask & to_unit_mask);
 		} else {
 			bitset[from_pos] &= ~from_unit_mask;
-			bitset[to_pos]   &= ~to_unit_mask;
+			if (to_bit != 0)
+				bitset[to_pos] &= ~to_unit_mask;
 			for (size_t i = from_pos + 1; i < to_pos; ++i)
 				bitset[i] = 0;
 		}
-- 
2.43.0


From 3e8f8834f9d2cae27727b6745b161e907f7a9c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:38 +0000
Subject: [PATCH 090/109] fix: the reader does not accept references to the
 unknown type in pointer and method types

---
 ir/ir/irio.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ir/ir/irio.c b/ir/ir/irio.c
index df9c5ad..2267544 100644
--- a/ir/ir/irio.c
+++ b/ir/ir/irio.c
@@ -1686,15 +1686,11 @@ static void read_type(read_env_t *env)
 		type = new_type_method(nparams, nresults, is_variadic, callingconv, addprops);
 
 		for (size_t i = 0; i < nparams; i++) {
-			long ptypenr = read_long(env);
-			ir_type *paramtype = get_type(env, ptypenr);
-
+			ir_type *paramtype = read_type_ref(env);
 			set_method_param_type(type, i, paramtype);
 		}
 		for (size_t i = 0; i < nresults; i++) {
-			long ptypenr = read_long(env);
-			ir_type *restype = get_type(env, ptypenr);
-
+			ir_type *restype = read_type_ref(env);
 			set_method_res_type(type, i, restype);
 		}
 
@@ -1702,7 +1698,7 @@ static void read_type(read_env_t *env)
 	}
 
 	case tpo_pointer: {
-		ir_type *points_to = get_type(env, read_long(env));
+		ir_type *points_to = read_type_ref(env);
 		type = new_type_pointer(points_to);
 		goto finish_type;
 	}
-- 
2.43.0


From 9d2bbd1b6364b9d5cac6a33c8d5c1e40d6f01726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:38 +0000
Subject: [PATCH 091/109] fix: libfirm cannot be initialised again after
 ir_finish

---
 ir/tv/fltcalc.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/ir/tv/fltcalc.c b/ir/tv/fltcalc.c
index 9d6212e..4609b9d 100644
--- a/ir/tv/fltcalc.c
+++ b/ir/tv/fltcalc.c
@@ -1077,12 +1077,6 @@ fc_rounding_mode_t fc_get_rounding_mode(void)
 
 void init_fltcalc(unsigned precision)
 {
-#ifndef NDEBUG
-	static bool initialized;
-	assert(!initialized);
-	initialized = true;
-#endif
-
 	init_strcalc(precision + 2 + ROUNDING_BITS);
 
 	/* needs additionally rounding bits, one bit as explicit 1., and one for
-- 
2.43.0


From 6751b360f64ac3483a6a4bb92495d69da2b159b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:49 +0000
Subject: [PATCH 092/109] fix: linkage, program name and boolean constants
 survive export and import

---
 ir/ir/irio.c | 11 +++++++++++
 ir/tv/tv.c   |  3 ++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/ir/ir/irio.c b/ir/ir/irio.c
index 2267544..d5556a1 100644
--- a/ir/ir/irio.c
+++ b/ir/ir/irio.c
@@ -61,6 +61,7 @@ typedef enum keyword_t {
 	kw_label,
 	kw_method,
 	kw_modes,
+	kw_name,
 	kw_parameter,
 	kw_program,
 	kw_reference_mode,
@@ -187,6 +188,8 @@ static void symtbl_init(void)
 	INSERT(tt_linkage, "garbage_collect", IR_LINKAGE_GARBAGE_COLLECT);
 	INSERT(tt_linkage, "merge", IR_LINKAGE_MERGE);
 	INSERT(tt_linkage, "hidden_user", IR_LINKAGE_HIDDEN_USER);
+	INSERT(tt_linkage, "no_codegen", IR_LINKAGE_NO_CODEGEN);
+	INSERT(tt_linkage, "no_identity", IR_LINKAGE_NO_IDENTITY);
 
 	INSERT(tt_loop, "loop",   true);
 	INSERT(tt_loop, "noloop", false);
@@ -212,6 +215,7 @@ static void symtbl_init(void)
 	INSERTKEYWORD(label);
 	INSERTKEYWORD(method);
 	INSERTKEYWORD(modes);
+	INSERTKEYWORD(name);
 	INSERTKEYWORD(parameter);
 	INSERTKEYWORD(program);
 	INSERTKEYWORD(reference_mode);
@@ -721,6 +725,10 @@ static void write_entity(write_env_t *env, ir_entity *ent)
 		write_symbol(env, "merge");
 	if (linkage & IR_LINKAGE_HIDDEN_USER)
 		write_symbol(env, "hidden_user");
+	if (linkage & IR_LINKAGE_NO_CODEGEN)
+		write_symbol(env, "no_codegen");
+	if (linkage & IR_LINKAGE_NO_IDENTITY)
+		write_symbol(env, "no_identity");
 	write_list_end(env);
 
 	write_type_ref(env, type);
@@ -2221,6 +2229,9 @@ static void read_program(read_env_t *env)
 			add_irp_asm(text);
 			break;
 		}
+		case kw_name:
+			set_irp_prog_name(read_ident(env));
+			break;
 		default:
 			parse_error(env, "unexpected keyword %d\n", kwkind);
 			skip_to(env, '\n');
diff --git a/ir/tv/tv.c b/ir/tv/tv.c
index d11bfdc..d669464 100644
--- a/ir/tv/tv.c
+++ b/ir/tv/tv.c
@@ -1162,8 +1162,9 @@ ir_tarval *ir_tarval_from_ascii(const char *buf, ir_mode *mode)
 {
 	size_t len = strlen(buf);
 	switch (get_mode_sort(mode)) {
-	case irms_reference:
 	case irms_internal_boolean:
+		return streq(buf, "0") ? tarval_b_false : tarval_b_true;
+	case irms_reference:
 	case irms_int_number:
 		return new_integer_tarval_from_str(buf, len, false, 16, mode);
 	case irms_float_number: {
-- 
2.43.0


From fc96f18b80317fc7b986b3364049a9caaacfe898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:14 +0000
Subject: [PATCH 093/109] fix: import merges distinct members of equal name

---
 ir/ir/irio.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ir/ir/irio.c b/ir/ir/irio.c
index d5556a1..a9a6336 100644
--- a/ir/ir/irio.c
+++ b/ir/ir/irio.c
@@ -95,6 +95,9 @@ static set *symtbl;
  */
 static int n_initial_types;
 
+/** Number of the first object created by the import. */
+static long first_import_nr;
+
 /**
  * True, if we may still be looking at one of the initial types common
  * to every program.
@@ -1825,7 +1828,8 @@ static void read_entity(read_env_t *env, ir_entity_kind kind)
 		// Try to deduplicate compound_members added by ir_init()
 		for (int i = 0, n = get_compound_n_members(owner); i < n; ++i) {
 			ir_entity *e = get_compound_member(owner, i);
-			if (e->type == type
+			if (get_entity_nr(e) < first_import_nr
+				&& e->type == type
 				&& streq_null(e->name, name)
 				&& streq_null(e->ld_name, ld_name)
 				&& get_entity_offset(e) == offset
@@ -2281,6 +2285,7 @@ int ir_import_file(FILE *input, const char *inputname)
 	set_optimize(0);
 
 	n_initial_types = get_irp_n_types();
+	first_import_nr = get_irp_new_node_nr();
 	maybe_initial_type = true;
 
 	while (true) {
-- 
2.43.0


From 01c90d622133555d6341100d1ae05d4f1697f768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:00 +0000
Subject: [PATCH 094/109] fix: free methods: nodes on a cycle, all segments,
 address expressions and aliases

free_mark() marked nodes it does not handle itself, so free_ana_walker() skipped
a Mux reached through a Phi before its own turn. Initializers were only
searched in the global and TLS segment and only for a bare Address. Aliases were
never resolved, a Call through one got an empty callee list.
---
 ir/ana/cgana.c | 92 ++++++++++++++++++++++++++++----------------------
 1 file changed, 52 insertions(+), 40 deletions(-)

diff --git a/ir/ana/cgana.c b/ir/ana/cgana.c
index 04d6fdd..5771790 100644
--- a/ir/ana/cgana.c
+++ b/ir/ana/cgana.c
@@ -233,6 +233,16 @@ static ir_entity *get_member_method(ir_node *member, size_t pos)
 	return arr[pos];
 }
 
+/**
+ * Returns the entity whose definition is used for @p ent.
+ */
+static ir_entity *skip_alias(ir_entity *ent)
+{
+	while (is_alias_entity(ent))
+		ent = get_entity_alias(ent);
+	return ent;
+}
+
 /* forward */
 static void free_mark(ir_node *node, pset *set);
 
@@ -243,11 +253,11 @@ static void free_mark_proj(ir_node *node, unsigned n, pset *set)
 		/* already visited */
 		return;
 	}
-	set_irn_link(node, MARK);
 	switch (get_irn_opcode(node)) {
 	case iro_Proj: {
 		/* proj_proj: in a correct graph we now find an op_Tuple or something
 		 * which is handled by free_ana_walker(). */
+		set_irn_link(node, MARK);
 		ir_node *pred = get_Proj_pred(node);
 		if (get_irn_link(pred) != MARK && is_Tuple(pred)) {
 			free_mark_proj(get_Tuple_pred(pred, get_Proj_num(node)), n, set);
@@ -256,18 +266,13 @@ static void free_mark_proj(ir_node *node, unsigned n, pset *set)
 	}
 
 	case iro_Tuple:
+		set_irn_link(node, MARK);
 		free_mark(get_Tuple_pred(node, n), set);
 		break;
 
-	case iro_Start:
-	case iro_Alloc:
-	case iro_Load:
-	case iro_Builtin:
+	default:
 		/* nothing: operations are handled in free_ana_walker() */
 		break;
-
-	default:
-		panic("unexpected opcode or opcode not implemented");
 	}
 }
 
@@ -287,8 +292,8 @@ static void free_mark(ir_node *node, pset *set)
 	if (get_irn_link(node) == MARK)
 		return; /* already visited */
 
-	set_irn_link(node, MARK);
-
+	/* Only the nodes which are completely handled here may be marked, all others
+	 * are still to be visited by free_ana_walker(). */
 	switch (get_irn_opcode(node)) {
 	case iro_Member: {
 		const ir_entity *ent = get_Member_entity(node);
@@ -301,7 +306,7 @@ static void free_mark(ir_node *node, pset *set)
 	}
 
 	case iro_Address: {
-		const ir_entity *ent = get_Address_entity(node);
+		const ir_entity *ent = skip_alias(get_Address_entity(node));
 		if (is_method_entity(ent)) {
 			pset_insert_ptr(set, ent);
 		}
@@ -309,6 +314,7 @@ static void free_mark(ir_node *node, pset *set)
 	}
 
 	case iro_Phi:
+		set_irn_link(node, MARK);
 		for (int i = 0, n = get_Phi_n_preds(node); i < n; ++i) {
 			free_mark(get_Phi_pred(node, i), set);
 		}
@@ -372,6 +378,21 @@ static void free_ana_walker(ir_node *node, void *env)
 	}
 }
 
+/**
+ * Add all method addresses in the expression of an initializer to the set.
+ */
+static void add_method_address_node(ir_node *const node, pset *const set)
+{
+	if (is_Address(node)) {
+		ir_entity *const ent = skip_alias(get_Address_entity(node));
+		if (is_Method_type(get_entity_type(ent)))
+			pset_insert_ptr(set, ent);
+	}
+	foreach_irn_in(node, i, pred) {
+		add_method_address_node(pred, set);
+	}
+}
+
 /**
  * Add all method addresses in global new style initializers to the set.
  *
@@ -386,18 +407,9 @@ static void free_ana_walker(ir_node *node, void *env)
 static void add_method_address_inititializer(ir_initializer_t const *const initializer, pset *const set)
 {
 	switch (initializer->kind) {
-	case IR_INITIALIZER_CONST: {
-		ir_node *n = initializer->consti.value;
-
-		/* let's check if it's the address of a function */
-		if (is_Address(n)) {
-			ir_entity *ent = get_Address_entity(n);
-
-			if (is_Method_type(get_entity_type(ent)))
-				pset_insert_ptr(set, ent);
-		}
+	case IR_INITIALIZER_CONST:
+		add_method_address_node(initializer->consti.value, set);
 		return;
-	}
 	case IR_INITIALIZER_TARVAL:
 	case IR_INITIALIZER_NULL:
 		return;
@@ -429,6 +441,10 @@ static void add_method_address(ir_entity *ent, pset *set)
 		ir_initializer_t const *const init = get_entity_initializer(ent);
 		if (init)
 			add_method_address_inititializer(init, set);
+	} else if (is_alias_entity(ent) && entity_is_externally_visible(ent)) {
+		ir_entity *const aliased = skip_alias(ent);
+		if (is_method_entity(aliased))
+			pset_insert_ptr(set, aliased);
 	}
 }
 
@@ -456,15 +472,12 @@ static size_t get_free_methods(ir_entity ***free_methods)
 	}
 
 	/* insert all methods that are used in global variables initializers */
-	ir_type *global_tp = get_glob_type();
-	for (size_t j = 0, m = get_compound_n_members(global_tp); j < m; ++j) {
-		ir_entity *const ent = get_compound_member(global_tp, j);
-		add_method_address(ent, free_set);
-	}
-	ir_type *tls_tp = get_tls_type();
-	for (size_t j = 0, m = get_compound_n_members(tls_tp); j < m; ++j) {
-		ir_entity *const ent = get_compound_member(tls_tp, j);
-		add_method_address(ent, free_set);
+	for (ir_segment_t s = IR_SEGMENT_FIRST; s <= IR_SEGMENT_LAST; ++s) {
+		ir_type *const segment = get_segment_type(s);
+		for (size_t j = 0, m = get_compound_n_members(segment); j < m; ++j) {
+			ir_entity *const ent = get_compound_member(segment, j);
+			add_method_address(ent, free_set);
+		}
 	}
 
 	/* the main program is even then "free", if it's not external visible. */
@@ -551,9 +564,13 @@ static void callee_ana_node(ir_node *node, ir_node *call, pset *methods)
 		break;
 
 	case iro_Address: {
-		ir_entity *ent = get_Address_entity(node);
-		if (is_method_entity(ent))
-			pset_insert_ptr(methods, ent);
+		ir_entity *const ent     = get_Address_entity(node);
+		ir_entity *const aliased = skip_alias(ent);
+		if (is_method_entity(aliased))
+			pset_insert_ptr(methods, aliased);
+		/* the alias may be replaced at linktime */
+		if (!is_method_entity(aliased) || (aliased != ent && get_entity_linkage(ent) & IR_LINKAGE_WEAK))
+			pset_insert_ptr(methods, get_unknown_entity());
 		break;
 	}
 
@@ -591,15 +608,10 @@ static void callee_ana_node(ir_node *node, ir_node *call, pset *methods)
 		callee_ana_proj(get_Proj_pred(node), get_Proj_num(node), call, methods);
 		break;
 
-	case iro_Add:
-	case iro_Sub:
-	case iro_Conv:
+	default:
 		/* extern */
 		pset_insert_ptr(methods, get_unknown_entity()); /* free method -> unknown */
 		break;
-
-	default:
-		panic("invalid opcode or opcode not implemented");
 	}
 }
 
-- 
2.43.0


From dd9ccebf65fb063d0bd2dd5a948881e308ad2e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:51 +0000
Subject: [PATCH 095/109] fix: export keeps the additional properties of alias
 entities

---
 ir/ir/irio.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ir/ir/irio.c b/ir/ir/irio.c
index a9a6336..ea0822f 100644
--- a/ir/ir/irio.c
+++ b/ir/ir/irio.c
@@ -742,6 +742,7 @@ static void write_entity(write_env_t *env, ir_entity *ent)
 	switch ((ir_entity_kind)ent->kind) {
 	case IR_ENTITY_ALIAS:
 		write_entity_ref(env, get_entity_alias(ent));
+		write_long(env, (long)get_entity_additional_properties(ent));
 		break;
 
 	case IR_ENTITY_NORMAL: {
@@ -1802,6 +1803,10 @@ static void read_entity(read_env_t *env, ir_entity_kind kind)
 	case IR_ENTITY_ALIAS: {
 		ir_entity *aliased = read_entity_ref(env);
 		entity = new_alias_entity(owner, name, aliased, type, visibility);
+		/* not present in older files */
+		skip_ws(env);
+		if (isdigit(env->c))
+			add_entity_additional_properties(entity, (mtp_additional_properties)read_long(env));
 		break;
 	}
 	case IR_ENTITY_NORMAL:
-- 
2.43.0


From ee84338a58bff51193eb6545746bc108fc5305e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:02 +0000
Subject: [PATCH 096/109] fix: code generation works again after ir_finish and
 ir_init_library

The modes of the exec and memory register classes were only set the first
time, and the entities, types and tarvals cached by the double word and
soft float lowering and by the ia32, arm and sparc backends outlived the
program they belong to.
---
 ir/be/arm/arm_bearch.c      |  4 ++++
 ir/be/arm/arm_transform.c   |  6 +-----
 ir/be/bemodule.c            |  4 +++-
 ir/be/ia32/ia32_bearch.c    |  7 ++++++-
 ir/be/ia32/ia32_bearch_t.h  |  3 +++
 ir/be/ia32/ia32_emitter.c   |  6 ++++++
 ir/be/ia32/ia32_emitter.h   |  3 +++
 ir/be/ia32/ia32_fpu.c       |  6 ++++++
 ir/be/ia32/ia32_transform.c | 18 +++++++++++++-----
 ir/be/ia32/ia32_transform.h |  3 +++
 ir/be/sparc/sparc_bearch.c  |  2 ++
 ir/common/firm.c            |  4 ++++
 ir/lower/lower_dw.c         | 13 +++++++++++++
 ir/lower/lower_dw.h         |  6 ++++++
 ir/lower/lower_softfloat.c  | 33 +++++++++++++++++++++++++++++++++
 ir/lower/lower_softfloat.h  |  5 +++++
 16 files changed, 111 insertions(+), 12 deletions(-)

diff --git a/ir/be/arm/arm_bearch.c b/ir/be/arm/arm_bearch.c
index d770f0b..bc6be34 100644
--- a/ir/be/arm/arm_bearch.c
+++ b/ir/be/arm/arm_bearch.c
@@ -295,6 +295,10 @@ static void arm_init(void)
 static void arm_finish(void)
 {
 	arm_free_opcodes();
+	divsi3  = NULL;
+	udivsi3 = NULL;
+	modsi3  = NULL;
+	umodsi3 = NULL;
 }
 
 static unsigned arm_get_op_estimated_cost(const ir_node *node)
diff --git a/ir/be/arm/arm_transform.c b/ir/be/arm/arm_transform.c
index a492d86..08abb1d 100644
--- a/ir/be/arm/arm_transform.c
+++ b/ir/be/arm/arm_transform.c
@@ -2131,11 +2131,7 @@ void arm_transform_graph(ir_graph *irg)
 	                         | IR_GRAPH_PROPERTY_NO_BADS
 	                         | IR_GRAPH_PROPERTY_CONSISTENT_OUT_EDGES);
 
-	static bool imm_initialized = false;
-	if (!imm_initialized) {
-		arm_init_fpa_immediate();
-		imm_initialized = true;
-	}
+	arm_init_fpa_immediate();
 	arm_register_transformers();
 
 	assert(cconv == NULL);
diff --git a/ir/be/bemodule.c b/ir/be/bemodule.c
index d4140e0..a4909b4 100644
--- a/ir/be/bemodule.c
+++ b/ir/be/bemodule.c
@@ -66,13 +66,15 @@ void be_quit_pbqp(void);
  */
 void be_init_modules(void)
 {
+	/* The mode pointers change when the library is initialized again. */
+	be_init_arch();
+
 	static bool run_once = false;
 	if (run_once)
 		return;
 	run_once = true;
 
 	be_init_2addr();
-	be_init_arch();
 	be_init_blocksched();
 	be_init_chordal_common();
 	be_init_copyopt();
diff --git a/ir/be/ia32/ia32_bearch.c b/ir/be/ia32/ia32_bearch.c
index 847b4fb..d5220d6 100644
--- a/ir/be/ia32/ia32_bearch.c
+++ b/ir/be/ia32/ia32_bearch.c
@@ -1116,6 +1116,8 @@ static void ia32_before_emit(ir_graph *irg)
 	be_remove_dead_nodes_from_schedule(irg);
 }
 
+static ir_entity *mcount = NULL;
+
 /**
  * Prepare a graph and perform code selection.
  */
@@ -1125,7 +1127,6 @@ static void ia32_select_instructions(ir_graph *irg)
 		/* Linux gprof implementation needs base pointer */
 		be_options.omit_fp = 0;
 
-		static ir_entity *mcount = NULL;
 		if (mcount == NULL) {
 			ir_type *tp = new_type_method(0, 0, false, cc_cdecl_set, mtp_no_property);
 			ident   *id = new_id_from_str("mcount");
@@ -1367,6 +1368,10 @@ static void ia32_init(void)
 
 static void ia32_finish(void)
 {
+	ia32_finish_transform();
+	ia32_finish_emitter();
+	ia32_finish_fpu();
+	mcount = NULL;
 	ia32_free_opcodes();
 	obstack_free(&opcodes_obst, NULL);
 }
diff --git a/ir/be/ia32/ia32_bearch_t.h b/ir/be/ia32/ia32_bearch_t.h
index 6afef25..a32a19f 100644
--- a/ir/be/ia32/ia32_bearch_t.h
+++ b/ir/be/ia32/ia32_bearch_t.h
@@ -108,6 +108,9 @@ void ia32_cconv_init(void);
  */
 void ia32_setup_fpu_mode(ir_graph *irg);
 
+/** Forgets the control word entities. */
+void ia32_finish_fpu(void);
+
 /**
  * Check 2-Addresscode constraints and call peephole optimizations.
  * @param irg  The irg to finish
diff --git a/ir/be/ia32/ia32_emitter.c b/ir/be/ia32/ia32_emitter.c
index 257aca3..a9980ed 100644
--- a/ir/be/ia32/ia32_emitter.c
+++ b/ir/be/ia32/ia32_emitter.c
@@ -1515,6 +1515,12 @@ void ia32_emit_thunks(void)
 	}
 }
 
+void ia32_finish_emitter(void)
+{
+	memset(thunks, 0, sizeof(thunks));
+	thunk_type = NULL;
+}
+
 void ia32_init_emitter(void)
 {
 	lc_opt_entry_t *be_grp   = lc_opt_get_grp(firm_opt_get_root(), "be");
diff --git a/ir/be/ia32/ia32_emitter.h b/ir/be/ia32/ia32_emitter.h
index c99e2f7..9f4354e 100644
--- a/ir/be/ia32/ia32_emitter.h
+++ b/ir/be/ia32/ia32_emitter.h
@@ -53,6 +53,9 @@ void ia32_emit_thunks(void);
 /** Initializes the Emitter. */
 void ia32_init_emitter(void);
 
+/** Forgets the thunk entities. */
+void ia32_finish_emitter(void);
+
 x86_condition_code_t ia32_determine_final_cc(ir_node const *node,
                                              int flags_pos);
 
diff --git a/ir/be/ia32/ia32_fpu.c b/ir/be/ia32/ia32_fpu.c
index 84d207b..7a067f2 100644
--- a/ir/be/ia32/ia32_fpu.c
+++ b/ir/be/ia32/ia32_fpu.c
@@ -218,3 +218,9 @@ void ia32_setup_fpu_mode(ir_graph *irg)
 	be_assure_state(irg, &ia32_registers[REG_FPCW],
 	                NULL, create_fpu_mode_spill, create_fpu_mode_reload);
 }
+
+void ia32_finish_fpu(void)
+{
+	fpcw_round    = NULL;
+	fpcw_truncate = NULL;
+}
diff --git a/ir/be/ia32/ia32_transform.c b/ir/be/ia32/ia32_transform.c
index 5ab17a6..df2abbe 100644
--- a/ir/be/ia32/ia32_transform.c
+++ b/ir/be/ia32/ia32_transform.c
@@ -443,6 +443,11 @@ static ir_node *gen_be_Relocation(ir_node *node)
 	return new_bd_ia32_Const(dbgi, block, &imm);
 }
 
+static ir_type   *float_F;
+static ir_type   *float_D;
+static ir_type   *float_E;
+static ir_entity *ent_cache[ia32_known_const_max];
+
 /**
  * Create a float[2] array type for the given atomic type.
  *
@@ -450,9 +455,6 @@ static ir_node *gen_be_Relocation(ir_node *node)
  */
 static ir_type *ia32_create_float_array(ir_type *tp)
 {
-	static ir_type *float_F;
-	static ir_type *float_D;
-	static ir_type *float_E;
 	ir_mode  *const mode = get_type_mode(tp);
 	ir_type **const arr  =
 		mode == ia32_mode_float32 ? &float_F :
@@ -477,8 +479,6 @@ ir_entity *ia32_gen_fp_known_const(ia32_known_const_t const kct)
 		{ "C_dfp_abs",  "0x7FFFFFFFFFFFFFFF",  1 },
 		{ "C_ull_bias", "0x10000000000000000", 2 }
 	};
-	static ir_entity *ent_cache[ia32_known_const_max];
-
 	ir_entity *ent = ent_cache[kct];
 
 	if (ent == NULL) {
@@ -5494,6 +5494,14 @@ void ia32_transform_graph(ir_graph *irg)
 	initial_va_list = NULL;
 }
 
+void ia32_finish_transform(void)
+{
+	float_F = NULL;
+	float_D = NULL;
+	float_E = NULL;
+	memset(ent_cache, 0, sizeof(ent_cache));
+}
+
 void ia32_init_transform(void)
 {
 	FIRM_DBG_REGISTER(dbg, "firm.be.ia32.transform");
diff --git a/ir/be/ia32/ia32_transform.h b/ir/be/ia32/ia32_transform.h
index b27b2ed..290f3ba 100644
--- a/ir/be/ia32/ia32_transform.h
+++ b/ir/be/ia32/ia32_transform.h
@@ -44,6 +44,9 @@ ir_entity *ia32_gen_fp_known_const(ia32_known_const_t kct);
 /** Initialize the ia32 instruction selector. */
 void ia32_init_transform(void);
 
+/** Forgets the cached types and entities. */
+void ia32_finish_transform(void);
+
 ir_node *ia32_new_IncSP(ir_node *block, ir_node *old_sp, int offset,
                         bool no_align);
 
diff --git a/ir/be/sparc/sparc_bearch.c b/ir/be/sparc/sparc_bearch.c
index 7033603..7c128e8 100644
--- a/ir/be/sparc/sparc_bearch.c
+++ b/ir/be/sparc/sparc_bearch.c
@@ -382,6 +382,8 @@ static void sparc_init(void)
 static void sparc_finish(void)
 {
 	sparc_free_opcodes();
+	rem  = NULL;
+	urem = NULL;
 }
 
 static ir_node *sparc_new_spill(ir_node *value, ir_node *after)
diff --git a/ir/common/firm.c b/ir/common/firm.c
index 2c34dcd..8a04c0d 100644
--- a/ir/common/firm.c
+++ b/ir/common/firm.c
@@ -31,6 +31,8 @@
 #include "irprog_t.h"
 #include "irtools.h"
 #include "lc_opts.h"
+#include "lower_dw.h"
+#include "lower_softfloat.h"
 #include "opt_init.h"
 #include "target_t.h"
 #include "tv_t.h"
@@ -90,6 +92,8 @@ void ir_finish(void)
 #endif
 	exit_execfreq();
 	firm_be_finish();
+	ir_finish_dw_lowering();
+	finish_floating_point_lowering();
 
 	free_ir_prog();
 	firm_finish_op();
diff --git a/ir/lower/lower_dw.c b/ir/lower/lower_dw.c
index a5cb2e8..9084e1c 100644
--- a/ir/lower/lower_dw.c
+++ b/ir/lower/lower_dw.c
@@ -2525,6 +2525,19 @@ static ir_type *make_type_2_2(ir_type *const even, ir_type *const odd)
 	return tp;
 }
 
+void ir_finish_dw_lowering(void)
+{
+	if (!intrinsic_fkt)
+		return;
+
+	del_set(intrinsic_fkt);
+	del_set(conv_types);
+	pmap_destroy(lowered_type);
+	pmap_destroy(lowered_builtin_type_low);
+	pmap_destroy(lowered_builtin_type_high);
+	intrinsic_fkt = NULL;
+}
+
 /*
  * Do the lowering.
  */
diff --git a/ir/lower/lower_dw.h b/ir/lower/lower_dw.h
index 1b6a5ac..8b0ffef 100644
--- a/ir/lower/lower_dw.h
+++ b/ir/lower/lower_dw.h
@@ -105,4 +105,10 @@ void set_dw_control_flow_changed(void);
  */
 ir_mode *ir_get_low_unsigned_mode(void);
 
+/**
+ * Forgets everything that is remembered between lowerings, the types and
+ * entities cease to exist.
+ */
+void ir_finish_dw_lowering(void);
+
 #endif
diff --git a/ir/lower/lower_softfloat.c b/ir/lower/lower_softfloat.c
index 7b6c67d..9a9244e 100644
--- a/ir/lower/lower_softfloat.c
+++ b/ir/lower/lower_softfloat.c
@@ -818,6 +818,39 @@ static int lower_mux_cb(ir_node *mux)
 	return ir_nodeset_contains(&created_mux_nodes, mux);
 }
 
+void finish_floating_point_lowering(void)
+{
+	if (!lowered_type)
+		return;
+
+	pmap_destroy(lowered_type);
+	lowered_type = NULL;
+	binop_tp_d   = NULL;
+	binop_tp_f   = NULL;
+	cmp_tp_d     = NULL;
+	cmp_tp_f     = NULL;
+	unop_tp_d    = NULL;
+	unop_tp_f    = NULL;
+	unop_tp_d_f  = NULL;
+	unop_tp_d_is = NULL;
+	unop_tp_d_iu = NULL;
+	unop_tp_d_ls = NULL;
+	unop_tp_d_lu = NULL;
+	unop_tp_f_d  = NULL;
+	unop_tp_f_is = NULL;
+	unop_tp_f_iu = NULL;
+	unop_tp_f_ls = NULL;
+	unop_tp_f_lu = NULL;
+	unop_tp_is_d = NULL;
+	unop_tp_is_f = NULL;
+	unop_tp_iu_d = NULL;
+	unop_tp_iu_f = NULL;
+	unop_tp_ls_d = NULL;
+	unop_tp_ls_f = NULL;
+	unop_tp_lu_d = NULL;
+	unop_tp_lu_f = NULL;
+}
+
 void lower_floating_point(void)
 {
 	ir_prepare_softfloat_lowering();
diff --git a/ir/lower/lower_softfloat.h b/ir/lower/lower_softfloat.h
index 74bcd7d..ae01c04 100644
--- a/ir/lower/lower_softfloat.h
+++ b/ir/lower/lower_softfloat.h
@@ -18,4 +18,9 @@
  */
 void lower_floating_point(void);
 
+/**
+ * Forgets the lowered types, called when they cease to exist.
+ */
+void finish_floating_point_lowering(void);
+
 #endif
-- 
2.43.0


From 2419476e8930876c54b327c9e9407fcb8bc465b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:51 +0000
Subject: [PATCH 097/109] fix: copy coalescing orders nodes by index, removes
 all nodes of the best chunk

---
 ir/be/becopyheur4.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/ir/be/becopyheur4.c b/ir/be/becopyheur4.c
index f70c9fe..674ba5f 100644
--- a/ir/be/becopyheur4.c
+++ b/ir/be/becopyheur4.c
@@ -335,7 +335,8 @@ static inline int nodes_bsearch(const ir_node **arr, const ir_node *n)
 
 		if (arr[md] == n)
 			return md;
-		if (arr[md] < n)
+		/* order by index, addresses differ from run to run */
+		if (get_irn_idx(arr[md]) < get_irn_idx(n))
 			lo = md + 1;
 		else
 			hi = md;
@@ -1178,16 +1179,10 @@ static void color_aff_chunk(co_mst_env_t *env, aff_chunk_t *c)
 	}
 
 	/* remove the nodes in best chunk from original chunk */
-	for (size_t idx = 0, len = ARR_LEN(best_chunk->n); idx < len; ++idx) {
-		const ir_node *irn = best_chunk->n[idx];
-		int            pos = nodes_bsearch(c->n, irn);
-		if (pos > 0)
-			c->n[pos] = NULL;
-	}
 	size_t nidx = 0;
 	for (size_t idx = 0, len = ARR_LEN(c->n); idx < len; ++idx) {
 		const ir_node *irn = c->n[idx];
-		if (irn != NULL) {
+		if (!node_contains(best_chunk->n, irn)) {
 			c->n[nidx++] = irn;
 		}
 	}
-- 
2.43.0


From b1721eb14fcf952c0c6302f55957ad5352b14faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:51 +0000
Subject: [PATCH 098/109] fix: live sets are ordered by node index, not by
 address

---
 ir/be/belive.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ir/be/belive.c b/ir/be/belive.c
index 1a34ce9..c3b9dca 100644
--- a/ir/be/belive.c
+++ b/ir/be/belive.c
@@ -36,16 +36,19 @@ static unsigned _be_liveness_bsearch(be_lv_info_t const *const arr, ir_node cons
 	if (n == 0)
 		return 0;
 
-	unsigned lo = 0;
-	unsigned hi = n;
-	unsigned res;
+	/* Order by index and not by address, so the order of the live values does
+	 * not depend on the memory layout. */
+	unsigned const idx = get_irn_idx(node);
+	unsigned       lo  = 0;
+	unsigned       hi  = n;
+	unsigned       res;
 	do {
-		unsigned md      = lo + ((hi - lo) >> 1);
-		ir_node *md_node = arr->nodes[md].node;
+		unsigned const md     = lo + ((hi - lo) >> 1);
+		unsigned const md_idx = get_irn_idx(arr->nodes[md].node);
 
-		if (node > md_node) {
+		if (idx > md_idx) {
 			lo = md + 1;
-		} else if (node < md_node) {
+		} else if (idx < md_idx) {
 			hi = md;
 		} else {
 			res = md;
-- 
2.43.0


From 47f383f31c31a281d5f6f8139adc5b35ad03e213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:51 +0000
Subject: [PATCH 099/109] fix: each compilation unit starts without a current
 section and with default ELF types

---
 ir/be/begnuas.c | 3 +++
 ir/be/bemain.c  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ir/be/begnuas.c b/ir/be/begnuas.c
index 17f7adf..c04fdc6 100644
--- a/ir/be/begnuas.c
+++ b/ir/be/begnuas.c
@@ -1654,6 +1654,9 @@ bool be_gas_produces_dwarf_line_info(void)
 
 void be_gas_begin_compilation_unit(const be_main_env_t *env)
 {
+	/* a new file has no current section yet */
+	current_section = (be_gas_section_t)-1;
+
 	be_dwarf_open();
 	be_dwarf_unit_begin(env->cup_name);
 
diff --git a/ir/be/bemain.c b/ir/be/bemain.c
index 8393453..4aaad3b 100644
--- a/ir/be/bemain.c
+++ b/ir/be/bemain.c
@@ -142,6 +142,9 @@ bool be_set_arch(char const *const arch)
 void be_initialize(void)
 {
 	assert(!ir_target.isa_initialized);
+	/* some backends use another syntax */
+	be_gas_elf_type_char = '@';
+	be_gas_elf_variant   = ELF_VARIANT_NORMAL;
 	be_init_default_asm_constraint_flags();
 	obstack_init(&obst);
 }
-- 
2.43.0


From a2bca71141ebee4823c45aaed38ffb76f0115c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:51 +0000
Subject: [PATCH 100/109] fix: arch settings and opcode numbers are reset with
 the library

---
 ir/common/firm.c | 2 ++
 ir/ir/irarch.c   | 6 ++++++
 ir/ir/irarch.h   | 3 +++
 ir/ir/irop.c     | 3 ++-
 ir/opt/combo.c   | 2 ++
 5 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/ir/common/firm.c b/ir/common/firm.c
index 8a04c0d..fdb3724 100644
--- a/ir/common/firm.c
+++ b/ir/common/firm.c
@@ -20,6 +20,7 @@
 #include "execfreq_t.h"
 #include "firm.h"
 #include "ident_t.h"
+#include "irarch.h"
 #include "ircons_t.h"
 #include "iredges_t.h"
 #include "irflag_t.h"
@@ -92,6 +93,7 @@ void ir_finish(void)
 #endif
 	exit_execfreq();
 	firm_be_finish();
+	ir_arch_finish();
 	ir_finish_dw_lowering();
 	finish_floating_point_lowering();
 
diff --git a/ir/ir/irarch.c b/ir/ir/irarch.c
index bc68914..337718a 100644
--- a/ir/ir/irarch.c
+++ b/ir/ir/irarch.c
@@ -34,6 +34,7 @@
 #include "tv_t.h"
 #include <assert.h>
 #include <stdlib.h>
+#include <string.h>
 
 static ir_settings_arch_dep_t settings;
 
@@ -45,6 +46,11 @@ void ir_arch_lower(ir_settings_arch_dep_t const *const new_settings)
 	}
 }
 
+void ir_arch_finish(void)
+{
+	memset(&settings, 0, sizeof(settings));
+}
+
 /** check, whether a mode allows a Mulh instruction. */
 static bool allow_Mulh(ir_mode *mode)
 {
diff --git a/ir/ir/irarch.h b/ir/ir/irarch.h
index 8f9a1c1..8d1eb57 100644
--- a/ir/ir/irarch.h
+++ b/ir/ir/irarch.h
@@ -109,4 +109,7 @@ ir_node *arch_dep_replace_mod_by_const(ir_node *irn);
  */
 void ir_arch_lower(ir_settings_arch_dep_t const *settings);
 
+/** Forgets the settings of the target. */
+void ir_arch_finish(void);
+
 #endif
diff --git a/ir/ir/irop.c b/ir/ir/irop.c
index fc42303..2d95396 100644
--- a/ir/ir/irop.c
+++ b/ir/ir/irop.c
@@ -573,7 +573,8 @@ void set_op_dump(ir_op *op, dump_node_func func)
 
 void firm_init_op(void)
 {
-	opcodes = NEW_ARR_F(ir_op*, 0);
+	opcodes  = NEW_ARR_F(ir_op*, 0);
+	next_iro = iro_last+1;
 	ir_init_opcodes();
 	be_init_op();
 
diff --git a/ir/opt/combo.c b/ir/opt/combo.c
index 1641e6a..38d8397 100644
--- a/ir/opt/combo.c
+++ b/ir/opt/combo.c
@@ -3145,6 +3145,8 @@ static void set_compute_functions(void)
 	/* set the default compute function */
 	for (size_t i = 0, n = ir_get_n_opcodes(); i < n; ++i) {
 		ir_op *op = ir_get_opcode(i);
+		if (op == NULL)
+			continue;
 		op->ops.generic = (op_func)default_compute;
 	}
 
-- 
2.43.0


From 3c01cc754ec04142930994f555b670d97f962344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:19 +0000
Subject: [PATCH 101/109] fix: copy coalescing computes the frequency factors
 for each graph

---
 ir/be/becopyopt.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/ir/be/becopyopt.c b/ir/be/becopyopt.c
index 018ca23..a161d75 100644
--- a/ir/be/becopyopt.c
+++ b/ir/be/becopyopt.c
@@ -229,8 +229,6 @@ static int co_get_costs_loop_depth(const ir_node *root, int pos)
 }
 
 static ir_execfreq_int_factors factors;
-/* Remember the graph that we computed the factors for. */
-static ir_graph               *irg_for_factors;
 
 /**
  * Computes the costs of a copy according to execution frequency
@@ -783,10 +781,8 @@ void co_driver(be_chordal_env_t *cenv)
 	if (selected_copyopt->copyopt == void_algo)
 		return;
 
-	if (cost_func == co_get_costs_exec_freq && irg_for_factors != cenv->irg) {
+	if (cost_func == co_get_costs_exec_freq)
 		ir_calculate_execfreq_int_factors(&factors, cenv->irg);
-		irg_for_factors = cenv->irg;
-	}
 
 	be_assure_live_chk(cenv->irg);
 
-- 
2.43.0


From 6487ede643a2771d7afb72dfb444d66e1e8c6745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:41 +0000
Subject: [PATCH 102/109] fix: a load folded from an initializer only covers
 its own bytes

---
 ir/opt/iropt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 6e84881..3bdbc1a 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -7280,7 +7280,7 @@ static bool sim_store_bitfield(unsigned char *buf, ir_mode *mode, long offset,
 	unsigned mode_size        = get_mode_size_bytes(mode);
 	unsigned initializer_size = get_type_size(type);
 	for (unsigned b = (unsigned)MAX(0, offset); b < initializer_size; ++b) {
-		if (b > (unsigned)offset + mode_size)
+		if (b >= (unsigned)offset + mode_size)
 			continue;
 		unsigned      idx      = ir_target_big_endian()
 		                         ? (initializer_size - 1 - b) : b;
@@ -7316,7 +7316,7 @@ handle_tv:
 
 		for (unsigned b = (unsigned)MAX(0, offset);
 		     b < initializer_size; ++b) {
-			if (b > (unsigned)offset + mode_size)
+			if (b >= (unsigned)offset + mode_size)
 				continue;
 			unsigned      idx = ir_target_big_endian()
 			                    ? (initializer_size - 1 - b) : b;
@@ -7366,7 +7366,7 @@ handle_tv:
 				if (member_offs >= offset + (long)get_mode_size_bytes(mode)
 				    || offset >= member_offs + (long)get_type_size(member_type))
 				    continue;
-				if (i > get_initializer_compound_n_entries(initializer))
+				if (i >= get_initializer_compound_n_entries(initializer))
 					continue;
 				const ir_initializer_t *sub_initializer
 					= get_initializer_compound_value(initializer, i);
-- 
2.43.0


From a92cf96d0830b1b5295b830d864e86322870b8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:32 +0000
Subject: [PATCH 103/109] fix: parallel copies do not read a use count past the
 end

---
 ir/be/bessadestr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ir/be/bessadestr.c b/ir/be/bessadestr.c
index acdaa98..c9ab0db 100644
--- a/ir/be/bessadestr.c
+++ b/ir/be/bessadestr.c
@@ -53,12 +53,12 @@ static void impl_parcopy(const arch_register_class_t *cls,
 	 * Goal: Establish invariant that each node has <= 1 outgoing edges by
 	 *       recording restore copies (and inserting them later). */
 	for (unsigned to_reg = 0; to_reg < n_regs; ++to_reg) {
-		const unsigned from_reg    = parcopy[to_reg];
-		unsigned       from_n_used = n_used[from_reg];
-
+		const unsigned from_reg = parcopy[to_reg];
 		if (from_reg == n_regs)
 			continue;
 
+		unsigned from_n_used = n_used[from_reg];
+
 		/* Decide if the current edge should be kept or not.
 		 * We keep an edge if it is a self-loop or if it is the last outgoing
 		 * edge of a node with multiple outgoing edges.
-- 
2.43.0


From cd4c43eaa7d9577a93605738d814d6da6c10f3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:36 +0000
Subject: [PATCH 104/109] fix: amd64 Phis of 128-bit values live in xmm
 registers

---
 ir/be/amd64/amd64_transform.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ir/be/amd64/amd64_transform.c b/ir/be/amd64/amd64_transform.c
index 90e0567..183480f 100644
--- a/ir/be/amd64/amd64_transform.c
+++ b/ir/be/amd64/amd64_transform.c
@@ -2314,6 +2314,8 @@ static ir_node *gen_Phi(ir_node *const node)
 		req = mode == x86_mode_E
 		    ? &amd64_class_reg_req_x87
 		    : &amd64_class_reg_req_xmm;
+	} else if (mode == amd64_mode_xmm) {
+		req = &amd64_class_reg_req_xmm;
 	} else {
 		req = arch_memory_req;
 	}
-- 
2.43.0


From 9e9bfb3e9cfdc4202667fc0ec94192fe95a768f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:52 +0000
Subject: [PATCH 105/109] fix: is_overwritten_by continues the search at the
 overwriting entity

The recursive call had its arguments swapped.
---
 ir/tr/tr_inheritance.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/tr/tr_inheritance.c b/ir/tr/tr_inheritance.c
index 05ca236..820265a 100644
--- a/ir/tr/tr_inheritance.c
+++ b/ir/tr/tr_inheritance.c
@@ -426,7 +426,7 @@ int is_overwritten_by(ir_entity *high, ir_entity *low)
 	     i < n_overwrittenby; i++) {
 		ir_entity *ov = get_entity_overwrittenby(high, i);
 		if (low == ov) return 1;
-		if (is_overwritten_by(low, ov))
+		if (is_overwritten_by(ov, low))
 			return 1;
 	}
 	return 0;
-- 
2.43.0


From f05ee8d44897ac8e96e5c0d532c29ff8b5838556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:26 +0000
Subject: [PATCH 106/109] fix: the transitive closure of the class hierarchy is
 complete with multiple inheritance

The walk switched between both directions and used the incomplete sets of
classes still being processed.
---
 ir/tr/tr_inheritance.c | 96 +++++++-----------------------------------
 1 file changed, 15 insertions(+), 81 deletions(-)

diff --git a/ir/tr/tr_inheritance.c b/ir/tr/tr_inheritance.c
index 820265a..c77b08d 100644
--- a/ir/tr/tr_inheritance.c
+++ b/ir/tr/tr_inheritance.c
@@ -121,33 +121,19 @@ static pset *get_type_map(const ir_type *tp, dir d)
 
 
 /**
- * Walk over all types reachable from tp in the sub/supertype
- * relation and compute the closure for the two downwards directed
- * relations.
- *
- * The walk in the dag formed by the relation is tricky:  We must visit
- * all subtypes before visiting the supertypes.  So we first walk down.
- * Then we can compute the closure for this type.  Then we walk up.
- * As we call ourselves recursive, and walk in both directions, there
- * can be cycles.  So we have to make sure, that if we visit a node
- * a second time (in a walk up) we do nothing.  For this we increment
- * the master visited flag twice.
- * If the type is marked with master_flag_visited-1 it is on the stack.
- * If it is marked with master_flag_visited it is fully processed.
- *
- * Well, we still miss some candidates ... */
+ * Compute the closure of the two downwards directed relations for tp and all
+ * its subtypes. The relation forms a dag, so it suffices to visit the subtypes
+ * first. */
 static void compute_down_closure(ir_type *tp)
 {
-	ir_visited_t master_visited = get_master_type_visited();
-	set_type_visited(tp, master_visited-1);
+	mark_type_visited(tp);
 
 	/* Recursive descend. */
 	size_t n_subtypes = get_class_n_subtypes(tp);
 	for (size_t i = 0; i < n_subtypes; ++i) {
 		ir_type *stp = get_class_subtype(tp, i);
-		if (get_type_visited(stp) < master_visited-1) {
+		if (!type_visited(stp))
 			compute_down_closure(stp);
-		}
 	}
 
 	/* types */
@@ -173,31 +159,20 @@ static void compute_down_closure(ir_type *tp)
 			pset_insert_pset_ptr(myset, subset);
 		}
 	}
-
-	mark_type_visited(tp);
-
-	/* Walk up. */
-	for (size_t i = 0, n_supertypes = get_class_n_supertypes(tp);
-	     i < n_supertypes; ++i) {
-		ir_type *stp = get_class_supertype(tp, i);
-		if (get_type_visited(stp) < master_visited-1) {
-			compute_down_closure(stp);
-		}
-	}
 }
 
+/** Compute the closure of the two upwards directed relations for tp and all its
+ * supertypes. */
 static void compute_up_closure(ir_type *tp)
 {
-	ir_visited_t master_visited = get_master_type_visited();
-	set_type_visited(tp, master_visited-1);
+	mark_type_visited(tp);
 
 	/* Recursive descend. */
 	size_t n_supertypes = get_class_n_supertypes(tp);
 	for (size_t i = 0; i < n_supertypes; ++i) {
 		ir_type *stp = get_class_supertype(tp, i);
-		if (get_type_visited(stp) < get_master_type_visited()-1) {
+		if (!type_visited(stp))
 			compute_up_closure(stp);
-		}
 	}
 
 	/* types */
@@ -222,17 +197,6 @@ static void compute_up_closure(ir_type *tp)
 			pset_insert_ptr(myset, ov);
 		}
 	}
-
-	mark_type_visited(tp);
-
-	/* Walk down. */
-	for (size_t i = 0, n_subtypes = get_class_n_subtypes(tp);
-	     i < n_subtypes; ++i) {
-		ir_type *stp = get_class_subtype(tp, i);
-		if (get_type_visited(stp) < master_visited-1) {
-			compute_up_closure(stp);
-		}
-	}
 }
 
 void compute_inh_transitive_closure(void)
@@ -241,52 +205,22 @@ void compute_inh_transitive_closure(void)
 
 	/* The 'down' relation */
 	irp_reserve_resources(irp, IRP_RESOURCE_TYPE_VISITED);
-	inc_master_type_visited();  /* Inc twice: one if on stack, second if values computed. */
 	inc_master_type_visited();
 	size_t n_types = get_irp_n_types();
 	for (size_t i = 0; i < n_types; ++i) {
 		ir_type *tp = get_irp_type(i);
-		if (is_Class_type(tp) && !type_visited(tp)) { /* For others there is nothing to accumulate. */
-			size_t n_subtypes = get_class_n_subtypes(tp);
-			int has_unmarked_subtype = 0;
-
-			assert(get_type_visited(tp) < get_master_type_visited()-1);
-			for (size_t j = 0; j < n_subtypes; ++j) {
-				ir_type *stp = get_class_subtype(tp, j);
-				if (!type_visited(stp)) {
-					has_unmarked_subtype = 1;
-					break;
-				}
-			}
-
-			/* This is a good starting point. */
-			if (!has_unmarked_subtype)
-				compute_down_closure(tp);
-		}
+		/* For others there is nothing to accumulate. */
+		if (is_Class_type(tp) && !type_visited(tp))
+			compute_down_closure(tp);
 	}
 
 	/* The 'up' relation */
 	inc_master_type_visited();
-	inc_master_type_visited();
 	for (size_t i = 0; i < n_types; ++i) {
 		ir_type *tp = get_irp_type(i);
-		if (is_Class_type(tp) && !type_visited(tp)) { /* For others there is nothing to accumulate. */
-			size_t n_supertypes = get_class_n_supertypes(tp);
-			int has_unmarked_supertype = 0;
-
-			assert(get_type_visited(tp) < get_master_type_visited()-1);
-			for (size_t j = 0; j < n_supertypes; ++j) {
-				ir_type *stp = get_class_supertype(tp, j);
-				if (!type_visited(stp)) {
-					has_unmarked_supertype = 1;
-					break;
-				}
-			}
-
-			/* This is a good starting point. */
-			if (!has_unmarked_supertype)
-				compute_up_closure(tp);
-		}
+		/* For others there is nothing to accumulate. */
+		if (is_Class_type(tp) && !type_visited(tp))
+			compute_up_closure(tp);
 	}
 
 	irp->inh_trans_closure_state = inh_transitive_closure_valid;
-- 
2.43.0


From f6fe1d3f2cbd1860c875bda9050791fd7bf15149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:35 +0000
Subject: [PATCH 107/109] fix: cgana counts a method overwriting another one on
 several paths once

The array of implementations was longer than the set and kept uninitialized
entries.
---
 ir/ana/cgana.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/ir/ana/cgana.c b/ir/ana/cgana.c
index 5771790..b96a023 100644
--- a/ir/ana/cgana.c
+++ b/ir/ana/cgana.c
@@ -93,23 +93,18 @@ void cg_remove_call_callee_arr(ir_node *node)
  *
  * @param method   the overwritten method
  * @param set      A set of entities.
- *
- * @return Number of entities in set.
  */
-static size_t collect_impls(ir_entity *method, pset *set)
+static void collect_impls(ir_entity *method, pset *set)
 {
-	size_t size = 0;
 	if (get_entity_irg(method) != NULL) {
 		/* has an implementation */
 		pset_insert_ptr(set, method);
-		++size;
 	}
 
 	/*- recursive descent -*/
 	for (size_t i = get_entity_n_overwrittenby(method); i-- > 0;) {
-		size += collect_impls(get_entity_overwrittenby(method, i), set);
+		collect_impls(get_entity_overwrittenby(method, i), set);
 	}
-	return size;
 }
 
 /**
@@ -125,7 +120,8 @@ static ir_entity **get_impl_methods(ir_entity *method)
 	/* Collect all method entities that can be called here */
 	ir_entity  **arr = NULL;
 	pset       *set  = pset_new_ptr_default();
-	size_t      size = collect_impls(method, set);
+	collect_impls(method, set);
+	size_t      size = pset_count(set);
 	if (size > 0) {
 		arr = NEW_ARR_F(ir_entity *, size);
 		foreach_pset(set, ir_entity, ent) {
-- 
2.43.0


From 3e3757e96197950db77ba7a2c8d798bf578ba06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:22 +0000
Subject: [PATCH 108/109] fix: whether common subexpressions are found does not
 depend on addresses

Nodes are changed in place, so the hash they were remembered with may be out of
date. Whether such a node was found again depended on the addresses of its
operands.
---
 ir/ir/irop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/ir/irop.c b/ir/ir/irop.c
index 2d95396..6ebf011 100644
--- a/ir/ir/irop.c
+++ b/ir/ir/irop.c
@@ -200,7 +200,7 @@ static unsigned default_hash_node(const ir_node *node)
 	/* consider all in nodes... except the block if not a control flow. */
 	for (int i = consider_block ? -1 : 0;  i < arity;  ++i) {
 		ir_node *pred = get_irn_n(node, i);
-		hash = 9*hash + hash_ptr(pred);
+		hash = 9*hash + hash_irn(pred);
 	}
 
 	/* ...mode,... */
-- 
2.43.0


From 8dc575f4b75e06de4d0dfca3730a3f8502107d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:57 +0000
Subject: [PATCH 109/109] fix: jump threading does not add predecessors to
 blocks with Phis

---
 ir/opt/jumpthreading.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ir/opt/jumpthreading.c b/ir/opt/jumpthreading.c
index 110b6b6..8fd27bf 100644
--- a/ir/opt/jumpthreading.c
+++ b/ir/opt/jumpthreading.c
@@ -594,6 +594,13 @@ static void thread_jumps(ir_node* block, void* data)
 		*changed = true;
 		return;
 	}
+	/* the block may get another predecessor, but we cannot extend its Phis
+	 * (there are Phis with a single operand at loop exits) */
+	foreach_out_edge(block, edge) {
+		if (is_Phi(get_edge_src_irn(edge)))
+			return;
+	}
+
 	inc_irg_visited(irg);
 	jumpthreading_env_t env;
 	env.cnst_pred  = NULL;
-- 
2.43.0

