"""The properties, where they are anchored, and the harness that decides each."""
P = []
CHECKS = {}

def prop(id, title, statement, over, qtext, why, files, mech, harness=None, cfg="opt", technique="", note="", **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    CHECKS[id] = dict(harness=harness, cfg=cfg, technique=technique, note=note, **kw)

SEMNOTE = ("Random exploration, not exhaustive. Trusts the harness's reference evaluator and graph interpreter (they are checked "
           "against each other on every case) and gcc. Programs with undefined behaviour are excluded by construction.")
WHY = "The existing tests cover number arithmetic and a few containers; none builds a program, and a fixed set of programs could not sample the space of graphs a front end can produce."

prop("P01", "Graph construction yields a valid graph that means the program",
     "Building any well-defined program through the construction interface, including automatic creation of SSA form and the simplifications applied while nodes are created, yields graphs that the verifier accepts and whose execution gives exactly the results, external calls and final memory of the source program. "
     "Turning the construction-time simplifications on or off does not change the meaning.",
     ["inputs", "programs"], "for every program a front end may build and every input on which it is defined", WHY,
     ["ir/ir/ircons.c", "ir/opt/iropt.c", "ir/ana/constbits.c", "ir/ir/irverify.c"],
     [("SSA construction from variable reads and writes", "ir/ir/ircons.c"), ("constant folding, algebraic simplification and common subexpression elimination at node creation", "ir/opt/iropt.c")],
     "sem", technique="generated programs: AST reference evaluator vs interpretation of the constructed graph", note=SEMNOTE)

for id, what, title, files, mech in [
    ("P02", "control flow", "Control-flow passes preserve program meaning and graph validity",
     ["ir/opt/cfopt.c", "ir/opt/jumpthreading.c", "ir/opt/ifconv.c", "ir/opt/return.c", "ir/opt/opt_blocks.c", "ir/opt/boolopt.c", "ir/lower/lower_switch.c", "ir/opt/critical_edges.c", "ir/opt/unreachable.c"],
     [("block merging, branch removal, jump threading, if conversion, return normalisation, switch lowering", "ir/opt/cfopt.c, jumpthreading.c, ifconv.c, return.c, ir/lower/lower_switch.c")]),
    ("P03", "value", "Value optimisations preserve program meaning and graph validity",
     ["ir/opt/iropt.c", "ir/opt/irgopt.c", "ir/opt/gvn_pre.c", "ir/opt/combo.c", "ir/opt/reassoc.c", "ir/opt/convopt.c", "ir/ana/vrp.c", "ir/opt/code_placement.c", "ir/opt/dead_code_elimination.c", "ir/opt/occult_const.c"],
     [("local optimisation, GVN-PRE, combined constant propagation/value numbering, reassociation, conversion optimisation, code placement, dead node elimination", "ir/opt")]),
    ("P04", "memory", "Memory optimisations preserve program meaning and graph validity",
     ["ir/opt/ldstopt.c", "ir/opt/scalar_replace.c", "ir/opt/parallelize_mem.c", "ir/opt/opt_frame.c", "ir/lower/lower_copyb.c", "ir/lower/lower_hl.c", "ir/ana/irmemory.c"],
     [("load/store optimisation, memory operation combining, scalar replacement, memory parallelisation, block copy and access lowering", "ir/opt/ldstopt.c, scalar_replace.c, parallelize_mem.c")]),
    ("P05", "loop", "Loop optimisations preserve program meaning and graph validity",
     ["ir/opt/loop.c", "ir/opt/loop_unrolling.c", "ir/opt/lcssa.c", "ir/opt/opt_osr.c", "ir/ana/irloop.c"],
     [("loop inversion, unrolling, strength reduction", "ir/opt/loop.c, loop_unrolling.c, opt_osr.c")]),
    ("P06", "interprocedural", "Interprocedural passes preserve program meaning and graph validity",
     ["ir/opt/opt_inline.c", "ir/opt/tailrec.c", "ir/opt/funccall.c", "ir/opt/gc_irgs.c", "ir/ana/cgana.c"],
     [("inlining, tail recursion to loops, removal of calls to pure functions, removal of unused entities", "ir/opt/opt_inline.c, tailrec.c, funccall.c, gc_irgs.c")]),
]:
    prop(id, title,
         "Every %s optimisation, run on any valid graph in any state earlier passes left it in, terminates without crashing, leaves graphs the verifier accepts, and does not change the program's results, external calls and final memory on any input for which it is defined." % what,
         ["inputs", "programs", "histories"], "for every valid program, every sequence of preparing passes and every defined input", WHY,
         files, mech, "sem", technique="generated programs and pass sequences: interpret the graph before and after each pass, compare with the reference evaluator", note=SEMNOTE)

BEW = "No existing test compiles anything; the space of programs, option settings and register pressure situations is unbounded."
prop("P10", "Target lowering preserves program meaning and graph validity",
     "Lowering a program for a target (amd64, ia32, arm, sparc, mips, riscv) - 64-bit arithmetic on 32-bit targets, software floating point, builtins, switches, boolean values, calls with compound values, block copies - leaves graphs the verifier accepts and does not change the program's results, external calls and final memory.",
     ["inputs", "programs"], "for every valid program, every supported target and every defined input", BEW,
     ["ir/lower/lower_dw.c", "ir/lower/lower_softfloat.c", "ir/lower/lower_calls.c", "ir/lower/lower_builtins.c", "ir/lower/lower_mode_b.c", "ir/lower/lower_alloc.c", "ir/be/ia32/ia32_intrinsics.c", "ir/opt/arch_dep.c", "ir/be/bemain.c"],
     [("double word lowering", "ir/lower/lower_dw.c, ir/be/ia32/ia32_intrinsics.c"), ("software floating point", "ir/lower/lower_softfloat.c"), ("multiplication and division by constants", "ir/opt/arch_dep.c"), ("calls, builtins, switches, booleans, memory copies", "ir/lower")],
     "be", technique="generated programs: interpret the graph before and after lowering for six targets, compare with the reference evaluator", note=SEMNOTE)
for id, arch, tx in [("P11", "amd64", "amd64"), ("P12", "ia32", "ia32, with integer and x87 floating point arithmetic")]:
    prop(id, "Code generated for %s computes what the program means" % arch,
         "For every valid program that the lowered graph language of the target supports, code generation for %s under any setting of the documented code generation options succeeds, produces assembly the system assembler accepts, and the resulting machine code gives exactly the results, external calls (following the platform's calling convention) and final memory of the program, and preserves the registers and stack the ABI requires." % tx,
         ["inputs", "programs"], "for every valid program, every option setting and every defined input", BEW,
         ["ir/be/%s" % arch, "ir/be/bemain.c", "ir/be/bechordal.c", "ir/be/bespillbelady.c", "ir/be/bespillutil.c", "ir/be/becopyheur4.c", "ir/be/bessaconstr.c", "ir/be/belistsched.c", "ir/be/beblocksched.c", "ir/be/bepeephole.c", "ir/be/begnuas.c", "ir/be/bestack.c"],
         [("instruction selection, peephole optimisation and emission", "ir/be/%s" % arch), ("scheduling, spilling, register allocation, stack layout, assembly output", "ir/be")],
         "be", technique="generated programs and option settings: execute the generated code on the host CPU, compare with the reference evaluator", note="Random exploration, not exhaustive. Trusts the reference evaluator, the host CPU, gcc and GNU binutils. Experimental alternatives that are known not to work (regalloc=pref, fpmath=sse on ia32, 3DNow architectures) are not generated.")

prop("P32", "Generated code depends only on the program and the options",
     "Compiling the same program with the same options yields the same assembly (up to comments and the names of local labels), whatever the process did before: with another layout of the heap, for the second time after the library was shut down and started again, or after an unrelated program was compiled for the same or another target; and the library can be shut down and started again any number of times.",
     ["inputs", "programs", "histories"], "for every valid program, every option setting and every history of the process", "The existing tests compile nothing; dependence on addresses or on state left behind shows only when the same compilation is repeated under different histories.",
     ["ir/common/firm.c", "ir/be/bemain.c", "ir/be/belive.c", "ir/be/becopyopt.c", "ir/be/becopyheur4.c", "ir/be/begnuas.c", "ir/be/belistsched.c", "ir/lower/lower_dw.c", "ir/ir/irop.c"],
     [("start-up and shut-down of the library", "ir/common/firm.c ir_init_library, ir_finish"), ("ordering of nodes in scheduling, spilling and register allocation", "ir/be")],
     "be", technique="generated programs, option settings and process histories: metamorphic comparison of the emitted assembly of two compilations", note="Random exploration, not exhaustive. reassoc and the load/store pass are left out of the preparing passes: they order nodes by address.")

TVN = "Random exploration with boundary-biased operands. Trusts the host's integer and IEEE arithmetic."
prop("P20", "Integer constant arithmetic is two's-complement arithmetic of the mode",
     "Every arithmetic, bitwise, shift, comparison and property operation on integer constants gives the mathematically defined result reduced to the mode's width and signedness, for every mode width; equal values are always represented by the identical object.",
     ["inputs"], "for every integer mode, operation and operand values", "The unit tests sample a few dozen operand tuples; the operand space has more than 2^128 points and the errors live at width and sign boundaries.",
     ["ir/tv/tv.c", "ir/tv/strcalc.c"], [("constant arithmetic on byte strings", "ir/tv/strcalc.c"), ("mode-aware constants, overflow handling", "ir/tv/tv.c")],
     "tv", technique="generated operand tuples vs 128-bit host arithmetic model", note=TVN)
prop("P21", "Floating-point constant arithmetic is correctly rounded IEEE-754 arithmetic",
     "Addition, subtraction, multiplication, division, negation and comparison of floating-point constants give the correctly rounded IEEE-754 result of the format, including subnormals, signed zeros, infinities and NaNs, and report exactness truthfully.",
     ["inputs"], "for every supported float format and every pair of operand bit patterns", "Rounding, subnormal and overflow boundaries are a vanishing fraction of the operand space and are not reached by the handful of pairs in the unit tests.",
     ["ir/tv/fltcalc.c", "ir/tv/tv.c"], [("software floating point", "ir/tv/fltcalc.c")],
     "tv", technique="generated bit patterns vs host IEEE arithmetic (binary16/32/64/80/128)", note=TVN)
prop("P22", "Constant conversions and their textual and byte forms are exact",
     "Converting a constant between integer and floating-point modes, to and from strings, bytes, bit patterns and host numbers gives the value the conversion is defined to give (truncation, sign or zero extension, correct rounding), and printing then parsing a constant gives the same constant.",
     ["inputs"], "for every pair of modes and every value", "The unit tests convert a few values; errors sit at rounding ties, width limits and formatting corner cases.",
     ["ir/tv/tv.c", "ir/tv/strcalc.c", "ir/tv/fltcalc.c"], [("conversion, bitcast, parsing and printing of constants", "ir/tv/tv.c")],
     "tv", technique="generated values and mode pairs: host conversion model and print/parse round trips", note=TVN)

ANW = "The unit tests do not exercise the analyses; wrong results only appear on particular graph shapes (irreducible or endless loops, kept blocks, shared subgraphs, edited graphs) and then silently miscompile."
ANN = "Random exploration over generated graphs, shaped by preceding passes and edits. Trusts the naive recomputation and the graph interpreter of the harness."
def ana(id, title, stmt, over, files, mech, technique):
    prop(id, title, stmt, ["inputs", "programs"], over, ANW, files, mech, "ana", technique=technique, note=ANN)
ana("P40", "Dominance, post-dominance and dominance frontiers match their definition",
    "On every graph the dominator and post-dominator trees, the dominates/strictly-dominates queries, depths, tree walks, deepest common dominators and iterated dominance frontiers are exactly those that follow from removing blocks from the control flow graph.",
    "for every control flow graph, including unreachable, endless, irreducible and kept blocks",
    ["ir/ana/irdom.c", "ir/ana/domfront.c"], [("dominator tree construction and queries", "ir/ana/irdom.c"), ("dominance frontiers", "ir/ana/domfront.c")],
    "generated control flow graphs vs dominance recomputed by block removal")
ana("P41", "The loop tree describes the cycles of the control flow graph",
    "Every cycle of the control flow graph lies in a loop of the tree, loops are nested strongly connected regions, depths and parents agree, marked back edges cut every cycle, and blocks outside cycles lie in no loop.",
    "for every control flow graph, including irreducible and endless loops",
    ["ir/ana/irloop.c", "ir/ana/irbackedge.c", "ir/ana/ircfscc.c"], [("loop tree construction", "ir/ana/ircfscc.c, irloop.c"), ("back edge marks", "ir/ana/irbackedge.c")],
    "generated control flow graphs vs strongly connected components recomputed with the back edges removed")
ana("P42", "Liveness queries agree with data-flow liveness",
    "Asking whether a value is live in, out or at the end of a block gives the answer of the classic data-flow equations over the uses of the value.",
    "for every graph, value and block",
    ["ir/ana/irlivechk.c", "ir/ana/dfs.c"], [("liveness check by dominance and reduced reachability", "ir/ana/irlivechk.c"), ("depth first search numbering", "ir/ana/dfs.c")],
    "generated graphs vs iterated data-flow liveness")
ana("P43", "Use lists and walkers describe exactly the current graph under any edits",
    "At every moment the out edges (maintained incrementally) and out arrays (recomputed) of a node list exactly its uses in the graph, positions included, whatever sequence of edits was applied; the walkers visit every reachable node exactly once, operands first or last as documented.",
    "for every graph and every sequence of edits (set, exchange, turn, new, keep alive, move)",
    ["ir/ir/iredges.c", "ir/ana/irouts.c", "ir/ir/irgwalk.c", "ir/ir/irnode.c", "ir/ir/irgmod.c"], [("incremental use edges", "ir/ir/iredges.c"), ("use arrays", "ir/ana/irouts.c"), ("graph walkers", "ir/ir/irgwalk.c")],
    "generated edit histories: model of the use multiset after every few edits")
ana("P44", "Heights and in-block reachability queries are exact",
    "The height of a node is the length of the longest in-block dependency path to a sink, and the reachability query answers whether one node of a block depends on another, also after graph edits followed by the documented update.",
    "for every block of every graph and every pair of nodes",
    ["ir/ana/heights.c"], [("height computation and pruned reachability search", "ir/ana/heights.c")],
    "generated graphs vs exhaustive longest paths and reachability")
ana("P45", "Accesses declared independent never touch the same bytes",
    "Whenever the memory disambiguator answers no-alias for two accesses, no execution lets both touch a common byte within the same evaluation of their addresses; whenever it answers sure-alias, they always overlap.",
    "for every program, every pair of memory accesses and every execution",
    ["ir/ana/irmemory.c"], [("alias relation, entity usage", "ir/ana/irmemory.c")],
    "generated programs: alias answers vs address pairs observed while interpreting the graph")
ana("P46", "The call graph contains every call that can happen",
    "Callee sets contain every function that a call actually reaches; functions reachable by pointer or from outside are listed as free; the call graph's caller and callee lists are mutually inverse and complete, walks visit every function once, every recursion contains a marked edge, and a call through a method of a class lists all implementations that may overwrite it.",
    "for every program and every execution",
    ["ir/ana/cgana.c", "ir/ana/callgraph.c"], [("callee analysis", "ir/ana/cgana.c"), ("call graph, recursion detection", "ir/ana/callgraph.c")],
    "generated programs: predicted callees vs calls observed while interpreting; graph invariants")
ana("P54", "Class hierarchy queries agree with the declared inheritance",
    "Subclass, overwriting and dispatch queries give the answers that follow from the declared superclasses and overwritten methods, for hierarchies with single and multiple inheritance, before and after the transitive closure was computed and after changes; the closure lists exactly all direct and indirect relations, and the walkers visit every class once and after its superclasses.",
    "for every acyclic class hierarchy and every order of its declaration",
    ["ir/tr/tr_inheritance.c", "ir/tr/typewalk.c", "ir/tr/type.c", "ir/tr/entity.c"], [("transitive closure, subclass and dispatch queries", "ir/tr/tr_inheritance.c"), ("class walkers", "ir/tr/typewalk.c")],
    "generated class hierarchies: queries, closure and walks vs reachability in the declared relations")
ana("P47", "Estimated execution frequencies are finite and flow-conserving",
    "Estimated block frequencies are finite, non-negative, normalised to one entry of the function, and conserve flow: a block is executed neither more often than its predecessors together nor less often than the predecessors that only lead there (unless the documented fallback applies); without loops edges out of a block are taken equally often.",
    "for every control flow graph",
    ["ir/ana/execfreq.c", "ir/adt/gaussjordan.c"], [("linear system over block frequencies", "ir/ana/execfreq.c")],
    "generated control flow graphs: conservation laws over the computed frequencies")
ana("P48", "Known bits and value ranges hold in every execution",
    "Every bit the constant-bit analysis claims to know and every range and known-bit fact the value range propagation records for a node holds for each value the node takes in any execution, also while values circulate in loops.",
    "for every program, every execution and every node",
    ["ir/ana/constbits.c", "ir/ana/vrp.c"], [("constant bit analysis", "ir/ana/constbits.c"), ("value range propagation", "ir/ana/vrp.c")],
    "generated programs: facts vs values observed while interpreting the graph")
ana("P49", "Bits declared don't-care never influence the program",
    "Changing any bits of a value that the don't-care analysis declares irrelevant, in every execution of that node, leaves the results, external calls and final memory of the program unchanged.",
    "for every program, every execution, every node and every choice of the irrelevant bits",
    ["ir/ana/dca.c"], [("don't care analysis", "ir/ana/dca.c")],
    "generated programs: metamorphic perturbation of declared don't-care bits while interpreting")

ADW = "The unit tests cover two containers with a handful of fixed operations; faults need particular sizes, operation orders or iteration while modifying."
ADN = "Random histories against a model, under AddressSanitizer and with assertions. Only documented uses of each operation are generated (see DESIGN.md)."
def adt(id, title, stmt, over, files, mech, technique):
    prop(id, title, stmt, ["inputs", "histories"], over, ADW, files, mech, "adt", cfg="asan", technique=technique, note=ADN)
adt("P50", "Containers behave like the mathematical objects they represent",
    "Bit sets, pointer sets, hash sets, maps, priority queues, double-ended queues, worklists, flexible arrays and union-find structures give the same answers as the set, map, sequence or partition they stand for, after any history of operations, and never touch memory outside their storage.",
    "for every history of operations, every size and every key",
    ["ir/adt/bitset.h", "ir/adt/raw_bitset.h", "ir/adt/cpset.c", "ir/adt/pset_new.c", "ir/adt/hashset.c.h", "ir/adt/pset.c", "ir/adt/set.c", "ir/adt/pmap.c", "ir/adt/pqueue.c", "ir/adt/deq.c", "ir/adt/pdeq.h", "ir/adt/array.c", "include/libfirm/adt/unionfind.h"],
    [("bit set primitives", "ir/adt/raw_bitset.h"), ("open addressing hash set", "ir/adt/hashset.c.h"), ("linear hashing sets", "ir/adt/set.c"), ("heap", "ir/adt/pqueue.c"), ("chunked double-ended queue", "ir/adt/deq.c")],
    "stateful property-based testing: operation histories vs reference models, AddressSanitizer")
adt("P51", "Matching solvers return optimal matchings",
    "The bipartite matcher returns a valid matching of maximum cardinality and the Hungarian solver returns a valid assignment whose total is optimal for the problem, and reports exactly that total.",
    "for every bipartite graph and every cost matrix",
    ["ir/adt/bipartite.c", "ir/adt/hungarian.c"], [("augmenting paths", "ir/adt/bipartite.c"), ("Hungarian method", "ir/adt/hungarian.c")],
    "generated graphs and cost matrices vs exhaustive search")
adt("P52", "Linear system solvers solve the system or report failure",
    "Gauss-Jordan elimination returns a solution of a regular system and reports singular systems; the Gauss-Seidel matrix keeps exactly the entries that were set and its iteration converges to the solution of diagonally dominant systems.",
    "for every system of equations",
    ["ir/adt/gaussjordan.c", "ir/adt/gaussseidel.c"], [("elimination with pivoting", "ir/adt/gaussjordan.c"), ("sparse rows", "ir/adt/gaussseidel.c")],
    "generated systems: residual check and planted solutions")
adt("P53", "PBQP solvers return consistent and, where promised, optimal selections",
    "Every solver returns a valid alternative for each node and reports exactly the cost of that selection, never below the optimum; brute force is optimal always and the reductions are optimal on sparse graphs.",
    "for every PBQP instance with a solution of finite cost",
    ["ir/kaps/optimal.c", "ir/kaps/heuristical.c", "ir/kaps/heuristical_co.c", "ir/kaps/heuristical_co_ld.c", "ir/kaps/brute_force.c", "ir/kaps/matrix.c", "ir/kaps/vector.c", "ir/kaps/kaps.c"],
    [("degree reductions and back propagation", "ir/kaps/optimal.c"), ("bucket queues", "ir/kaps/bucket.c"), ("matrix and vector arithmetic", "ir/kaps/matrix.c, vector.c")],
    "generated instances vs exhaustive enumeration of selections")

prop("P30", "Exporting a program and importing it again gives the same program",
     "Writing any program - graphs in any state the optimisations leave them in, types, entities, initialisers, linkages, constants of every mode - to the textual form and reading it back succeeds and yields a valid program that is equal node by node, type by type and entity by entity, and computes the same results.",
     ["inputs", "programs"], "for every program, in every state a sequence of passes leaves it in", "No unit test exports or imports anything; the state space of node attributes, type graphs and identifiers is unbounded.",
     ["ir/ir/irio.c", "ir/ir/irio.h"], [("export of nodes, types, entities and initialisers", "ir/ir/irio.c"), ("lexer, symbol tables, delayed Phi and Block predecessors on import", "ir/ir/irio.c")],
     "io", technique="generated programs: export/import round trip, full structural comparison and interpretation of the imported graphs",
     note="Random exploration. Excluded: class sub/supertypes and label entities, which the format does not support; malformed input text.")

prop("P31", "The verifier rejects every graph that breaks a rule of the graph language",
     "irg_verify accepts valid graphs in every state the optimisations leave them in, and reports every single breach of the rules of the graph language wherever it occurs: operand and result modes, operand counts, Proj numbers, placement, node attributes, switch tables, control flow structure, dominance of definitions over uses, and graph properties that do not hold.",
     ["inputs", "programs"], "for every valid graph, every rule and every place where it can be broken", "No unit test calls the verifier; the combinations of node kind, operand, mode and surrounding graph are unbounded, and a rule that is no longer checked only shows when another fault goes unnoticed.",
     ["ir/ir/irverify.c"], [("node rules, control flow checks, dominance check, graph property checks", "ir/ir/irverify.c")],
     "io", technique="generated graphs with one planted breach of a rule (or a legal replacement): the verdict must be rejection (acceptance)",
     note="Random exploration. Excluded: breaches of the control flow structure on which the graph walkers themselves do not terminate (a block predecessor that is not control flow).")

NOT_APPLICABLE = []
