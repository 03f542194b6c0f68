// Interpreter for libFirm graphs.
#pragma once
#include "build.h"

struct InterpResult {
	// one per vector; stops early on error
	std::vector<RunResult> runs;   // ret / trace / globals (own element order)
	std::vector<std::vector<std::vector<uint8_t>>> gundef; // per run, global, element: 1 if undefined
	std::string error;             // non-empty: what went wrong, in which vector
	bool unsupported = false;
	uint64_t steps = 0;
};
// runs p.vectors[0..nvec) through t_entry; the graphs may be in any state
InterpResult interp_program(const Program &p, const TargetDesc &t, const Built &b, size_t nvec, uint64_t fuel, uint64_t seed);

// compares reference and interpreted runs; empty string: equal
std::string compare_runs(const Program &p, const Arch &a, const std::vector<RunResult> &ref, const InterpResult &got);
// evaluates one expression node of a finished graph? (used by the analyses checks)
struct NodeObs { ir_node *n; uint64_t v; bool poison; };
typedef void (*ObsFn)(void *env, ir_node *n, uint64_t v, bool poison, uint64_t activation);
extern ObsFn interp_observer;
extern void *interp_observer_env;
typedef void (*BlkFn)(void *env, ir_node *block, uint64_t activation);
extern BlkFn interp_block_observer;
// an executed Load or Store: the node, its address operand, the address, the size
typedef void (*MemFn)(void *env, ir_node *n, ir_node *ptr, uint64_t addr, unsigned size, bool store, uint64_t activation);
extern MemFn interp_mem_observer;
typedef void (*CallFn)(void *env, ir_node *call, ir_entity *callee, uint64_t activation);
extern CallFn interp_call_observer;
// replaces the value a node of integer mode computes
typedef uint64_t (*PertFn)(void *env, ir_node *n, uint64_t v);
extern PertFn interp_perturb;
