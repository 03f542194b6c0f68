// Common steps of the program-level checks.
#pragma once
#include "interp.h"
#include "passes.h"

struct Case {
	Program p;
	Built b;
	const TargetDesc *t = nullptr;
	std::vector<RunResult> ref;
	EvalStats st;
};
// generates a program and its reference runs; discards programs without a defined run
void make_case(pbt::Ctx &c, Case &k, const GenCfg &cfg);
// runs the graphs and compares; empty: fine.  Discards what the interpreter cannot judge.
std::string check_graphs(Case &k, uint64_t seed);
void stage(const std::string &s);
GenCfg default_cfg(const TargetDesc &t);
void dump_all(const char *what);
