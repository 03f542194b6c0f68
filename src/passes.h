#pragma once
#include "build.h"
#include <vector>
struct Pass {
	const char *name;
	const char *group;
	void (*run)(pbt::Tape &t);
	bool prep; // usable as preparation for other passes
};
extern const Pass all_passes[];
extern const int n_passes;
const Pass *find_pass(const char *name);
// all graphs of the program that pass irg_verify? returns name of the broken graph
std::string verify_all();
