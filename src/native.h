// Compiles the current program with libfirm's back end and runs it on the host.
#pragma once
#include "semutil.h"
struct NativeCfg { bool m32 = false; };
void native_setup();  // once per process: builds the drivers
// be_lower_for_target must have run.  Emits assembly to <scratch>/case.s
void emit_asm(pbt::Ctx &c, const char *file, const char *cup = "case.c");
std::string slurp(const std::string &file);
// assembles, links, runs; returns the observed runs
InterpResult run_native(pbt::Ctx &c, Case &k, const std::string &asm_file, bool m32);
int spawn_wait(const std::vector<std::string> &argv, const std::string &out, const std::string &errf, int cpu_s);
void add_runtime_globals(const Case &k, std::string &s, bool m32);
