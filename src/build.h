// Source language -> libFirm.
#pragma once
#include "prog.h"
extern "C" {
#include <libfirm/firm.h>
}

struct TargetDesc {
	const char *name;     // short name
	const char *triple;
	Arch        arch;
};
extern const TargetDesc targets[];
extern const int n_targets;
const TargetDesc &target(const char *name);

// ir_init_library + target selection; options before target init
void firm_start(const TargetDesc &t, const std::vector<std::string> &options = {});

struct BuildKnobs {
	bool switch_to_private = true;
	bool entry_harness     = true;  // builds t_entry reading t_in / writing t_out
	bool opt_while_building = true; // local optimisation during construction
	unsigned pin_seed = 0;
	bool pure_builtins = false; // builtins without side effects take NoMem, as front ends build them
	ir_mode *arith = nullptr; // mode the target does float arithmetic in
	bool keep_loops = false; // keep the header blocks of all loops alive
	unsigned norm2 = 0;      // constraints set while building: second normalisation, after arch dep lowering
};

struct Built {
	std::vector<ir_type *>   types;
	std::vector<std::vector<ir_entity *>> members;
	std::vector<std::vector<ir_type *>>   member_types; // array types of array fields
	std::vector<ir_entity *> globals, funcs, exts;
	ir_entity *entry = nullptr, *in = nullptr, *out = nullptr;
};
void build_program(Program &p, const TargetDesc &t, const BuildKnobs &k, Built &b);
ir_mode *fmode(M m);
unsigned firm_elem_offset(const Built &b, const Program &p, int type, const Elem &e, const Arch &a);
unsigned firm_type_size(const Built &b, int type);
