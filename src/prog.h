// The source language of the program-level checks: a small imperative language
// whose constructs map 1:1 to libFirm's construction API.
#pragma once
#include "pbt.h"
#include "sem.h"
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <vector>

struct Expr;
typedef Expr *E;
struct Expr {
	Expr(Op op, M m) : op(op), mode(m) {}
	Op op;
	M  mode;               // result mode
	uint64_t c = 0;        // OConst: canonical value; OCmp: relation; OLocal/OAddrG/OAddrF/OFuncAddr: index; OBuiltin: BK; OMember: field
	E k[3] = {nullptr, nullptr, nullptr};
	int  type = -1;        // OSel: object type; OMember: object type; OLoad: flags
	bool vol = false;
};

// object types: an array of one mode, or a struct of arrays
struct Field { M mode; unsigned n; unsigned offset = 0; bool is_arr; };
struct ObjType {
	bool  is_struct = false;
	M     mode = MIs;      // array element
	unsigned n = 8;        // array length (power of two)
	std::vector<Field> fields;
	unsigned size = 0, align = 1; // filled in by the builder
};

enum SK : uint8_t { SAssign, SStore, SIf, SLoop, SSwitch, SReturn, SBreak, SContinue, SCall, SExt, SCopyB, SCfg, SShort, SLoopP };
struct Stmt;
typedef std::vector<Stmt *> Block;
struct CfgBlock { Block body; E cond = nullptr; int kind = 0; std::vector<int> succ; std::vector<uint64_t> cases; };
struct Stmt {
	explicit Stmt(SK k) : k(k) {}
	SK  k;
	int dst = -1;               // SAssign/SCall: local; SLoop: counter local
	E   e = nullptr, e2 = nullptr, e3 = nullptr;
	M   mode = Mvoid;           // SStore
	bool vol = false;
	Block b1, b2;
	std::vector<Block> cases;
	std::vector<std::pair<int64_t, int64_t>> ranges; // switch: [lo,hi] per case
	std::vector<uint8_t> fall;  // switch: case falls through to the next
	int  callee = -1;           // SCall: function; -1: indirect via e, SExt: which external
	int  sig = -1;
	std::vector<E> args;
	// SLoop: for (dst = e; dst REL e2; dst += step)
	unsigned rel = 0;
	int64_t  step = 1;
	int      form = 0;          // 0 head-controlled, 1 foot-controlled
	int      fuel = -1;         // fuel local for free-form loops (cond in e3)
	bool     short_or = false;  // SIf with e,e2 as short circuit
	bool neg = false;
	int      type = -1;         // SCopyB
	std::vector<CfgBlock> cfg;
};

struct Sig { std::vector<M> params; M ret = Mvoid; };
struct Local { M mode; int ptype = -1; bool reserved = false; }; // ptype: object type a pointer local points to
struct Func {
	std::string name;
	int  sig = -1;
	std::vector<int> ptypes; // per parameter: object type or -1
	std::vector<Local> locals;
	std::vector<int> frame; // object types of frame objects
	std::vector<uint8_t> frame_init; // frame object initialised on entry (element i holds frame_init_val(i))
	Block body;
	E  ret = nullptr;
	bool is_private = true;
	int  recursive = -1;    // local that bounds recursion depth
};
struct Global { int type; std::vector<uint64_t> init; bool is_private = true; bool is_const = false; std::string name; };

struct Program {
	std::deque<Expr> earena;
	std::deque<Stmt> sarena;
	std::vector<ObjType> types;
	std::vector<Sig> sigs;
	std::vector<Global> globals;
	std::vector<Func> funcs;    // funcs[0] is the entry
	std::vector<std::vector<uint64_t>> vectors; // inputs of the entry
	E mk(Op op, M m) { earena.emplace_back(op, m); return &earena.back(); }
	Stmt *mks(SK k) { sarena.emplace_back(k); return &sarena.back(); }
	std::string prefix = "t_";
};

struct GenCfg {
	bool i64 = true, f32 = true, f64 = true, small = true; // small: arithmetic in 8/16-bit modes
	bool mem = true, ptr = true, structs = true, copyb = true, calls = true, indirect = true, recursion = true, ext = true;
	bool sw = true, loops = true, irreducible = true, mulh = true, bitcast = true, volat = true, divmod = true;
	bool punned = true, fconv = true, exact_float = false, fdiv = true, mux = true, f2i64 = true, u64f = true;
	bool entry_abi_simple = false; // entry takes only 32-bit ints
	unsigned mulh_bits = 8 | 16 | 32 | 64;
	unsigned builtins = ~0u, builtin_bits = 32 | 64;
	unsigned budget = 60;      // rough number of expression nodes
	unsigned max_funcs = 3, max_args = 6, nvec = 4;
	unsigned shift_raw_pct = 6;
	bool modeb_vars = true;
	bool ptr_conv = true;
	bool frame_objs = true;
	bool struct_ops = true;
	unsigned float_pct = 25;
	bool mem_heavy = false; // mostly memory accesses
	bool ipo = false;       // many small functions calling each other and themselves
	bool probe = false;     // straight-line, every expression observed by an external call
	bool expr_only = false; // straight-line expression programs
};

void gen_program(pbt::Tape &t, const GenCfg &cfg, const Arch &arch, Program &p);
std::string show(const Program &p);
uint64_t prog_hash(const Program &p);

// elements of an object type, in order, with the evaluator's own offsets
struct Elem { M mode; unsigned off; int field; unsigned idx; };
std::vector<Elem> elems(const ObjType &t, const Arch &a);
unsigned own_size(const ObjType &t, const Arch &a);
uint64_t frame_init_val(M m, unsigned i);

// ---- reference evaluation ------------------------------------------------
struct Event { int ext; std::vector<uint64_t> args; bool operator==(const Event &o) const { return ext == o.ext && args == o.args; } };
struct RunResult {
	enum { OK, UB, FUEL } st = OK;
	std::string why;
	uint64_t ret = 0;
	std::vector<Event> trace;
	std::vector<std::vector<uint64_t>> globals; // element values after the run
	std::vector<std::vector<uint8_t>> gdef;     // 0: element not comparable (never written or NaN bits)
};
struct EvalStats { uint64_t steps = 0, loads = 0, stores = 0, calls = 0, branches = 0, loop_iters = 0; };
// evaluates all vectors in sequence (global state carries over) and stops
// before the first undefined one; returns the defined prefix
std::vector<RunResult> eval_program(const Program &p, const Arch &arch, EvalStats &st, uint64_t fuel = 60000);

// deterministic external functions the generated programs may call
enum { NEXT = 4 };
extern const Sig ext_sigs[NEXT];
uint64_t ext_result(int which, const std::vector<uint64_t> &args, const Arch &arch);
