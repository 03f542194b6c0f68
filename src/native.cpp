#include "native.h"
#include <fcntl.h>
#include <fstream>
#include <spawn.h>
#include <sstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;

std::string slurp(const std::string &file)
{
	std::ifstream f(file, std::ios::binary);
	std::stringstream s;
	s << f.rdbuf();
	return s.str();
}

static std::string drv64, drv32;

static std::string verif_dir() { const char *d = getenv("VERIF_DIR"); return d ? d : "/verif"; }

int spawn_wait(const std::vector<std::string> &argv, const std::string &out, const std::string &errf, int cpu_s)
{
	pid_t pid = vfork();
	if (pid == 0) {
		if (!out.empty()) { int fd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); close(fd); }
		if (!errf.empty()) { int fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); close(fd); }
		int nul = open("/dev/null", O_RDONLY);
		dup2(nul, 0);
		struct rlimit rl = {(rlim_t)cpu_s, (rlim_t)cpu_s + 1};
		setrlimit(RLIMIT_CPU, &rl);
		rl = {64u << 20, 64u << 20};
		setrlimit(RLIMIT_FSIZE, &rl);
		rl = {0, 0};
		setrlimit(RLIMIT_CORE, &rl);
		std::vector<char *> av;
		for (auto &a : argv) av.push_back((char *)a.c_str());
		av.push_back(nullptr);
		execvp(av[0], av.data());
		_exit(127);
	}
	if (pid < 0) discard("vfork failed");
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	return st;
}

void native_setup()
{
	// the compiled drivers are kept next to the harness binary, named by their source text
	std::string src = verif_dir() + "/src/driver.c";
	std::string text = slurp(src);
	char exe[4096];
	ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
	std::string dir = n > 0 ? std::string(exe, (size_t)n) : "/tmp/x";
	dir = dir.substr(0, dir.rfind('/'));
	std::string base = strf("%s/driver-%016llx", dir.c_str(), (unsigned long long)hash_bytes(text.data(), text.size()));
	drv64 = base + ".64.o";
	drv32 = base + ".32.o";
	struct stat sb;
	for (int m32 = 0; m32 < 2; ++m32) {
		std::string dst = m32 ? drv32 : drv64;
		if (stat(dst.c_str(), &sb) == 0) continue;
		std::string tmp = strf("%s.%d.o", dst.c_str(), (int)getpid());
		std::vector<std::string> a = {"gcc", m32 ? "-m32" : "-m64", "-O1", "-ffreestanding", "-fno-stack-protector", "-fno-pic", "-fno-builtin", "-fcf-protection=none", "-fno-asynchronous-unwind-tables",
			"-fno-tree-loop-distribute-patterns", "-w", "-c", src, "-o", tmp};
		if (m32) { a.push_back("-msse2"); a.push_back("-mfpmath=sse"); a.push_back("-DX87_DOUBLE"); }
		if (spawn_wait(a, "", "", 60) != 0) { fprintf(stderr, "cannot compile the driver\n"); exit(2); }
		rename(tmp.c_str(), dst.c_str());
	}
}

void emit_asm(Ctx &c, const char *file, const char *cup)
{
	(void)c;
	FILE *f = fopen(file, "w");
	if (!f) discard("cannot write the assembly file");
	be_main(f, cup);
	fclose(f);
}

InterpResult run_native(Ctx &c, Case &k, const std::string &asm_file, bool m32)
{
	const Sig &es = k.p.sigs[(size_t)k.p.funcs[0].sig];
	size_t nv = k.ref.size();
	std::string x = "\n\t.section .note.GNU-stack,\"\",@progbits\n\t.data\n\t.p2align 3\n";
	auto word = [&](const char *nm, size_t v) { x += strf("\t.globl t_%s\nt_%s:\t.long %zu\n", nm, nm, v); };
	std::vector<size_t> gl;
	for (size_t g = 0; g < k.p.globals.size(); ++g) if (!k.p.globals[g].is_private) gl.push_back(g);
	word("nvec", nv);
	word("nparam", es.params.size());
	word("nglob", gl.size());
	x += "\t.p2align 3\n\t.globl t_vecs\nt_vecs:\n";
	for (size_t v = 0; v < nv; ++v)
		for (size_t i = 0; i < es.params.size(); ++i) x += strf("\t.quad 0x%llx\n", (unsigned long long)k.p.vectors[v][i]);
	x += "\t.globl t_globs\nt_globs:\n";
	std::vector<unsigned> gsize;
	for (size_t g : gl) {
		gsize.push_back(firm_type_size(k.b, k.p.globals[g].type));
		x += strf("\t%s %s, %u\n", m32 ? ".long" : ".quad", k.p.globals[g].name.c_str(), gsize.back());
	}
	std::string ex = c.scratch + "/extra.s", obj = c.scratch + "/case.o", exe = c.scratch + "/case.exe", out = c.scratch + "/case.out", er = c.scratch + "/case.err";
	{ std::ofstream f(ex); f << x; }
	int st = spawn_wait({"as", m32 ? "--32" : "--64", "-o", obj, asm_file, ex}, "", er, 20);
	if (st) fail("assembler", "the assembler rejects the output: %s", slurp(er).substr(0, 600).c_str());
	st = spawn_wait({"ld", "-m", m32 ? "elf_i386" : "elf_x86_64", "-static", "--no-warn-execstack", "-z", "noexecstack", "-o", exe, obj, m32 ? drv32 : drv64}, "", er, 20);
	if (st) fail("linker", "the linker rejects the object: %s", slurp(er).substr(0, 600).c_str());
	st = spawn_wait({exe}, out, er, 3);
	InterpResult r;
	if (WIFSIGNALED(st)) { r.error = strf("the program was killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); return r; }
	if (st) { r.error = strf("the program exited with status %d", WEXITSTATUS(st)); return r; }
	std::string o = slurp(out);
	size_t at = 0;
	auto u64at = [&]() -> uint64_t { uint64_t v = 0; if (at + 8 > o.size()) { at = o.size() + 1; return 0; } memcpy(&v, o.data() + at, 8); at += 8; return v; };
	while (at < o.size()) {
		char tag = o[at++];
		if (tag == 'V') r.runs.emplace_back();
		else if (tag >= '0' && tag < '0' + NEXT) {
			Event e;
			e.ext = tag - '0';
			for (M m : ext_sigs[e.ext].params) {
				uint64_t v = u64at();
				e.args.push_back(v);
				(void)m;
			}
			r.runs.back().trace.push_back(e);
		} else if (tag == 'R') { r.error = "a callee-saved register or the stack pointer was changed"; return r; }
		else if (tag == 'S') { r.error = "the stack is misaligned at an external call"; return r; }
		else if (tag == 'O') {
			uint64_t v = u64at();
			if (es.ret != Mvoid) {
				unsigned w = mbits(es.ret, k.t->arch);
				v = mfloat(es.ret) ? nan_canon(w == 32 ? v & 0xffffffffu : v, es.ret) : canon(v, w, msigned(es.ret));
				r.runs.back().ret = v;
			}
			r.runs.back().globals.resize(k.p.globals.size());
			for (size_t i = 0; i < gl.size(); ++i) {
				if (at + gsize[i] > o.size()) { r.error = "short output"; return r; }
				const uint8_t *d = (const uint8_t *)o.data() + at;
				for (const Elem &e : elems(k.p.types[(size_t)k.p.globals[gl[i]].type], k.t->arch)) {
					unsigned off = firm_elem_offset(k.b, k.p, k.p.globals[gl[i]].type, e, k.t->arch), n = mbits(e.mode, k.t->arch) / 8;
					uint64_t x2 = 0;
					for (unsigned q = 0; q < n; ++q) x2 |= (uint64_t)d[off + q] << 8 * q;
					
					r.runs.back().globals[gl[i]].push_back(x2);
				}
				at += gsize[i];
			}
		} else if (tag == 'E') break;
		else { r.error = "garbled output"; return r; }
	}
	if (r.runs.size() != nv) r.error = "incomplete output";
	return r;
}
