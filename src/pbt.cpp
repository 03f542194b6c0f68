#include "pbt.h"
#include <sys/personality.h>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

uint64_t hash_bytes(const void *p, size_t n, uint64_t h)
{
	const unsigned char *c = (const unsigned char *)p;
	for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
	return h ^ (h >> 29);
}

static std::string vstrf(const char *fmt, va_list ap)
{
	va_list aq;
	va_copy(aq, ap);
	int n = vsnprintf(nullptr, 0, fmt, aq);
	va_end(aq);
	std::string s((size_t)n + 1, 0);
	vsnprintf(&s[0], s.size(), fmt, ap);
	s.resize((size_t)n);
	return s;
}

std::string strf(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	std::string s = vstrf(fmt, ap);
	va_end(ap);
	return s;
}

void fail(const char *kind, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	std::string s = vstrf(fmt, ap);
	va_end(ap);
	throw Failure{kind, s};
}
void discard(const char *why) { throw Discard{why}; }

static std::vector<Prop> &props()
{
	static std::vector<Prop> v;
	return v;
}
void register_prop(Prop p)
{
	for (Prop &q : props()) {
		if (std::string(q.id) == p.id) { // parts of one property may live in several files
			q.parts.insert(q.parts.end(), p.parts.begin(), p.parts.end());
			return;
		}
	}
	props().push_back(std::move(p));
}

static bool g_thorough;
bool thorough_tier() { return g_thorough; }

// ---- memory shared between the parent and all children -------------------
enum { MAXLABEL = 512, NSAMPLE = 8, SAMPLELEN = 1500, NOTELEN = 1 << 16, MSGLEN = 1 << 16 };
static const uint64_t HSET = 1u << 22;
struct Label { std::atomic<uint32_t> used; char name[92]; std::atomic<uint64_t> n; };
struct WorkerSlot {
	std::atomic<uint64_t> cur;     // case being run
	std::atomic<uint32_t> state;   // 0 running 1 finished batch 2 failure recorded
	char kind[256];
	char msg[MSGLEN];
	char note[NOTELEN];
	volatile uint32_t excuse;
	uint32_t ntape;
	uint32_t tape[1 << 16];
};
struct Shared {
	std::atomic<uint64_t> next, evaluations, nontrivial, discarded, distinct, distinct_overflow, hangs_unconfirmed;
	std::atomic<uint32_t> stop, lock, nsample;
	Label labels[MAXLABEL];
	char  samples[NSAMPLE][SAMPLELEN];
	std::atomic<uint64_t> hset[HSET];
	WorkerSlot slot[64];
};
static Shared *sh;
static bool counting = true;

void Ctx::label(const char *name, uint64_t n)
{
	if (!counting || !sh) return;
	uint64_t h = hash_bytes(name, strlen(name));
	for (unsigned k = 0; k < MAXLABEL; ++k) {
		Label &l = sh->labels[(h + k) % MAXLABEL];
		uint32_t u = l.used.load();
		if (u == 0) {
			uint32_t e = 0;
			while (!sh->lock.compare_exchange_weak(e, 1)) e = 0;
			if (l.used.load() == 0) {
				snprintf(l.name, sizeof l.name, "%s", name);
				l.used.store(1);
			}
			sh->lock.store(0);
		}
		if (strncmp(l.name, name, sizeof l.name - 1) == 0) {
			l.n += n;
			return;
		}
	}
}

static void count_distinct(uint64_t h)
{
	if (h == 0) h = 1;
	for (uint64_t k = 0; k < 64; ++k) {
		std::atomic<uint64_t> &e = sh->hset[(h + k) & (HSET - 1)];
		uint64_t v = e.load();
		if (v == h) return;
		if (v == 0 && e.compare_exchange_strong(v, h)) { sh->distinct++; return; }
		if (v == h) return;
	}
	sh->distinct_overflow++;
}

// ---- running one case ---------------------------------------------------
struct Outcome {
	enum { PASS, DISCARD, FAIL } st = PASS;
	std::string kind, msg, note;
	std::vector<uint32_t> tape;
	std::vector<Span> spans;
};

static std::string g_scratch;
static int g_errfd = -1;

static uint64_t case_seed(uint64_t seed, const Prop &p, const Part &part, uint64_t idx)
{
	uint64_t h = mix(0x1234567, seed);
	h = mix(h, hash_bytes(p.id, strlen(p.id)));
	h = mix(h, hash_bytes(part.name, strlen(part.name)));
	return mix(h, idx);
}

static void arm_timer(int cpu_s)
{
	itimerval it = {};
	it.it_value.tv_sec = cpu_s;
	setitimer(ITIMER_PROF, &it, nullptr);
}

static void set_note(WorkerSlot *ws, const std::string &s)
{
	size_t n = std::min(s.size(), (size_t)NOTELEN - 1);
	memcpy(ws->note, s.data(), n);
	ws->note[n] = 0;
}

static void run_one(const Part &part, Ctx &c, WorkerSlot *ws, Outcome &o)
{
	c.part = part.name;
	c.note = [ws](std::string s) { set_note(ws, s); };
	ws->excuse = 0;
	c.excuse = &ws->excuse;
	try {
		part.fn(c);
		o.st = Outcome::PASS;
	} catch (Failure &f) {
		o.st   = Outcome::FAIL;
		o.kind = f.kind;
		o.msg  = f.msg;
	} catch (Discard &d) {
		o.st = Outcome::DISCARD;
		o.msg = d.why;
	}
	o.tape  = c.t.d;
	o.spans = c.t.spans;
}

static std::string read_err()
{
	std::string s;
	if (g_errfd < 0) return s;
	off_t n = lseek(g_errfd, 0, SEEK_END);
	off_t off = n > 30000 ? n - 30000 : 0;
	s.resize((size_t)(n - off));
	ssize_t r = pread(g_errfd, &s[0], s.size(), off);
	s.resize(r > 0 ? (size_t)r : 0);
	return s;
}

extern "C" const char *__asan_default_options(void) { return "abort_on_error=1:detect_leaks=0:handle_abort=0"; }

static std::string crash_kind(int status, const std::string &err)
{
	if (err.find("ERROR: AddressSanitizer") != std::string::npos) return "crash:asan";
	if (WIFSIGNALED(status)) {
		int sig = WTERMSIG(status);
		if (sig == SIGPROF || sig == SIGXCPU || sig == SIGALRM) return "hang";
		if (sig == SIGKILL) return "killed";
		std::string k = strf("crash:%s", sig == SIGABRT ? "SIGABRT" : sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : strf("SIG%d", sig).c_str());
		return k;
	}
	return strf("exit:%d", WEXITSTATUS(status));
}

static std::string err_summary(const std::string &err)
{
	// the most telling line: an assertion, a panic, or a sanitizer report
	std::istringstream is(err);
	std::string l, best, last;
	while (std::getline(is, l)) {
		if (l.find("Assertion") != std::string::npos || l.find("panic") != std::string::npos
		    || l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("verif") != std::string::npos)
			best = l;
		if (!l.empty()) last = l;
	}
	return best.empty() ? last : best;
}

static void child_setup()
{
	if (g_errfd >= 0) {
		if (!getenv("VERIF_DUMP")) dup2(g_errfd, 2);
		dup2(g_errfd, 1);
	}
	rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
#ifndef __SANITIZE_ADDRESS__
	rl.rlim_cur = rl.rlim_max = 6ull << 30;
	setrlimit(RLIMIT_AS, &rl);
#endif
}

// runs one tape in a forked child
static Outcome run_forked(const Part &part, const std::vector<uint32_t> *tape, uint64_t seed, uint64_t idx, WorkerSlot *ws, bool verbose = false)
{
	Outcome o;
	static struct SpanBuf { uint32_t n; Span s[1 << 15]; } *sb;
	if (!sb) sb = (SpanBuf *)mmap(nullptr, sizeof *sb, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	sb->n = 0;
	ws->state = 0;
	ws->kind[0] = ws->msg[0] = ws->note[0] = 0;
	ws->ntape = 0;
	if (g_errfd >= 0 && ftruncate(g_errfd, 0) == 0) lseek(g_errfd, 0, SEEK_SET);
	fflush(nullptr);
	pid_t pid = fork();
	if (pid == 0) {
		counting = false;
		child_setup();
		Ctx c;
		c.verbose = verbose;
		c.index   = idx;
		c.scratch = g_scratch;
		if (tape) { c.t.d = *tape; c.t.replay = true; }
		else c.t.rng = Rng(seed);
		arm_timer(part.cpu_s);
		Outcome r;
		run_one(part, c, ws, r);
		arm_timer(0);
		if (c.sample.size() && verbose) set_note(ws, c.sample);
		snprintf(ws->kind, sizeof ws->kind, "%s", r.kind.c_str());
		snprintf(ws->msg, sizeof ws->msg, "%s", r.msg.c_str());
		// normalised tape: what was consumed
		std::vector<uint32_t> used = r.tape;
		if (c.t.replay) used.resize(std::min(used.size(), c.t.pos));
		ws->ntape = (uint32_t)std::min(used.size(), (size_t)(1 << 16));
		memcpy(ws->tape, used.data(), ws->ntape * 4);
		sb->n = (uint32_t)std::min(r.spans.size(), (size_t)(1 << 15));
		memcpy(sb->s, r.spans.data(), sb->n * sizeof(Span));
		ws->state = 10 + r.st;
		fflush(nullptr);
		_exit(0);
	}
	int status = 0;
	while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
	o.note = ws->note;
	if (ws->state >= 10) {
		o.st   = (decltype(o.st))(ws->state - 10);
		o.kind = ws->kind;
		o.msg  = ws->msg;
		o.tape.assign(ws->tape, ws->tape + ws->ntape);
		o.spans.assign(sb->s, sb->s + sb->n);
	} else {
		std::string err = read_err();
		o.st   = ws->excuse ? Outcome::DISCARD : Outcome::FAIL;
		o.kind = crash_kind(status, err);
		o.msg  = err_summary(err) + "\n" + err;
		if (tape) o.tape = *tape;
	}
	return o;
}

// the tape a seed generates (needed when the case kills its process): rerun,
// recording decisions into shared memory as they are made is too slow for the
// normal path, so this is only done for failures.
struct LiveTape { std::atomic<uint32_t> n; uint32_t v[1 << 18]; };
static LiveTape *live;

static std::vector<uint32_t> tape_of_seed(const Part &part, uint64_t seed, uint64_t idx, WorkerSlot *ws)
{
	if (!live) live = (LiveTape *)mmap(nullptr, sizeof *live, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	live->n = 0;
	fflush(nullptr);
	pid_t pid = fork();
	if (pid == 0) {
		counting = false;
		child_setup();
		// reserve so that the vector never moves, and publish it on death
		static Ctx c;
		c.index = idx;
		c.scratch = g_scratch;
		c.t.rng = Rng(seed);
		c.t.d.reserve(1 << 18);
		auto h = [](int sig) {
			uint32_t n = (uint32_t)std::min(c.t.d.size(), (size_t)(1 << 18));
			memcpy(live->v, c.t.d.data(), n * 4);
			live->n = n;
			_exit(sig == 0 ? 0 : 1);
		};
		for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGPROF, SIGTRAP}) signal(s, h);
		static char altstack[1 << 16];
		stack_t ss = {};
		ss.ss_sp = altstack;
		ss.ss_size = sizeof altstack;
		sigaltstack(&ss, nullptr);
		struct sigaction sa = {};
		sa.sa_handler = h;
		sa.sa_flags = SA_ONSTACK;
		sigaction(SIGSEGV, &sa, nullptr);
		arm_timer(part.cpu_s);
		Outcome r;
		run_one(part, c, ws, r);
		h(0);
	}
	int status;
	while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
	return std::vector<uint32_t>(live->v, live->v + live->n);
}

// ---- shrinking ----------------------------------------------------------
static double now()
{
	timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}

// same failure while shrinking: the kind and, for a crash, its headline
static std::string fail_class(const Outcome &o)
{
	if (o.kind.compare(0, 5, "crash") == 0 || o.kind.compare(0, 4, "exit") == 0) {
		std::string l = o.msg.substr(0, o.msg.find('\n'));
		std::string r;
		for (char ch : l) if (!isdigit((unsigned char)ch)) r += ch;
		return o.kind + "|" + r;
	}
	return o.kind;
}

static std::vector<uint32_t> shrink(const Part &part, std::vector<uint32_t> best, Outcome first, WorkerSlot *ws, unsigned budget, double wall, Outcome &bestout)
{
	std::string cls = fail_class(first);
	bestout = first;
	std::vector<Span> spans = first.spans;
	double t0 = now();
	unsigned used = 0;
	auto attempt = [&](const std::vector<uint32_t> &cand) {
		if (used >= budget || now() - t0 > wall) return false;
		++used;
		Outcome o = run_forked(part, &cand, 0, 0, ws);
		if (o.st != Outcome::FAIL || fail_class(o) != cls) return false;
		std::vector<uint32_t> nt = o.kind.compare(0, 5, "crash") == 0 || o.kind == "hang" ? cand : o.tape;
		// trailing zeros mean the same as the end of the tape
		while (!nt.empty() && nt.back() == 0) nt.pop_back();
		if (nt.size() > best.size() || (nt.size() == best.size() && !std::lexicographical_compare(nt.begin(), nt.end(), best.begin(), best.end()))) return false;
		best = nt;
		bestout = o;
		if (!o.spans.empty()) spans = o.spans;
		return true;
	};
	bool progress = true;
	while (progress && used < budget && now() - t0 < wall) {
		progress = false;
		// delete spans, largest first
		{
			std::vector<Span> ss = spans;
			std::sort(ss.begin(), ss.end(), [](Span a, Span b) { return a.e - a.b > b.e - b.b; });
			for (size_t k = 0; k < ss.size() && k < 120; ++k) {
				Span s = ss[k];
				if (s.e > best.size()) continue;
				std::vector<uint32_t> c(best);
				c.erase(c.begin() + s.b, c.begin() + s.e);
				if (attempt(c)) { progress = true; break; }
				c = best;
				bool nz = false;
				for (uint32_t i = s.b; i < s.e; ++i) { nz |= c[i] != 0; c[i] = 0; }
				if (nz && attempt(c)) { progress = true; break; }
			}
			if (progress) continue;
		}
		for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1; len /= 2) {
			for (size_t i = 0; i + len <= best.size();) {
				std::vector<uint32_t> c(best);
				c.erase(c.begin() + (long)i, c.begin() + (long)(i + len));
				if (attempt(c)) { progress = true; continue; }
				c = best;
				bool nz = false;
				for (size_t j = i; j < i + len; ++j) { nz |= c[j] != 0; c[j] = 0; }
				if (nz && attempt(c)) progress = true;
				i += len;
			}
		}
		for (size_t i = 0; i < best.size(); ++i) {
			uint32_t v = best[i];
			for (uint32_t nv : {v / 2, v - 1}) {
				if (v == 0 || nv >= v || i >= best.size()) continue;
				std::vector<uint32_t> c(best);
				c[i] = nv;
				if (attempt(c)) { progress = true; break; }
			}
		}
	}
	return best;
}

// ---- known findings -----------------------------------------------------
struct Known { std::string tape_part, prop, part, match, match2, what; std::vector<uint32_t> tape; bool has_tape = false; };

static std::string json_str(const std::string &line, const char *key)
{
	std::string k = std::string("\"") + key + "\"";
	size_t p = line.find(k);
	if (p == std::string::npos) return "";
	p = line.find('"', line.find(':', p + k.size()));
	if (p == std::string::npos) return "";
	std::string r;
	for (++p; p < line.size() && line[p] != '"'; ++p) {
		if (line[p] == '\\' && p + 1 < line.size()) ++p;
		r += line[p];
	}
	return r;
}

static std::vector<Known> load_known(const std::string &path, const std::string &prop)
{
	std::vector<Known> res;
	std::ifstream f(path);
	std::string l;
	while (std::getline(f, l)) {
		if (l.empty() || l[0] != '{') continue;
		Known k;
		k.prop = json_str(l, "property");
		if (k.prop != prop || json_str(l, "status") == "fixed") continue;
		k.part  = json_str(l, "part");
		k.tape_part = json_str(l, "tape_part");
		k.match = json_str(l, "match");
		k.match2 = json_str(l, "match2");
		k.what  = json_str(l, "what");
		size_t p = l.find("\"tape\"");
		if (p != std::string::npos) {
			k.has_tape = true;
			p = l.find('[', p);
			const char *s = l.c_str() + p + 1;
			while (*s && *s != ']') {
				char *e;
				unsigned long v = strtoul(s, &e, 10);
				if (e == s) { ++s; continue; }
				k.tape.push_back((uint32_t)v);
				s = e;
			}
		}
		res.push_back(k);
	}
	return res;
}

static const Known *match_known(const std::vector<Known> &ks, const std::string &part, const Outcome &o)
{
	for (const Known &k : ks) {
		if (!k.part.empty() && k.part != part) continue;
		std::string text = o.kind + " " + o.msg;
		if (!k.match.empty() && text.find(k.match) != std::string::npos && (k.match2.empty() || text.find(k.match2) != std::string::npos)) return &k;
	}
	return nullptr;
}

static std::string jesc(const std::string &s)
{
	std::string r;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
		else if (c == '\n') r += "\\n";
		else if (c == '\t') r += "\\t";
		else if (c < 32 || c >= 127) r += strf("\\u%04x", c);
		else r += (char)c;
	}
	return r;
}

static void write_replay(const std::string &path, const Prop &p, const Part &part, const std::vector<uint32_t> &tape, const Outcome &o)
{
	std::ofstream f(path);
	f << "property=" << p.id << "\npart=" << part.name << "\ntape=";
	for (uint32_t v : tape) f << v << ' ';
	f << "\nkind=" << o.kind << "\n--- message\n" << o.msg << "\n--- case\n" << o.note << "\n";
}

static void mkdirs(const std::string &p)
{
	for (size_t i = 1; i <= p.size(); ++i)
		if (i == p.size() || p[i] == '/') mkdir(p.substr(0, i).c_str(), 0777);
}

static void setup_worker(int w)
{
	const char *tmp = getenv("VERIF_TMP");
	g_scratch = strf("%s/verif-%d-%d", tmp ? tmp : "/tmp", (int)getpid(), w);
	mkdirs(g_scratch);
	g_errfd = memfd_create("verif-err", MFD_CLOEXEC);
}
static void cleanup_scratch()
{
	if (g_scratch.empty() || g_scratch.find("/verif-") == std::string::npos) return;
	std::string cmd = "rm -rf -- '" + g_scratch + "'";
	if (system(cmd.c_str()) != 0) {}
}

struct Found { std::string part; uint64_t idx; };

static void worker_loop(int w, const Prop &p, const Part &part, uint64_t total, uint64_t seed, const std::vector<Known> &known, double deadline, int outfd)
{
	WorkerSlot *ws = &sh->slot[w];
	while (!sh->stop && now() < deadline) {
		uint64_t b0 = sh->next.fetch_add((uint64_t)part.batch);
		if (b0 >= total) break;
		uint64_t b1 = std::min(b0 + (uint64_t)part.batch, total);
		uint64_t start = b0;
		while (start < b1) {
			if (ftruncate(g_errfd, 0) == 0) lseek(g_errfd, 0, SEEK_SET);
			ws->cur = start;
			ws->state = 0;
			ws->note[0] = 0;
			pid_t pid = fork();
			if (pid == 0) {
				child_setup();
				for (uint64_t i = start; i < b1; ++i) {
					ws->cur = i;
					Ctx c;
					c.index   = i;
					c.scratch = g_scratch;
					c.t.rng   = Rng(case_seed(seed, p, part, i));
					arm_timer(part.cpu_s);
					Outcome o;
					run_one(part, c, ws, o);
					if (o.st == Outcome::FAIL) {
						snprintf(ws->kind, sizeof ws->kind, "%s", o.kind.c_str());
						snprintf(ws->msg, sizeof ws->msg, "%s", o.msg.c_str());
						ws->state = 2;
						_exit(0);
					}
					if (o.st == Outcome::DISCARD) {
						sh->discarded++;
						c.label(("discard: " + o.msg).c_str());
						continue;
					}
					sh->evaluations++;
					if (c.nontrivial_) {
						uint64_t h = c.hash ? c.hash : hash_bytes(c.t.d.data(), c.t.d.size() * 4);
						h = mix(h, hash_bytes(part.name, strlen(part.name)));
						count_distinct(h);
						sh->nontrivial++;
						if (!c.sample.empty() && sh->nsample < NSAMPLE) {
							uint32_t k = sh->nsample++;
							if (k < NSAMPLE) snprintf(sh->samples[k], SAMPLELEN, "[%s #%llu] %s", part.name, (unsigned long long)i, c.sample.c_str());
						}
					}
				}
				arm_timer(0);
				ws->state = 1;
				_exit(0);
			}
			int status = 0;
			while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
			uint64_t at = ws->cur;
			if (ws->state == 1) break;
			Outcome o;
			o.st = Outcome::FAIL;
			if (ws->state == 2) {
				o.kind = ws->kind;
				o.msg  = ws->msg;
			} else if (ws->excuse) {
				sh->discarded++;
				Ctx c;
				c.label("discard: crash in an excused step");
				start = at + 1;
				continue;
			} else {
				std::string err = read_err();
				o.kind = crash_kind(status, err);
				o.msg  = err_summary(err) + "\n" + err;
			}
			sh->evaluations++;
			if (const Known *k = match_known(known, part.name, o)) {
				Ctx c;
				c.label(("known finding: " + k->what).c_str());
				start = at + 1;
				continue;
			}
			// report and stop
			uint64_t rec = at;
			if (write(outfd, &rec, sizeof rec) != sizeof rec) {}
			sh->stop = 1;
			return;
		}
	}
}

// Same addresses in every run: hash tables keyed by pointers then iterate alike.
static void fix_addresses(char **argv)
{
	if (getenv("VERIF_NOASLR")) return;
	setenv("VERIF_NOASLR", "1", 1);
	int p = personality(0xffffffff);
	if (p == -1 || (p & ADDR_NO_RANDOMIZE)) return;
	if (personality(p | ADDR_NO_RANDOMIZE) == -1) return;
	execv("/proc/self/exe", argv);
}

int run_main(int argc, char **argv)
{
	fix_addresses(argv);
	std::string id, tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick", evidence, replay, known_path, replay_dir = "replays", only_part;
	uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
	double scale = getenv("VERIF_SCALE") ? atof(getenv("VERIF_SCALE")) : 1.0, wall = 0;
	int nw = getenv("VERIF_JOBS") ? atoi(getenv("VERIF_JOBS")) : (int)sysconf(_SC_NPROCESSORS_ONLN);
	int64_t one = -1;
	double shrink_s = 0;
	bool keep_going = false;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--tier") tier = val();
		else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--evidence") evidence = val();
		else if (a == "--replay") replay = val();
		else if (a == "--known") known_path = val();
		else if (a == "--replay-dir") replay_dir = val();
		else if (a == "--scale") scale = atof(val().c_str());
		else if (a == "--wall") wall = atof(val().c_str());
		else if (a == "--part") only_part = val();
		else if (a == "--case") one = (int64_t)strtoll(val().c_str(), nullptr, 10);
		else if (a == "--jobs") nw = atoi(val().c_str());
		else if (a == "--keep-going") keep_going = true;
		else if (a == "--shrink") shrink_s = atof(val().c_str()); // with --replay: shrink further and rewrite the file's tape
		else if (a == "--list") { for (Prop &p : props()) for (Part &q : p.parts) printf("%s %s\n", p.id, q.name); return 0; }
		else id = a;
	}
	if (nw < 1) nw = 1;
	if (nw > 60) nw = 60;
	g_thorough = tier == "thorough";
	Prop *p = nullptr;
	for (Prop &q : props()) if (id == q.id) p = &q;
	if (!p) { fprintf(stderr, "unknown property '%s'\n", id.c_str()); return 2; }
	sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (sh == MAP_FAILED) { perror("mmap"); return 2; }
	if (p->setup) p->setup();
	double t0 = now();
	if (wall <= 0) wall = g_thorough ? 6 * 3600 : 780;
	double deadline = t0 + wall;
	setup_worker(60);

	auto find_part = [&](const std::string &name) -> Part * {
		for (Part &q : p->parts) if (name == q.name) return &q;
		return nullptr;
	};
	if (!replay.empty()) {
		std::ifstream f(replay);
		std::string l, part;
		std::vector<uint32_t> tape;
		while (std::getline(f, l)) {
			if (l.compare(0, 5, "part=") == 0) part = l.substr(5);
			if (l.compare(0, 5, "tape=") == 0) {
				std::istringstream is(l.substr(5));
				uint32_t v;
				while (is >> v) tape.push_back(v);
			}
		}
		Part *q = find_part(part);
		if (!q) { fprintf(stderr, "no part '%s'\n", part.c_str()); cleanup_scratch(); return 2; }
		Outcome o = run_forked(*q, &tape, 0, 0, &sh->slot[60], true);
		if (shrink_s > 0 && o.st == Outcome::FAIL) {
			Outcome bo = o;
			tape = shrink(*q, tape, o, &sh->slot[60], 1u << 30, shrink_s, bo);
			o = bo;
			std::ofstream f2(replay + ".min");
			f2 << "property=" << p->id << "\npart=" << part << "\nkind=" << o.kind << "\ntape=";
			for (uint32_t v : tape) f2 << v << " ";
			f2 << "\n\n" << o.msg << "\n" << o.note << "\n";
		}
		printf("%s\n%s\n%s\n--- case\n%s\n", o.st == Outcome::FAIL ? "FAIL" : o.st == Outcome::DISCARD ? "DISCARD" : "PASS", o.kind.c_str(), o.msg.c_str(), o.note.c_str());
		cleanup_scratch();
		if (o.st == Outcome::FAIL) {
			printf("VIOLATION property=%s replay=%s\n", p->id, replay.c_str());
			return 1;
		}
		return 0;
	}
	if (one >= 0) {
		Part *q = only_part.empty() ? &p->parts[0] : find_part(only_part);
		Outcome o = run_forked(*q, nullptr, case_seed(seed, *p, *q, (uint64_t)one), (uint64_t)one, &sh->slot[60], true);
		printf("%s\n%s\n%s\n--- case\n%s\n", o.st == Outcome::FAIL ? "FAIL" : o.st == Outcome::DISCARD ? "DISCARD" : "PASS", o.kind.c_str(), o.msg.c_str(), o.note.c_str());
		cleanup_scratch();
		return o.st == Outcome::FAIL;
	}

	std::vector<Known> known;
	if (!known_path.empty()) known = load_known(known_path, p->id);
	std::set<std::string> known_seen;
	for (const Known &k : known) {
		if (!k.has_tape) continue;
		Part *q = find_part(k.tape_part);
		if (!q) continue;
		Outcome o = run_forked(*q, &k.tape, 0, 0, &sh->slot[60]);
		if (o.st == Outcome::FAIL && match_known(known, q->name, o) && known_seen.insert(k.what).second)
			printf("KNOWN-FINDING: property=%s %s\n", p->id, k.what.c_str());
	}

	int violations = 0, unreproducible = 0;
	std::string per_part;
	bool inconclusive = false;
	std::set<std::string> seen_cls;
	for (size_t pi = 0; pi < p->parts.size(); ++pi) {
		Part &part = p->parts[pi];
		if (!only_part.empty() && only_part != part.name) continue;
		uint64_t total = (uint64_t)((double)(g_thorough ? part.thorough : part.quick) * scale);
		if (total == 0) continue;
		uint64_t ev0 = sh->evaluations, from = 0;
		double pt0 = now();
		while (from < total) {
			sh->next = from;
			sh->stop = 0;
			int fds[2];
			if (pipe(fds) != 0) { perror("pipe"); return 2; }
			std::vector<pid_t> ws;
			fflush(nullptr);
			for (int w = 0; w < nw; ++w) {
				pid_t pid = fork();
				if (pid == 0) {
					close(fds[0]);
					setup_worker(w);
					worker_loop(w, *p, part, total, seed, known, deadline, fds[1]);
					cleanup_scratch();
					_exit(0);
				}
				ws.push_back(pid);
			}
			close(fds[1]);
			std::vector<uint64_t> fails;
			uint64_t rec;
			while (read(fds[0], &rec, sizeof rec) == sizeof rec) fails.push_back(rec);
			close(fds[0]);
			for (pid_t x : ws) { int st; waitpid(x, &st, 0); }
			uint64_t reached = std::min<uint64_t>(sh->next, total);
			if (fails.empty()) {
				if (reached < total || now() >= deadline) { if (sh->next < total) inconclusive = true; }
				break;
			}
			std::sort(fails.begin(), fails.end());
			for (uint64_t idx : fails) {
				WorkerSlot *ws0 = &sh->slot[60];
				uint64_t cs = case_seed(seed, *p, part, idx);
				Outcome o = run_forked(part, nullptr, cs, idx, ws0);
				bool confirmed = o.st == Outcome::FAIL;
				std::vector<uint32_t> tape;
				if (confirmed) {
					tape = o.tape;
					if (tape.empty()) tape = tape_of_seed(part, cs, idx, ws0);
					for (int k = 0; k < 3 && confirmed; ++k) {
						Outcome o2 = run_forked(part, &tape, 0, idx, ws0);
						if (o2.st != Outcome::FAIL) confirmed = false;
						else if (k == 0) o = o2;
					}
				}
				if (!confirmed || o.kind == "killed") {
					printf("note: case %s/%s #%llu failed once and did not reproduce: %s\n", p->id, part.name, (unsigned long long)idx, o.msg.substr(0, 400).c_str());
					++unreproducible;
					continue;
				}
				Outcome bo = o;
				std::string cls = fail_class(o);
				bool newcls = seen_cls.insert(cls).second;
				double left = std::max(10.0, std::min(getenv("VERIF_SHRINK_S") ? atof(getenv("VERIF_SHRINK_S")) : (g_thorough ? 120.0 : 45.0), deadline - now() + 60));
				std::vector<uint32_t> small = tape;
				if (newcls && left > 0) small = shrink(part, tape, o, ws0, 4000, left, bo);
				Outcome fin = run_forked(part, &small, 0, 0, ws0, true);
				if (fin.st == Outcome::FAIL) bo = fin;
				else small = tape;
				if (const Known *k = match_known(known, part.name, bo)) {
					printf("note: shrunk to known finding: %s\n", k->what.c_str());
					continue;
				}
				mkdirs(replay_dir);
				std::string path = strf("%s/%s-%s-%llu-%llu.replay", replay_dir.c_str(), p->id, part.name, (unsigned long long)seed, (unsigned long long)idx);
				write_replay(path, *p, part, small, bo);
				++violations;
				printf("failure in part %s case %llu: %s: %s\n--- case\n%s\n---\n", part.name, (unsigned long long)idx, bo.kind.c_str(), bo.msg.substr(0, 1500).c_str(), bo.note.substr(0, 4000).c_str());
				printf("VIOLATION property=%s replay=%s\n", p->id, path.c_str());
				fflush(stdout);
				if (!keep_going) break;
			}
			if (violations && !keep_going) break;
			from = reached;
		}
		per_part += strf("%s\"%s\": {\"cases\": %llu, \"wall_s\": %.1f}", per_part.empty() ? "" : ", ", part.name, (unsigned long long)(sh->evaluations - ev0), now() - pt0);
		if (getenv("VERIF_PROGRESS")) fprintf(stderr, "%s/%s: %llu cases %.1fs\n", p->id, part.name, (unsigned long long)(sh->evaluations - ev0), now() - pt0);
		if (violations && !keep_going) break;
	}
	double wall_s = now() - t0;
	for (unsigned k = 0; k < MAXLABEL; ++k) {
		if (!sh->labels[k].used) continue;
		std::string n = sh->labels[k].name;
		if (n.compare(0, 15, "known finding: ") == 0) {
			std::string what = n.substr(15);
			for (const Known &kk : known)
				if (kk.what.compare(0, what.size(), what) == 0 && known_seen.insert(kk.what).second)
					printf("KNOWN-FINDING: property=%s %s\n", p->id, kk.what.c_str());
		}
	}
	std::map<std::string, uint64_t> labels;
	for (unsigned k = 0; k < MAXLABEL; ++k) if (sh->labels[k].used) labels[sh->labels[k].name] = sh->labels[k].n;
	if (!evidence.empty()) {
		std::string tmp = evidence + ".tmp";
		std::ofstream f(tmp);
		f << "{\n \"property\": \"" << p->id << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
		f << "  \"evaluations\": " << sh->evaluations << ",\n  \"distinct_nontrivial\": " << sh->distinct << ",\n  \"nontrivial\": " << sh->nontrivial << ",\n  \"discarded\": " << sh->discarded << ",\n";
		f << "  \"rule\": \"" << jesc(p->rule) << "\",\n";
		f << "  \"parts\": {" << per_part << "},\n  \"classes\": {";
		bool first = true;
		for (auto &l : labels) { f << (first ? "" : ", ") << "\"" << jesc(l.first) << "\": " << l.second; first = false; }
		f << "},\n  \"unreproducible_failures\": " << unreproducible << ",\n  \"case_budget_completed\": " << (inconclusive ? "false" : "true") << ",\n  \"samples\": [";
		for (unsigned k = 0; k < NSAMPLE && k < sh->nsample; ++k) f << (k ? ", " : "") << "\"" << jesc(sh->samples[k]) << "\"";
		f << "]\n },\n \"assumptions\": [";
		for (size_t k = 0; k < p->assumptions.size(); ++k) f << (k ? ", " : "") << "\"" << jesc(p->assumptions[k]) << "\"";
		f << "],\n \"wall_s\": " << strf("%.2f", wall_s) << ",\n \"violations\": " << violations << "\n}\n";
		f.close();
		rename(tmp.c_str(), evidence.c_str());
	}
	printf("%s %s: %llu cases, %llu distinct non-trivial, %llu discarded, %d violations, %.1fs%s\n", p->id, tier.c_str(), (unsigned long long)sh->evaluations, (unsigned long long)sh->distinct,
	       (unsigned long long)sh->discarded, violations, wall_s, inconclusive ? " (case budget cut by the wall limit)" : "");
	if (getenv("VERIF_LABELS")) for (auto &l : labels) printf("  %-50s %llu\n", l.first.c_str(), (unsigned long long)l.second);
	cleanup_scratch();
	return violations ? 1 : 0;
}

} // namespace pbt
