// Driver: seeded generation of worlds, batches, replay, minimisation.
#include "core.hpp"
#include "ops.hpp"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <unordered_set>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <ucontext.h>
#include <unistd.h>
#ifndef __has_feature
#define __has_feature(x) 0
#endif
#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#define HAVE_ASAN 1
extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=78:handle_segv=1:handle_sigbus=1:handle_abort=0:detect_stack_use_after_return=0:allocator_may_return_null=1:print_summary=0:print_legend=0:print_full_thread_history=0:malloc_context_size=0:quarantine_size_mb=1"; }
#endif
using namespace sim;

static unsigned char cov_map[1 << 16];
extern "C" void __sanitizer_cov_trace_pc()
{
	if (++E.steps > E.step_budget)
	{
		E.step_budget = ~0ull;
		violate("progress", "no end after %llu steps", static_cast<unsigned long long>(E.steps - E.op_steps0));
	}
	cov_map[(reinterpret_cast<std::uintptr_t>(__builtin_return_address(0)) * 0x9e3779b97f4a7c15ull) >> 48] = 1;
}

#ifdef HAVE_ASAN
static void on_asan_death()
{
	if (st->cls[0]) return;
	const char *d = __asan_get_report_description();
	void *a = __asan_get_report_address();
	auto *b = heap.find(a);
	std::snprintf(st->cls, sizeof st->cls, "memory");
	std::snprintf(st->msg, sizeof st->msg, "%s: %s of %zu bytes%s", d && *d ? d : "memory error", __asan_get_report_access_type() ? "write" : "read", __asan_get_report_access_size(), b ? " (in a live block)" : "");
	if (verbose) { std::printf("violation class=%s op=%d: %s\n", st->cls, st->op_index, st->msg); std::fflush(stdout); }
}
#endif
static void on_signal(int s)
{
	if (!st->cls[0])
	{
		std::snprintf(st->cls, sizeof st->cls, "%s", s == SIGTRAP ? "assert" : "crash");
		std::snprintf(st->msg, sizeof st->msg, s == SIGTRAP ? "an internal assertion of the library failed" : "signal %d", s);
		if (verbose) { std::printf("violation class=%s op=%d: %s\n", st->cls, st->op_index, st->msg); std::fflush(stdout); }
	}
	_exit(79);
}
static void on_terminate()
{
	if (!st->cls[0])
	{
		std::snprintf(st->cls, sizeof st->cls, "terminate");
		std::snprintf(st->msg, sizeof st->msg, "std::terminate: an exception escaped where none may");
		if (verbose) { std::printf("violation class=%s op=%d: %s\n", st->cls, st->op_index, st->msg); std::fflush(stdout); }
	}
	_exit(79);
}

// ---------------------------------------------------------------- one run, on a stack at a fixed address
static constexpr std::uintptr_t STACK = 0x210000000000ull;
static constexpr std::size_t STACK_SIZE = 1 << 20;
static ucontext_t main_ctx, run_ctx;
static const Trace *cur_trace;
static const Runner *cur_runner;
static const void *main_stack;
static std::size_t main_stack_size;
static void fiber_entry()
{
#ifdef HAVE_ASAN
	__sanitizer_finish_switch_fiber(nullptr, &main_stack, &main_stack_size);
#endif
	cur_runner->run(*cur_trace);
#ifdef HAVE_ASAN
	__sanitizer_start_switch_fiber(nullptr, main_stack, main_stack_size);
#endif
	swapcontext(&run_ctx, &main_ctx);
}
struct RunResult { u64 full, api; };
static RunResult run_trace(const Trace &t)
{
	static bool init = false;
	if (!init)
	{
		init = true;
		if (mmap(reinterpret_cast<void *>(STACK), STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != reinterpret_cast<void *>(STACK)) _exit(2);
	}
	const Runner *r = nullptr;
	for (auto &x: runners()) if (t.cont == x.name) r = &x;
	if (!r) { std::fprintf(stderr, "unknown container %s\n", t.cont.c_str()); _exit(2); }
	st->cls[0] = 0;
	st->op_index = -1;
	u64 pts[F_KINDS], inj[F_KINDS], ex = E.exhausted_hits, om = E.op_steps_max;
	std::copy(E.points, E.points + F_KINDS, pts);
	std::copy(E.injected, E.injected + F_KINDS, inj);
	const u64 steps = E.steps;
	E = Env{};
	std::copy(pts, pts + F_KINDS, E.points);
	std::copy(inj, inj + F_KINDS, E.injected);
	E.exhausted_hits = ex;
	E.op_steps_max = om;
	E.steps = 0;
	E.hash_mode = t.hash_mode;
	E.hash_seed = t.hash_seed;
	elog = Log{};
	heap.reset(t.heap_seed, t.heap_mode, t.junk);
	live.reset();
	cur_trace = &t;
	cur_runner = r;
	getcontext(&run_ctx);
	run_ctx.uc_stack.ss_sp = reinterpret_cast<void *>(STACK);
	run_ctx.uc_stack.ss_size = STACK_SIZE;
	run_ctx.uc_link = nullptr;
#ifdef HAVE_ASAN
	__asan_unpoison_memory_region(reinterpret_cast<void *>(STACK), STACK_SIZE);
#endif
	std::memset(reinterpret_cast<void *>(STACK + STACK_SIZE - (160 << 10)), 0xa5, 160 << 10);
	makecontext(&run_ctx, fiber_entry, 0);
#ifdef HAVE_ASAN
	void *fake = nullptr;
	__sanitizer_start_switch_fiber(&fake, reinterpret_cast<void *>(STACK), STACK_SIZE);
#endif
	swapcontext(&main_ctx, &run_ctx);
#ifdef HAVE_ASAN
	__sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
#endif
	E.steps += steps;
	return {elog.full, elog.api};
}

// ---------------------------------------------------------------- trace files
static int op_by_name(const std::string &s)
{
	for (int i = 0; i < O_COUNT; ++i) if (s == op_info[i].name) return i;
	return -1;
}
static std::string to_text(const Trace &t)
{
	std::ostringstream o;
	o << "tppsim-trace 1\ncontainer " << t.cont << "\nprofile " << t.profile << "\nseed " << t.seed << "\nenv hash_mode=" << t.hash_mode << " hash_seed=" << t.hash_seed << " domain=" << t.domain << " heap_mode=" << t.heap_mode
	  << " heap_seed=" << t.heap_seed << " junk=" << t.junk << " salts=" << t.salts << " nres=" << t.nres << "\n";
	for (auto &p: t.ops) o << "op " << op_info[p.code].name << " a=" << p.a << " b=" << p.b << " k=" << p.k << " v=" << p.v << " s=" << p.s << " fk=" << p.fk << " fn=" << p.fn << "\n";
	return o.str();
}
static Trace from_text(std::istream &in)
{
	Trace t;
	std::string w, line;
	auto kv = [&](std::istringstream &s, const std::function<void(const std::string &, long long, u64)> &f)
	{
		std::string x;
		while (s >> x)
		{
			auto e = x.find('=');
			if (e == std::string::npos) continue;
			f(x.substr(0, e), std::strtoll(x.c_str() + e + 1, nullptr, 10), std::strtoull(x.c_str() + e + 1, nullptr, 10));
		}
	};
	while (std::getline(in, line))
	{
		std::istringstream s(line);
		if (!(s >> w)) continue;
		if (w == "container") s >> t.cont;
		else if (w == "profile") s >> t.profile;
		else if (w == "seed") s >> t.seed;
		else if (w == "env")
			kv(s, [&](const std::string &k, long long v, u64 u)
			{
				if (k == "hash_mode") t.hash_mode = int(v);
				else if (k == "hash_seed") t.hash_seed = u;
				else if (k == "domain") t.domain = int(v);
				else if (k == "heap_mode") t.heap_mode = int(v);
				else if (k == "heap_seed") t.heap_seed = u;
				else if (k == "junk") t.junk = int(v);
				else if (k == "salts") t.salts = int(v);
				else if (k == "nres") t.nres = int(v);
			});
		else if (w == "op")
		{
			Op p;
			std::string nm;
			s >> nm;
			p.code = op_by_name(nm);
			if (p.code < 0) { std::fprintf(stderr, "unknown op %s\n", nm.c_str()); _exit(2); }
			kv(s, [&](const std::string &k, long long v, u64)
			{
				int x = int(v);
				if (k == "a") p.a = x;
				else if (k == "b") p.b = x;
				else if (k == "k") p.k = x;
				else if (k == "v") p.v = x;
				else if (k == "s") p.s = x;
				else if (k == "fk") p.fk = x;
				else if (k == "fn") p.fn = x;
			});
			t.ops.push_back(p);
		}
	}
	return t;
}

// ---------------------------------------------------------------- generation
struct Profile
{
	int fault_pct = 35;      // share of runs with faults
	int kinds = 127;         // fault kinds used
	int big_pct = 8, huge_pct = 6, giant_pm = 2, len = 40, res_pct = 30;
	double w_single = 1, w_bulk = 1, w_read = 0.5, w_erase = 1, w_cm = 0.6, w_node = 1, w_cap = 0.6, w_alias = 0.25, w_eq = 0.2, w_mem = 0, w_hint = 0.8, w_repl = 1, w_churn = 0.25;
	int fault_ops = 30;      // percent of operations with a fault in a faulty run
};
static Profile profile(const std::string &p)
{
	Profile r;
	if (p == "C01") { r.w_churn = 0.5; r.w_read = 1; }
	else if (p == "C02") { r.w_hint = 2; r.w_cm = 1; r.w_node = 1.5; }
	else if (p == "C03") { r.w_node = 2; r.w_cm = 1; r.w_cap = 1; }
	else if (p == "C04") { r.w_erase = 1.5; }
	else if (p == "C05") { r.w_erase = 4; r.big_pct = 15; }
	else if (p == "C06") { r.w_cm = 4; r.fault_pct = 30; r.w_cap = 1; }
	else if (p == "C07") { r.w_node = 5; r.w_eq = 0.05; r.w_alias = 0.05; }
	else if (p == "C08") { r.w_cap = 5; r.w_churn = 3; r.big_pct = 25; r.huge_pct = 35; r.giant_pm = 6; r.fault_pct = 20; }
	else if (p == "C09") { r.fault_pct = 100; r.fault_ops = 50; r.w_single = 2; r.w_bulk = 0.5; r.w_alias = 0.1; }
	else if (p == "C10") { r.fault_pct = 100; r.fault_ops = 45; r.w_bulk = 2; r.w_cm = 2.5; r.w_node = 1.5; r.w_cap = 1; }
	else if (p == "C11") { r.w_mem = 6; r.fault_pct = 10; r.w_cap = 2; r.w_cm = 1.5; r.w_node = 1.5; }
	else if (p == "C12") { r.res_pct = 90; r.w_cm = 4; r.w_node = 2; r.fault_pct = 25; }
	else if (p == "C15") { r.kinds = F_KCOPY | F_MCOPY | F_CTOR; r.w_cap = 1; }
	else if (p == "C16") { r.w_alias = 6; r.w_read = 0.2; r.w_cap = 0.8; }
	else if (p == "C20") { r.w_single = 3; r.w_repl = 1.5; r.w_read = 0.1; r.w_alias = 0.1; }
	else if (p == "C19") { r.giant_pm = 1000; r.fault_pct = 40; }
	else if (p == "C17") { r.w_eq = 10; r.w_cm = 2; r.w_repl = 1.5; }
	return r;
}
static int giant_pm = -1; // --giant: override
static Trace generate(const std::string &prof, u64 seed, const std::vector<std::string> &conts)
{
	const Profile P = profile(prof);
	Rng g(seed);
	Trace t;
	t.profile = prof;
	t.seed = seed;
	t.cont = conts[g.below(conts.size())];
	Caps caps{};
	for (auto &r: runners()) if (t.cont == r.name) caps = r.caps;
	t.hash_mode = g.chance(35) ? 0 : int(g.below(11));
	t.hash_seed = g.next();
	static const int doms[] = {2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 30, 33, 40};
	t.domain = doms[g.below(17)];
	int len = P.len / 4 + int(g.below(static_cast<u64>(P.len)));
	if (g.chance(25)) len = 3 + int(g.below(9));
	const bool big = g.chance(static_cast<unsigned>(P.big_pct));
	if (big) { t.domain = 60 + int(g.below(140)); len = 6 + int(g.below(20)); }
	if (big && g.chance(static_cast<unsigned>(P.huge_pct))) { t.domain = 400 + int(g.below(2600)); len = 2 + int(g.below(7)); if (t.hash_mode != 1 && t.hash_mode != 3 && t.hash_mode != 7 && t.hash_mode != 10) t.hash_mode = 0; }
	t.heap_mode = int(g.below(5));
	t.heap_seed = g.next();
	t.junk = int(g.below(6));
	t.salts = g.chance(30);
	t.nres = g.chance(static_cast<unsigned>(P.res_pct)) ? 2 + int(g.below(2)) : 1;
	const bool faulty = g.chance(static_cast<unsigned>(P.fault_pct));
	int kinds = P.kinds;
	if (faulty && g.chance(60)) { kinds = 0; for (int x = 0; x < F_KINDS; ++x) if ((P.kinds >> x & 1) && g.chance(40)) kinds |= 1 << x; if (!kinds) kinds = P.kinds; }
	const int fault_ops = faulty ? 5 + int(g.below(static_cast<u64>(P.fault_ops))) : 0;
	// weights, with a random subset of operations switched off (swarm)
	std::vector<double> w(O_COUNT, 0);
	const bool swarm = g.chance(60);
	for (int c = 0; c < O_COUNT; ++c)
	{
		const unsigned k = op_info[c].cat;
		if ((k & MAPONLY) && !caps.map) continue;
		if ((k & K1ONLY) && caps.nk > 1) continue;
		if ((k & STABLEONLY) && !caps.stable) continue;
		if ((k & DENSEONLY) && !caps.dense) continue;
		double x = 1;
		if (k & SINGLE) x *= P.w_single;
		if (k & BULK) x *= 0.6 * P.w_bulk;
		if (k & READ) x *= P.w_read;
		if (k & ERASE) x *= P.w_erase;
		if (k & CM) x *= P.w_cm;
		if (k & NODE) x *= P.w_node;
		if (k & CAP) x *= P.w_cap;
		if (k & ALIAS) x *= P.w_alias;
		if (k & EQL) x *= P.w_eq;
		if (k & HINT) x *= P.w_hint;
		if (k & REPL) x *= P.w_repl;
		if (k & MEM) x = 0.25 * P.w_mem;
		if (c == O_CHURN) x = 0.25 * P.w_churn;
		if (c == O_GIANT) x = 0;
		if (c == O_PLAIN)
#ifdef SIM_ALT
			x = prof == "C11" || prof == "C12" || prof == "C15" || prof == "C16" || prof == "C19" || prof == "C20" ? 0 : 0.6;
#else
			x = 0;
#endif
		if (c == O_INS) x *= 3;
		if (c == O_ERK || c == O_ERI) x *= 1.5;
		if (c == O_CLEAR) x *= 0.3;
		if (c == O_BUCKETS) x *= 0.3;
		if (c == O_MEMUNLIM) x *= 2;
		if (c == O_RESERVE_HUGE) x *= 0.3;
		if (swarm && g.chance(35) && c != O_INS && c != O_MEMLIM && c != O_MEMUNLIM) x = 0;
		if (swarm && g.chance(8)) x *= 5;
		w[static_cast<std::size_t>(c)] = x;
	}
	double sum = 0;
	for (double x: w) sum += x;
	const int key_mode = int(g.below(3));
	int seq = int(g.below(1000));
	auto make = [&](int code)
	{
		Op p;
		p.code = code;
		p.a = g.chance(65) ? 0 : int(g.below(3));
		p.b = int(g.below(64));
		p.k = key_mode == 0 ? int(g.below(static_cast<u64>(t.domain))) : key_mode == 1 ? (seq++ % t.domain) : (g.chance(70) ? int(g.below(static_cast<u64>(std::min(t.domain, 6)))) : int(g.below(static_cast<u64>(t.domain))));
		p.v = 1 + int(g.below(1000));
		p.s = int(g.below(1 << 16));
		return p;
	};
	if (g.chance(50)) // start from something that is not empty
	{
		const int fills = 1 + int(g.below(2));
		for (int f = 0; f < fills; ++f)
		{
			Op p = make(O_FILL);
			if (!big) p.v = int(g.below(static_cast<u64>(std::min(t.domain, 20))));
			t.ops.push_back(p);
		}
	}
	// now and then, one container with up to a quarter of a million elements
	if (g.below(1000) < static_cast<u64>(giant_pm >= 0 ? giant_pm : P.giant_pm))
	{
		Op p = make(O_GIANT);
		p.v = static_cast<int>(std::pow(2.0, 8 + double(g.below(1000)) / 100.0 * 0.98));
		p.s = int(g.below(1 << 30));
		if (faulty && prof != "C15") { do p.fk = 1 << g.below(F_KINDS); while (!(p.fk & kinds)); p.fn = 1 + int(g.below(static_cast<u64>(p.v))); }
		if (t.hash_mode != 1 || prof == "C19") t.hash_mode = 0;
		t.ops.resize(std::min<std::size_t>(t.ops.size(), 1));
		t.ops.push_back(p);
		return t;
	}
	while (static_cast<int>(t.ops.size()) < len)
	{
		double x = double(g.next() >> 11) / 9007199254740992.0 * sum;
		int code = 0;
		while (code + 1 < O_COUNT && (x -= w[static_cast<std::size_t>(code)]) >= 0) ++code;
		Op p = make(code);
		if (fault_ops && g.chance(static_cast<unsigned>(fault_ops)) && !(op_info[code].cat & MEM))
		{
			do p.fk = 1 << g.below(F_KINDS); while (!(p.fk & kinds));
			if (g.chance(30)) p.fk = kinds;
			p.fn = g.chance(55) ? 1 : g.chance(70) ? 1 + int(g.below(5)) : 1 + int(g.below(30));
			t.ops.push_back(p);
			// the same call again without the fault
			if (g.chance(50)) { p.fk = p.fn = 0; t.ops.push_back(p); }
			continue;
		}
		t.ops.push_back(p);
	}
	// A copy that fails half way leaves a part of the source behind: which part follows the unspecified iteration order of an
	// unordered hash table, so when builds are compared such calls are not interrupted.
	if (prof == "C15" && t.cont.rfind("ordered_", 0) != 0 && t.cont.rfind("dense_", 0) != 0)
		for (auto &p: t.ops) if ((op_info[p.code].cat & (CM | NODE)) && (op_info[p.code].cat & BULK) && p.code != O_ILAS && p.code != O_RCTOR && p.code != O_OVA && p.code != O_OVC) p.fk = p.fn = 0;
	return t;
}

// ---------------------------------------------------------------- replay in a forked child
struct Verdict { bool bad; std::string cls, msg; int op; u64 full, api; };
static Status *child_status()
{
	static Status *s = static_cast<Status *>(mmap(nullptr, sizeof(Status) + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	return s;
}
static Verdict run_forked(const Trace &t)
{
	Status *s = child_status();
	std::memset(static_cast<void *>(s), 0, sizeof *s);
	std::fflush(nullptr);
	u64 *extra = reinterpret_cast<u64 *>(s + 1);
	pid_t pid = fork();
	if (pid == 0)
	{
		st = s;
		verbose = false;
		int dn = open("/dev/null", O_WRONLY);
		dup2(dn, 2);
		dup2(dn, 1);
		alarm(60);
		auto r = run_trace(t);
		extra[0] = r.full;
		extra[1] = r.api;
		s->done = 1;
		_exit(0);
	}
	int ws = 0;
	waitpid(pid, &ws, 0);
	Verdict v{};
	v.bad = !s->done;
	v.op = s->op_index;
	v.full = extra[0];
	v.api = extra[1];
	if (v.bad)
	{
		v.cls = s->cls[0] ? s->cls : WIFSIGNALED(ws) ? (WTERMSIG(ws) == SIGALRM ? "timeout" : "crash") : "crash";
		v.msg = s->msg;
	}
	return v;
}
// violation classes that describe the same breakage in different words are interchangeable while shrinking
static std::string cls_group(const std::string &c)
{
	if (c == "memory" || c == "crash" || c == "assert" || c == "lifetime" || c == "alloc") return "unsafe";
	if (c == "size" || c == "content" || c == "iter" || c == "lookup" || c == "result") return "content";
	return c;
}
static Trace minimise(Trace t, const std::string &grp, int budget)
{
	auto bad = [&](const Trace &x)
	{
		if (budget-- <= 0) return false;
		auto v = run_forked(x);
		return v.bad && v.cls != "timeout" && cls_group(v.cls) == grp;
	};
	// cut everything after the failing operation
	{
		auto v = run_forked(t);
		if (v.bad && v.op >= 0 && v.op + 1 < static_cast<int>(t.ops.size()))
		{
			Trace x = t;
			x.ops.resize(static_cast<std::size_t>(v.op) + 1);
			if (bad(x)) t = x;
		}
	}
	for (std::size_t chunk = std::max<std::size_t>(1, t.ops.size() / 2);; chunk = std::max<std::size_t>(1, chunk / 2))
	{
		bool any = false;
		for (std::size_t p = 0; p < t.ops.size();)
		{
			Trace x = t;
			x.ops.erase(x.ops.begin() + static_cast<std::ptrdiff_t>(p), x.ops.begin() + static_cast<std::ptrdiff_t>(std::min(t.ops.size(), p + chunk)));
			if (bad(x)) { t = x; any = true; }
			else p += chunk;
		}
		if (budget <= 0 || (chunk == 1 && !any)) break;
	}
	// simplify the environment and the arguments
	auto attempt = [&](const std::function<bool(Trace &)> &f)
	{
		Trace x = t;
		if (f(x) && bad(x)) t = x;
	};
	attempt([](Trace &x) { if (!x.hash_mode) return false; x.hash_mode = 0; return true; });
	attempt([](Trace &x) { if (x.hash_mode == 1) return false; x.hash_mode = 1; return true; });
	attempt([](Trace &x) { if (!x.heap_mode) return false; x.heap_mode = 0; return true; });
	attempt([](Trace &x) { if (!x.junk) return false; x.junk = 0; return true; });
	attempt([](Trace &x) { if (!x.salts) return false; x.salts = 0; return true; });
	attempt([](Trace &x) { if (x.nres == 1) return false; x.nres = 1; return true; });
	for (int d: {2, 3, 4, 8, 16, 32}) attempt([d](Trace &x) { if (d >= x.domain) return false; x.domain = d; return true; });
	for (std::size_t i = 0; i < t.ops.size() && budget > 0; ++i)
	{
		attempt([i](Trace &x) { auto &o = x.ops[i]; if (!o.fk) return false; o.fk = o.fn = 0; return true; });
		if (t.ops[i].fk && (t.ops[i].fk & (t.ops[i].fk - 1)))
			for (int b = 0; b < F_KINDS; ++b) attempt([i, b](Trace &x) { auto &o = x.ops[i]; if (!(o.fk >> b & 1) || o.fk == (1 << b)) return false; o.fk = 1 << b; return true; });
		attempt([i](Trace &x) { auto &o = x.ops[i]; if (o.fn < 2) return false; o.fn = 1; return true; });
		for (int Op::*f: {&Op::a, &Op::k, &Op::v, &Op::s, &Op::b})
		{
			attempt([i, f](Trace &x) { auto &o = x.ops[i].*f; if (!o) return false; o = 0; return true; });
			attempt([i, f](Trace &x) { auto &o = x.ops[i].*f; if (o <= 1) return false; o = o / 2; return true; });
		}
		attempt([i](Trace &x) { auto &o = x.ops[i].code; if (!(op_info[o].cat & INSERT) || !(op_info[o].cat & SINGLE) || o == O_INS) return false; o = O_INS; return true; });
	}
	return t;
}

static std::string json_str(const std::string &s)
{
	std::string o = "\"";
	for (char c: s)
	{
		if (c == '"' || c == '\\') o += '\\', o += c;
		else if (static_cast<unsigned char>(c) < 32) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o + "\"";
}

int main(int argc, char **argv)
{
	std::string mode = argc > 1 ? argv[1] : "";
	std::map<std::string, std::string> opt;
	std::vector<std::string> pos;
	for (int i = 2; i < argc; ++i)
	{
		std::string a = argv[i];
		if (a.rfind("--", 0) == 0 && i + 1 < argc) opt[a.substr(2)] = argv[i + 1], ++i;
		else pos.push_back(a);
	}
	auto num = [&](const char *k, u64 d) { return opt.count(k) ? std::strtoull(opt[k].c_str(), nullptr, 10) : d; };
	std::sort(runners().begin(), runners().end(), [](const Runner &a, const Runner &b) { return std::string(a.name) < b.name; });
	std::vector<std::string> conts;
	if (opt.count("conts"))
	{
		std::stringstream s(opt["conts"]);
		for (std::string x; std::getline(s, x, ',');) conts.push_back(x);
	}
	else for (auto &r: runners()) conts.push_back(r.name);

#ifdef HAVE_ASAN
	__sanitizer_set_death_callback(on_asan_death);
#else
	std::signal(SIGSEGV, on_signal);
	std::signal(SIGBUS, on_signal);
#endif
	std::signal(SIGTRAP, on_signal);
	std::signal(SIGABRT, on_signal);
	std::signal(SIGILL, on_signal);
	std::signal(SIGFPE, on_signal);
	std::set_terminate(on_terminate);

	if (opt.count("status"))
	{
		int fd = open(opt["status"].c_str(), O_RDWR | O_CREAT, 0600);
		if (ftruncate(fd, sizeof(Status)) != 0) return 2;
		st = static_cast<Status *>(mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
		std::memset(static_cast<void *>(st), 0, sizeof *st);
	}
	const std::string prof = opt.count("profile") ? opt["profile"] : "C01";
	const u64 base = num("seed", 1);
	if (opt.count("giant")) giant_pm = static_cast<int>(num("giant", 0));
	auto seed_of = [&](u64 i) { return mix64(mix64(base * 1000003) ^ (i * 2654435761ull)) >> 1; };
	if (mode == "gen")
	{
		std::cout << to_text(generate(prof, seed_of(num("index", 0)), conts));
		return 0;
	}
	if (mode == "list")
	{
		for (auto &r: runners()) std::cout << r.name << "\n";
		return 0;
	}
	if (mode == "replay" || mode == "min")
	{
		std::ifstream f(pos.at(0));
		if (!f) { std::fprintf(stderr, "cannot open %s\n", pos[0].c_str()); return 2; }
		Trace t = from_text(f);
		if (mode == "replay")
		{
			if (opt.count("v")) verbose = true;
			const bool twice = num("twice", 0);
			if (verbose && !twice)
			{
				auto r = run_trace(t);
				std::printf("held full=%llu api=%llu\n", static_cast<unsigned long long>(r.full), static_cast<unsigned long long>(r.api));
				return 0;
			}
			auto v = run_forked(t);
			std::printf("{\"bad\":%s,\"cls\":%s,\"msg\":%s,\"op\":%d,\"full\":%llu,\"api\":%llu}\n", v.bad ? "true" : "false", json_str(v.cls).c_str(), json_str(v.msg).c_str(), v.op, static_cast<unsigned long long>(v.full), static_cast<unsigned long long>(v.api));
			return v.bad ? 77 : 0;
		}
		auto v = run_forked(t);
		if (!v.bad) { std::printf("{\"bad\":false}\n"); return 0; }
		Trace x = minimise(t, cls_group(v.cls), static_cast<int>(num("budget", 600)));
		auto v2 = run_forked(x);
		std::ofstream o(pos.at(1));
		o << to_text(x) << "expect class=" << v2.cls << " op=" << v2.op << "\n# " << v2.msg << "\n";
		std::printf("{\"bad\":true,\"cls\":%s,\"msg\":%s,\"op\":%d,\"ops\":%zu}\n", json_str(v2.cls).c_str(), json_str(v2.msg).c_str(), v2.op, x.ops.size());
		return 77;
	}
	if (mode == "batch")
	{
		const u64 worker = num("worker", 0), workers = num("workers", 1), start = num("start", 0), maxn = num("max", ~0ull);
		const double limit = std::strtod(opt.count("time") ? opt["time"].c_str() : "10", nullptr);
		const auto t0 = std::chrono::steady_clock::now();
		std::ofstream hashes;
		if (opt.count("hashes")) hashes.open(opt["hashes"]);
		u64 runs = 0, ops = 0, faulty = 0, opc[O_COUNT] = {}, i = start;
		std::map<std::string, u64> per_cont;
		std::unordered_set<u64> logs;
		u64 allocs = 0, nontrivial = 0;
		for (i = start; i < maxn; ++i)
		{
			if (i % workers != worker) continue;
			if ((runs & 7) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limit) break;
			Trace t = generate(prof, seed_of(i), conts);
			st->run_index = i;
			st->run_seed = t.seed;
			const u64 inj0 = E.injected[0] + E.injected[1] + E.injected[2] + E.injected[3] + E.injected[4] + E.injected[5] + E.injected[6] + E.exhausted_hits;
			auto r = run_trace(t);
			const u64 inj1 = E.injected[0] + E.injected[1] + E.injected[2] + E.injected[3] + E.injected[4] + E.injected[5] + E.injected[6] + E.exhausted_hits;
			faulty += inj1 != inj0;
			if (hashes) hashes << i << " " << t.cont << " " << r.full << " " << r.api << "\n";
			++runs;
			ops += t.ops.size();
			allocs += heap.n_alloc;
			bool mut = false;
			for (auto &p: t.ops) { ++opc[p.code]; mut |= (op_info[p.code].cat & (INSERT | ERASE | CM | NODE)) != 0; }
			if (mut && heap.n_alloc) { ++nontrivial; if (logs.size() < 3000000) logs.insert(r.full); }
			++per_cont[t.cont];
		}
		st->done = 1;
		if (opt.count("logs"))
		{
			std::ofstream lf(opt["logs"], std::ios::binary);
			for (u64 x: logs) lf.write(reinterpret_cast<const char *>(&x), sizeof x);
		}
		u64 edges = 0;
		for (auto x: cov_map) edges += x;
		std::ofstream o(opt.count("out") ? opt["out"] : "/dev/stdout");
		o << "{\"runs\":" << runs << ",\"next\":" << i << ",\"ops\":" << ops << ",\"steps\":" << E.steps << ",\"faulty_runs\":" << faulty << ",\"distinct\":" << logs.size() << ",\"nontrivial\":" << nontrivial << ",\"states\":" << states.distinct << ",\"edges\":" << edges
		  << ",\"allocs\":" << allocs << ",\"max_op_steps\":" << E.op_steps_max << ",\"exhausted_hits\":" << E.exhausted_hits << ",\"faults\":{";
		for (int k = 0; k < F_KINDS; ++k) o << (k ? "," : "") << "\"" << fault_names[k] << "\":[" << E.points[k] << "," << E.injected[k] << "]";
		o << "},\"opcounts\":{";
		for (int k = 0; k < O_COUNT; ++k) o << (k ? "," : "") << "\"" << op_info[k].name << "\":[" << opc[k] << "," << probes[k] << "]";
		o << "},\"steps_per_call\":[" << cost_max[0] << "," << cost_max[1] << "," << cost_max[2] << "," << cost_max[3] << "],\"conts\":{";
		bool first = true;
		for (auto &p: per_cont) { o << (first ? "" : ",") << "\"" << p.first << "\":" << p.second; first = false; }
		o << "}}\n";
		return 0;
	}
	std::fprintf(stderr, "usage: sim batch|gen|replay|min|list ...\n");
	return 2;
}
