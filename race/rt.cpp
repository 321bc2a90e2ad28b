// Runtime of the concurrency simulator: baton scheduler, happens-before race detection, simulated heap, driver.
// Not instrumented: it provides the functions that -fsanitize=thread makes the containers call at every memory access.
#include "rt.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <linux/futex.h>
#include <map>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
using namespace rt;

namespace
{
	constexpr u64 mix64(u64 z)
	{
		z += 0x9e3779b97f4a7c15ull;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	struct Rng
	{
		u64 s;
		explicit Rng(u64 x) : s(mix64(x)) {}
		u64 next() { return mix64(s += 0x9e3779b97f4a7c15ull); }
		u64 below(u64 n) { return n ? next() % n : 0; }
		bool chance(unsigned pct) { return below(100) < pct; }
	};
	struct Status
	{
		u64 run_seed, run_index;
		int op_index, done;
		char cls[64], msg[600];
	};
	Status local_status, *st = &local_status;
	bool verbose = false;

	// ------------------------------------------------------------ memory regions
	constexpr std::uintptr_t HEAP = 0x220000000000ull, NEWR = 0x230000000000ull, STK = 0x240000000000ull, SHADOW = 0x250000000000ull;
	constexpr std::size_t ARENA = std::size_t(16) << 20, NEW_SIZE = std::size_t(256) << 20, STK_SIZE = std::size_t(1) << 20;
	constexpr std::size_t HEAP_SIZE = ARENA * (MAX_THREADS + 1);
	std::size_t arena_used[MAX_THREADS + 1];
	int junk_byte;
	extern "C" char __data_start, _end;

	void map_at(std::uintptr_t a, std::size_t n)
	{
		if (mmap(reinterpret_cast<void *>(a), n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != reinterpret_cast<void *>(a))
		{
			std::fprintf(stderr, "cannot map the simulated memory\n");
			_exit(2);
		}
	}

	// ------------------------------------------------------------ threads
	// caller threads 0..3, the controlling thread is 4
	constexpr int MAIN = MAX_THREADS;
	struct Thr
	{
		std::atomic<int> baton{0};
		pthread_t h;
		bool created, finished;
		const void *blocked; // lock this thread waits for
		u32 vc[MAX_THREADS];
		u64 log[4096];
		std::size_t nlog;
		u64 loghash;
		int fk, fn, op, in_op;
	};
	Thr *thr;
	thread_local int self = MAIN;
	int log_id = MAIN; // whose operation runs (differs from self when one thread runs all of them)
	int holder = MAIN;
	int inside = 0;    // runtime code is running: instrumented helpers it shares with the containers are not accesses

	enum Mode { IDLE, CONCURRENT, SERIAL, MIXED } mode = IDLE;
	int who() { return mode == IDLE ? MAIN : mode == MIXED ? log_id : self; }
	void (*before_exit)() = nullptr;
	u64 accesses, access_budget, total_steps;
	u64 countdown, segment;
	std::vector<std::pair<int, u32>> sched_log, *sched_in;
	std::size_t sched_pos;
	Rng sched_rng(0);
	int mean;
	u64 sched_hash, switches;
	const void *last_site[MAX_THREADS + 1];
	unsigned char cov_map[1 << 16], pair_map[1 << 20];
	u64 n_pairs;

	const Trace *cur;
	World *world;

	void futex_wait(std::atomic<int> &a)
	{
		for (;;)
		{
			if (a.load(std::memory_order_acquire) == 1) { a.store(0, std::memory_order_relaxed); return; }
			syscall(SYS_futex, &a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
		}
	}
	void pass(int to)
	{
		holder = to;
		thr[to].baton.store(1, std::memory_order_release);
		syscall(SYS_futex, &thr[to].baton, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
	}
	void close_segment(int t)
	{
		if (mode != CONCURRENT) return;
		sched_log.emplace_back(t, static_cast<u32>(segment));
		sched_hash = mix64(sched_hash ^ mix64(u64(t) << 40 | segment));
		segment = 0;
	}
	// the thread that runs next, and for how long
	int choose()
	{
		int ready[MAX_THREADS], n = 0;
		for (int i = 0; i < cur->threads; ++i) if (!thr[i].finished && !thr[i].blocked) ready[n++] = i;
		if (!n)
		{
			for (int i = 0; i < cur->threads; ++i) if (!thr[i].finished) violate("progress", "deadlock: every unfinished thread waits for a lock");
			return MAIN;
		}
		if (mode != CONCURRENT) { countdown = ~0ull; return ready[0]; }
		if (cur->explicit_sched)
		{
			while (sched_pos < cur->sched.size())
			{
				auto s = cur->sched[sched_pos++];
				if (s.first >= 0 && s.first < cur->threads && !thr[s.first].finished && !thr[s.first].blocked && s.second) { countdown = s.second; return s.first; }
			}
			countdown = ~0ull;
			return ready[0];
		}
		countdown = 1 + sched_rng.below(static_cast<u64>(2 * mean));
		if (sched_rng.chance(10)) countdown = 1;
		return ready[sched_rng.below(static_cast<u64>(n))];
	}
	void switch_from(int t)
	{
		inside = 1;
		const int next = choose();
		if (next == t) { inside = 0; return; }
		const bool over = thr[t].finished; // the controlling thread may start the next run as soon as it gets the baton
		close_segment(t);
		++switches;
		if (next != MAIN)
		{
			const u64 h = mix64(reinterpret_cast<u64>(last_site[t]) * 31 + reinterpret_cast<u64>(last_site[next])) & ((1 << 20) - 1);
			if (!pair_map[h]) { pair_map[h] = 1; ++n_pairs; }
		}
		inside = 0;
		pass(next);
		if (!over) futex_wait(thr[t].baton);
	}

	// ------------------------------------------------------------ race detection
	enum Acc { RD, WR, ARD, AWR };
	struct Cell
	{
		u32 epoch;
		u32 clk[MAX_THREADS][4];
		unsigned char mask[MAX_THREADS][4];
	};
	u32 epoch = 1;
	std::uintptr_t glob_lo, glob_hi;

	Cell *cell_of(std::uintptr_t a)
	{
		std::size_t i;
		if (a - HEAP < HEAP_SIZE) i = (a - HEAP) >> 3;
		else if (a - NEWR < NEW_SIZE) i = (HEAP_SIZE + (a - NEWR)) >> 3;
		else if (a - glob_lo < glob_hi - glob_lo) i = (HEAP_SIZE + NEW_SIZE + (a - glob_lo)) >> 3;
		else return nullptr;
		Cell *c = reinterpret_cast<Cell *>(SHADOW) + i;
		if (c->epoch != epoch) { std::memset(static_cast<void *>(c), 0, sizeof *c); c->epoch = epoch; }
		return c;
	}
	const char *region(std::uintptr_t a) { return a - HEAP < HEAP_SIZE ? "container memory" : a - NEWR < NEW_SIZE ? "dynamic memory" : "a global variable"; }

	void touch(std::uintptr_t a, unsigned mask, Acc k, int t)
	{
		Cell *c = cell_of(a);
		if (!c) return;
		static const unsigned conflict[4] = {1 << WR | 1 << AWR, 1 << RD | 1 << WR | 1 << ARD | 1 << AWR, 1 << WR, 1 << RD | 1 << WR};
		for (int u = 0; u < MAX_THREADS; ++u)
			if (u != t)
				for (int j = 0; j < 4; ++j)
					if ((conflict[k] >> j & 1) && (c->mask[u][j] & mask) && c->clk[u][j] > thr[t].vc[u])
					{
						static const char *nm[] = {"read", "write", "atomic read", "atomic write"};
						violate("race", "%s by thread %d and earlier %s by thread %d of the same bytes of %s, with nothing ordering them", nm[k], t, nm[j], u, region(a));
					}
		if (c->clk[t][k] != thr[t].vc[t]) { c->clk[t][k] = thr[t].vc[t]; c->mask[t][k] = 0; }
		c->mask[t][k] = static_cast<unsigned char>(c->mask[t][k] | mask);
	}
	bool tracked(std::uintptr_t a) { return a - HEAP < HEAP_SIZE || a - NEWR < NEW_SIZE || a - glob_lo < glob_hi - glob_lo; }

	void on_access(const void *p, std::size_t n, Acc k, const void *site)
	{
		if (mode == IDLE || inside || !n) return;
		const std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p);
		if (++accesses > access_budget)
		{
			access_budget = ~0ull;
			violate("progress", "no end after %llu memory accesses", static_cast<unsigned long long>(accesses));
		}
		if (mode != CONCURRENT || !tracked(a)) return;
		const int t = self;
		cov_map[(reinterpret_cast<u64>(site) * 0x9e3779b97f4a7c15ull) >> 48] = 1;
		last_site[t] = site;
		++segment;
		if (--countdown == 0) switch_from(t);
		for (std::uintptr_t x = a & ~std::uintptr_t(7); x < a + n; x += 8)
		{
			const unsigned lo = x < a ? static_cast<unsigned>(a - x) : 0, hi = x + 8 > a + n ? static_cast<unsigned>(a + n - x) : 8;
			touch(x, ((1u << hi) - 1) & ~((1u << lo) - 1), k, t);
		}
	}

	// synchronisation objects: address -> clock
	struct Sync { const void *p; u32 vc[MAX_THREADS]; int owner, depth, readers; };
	Sync syncs[4096];
	std::size_t n_syncs;
	Sync &sync_of(const void *p)
	{
		for (std::size_t i = 0; i < n_syncs; ++i) if (syncs[i].p == p) return syncs[i];
		if (n_syncs == 4096) violate("progress", "too many synchronisation objects");
		Sync &s = syncs[n_syncs++];
		s = Sync{};
		s.p = p;
		s.owner = -1;
		return s;
	}
	void acquire(const void *p)
	{
		if (mode != CONCURRENT) return;
		Sync &s = sync_of(p);
		for (int i = 0; i < MAX_THREADS; ++i) thr[self].vc[i] = std::max(thr[self].vc[i], s.vc[i]);
	}
	void release(const void *p)
	{
		if (mode != CONCURRENT) return;
		Sync &s = sync_of(p);
		for (int i = 0; i < MAX_THREADS; ++i) s.vc[i] = std::max(s.vc[i], thr[self].vc[i]);
		++thr[self].vc[self];
	}
	// a preemption point outside of plain accesses
	void point(const void *site)
	{
		if (mode != CONCURRENT || inside) return;
		last_site[self] = site;
		++segment;
		if (--countdown == 0) switch_from(self);
	}
	bool simulated() { return mode == CONCURRENT && !inside && self != MAIN; }
	int lock(const void *m, bool shared, bool try_only, bool recursive)
	{
		point(m);
		Sync *s = &sync_of(m);
		if (recursive && s->owner == self) { ++s->depth; return 0; }
		while (s->owner >= 0 || (!shared && s->readers))
		{
			if (try_only) return EBUSY;
			thr[self].blocked = m;
			switch_from(self);
			s = &sync_of(m);
		}
		if (shared) ++s->readers;
		else { s->owner = self; s->depth = 1; }
		acquire(m);
		return 0;
	}
	int unlock(const void *m)
	{
		Sync &s = sync_of(m);
		if (s.owner == self && --s.depth > 0) return 0;
		release(m);
		if (s.owner == self) s.owner = -1;
		else if (s.readers) --s.readers;
		for (int i = 0; i < MAX_THREADS; ++i) if (thr[i].blocked == m) thr[i].blocked = nullptr;
		point(m);
		return 0;
	}

	// ------------------------------------------------------------ operator new: blocks freed in a run are not reused before the next one
	struct NewBlk { std::size_t cls; NewBlk *next; };
	constexpr std::size_t NEW_CLS = 24;
	NewBlk *new_free[NEW_CLS], *new_defer[NEW_CLS];
	std::size_t new_used;
	bool new_ready;
	std::size_t size_class(std::size_t n)
	{
		std::size_t c = 0;
		while ((std::size_t(16) << c) < n) ++c;
		return c;
	}
	void *new_alloc(std::size_t n)
	{
		const std::size_t c = size_class(n);
		if (mode == IDLE || self == MAIN || !new_ready || c >= NEW_CLS || new_used + (std::size_t(32) << c) > NEW_SIZE)
		{
			if (void *p = std::malloc(n ? n : 1)) return p;
			throw std::bad_alloc();
		}
		NewBlk *b = new_free[c];
		if (b) new_free[c] = b->next;
		else { b = reinterpret_cast<NewBlk *>(NEWR + new_used); new_used += 16 + (std::size_t(16) << c); b->cls = c; }
		std::memset(static_cast<void *>(b + 1), junk_byte, n);
		return b + 1;
	}
	void new_delete(void *p)
	{
		const auto a = reinterpret_cast<std::uintptr_t>(p);
		if (a - NEWR >= NEW_SIZE) { std::free(p); return; }
		NewBlk *b = static_cast<NewBlk *>(p) - 1;
		on_access(p, std::min<std::size_t>(std::size_t(16) << b->cls, 4096), WR, __builtin_return_address(0));
		b->next = new_defer[b->cls];
		new_defer[b->cls] = b;
	}
	static_assert(sizeof(NewBlk) == 16);
}

void *operator new(std::size_t n) { return new_alloc(n); }
void *operator new[](std::size_t n) { return new_alloc(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { try { return new_alloc(n); } catch (...) { return nullptr; } }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { try { return new_alloc(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { if (p) new_delete(p); }
void operator delete[](void *p) noexcept { if (p) new_delete(p); }
void operator delete(void *p, std::size_t) noexcept { if (p) new_delete(p); }
void operator delete[](void *p, std::size_t) noexcept { if (p) new_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { if (p) new_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { if (p) new_delete(p); }

// ---------------------------------------------------------------- interface to the containers
namespace rt
{
	std::vector<Runner> &runners()
	{
		static std::vector<Runner> r;
		return r;
	}
	void violate(const char *cls, const char *fmt, ...)
	{
		inside = 1;
		std::snprintf(st->cls, sizeof st->cls, "%s", cls);
		va_list ap;
		va_start(ap, fmt);
		std::vsnprintf(st->msg, sizeof st->msg, fmt, ap);
		va_end(ap);
		if (verbose) { std::printf("violation class=%s op=%d: %s\n", st->cls, st->op_index, st->msg); std::fflush(stdout); }
		if (before_exit) before_exit();
		_exit(77);
	}
	u64 n_allocs, n_points[3], n_injected[3];
	void *heap_alloc(std::size_t n)
	{
		const int a = who();
		n = (n + 15) & ~std::size_t(15);
		if (arena_used[a] + n > ARENA) throw BadAlloc{};
		void *p = reinterpret_cast<void *>(HEAP + static_cast<std::size_t>(a) * ARENA + arena_used[a]);
		arena_used[a] += n + 16;
		++n_allocs;
		std::memset(p, junk_byte, n);
		return p;
	}
	void heap_free(void *p, std::size_t n)
	{
		// the block is never used again in this run, so a use by another thread meets this write
		on_access(p, n, WR, __builtin_return_address(0));
	}
	void fault(int kind)
	{
		Thr &t = thr[who()];
		if (!t.in_op) return;
		const int i = kind == F_ALLOC ? 0 : kind == F_COPY ? 1 : 2;
		++n_points[i];
		if ((t.fk & kind) && t.fn > 0 && --t.fn == 0)
		{
			++n_injected[i];
			if (kind == F_ALLOC) throw BadAlloc{};
			throw Fault{};
		}
	}
	void op_start(int index, int fk, int fn)
	{
		Thr &t = thr[who()];
		t.fk = fk;
		t.fn = fn;
		t.in_op = 1;
		t.op = index;
		st->op_index = index;
	}
	void op_end() { thr[who()].in_op = 0; }
	void put(u64 x)
	{
		Thr &t = thr[who()];
		if (t.nlog < 4096) t.log[t.nlog] = x;
		++t.nlog;
		t.loghash = mix64(t.loghash ^ mix64(x));
	}
	void run_as(int id) { if (mode == MIXED) log_id = id; }
	u64 hash_of(int k)
	{
		const u64 x = static_cast<u64>(static_cast<u32>(k)), s = cur->hash_seed, m = mix64(x ^ s);
		switch (cur->hash_mode)
		{
			case 0: return m;
			case 1: return x;
			case 2: return s;
			case 3: return (m & ~u64(0x7f)) | (s & 0x7f);
			case 4: return (s << 7) | (m & 0x7f);
			case 5: return mix64(s + m % 3);
			case 6: return m << 40;
			case 7: return x << 7;
			default: return (m & 0x3f) << 7 | (m >> 20 & 1);
		}
	}
}

// ---------------------------------------------------------------- functions called by instrumented code
extern "C"
{
#define RA __builtin_return_address(0)
#define ACC(n) \
	void __tsan_read##n(void *p) { on_access(p, n, RD, RA); } \
	void __tsan_write##n(void *p) { on_access(p, n, WR, RA); } \
	void __tsan_read_write##n(void *p) { on_access(p, n, RD, RA); on_access(p, n, WR, RA); } \
	void __tsan_unaligned_read##n(void *p) { on_access(p, n, RD, RA); } \
	void __tsan_unaligned_write##n(void *p) { on_access(p, n, WR, RA); } \
	void __tsan_unaligned_read_write##n(void *p) { on_access(p, n, RD, RA); on_access(p, n, WR, RA); } \
	void __tsan_volatile_read##n(void *p) { on_access(p, n, RD, RA); } \
	void __tsan_volatile_write##n(void *p) { on_access(p, n, WR, RA); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
	void __tsan_init() {}
	void __tsan_func_entry(void *) {}
	void __tsan_func_exit() {}
	void __tsan_ignore_thread_begin() {}
	void __tsan_ignore_thread_end() {}
	void __tsan_vptr_update(void **p, void *) { on_access(p, 8, WR, RA); }
	void __tsan_vptr_read(void **p) { on_access(p, 8, RD, RA); }
	void __tsan_read_range(void *p, unsigned long n) { on_access(p, n, RD, RA); }
	void __tsan_write_range(void *p, unsigned long n) { on_access(p, n, WR, RA); }
	void *__tsan_memcpy(void *d, const void *s, unsigned long n) { on_access(s, n, RD, RA); on_access(d, n, WR, RA); return std::memcpy(d, s, n); }
	void *__tsan_memmove(void *d, const void *s, unsigned long n) { on_access(s, n, RD, RA); on_access(d, n, WR, RA); return std::memmove(d, s, n); }
	void *__tsan_memset(void *d, int c, unsigned long n) { on_access(d, n, WR, RA); return std::memset(d, c, n); }
	void __tsan_atomic_thread_fence(int) {}
	void __tsan_atomic_signal_fence(int) {}
#define ATOMIC(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T *p, int) { on_access(const_cast<T *>(p), sizeof(T), ARD, RA); acquire(const_cast<T *>(p)); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##bits##_store(volatile T *p, T v, int) { on_access(const_cast<T *>(p), sizeof(T), AWR, RA); release(const_cast<T *>(p)); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { on_access(const_cast<T *>(p), sizeof(T), AWR, RA); acquire(const_cast<T *>(p)); release(const_cast<T *>(p)); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { on_access(const_cast<T *>(p), sizeof(T), AWR, RA); acquire(const_cast<T *>(p)); release(const_cast<T *>(p)); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { on_access(const_cast<T *>(p), sizeof(T), AWR, RA); acquire(const_cast<T *>(p)); release(const_cast<T *>(p)); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int, int) { on_access(const_cast<T *>(p), sizeof(T), AWR, RA); acquire(const_cast<T *>(p)); release(const_cast<T *>(p)); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
#define ATOMIC_OP(bits, T, name, fn) \
	T __tsan_atomic##bits##_fetch_##name(volatile T *p, T v, int) { on_access(const_cast<T *>(p), sizeof(T), AWR, RA); acquire(const_cast<T *>(p)); release(const_cast<T *>(p)); return fn(p, v, __ATOMIC_SEQ_CST); }
#define ATOMICS(bits, T) ATOMIC(bits, T) ATOMIC_OP(bits, T, add, __atomic_fetch_add) ATOMIC_OP(bits, T, sub, __atomic_fetch_sub) ATOMIC_OP(bits, T, and, __atomic_fetch_and) \
	ATOMIC_OP(bits, T, or, __atomic_fetch_or) ATOMIC_OP(bits, T, xor, __atomic_fetch_xor) ATOMIC_OP(bits, T, nand, __atomic_fetch_nand)
ATOMICS(8, unsigned char) ATOMICS(16, unsigned short) ATOMICS(32, unsigned int) ATOMICS(64, unsigned long)

	// locks and one-time initialisation: the thread that has to wait gives the baton away
	int pthread_mutex_lock(pthread_mutex_t *m) { return simulated() ? lock(m, false, false, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) : 0; }
	int pthread_mutex_trylock(pthread_mutex_t *m) { return simulated() ? lock(m, false, true, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) : 0; }
	int pthread_mutex_unlock(pthread_mutex_t *m) { return simulated() ? unlock(m) : 0; }
	int pthread_rwlock_rdlock(pthread_rwlock_t *m) { return simulated() ? lock(m, true, false, false) : 0; }
	int pthread_rwlock_wrlock(pthread_rwlock_t *m) { return simulated() ? lock(m, false, false, false) : 0; }
	int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { return simulated() ? lock(m, true, true, false) : 0; }
	int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { return simulated() ? lock(m, false, true, false) : 0; }
	int pthread_rwlock_unlock(pthread_rwlock_t *m) { return simulated() ? unlock(m) : 0; }
	int pthread_spin_lock(pthread_spinlock_t *m) { return simulated() ? lock(const_cast<int *>(m), false, false, false) : 0; }
	int pthread_spin_unlock(pthread_spinlock_t *m) { return simulated() ? unlock(const_cast<int *>(m)) : 0; }
	int pthread_once(pthread_once_t *o, void (*f)())
	{
		if (simulated()) lock(o, false, false, false);
		if (*o != 2)
		{
			try { f(); }
			catch (...) { if (simulated()) unlock(o); throw; }
			*o = 2;
		}
		if (simulated()) unlock(o);
		return 0;
	}
	int __cxa_guard_acquire(u64 *g)
	{
		if (simulated()) lock(g, false, false, false);
		if (*reinterpret_cast<volatile char *>(g)) { if (simulated()) unlock(g); return 0; }
		return 1;
	}
	void __cxa_guard_release(u64 *g)
	{
		*reinterpret_cast<volatile char *>(g) = 1;
		if (simulated()) unlock(g);
	}
	void __cxa_guard_abort(u64 *g) { if (simulated()) unlock(g); }
}

// ---------------------------------------------------------------- one run
namespace
{
	const std::vector<Op> *run_ops;
	std::vector<std::pair<int, u32>> conc_sched;
	void scrub_stack()
	{
		// what uninitialised stack memory holds must not depend on earlier runs
		volatile char here = 0;
		const auto sp = reinterpret_cast<std::uintptr_t>(&here);
		const std::uintptr_t lo = STK + static_cast<std::uintptr_t>(self) * STK_SIZE;
		if (sp - lo > STK_SIZE) return;
		volatile char *p = reinterpret_cast<volatile char *>(sp - (96 << 10));
		const std::size_t n = (96 << 10) - 512;
		std::memset(const_cast<char *>(p), 0xa5, n);
	}
	void thread_body(int id)
	{
		scrub_stack();
		if (mode == MIXED)
		{
			world->thread(*cur, -1);
			for (int i = 0; i < cur->threads; ++i) thr[i].finished = true;
		}
		else
		{
			log_id = id;
			world->thread(*cur, id);
			thr[id].finished = true;
		}
	}
	void *pool_main(void *arg)
	{
		self = static_cast<int>(reinterpret_cast<std::intptr_t>(arg));
		for (;;)
		{
			futex_wait(thr[self].baton);
			thread_body(self);
			switch_from(self);
		}
	}
	void init_once()
	{
		static bool done = false;
		if (done) return;
		done = true;
		map_at(HEAP, HEAP_SIZE);
		map_at(NEWR, NEW_SIZE);
		map_at(STK, STK_SIZE * MAX_THREADS);
		glob_lo = reinterpret_cast<std::uintptr_t>(&__data_start) & ~std::uintptr_t(7);
		glob_hi = reinterpret_cast<std::uintptr_t>(&_end);
		map_at(SHADOW, ((HEAP_SIZE + NEW_SIZE + (glob_hi - glob_lo)) / 8 + 64) * sizeof(Cell));
		map_at(SHADOW - (std::uintptr_t(1) << 36), sizeof(Thr) * (MAX_THREADS + 1));
		thr = reinterpret_cast<Thr *>(SHADOW - (std::uintptr_t(1) << 36));
		for (int i = 0; i < MAX_THREADS; ++i)
		{
			pthread_attr_t a;
			pthread_attr_init(&a);
			pthread_attr_setstack(&a, reinterpret_cast<void *>(STK + static_cast<std::uintptr_t>(i) * STK_SIZE), STK_SIZE);
			if (pthread_create(&thr[i].h, &a, pool_main, reinterpret_cast<void *>(static_cast<std::intptr_t>(i))) != 0) { std::fprintf(stderr, "cannot create threads\n"); _exit(2); }
			pthread_attr_destroy(&a);
		}
		sched_log.reserve(1 << 16);
		conc_sched.reserve(1 << 16);
		new_ready = true;
	}

	struct LogCopy { u64 hash[MAX_THREADS + 1]; std::size_t n[MAX_THREADS + 1]; std::vector<u64> v[MAX_THREADS + 1]; };
	struct RunResult { u64 full, api, sched; };

	// one execution of the trace from a fresh world
	void execute(const Trace &t, const Runner &r, Mode m)
	{
		mode = IDLE;
		inside = 0;
		cur = &t;
		junk_byte = t.junk == 0 ? 0 : t.junk == 1 ? 0xff : t.junk == 2 ? 0x80 : 0xa5;
		std::memset(arena_used, 0, sizeof arena_used);
		for (std::size_t c = 0; c < NEW_CLS; ++c)
			while (NewBlk *b = new_defer[c]) { new_defer[c] = b->next; b->next = new_free[c]; new_free[c] = b; }
		n_syncs = 0;
		++epoch;
		for (int i = 0; i <= MAX_THREADS; ++i)
		{
			Thr &x = thr[i];
			x.finished = i >= t.threads;
			x.blocked = nullptr;
			for (int j = 0; j < MAX_THREADS; ++j) x.vc[j] = i == j;
			x.nlog = 0;
			x.loghash = 0;
			x.fk = x.fn = x.in_op = 0;
			x.op = -1;
			last_site[i] = nullptr;
		}
		log_id = MAIN;
		accesses = 0;
		access_budget = ~0ull;
		sched_log.clear();
		sched_pos = 0;
		sched_hash = switches = segment = 0;
		sched_rng = Rng(t.sched_seed);
		mean = t.mean;
		world = r.make();
		world->setup(t);
		mode = m;
		access_budget = 40000000;
		if (m == MIXED) pass(0);
		else { const int first = choose(); if (first != MAIN) pass(first); else thr[MAIN].baton.store(1); }
		futex_wait(thr[MAIN].baton);
		total_steps += accesses;
		mode = IDLE;
		holder = MAIN;
		log_id = MAIN;
		world->final(t);
		world->~World();
		world = nullptr;
	}
	LogCopy take()
	{
		LogCopy c;
		for (int i = 0; i <= MAX_THREADS; ++i)
		{
			c.hash[i] = thr[i].loghash;
			c.n[i] = thr[i].nlog;
			c.v[i].assign(thr[i].log, thr[i].log + std::min<std::size_t>(thr[i].nlog, 4096));
		}
		return c;
	}
	void compare(const LogCopy &a, const LogCopy &b, const char *what)
	{
		for (int i = 0; i <= MAX_THREADS; ++i)
		{
			if (a.hash[i] == b.hash[i] && a.n[i] == b.n[i]) continue;
			std::size_t p = 0;
			while (p < a.v[i].size() && p < b.v[i].size() && a.v[i][p] == b.v[i][p]) ++p;
			if (i == MAIN) violate("interference", "the contents at the end differ from those when the threads run %s", what);
			violate("interference", "result %zu of thread %d differs from that when the threads run %s", p, i, what);
		}
	}
	RunResult run_trace(const Trace &t, bool serial_only = false)
	{
		init_once();
		const Runner *r = nullptr;
		for (auto &x: runners()) if (t.cont == x.name) r = &x;
		if (!r) { std::fprintf(stderr, "unknown container %s\n", t.cont.c_str()); _exit(2); }
		st->cls[0] = 0;
		st->op_index = -1;
		if (serial_only)
		{
			execute(t, *r, SERIAL);
			return {};
		}
		execute(t, *r, CONCURRENT);
		const LogCopy a = take();
		RunResult res{};
		res.sched = sched_hash;
		for (int i = 0; i <= MAX_THREADS; ++i) res.api = mix64(res.api ^ a.hash[i]);
		res.full = mix64(res.api ^ sched_hash);
		conc_sched.assign(sched_log.begin(), sched_log.end());
		execute(t, *r, SERIAL);
		compare(a, take(), "one after the other");
		if (t.profile == "C14")
		{
			execute(t, *r, MIXED);
			compare(a, take(), "as one thread that takes turns");
		}
		return res;
	}

	// ------------------------------------------------------------ trace files
	int op_by_name(const std::string &s)
	{
		for (int i = 0; i < O_COUNT; ++i) if (s == op_info[i].name) return i;
		return -1;
	}
	std::string to_text(const Trace &t)
	{
		std::ostringstream o;
		o << "tpprace-trace 1\ncontainer " << t.cont << "\nprofile " << t.profile << "\nseed " << t.seed << "\nenv hash_mode=" << t.hash_mode << " hash_seed=" << t.hash_seed << " domain=" << t.domain << " junk=" << t.junk << " threads=" << t.threads
		  << " mean=" << t.mean << " sched_seed=" << t.sched_seed << " explicit=" << t.explicit_sched << "\n";
		for (auto &p: t.ops) o << "op " << op_info[p.code].name << " t=" << p.t << " a=" << p.a << " b=" << p.b << " k=" << p.k << " v=" << p.v << " s=" << p.s << " fk=" << p.fk << " fn=" << p.fn << "\n";
		if (t.explicit_sched)
			for (std::size_t i = 0; i < t.sched.size(); i += 16)
			{
				o << "sched";
				for (std::size_t j = i; j < std::min(t.sched.size(), i + 16); ++j) o << " " << t.sched[j].first << ":" << t.sched[j].second;
				o << "\n";
			}
		return o.str();
	}
	Trace from_text(std::istream &in)
	{
		Trace t;
		std::string w, line;
		auto kv = [&](std::istringstream &s, const std::function<void(const std::string &, long long, u64)> &f)
		{
			std::string x;
			while (s >> x)
			{
				auto e = x.find('=');
				if (e != std::string::npos) f(x.substr(0, e), std::strtoll(x.c_str() + e + 1, nullptr, 10), std::strtoull(x.c_str() + e + 1, nullptr, 10));
			}
		};
		while (std::getline(in, line))
		{
			std::istringstream s(line);
			if (!(s >> w)) continue;
			if (w == "container") s >> t.cont;
			else if (w == "profile") s >> t.profile;
			else if (w == "seed") s >> t.seed;
			else if (w == "env")
				kv(s, [&](const std::string &k, long long v, u64 u)
				{
					if (k == "hash_mode") t.hash_mode = int(v);
					else if (k == "hash_seed") t.hash_seed = u;
					else if (k == "domain") t.domain = int(v);
					else if (k == "junk") t.junk = int(v);
					else if (k == "threads") t.threads = std::max(1, std::min(int(v), MAX_THREADS));
					else if (k == "mean") t.mean = int(v);
					else if (k == "sched_seed") t.sched_seed = u;
					else if (k == "explicit") t.explicit_sched = v != 0;
				});
			else if (w == "op")
			{
				Op p;
				std::string nm;
				s >> nm;
				p.code = op_by_name(nm);
				if (p.code < 0) { std::fprintf(stderr, "unknown op %s\n", nm.c_str()); _exit(2); }
				kv(s, [&](const std::string &k, long long v, u64)
				{
					const int x = int(v);
					if (k == "t") p.t = x;
					else if (k == "a") p.a = x;
					else if (k == "b") p.b = x;
					else if (k == "k") p.k = x;
					else if (k == "v") p.v = x;
					else if (k == "s") p.s = x;
					else if (k == "fk") p.fk = x;
					else if (k == "fn") p.fn = x;
				});
				t.ops.push_back(p);
			}
			else if (w == "sched")
			{
				std::string x;
				while (s >> x)
				{
					const auto c = x.find(':');
					if (c != std::string::npos) t.sched.emplace_back(std::atoi(x.c_str()), static_cast<u32>(std::strtoul(x.c_str() + c + 1, nullptr, 10)));
				}
			}
		}
		return t;
	}

	// ------------------------------------------------------------ generation
	Trace generate(const std::string &prof, u64 seed, const std::vector<std::string> &conts)
	{
		Rng g(seed);
		Trace t;
		t.profile = prof;
		t.seed = seed;
		t.cont = conts[g.below(conts.size())];
		const Runner *r = nullptr;
		for (auto &x: runners()) if (t.cont == x.name) r = &x;
		if (!r) { std::fprintf(stderr, "unknown container %s\n", t.cont.c_str()); _exit(2); }
		t.hash_mode = g.chance(45) ? 0 : int(g.below(9));
		t.hash_seed = g.next();
		t.sched_seed = g.next();
		static const int doms[] = {2, 3, 4, 6, 8, 12, 16, 17, 24, 33};
		t.domain = doms[g.below(10)];
		if (g.chance(5)) { t.domain = 60 + int(g.below(140)); if (t.hash_mode == 2 || t.hash_mode == 5) t.hash_mode = 0; }
		t.threads = g.chance(60) ? 2 : 3 + int(g.below(2));
		static const int means[] = {2, 4, 8, 16, 32, 64, 256};
		t.mean = means[g.below(7)];
		t.junk = int(g.below(4));
		const bool readers = prof == "C13", swarm = g.chance(50);
		const int fault_pct = g.chance(35) ? 5 + int(g.below(30)) : 0;
		double ws[O_COUNT], wt[O_COUNT], ss = 0, sth = 0;
		for (int c = 0; c < O_COUNT; ++c)
		{
			const unsigned k = op_info[c].cat;
			double x = 1;
			if ((k & MAPONLY) && !r->map) x = 0;
			if ((k & K1) && r->multi) x = 0;
			if ((k & STABLEONLY) && !r->stable) x = 0;
			if ((k & DENSEONLY) && !r->dense) x = 0;
			if ((k & ORDENSE) && !r->ord && !r->dense) x = 0;
			if (swarm && g.chance(35) && c != O_INS) x = 0;
			if (c == O_INS || c == O_FILL) x *= 2;
			if (c == O_CLEAR || c == O_FRESH || c == O_COPY || c == O_FINDALL || c == O_CHURN) x *= 0.5;
			ws[c] = (k & MUT) ? x : x * 0.3;
			wt[c] = readers ? ((k & READ) ? x : 0) : x;
			ss += ws[c];
			sth += wt[c];
		}
		if (sth == 0) { wt[O_FIND] = 1; sth = 1; }
		auto make = [&](const double *w, double sum, int th)
		{
			double x = double(g.next() >> 11) / 9007199254740992.0 * sum;
			int code = 0;
			while (code + 1 < O_COUNT && (x -= w[code]) >= 0) ++code;
			while (w[code] == 0 && code > 0) --code;
			Op p;
			p.code = code;
			p.t = th;
			p.a = g.chance(60) ? 0 : int(g.below(SLOTS));
			p.b = int(g.below(SLOTS));
			p.k = int(g.below(static_cast<u64>(t.domain)));
			p.v = 1 + int(g.below(1000));
			p.s = int(g.below(1 << 16));
			if (fault_pct && g.chance(static_cast<unsigned>(fault_pct)))
			{
				p.fk = g.chance(60) ? 1 << g.below(3) : 7;
				p.fn = g.chance(50) ? 1 : 1 + int(g.below(12));
			}
			return p;
		};
		// histories before the threads start
		int n = g.chance(15) ? 0 : 1 + int(g.below(14));
		if (readers) ++n;
		for (int i = 0; i < n; ++i)
		{
			Op p = make(ws, ss, -1);
			if (i < 2 || g.chance(25)) p.code = O_FILL;
			if (readers && g.chance(60)) p.a = 0;
			else p.a = int(g.below(SLOTS));
			t.ops.push_back(p);
		}
		const int m = t.threads * (1 + int(g.below(8)));
		for (int i = 0; i < m; ++i) t.ops.push_back(make(wt, sth, int(g.below(static_cast<u64>(t.threads)))));
		return t;
	}

	// ------------------------------------------------------------ forked replay
	struct Shared { Status s; u64 full, api; u32 nsched; std::pair<int, u32> sched[20000]; };
	Shared *shared()
	{
		static Shared *s = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
		return s;
	}
	struct Verdict { bool bad; std::string cls, msg; int op; u64 full, api; std::vector<std::pair<int, u32>> sched; };
	void export_sched()
	{
		Shared *s = shared();
		if (mode == CONCURRENT && segment) sched_log.emplace_back(self, static_cast<u32>(segment));
		const auto &l = mode == CONCURRENT ? sched_log : conc_sched;
		s->nsched = static_cast<u32>(std::min<std::size_t>(l.size(), 20000));
		std::copy(l.begin(), l.begin() + s->nsched, s->sched);
	}
	Verdict run_forked1(const Trace &t, bool serial_only)
	{
		Shared *s = shared();
		std::memset(static_cast<void *>(&s->s), 0, sizeof s->s);
		s->nsched = 0;
		std::fflush(nullptr);
		pid_t pid = fork();
		if (pid == 0)
		{
			st = &s->s;
			verbose = false;
			int dn = open("/dev/null", O_WRONLY);
			dup2(dn, 2);
			dup2(dn, 1);
			alarm(60);
			before_exit = export_sched;
			auto r = run_trace(t, serial_only);
			export_sched();
			s->full = r.full;
			s->api = r.api;
			st->done = 1;
			_exit(0);
		}
		int ws = 0;
		waitpid(pid, &ws, 0);
		Verdict v{};
		v.bad = !s->s.done;
		v.op = s->s.op_index;
		v.full = v.bad ? 0 : s->full;
		v.api = v.bad ? 0 : s->api;
		v.sched.assign(s->sched, s->sched + s->nsched);
		if (v.bad)
		{
			v.cls = s->s.cls[0] ? s->s.cls : WIFSIGNALED(ws) && WTERMSIG(ws) == SIGALRM ? "timeout" : "crash";
			v.msg = s->s.msg;
			if (v.cls == "race" || v.cls == "interference") v.op = -1; // found between operations of several threads
		}
		return v;
	}
	Verdict run_forked(const Trace &t)
	{
		Verdict v = run_forked1(t, false);
		if (v.bad && v.cls != "race" && v.cls != "interference" && v.cls != "timeout")
		{
			// the same operations hold when the threads run one after the other: the threads disturb each other
			if (!run_forked1(t, true).bad)
			{
				v.msg = "with these threads at once: " + v.cls + " (" + v.msg + "); one after the other they hold";
				v.cls = "interference";
				v.op = -1;
			}
		}
		return v;
	}
	Trace minimise(Trace t, const std::string &cls, int budget)
	{
		auto bad1 = [&](const Trace &x)
		{
			if (budget-- <= 0) return false;
			auto v = run_forked(x);
			return v.bad && v.cls == cls;
		};
		auto bad = [&](Trace &x) // with another schedule if need be
		{
			for (int i = 0; i < 3; ++i)
			{
				if (bad1(x)) return true;
				if (x.explicit_sched) return false;
				x.sched_seed = mix64(x.sched_seed + 1);
			}
			return false;
		};
		for (std::size_t chunk = std::max<std::size_t>(1, t.ops.size() / 2);; chunk = std::max<std::size_t>(1, chunk / 2))
		{
			bool any = false;
			for (std::size_t p = 0; p < t.ops.size();)
			{
				Trace x = t;
				x.ops.erase(x.ops.begin() + static_cast<std::ptrdiff_t>(p), x.ops.begin() + static_cast<std::ptrdiff_t>(std::min(t.ops.size(), p + chunk)));
				if (bad(x)) { t = x; any = true; }
				else p += chunk;
			}
			if (budget <= 0 || (chunk == 1 && !any)) break;
		}
		auto attempt = [&](const std::function<bool(Trace &)> &f)
		{
			Trace x = t;
			if (f(x) && bad(x)) t = x;
		};
		attempt([](Trace &x) { if (!x.hash_mode) return false; x.hash_mode = 0; return true; });
		attempt([](Trace &x) { if (x.hash_mode == 1) return false; x.hash_mode = 1; return true; });
		attempt([](Trace &x) { if (!x.junk) return false; x.junk = 0; return true; });
		for (int d: {2, 3, 4, 8, 16}) attempt([d](Trace &x) { if (d >= x.domain) return false; x.domain = d; return true; });
		for (std::size_t i = 0; i < t.ops.size() && budget > 0; ++i)
		{
			attempt([i](Trace &x) { auto &o = x.ops[i]; if (!o.fk) return false; o.fk = o.fn = 0; return true; });
			for (int Op::*f: {&Op::a, &Op::k, &Op::v, &Op::s, &Op::b}) attempt([i, f](Trace &x) { auto &o = x.ops[i].*f; if (!o) return false; o = 0; return true; });
		}
		// the schedule: record it, then remove preemptions
		auto v = run_forked(t);
		if (v.bad && v.cls == cls && !v.sched.empty())
		{
			Trace x = t;
			x.explicit_sched = true;
			x.sched = v.sched;
			if (bad1(x))
			{
				t = x;
				for (std::size_t i = 0; i < t.sched.size() && budget > 0;)
				{
					Trace y = t;
					y.sched.erase(y.sched.begin() + static_cast<std::ptrdiff_t>(i));
					if (bad1(y)) t = y;
					else ++i;
				}
				for (std::size_t i = 0; i + 1 < t.sched.size() && budget > 0; ++i)
					if (t.sched[i].first == t.sched[i + 1].first)
					{
						Trace y = t;
						y.sched[i].second += y.sched[i + 1].second;
						y.sched.erase(y.sched.begin() + static_cast<std::ptrdiff_t>(i) + 1);
						if (bad1(y)) { t = y; --i; }
					}
			}
		}
		return t;
	}
	std::string json_str(const std::string &s)
	{
		std::string o = "\"";
		for (char c: s)
		{
			if (c == '"' || c == '\\') o += '\\', o += c;
			else if (static_cast<unsigned char>(c) < 32) o += ' ';
			else o += c;
		}
		return o + "\"";
	}
	void on_signal(int s)
	{
		if (!st->cls[0])
		{
			std::snprintf(st->cls, sizeof st->cls, "%s", s == SIGTRAP ? "assert" : "crash");
			std::snprintf(st->msg, sizeof st->msg, "signal %d", s);
		}
		if (before_exit) before_exit();
		_exit(79);
	}
	void on_terminate()
	{
		if (!st->cls[0])
		{
			std::snprintf(st->cls, sizeof st->cls, "terminate");
			std::snprintf(st->msg, sizeof st->msg, "std::terminate");
		}
		if (before_exit) before_exit();
		_exit(79);
	}
}

int main(int argc, char **argv)
{
	std::string mode_arg = argc > 1 ? argv[1] : "";
	std::map<std::string, std::string> opt;
	std::vector<std::string> pos;
	for (int i = 2; i < argc; ++i)
	{
		std::string a = argv[i];
		if (a.rfind("--", 0) == 0 && i + 1 < argc) opt[a.substr(2)] = argv[i + 1], ++i;
		else pos.push_back(a);
	}
	auto num = [&](const char *k, u64 d) { return opt.count(k) ? std::strtoull(opt[k].c_str(), nullptr, 10) : d; };
	std::sort(runners().begin(), runners().end(), [](const Runner &a, const Runner &b) { return std::string(a.name) < b.name; });
	std::vector<std::string> conts;
	if (opt.count("conts"))
	{
		std::stringstream s(opt["conts"]);
		for (std::string x; std::getline(s, x, ',');) conts.push_back(x);
	}
	else for (auto &r: runners()) conts.push_back(r.name);
	for (int s: {SIGSEGV, SIGBUS, SIGTRAP, SIGABRT, SIGILL, SIGFPE}) std::signal(s, on_signal);
	std::set_terminate(on_terminate);
	{
		// one processor per process: only one of its threads runs at a time
		cpu_set_t all, one;
		if (sched_getaffinity(0, sizeof all, &all) == 0 && CPU_COUNT(&all) > 0)
		{
			int want = static_cast<int>((opt.count("worker") ? num("worker", 0) : static_cast<u64>(getpid())) % static_cast<u64>(CPU_COUNT(&all)));
			for (int c = 0; c < CPU_SETSIZE; ++c)
				if (CPU_ISSET(c, &all) && want-- == 0)
				{
					CPU_ZERO(&one);
					CPU_SET(c, &one);
					sched_setaffinity(0, sizeof one, &one);
					break;
				}
		}
	}
	if (opt.count("status"))
	{
		int fd = open(opt["status"].c_str(), O_RDWR | O_CREAT, 0600);
		if (ftruncate(fd, sizeof(Status)) != 0) return 2;
		st = static_cast<Status *>(mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
		std::memset(static_cast<void *>(st), 0, sizeof *st);
	}
	const std::string prof = opt.count("profile") ? opt["profile"] : "C13";
	const u64 base = num("seed", 1);
	auto seed_of = [&](u64 i) { return mix64(mix64(base * 1000003) ^ (i * 2654435761ull)) >> 1; };
	if (mode_arg == "gen")
	{
		std::cout << to_text(generate(prof, seed_of(num("index", 0)), conts));
		return 0;
	}
	if (mode_arg == "replay" || mode_arg == "min")
	{
		std::ifstream f(pos.at(0));
		if (!f) { std::fprintf(stderr, "cannot open %s\n", pos[0].c_str()); return 2; }
		const Trace t = from_text(f);
		auto v = run_forked(t);
		if (mode_arg == "replay")
		{
			std::printf("{\"bad\":%s,\"cls\":%s,\"msg\":%s,\"op\":%d,\"full\":%llu,\"api\":%llu}\n", v.bad ? "true" : "false", json_str(v.cls).c_str(), json_str(v.msg).c_str(), v.op, static_cast<unsigned long long>(v.full), static_cast<unsigned long long>(v.api));
			return v.bad ? 77 : 0;
		}
		if (!v.bad) { std::printf("{\"bad\":false}\n"); return 0; }
		Trace x = minimise(t, v.cls, static_cast<int>(num("budget", 600)));
		auto v2 = run_forked(x);
		std::ofstream o(pos.at(1));
		o << to_text(x) << "expect class=" << v2.cls << " op=" << v2.op << "\n# " << v2.msg << "\n";
		std::printf("{\"bad\":true,\"cls\":%s,\"msg\":%s,\"op\":%d,\"ops\":%zu}\n", json_str(v2.cls).c_str(), json_str(v2.msg).c_str(), v2.op, x.ops.size());
		return 77;
	}
	if (mode_arg == "batch")
	{
		const u64 worker = num("worker", 0), workers = num("workers", 1), start = num("start", 0), maxn = num("max", ~0ull);
		const double limit = std::strtod(opt.count("time") ? opt["time"].c_str() : "10", nullptr);
		const auto t0 = std::chrono::steady_clock::now();
		std::ofstream hashes;
		if (opt.count("hashes")) hashes.open(opt["hashes"]);
		u64 runs = 0, ops = 0, faulty = 0, opc[O_COUNT] = {}, i = start, nontrivial = 0, sw = 0, maxacc = 0, conc = 0;
		std::map<std::string, u64> per_cont;
		std::unordered_set<u64> logs;
		for (i = start; i < maxn; ++i)
		{
			if (i % workers != worker) continue;
			if ((runs & 7) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limit) break;
			const Trace t = generate(prof, seed_of(i), conts);
			st->run_index = i;
			st->run_seed = t.seed;
			const u64 inj0 = n_injected[0] + n_injected[1] + n_injected[2];
			auto r = run_trace(t);
			faulty += inj0 != n_injected[0] + n_injected[1] + n_injected[2];
			if (hashes) hashes << i << " " << t.cont << " " << r.full << " " << r.api << "\n";
			++runs;
			ops += t.ops.size();
			sw += conc_sched.size();
			u64 acc = 0;
			for (auto &x: conc_sched) acc += x.second;
			conc += acc;
			maxacc = std::max(maxacc, acc);
			for (auto &p: t.ops) ++opc[p.code];
			if (conc_sched.size() > static_cast<std::size_t>(t.threads)) { ++nontrivial; if (logs.size() < 3000000) logs.insert(r.full); }
			++per_cont[t.cont];
		}
		st->done = 1;
		if (opt.count("logs"))
		{
			std::ofstream lf(opt["logs"], std::ios::binary);
			for (u64 x: logs) lf.write(reinterpret_cast<const char *>(&x), sizeof x);
		}
		u64 edges = 0;
		for (auto x: cov_map) edges += x;
		std::ofstream o(opt.count("out") ? opt["out"] : "/dev/stdout");
		o << "{\"runs\":" << runs << ",\"next\":" << i << ",\"ops\":" << ops << ",\"steps\":" << conc << ",\"faulty_runs\":" << faulty << ",\"distinct\":" << logs.size() << ",\"nontrivial\":" << nontrivial << ",\"states\":" << n_pairs << ",\"edges\":" << edges
		  << ",\"allocs\":" << n_allocs << ",\"max_op_steps\":" << maxacc << ",\"exhausted_hits\":0,\"faults\":{";
		static const char *fn[] = {"allocation failure", "element copy failure", "hash failure"};
		for (int k = 0; k < 3; ++k) o << "\"" << fn[k] << "\":[" << n_points[k] << "," << n_injected[k] << "],";
		o << "\"preemption at a memory access\":[" << conc << "," << sw << "]},\"opcounts\":{";
		for (int k = 0; k < O_COUNT; ++k) o << (k ? "," : "") << "\"" << op_info[k].name << "\":[" << opc[k] << ",0]";
		o << "},\"conts\":{";
		bool first = true;
		for (auto &p: per_cont) { o << (first ? "" : ",") << "\"" << p.first << "\":" << p.second; first = false; }
		o << "}}\n";
		return 0;
	}
	std::fprintf(stderr, "usage: race batch|gen|replay|min ...\n");
	return 2;
}
