#include "core.hpp"
#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <sys/mman.h>
#include <unistd.h>
#ifndef __has_feature
#define __has_feature(x) 0
#endif
#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region(reinterpret_cast<void *>(p), n)
#define UNPOISON(p, n) __asan_unpoison_memory_region(reinterpret_cast<void *>(p), n)
#else
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#endif

namespace sim
{
	Env E;
	Heap heap;
	LiveSet live;
	Log elog;
	bool verbose = false;
	Reach states, edges;
	u64 probes[128];
	double cost_max[4];
	static Status local_status;
	Status *st = &local_status;
	const char *const fault_names[F_KINDS] = {"alloc_fail", "key_copy_throw", "mapped_copy_throw", "hash_throw", "eq_throw", "ctor_throw", "pred_throw"};

	std::vector<Runner> &runners()
	{
		static std::vector<Runner> r;
		return r;
	}

	void violate(const char *cls, const char *fmt, ...)
	{
		va_list ap;
		va_start(ap, fmt);
		std::snprintf(st->cls, sizeof st->cls, "%s", cls);
		std::vsnprintf(st->msg, sizeof st->msg, fmt, ap);
		va_end(ap);
		if (verbose)
		{
			std::printf("violation class=%s op=%d: %s\n", st->cls, st->op_index, st->msg);
			std::fflush(stdout);
		}
		_exit(77);
	}

	// ---------------------------------------------------------------- heap
	static constexpr std::uintptr_t ARENA = 0x200000000000ull;
	static constexpr std::size_t ARENA_SIZE = 1ull << 29, OBJ = 1 << 16, RZ = 32;
	static bool mapped = false;
	static std::uintptr_t lo_used, hi_used;
	static std::map<std::size_t, std::vector<std::uintptr_t>> bins;

	void Heap::reset(u64 seed, int m, int j)
	{
		if (!mapped)
		{
			void *p = mmap(reinterpret_cast<void *>(ARENA), ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
			if (p != reinterpret_cast<void *>(ARENA)) { std::fprintf(stderr, "arena\n"); _exit(2); }
			mapped = true;
			lo_used = ARENA + OBJ;
			hi_used = ARENA + ARENA_SIZE;
			POISON(ARENA, ARENA_SIZE);
		}
		// Clear everything the last run touched, so that no state leaks into this one.
		auto clear = [](std::uintptr_t a, std::uintptr_t b) { if (b > a) { UNPOISON(a, b - a); std::memset(reinterpret_cast<void *>(a), 0, b - a); POISON(a, b - a); } };
		clear(ARENA, lo_used);
		clear(hi_used, ARENA + ARENA_SIZE);
		live.clear();
		freed.clear();
		bins.clear();
		rng = Rng(seed);
		mode = m;
		junk = j;
		out_bytes = peak_bytes = 0;
		n_alloc = n_free = n_reuse = 0;
		lo_used = brk = ARENA + OBJ;
		hi_used = high = ARENA + ARENA_SIZE;
	}
	static void fill(std::uintptr_t p, std::size_t n, int junk, Rng &r)
	{
		auto *b = reinterpret_cast<unsigned char *>(p);
		switch (junk)
		{
			case 0: std::memset(b, 0xcd, n); break;
			case 1: std::memset(b, 0x00, n); break;
			case 2: std::memset(b, 0xff, n); break;
			case 3: std::memset(b, 0x80, n); break;
			case 4: std::memset(b, 0x7f, n); break;
			default: { u64 x = r.next(); for (std::size_t i = 0; i < n; ++i) { b[i] = static_cast<unsigned char>(x >> ((i & 7) * 8)); if ((i & 7) == 7) x = mix64(x); } }
		}
	}
	void *Heap::alloc(std::size_t size, std::size_t align, int res)
	{
		if (size > ARENA_SIZE / 4) return nullptr;
		std::size_t al = std::max<std::size_t>(align, 8), sz = std::max<std::size_t>(size, 1), span = (sz + 2 * RZ + 63) / 64 * 64 + 64;
		std::uintptr_t p = 0;
		if (mode == 1 || mode == 4)
			if (auto it = bins.find(span); it != bins.end() && !it->second.empty() && it->second.back() % al == 0)
			{
				p = it->second.back();
				it->second.pop_back();
				++n_reuse;
			}
		if (!p)
		{
			std::uintptr_t start;
			if (mode == 3 || mode == 4)
			{
				start = high - span;
				if (start < brk + 4096) { if (E.big) violate("arena", "simulated memory is used up"); return nullptr; }
				hi_used = high = start;
			}
			else
			{
				if (mode == 2) brk += rng.below(8) * 64 + (rng.chance(10) ? 4096 : 0);
				start = brk;
				if (start + span + 4096 > high) { if (E.big) violate("arena", "simulated memory is used up"); return nullptr; }
				lo_used = brk = start + span;
			}
			p = (start + RZ + 63) / 64 * 64;           // 64-aligned...
			if (al < 64) p += al;                      // ...and then aligned to exactly what was asked for
		}
		UNPOISON(p, sz);
		fill(p, sz, junk, rng);
		if (size == 0) POISON(p, 1);
		live[p] = Block{size, res, static_cast<unsigned>(span)};
		out_bytes += size;
		peak_bytes = std::max(peak_bytes, out_bytes);
		++n_alloc;
		return reinterpret_cast<void *>(p);
	}
	void Heap::dealloc(void *q, std::size_t size, int res)
	{
		auto p = reinterpret_cast<std::uintptr_t>(q);
		auto it = live.find(p);
		if (it == live.end())
		{
			if (!q && size == 0) violate("alloc", "deallocate(nullptr, 0): returned memory that was never provided");
			for (auto &f: freed) if (f.first == p) violate("alloc", "double free of a block of %zu bytes", f.second.size);
			violate("alloc", "deallocate of %s that was never provided (%zu bytes)", q ? "a pointer" : "nullptr", size);
		}
		if (it->second.size != size) violate("alloc", "block of %zu bytes returned as %zu bytes", it->second.size, size);
		if (res >= 0 && it->second.res != res) violate("alloc", "block of resource %d returned to resource %d", it->second.res, res);
		fill(p, size, 0, rng);
		POISON(p, std::max<std::size_t>(size, 1));
		if (mode == 1 || mode == 4) bins[it->second.align].push_back(p);
		if (freed.size() < 4096) freed.push_back(*it);
		out_bytes -= size;
		++n_free;
		live.erase(it);
	}
	bool Heap::owns(const void *q) const { return reinterpret_cast<std::uintptr_t>(q) - ARENA < ARENA_SIZE; }
	const Heap::Block *Heap::find(const void *q) const
	{
		auto p = reinterpret_cast<std::uintptr_t>(q);
		auto it = live.upper_bound(p);
		if (it == live.begin()) return nullptr;
		--it;
		return p < it->first + it->second.size ? &it->second : nullptr;
	}
	void *object_slot(int i, std::size_t size)
	{
		if (size > 1024) std::abort();
		auto p = ARENA + 64 + static_cast<std::size_t>(i) * 1280;
		UNPOISON(p, size);
		return reinterpret_cast<void *>(p);
	}
	void object_slot_free(int i, std::size_t size)
	{
		auto p = ARENA + 64 + static_cast<std::size_t>(i) * 1280;
		std::memset(reinterpret_cast<void *>(p), 0xdd, size);
		POISON(p, size);
	}

	// ---------------------------------------------------------------- live objects
	void LiveSet::reset()
	{
		count = used = 0;
		tab.assign(1024, 0);
	}
	void LiveSet::grow()
	{
		std::vector<std::uintptr_t> old;
		old.swap(tab);
		tab.assign(std::max<std::size_t>(1024, count * 4 > old.size() ? old.size() * 2 : old.size()), 0);
		used = 0;
		for (auto x: old) if (x > 3)
		{
			std::size_t i = mix64(x) & (tab.size() - 1);
			while (tab[i]) i = (i + 1) & (tab.size() - 1);
			tab[i] = x;
			++used;
		}
	}
	static std::size_t *slot_of(const LiveSet &s, std::uintptr_t x)
	{
		static std::size_t r;
		std::size_t n = s.tab.size() - 1, i = mix64(x) & n;
		for (; s.tab[i]; i = (i + 1) & n) if (s.tab[i] == x) { r = i; return &r; }
		return nullptr;
	}
	static std::uintptr_t tag(const void *p, int kind) { return reinterpret_cast<std::uintptr_t>(p) | static_cast<std::uintptr_t>(kind); }
	void LiveSet::add(const void *p, int kind)
	{
		if (tab.empty()) reset();
		if (used * 2 >= tab.size()) grow();
		auto x = tag(p, kind);
		if (slot_of(*this, x) || slot_of(*this, tag(p, 1 - kind))) violate("lifetime", "%s constructed on top of a live object", kind ? "mapped value" : "key");
		std::size_t i = mix64(x) & (tab.size() - 1);
		while (tab[i] > 1) i = (i + 1) & (tab.size() - 1);
		if (tab[i] == 0) ++used;
		tab[i] = x;
		++count;
	}
	void LiveSet::remove(const void *p, int kind)
	{
		auto s = slot_of(*this, tag(p, kind));
		if (!s) violate("lifetime", "%s destroyed that is not alive (double destruction or never constructed)", kind ? "mapped value" : "key");
		tab[*s] = 1;
		--count;
	}
	void LiveSet::check(const void *p, int kind) const
	{
		if (!slot_of(*this, tag(p, kind))) violate("lifetime", "%s used outside its lifetime", kind ? "mapped value" : "key");
	}

	std::size_t hash_id(int id, int salt)
	{
		const u64 x = static_cast<u64>(static_cast<u32>(id)) + static_cast<u64>(salt) * 0x10001;
		const u64 m = mix64(x ^ E.hash_seed);
		switch (E.hash_mode)
		{
			case 0: return m;
			case 1: return x;                               // identity
			case 2: return E.hash_seed;                     // everything collides
			case 3: return (m & ~u64(0x7f)) | (E.hash_seed & 0x7f);   // same 7-bit tag
			case 4: return (E.hash_seed << 7) | (m & 0x7f);  // same probe start, different tags
			case 5: return mix64(E.hash_seed + m % 3);      // three values
			case 6: return m << 40;                         // only high bits
			case 7: return x << 7;                          // tag always 0, consecutive starts
			case 8: return (m % 3) | ((m >> 8) % 2) << 63;
			case 9: return (m & 0x3f) << 7 | (m >> 20 & 1); // few starts, two tags
			default: return ~x;
		}
	}
	void op_begin()
	{
		E.fired = 0;
		E.exhausted_hit = false;
		E.armed = false;
		E.op_steps0 = E.steps;
		E.step_budget = E.steps + 400000000ull;
	}
	void op_end()
	{
		E.armed = false;
		E.op_steps_max = std::max(E.op_steps_max, E.steps - E.op_steps0);
		E.step_budget = ~0ull;
	}
}

#ifdef SIM_ALT // operator new for sim/plain.hpp
namespace
{
	struct Aside
	{
		bool was = sim::E.plain;
		Aside() { sim::E.plain = false; }
		~Aside() { sim::E.plain = was; }
	};
	void *plain_new(std::size_t n, std::size_t align)
	{
		if (!sim::E.plain)
		{
			void *p = align > 16 ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1);
			if (!p) std::abort();
			return p;
		}
		Aside g;
		if (sim::fault_due(sim::F_ALLOC)) throw sim::SimBadAlloc(false);
		void *p = sim::heap.alloc(n, align, 0);
		if (!p) throw sim::SimBadAlloc(true);
		return p;
	}
	void plain_delete(void *p, std::size_t n, bool sized)
	{
		if (!p) return;
		if (!sim::heap.owns(p)) return std::free(p);
		Aside g;
		if (!sized) if (auto *b = sim::heap.find(p)) n = b->size;
		sim::heap.dealloc(p, n, 0);
	}
}
void *operator new(std::size_t n) { return plain_new(n, 16); }
void *operator new[](std::size_t n) { return plain_new(n, 16); }
void *operator new(std::size_t n, std::align_val_t a) { return plain_new(n, static_cast<std::size_t>(a)); }
void *operator new[](std::size_t n, std::align_val_t a) { return plain_new(n, static_cast<std::size_t>(a)); }
void operator delete(void *p) noexcept { plain_delete(p, 0, false); }
void operator delete[](void *p) noexcept { plain_delete(p, 0, false); }
void operator delete(void *p, std::size_t n) noexcept { plain_delete(p, n, true); }
void operator delete[](void *p, std::size_t n) noexcept { plain_delete(p, n, true); }
void operator delete(void *p, std::align_val_t) noexcept { plain_delete(p, 0, false); }
void operator delete[](void *p, std::align_val_t) noexcept { plain_delete(p, 0, false); }
void operator delete(void *p, std::size_t n, std::align_val_t) noexcept { plain_delete(p, n, true); }
void operator delete[](void *p, std::size_t n, std::align_val_t) noexcept { plain_delete(p, n, true); }
#endif
