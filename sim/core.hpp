// Simulator core: PRNG, simulated heap, fault injector, tracked element types, adversarial hash.
// Everything the containers under test can observe from their environment comes from here.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <new>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace sim
{
	using u64 = std::uint64_t;
	using u32 = std::uint32_t;

	struct Rng
	{
		u64 s;
		explicit Rng(u64 seed = 1) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567) { next(); next(); }
		u64 next()
		{
			u64 z = (s += 0x9e3779b97f4a7c15ull);
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
			z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
			return z ^ (z >> 31);
		}
		u64 below(u64 n) { return n ? next() % n : 0; }
		bool chance(unsigned pct) { return below(100) < pct; }
	};
	inline u64 mix64(u64 z)
	{
		z += 0x9e3779b97f4a7c15ull;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}

	// ---------------------------------------------------------------- violations
	[[noreturn]] void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));

	// ---------------------------------------------------------------- faults
	enum FaultKind : int { F_ALLOC = 1, F_KCOPY = 2, F_MCOPY = 4, F_HASH = 8, F_EQ = 16, F_CTOR = 32, F_PRED = 64 };
	constexpr int F_KINDS = 7;
	extern const char *const fault_names[F_KINDS];
	struct SimFault { int kind; };
	struct SimBadAlloc : std::bad_alloc { bool exhausted; explicit SimBadAlloc(bool e) : exhausted(e) {} };

	struct Env
	{
		// environment of the run
		int hash_mode = 0;
		u64 hash_seed = 0;
		// fault plan of the current operation: the n-th callback of a kind in the mask throws
		bool armed = false;
		int mask = 0, n = 0;
		int fired = 0;              // kind that fired during the current operation
		bool exhausted = false;     // allocator refuses everything
		bool exhausted_hit = false; // a refusal happened during the current operation
		// statistics
		u64 points[F_KINDS] = {}, injected[F_KINDS] = {}, exhausted_hits = 0;
		bool big = false; // a large container is being simulated
		bool plain = false; // operator new is the simulated heap
		u64 steps = 0, step_budget = ~0ull, op_steps_max = 0, op_steps0 = 0;
	};
	extern Env E;

	inline int kind_index(int k) { return __builtin_ctz(static_cast<unsigned>(k)); }
	inline bool fault_due(int kind)
	{
		++E.points[kind_index(kind)];
		if (E.armed && (E.mask & kind) && --E.n == 0)
		{
			E.armed = false;
			E.fired = kind;
			++E.injected[kind_index(kind)];
			return true;
		}
		return false;
	}
	inline void fault_point(int kind) { if (fault_due(kind)) throw SimFault{kind}; }

	// ---------------------------------------------------------------- simulated heap
	constexpr int NRES = 4;
	struct Heap
	{
		struct Block { std::size_t size; int res; unsigned align; };
		void reset(u64 seed, int mode, int junk);
		void *alloc(std::size_t size, std::size_t align, int res); // never fails for sane sizes, nullptr if too big
		void dealloc(void *p, std::size_t size, int res);
		const Block *find(const void *p) const;
		bool owns(const void *p) const;
		int mode = 0, junk = 0;
		std::map<std::uintptr_t, Block> live;
		std::vector<std::pair<std::uintptr_t, Block>> freed;
		std::uintptr_t brk = 0, high = 0;
		Rng rng{1};
		std::size_t out_bytes = 0, peak_bytes = 0;
		u64 n_alloc = 0, n_free = 0, n_reuse = 0;
	};
	extern Heap heap;
	void *object_slot(int i, std::size_t size); // fixed places for the containers and node handles themselves
	void object_slot_free(int i, std::size_t size);

	// Allocator policy: bit 0 POCCA, 1 POCMA, 2 POCS, 3 select_on_copy returns resource 0, 4 always_equal
	template<typename T, int Pol>
	struct Alloc
	{
		using value_type = T;
		using propagate_on_container_copy_assignment = std::bool_constant<(Pol & 1) != 0>;
		using propagate_on_container_move_assignment = std::bool_constant<(Pol & 2) != 0>;
		using propagate_on_container_swap = std::bool_constant<(Pol & 4) != 0>;
		using is_always_equal = std::bool_constant<(Pol & 16) != 0>;
		template<typename U>
		struct rebind { using other = Alloc<U, Pol>; };

		int res = 0;
		Alloc() noexcept = default;
		explicit Alloc(int r) noexcept : res(r) {}
		Alloc(const Alloc &) noexcept = default;
		Alloc &operator=(const Alloc &) noexcept = default;
		template<typename U>
		Alloc(const Alloc<U, Pol> &o) noexcept : res(o.res) {}

		T *allocate(std::size_t n)
		{
			if (fault_due(F_ALLOC)) throw SimBadAlloc(false);
			if (E.exhausted)
			{
				E.exhausted_hit = true;
				++E.exhausted_hits;
				throw SimBadAlloc(true);
			}
			if (n > (std::size_t(1) << 40) / sizeof(T)) throw SimBadAlloc(true);
			void *p = heap.alloc(n * sizeof(T), alignof(T), res);
			if (!p) throw SimBadAlloc(true);
			return static_cast<T *>(p);
		}
		void deallocate(T *p, std::size_t n) noexcept { heap.dealloc(p, n * sizeof(T), (Pol & 16) ? -1 : res); }
		Alloc select_on_container_copy_construction() const { return (Pol & 8) ? Alloc(0) : *this; }
		friend bool operator==(const Alloc &a, const Alloc &b) noexcept { return (Pol & 16) || a.res == b.res; }
		friend bool operator!=(const Alloc &a, const Alloc &b) noexcept { return !(a == b); }
	};

	// ---------------------------------------------------------------- tracked elements
	struct LiveSet
	{
		void add(const void *p, int kind);
		void remove(const void *p, int kind);
		void check(const void *p, int kind) const;
		void reset();
		std::size_t count = 0;
		std::vector<std::uintptr_t> tab; // open addressing, tagged pointers
		std::size_t used = 0;
		void grow();
	};
	extern LiveSet live;
	constexpr int MOVED = -1000000;

	struct Key
	{
		int id;
		explicit Key(int i) : id(i) { fault_point(F_CTOR); live.add(this, 0); }
		Key(const Key &o) : id(o.get()) { fault_point(F_KCOPY); live.add(this, 0); }
		Key(Key &&o) noexcept : id(o.get()) { o.id = MOVED; live.add(this, 0); }
		Key &operator=(const Key &o)
		{
			live.check(this, 0);
			int v = o.get();
			fault_point(F_KCOPY);
			id = v;
			return *this;
		}
		Key &operator=(Key &&o) noexcept
		{
			live.check(this, 0);
			int v = o.get();
			if (&o != this) o.id = MOVED;
			id = v;
			return *this;
		}
		~Key() { live.remove(this, 0); }
		int get() const { live.check(this, 0); return id; }
		friend bool operator==(const Key &a, const Key &b) { return a.get() == b.get(); }
		friend bool operator!=(const Key &a, const Key &b) { return a.get() != b.get(); }
		friend bool operator<(const Key &a, const Key &b) { return a.get() < b.get(); }
		friend bool operator>(const Key &a, const Key &b) { return a.get() > b.get(); }
		friend bool operator<=(const Key &a, const Key &b) { return a.get() <= b.get(); }
		friend bool operator>=(const Key &a, const Key &b) { return a.get() >= b.get(); }
	};
	// Heterogeneous stand-in for a key (used when the functors are transparent).
	struct KeyRef { int id; operator Key() const { return Key(id); } };

	// In some configurations the mapped type is over-aligned and its moves (which never throw) are not declared noexcept.
#ifdef SIM_ALT
#define SIM_VAL_ALIGN alignas(32)
#define SIM_VAL_NOEXCEPT noexcept(false)
#else
#define SIM_VAL_ALIGN
#define SIM_VAL_NOEXCEPT noexcept
#endif
	struct SIM_VAL_ALIGN Val
	{
		int v;
		Val() : v(0) { fault_point(F_CTOR); live.add(this, 1); }
		explicit Val(int i) : v(i) { fault_point(F_CTOR); live.add(this, 1); }
		Val(const Val &o) : v(o.get()) { fault_point(F_MCOPY); live.add(this, 1); }
		Val(Val &&o) SIM_VAL_NOEXCEPT : v(o.get()) { o.v = MOVED; live.add(this, 1); }
		Val &operator=(const Val &o)
		{
			live.check(this, 1);
			int x = o.get();
			fault_point(F_MCOPY);
			v = x;
			return *this;
		}
		Val &operator=(Val &&o) SIM_VAL_NOEXCEPT
		{
			live.check(this, 1);
			int x = o.get();
			if (&o != this) o.v = MOVED;
			v = x;
			return *this;
		}
		~Val() { live.remove(this, 1); }
		int get() const { live.check(this, 1); return v; }
		void set(int x) { live.check(this, 1); v = x; }
		friend bool operator==(const Val &a, const Val &b) { return a.get() == b.get(); }
		friend bool operator!=(const Val &a, const Val &b) { return a.get() != b.get(); }
		friend bool operator<(const Val &a, const Val &b) { return a.get() < b.get(); }
		friend bool operator>(const Val &a, const Val &b) { return a.get() > b.get(); }
		friend bool operator<=(const Val &a, const Val &b) { return a.get() <= b.get(); }
		friend bool operator>=(const Val &a, const Val &b) { return a.get() >= b.get(); }
	};

	std::size_t hash_id(int id, int salt);
	template<bool Transparent>
	struct transparent_base {};
	template<>
	struct transparent_base<true> { using is_transparent = std::true_type; };

	template<bool Transparent>
	struct Hash : transparent_base<Transparent>
	{
		Hash() = default;
#ifndef SIM_ALT
		int salt = 0;
		explicit Hash(int s) : salt(s) {}
#else
		static constexpr int salt = 0;
		explicit Hash(int) {}
#endif
		std::size_t operator()(const Key &k) const { int id = k.get(); fault_point(F_HASH); return hash_id(id, salt); }
		template<typename R, typename = std::enable_if_t<Transparent && std::is_same_v<R, KeyRef>>>
		std::size_t operator()(const R &k) const { fault_point(F_HASH); return hash_id(k.id, salt); }
	};
	template<bool Transparent>
	struct Eq : transparent_base<Transparent>
	{
#ifndef SIM_ALT // functions with state in most configurations, empty ones in the others
		int state = 0;
		Eq() = default;
		explicit Eq(int s) : state(s) {}
		int tag() const { return state; }
#else
		Eq() = default;
		explicit Eq(int) {}
		int tag() const { return 0; }
#endif
		bool operator()(const Key &a, const Key &b) const { int x = a.get(), y = b.get(); fault_point(F_EQ); return x == y; }
		template<typename R, typename = std::enable_if_t<Transparent && std::is_same_v<R, KeyRef>>>
		bool operator()(const Key &a, const R &b) const { int x = a.get(); fault_point(F_EQ); return x == b.id; }
		template<typename R, typename = std::enable_if_t<Transparent && std::is_same_v<R, KeyRef>>>
		bool operator()(const R &b, const Key &a) const { int x = a.get(); fault_point(F_EQ); return x == b.id; }
	};

	// ---------------------------------------------------------------- traces
	struct Op { int code = 0, a = 0, b = 0, k = 0, v = 0, s = 0, fk = 0, fn = 0; };
	struct Trace
	{
		std::string cont, profile;
		u64 seed = 0;
		int hash_mode = 0, domain = 8, heap_mode = 0, junk = 0, salts = 0, nres = 1;
		u64 hash_seed = 0, heap_seed = 0;
		std::vector<Op> ops;
	};

	struct Status // shared with the parent process
	{
		volatile u64 run_seed, run_index;
		volatile int op_index, done;
		char cls[64], msg[600];
	};
	extern Status *st;

	struct Log
	{
		u64 full = 1469598103934665603ull, api = full;
		void put(u64 x) { full = (full ^ mix64(x)) * 1099511628211ull; }
		void put_api(u64 x) { put(x); api = (api ^ mix64(x)) * 1099511628211ull; }
	};
	extern Log elog;
	extern bool verbose;

	// Reach statistics
	struct Reach
	{
		std::vector<u64> bits = std::vector<u64>(1 << 16); // 4M bits
		u64 distinct = 0;
		void hit(u64 h)
		{
			h = mix64(h) & ((1ull << 22) - 1);
			u64 &w = bits[h >> 6];
			if (!(w >> (h & 63) & 1)) { w |= 1ull << (h & 63); ++distinct; }
		}
	};
	extern Reach states, edges;
	extern u64 probes[128];
	extern double cost_max[4];

	// ---------------------------------------------------------------- container registry
	struct Caps { bool map, ordered, stable, dense; int nk; int pol; };
	struct Runner
	{
		const char *name;
		Caps caps;
		void (*run)(const Trace &);
	};
	std::vector<Runner> &runners();
	struct Register { explicit Register(Runner r) { runners().push_back(r); } };

	void op_begin();
	void op_end();
}
