// Concurrency simulator: interface between the instrumented containers and the runtime (rt.cpp, not instrumented).
// Several caller threads exist, but only the one holding the baton runs; the runtime takes it away at memory accesses
// chosen by the seed, so one seed is one exactly repeatable interleaving.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <utility>
#include <vector>

namespace rt
{
	using u64 = std::uint64_t;
	using u32 = std::uint32_t;

	enum Kind { F_ALLOC = 1, F_COPY = 2, F_HASH = 4 };
	enum Cat : unsigned { MUT = 1, READ = 2, MAPONLY = 4, K1 = 8, STABLEONLY = 16, DENSEONLY = 32, TWO = 64, ORDENSE = 128 };
#define RACE_OPS(X) \
	X(INS, MUT) X(INSH, MUT) X(EMP, MUT) X(TRY, MUT | MAPONLY) X(IOA, MUT | MAPONLY | K1) X(IDX, MUT | MAPONLY | K1) X(ERK, MUT) X(ERI, MUT) X(ERR, MUT) X(ERIF, MUT) \
	X(CLEAR, MUT) X(RESERVE, MUT) X(REHASH, MUT) X(FILL, MUT) X(CHURN, MUT) X(RANGEINS, MUT) X(SWAP, MUT | TWO) X(CPCT, MUT | TWO) X(MVCT, MUT | TWO) X(CPAS, MUT | TWO) X(MVAS, MUT | TWO) \
	X(FRESH, MUT) X(NODE, MUT | TWO | STABLEONLY) X(MERGE, MUT | TWO | STABLEONLY) X(MUTV, MUT | MAPONLY) X(MLF, MUT | DENSEONLY) \
	X(FIND, READ) X(CONT, READ) X(AT, READ | MAPONLY) X(ITER, READ) X(RITER, READ | ORDENSE) X(SIZES, READ) X(EQ, READ | TWO) X(COPY, READ) X(FUNCS, READ) X(FRONTBACK, READ | ORDENSE) \
	X(BUCKETS, READ | DENSEONLY) X(ITERS, READ) X(FINDALL, READ) X(FINDT, READ)
	enum Code
	{
#define X(n, c) O_##n,
		RACE_OPS(X)
#undef X
		O_COUNT
	};
	struct OpInfo { const char *name; unsigned cat; };
	inline constexpr OpInfo op_info[] = {
#define X(n, c) {#n, c},
			RACE_OPS(X)
#undef X
	};

	struct Op { int code = 0, t = -1, a = 0, b = 0, k = 0, v = 0, s = 0, fk = 0, fn = 0; };
	struct Trace
	{
		std::string cont, profile;
		u64 seed = 0, hash_seed = 0, sched_seed = 0;
		int threads = 2, hash_mode = 0, domain = 8, junk = 0, mean = 16;
		std::vector<Op> ops;
		std::vector<std::pair<int, u32>> sched; // explicit schedule: thread, number of accesses
		bool explicit_sched = false;
	};
	constexpr int MAX_THREADS = 4, SLOTS = 8;

	struct Fault {};
	struct BadAlloc {};

	void *heap_alloc(std::size_t n);       // simulated heap, one arena per thread; throws
	void heap_free(void *p, std::size_t n);
	void fault(int kind);                   // throws Fault if a fault is due here
	void op_start(int index, int fk, int fn);
	void op_end();
	void put(u64 x);                        // result log of the running thread
	void run_as(int id);                    // one thread runs the operations of all: whose operation comes now
	u64 hash_of(int k);
	void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));

	struct World
	{
		virtual ~World() {}
		virtual void setup(const Trace &t) = 0;
		virtual void thread(const Trace &t, int id) = 0;
		virtual void final(const Trace &t) = 0;
	};
	struct Runner
	{
		const char *name;
		bool map, ord, stable, dense, multi;
		World *(*make)();
	};
	std::vector<Runner> &runners();
	struct Register { explicit Register(Runner r) { runners().push_back(r); } };
	// memory of the containers under test themselves
	template<typename W>
	World *make_world() { return ::new (heap_alloc(sizeof(W))) W(); }
}
