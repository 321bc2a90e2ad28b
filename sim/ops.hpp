// The operation alphabet of the simulator: X(name, categories)
#pragma once
namespace sim
{
	enum Cat : unsigned
	{
		SINGLE = 1, BULK = 2, READ = 4, ERASE = 8, CM = 16, NODE = 32, CAP = 64, ALIAS = 128, EQL = 256, MEM = 512,
		HINT = 1024, INSERT = 2048, MAPONLY = 4096, K1ONLY = 8192, STABLEONLY = 16384, DENSEONLY = 32768, REPL = 65536,
		MOVES = 131072, ALLOCR = 262144
	};
#define SIM_OPS(X) \
	X(INS, SINGLE | INSERT) X(INSM, SINGLE | INSERT) X(INSH, SINGLE | INSERT | HINT) X(INSMH, SINGLE | INSERT | HINT) \
	X(INSC, SINGLE | INSERT) X(EMP, SINGLE | INSERT) X(EMPP, SINGLE | INSERT | MAPONLY) X(EMPH, SINGLE | INSERT | HINT) \
	X(TRY, SINGLE | INSERT | MAPONLY) X(TRYM, SINGLE | INSERT | MAPONLY) X(TRYH, SINGLE | INSERT | MAPONLY | HINT) \
	X(IOA, SINGLE | INSERT | MAPONLY | K1ONLY | REPL) X(IOAM, SINGLE | INSERT | MAPONLY | K1ONLY | REPL) X(IOAH, SINGLE | INSERT | MAPONLY | K1ONLY | REPL | HINT) \
	X(EOR, SINGLE | INSERT | MAPONLY | K1ONLY | REPL) X(EORH, SINGLE | INSERT | MAPONLY | K1ONLY | REPL | HINT) \
	X(IDX, SINGLE | INSERT | MAPONLY | K1ONLY) X(IDXW, SINGLE | INSERT | MAPONLY | K1ONLY) \
	X(FIND, SINGLE | READ) X(CONT, SINGLE | READ) X(AT, SINGLE | READ | MAPONLY) X(FINDT, SINGLE | READ) X(BUCKETS, SINGLE | READ | DENSEONLY) \
	X(ERK, SINGLE | ERASE) X(ERI, SINGLE | ERASE) X(ERR, BULK | ERASE) X(ERIF, BULK | ERASE) X(ITERER, BULK | ERASE) X(CLEAR, BULK | ERASE) \
	X(RESERVE, BULK | CAP) X(RESERVE_HUGE, BULK | CAP) X(REHASH, BULK | CAP) X(CHURN, BULK | INSERT | ERASE | CAP) X(FILL, BULK | INSERT) X(RESFILL, BULK | CAP | INSERT) \
	X(SWAP, BULK | CM) X(SWAPF, BULK | CM) X(CPCT, BULK | CM | ALLOCR) X(CPCTA, BULK | CM | ALLOCR) X(MVCT, BULK | CM | MOVES | ALLOCR) X(MVCTA, BULK | CM | MOVES | ALLOCR) \
	X(CPAS, BULK | CM | ALLOCR) X(MVAS, BULK | CM | MOVES | ALLOCR) X(ILAS, BULK | CM) X(RANGEINS, BULK | INSERT) X(LISTINS, BULK | INSERT) X(RCTOR, BULK | CM | INSERT | ALLOCR) X(BCTOR, BULK | CAP | ALLOCR) X(DCTOR, BULK | CM | ALLOCR) \
	X(SELFCP, BULK | CM) X(SELFMV, BULK | CM | MOVES) X(SELFSWAP, BULK | CM) \
	X(EQ, SINGLE | EQL | READ) X(EQTWIN, BULK | EQL | INSERT) \
	X(EXK, SINGLE | NODE | STABLEONLY) X(EXI, SINGLE | NODE | STABLEONLY) X(NINS, SINGLE | NODE | STABLEONLY | INSERT) X(NINSH, SINGLE | NODE | STABLEONLY | INSERT | HINT) \
	X(NIOA, SINGLE | NODE | STABLEONLY | INSERT | REPL) X(NIOAH, SINGLE | NODE | STABLEONLY | INSERT | REPL | HINT) X(NSWAP, BULK | NODE | STABLEONLY) X(NMOVE, BULK | NODE | STABLEONLY) X(NDROP, BULK | NODE | STABLEONLY) X(NMUT, BULK | NODE | STABLEONLY) \
	X(MERGE, BULK | NODE | STABLEONLY) X(MERGEM, BULK | NODE | STABLEONLY) \
	X(MLF, BULK | CAP | DENSEONLY) X(MUTV, SINGLE | MAPONLY | READ) \
	X(AINS, SINGLE | ALIAS | INSERT) X(AEMP, SINGLE | ALIAS | INSERT) X(AGROW, SINGLE | ALIAS | INSERT) X(AIOA, SINGLE | ALIAS | INSERT | MAPONLY | K1ONLY) X(AREPL, SINGLE | ALIAS | INSERT | MAPONLY | K1ONLY | REPL) X(AERASE, SINGLE | ALIAS | ERASE) X(AIDX, SINGLE | ALIAS | INSERT | MAPONLY | K1ONLY) \
	X(OVI, SINGLE | INSERT | HINT) X(OVK, SINGLE | INSERT | MAPONLY | K1ONLY | REPL | HINT) X(OVT, SINGLE | INSERT | MAPONLY | HINT) X(OVX, SINGLE | INSERT | MAPONLY | K1ONLY) X(OVR, SINGLE | READ) X(OVL, BULK | INSERT) X(OVA, BULK | CM) X(OVC, BULK | CM | INSERT | ALLOCR) X(MERGEX, BULK | NODE | STABLEONLY) \
	X(GIANT, BULK | INSERT | ERASE | CAP | CM) X(PLAIN, BULK) X(MEMLIM, MEM) X(MEMUNLIM, MEM)

	enum OpCode : int
	{
#define X(n, c) O_##n,
		SIM_OPS(X)
#undef X
		O_COUNT
	};
	struct OpInfo { const char *name; unsigned cat; };
	inline constexpr OpInfo op_info[] = {
#define X(n, c) {#n, c},
			SIM_OPS(X)
#undef X
	};
}
