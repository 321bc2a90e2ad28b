// Pretends to be another target: 1 = a processor with NEON (emulated), 2 = a processor the library does not know (portable code,
// byte-wise loads), 4 = the MSVC compiler (its intrinsics emulated), 5 = a compiler and processor the library does not know.
// The standard library is included first, so only the library under test sees the pretended target.
#pragma once
#ifdef SIM_ARCH
#include <bits/stdc++.h>
#include <emmintrin.h>
#if SIM_ARCH <= 3 || SIM_ARCH == 5
#undef __x86_64__
#undef __x86_64
#undef __amd64__
#undef __amd64
#undef __i386__
#undef __i386
#undef i386
#undef __SSE__
#undef __SSE2__
#undef __SSE3__
#undef __SSSE3__
#undef __SSE4_1__
#undef __SSE4_2__
#undef __AVX__
#undef __AVX2__
#endif
#if SIM_ARCH == 1
#define __ARM_NEON 1
#define __ARM_NEON__ 1
#elif SIM_ARCH == 2
#define TPP_NO_SIMD
#elif SIM_ARCH == 3 // numbers assembled in big-endian order (not part of the checks: it only models byte-wise loads and stores)
#define TPP_NO_SIMD
#undef __BYTE_ORDER__
#define __BYTE_ORDER__ __ORDER_BIG_ENDIAN__
#elif SIM_ARCH == 4
#undef __GNUC__
#undef __clang__
#define _MSC_VER 1939
#define _WIN64 1
#define _M_X64 100
#define _M_AMD64 100
#define _MSVC_LANG __cplusplus
#define __forceinline __attribute__((always_inline))
#define __assume(x) ((void) 0)
#define __debugbreak() __builtin_trap()
#define __FUNCSIG__ __func__
#define __int64 long long
#elif SIM_ARCH == 5
#undef __GNUC__
#undef __clang__
#define TPP_NO_SIMD
#endif
#endif
