// The two MSVC bit scan intrinsics the library uses.
#pragma once
inline unsigned char _BitScanForward64(unsigned long *r, unsigned long long v) noexcept { unsigned long i = 0; if (!v) return 0; while (!(v >> i & 1)) ++i; *r = i; return 1; }
inline unsigned char _BitScanReverse64(unsigned long *r, unsigned long long v) noexcept { unsigned long i = 63; if (!v) return 0; while (!(v >> i & 1)) --i; *r = i; return 1; }
inline unsigned char _BitScanForward(unsigned long *r, unsigned long v) noexcept { return _BitScanForward64(r, v); }
inline unsigned char _BitScanReverse(unsigned long *r, unsigned long v) noexcept { return _BitScanReverse64(r, v); }
