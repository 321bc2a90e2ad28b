// Scalar emulation of the 64-bit NEON vectors, used to run the NEON code of the library on other machines.
// The vector types are distinct structures, so mixing them up is an error (as it is with gcc).
#pragma once
#include <cstdint>
#include <cstring>
namespace neon_sim
{
	template<typename T, int N, int Tag>
	struct vec { T e[N]; };
	template<typename To, typename From>
	inline To cast(From f) noexcept { static_assert(sizeof(To) == sizeof(From)); To t; std::memcpy(&t, &f, sizeof t); return t; }
}
using uint8x8_t = neon_sim::vec<std::uint8_t, 8, 0>;
using int8x8_t = neon_sim::vec<std::int8_t, 8, 1>;
using uint64x1_t = neon_sim::vec<std::uint64_t, 1, 2>;
using int64x1_t = neon_sim::vec<std::int64_t, 1, 3>;
using uint32x2_t = neon_sim::vec<std::uint32_t, 2, 4>;
using uint16x4_t = neon_sim::vec<std::uint16_t, 4, 5>;

#define NEON_CAST(name, from, to) inline to name(from v) noexcept { return neon_sim::cast<to>(v); }
NEON_CAST(vreinterpret_u64_u8, uint8x8_t, uint64x1_t) NEON_CAST(vreinterpret_u8_u64, uint64x1_t, uint8x8_t)
NEON_CAST(vreinterpret_s8_u8, uint8x8_t, int8x8_t) NEON_CAST(vreinterpret_u8_s8, int8x8_t, uint8x8_t)
NEON_CAST(vreinterpret_u64_s8, int8x8_t, uint64x1_t) NEON_CAST(vreinterpret_s8_u64, uint64x1_t, int8x8_t)
NEON_CAST(vreinterpret_s64_u8, uint8x8_t, int64x1_t) NEON_CAST(vreinterpret_u8_s64, int64x1_t, uint8x8_t)
NEON_CAST(vreinterpret_u32_u8, uint8x8_t, uint32x2_t) NEON_CAST(vreinterpret_u8_u32, uint32x2_t, uint8x8_t)
NEON_CAST(vreinterpret_u64_s64, int64x1_t, uint64x1_t) NEON_CAST(vreinterpret_s64_u64, uint64x1_t, int64x1_t)

#define NEON_OP8(name, ret, arg, x) inline ret name(arg a, arg b) noexcept { ret r; for (int i = 0; i < 8; ++i) { auto p = a.e[i], q = b.e[i]; r.e[i] = static_cast<std::uint8_t>(x); } return r; }
#define NEON_CMP(op, sym) NEON_OP8(vc##op##_s8, uint8x8_t, int8x8_t, p sym q ? 0xff : 0) NEON_OP8(vc##op##_u8, uint8x8_t, uint8x8_t, p sym q ? 0xff : 0)
NEON_CMP(eq, ==) NEON_CMP(gt, >) NEON_CMP(ge, >=) NEON_CMP(lt, <) NEON_CMP(le, <=)
#define NEON_BIT(op, x) NEON_OP8(v##op##_s8, int8x8_t, int8x8_t, x) NEON_OP8(v##op##_u8, uint8x8_t, uint8x8_t, x)
NEON_BIT(and, p & q) NEON_BIT(orr, p | q) NEON_BIT(eor, p ^ q) NEON_BIT(bic, p & ~q) NEON_BIT(orn, p | ~q) NEON_BIT(add, p + q) NEON_BIT(sub, p - q)
NEON_OP8(vtst_u8, uint8x8_t, uint8x8_t, (p & q) ? 0xff : 0) NEON_OP8(vtst_s8, uint8x8_t, int8x8_t, (p & q) ? 0xff : 0)
inline uint8x8_t vmvn_u8(uint8x8_t v) noexcept { for (auto &x: v.e) x = static_cast<std::uint8_t>(~x); return v; }
inline int8x8_t vmvn_s8(int8x8_t v) noexcept { for (auto &x: v.e) x = static_cast<std::int8_t>(~x); return v; }
inline uint8x8_t vdup_n_u8(std::uint8_t x) noexcept { uint8x8_t v; for (auto &e: v.e) e = x; return v; }
inline int8x8_t vdup_n_s8(std::int8_t x) noexcept { int8x8_t v; for (auto &e: v.e) e = x; return v; }
inline uint8x8_t vmov_n_u8(std::uint8_t x) noexcept { return vdup_n_u8(x); }
inline int8x8_t vmov_n_s8(std::int8_t x) noexcept { return vdup_n_s8(x); }
inline uint8x8_t vld1_u8(const std::uint8_t *p) noexcept { uint8x8_t v; std::memcpy(v.e, p, 8); return v; }
inline int8x8_t vld1_s8(const std::int8_t *p) noexcept { int8x8_t v; std::memcpy(v.e, p, 8); return v; }
inline void vst1_u8(std::uint8_t *p, uint8x8_t v) noexcept { std::memcpy(p, v.e, 8); }
inline void vst1_s8(std::int8_t *p, int8x8_t v) noexcept { std::memcpy(p, v.e, 8); }
inline uint8x8_t vbsl_u8(uint8x8_t m, uint8x8_t a, uint8x8_t b) noexcept { return vorr_u8(vand_u8(m, a), vbic_u8(b, m)); }
inline int8x8_t vbsl_s8(uint8x8_t m, int8x8_t a, int8x8_t b) noexcept { return vreinterpret_s8_u8(vbsl_u8(m, vreinterpret_u8_s8(a), vreinterpret_u8_s8(b))); }
inline uint8x8_t vcreate_u8(std::uint64_t x) noexcept { return neon_sim::cast<uint8x8_t>(x); }
inline int8x8_t vcreate_s8(std::uint64_t x) noexcept { return neon_sim::cast<int8x8_t>(x); }
template<typename V> inline auto neon_lane(V v, int i) noexcept { return v.e[i]; }
#define vget_lane_u64(v, i) neon_lane<uint64x1_t>((v), (i))
#define vget_lane_s64(v, i) neon_lane<int64x1_t>((v), (i))
#define vget_lane_u8(v, i) neon_lane<uint8x8_t>((v), (i))
#define vget_lane_u32(v, i) neon_lane<uint32x2_t>((v), (i))
#undef NEON_CAST
#undef NEON_OP8
#undef NEON_CMP
#undef NEON_BIT
