// Stand-in for the ARM header: the few intrinsics that the library uses, lane by lane as the architecture manual defines them,
// so that its NEON code can be executed on other machines. Clang only (vectors convert implicitly, as with the real header).
#pragma once
#include <cstddef>
#include <cstdint>

typedef uint8_t uint8x16_t __attribute__((vector_size(16)));
typedef uint16_t uint16x8_t __attribute__((vector_size(16)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef uint64_t uint64x2_t __attribute__((vector_size(16)));
typedef uint8_t uint8x8_t __attribute__((vector_size(8)));
typedef uint16_t uint16x4_t __attribute__((vector_size(8)));
typedef uint32_t uint32x2_t __attribute__((vector_size(8)));
typedef uint64_t uint64x1_t __attribute__((vector_size(8)));

#define NEON_FN static inline __attribute__((always_inline, unused))

NEON_FN uint8x16_t vld1q_u8(const uint8_t* p)
{
    uint8x16_t r;
    for (int i = 0; i < 16; ++i) r[i] = p[i];
    return r;
}
NEON_FN void vst1q_u8(uint8_t* p, uint8x16_t x)
{
    for (int i = 0; i < 16; ++i) p[i] = x[i];
}
NEON_FN uint8x16_t vdupq_n_u8(uint8_t n)
{
    uint8x16_t r;
    for (int i = 0; i < 16; ++i) r[i] = n;
    return r;
}
#define NEON_LANES(name, expr) \
    NEON_FN uint8x16_t name(uint8x16_t x, uint8x16_t y) \
    { \
        uint8x16_t r; \
        for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(expr); \
        return r; \
    }
NEON_LANES(vcltq_u8, x[i] < y[i] ? 255 : 0)
NEON_LANES(vcleq_u8, x[i] <= y[i] ? 255 : 0)
NEON_LANES(vcgtq_u8, x[i] > y[i] ? 255 : 0)
NEON_LANES(vcgeq_u8, x[i] >= y[i] ? 255 : 0)
NEON_LANES(vceqq_u8, x[i] == y[i] ? 255 : 0)
NEON_LANES(vtstq_u8, (x[i] & y[i]) ? 255 : 0)
NEON_LANES(vorrq_u8, x[i] | y[i])
NEON_LANES(vandq_u8, x[i] & y[i])
NEON_LANES(veorq_u8, x[i] ^ y[i])
NEON_LANES(vbicq_u8, x[i] & ~y[i])
NEON_LANES(vmaxq_u8, x[i] > y[i] ? x[i] : y[i])
NEON_LANES(vminq_u8, x[i] < y[i] ? x[i] : y[i])
NEON_FN uint8x16_t vmvnq_u8(uint8x16_t x) { return ~x; }
NEON_FN uint8_t vmaxvq_u8(uint8x16_t x)
{
    uint8_t m = 0;
    for (int i = 0; i < 16; ++i) m = x[i] > m ? x[i] : m;
    return m;
}
NEON_FN uint8_t vminvq_u8(uint8x16_t x)
{
    uint8_t m = 255;
    for (int i = 0; i < 16; ++i) m = x[i] < m ? x[i] : m;
    return m;
}
NEON_FN uint8x8_t vshrn_n_u16(uint16x8_t x, int n)
{
    uint8x8_t r;
    for (int i = 0; i < 8; ++i) r[i] = (uint8_t)(x[i] >> n);
    return r;
}
NEON_FN uint16x8_t vreinterpretq_u16_u8(uint8x16_t x) { return (uint16x8_t)x; }
NEON_FN uint32x4_t vreinterpretq_u32_u8(uint8x16_t x) { return (uint32x4_t)x; }
NEON_FN uint64x2_t vreinterpretq_u64_u8(uint8x16_t x) { return (uint64x2_t)x; }
NEON_FN uint64x1_t vreinterpret_u64_u8(uint8x8_t x) { return (uint64x1_t)x; }
NEON_FN uint32x2_t vreinterpret_u32_u8(uint8x8_t x) { return (uint32x2_t)x; }
NEON_FN uint32x2_t vreinterpret_u32_u64(uint64x1_t x) { return (uint32x2_t)x; }
NEON_FN uint64x1_t vorr_u64(uint64x1_t x, uint64x1_t y) { return x | y; }
NEON_FN uint64x1_t vget_high_u64(uint64x2_t x) { return uint64x1_t { x[1] }; }
NEON_FN uint64x1_t vget_low_u64(uint64x2_t x) { return uint64x1_t { x[0] }; }
NEON_FN uint64_t vgetq_lane_u64(uint64x2_t x, int n) { return x[n]; }
NEON_FN uint64_t vget_lane_u64(uint64x1_t x, int n) { return x[n]; }
NEON_FN uint32_t vget_lane_u32(uint32x2_t x, int n) { return x[n]; }
#undef NEON_LANES
#undef NEON_FN
