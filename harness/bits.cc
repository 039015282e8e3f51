#include <gul14/bit_manip.h>
#include <gul14/gcd_lcm.h>
#include <cstdint>
#define X extern "C"
#define B(T, N) \
X T r_bs1_##N(unsigned b) { return gul14::bit_set<T>(b); } \
X T r_bs_##N(T v, unsigned b) { return gul14::bit_set(v, b); } \
X T r_br_##N(T v, unsigned b) { return gul14::bit_reset(v, b); } \
X T r_bf_##N(T v, unsigned b) { return gul14::bit_flip(v, b); } \
X bool r_bt_##N(T v, unsigned b) { return gul14::bit_test(v, b); } \
X T r_gcd_##N(T a, T b) { return gul14::gcd(a, b); } \
X T r_lcm_##N(T a, T b) { return gul14::lcm(a, b); }
B(int8_t, i8) B(int16_t, i16) B(int32_t, i32) B(int64_t, i64) B(uint8_t, u8) B(uint16_t, u16) B(uint32_t, u32) B(uint64_t, u64)
X int64_t r_gcdmix_i(int32_t a, int64_t b) { return gul14::gcd(a, b); }
X int64_t r_lcmmix_i(int32_t a, int64_t b) { return gul14::lcm(a, b); }
X uint64_t r_gcdmix_u(uint64_t a, uint16_t b) { return gul14::gcd(a, b); }
X uint64_t r_lcmmix_u(uint64_t a, uint16_t b) { return gul14::lcm(a, b); }
X bool r_big() { return gul14::is_big_endian(); }
X bool r_little() { return gul14::is_little_endian(); }
