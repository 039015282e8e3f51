#include <gul14/num_util.h>
#include <cstdint>
#define X extern "C"
#define I(T, N) \
X T r_abs_##N(T a) { return gul14::abs(a); } \
X bool r_wabs_##N(T a, T b, T t) { return gul14::within_abs(a, b, t); } \
X bool r_word_##N(T a, T b, int o) { return gul14::within_orders(a, b, o); } \
X const T* r_clamp_##N(const T* v, const T* lo, const T* hi) { return &gul14::clamp(*v, *lo, *hi); } \
X const T* r_clampc_##N(const T* v, const T* lo, const T* hi) { return &gul14::clamp(*v, *lo, *hi, [](T a, T b) { return a > b; }); }
I(int8_t, i8) I(int16_t, i16) I(int32_t, i32) I(int64_t, i64) I(uint8_t, u8) I(uint16_t, u16) I(uint32_t, u32) I(uint64_t, u64)
I(float, f) I(double, d)
#define F(T, N) X bool r_wulp_##N(T a, T b, unsigned u) { return gul14::within_ulp(a, b, u); } \
X int r_wulp2_##N(T a, T b, unsigned u) { return gul14::within_ulp(a, b, u) + 2 * gul14::within_ulp(b, a, u); } \
X int r_wabs2_##N(T a, T b, T t) { return gul14::within_abs(a, b, t) + 2 * gul14::within_abs(b, a, t); }
F(float, f) F(double, d)
