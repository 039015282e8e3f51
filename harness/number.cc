#include <gul14/to_number.h>
using gul14::string_view;
#define X extern "C"
#define TN(T, N) X bool r_tn_##N(const char* s, size_t n, T* out) { auto r = gul14::to_number<T>(string_view(s, n)); if (!r) return false; *out = *r; return true; }
TN(int8_t, i8) TN(int16_t, i16) TN(int32_t, i32) TN(int64_t, i64) TN(uint8_t, u8) TN(uint16_t, u16) TN(uint32_t, u32) TN(uint64_t, u64)
TN(bool, bool)
