// roots for functions that build text: cat, repeat, hex_string, safe_string
#include <gul14/cat.h>
#include <gul14/string_util.h>
#include "cat.cc"
#include "string_util.cc"
#include <cstdint>
using gul14::string_view; using gul14::cat;
#define X extern "C"
X std::string r_cat0() { return cat(); }
X std::string r_cat1(const char* a, size_t l) { return cat(string_view(a, l)); }
X std::string r_cat2(const char* a, size_t l, const char* b, size_t m) { return cat(string_view(a, l), string_view(b, m)); }
X std::string r_cat3(const char* a, size_t l, const char* b, size_t m, const char* c, size_t n) { return cat(string_view(a, l), string_view(b, m), string_view(c, n)); }
X std::string r_cat4(const char* a, size_t l, const char* b, size_t m, const char* c, size_t n, const char* d, size_t o) { return cat(string_view(a, l), string_view(b, m), string_view(c, n), string_view(d, o)); }
X std::string r_cat5(const char* a, size_t l, const char* b, size_t m, const char* c, size_t n, const char* d, size_t o, const char* e, size_t p) { return cat(string_view(a, l), string_view(b, m), string_view(c, n), string_view(d, o), string_view(e, p)); }
X std::string r_cat_chars(char a, const char* s, size_t n, char c) { return cat(a, string_view(s, n), c); }
X std::string r_cat_str(const std::string& a, const char* b) { return cat(a, b); }
#define CV(T, N) X std::string r_cat_##N(T a, const char* s, size_t n) { return cat(a, string_view(s, n)); }
CV(int, int) CV(unsigned, unsigned) CV(long, long) CV(unsigned long, ulong) CV(long long, longlong) CV(unsigned long long, ulonglong) CV(float, float) CV(double, double)
X std::string r_repeat(const char* s, size_t n, size_t k) { return gul14::repeat(string_view(s, n), k); }
X std::string r_safe(const char* s, size_t n) { return gul14::safe_string(s, n); }
#define H(T, N) X std::string r_hex_##N(T v) { return gul14::hex_string(v); } \
X std::string r_hexr_##N(const T* p, size_t n, const char* s, size_t m) { return gul14::hex_string(p, p + n, string_view(s, m)); }
H(uint8_t, u8) H(int8_t, i8) H(char, c) H(uint16_t, u16) H(int16_t, i16) H(uint32_t, u32) H(int32_t, i32) H(uint64_t, u64) H(int64_t, i64)
X std::string r_hexa(const uint16_t (&a)[3], const char* s, size_t m) { return gul14::hex_string(a, string_view(s, m)); }
