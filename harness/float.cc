// roots for to_number with floating-point types
#include <gul14/to_number.h>
using gul14::string_view;
using gul14::optional;
namespace d = gul14::detail;
#define X extern "C"
#define OUT(T, N, CALL) X bool N(const char* s, size_t n, T* out) { auto r = CALL(string_view(s, n)); if (!r) return false; *out = *r; return true; }
OUT(float, r_tf_f, gul14::to_number<float>) OUT(double, r_tf_d, gul14::to_number<double>) OUT(long double, r_tf_l, gul14::to_number<long double>)
OUT(float, r_uf_f, d::to_unsigned_float<float>) OUT(double, r_uf_d, d::to_unsigned_float<double>) OUT(long double, r_uf_l, d::to_unsigned_float<long double>)
OUT(int, r_exp, d::parse_exponent)
#define NORM(T, N) X bool N(const char* s, size_t n, const char* t, size_t m, T* out) { auto r = d::to_normalized_float<T>(string_view(s, n), string_view(t, m)); if (!r) return false; *out = *r; return true; }
NORM(double, r_norm_d) NORM(long double, r_norm_l)
#define IN(T, N) X int N(const char* s, size_t n, T* out) { auto r = d::parse_inf_nan<T>(string_view(s, n)); if (!r.result_valid) return 0; if (!r.result) return 1; *out = *r.result; return 2; }
IN(float, r_inf_f) IN(double, r_inf_d) IN(long double, r_inf_l)
X bool r_ui(const char* s, size_t n, uint64_t* mag, uint64_t* out) { auto r = d::to_unsigned_integer<uint64_t, true>(string_view(s, n), mag); if (!r) return false; *out = *r; return true; }
// return values of the functions that are called through their contracts
template <typename T> optional<T> mk(bool h, T v) { if (h) return optional<T>(v); return gul14::nullopt; }
optional<float> mk_f(bool h, float v) { return mk(h, v); }
optional<double> mk_d(bool h, double v) { return mk(h, v); }
optional<long double> mk_l(bool h, long double v) { return mk(h, v); }
optional<int> mk_i(bool h, int v) { return mk(h, v); }
optional<uint64_t> mk_u(bool h, uint64_t v) { return mk(h, v); }
template <typename T> d::ParseInfNanResult<T> pin(bool ok, bool h, T v) { return { ok, mk(h, v) }; }
d::ParseInfNanResult<float> pin_f(bool ok, bool h, float v) { return pin(ok, h, v); }
d::ParseInfNanResult<double> pin_d(bool ok, bool h, double v) { return pin(ok, h, v); }
d::ParseInfNanResult<long double> pin_l(bool ok, bool h, long double v) { return pin(ok, h, v); }
