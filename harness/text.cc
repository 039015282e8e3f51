// roots for substring checks, case conversion and trimming; library sources are taken from the tree
#include <gul14/substring_checks.h>
#include <gul14/case_ascii.h>
#include <gul14/trim.h>
#include "case_ascii.cc"
#include "string_util.cc"
#include "trim.cc"
using gul14::string_view;
#define X extern "C"
#define SUB(F) \
X bool r_##F##_sv(const char* s, size_t n, const char* t, size_t m) { return gul14::F(string_view(s,n), string_view(t,m)); } \
X bool r_##F##_ch(const char* s, size_t n, char c) { return gul14::F(string_view(s,n), c); }
SUB(contains) SUB(starts_with) SUB(ends_with) SUB(contains_nocase) SUB(starts_with_nocase) SUB(ends_with_nocase)
X bool r_equals_nocase_sv(const char* s, size_t n, const char* t, size_t m) { return gul14::equals_nocase(string_view(s,n), string_view(t,m)); }

X char r_lower_c(char c) { return gul14::lowercase_ascii(c); }
X char r_upper_c(char c) { return gul14::uppercase_ascii(c); }
X std::string r_lower(const char* s, size_t n) { return gul14::lowercase_ascii(string_view(s,n)); }
X std::string r_upper(const char* s, size_t n) { return gul14::uppercase_ascii(string_view(s,n)); }
X std::string& r_lower_in(std::string& s) { return gul14::lowercase_ascii_inplace(s); }
X std::string& r_upper_in(std::string& s) { return gul14::uppercase_ascii_inplace(s); }

struct SV { const char* p; size_t n; };
static SV out(string_view v) { return { v.data(), v.size() }; }
#define TRIM(F) \
X SV r_##F##_sv(const char* s, size_t n, const char* t, size_t m) { return out(gul14::F##_sv(string_view(s,n), string_view(t,m))); } \
X std::string r_##F(const char* s, size_t n, const char* t, size_t m) { return gul14::F(string_view(s,n), string_view(t,m)); } \
X SV r_##F##_sv_d(const char* s, size_t n) { return out(gul14::F##_sv(string_view(s,n))); } \
X std::string r_##F##_d(const char* s, size_t n) { return gul14::F(string_view(s,n)); }
TRIM(trim) TRIM(trim_left) TRIM(trim_right)
