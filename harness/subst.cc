// roots for replace, replace_inplace
#include <gul14/replace.h>
#include "replace.cc"
using gul14::string_view;
#define X extern "C"
X std::string r_replace(const char* h, size_t n, const char* s, size_t m, const char* t, size_t k) { return gul14::replace(string_view(h, n), string_view(s, m), string_view(t, k)); }
X std::string& r_replace_in(std::string& h, const char* s, size_t m, const char* t, size_t k) { return gul14::replace_inplace(h, string_view(s, m), string_view(t, k)); }
