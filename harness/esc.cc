// roots for escape (unescape is built on std::regex and stays out of reach; see DESIGN.md)
#include <gul14/escape.h>
#include "string_util.cc"
#include "escape.cc"
using gul14::string_view;
extern "C" std::string r_escape(const char* h, size_t n) { return gul14::escape(string_view(h, n)); }
extern "C" std::string r_unescape(const char* h, size_t n) { return gul14::unescape(string_view(h, n)); }
