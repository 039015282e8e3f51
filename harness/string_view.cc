#include <gul14/string_view.h>
using gul14::string_view;
#define X extern "C"
#define SEARCH(F) \
X size_t r_##F##_sv(const char* s, size_t n, const char* t, size_t m, size_t pos) { return string_view(s,n).F(string_view(t,m), pos); } \
X size_t r_##F##_ch(const char* s, size_t n, char c, size_t pos) { return string_view(s,n).F(c, pos); } \
X size_t r_##F##_pn(const char* s, size_t n, const char* t, size_t m, size_t pos) { return string_view(s,n).F(t, pos, m); } \
X size_t r_##F##_cs(const char* s, size_t n, const char* t, size_t pos) { return string_view(s,n).F(t, pos); } \
X size_t r_##F##_dsv(const char* s, size_t n, const char* t, size_t m) { return string_view(s,n).F(string_view(t,m)); } \
X size_t r_##F##_dch(const char* s, size_t n, char c) { return string_view(s,n).F(c); } \
X size_t r_##F##_dcs(const char* s, size_t n, const char* t) { return string_view(s,n).F(t); }
SEARCH(find) SEARCH(rfind) SEARCH(find_first_of) SEARCH(find_last_of) SEARCH(find_first_not_of) SEARCH(find_last_not_of)
X size_t r_find_null(const char* t, size_t m, size_t pos) { return string_view().find(string_view(t,m), pos); }
X size_t r_rfind_null(const char* t, size_t m, size_t pos) { return string_view().rfind(string_view(t,m), pos); }
X size_t r_find_first_of_null(const char* t, size_t m, size_t pos) { return string_view().find_first_of(string_view(t,m), pos); }
X size_t r_find_last_of_null(const char* t, size_t m, size_t pos) { return string_view().find_last_of(string_view(t,m), pos); }
X size_t r_find_first_not_of_null(const char* t, size_t m, size_t pos) { return string_view().find_first_not_of(string_view(t,m), pos); }
X size_t r_find_last_not_of_null(const char* t, size_t m, size_t pos) { return string_view().find_last_not_of(string_view(t,m), pos); }

// ---- slicing and comparison
struct SV { const char* p; size_t n; };
static SV out(string_view v) { return { v.data(), v.size() }; }
X SV r_substr(const char* s, size_t n, size_t pos, size_t k) { return out(string_view(s,n).substr(pos, k)); }
X SV r_substr_d(const char* s, size_t n, size_t pos) { return out(string_view(s,n).substr(pos)); }
X SV r_remove_prefix(const char* s, size_t n, size_t k) { string_view v(s,n); v.remove_prefix(k); return out(v); }
X SV r_remove_suffix(const char* s, size_t n, size_t k) { string_view v(s,n); v.remove_suffix(k); return out(v); }
X char r_at(const char* s, size_t n, size_t pos) { return string_view(s,n).at(pos); }
X char r_index(const char* s, size_t n, size_t pos) { return string_view(s,n)[pos]; }
X char r_front(const char* s, size_t n) { return string_view(s,n).front(); }
X char r_back(const char* s, size_t n) { return string_view(s,n).back(); }
X size_t r_copy(const char* s, size_t n, char* d, size_t k, size_t pos) { return string_view(s,n).copy(d, k, pos); }
X SV r_cstr(const char* s) { return out(string_view(s)); }
X bool r_empty(const char* s, size_t n) { return string_view(s,n).empty(); }
X SV r_iter(const char* s, size_t n) { string_view v(s,n); return { v.begin(), size_t(v.end() - v.begin()) }; }
X char r_riter(const char* s, size_t n, size_t k) { string_view v(s,n); return *(v.rbegin() + k); }
X size_t r_rcount(const char* s, size_t n) { string_view v(s,n); return size_t(v.rend() - v.rbegin()); }
X SV r_swap(const char* s, size_t n, const char* t, size_t m) { string_view a(s,n), b(t,m); a.swap(b); return out(a); }
X SV r_swap2(const char* s, size_t n, const char* t, size_t m) { string_view a(s,n), b(t,m); a.swap(b); return out(b); }
X int r_compare(const char* s, size_t n, const char* t, size_t m) { return string_view(s,n).compare(string_view(t,m)); }
X int r_compare_cs(const char* s, size_t n, const char* t) { return string_view(s,n).compare(t); }
X int r_compare3(const char* s, size_t n, size_t p, size_t k, const char* t, size_t m) { return string_view(s,n).compare(p, k, string_view(t,m)); }
X int r_compare5(const char* s, size_t n, size_t p, size_t k, const char* t, size_t m, size_t p2, size_t k2) { return string_view(s,n).compare(p, k, string_view(t,m), p2, k2); }
X int r_compare3cs(const char* s, size_t n, size_t p, size_t k, const char* t) { return string_view(s,n).compare(p, k, t); }
X int r_compare4(const char* s, size_t n, size_t p, size_t k, const char* t, size_t m) { return string_view(s,n).compare(p, k, t, m); }
#define REL(N,OP) \
X bool r_##N(const char* s, size_t n, const char* t, size_t m) { return string_view(s,n) OP string_view(t,m); } \
X bool r_##N##_cs(const char* s, size_t n, const char* t) { return string_view(s,n) OP t; } \
X bool r_##N##_sc(const char* s, const char* t, size_t m) { return s OP string_view(t,m); }
REL(eq,==) REL(ne,!=) REL(lt,<) REL(gt,>) REL(le,<=) REL(ge,>=)
