// roots for split, join and tokenize
#include <gul14/join_split.h>
#include <gul14/tokenize.h>
#include "string_util.cc"
#include <cstdint>
#include <cstddef>
#include <new>
#define X extern "C"
using gul14::string_view;
// a container that records, for each inserted piece, where it starts and how long it is
struct Sink { using value_type = std::string; size_t n; };
X void gv_piece(Sink*, const char*, size_t);
struct Rec { void operator()(Sink& s, string_view v) const { gv_piece(&s, v.data(), v.size()); } };
X void r_split(Sink* r, const char* t, size_t n, const char* d, size_t m) { *r = gul14::split<Sink>(string_view(t, n), string_view(d, m), Rec()); }
X void r_split_sv(Sink* r, const char* t, size_t n, const char* d, size_t m) { *r = gul14::split_sv<Sink>(string_view(t, n), string_view(d, m), Rec()); }
X void r_tokenize(Sink* r, const char* t, size_t n, const char* d, size_t m) { *r = gul14::tokenize<Sink>(string_view(t, n), string_view(d, m), Rec()); }
X void r_tokenize_sv(Sink* r, const char* t, size_t n, const char* d, size_t m) { *r = gul14::tokenize_sv<Sink>(string_view(t, n), string_view(d, m), Rec()); }
// the default containers
using VS = std::vector<std::string>;
using VV = std::vector<string_view>;
X void r_split_vs(VS* r, const char* t, size_t n, const char* d, size_t m) { new (r) VS(gul14::split(string_view(t, n), string_view(d, m))); }
X void r_split_vv(VV* r, const char* t, size_t n, const char* d, size_t m) { new (r) VV(gul14::split_sv(string_view(t, n), string_view(d, m))); }
X void r_tokenize_vs(VS* r, const char* t, size_t n, const char* d, size_t m) { new (r) VS(gul14::tokenize(string_view(t, n), string_view(d, m))); }
X void r_tokenize_vv(VV* r, const char* t, size_t n, const char* d, size_t m) { new (r) VV(gul14::tokenize_sv(string_view(t, n), string_view(d, m))); }
X void r_tokenize_ws(VS* r, const char* t, size_t n) { new (r) VS(gul14::tokenize(string_view(t, n))); }
X void r_split_re(Sink* r, const char* t, size_t n, const std::regex* d) { *r = gul14::split<Sink>(string_view(t, n), *d, Rec()); }
X void r_split_re_vs(VS* r, const char* t, size_t n, const std::regex* d) { new (r) VS(gul14::split(string_view(t, n), *d)); }
// join over any range of views: the iterator asks for part i
X const char* gv_part_ptr(size_t i); X size_t gv_part_len(size_t i);
struct PartIt {
    using iterator_category = std::forward_iterator_tag; using value_type = string_view; using difference_type = ptrdiff_t; using pointer = const string_view*; using reference = string_view;
    size_t i;
    struct Arrow { string_view v; const string_view* operator->() const { return &v; } };
    string_view operator*() const { return string_view(gv_part_ptr(i), gv_part_len(i)); }
    Arrow operator->() const { return Arrow{ **this }; }
    PartIt& operator++() { ++i; return *this; }
    PartIt operator++(int) { PartIt r = *this; ++i; return r; }
    bool operator==(const PartIt& o) const { return i == o.i; }
    bool operator!=(const PartIt& o) const { return i != o.i; }
};
struct Parts { size_t a, b; PartIt begin() const { return PartIt{a}; } PartIt end() const { return PartIt{b}; } };
X void r_join_it(std::string* r, size_t n, const char* g, size_t m) { new (r) std::string(gul14::join(PartIt{0}, PartIt{n}, string_view(g, m))); }
X void r_join_c(std::string* r, size_t n, const char* g, size_t m) { new (r) std::string(gul14::join(Parts{0, n}, string_view(g, m))); }
