// LINK: case_ascii.cc
#include "oracle.h"
#include <gul14/case_ascii.h>
static char lo(char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }
static char up(char c) { return c >= 'a' && c <= 'z' ? char(c - 32) : c; }
void one(Src& r) {
    if (r.flag()) { char c = char(r.en ? r.pick(256) : r.pick(256)); case_is("c=" + show(c)); expect_eq(gul14::lowercase_ascii(c), lo(c), "lower(char)"); expect_eq(gul14::uppercase_ascii(c), up(c), "upper(char)"); return; }
    static const char al[] = {'a', 'A', 'z', 'Z', '@', '[', '{', '`', '\xe1', '\xc1', '\0'};
    std::string S = r.str(al, 3, 40, 11), L = S, U = S;
    for (auto& c : L) c = lo(c); for (auto& c : U) c = up(c);
    case_is("s=" + show(S));
    Exact e(S); gul14::string_view v(e.data(), e.n);
    expect_eq(gul14::lowercase_ascii(v), L, "lower"); expect_eq(gul14::uppercase_ascii(v), U, "upper");
    std::string a = S, b = S;
    expect(&gul14::lowercase_ascii_inplace(a) == &a, "returns its argument"); expect_eq(a, L, "lower inplace");
    expect(&gul14::uppercase_ascii_inplace(b) == &b, "returns its argument"); expect_eq(b, U, "upper inplace");
}
