// LINK: trim.cc string_util.cc
#include "oracle.h"
#include <gul14/trim.h>
using gul14::string_view;
static std::string tr(std::string s, const std::string& w, bool l, bool r) {
    if (l) while (!s.empty() && w.find(s.front()) != w.npos) s.erase(0, 1);
    if (r) while (!s.empty() && w.find(s.back()) != w.npos) s.pop_back();
    return s;
}
void one(Src& r) {
    static const char al[] = {' ', 'a', '\t', '\n', '\r', '\a', '\b', '\f', '\v', '\0', '\xa0'};
    std::string S = r.str(al, r.en ? 3 : 0, 24, r.en ? 11 : 11), W = r.str(al, r.en ? 1 : 0, 4, r.en ? 3 : 11);
    Exact es(S), ew(W); string_view s(es.data(), es.n), w(ew.data(), ew.n);
    case_is("s=" + show(S) + " ws=" + show(W));
    const std::string D(" \t\r\n\a\b\f\v");
#define CK(F, L, R) { std::string x = tr(S, W, L, R), d = tr(S, D, L, R); \
    expect_eq(gul14::F(s, w), x, #F); expect_eq(gul14::F(s), d, #F " default"); \
    auto v = gul14::F##_sv(s, w); expect_eq(std::string(v.data(), v.size()), x, #F "_sv"); \
    if (!v.empty()) expect(v.data() >= s.data() && v.data() + v.size() <= s.data() + s.size(), #F "_sv inside the input"); \
    auto u = gul14::F##_sv(s); expect_eq(std::string(u.data(), u.size()), d, #F "_sv default"); }
    CK(trim, 1, 1) CK(trim_left, 1, 0) CK(trim_right, 0, 1)
}
