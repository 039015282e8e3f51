// LINK: case_ascii.cc
#include "oracle.h"
#include <gul14/substring_checks.h>
using gul14::string_view;
static char lo(char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }
static std::string low(std::string s) { for (auto& c : s) c = lo(c); return s; }
static bool has(const std::string& s, const std::string& t) { return s.find(t) != s.npos; }
static bool beg(const std::string& s, const std::string& t) { return s.size() >= t.size() && s.substr(0, t.size()) == t; }
static bool end(const std::string& s, const std::string& t) { return s.size() >= t.size() && s.substr(s.size() - t.size()) == t; }
void one(Src& r) {
    static const char al[] = {'a', 'A', 'b', '@', '[', '{', '`', '\xe1', '\xc1'};
    std::string S = r.str(al, 4, 24, r.en ? 3 : 9), T = r.str(al, 3, 8, r.en ? 3 : 9);
    if (!r.en && r.flag() && S.size() > 2) { size_t p = r.pick(S.size()), k = r.pick(S.size() - p + 1); T = S.substr(p, k); if (r.flag()) for (auto& c : T) if (r.flag() && ((c | 32) >= 'a' && (c | 32) <= 'z')) c ^= 32; }
    char c = r.en ? al[r.pick(9)] : (T.empty() ? char(r.pick(256)) : T[0]); std::string C(1, c);
    Exact es(S), et(T); string_view s(es.data(), es.n), t(et.data(), et.n);
    case_is("s=" + show(S) + " t=" + show(T) + " c=" + show(c));
#define CK(F, W, A, B) expect_eq(gul14::F(s, t), W(A(S), A(T)), #F " sv"); expect_eq(gul14::F(s, c), W(A(S), A(C)), #F " char");
#define ID(x) x
    CK(contains, has, ID, 0) CK(starts_with, beg, ID, 0) CK(ends_with, end, ID, 0)
    CK(contains_nocase, has, low, 0) CK(starts_with_nocase, beg, low, 0) CK(ends_with_nocase, end, low, 0)
    expect_eq(gul14::equals_nocase(s, t), low(S) == low(T), "equals_nocase");
}
