// LINK: to_number.cc
#include "oracle.h"
#include <gul14/to_number.h>
#include <cmath>
#include <cfloat>
#include <climits>
using gul14::string_view;
static char low(char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }
static bool dg(char c) { return c >= '0' && c <= '9'; }
// 0: no number, 1: number (v: its value), 2: NaN
static int ref(const std::string& in, long double& v) {
    std::string s = in; bool neg = false;
    if (s.empty()) return 0;
    if (s[0] == '-') { neg = true; s.erase(0, 1); }
    if (s.empty()) return 0;
    std::string l; for (char c : s) l += low(c);
    long double sg = neg ? -1.0L : 1.0L;
    if (l == "inf" || l == "infinity") { v = sg * INFINITY; return 1; }
    if (l.substr(0, 3) == "inf") return 0;
    if (l == "nan") return 2;
    if (l.substr(0, 3) == "nan") {
        if (l.size() < 5 || l[3] != '(' || l.back() != ')') return 0;
        for (size_t i = 4; i + 1 < l.size(); ++i) if (!(dg(l[i]) || (l[i] >= 'a' && l[i] <= 'z') || l[i] == '_')) return 0;
        return 2;
    }
    size_t e = s.find_first_of("eE"); std::string man = s.substr(0, e);
    if (e != std::string::npos) {
        std::string x = s.substr(e + 1); size_t i = 0;
        if (!x.empty() && (x[0] == '+' || x[0] == '-')) i = 1;
        if (i == x.size()) return 0;
        long long ev = 0; for (size_t j = i; j < x.size(); ++j) { if (!dg(x[j])) return 0; if (ev <= INT_MAX) ev = ev * 10 + (x[j] - '0'); }
        if (ev > INT_MAX) return 0;
    }
    size_t digits = 0, points = 0;
    for (char c : man) { if (dg(c)) ++digits; else if (c == '.') ++points; else return 0; }
    if (!digits || points > 1) return 0;
    v = sg * strtold(s.c_str(), nullptr);
    return 1;
}
template <class T> static void ck(string_view s, const std::string& S, const char* name) {
    long double v = 0; int k = ref(S, v);
    auto r = gul14::to_number<T>(s);
    std::string nm = std::string("to_number<") + name + ">";
    expect_eq(bool(r), k != 0, "has value, " + nm);
    if (k == 2) { expect(std::isnan(*r), "NaN, " + nm); return; }
    if (k != 1) return;
    long double x = *r; using L = std::numeric_limits<T>;
    long double eps = L::epsilon(), mx = L::max(), tiny = L::denorm_min();
    long double rel = sizeof(T) == 4 ? eps : sizeof(T) == 8 ? 2.5L * eps : 40 * eps;
    expect(!std::isnan(x), "a number, " + nm);
    expect_eq(std::signbit(x), std::signbit(v), "sign, " + nm);
    long double a = fabsl(v), b = fabsl(x);
    if (a > mx * (1 + 4 * rel) || std::isinf(a)) { expect(std::isinf(b) || (sizeof(T) == 16 && b >= mx * (1 - 4 * rel)), "too large a number is infinite, " + nm + " got " + show(x)); return; }
    if (std::isinf(b)) { expect(a >= mx * (1 - 4 * rel), "infinite although representable, " + nm); return; }
    long double d = fabsl(a - b), tol = a * rel + 16 * tiny;
    expect(d <= tol, "value, " + nm + ": got " + show(x) + " expected " + show(v));
}
static void powers() {
    for (int e = -6000; e <= 6000; ++e) {
        long double p = gul14::detail::pow10(e), w = strtold(("1e" + std::to_string(e)).c_str(), nullptr);
        case_is("pow10(" + std::to_string(e) + ")");
        if (std::isinf(w)) expect(std::isinf(p) && p > 0, "pow10 overflows to infinity");
        else expect(fabsl(p - w) <= w * 0x1p-58L + 4 * std::numeric_limits<long double>::denorm_min(), "pow10: got " + show(p) + " expected " + show(w));
    }
    for (int e : {INT_MAX, INT_MAX - 1, 1 << 20, 1 << 16, 65535, 8192, 8191}) {
        case_is("pow10(" + std::to_string(e) + ")");
        expect(std::isinf(gul14::detail::pow10(e)), "pow10 of a large exponent"); expect(gul14::detail::pow10(-e) == 0, "pow10 of a very negative exponent"); }
}
void one(Src& r) {
    static bool done = false; if (!done) { done = true; powers(); }
    std::string S;
    auto digits = [&](size_t mx) { std::string d; size_t n = r.pick(mx + 1); for (size_t i = 0; i < n; ++i) d += char('0' + r.pick(r.en ? 2 : 10)); return d; };
    auto zeros = [&](size_t mx) { return std::string(r.pick(mx + 1), '0'); };
    switch (r.pick(r.en ? 4 : 8)) {
        case 0: { static const char* w[] = {"inf", "-INF", "Infinity", "infinit", "infinityy", "nan", "NaN()", "nan(", "nan)", "nan(_aZ9)", "nan(-)", "-nan(x)", "in", "na", "infi", "nana", "nan(]", "nan(/)", "nan(:)", "nan(`)", "nan({)", "nan([)", "nan(@)", "nan(^)"};
            S = w[r.pick(sizeof w / sizeof *w)]; break; }
        case 1: S = r.str("-+.e0159", r.en ? 5 : 0, 24); break;
        case 2: { static const char* m[] = {"1", "0", "9.5", ".5", "5.", "0.001", "00120.0", ".", ""}; static const char* x[] = {"", "e", "e0", "E+1", "e-1", "e+", "e-", "e308", "e309", "e-324", "e-320", "e38", "e39", "e-45", "e-40", "e4932", "e4933", "e-4950", "e-4940", "e2147483647", "e-2147483647", "e2147483648", "e-2147483648", "e99999999999999999999", "e 1", "e1e1", "e.1", "e+-1"};
            S = m[r.pick(9)]; S += x[r.pick(sizeof x / sizeof *x)]; break; }
        case 3: S = (r.flag() ? "-" : "") + zeros(r.en ? 1 : 30) + digits(r.en ? 3 : 30) + (r.flag() ? "." : "") + zeros(r.en ? 2 : 40) + digits(r.en ? 3 : 30); break;
        case 4: case 5: S = (r.flag() ? "-" : "") + zeros(r.pick(3) ? 0 : 400) + digits(40) + (r.flag() ? "." : "") + zeros(r.pick(3) ? 2 : 400) + digits(40) + (r.flag() ? "e" : "E") + (r.flag() ? "-" : r.flag() ? "+" : "") + std::to_string(r.pick(r.flag() ? 40 : r.flag() ? 400 : 5200)); break;
        case 6: S = digits(22) + "." + digits(22); break;
        default: S = r.str("0123456789.e-+", 0, 45); break;
    }
    if (!r.en && r.pick(6) == 0 && !S.empty()) S[r.pick(S.size())] = char(r.byte());
    Exact es(S); string_view s(es.data(), es.n);
    case_is("s=" + show(S));
    ck<float>(s, S, "float"); ck<double>(s, S, "double"); ck<long double>(s, S, "long double");
}
