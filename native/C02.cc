#include "oracle.h"
#include <stdexcept>
#include <gul14/string_view.h>
using gul14::string_view;
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static int cmp(const std::string& a, const std::string& b) { return sgn(a.compare(b)); }
// runs f; "throw" when std::out_of_range
template <class F> std::string run(F f) { try { return f(); } catch (const std::out_of_range&) { return "throws out_of_range"; } }
void one(Src& r) {
    static const char al[] = {'a', 'b', '\x80'};
    std::string S = r.str(al, 3, 24, 3), T = r.str(al, 3, 24, 3);
    size_t p = r.pos(S.size()), k = r.en ? (r.pos(S.size())) : r.pos(S.size()), p2 = r.en ? 0 : r.pos(T.size()), k2 = r.en ? ~size_t(0) : r.pos(T.size());
    if (r.en && r.flag()) k = ~size_t(0) - 1;
    Exact es(S), et(T);
    string_view s(es.data(), es.n), t(et.data(), et.n);
    case_is("s=" + show(S) + " t=" + show(T) + " p=" + show(p) + " k=" + show(k) + " p2=" + show(p2) + " k2=" + show(k2));
    auto str = [&](string_view v) { expect(v.data() >= s.data() && v.data() + v.size() <= s.data() + s.size() && v.size() <= s.size(), "slice outside the view"); return std::string(v.data(), v.size()); };
    expect_eq(run([&] { return str(s.substr(p, k)); }), run([&] { return S.substr(p, k); }), "substr");
    expect_eq(run([&] { return str(s.substr(p)); }), run([&] { return S.substr(p); }), "substr(pos)");
    { auto v = s; v.remove_prefix(k); expect_eq(str(v), S.substr(std::min(k, S.size())), "remove_prefix"); }
    { auto v = s; v.remove_suffix(k); expect_eq(str(v), S.substr(0, S.size() - std::min(k, S.size())), "remove_suffix"); }
    expect_eq(run([&] { return std::string(1, s.at(p)); }), run([&] { return std::string(1, S.at(p)); }), "at");
    expect_eq(s.empty(), S.empty(), "empty"); expect_eq(s.size(), S.size(), "size"); expect_eq(s.length(), S.size(), "length");
    if (!S.empty()) { expect_eq(s.front(), S.front(), "front"); expect_eq(s.back(), S.back(), "back"); }
    for (size_t i = 0; i < S.size(); ++i) expect_eq(s[i], S[i], "index");
    expect_eq(std::string(s.begin(), s.end()), S, "iteration");
    expect_eq(std::string(s.cbegin(), s.cend()), S, "iteration");
    expect_eq(std::string(s.rbegin(), s.rend()), std::string(S.rbegin(), S.rend()), "reverse iteration");
    expect_eq(std::string(s.crbegin(), s.crend()), std::string(S.rbegin(), S.rend()), "reverse iteration");
    std::string Z(S.c_str()), Zt(T.c_str());
    expect_eq(string_view(Z.c_str()).size(), Z.size(), "length of C string");
    expect_eq(run([&] { std::string b(40, '#'); size_t m = s.copy(&b[0], std::min(k, size_t(40)), p); return show(m) + b; }),
              run([&] { std::string b(40, '#'); size_t m = S.copy(&b[0], std::min(k, size_t(40)), p); return show(m) + b; }), "copy");
    { auto a = s, b = t; a.swap(b); expect(a.data() == t.data() && a.size() == t.size() && b.data() == s.data() && b.size() == s.size(), "swap"); }
    expect_eq(sgn(s.compare(t)), cmp(S, T), "compare"); expect_eq(sgn(s.compare(Zt.c_str())), cmp(S, Zt), "compare cs");
    auto cs = [&](auto f, auto g, const char* w) { expect_eq(run([&] { return show(sgn(f())); }), run([&] { return show(sgn(g())); }), w); };
    cs([&] { return s.compare(p, k, t); }, [&] { return S.compare(p, k, T); }, "compare(pos,n,sv)");
    cs([&] { return s.compare(p, k, t, p2, k2); }, [&] { return S.substr(p, k).compare(T.substr(p2, k2)); }, "compare(pos,n,sv,pos,n)");
    cs([&] { return s.compare(p, k, Zt.c_str()); }, [&] { return S.compare(p, k, Zt); }, "compare(pos,n,cs)");
    cs([&] { return s.compare(p, k, et.data(), et.n); }, [&] { return S.compare(p, k, T); }, "compare(pos,n,ptr,n)");
#define REL(OP) expect_eq(s OP t, S OP T, #OP); expect_eq(s OP T, S OP T, #OP " string"); expect_eq(S OP t, S OP T, "string " #OP); \
    expect_eq(s OP Zt.c_str(), S OP Zt, #OP " cs"); expect_eq(Z.c_str() OP t, Z OP T, "cs " #OP);
    REL(==) REL(!=) REL(<) REL(>) REL(<=) REL(>=)
    expect_eq(std::string(s), S, "conversion to std::string"); expect_eq(string_view(S).size(), S.size(), "view of a std::string");
    { std::string a = T; a += s; expect_eq(a, T + S, "+="); } expect_eq(T + s, T + S, "string + sv"); expect_eq(s + T, S + T, "sv + string");
    if (!r.en) {
        std::ostringstream a, b; int w = static_cast<int>(r.pick(40)); char fc = static_cast<char>('!' + r.pick(4)); bool left = r.flag();
        a.width(w); b.width(w); a.fill(fc); b.fill(fc); if (left) { a << std::left; b << std::left; } else { a << std::right; b << std::right; }
        a << s; b << S; expect_eq(a.str(), b.str(), "stream output"); expect_eq(a.width(), b.width(), "stream width reset");
    }
}
