#include "oracle.h"
#include <array>
#include <gul14/span.h>
using T = int16_t; using V = std::vector<T>;
using D = gul14::span<T>; using C = gul14::span<const T>; using F = gul14::span<T, 4>;
static V val(Src& r, size_t n) { V v(n); for (auto& x : v) x = r.en ? static_cast<T>(r.pick(2) ? -1 : 1) : static_cast<T>(r.pick(3) ? r.pick(3) - 1 : r.pick(65536)); return v; }
template <class S> V vec(S s) { return V(s.data(), s.data() + s.size()); }
static V part(const V& v, size_t o, size_t n) { return V(v.begin() + o, v.begin() + o + n); }
template <class S, class U> void rel(S a, U b, const V& x, const V& y) {
    expect_eq(a == b, x == y, "=="); expect_eq(a != b, x != y, "!="); expect_eq(a < b, x < y, "<"); expect_eq(a > b, x > y, ">"); expect_eq(a <= b, x <= y, "<="); expect_eq(a >= b, x >= y, ">=");
}
template <class S> void common(S s, const V& a, T* p) {
    size_t n = a.size();
    expect(s.data() == p, "data"); expect_eq(s.size(), n, "size"); expect_eq(s.empty(), n == 0, "empty"); expect_eq(s.size_bytes(), 2 * n, "size_bytes");
    for (size_t i = 0; i < n; ++i) expect(&s[i] == p + i, "operator[]");
    if (n) { expect(&s.front() == p, "front"); expect(&s.back() == p + n - 1, "back"); }
    expect_eq(V(s.begin(), s.end()), a, "iterators"); expect_eq(V(s.cbegin(), s.cend()), a, "const iterators"); expect_eq(V(begin(s), end(s)), a, "free begin/end");
    expect_eq(V(s.rbegin(), s.rend()), V(a.rbegin(), a.rend()), "reverse iterators"); expect_eq(V(s.crbegin(), s.crend()), V(a.rbegin(), a.rend()), "const reverse iterators");
    for (size_t k = 0; k <= n; ++k) {
        expect_eq(vec(s.first(k)), part(a, 0, k), "first(" + show(k) + ")"); expect_eq(vec(s.last(k)), part(a, n - k, k), "last(" + show(k) + ")");
        expect_eq(vec(s.subspan(k)), part(a, k, n - k), "subspan(" + show(k) + ")");
        expect_eq(vec(s.subspan(k, gul14::dynamic_extent)), part(a, k, n - k), "subspan(k, dynamic_extent)");
        for (size_t m = 0; m + k <= n && m < 40; ++m) expect_eq(vec(s.subspan(k, m)), part(a, k, m), "subspan(" + show(k) + "," + show(m) + ")");
    }
    if (n >= 3) {
        expect_eq(vec(s.template first<3>()), part(a, 0, 3), "first<3>"); expect_eq(vec(s.template last<3>()), part(a, n - 3, 3), "last<3>");
        expect_eq(vec(s.template first<0>()), V{}, "first<0>"); expect_eq(vec(s.template last<1>()), part(a, n - 1, 1), "last<1>"); expect_eq(vec(s.template last<0>()), V{}, "last<0>");
        expect_eq(vec(s.template subspan<1>()), part(a, 1, n - 1), "subspan<1>"); expect_eq(vec(s.template subspan<1, 2>()), part(a, 1, 2), "subspan<1,2>");
        expect_eq(vec(s.template subspan<0>()), a, "subspan<0>"); expect_eq(vec(s.template subspan<2, 0>()), V{}, "subspan<2,0>");
    }
    auto b = gul14::as_bytes(s); auto w = gul14::as_writable_bytes(s);
    expect(b.data() == reinterpret_cast<unsigned char*>(p) && b.size() == 2 * n, "as_bytes"); expect(w.data() == reinterpret_cast<unsigned char*>(p) && w.size() == 2 * n, "as_writable_bytes");
    C c(s); expect(c.data() == p && c.size() == n, "conversion to const"); S t(s); expect(t.data() == p && t.size() == n, "copy");
}
void one(Src& r) {
    V a = val(r, r.en ? r.pick(4) : r.pick(8) ? r.pick(9) : r.longsize() % 50), b = val(r, r.en ? r.pick(3) : a.size());
    if (!r.en) { b = r.flag() ? a : b; if (r.flag() && !b.empty()) b[r.pick(b.size())] += static_cast<T>(r.pick(3)) - 1; b.resize(r.flag() ? b.size() : r.pick(b.size() + 3)); }
    case_is("a=" + show(a) + " b=" + show(b));
    std::unique_ptr<T[]> pa(new T[a.size()]); std::copy(a.begin(), a.end(), pa.get());
    common(D(pa.get(), a.size()), a, pa.get()); common(D(pa.get(), pa.get() + a.size()), a, pa.get()); common(D(a), a, a.data());
    const V& ca = a; expect(C(ca).data() == a.data() && C(ca).size() == a.size(), "const container");
    rel(D(a), C(b.data(), b.size()), a, b); rel(D(a), D(b), a, b);
    D z(b); z = D(a); expect(z.data() == a.data() && z.size() == a.size(), "assignment");
    expect(D().data() == nullptr && D().size() == 0 && D().empty(), "default"); gul14::span<T, 0> z0; expect(z0.data() == nullptr && z0.size() == 0, "default, extent 0");
    T q[4]; std::array<T, 4> sa; V v4(4); for (int i = 0; i < 4; ++i) v4[i] = q[i] = sa[i] = i < (int)a.size() ? a[i] : static_cast<T>(i);
    common(F(q), v4, q); common(D(q), v4, q); common(F(sa), v4, sa.data()); common(D(sa), v4, sa.data()); common(F(q, 4), v4, q); common(F(q, q + 4), v4, q);
    const auto& csa = sa; expect(C(csa).data() == sa.data() && C(csa).size() == 4, "const std::array"); gul14::span<const T, 4> f4(csa); expect(f4.data() == sa.data() && f4.size() == 4, "const std::array, fixed");
    gul14::span<const T, 4> f5{F(q)}; expect(f5.data() == q && f5.size() == 4, "fixed to fixed");
    expect(&gul14::get<0>(F(q)) == q && &gul14::get<3>(F(q)) == q + 3, "get"); rel(F(q), D(b), v4, b); rel(F(q), F(sa), v4, v4);
}
