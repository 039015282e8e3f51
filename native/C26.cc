#include "oracle.h"
#include <set>
#include <gul14/variant.h>
// alternatives that track which objects are alive; constructing and assigning can be made to throw
struct Bomb {};
static std::set<const void*> live_; static int fuse_ = 0;
template <int K> struct Obj {
    int v;
    void burn() { if (fuse_ && --fuse_ == 0) throw Bomb{}; }
    void born() { burn(); expect(live_.insert(this).second, "object constructed in storage that is in use"); }
    void ok() const { expect(live_.count(this) == 1, "object used that does not exist"); }
    Obj() : v{1} { born(); }
    explicit Obj(int x) : v{x} { expect(live_.insert(this).second, "object constructed in storage that is in use"); }
    Obj(const Obj& o) : v{o.v} { o.ok(); born(); }
    Obj(Obj&& o) : v{o.v} { o.ok(); born(); o.v = -1; }
    ~Obj() { expect(live_.erase(this) == 1, "object destroyed that does not exist"); }
    Obj& operator=(const Obj& o) { ok(); o.ok(); burn(); v = o.v; return *this; }
    Obj& operator=(Obj&& o) { ok(); o.ok(); burn(); v = o.v; if (this != &o) o.v = -1; return *this; }
    friend bool operator==(const Obj& a, const Obj& b) { return a.v == b.v; } friend bool operator!=(const Obj& a, const Obj& b) { return a.v != b.v; }
    friend bool operator<(const Obj& a, const Obj& b) { return a.v < b.v; } friend bool operator>(const Obj& a, const Obj& b) { return a.v > b.v; }
    friend bool operator<=(const Obj& a, const Obj& b) { return a.v <= b.v; } friend bool operator>=(const Obj& a, const Obj& b) { return a.v >= b.v; }
};
using P = Obj<0>; using Q = Obj<1>; using R = Obj<2>; using V = gul14::variant<P, Q, R>;
struct M { int i, v; };   // model: i == 3: valueless
template <int K> int tag(const Obj<K>& o) { o.ok(); return K * 100 + o.v; }
template <int K> void alt(V& a, const M& m) {
    const V& c = a; bool on = m.i == K; using T = Obj<K>; int t = 0;
    expect(gul14::holds_alternative<K>(a) == on && gul14::holds_alternative<T>(c) == on, "holds_alternative");
    expect(!!gul14::get_if<K>(&a) == on && !!gul14::get_if<K>(&c) == on && !!gul14::get_if<T>(&a) == on && !!gul14::get_if<T>(&c) == on, "get_if");
    expect(gul14::get_if<K>(static_cast<V*>(nullptr)) == nullptr, "get_if(nullptr)");
    try { expect_eq(show(gul14::get<K>(a).v), show(m.v), "get"); } catch (const gul14::bad_variant_access&) { ++t; }
    try { expect_eq(show(gul14::get<K>(c).v), show(m.v), "get"); } catch (const gul14::bad_variant_access&) { ++t; }
    try { expect_eq(show(gul14::get<T>(c).v), show(m.v), "get"); } catch (const gul14::bad_variant_access&) { ++t; }
    try { expect_eq(show(gul14::get<K>(std::move(a)).v), show(m.v), "get"); } catch (const gul14::bad_variant_access&) { ++t; }
    expect(t == (on ? 0 : 4), "get throws bad_variant_access exactly if the alternative is not held");
}
void look(V& a, const M& m) {
    const V& c = a;
    expect(a.valueless_by_exception() == (m.i == 3), "valueless_by_exception");
    expect(a.index() == (m.i == 3 ? gul14::variant_npos : static_cast<size_t>(m.i)), "index " + show(a.index()));
    alt<0>(a, m); alt<1>(a, m); alt<2>(a, m);
    int n = 0, w = -1; bool t = false;
    try { w = gul14::visit([&](const auto& x) { ++n; return tag(x); }, c); } catch (const gul14::bad_variant_access&) { t = true; }
    expect(t == (m.i == 3) && n == !t && (t || w == m.i * 100 + m.v), "visit calls the held alternative once");
}
void pair(const V& a, const V& b, const M& m, const M& n) {
    int i = m.i == 3 ? -1 : m.i, j = n.i == 3 ? -1 : n.i, x = i, y = j;
    if (i == j && i >= 0) { x = m.v; y = n.v; }
    expect((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "comparison");
    int k = 0, w = -1; bool t = false;
    try { w = gul14::visit([&](const auto& p, const auto& q) { ++k; return tag(p) * 1000 + tag(q); }, a, b); } catch (const gul14::bad_variant_access&) { t = true; }
    expect(t == (i < 0 || j < 0) && k == !t && (t || w == (m.i * 100 + m.v) * 1000 + n.i * 100 + n.v), "visit of two variants");
}
template <int K> void put(V& a, size_t how, int v) {
    using T = Obj<K>; T w{v};
    switch (how) {
        case 0: expect(&(a = w) == &a, "returns *this"); break;
        case 1: expect(&(a = std::move(w)) == &a, "returns *this"); break;
        case 2: { auto& e = a.template emplace<K>(w); expect(&e == gul14::get_if<K>(&a), "emplace returns the content"); } break;
        case 3: { auto& e = a.template emplace<T>(std::move(w)); expect(&e == gul14::get_if<K>(&a), "emplace returns the content"); } break;
        case 4: a.template emplace<K>(); gul14::get<K>(a).v = v; break;
        case 5: { V b(w), c(gul14::in_place_index_t<K>{}, w), d(gul14::in_place_type_t<T>{}, std::move(w)); M m{K, v}; look(b, m); look(c, m); look(d, m); a = b; } break;
    }
    if (how == 0 || how == 2) expect_eq(show(w.v), show(v), "argument unchanged");
}
// trivially destructible alternatives, one with a throwing constructor
struct Tv { int v; Tv(int x) : v{x} { if (x == 13) throw Bomb{}; } };
bool operator==(const Tv& a, const Tv& b) { return a.v == b.v; } bool operator<(const Tv& a, const Tv& b) { return a.v < b.v; }
void trivial(Src& r) {
    using W = gul14::variant<int, Tv>; W s[2] = {W{1}, W{Tv{2}}}; M m[2] = {{0, 1}, {1, 2}}; std::string h = "trivial";
    for (size_t n = r.en ? 2 : r.pick(8); n-- > 0;) {
        size_t op = r.pick(6), x = r.pick(2); h += " " + show(op) + show(x); case_is(h);
        switch (op) {
            case 0: s[x] = 5; m[x] = {0, 5}; break;
            case 1: s[x] = Tv{6}; m[x] = {1, 6}; break;
            case 2: { bool t = false; try { s[x].emplace<1>(13); } catch (const Bomb&) { t = true; } expect(t, "exception escapes"); m[x] = {3, 0}; } break;
            case 3: s[x] = s[1 - x]; m[x] = m[1 - x]; break;
            case 4: s[0].swap(s[1]); std::swap(m[0], m[1]); break;
            case 5: s[x].emplace<0>(7); m[x] = {0, 7}; break;
        }
        for (int k = 0; k < 2; ++k) {
            expect(s[k].valueless_by_exception() == (m[k].i == 3) && s[k].index() == (m[k].i == 3 ? gul14::variant_npos : static_cast<size_t>(m[k].i)), "index");
            if (m[k].i == 0) expect_eq(show(gul14::get<0>(s[k])), show(m[k].v), "value");
            if (m[k].i == 1) expect_eq(show(gul14::get<1>(s[k]).v), show(m[k].v), "value");
        }
        int i = m[0].i == 3 ? -1 : m[0].i, j = m[1].i == 3 ? -1 : m[1].i;
        expect((s[0] == s[1]) == (i == j && (i < 0 || m[0].v == m[1].v)) && (s[0] < s[1]) == (i < j || (i == j && i >= 0 && m[0].v < m[1].v)), "comparison");
    }
}
void one(Src& r) {
    trivial(r);
    fuse_ = 0; live_.clear(); std::string h;
    {
        V s[3] = {V{}, V{Q{2}}, V{R{3}}}; M m[3] = {{0, 1}, {1, 2}, {2, 3}};
        size_t n = r.en ? 2 : r.pick(16);
        for (size_t i = 0; i < n; ++i) {
            size_t op = r.pick(r.en ? 11 : 12), x = r.pick(3), y = r.pick(3), k = r.pick(3); int v = static_cast<int>(r.pick(3)) + 1; fuse_ = r.flag() ? static_cast<int>(r.pick(4)) : 0;
            h += " " + show(op) + "." + show(x) + show(y) + show(k) + show(v) + (fuse_ ? "!" + show(fuse_) : ""); case_is(h);
            M ox = m[x], oy = m[y];
            try {
                if (op < 6) { if (k == 0) put<0>(s[x], op, v); else if (k == 1) put<1>(s[x], op, v); else put<2>(s[x], op, v); m[x] = M{static_cast<int>(k), v}; }
                else switch (op) {
                    case 6: expect(&(s[x] = s[y]) == &s[x], "returns *this"); m[x] = m[y]; break;
                    case 7: if (x != y) { s[x] = std::move(s[y]); m[x] = m[y]; if (m[y].i != 3) m[y].v = -1; } break;
                    case 8: if (x != y) { if (v == 1) s[x].swap(s[y]); else { using gul14::swap; swap(s[x], s[y]); } std::swap(m[x], m[y]); } break;
                    case 9: { V c(s[x]); look(c, m[x]); } break;
                    case 10: { V c(std::move(s[x])); M w = m[x]; if (m[x].i != 3) m[x].v = -1; look(c, w); } break;
                    case 11: if (m[x].i != 3) { gul14::visit([](auto&& e) { auto t = std::move(e); t.ok(); }, std::move(s[x])); m[x].v = -1; } break;
                }
            } catch (const Bomb&) {
                // every variant still holds one live alternative or is valueless
                fuse_ = 0;
                if (op == 9 || op == 10 || op == 11) expect(!s[x].valueless_by_exception() , "the source keeps its alternative");
                if (op == 6 || op == 7) { expect(s[y].index() == static_cast<size_t>(oy.i) || x == y, "the source keeps its alternative"); }
                if (op == 2 || op == 3) expect(s[x].valueless_by_exception(), "failed emplace leaves no value");
                if (op < 2 || op == 6 || op == 7) expect(s[x].valueless_by_exception() || s[x].index() == static_cast<size_t>(ox.i), "a failed assignment keeps the alternative or none");
                for (auto z : {x, y}) { m[z].i = s[z].valueless_by_exception() ? 3 : static_cast<int>(s[z].index()); if (m[z].i != 3) m[z].v = gul14::visit([](const auto& e) { e.ok(); return e.v; }, s[z]); }
            }
            fuse_ = 0;
            for (int z = 0; z < 3; ++z) look(s[z], m[z]);
            size_t want = 0; for (auto& z : m) want += z.i != 3;
            expect_eq(show(live_.size()), show(want), "objects alive");
            pair(s[x], s[y], m[x], m[y]); pair(s[y], s[x], m[y], m[x]);
        }
    }
    expect(live_.empty(), "objects alive at the end");
}
