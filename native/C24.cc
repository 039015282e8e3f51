#include "oracle.h"
#include <set>
#include <functional>
#include <gul14/optional.h>
// element that tracks which objects are alive; copying can be made to throw
struct Bomb {};
static std::set<const void*> live_; static int fuse_ = 0;
struct Obj {
    int v;
    void born() { if (fuse_ && --fuse_ == 0) throw Bomb{}; expect(live_.insert(this).second, "object constructed in storage that is in use"); }
    void ok() const { expect(live_.count(this) == 1, "object used that does not exist"); }
    Obj() : v{1} { born(); }
    explicit Obj(int x) : v{x} { expect(live_.insert(this).second, "object constructed in storage that is in use"); }
    Obj(const Obj& o) : v{o.v} { o.ok(); born(); }
    Obj(Obj&& o) : v{o.v} { o.ok(); born(); o.v = -1; }
    ~Obj() { expect(live_.erase(this) == 1, "object destroyed that does not exist"); }
    Obj& operator=(const Obj& o) { ok(); o.ok(); if (fuse_ && --fuse_ == 0) throw Bomb{}; v = o.v; return *this; }
    Obj& operator=(Obj&& o) { ok(); o.ok(); if (fuse_ && --fuse_ == 0) throw Bomb{}; v = o.v; if (this != &o) o.v = -1; return *this; }
};
struct Tri { int v; };
#define CMP(T) bool operator==(const T& a, const T& b) { return a.v == b.v; } bool operator!=(const T& a, const T& b) { return a.v != b.v; } \
    bool operator<(const T& a, const T& b) { return a.v < b.v; } bool operator>(const T& a, const T& b) { return a.v > b.v; } \
    bool operator<=(const T& a, const T& b) { return a.v <= b.v; } bool operator>=(const T& a, const T& b) { return a.v >= b.v; }
CMP(Obj) CMP(Tri)
using gul14::optional; using gul14::nullopt; using gul14::in_place;
static const int NONE = -99;
template <class O> int get(const O& o) { return o ? (*o).v : NONE; }
template <class O, class T> void rel(const O& a, const O& b, const T& v) {
    int x = get(a), y = get(b);   // NONE is less than every value
    expect((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "comparison of optionals");
    expect((a == v) == (x == v.v) && (a != v) == (x != v.v) && (a < v) == (x < v.v) && (a > v) == (x > v.v) && (a <= v) == (x <= v.v) && (a >= v) == (x >= v.v), "comparison optional/value");
    expect((v == a) == (x == v.v) && (v != a) == (x != v.v) && (v < a) == (v.v < x) && (v > a) == (v.v > x) && (v <= a) == (v.v <= x) && (v >= a) == (v.v >= x), "comparison value/optional");
    bool on = x != NONE;
    expect((a == nullopt) == !on && (a != nullopt) == on && !(a < nullopt) && (a > nullopt) == on && (a <= nullopt) == !on && (a >= nullopt), "comparison optional/nullopt");
    expect((nullopt == a) == !on && (nullopt != a) == on && (nullopt < a) == on && !(nullopt > a) && (nullopt <= a) && (nullopt >= a) == !on, "comparison nullopt/optional");
}
template <class O> void look(O& o, int m) {
    const O& c = o;
    expect_eq(show(static_cast<bool>(o)), show(m != NONE), "operator bool"); expect_eq(show(c.has_value()), show(m != NONE), "has_value");
    if (m == NONE) {
        int t = 0;
        try { o.value(); } catch (const gul14::bad_optional_access&) { ++t; }
        try { c.value(); } catch (const gul14::bad_optional_access&) { ++t; }
        try { std::move(o).value(); } catch (const gul14::bad_optional_access&) { ++t; }
        expect(t == 3, "value() without a value throws");
    } else {
        expect_eq(show((*o).v), show(m), "value");
        expect(&*c == &*o && &o.value() == &*o && &c.value() == &*o && o.operator->() == &*o && c.operator->() == &*o, "accessors refer to the contained object");
    }
}
void one(Src& r) {
    fuse_ = 0; live_.clear(); std::string h;
    {
        optional<Obj> a, b(Obj{5}), c(in_place), s[3] = {a, b, c}; optional<Tri> t[3];
        a.reset(); b.reset(); c.reset();
        int m[3] = {NONE, 5, 1}, q[3] = {NONE, NONE, NONE};
        size_t n = r.en ? 2 : r.pick(16);
        for (size_t i = 0; i < n; ++i) {
            size_t op = r.pick(15), x = r.pick(3), y = r.pick(3); int v = static_cast<int>(r.pick(3)) + 1; fuse_ = r.flag() ? static_cast<int>(r.pick(3)) : 0;
            h += " " + show(op) + "." + show(x) + show(y) + show(v) + (fuse_ ? "!" + show(fuse_) : ""); case_is(h);
            Obj w{v}; Tri u{v}; int ox = m[x], oy = m[y];
            try {
                switch (op) {
                    case 0: expect(&(s[x] = nullopt) == &s[x], "returns *this"); m[x] = NONE; t[x] = nullopt; q[x] = NONE; break;
                    case 1: s[x].reset(); m[x] = NONE; t[x].reset(); q[x] = NONE; break;
                    case 2: s[x] = w; m[x] = v; t[x] = u; q[x] = v; expect_eq(show(w.v), show(v), "argument"); break;
                    case 3: s[x] = std::move(w); m[x] = v; t[x] = std::move(u); q[x] = v; break;
                    case 4: s[x] = s[y]; m[x] = m[y]; t[x] = t[y]; q[x] = q[y]; break;
                    case 5: if (x != y) { s[x] = std::move(s[y]); m[x] = m[y]; if (m[y] != NONE) m[y] = -1; t[x] = std::move(t[y]); q[x] = q[y]; } break;
                    case 6: s[x].emplace(w); m[x] = v; t[x].emplace(u); q[x] = v; break;
                    case 7: s[x].emplace(std::move(w)); m[x] = v; break;
                    case 8: s[x].emplace(); m[x] = 1; t[x].emplace(); q[x] = 0; break;
                    case 9: if (x != y) { if (v == 1) s[x].swap(s[y]); else { using gul14::swap; swap(s[x], s[y]); } std::swap(m[x], m[y]); t[x].swap(t[y]); std::swap(q[x], q[y]); } break;
                    case 10: { optional<Obj> k(s[x]); look(k, m[x]); optional<Tri> l(t[x]); look(l, q[x]); } break;
                    case 11: { optional<Obj> k(std::move(s[x])); look(k, m[x]); if (m[x] != NONE) m[x] = -1; } break;
                    case 12: { optional<Obj> k(w), l(in_place, w), e = gul14::make_optional(w); look(k, v); look(l, v); look(e, v); optional<Obj> d(nullopt); look(d, NONE); } break;
                    case 13: expect_eq(show(s[x].value_or(w).v), show(m[x] == NONE ? v : m[x]), "value_or"); expect_eq(show(t[x].value_or(u).v), show(q[x] == NONE ? v : q[x]), "value_or"); break;
                    case 14: { int k = m[x] == NONE ? v : m[x]; if (m[x] != NONE) m[x] = -1; expect_eq(show(std::move(s[x]).value_or(std::move(w)).v), show(k), "value_or &&"); if (m[x] == NONE) expect_eq(show(w.v), show(-1), "argument moved"); } break;
                }
            } catch (const Bomb&) {
                // an exception leaves each optional valid, with or without a value as before (emplace: without)
                fuse_ = 0;
                if (op == 6 || op == 7 || op == 8) { expect(!s[x], "failed emplace leaves no value"); m[x] = NONE; }
                else { expect(static_cast<bool>(s[x]) == (ox != NONE) && static_cast<bool>(s[y]) == (oy != NONE), "engaged state kept"); m[x] = get(s[x]); m[y] = get(s[y]); }
                for (int k = 0; k < 3; ++k) q[k] = get(t[k]);
            }
            fuse_ = 0;
            for (int k = 0; k < 3; ++k) { look(s[k], m[k]); look(t[k], q[k]); }
            size_t want = 1; for (int k : m) want += k != NONE;
            expect_eq(show(live_.size()), show(want), "objects alive");
            rel(s[x], s[y], w); rel(t[x], t[y], u);
        }
    }
    expect(live_.empty(), "objects alive at the end");
    Tri p[2] = {{static_cast<int>(r.pick(2))}, {static_cast<int>(r.pick(2))}}; using R = optional<Tri&>; R s[2]; int m[2] = {-1, -1};
    for (size_t i = r.en ? 2 : r.pick(8); i-- > 0;) {
        size_t op = r.pick(6), x = r.pick(2), y = r.pick(2); case_is("ref" + h + " " + show(op) + show(x) + show(y)); Tri before[2] = {p[0], p[1]};
        switch (op) {
            case 0: s[x] = nullopt; m[x] = -1; break;
            case 1: s[x].reset(); m[x] = -1; break;
            case 2: s[x].emplace(p[y]); m[x] = static_cast<int>(y); break;
            case 3: s[x] = s[y]; m[x] = m[y]; break;
            case 4: s[x].swap(s[y]); std::swap(m[x], m[y]); break;
            case 5: { R k(p[y]), l(in_place, p[y]), e = gul14::make_optional(std::ref(p[y])), f(s[x]), g(nullopt); expect(&*k == &p[y] && &*l == &p[y] && &*e == &p[y] && !g && f.has_value() == (m[x] >= 0), "construction"); } break;
        }
        expect(before[0] == p[0] && before[1] == p[1], "objects referred to are not changed");
        for (int k = 0; k < 2; ++k) {
            expect(s[k].has_value() == (m[k] >= 0) && static_cast<bool>(s[k]) == (m[k] >= 0), "has_value");
            if (m[k] >= 0) { expect(&*s[k] == &p[m[k]] && s[k].operator->() == &p[m[k]] && &s[k].value() == &p[m[k]], "object referred to"); }
            else { bool t = false; try { s[k].value(); } catch (const gul14::bad_optional_access&) { t = true; } expect(t, "value() throws"); }
            expect_eq(show(s[k].value_or(Tri{7}).v), show(m[k] >= 0 ? p[m[k]].v : 7), "value_or");
        }
        rel(s[0], s[1], p[y]);
        optional<const Tri&> k[2]; for (int z = 0; z < 2; ++z) if (m[z] >= 0) k[z].emplace(p[m[z]]);
        rel(k[0], k[1], p[y]);
    }
}
