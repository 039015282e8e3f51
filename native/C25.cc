#include "oracle.h"
#include <map>
#include <gul14/expected.h>
// value and error classes that track which objects are alive; operations of the first can be made to throw
struct Bomb {};
static std::map<const void*, int> live_; static int fuse_ = 0;
template <int K> struct Tr {
    int v;
    static void tick() { if (K == 0 && fuse_ && --fuse_ == 0) throw Bomb{}; }
    void born() { expect(live_.emplace(this, K).second, "object constructed in storage that is in use"); }
    void ok() const { auto i = live_.find(this); expect(i != live_.end() && i->second == K, "object used that does not exist"); }
    Tr() : v{1} { tick(); born(); }
    struct Raw {};
    Tr(Raw, int x) : v{x} { born(); }
    Tr(const Tr& o) noexcept(K != 0) : v{o.v} { o.ok(); tick(); born(); }
    Tr(Tr&& o) noexcept(K != 0) : v{o.v} { o.ok(); tick(); born(); o.v = -1; }
    ~Tr() { ok(); live_.erase(this); }
    Tr& operator=(const Tr& o) noexcept(K != 0) { ok(); o.ok(); tick(); v = o.v; return *this; }
    Tr& operator=(Tr&& o) noexcept(K != 0) { ok(); o.ok(); tick(); int t = o.v; o.v = -1; v = t; return *this; }
    friend bool operator==(const Tr& a, const Tr& b) { a.ok(); b.ok(); return a.v == b.v; }
    friend bool operator!=(const Tr& a, const Tr& b) { a.ok(); b.ok(); return a.v != b.v; }
    friend bool operator<(const Tr& a, const Tr& b) { return a.v < b.v; }
    friend bool operator<=(const Tr& a, const Tr& b) { return a.v <= b.v; }
    friend bool operator>(const Tr& a, const Tr& b) { return a.v > b.v; }
    friend bool operator>=(const Tr& a, const Tr& b) { return a.v >= b.v; }
};
using Obj = Tr<0>; using Err = Tr<1>;
struct Src2 { int v; operator Obj() const { return Obj{Obj::Raw{}, v}; } };
using gul14::expected; using gul14::unexpected; using gul14::unexpect; using gul14::in_place;
using A = expected<Obj, Err>; using V = expected<void, Err>; using U = unexpected<Err>;
struct M { bool on; int v; };
static std::string sh(const M& m) { return (m.on ? "value " : "error ") + show(m.v); }
static M of(const A& a) { return a.has_value() ? M{true, (*a).v} : M{false, a.error().v}; }
static M of(const V& a) { return a.has_value() ? M{true, 0} : M{false, a.error().v}; }
static Obj ob(int v) { return Obj{Obj::Raw{}, v}; }
static Err er(int v) { return Err{Err::Raw{}, v}; }
static void look(A& o, const M& m) {
    const A& c = o; expect_eq(sh(of(o)), sh(m), "content"); expect(static_cast<bool>(o) == m.on && c.has_value() == m.on, "has_value");
    if (m.on) expect(&*c == &*o && &o.value() == &*o && &c.value() == &*o && o.operator->() == &*o && c.operator->() == &*o, "accessors refer to the value");
    else {
        expect(&c.error() == &o.error(), "error() refers to the error"); int t = 0;
        try { o.value(); } catch (const gul14::bad_expected_access<Err>& x) { t += x.error().v == m.v; }
        try { c.value(); } catch (const gul14::bad_expected_access<Err>& x) { t += x.error().v == m.v; }
        expect(t == 2, "value() throws the error");
    }
}
void one(Src& r) {
    fuse_ = 0; live_.clear(); std::string h;
    {
        A s[3] = {A{}, A{unexpect, er(5)}, A{ob(7)}}; M m[3] = {{true, 1}, {false, 5}, {true, 7}};
        size_t n = r.en ? 2 : r.pick(14);
        for (size_t i = 0; i < n; ++i) {
            size_t op = r.pick(18), x = r.pick(3), y = r.pick(3); int v = static_cast<int>(r.pick(3)) + 1; int fuse = r.flag() ? static_cast<int>(r.pick(3)) : 0;
            h += " " + show(op) + "." + show(x) + show(y) + show(v) + (fuse ? "!" + show(fuse) : ""); case_is(h);
            Obj w = ob(v); U u{er(v)}; M ox = m[x], oy = m[y]; int calls = 0, got = 0;
            bool may = op < 2 || (op < 5 && !m[x].on) || op == 9;   // operations that promise something if the value class throws
            if (may && x != y) fuse_ = fuse;
            try {
                switch (op) {
                    case 0: s[x] = w; m[x] = {true, v}; break;
                    case 1: s[x] = std::move(w); m[x] = {true, v}; break;
                    case 2: s[x].emplace(w); m[x] = {true, v}; break;
                    case 3: s[x].emplace(std::move(w)); m[x] = {true, v}; break;
                    case 4: s[x].emplace(); m[x] = {true, 1}; break;
                    case 5: s[x] = u; m[x] = {false, v}; expect(u.value().v == v, "argument"); break;
                    case 6: s[x] = std::move(u); m[x] = {false, v}; break;
                    case 7: s[x] = s[y]; m[x] = m[y]; break;
                    case 8: if (x != y) { s[x] = std::move(s[y]); m[x] = m[y]; m[y].v = -1; } break;
                    case 9: if (x != y) { if (v == 1) { using std::swap; swap(s[x], s[y]); } else s[x].swap(s[y]); std::swap(m[x], m[y]); } break;
                    case 10: { A k(s[x]); look(k, m[x]); A l(std::move(s[x])); look(l, m[x]); m[x].v = -1; } break;
                    case 11: { A k(w), l(in_place, w), e(u), f(unexpect, er(v)), g(gul14::make_unexpected(er(v))), d; look(k, {true, v}); look(l, {true, v}); look(e, {false, v}); look(f, {false, v}); look(g, {false, v}); look(d, {true, 1}); } break;
                    case 12: { size_t before = live_.size(); { expected<Src2, Err> q = m[x].on ? expected<Src2, Err>(Src2{v}) : expected<Src2, Err>(unexpect, er(v)); A k(q); look(k, {m[x].on, v}); A l(std::move(q)); look(l, {m[x].on, v}); } expect_eq(show(live_.size()), show(before), "converting constructors leave nothing behind"); } break;
                    case 13: expect_eq(show(s[x].value_or(w).v), show(m[x].on ? m[x].v : v), "value_or"); if (v == 1) { expect_eq(show(std::move(s[x]).value_or(std::move(w)).v), show(m[x].on ? m[x].v : v), "value_or &&"); if (m[x].on) m[x].v = -1; } break;
                    case 14: { auto f = [&](const Obj& o) { ++calls; got = o.v; return ob(o.v + 10); }; A k = v == 1 ? s[x].map(f) : v == 2 ? static_cast<const A&>(s[x]).map(f) : s[x].transform(f);
                        look(k, {m[x].on, m[x].on ? m[x].v + 10 : m[x].v}); expect(calls == m[x].on && (!calls || got == m[x].v), "map calls back exactly with the value");
                        V z = s[x].map([&](const Obj&) { ++calls; }); expect(of(z).on == m[x].on && (m[x].on || of(z).v == m[x].v) && calls == 2 * m[x].on, "map to void"); } break;
                    case 15: { auto f = [&](const Err& o) { ++calls; got = o.v; return er(o.v + 10); }; A k = v == 1 ? s[x].map_error(f) : v == 2 ? static_cast<const A&>(s[x]).map_error(f) : s[x].transform_error(f);
                        look(k, {m[x].on, !m[x].on ? m[x].v + 10 : m[x].v}); expect(calls == !m[x].on && (!calls || got == m[x].v), "map_error calls back exactly with the error"); } break;
                    case 16: { auto f = [&](const Obj& o) { ++calls; got = o.v; return v == 1 ? A(ob(20)) : A(unexpect, er(21)); }; A k = s[x].and_then(f);
                        look(k, m[x].on ? M{v == 1, v == 1 ? 20 : 21} : m[x]); expect(calls == m[x].on && (!calls || got == m[x].v), "and_then calls back exactly with the value"); } break;
                    case 17: { auto f = [&](const Err& o) { ++calls; got = o.v; return v == 1 ? A(ob(20)) : A(unexpect, er(21)); }; A k = s[x].or_else(f);
                        look(k, !m[x].on ? M{v == 1, v == 1 ? 20 : 21} : m[x]); expect(calls == !m[x].on && (!calls || got == m[x].v), "or_else calls back exactly with the error");
                        A l = s[x].or_else([&](const Err&) { ++calls; }); look(l, m[x]); expect(calls == 2 * !m[x].on, "or_else with a void function"); } break;
                }
            } catch (const Bomb&) {
                fuse_ = 0; M nx = of(s[x]), ny = of(s[y]);
                expect(nx.on == ox.on && (nx.on || nx.v == ox.v) && ny.on == oy.on && (ny.on || ny.v == oy.v), "an exception keeps errors as they were and values alive"); m[x] = nx; m[y] = ny;
            }
            fuse_ = 0;
            for (int k = 0; k < 3; ++k) look(s[k], m[k]);
            expect_eq(show(live_.size()), show(5), "objects alive");
            M a = m[x], b = m[y]; bool eq = a.on == b.on && a.v == b.v; Obj p = ob(1); U q{er(1)};
            expect((s[x] == s[y]) == eq && (s[x] != s[y]) != eq, "comparison");
            expect((s[x] == p) == (a.on && a.v == 1) && (s[x] != p) != (a.on && a.v == 1) && (p == s[x]) == (a.on && a.v == 1) && (p != s[x]) != (a.on && a.v == 1), "comparison with a value");
            expect((s[x] == q) == (!a.on && a.v == 1) && (s[x] != q) != (!a.on && a.v == 1) && (q == s[x]) == (!a.on && a.v == 1) && (q != s[x]) != (!a.on && a.v == 1), "comparison with an error");
        }
    }
    expect(live_.empty(), "objects alive at the end");
    {
        V s[2] = {V{}, V{unexpect, er(3)}}; M m[2] = {{true, 0}, {false, 3}};
        for (size_t i = r.en ? 1 : r.pick(8); i-- > 0;) {
            size_t op = r.pick(5), x = r.pick(2), y = r.pick(2); int v = static_cast<int>(r.pick(2)), calls = 0; case_is("void" + h + " " + show(op) + show(x) + show(y) + show(v)); U u{er(v)};
            switch (op) {
                case 0: s[x] = u; m[x] = {false, v}; break;
                case 1: s[x] = s[y]; m[x] = m[y]; break;
                case 2: { V k(s[x]); expect_eq(sh(of(k)), sh(m[x]), "copy"); } break;
                case 3: if (x != y) { s[x] = std::move(s[y]); m[x] = m[y]; if (!m[y].on) m[y].v = -1; } break;
                case 4: { A k = s[x].map([&] { ++calls; return ob(4); }); look(k, {m[x].on, m[x].on ? 4 : m[x].v}); V l = s[x].and_then([&] { ++calls; return V(unexpect, er(8)); }); expect_eq(sh(of(l)), sh({false, m[x].on ? 8 : m[x].v}), "and_then"); V z = s[x].map([&] { ++calls; }); expect_eq(sh(of(z)), sh(m[x]), "map to void");
                    expect(calls == 3 * m[x].on, "calls"); V e = s[x].map_error([&](const Err& q) { return er(q.v + 1); }); expect_eq(sh(of(e)), sh({m[x].on, m[x].on ? 0 : m[x].v + 1}), "map_error"); V f = s[x].or_else([&](const Err&) { return V{}; }); expect_eq(sh(of(f)), sh({true, 0}), "or_else"); } break;
            }
            for (int k = 0; k < 2; ++k) expect_eq(sh(of(s[k])), sh(m[k]), "content of expected<void, E>");
            bool eq = m[0].on == m[1].on && m[0].v == m[1].v; expect((s[0] == s[1]) == eq && (s[0] != s[1]) != eq, "comparison of expected<void, E>");
            expect_eq(show(live_.size()), show(size_t(1) + !m[0].on + !m[1].on), "objects alive");
            U p{er(0)}, q{er(v)}; expect((p == q) == (v == 0) && (p != q) == (v != 0) && (p < q) == (v > 0) && (p > q) == false && (p <= q) && (p >= q) == (v == 0), "comparison of unexpected");
        }
    }
    expect(live_.empty(), "objects alive at the end");
}
