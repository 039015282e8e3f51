// LINK: cat.cc
#include "oracle.h"
#include <gul14/SmallVector.h>
#include <algorithm>
#include <set>
#ifndef THROWING
#define THROWING 0
#endif
// element that knows where it lives, and may throw
static long countdown = -1; static std::set<const void*>* live;
struct Boom {};
static void tick() { if (THROWING && countdown >= 0 && countdown-- == 0) throw Boom(); }
struct T {
    std::string v; bool moved = false;
    void born() { expect(live->insert(this).second, "an element is constructed over another one"); }
    void check() const { expect(live->count(this) == 1, "an operation on something that is not a live element"); }
    T() : v("default") { tick(); born(); }
    explicit T(std::string s) : v(std::move(s)) { born(); }
    T(const T& o) : v((o.check(), o.v)), moved(o.moved) { tick(); born(); }
    T(T&& o) noexcept(!THROWING) : v((o.check(), tick(), std::move(o.v))), moved(o.moved) { o.v.clear(); o.moved = true; born(); }
    T& operator=(const T& o) { check(); o.check(); tick(); v = o.v; moved = o.moved; return *this; }
    T& operator=(T&& o) noexcept(!THROWING) { check(); o.check(); tick(); if (&o != this) { v = std::move(o.v); moved = o.moved; o.v.clear(); o.moved = true; } return *this; }
    ~T() { expect(live->erase(this) == 1, "an element is destroyed that is not alive"); }
    friend bool operator==(const T& a, const T& b) { a.check(); b.check(); return a.v == b.v; }
};
template <size_t N> using V = gul14::SmallVector<T, N>;
using M = std::vector<std::string>;
template <typename B> M dump(const B& b) { M r; for (uint32_t i = 0; i < b.size(); ++i) { b[i].check(); r.push_back(b[i].v); } return r; }
template <size_t N> void look(V<N>& b, const M& m, Src& r) {
    const V<N>& c = b;
    expect_eq(static_cast<size_t>(b.size()), m.size(), "size"); expect_eq(b.empty(), m.empty(), "empty"); expect_eq(dump(b), m, "elements");
    expect(b.capacity() >= b.size() && b.capacity() >= N, "capacity"); expect_eq(static_cast<size_t>(b.inner_capacity()), N, "inner_capacity");
    auto names = [](auto f, auto l) { M q; for (; f != l; ++f) q.push_back(f->v); return q; };
    M rev(m.rbegin(), m.rend());
    expect_eq(names(b.begin(), b.end()), m, "begin..end"); expect_eq(names(c.begin(), c.end()), m, "const begin..end"); expect_eq(names(b.cbegin(), b.cend()), m, "cbegin..cend");
    expect_eq(names(b.rbegin(), b.rend()), rev, "rbegin..rend"); expect_eq(names(b.crbegin(), b.crend()), rev, "crbegin..crend");
    expect(b.data() == b.begin() && c.data() == c.begin(), "data");
    if (!m.empty()) { expect_eq(b.front().v, m.front(), "front"); expect_eq(b.back().v, m.back(), "back"); expect_eq(c.front().v, m.front(), "front"); expect_eq(c.back().v, m.back(), "back");
        auto i = static_cast<uint32_t>(r.pick(m.size())); expect_eq(b.at(i).v, m[i], "at"); expect_eq(c.at(i).v, m[i], "at"); expect_eq(b[i].v, m[i], "[]"); }
    bool t = false; try { (void)b.at(static_cast<uint32_t>(m.size())); } catch (const std::out_of_range&) { t = true; } expect(t, "at(size()) throws");
    t = false; try { (void)c.at(static_cast<uint32_t>(m.size() + r.pick(3))); } catch (const std::out_of_range&) { t = true; } expect(t, "at(>= size()) throws");
}
template <size_t N> void run(Src& r) {
    std::set<const void*> lv; live = &lv; countdown = -1; int cnt = 0; std::string log = "N=" + std::to_string(N) + ":";
    auto fresh = [&] { return "v" + std::to_string(++cnt) + "_long_enough_to_be_allocated"; };
    {
        std::vector<T> ext; for (int k = 0; k < 5; ++k) ext.emplace_back(fresh());
        V<N> b, o; M m, n;
        for (size_t k = 0, ops = r.en ? 4 : r.pick(30); k < ops; ++k) {
            if (r.flag()) { std::swap(m, n); b.swap(o); log += " swap"; }
            size_t op = r.pick(26), i = r.pick(m.size() + 1), q = r.pick(5); auto u = static_cast<uint32_t>(q), sz = static_cast<uint32_t>(r.pick(9));
            if (THROWING) countdown = static_cast<long>(r.pick(r.en ? 4 : 12));
            log += " " + std::to_string(op) + "(i=" + std::to_string(i) + ",n=" + std::to_string(op >= 11 && op <= 15 ? sz : u) + (THROWING ? ",throw=" + std::to_string(countdown) : "") + ")"; case_is(log);
            size_t before = lv.size(); M m0 = m, n0 = n; bool strong = false;
            std::string s = fresh(); T x(s); long cd = countdown; countdown = -1; T y(s); countdown = cd;
            std::initializer_list<T>* none = nullptr; (void)none;
            try {
                switch (op) {
                    case 0: strong = true; b.push_back(x); m.push_back(s); break;
                    case 1: strong = true; b.push_back(std::move(x)); m.push_back(s); break;
                    case 2: strong = true; expect(&b.emplace_back(x) == &b.back(), "emplace_back returns back()"); m.push_back(s); break;
                    case 3: strong = true; b.emplace_back(); m.push_back("default"); break;
                    case 4: if (!m.empty()) { b.pop_back(); m.pop_back(); } break;
                    case 5: { auto p = b.insert(b.cbegin() + i, x); m.insert(m.begin() + i, s); expect(p == b.begin() + i, "insert returns the position"); break; }
                    case 6: { auto p = b.insert(b.cbegin() + i, std::move(x)); m.insert(m.begin() + i, s); expect(p == b.begin() + i, "insert returns the position"); break; }
                    case 7: { auto p = b.emplace(b.cbegin() + i, x); m.insert(m.begin() + i, s); expect(p == b.begin() + i, "emplace returns the position"); break; }
                    case 8: { auto p = b.insert(b.cbegin() + i, u, x); m.insert(m.begin() + i, q, s); expect(p == b.begin() + i, "insert returns the position"); break; }
                    case 9: { auto p = b.insert(b.cbegin() + i, ext.begin(), ext.begin() + q); M a; for (size_t z = 0; z < q; ++z) a.push_back(ext[z].v); m.insert(m.begin() + i, a.begin(), a.end()); expect(p == b.begin() + i, "insert returns the position"); break; }
                    case 10: { auto p = b.insert(b.cbegin() + i, {x, y}); m.insert(m.begin() + i, 2, s); expect(p == b.begin() + i, "insert returns the position"); break; }
                    case 11: strong = true; b.resize(sz); m.resize(sz, "default"); break;
                    case 12: strong = true; b.resize(sz, x); m.resize(sz, s); break;
                    case 13: strong = true; { auto c0 = b.capacity(); b.reserve(sz); expect(b.capacity() >= sz && b.capacity() >= c0, "reserve"); break; }
                    case 14: b.assign(sz, x); m.assign(sz, s); break;
                    case 15: { V<N> c(sz, x); expect_eq(dump(c), M(sz, s), "constructor(n, value)"); V<N> d(sz); expect_eq(dump(d), M(sz, "default"), "constructor(n)"); break; }
                    case 16: b.assign(ext.begin(), ext.begin() + q); m.clear(); for (size_t z = 0; z < q; ++z) m.push_back(ext[z].v); break;
                    case 17: if (q & 1) b.assign({x, y}); else b = {x, y}; m.assign(2, s); break;
                    case 18: strong = true; b.shrink_to_fit(); expect_eq(static_cast<size_t>(b.capacity()), std::max<size_t>(N, m.size()), "capacity after shrink_to_fit"); break;
                    case 19: { size_t j = i + r.pick(m.size() - i + 1); auto p = b.erase(b.cbegin() + i, b.cbegin() + j); m.erase(m.begin() + i, m.begin() + j); expect(p == b.begin() + i, "erase returns the position"); break; }
                    case 20: if (i < m.size()) { auto p = b.erase(b.cbegin() + i); m.erase(m.begin() + i); expect(p == b.begin() + i, "erase returns the position"); } break;
                    case 21: { V<N> c(b); expect_eq(dump(c), m, "copy"); expect(c == b && !(c != b), "copy is equal"); expect((b == o) == (m == n) && (b != o) == (m != n), "comparison"); b = o; m = n; break; }
                    case 22: { V<N> c(std::move(b)); m.clear(); expect_eq(dump(c), m0, "move"); expect(b.empty(), "moved-from vector is empty"); b = std::move(c); m = m0; expect(c.empty(), "moved-from vector is empty"); break; }
                    case 23: b = std::move(o); m = n; n.clear(); expect(o.empty(), "moved-from vector is empty"); break;
                    case 24: if (q) b = b; else { b.clear(); m.clear(); } break;
                    default: if (!m.empty()) { i %= m.size(); size_t j = q % m.size(); std::string w = m[j];      // one of the vector's own elements
                        switch (r.pick(6)) { case 0: b.push_back(b[j]); m.push_back(w); break; case 1: b.emplace_back(b[j]); m.push_back(w); break; case 2: b.insert(b.cbegin() + i, b[j]); m.insert(m.begin() + i, w); break;
                            case 3: b.emplace(b.cbegin() + i, b[j]); m.insert(m.begin() + i, w); break; case 4: b.insert(b.cbegin() + i, u, b[j]); m.insert(m.begin() + i, u, w); break;
                            default: b.resize(sz, b[j]); m.resize(sz, w); } }
                }
                countdown = -1;
            } catch (const Boom&) {
                countdown = -1; log += "!"; case_is(log);
                if (strong) { m = m0; expect_eq(dump(b), m, "contents are unchanged after an exception"); }
                else { m = dump(b); }
                if (op != 23) expect_eq(dump(o), n, "the other vector is unchanged"); else n = dump(o);
                if (op == 23) expect_eq(n, n0, "the other vector is unchanged after an exception");
            }
            look(b, m, r); expect_eq(dump(o), n, "the other vector");
            expect_eq(lv.size(), ext.size() + 2 + m.size() + n.size(), "number of live elements");
            (void)before;
        }
    }
    expect_eq(lv.size(), size_t(0), "all elements are destroyed in the end");
}
void one(Src& r) { switch (r.pick(3)) { case 0: run<1>(r); break; case 1: run<3>(r); break; default: run<2>(r); } }
