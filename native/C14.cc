// LINK: cat.cc
#include "oracle.h"
#include <gul14/SlidingBuffer.h>
#include <deque>
#include <algorithm>
using T = std::string;
template <typename B> std::vector<T> dump(B& b) {
    std::vector<T> r; for (size_t i = 0; i < b.size(); ++i) r.push_back(b[i]); return r;
}
template <typename B> void iters(B& b, const std::deque<T>& m, ...) {
    std::vector<T> f(m.begin(), m.end()), r(m.rbegin(), m.rend());
    const B& c = b;
    expect_eq(std::vector<T>(b.begin(), b.end()), f, "begin..end"); expect_eq(std::vector<T>(c.begin(), c.end()), f, "const begin..end");
    expect_eq(std::vector<T>(b.cbegin(), b.cend()), f, "cbegin..cend"); expect_eq(std::vector<T>(b.rbegin(), b.rend()), r, "rbegin..rend");
    expect_eq(std::vector<T>(c.crbegin(), c.crend()), r, "crbegin..crend");
    expect_eq(b.end() - b.begin(), static_cast<ptrdiff_t>(m.size()), "end - begin");
    for (size_t i = 0; i < m.size(); ++i) {
        auto k = static_cast<ptrdiff_t>(i);
        expect_eq(*(b.begin() + k), m[i], "begin() + i"); expect_eq(b.begin()[k], m[i], "begin()[i]"); expect_eq(*(b.end() - k - 1), m[m.size() - 1 - i], "end() - i");
        auto p = b.begin() + k; auto q = p++; expect(q < p && p > q && q <= p && p >= q && q != p && --p == q, "iterator comparisons");
    }
}
struct NoIter { template <typename B> void operator()(B&, const std::deque<T>&) {} };
struct Iter { template <typename B> void operator()(B& b, const std::deque<T>& m) { iters(b, m); } };
template <typename B, typename I> void run(B& b, size_t cap, Src& r, I it) {
    std::deque<T> m; std::string log = "capacity " + std::to_string(cap) + ":";
    size_t ops = r.en ? 7 : r.pick(40); int cnt = 0;
    expect_eq(b.capacity(), cap, "capacity");
    for (size_t k = 0; k < ops; ++k) {
        size_t op = r.pick(r.en ? 5 : 8); T v = "v" + std::to_string(++cnt) + "_long_enough_to_be_allocated";
        log += " " + std::to_string(op); case_is(log);
        switch (op) {
            case 0: b.push_back(v); m.push_back(v); if (m.size() > cap) m.pop_front(); break;
            case 1: b.push_front(v); m.push_front(v); if (m.size() > cap) m.pop_back(); break;
            case 2: if (!m.empty()) { b.pop_back(); m.pop_back(); } break;
            case 3: if (!m.empty()) { b.pop_front(); m.pop_front(); } break;
            case 4: if (r.en || r.pick(4) == 0) { b.clear(); m.clear(); } break;
            case 5: { T w = v; b.push_back(std::move(w)); m.push_back(v); if (m.size() > cap) m.pop_front(); break; }
            case 6: { T w = v; b.push_front(std::move(w)); m.push_front(v); if (m.size() > cap) m.pop_back(); break; }
            default: if (!m.empty()) { size_t i = r.pick(m.size()); T w = m[i]; if (r.flag()) { b.push_back(b[i]); m.push_back(w); if (m.size() > cap) m.pop_front(); } else { b.push_front(b[i]); m.push_front(w); if (m.size() > cap) m.pop_back(); } }
        }
        const B& c = b;
        expect_eq(b.size(), m.size(), "size"); expect_eq(b.empty(), m.empty(), "empty"); expect_eq(b.filled(), m.size() == cap, "filled"); expect_eq(b.capacity(), cap, "capacity");
        expect_eq(dump(b), std::vector<T>(m.begin(), m.end()), "elements"); expect_eq(dump(c), std::vector<T>(m.begin(), m.end()), "elements (const)");
        if (!m.empty()) { expect_eq(b.front(), m.front(), "front"); expect_eq(b.back(), m.back(), "back"); expect_eq(c.front(), m.front(), "front (const)"); expect_eq(c.back(), m.back(), "back (const)");
            size_t i = r.en ? 0 : r.pick(m.size()); expect_eq(b.at(i), m[i], "at"); expect_eq(c.at(i), m[i], "at (const)"); }
        bool t = false; try { (void)b.at(m.size()); } catch (const std::out_of_range&) { t = true; } expect(t, "at(size()) throws");
        t = false; try { (void)c.at(m.size() + r.pick(3)); } catch (const std::out_of_range&) { t = true; } expect(t, "at(>= size()) throws (const)");
        it(b, m);
    }
}
void one(Src& r) {
    size_t cap = 1 + r.pick(r.en ? 3 : 9);
    if (!r.en && r.pick(40) == 0) cap = r.longsize();
    switch (r.pick(3)) {
        case 0: { gul14::SlidingBuffer<T> b(cap); run(b, cap, r, Iter()); break; }
        case 1: { gul14::SlidingBuffer<T, 3> b; run(b, 3, r, Iter()); break; }
        default: { gul14::SlidingBufferExposed<T> b(cap); run(b, cap, r, NoIter()); }
    }
}
