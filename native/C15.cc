#include "oracle.h"
#include <gul14/SlidingBuffer.h>
#include <deque>
#include <algorithm>
using T = std::string;
using gul14::ShrinkBehavior;
template <typename B> std::vector<T> dump(B& b) { std::vector<T> r; for (size_t i = 0; i < b.size(); ++i) r.push_back(b[i]); return r; }
void range(gul14::SlidingBuffer<T>&, const std::deque<T>&) {}
void range(gul14::SlidingBufferExposed<T>& b, const std::deque<T>& m) {
    if (m.size() == b.capacity()) { expect_eq(static_cast<size_t>(b.end() - b.begin()), b.capacity(), "range of a full buffer"); return; }
    if (m.empty()) { expect(b.begin() == b.end(), "range of an empty buffer is empty"); return; }
    size_t n = static_cast<size_t>(b.end() - b.begin());
    expect(n == m.size() || n == b.capacity(), "range is the elements or all of the storage");
    if (&b[m.size() - 1] - &b[0] == static_cast<ptrdiff_t>(m.size()) - 1) expect_eq(std::vector<T>(b.begin(), b.end()), std::vector<T>(m.begin(), m.end()), "contiguous range");
    else for (auto& x : m) expect(std::count(b.begin(), b.end(), x) > 0, "range contains every element");
}
template <typename B> void run(size_t cap, Src& r) {
    B b(cap); std::deque<T> m; std::string log = "capacity " + std::to_string(cap) + ":"; int cnt = 0;
    size_t rounds = r.en ? 2 : 1 + r.pick(4);
    for (size_t k = 0; k < rounds; ++k) {
        size_t ops = r.en ? r.pick(5) : r.pick(25);
        for (size_t j = 0; j < ops; ++j) {
            size_t op = r.pick(r.en ? 3 : 4); T v = "v" + std::to_string(++cnt) + "_long_enough_to_be_allocated";
            log += " " + std::to_string(op); case_is(log);
            if (op == 0 && cap) { b.push_back(v); m.push_back(v); if (m.size() > cap) m.pop_front(); }
            else if (op == 1 && cap) { b.push_front(v); m.push_front(v); if (m.size() > cap) m.pop_back(); }
            else if (op == 2 && !m.empty()) { b.pop_front(); m.pop_front(); }
            else if (op == 3 && !m.empty()) { b.pop_back(); m.pop_back(); }
            range(b, m);
        }
        size_t n = r.pick(r.en ? 5 : 12), how = r.pick(r.en ? 2 : 4);
        if (!r.en && r.pick(40) == 0) n = r.longsize();
        log += " resize(" + std::to_string(n) + (how % 2 ? ",back)" : ",front)"); case_is(log);
        auto s = how % 2 ? ShrinkBehavior::keep_back_elements : ShrinkBehavior::keep_front_elements;
        if (how < 2) b.resize(n, s); else b.reserve(n, s);
        cap = n; while (m.size() > n) { if (how % 2) m.pop_front(); else m.pop_back(); }
        expect_eq(b.capacity(), n, "capacity"); expect_eq(b.size(), m.size(), "size"); expect_eq(b.empty(), m.empty(), "empty");
        if (n) expect_eq(b.filled(), m.size() == n, "filled");
        expect_eq(dump(b), std::vector<T>(m.begin(), m.end()), "elements"); range(b, m);
    }
}
void one(Src& r) {
    size_t cap = r.pick(r.en ? 4 : 9);
    if (!r.en && r.pick(40) == 0) cap = r.longsize();
    if (r.flag()) run<gul14::SlidingBuffer<T>>(cap, r); else run<gul14::SlidingBufferExposed<T>>(cap, r);
}
