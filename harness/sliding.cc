// roots for SlidingBuffer and SlidingBufferExposed
#include <gul14/SlidingBuffer.h>
#include <cstdint>
#include <cstddef>
#define X extern "C"
using T = uint8_t;
using gul14::ShrinkBehavior;
template <typename B> struct Open : B {
    static size_t off_begin() { return (size_t)&(((Open*)0)->idx_begin_); }
    static size_t off_end() { return (size_t)&(((Open*)0)->idx_end_); }
    static size_t off_full() { return (size_t)&(((Open*)0)->full_); }
    static size_t off_store() { return (size_t)&(((Open*)0)->storage_); }
};
#define COMMON(N, B) \
X size_t N##_off(int k) { return k == 0 ? Open<B>::off_begin() : k == 1 ? Open<B>::off_end() : k == 2 ? Open<B>::off_full() : k == 3 ? Open<B>::off_store() : sizeof(B); } \
X void N##_push_back(B& b, const T& v) { b.push_back(v); } \
X void N##_push_back_m(B& b, T& v) { b.push_back(std::move(v)); } \
X void N##_push_front(B& b, const T& v) { b.push_front(v); } \
X void N##_push_front_m(B& b, T& v) { b.push_front(std::move(v)); } \
X void N##_pop_back(B& b) { b.pop_back(); } \
X void N##_pop_front(B& b) { b.pop_front(); } \
X void N##_clear(B& b) { b.clear(); } \
X size_t N##_size(const B& b) { return b.size(); } \
X size_t N##_capacity(const B& b) { return b.capacity(); } \
X bool N##_filled(const B& b) { return b.filled(); } \
X bool N##_empty(const B& b) { return b.empty(); } \
X T* N##_idx(B& b, size_t i) { return &b[i]; } \
X const T* N##_idx_c(const B& b, size_t i) { return &b[i]; } \
X T* N##_at(B& b, size_t i) { return &b.at(i); } \
X const T* N##_at_c(const B& b, size_t i) { return &b.at(i); } \
X T* N##_front(B& b) { return &b.front(); } \
X const T* N##_front_c(const B& b) { return &b.front(); } \
X T* N##_back(B& b) { return &b.back(); } \
X const T* N##_back_c(const B& b) { return &b.back(); } \
X void N##_ctor(B* p) { new (p) B(); }
#define ITERS(N, B) \
X T* N##_it_plus(B& b, ptrdiff_t i) { return &*(b.begin() + i); } \
X T* N##_it_plus2(B& b, ptrdiff_t i) { return &*(i + b.begin()); } \
X T* N##_it_idx(B& b, ptrdiff_t i) { return &b.begin()[i]; } \
X T* N##_it_pe(B& b, ptrdiff_t i) { auto it = b.begin(); it += i; return it.operator->(); } \
X T* N##_it_minus(B& b, ptrdiff_t i) { return &*(b.end() - i); } \
X T* N##_it_me(B& b, ptrdiff_t i) { auto it = b.end(); it -= i; return &*it; } \
X const T* N##_cit_plus(const B& b, ptrdiff_t i) { return &*(b.begin() + i); } \
X const T* N##_cit_plus2(const B& b, ptrdiff_t i) { return &*(b.cbegin() + i); } \
X const T* N##_cit_minus(const B& b, ptrdiff_t i) { return &*(b.end() - i); } \
X const T* N##_cit_minus2(const B& b, ptrdiff_t i) { return &*(b.cend() - i); } \
X T* N##_it_inc(B& b, ptrdiff_t i) { auto it = b.begin() + i; ++it; it++; return &*it; } \
X T* N##_it_dec(B& b, ptrdiff_t i) { auto it = b.end() - i; --it; it--; return &*it; } \
X T* N##_rit(B& b, ptrdiff_t i) { return &*(b.rbegin() + i); } \
X T* N##_rit2(B& b, ptrdiff_t i) { return &*(b.rend() - i); } \
X const T* N##_crit(const B& b, ptrdiff_t i) { return &*(b.crbegin() + i); } \
X const T* N##_crit2(const B& b, ptrdiff_t i) { return &*(b.crend() - i); } \
X ptrdiff_t N##_dist(B& b) { return b.end() - b.begin(); } \
X bool N##_cmp(B& b, ptrdiff_t i, ptrdiff_t j, int op) { auto p = b.begin() + i, q = b.begin() + j; \
    switch (op) { case 0: return p == q; case 1: return p != q; case 2: return p < q; case 3: return p > q; case 4: return p <= q; default: return p >= q; } }
using D = gul14::SlidingBuffer<T>;
using F = gul14::SlidingBuffer<T, 5>;
using G = gul14::SlidingBuffer<T, 1>;
using E = gul14::SlidingBufferExposed<T>;
COMMON(d, D) COMMON(f, F) COMMON(g, G) COMMON(e, E) ITERS(d, D)
X void d_resize(D& b, size_t n) { b.resize(n); }
X void d_resize_f(D& b, size_t n) { b.resize(n, ShrinkBehavior::keep_front_elements); }
X void d_resize_b(D& b, size_t n) { b.resize(n, ShrinkBehavior::keep_back_elements); }
X void d_reserve(D& b, size_t n) { b.reserve(n); }
X void d_reserve_b(D& b, size_t n) { b.reserve(n, ShrinkBehavior::keep_back_elements); }
X void d_ctor_n(D* p, size_t n) { new (p) D(n); }
X void e_resize(E& b, size_t n) { b.resize(n); }
X void e_resize_f(E& b, size_t n) { b.resize(n, ShrinkBehavior::keep_front_elements); }
X void e_resize_b(E& b, size_t n) { b.resize(n, ShrinkBehavior::keep_back_elements); }
X void e_reserve(E& b, size_t n) { b.reserve(n); }
X void e_reserve_b(E& b, size_t n) { b.reserve(n, ShrinkBehavior::keep_back_elements); }
X T* e_begin(E& b) { return &*b.begin(); }
X T* e_end(E& b) { return &*b.end(); }
X const T* e_cbegin(const E& b) { return &*b.begin(); }
X const T* e_cend(const E& b) { return &*b.end(); }
