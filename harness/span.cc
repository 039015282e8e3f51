// roots for gul14::span (dynamic and fixed extent)
#include <gul14/span.h>
#include <cstdint>
#include <cstddef>
#include <array>
#include <vector>
#define X extern "C"
using T = int16_t;
using D = gul14::span<T>;
using C = gul14::span<const T>;
using F = gul14::span<T, 4>;
struct R { const void* p; size_t n; };
template <typename S> R r(S s) { return { s.data(), s.size() }; }
X R s_default() { return r(D{}); }
X R s_default0() { return r(gul14::span<T, 0>{}); }
X R s_pn(T* p, size_t n) { return r(D(p, n)); }
X R s_pp(T* p, size_t n) { return r(D(p, p + n)); }
X R s_pn4(T* p) { return r(F(p, 4)); }
X R s_pp4(T* p) { return r(F(p, p + 4)); }
X R s_arr(T (&a)[4]) { return r(D(a)); }
X R s_arr4(T (&a)[4]) { return r(F(a)); }
X R s_carr(T (&a)[4]) { return r(C(a)); }
X R s_stdarr(std::array<T, 4>& a) { return r(D(a)); }
X R s_stdarr4(std::array<T, 4>& a) { return r(F(a)); }
X R s_cstdarr(const std::array<T, 4>& a) { return r(C(a)); }
X R s_cstdarr4(const std::array<T, 4>& a) { return r(gul14::span<const T, 4>(a)); }
struct Cont { T* p; size_t n; T* data() { return p; } const T* data() const { return p; } size_t size() const { return n; } };
X R s_cont(T* p, size_t n) { Cont c{p, n}; return r(D(c)); }
X R s_ccont(T* p, size_t n) { const Cont c{p, n}; return r(C(c)); }
X R s_conv(T* p, size_t n) { return r(C(D(p, n))); }
X R s_conv4(T* p) { return r(C(F(p, 4))); }
X R s_conv44(T* p) { return r(gul14::span<const T, 4>(F(p, 4))); }
X R s_copy(T* p, size_t n) { D a(p, n); D b(a); return r(b); }
X R s_assign(T* p, size_t n, T* q, size_t m) { D a(q, m); a = D(p, n); return r(a); }
X R s_assign4(T* p, T* q) { F a(q, 4); a = F(p, 4); return r(a); }
X R s_first(T* p, size_t n, size_t k) { return r(D(p, n).first(k)); }
X R s_last(T* p, size_t n, size_t k) { return r(D(p, n).last(k)); }
X R s_sub(T* p, size_t n, size_t o) { return r(D(p, n).subspan(o)); }
X R s_subn(T* p, size_t n, size_t o, size_t k) { return r(D(p, n).subspan(o, k)); }
X R s_first4(T* p, size_t k) { return r(F(p, 4).first(k)); }
X R s_last4(T* p, size_t k) { return r(F(p, 4).last(k)); }
X R s_sub4(T* p, size_t o) { return r(F(p, 4).subspan(o)); }
X R s_subn4(T* p, size_t o, size_t k) { return r(F(p, 4).subspan(o, k)); }
X R s_tfirst(T* p, size_t n) { return r(D(p, n).first<3>()); }
X R s_tlast(T* p, size_t n) { return r(D(p, n).last<3>()); }
X R s_tsub(T* p, size_t n) { return r(D(p, n).subspan<1>()); }
X R s_tsubn(T* p, size_t n) { return r(D(p, n).subspan<1, 2>()); }
X R s_tfirst4(T* p) { return r(F(p, 4).first<3>()); }
X R s_tlast4(T* p) { return r(F(p, 4).last<3>()); }
X R s_tsub4(T* p) { return r(F(p, 4).subspan<1>()); }
X R s_tsubn4(T* p) { return r(F(p, 4).subspan<1, 2>()); }
X R s_bytes(T* p, size_t n) { return r(gul14::as_bytes(D(p, n))); }
X R s_wbytes(T* p, size_t n) { return r(gul14::as_writable_bytes(D(p, n))); }
X R s_bytes4(T* p) { return r(gul14::as_bytes(F(p, 4))); }
X R s_wbytes4(T* p) { return r(gul14::as_writable_bytes(F(p, 4))); }
X size_t s_size(T* p, size_t n) { return D(p, n).size(); }
X size_t s_size4(T* p) { return F(p, 4).size(); }
X size_t s_size_bytes(T* p, size_t n) { return D(p, n).size_bytes(); }
X size_t s_size_bytes4(T* p) { return F(p, 4).size_bytes(); }
X bool s_empty(T* p, size_t n) { return D(p, n).empty(); }
X bool s_empty4(T* p) { return F(p, 4).empty(); }
X T* s_idx(T* p, size_t n, size_t i) { return &D(p, n)[i]; }
X T* s_idx4(T* p, size_t i) { return &F(p, 4)[i]; }
X T* s_front(T* p, size_t n) { return &D(p, n).front(); }
X T* s_back(T* p, size_t n) { return &D(p, n).back(); }
X T* s_front4(T* p) { return &F(p, 4).front(); }
X T* s_back4(T* p) { return &F(p, 4).back(); }
X T* s_get4(T* p) { return &gul14::get<2>(F(p, 4)); }
X R s_iter(T* p, size_t n) { D s(p, n); return { s.begin(), size_t(s.end() - s.begin()) }; }
X R s_citer(T* p, size_t n) { D s(p, n); return { s.cbegin(), size_t(s.cend() - s.cbegin()) }; }
X R s_fiter(T* p, size_t n) { D s(p, n); return { begin(s), size_t(end(s) - begin(s)) }; }
X R s_iter4(T* p) { F s(p, 4); return { s.begin(), size_t(s.end() - s.begin()) }; }
X T* s_riter(T* p, size_t n, size_t i) { D s(p, n); return &*(s.rbegin() + static_cast<ptrdiff_t>(i)); }
X const T* s_criter(T* p, size_t n, size_t i) { D s(p, n); return &*(s.crbegin() + static_cast<ptrdiff_t>(i)); }
X size_t s_rcount(T* p, size_t n) { D s(p, n); return size_t(s.rend() - s.rbegin()); }
X size_t s_crcount(T* p, size_t n) { D s(p, n); return size_t(s.crend() - s.crbegin()); }
X T* s_riter4(T* p, size_t i) { F s(p, 4); return &*(s.rbegin() + static_cast<ptrdiff_t>(i)); }
#define REL(N, OP) X bool s_##N(T* p, size_t n, T* q, size_t m) { return D(p, n) OP C(q, m); } \
  X bool s_##N##4(T* p, T* q, size_t m) { return F(p, 4) OP D(q, m); }
REL(eq, ==) REL(ne, !=) REL(lt, <) REL(gt, >) REL(le, <=) REL(ge, >=)
