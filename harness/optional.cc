// roots for optional; the element's own operations are external (specified by contract)
#include <gul14/optional.h>
#include <utility>
#include <functional>
#include <initializer_list>
#define X extern "C"
#ifdef MAYTHROW
#define NX
#else
#define NX noexcept
#endif
struct Obj {
    unsigned char x;
    Obj() NX; Obj(const Obj&) NX; Obj(Obj&&) NX; ~Obj();
    Obj(std::initializer_list<int>) NX; Obj(std::initializer_list<int>, const Obj&) NX;
    Obj& operator=(const Obj&) NX; Obj& operator=(Obj&&) NX;
};
struct Tri {
    unsigned char x;
    Tri() NX; Tri(const Tri&) NX; Tri(Tri&&) NX;
    Tri(std::initializer_list<int>) NX; Tri(std::initializer_list<int>, const Tri&) NX;
    Tri& operator=(const Tri&) NX; Tri& operator=(Tri&&) NX;
};
#define CMP(T) bool operator==(const T&, const T&); bool operator!=(const T&, const T&); bool operator<(const T&, const T&); \
    bool operator>(const T&, const T&); bool operator<=(const T&, const T&); bool operator>=(const T&, const T&);
CMP(Obj) CMP(Tri)
#define HASH(T) namespace std { template <> struct hash<T> { using result_type = size_t; size_t operator()(const T&) const; }; }
HASH(Obj) HASH(Tri)
using gul14::optional; using gul14::nullopt; using gul14::in_place;
#define REL(n, N, op) \
X bool n##_##N(const optional<T>& a, const optional<T>& b) { return a op b; } \
X bool n##_##N##_n(const optional<T>& a) { return a op nullopt; } \
X bool n##_n_##N(const optional<T>& a) { return nullopt op a; } \
X bool n##_##N##_v(const optional<T>& a, const T& v) { return a op v; } \
X bool n##_v_##N(const T& v, const optional<T>& a) { return v op a; }
#define ALL(n) \
X int n##_size() { return sizeof(optional<T>); } \
X void n##_ctor(optional<T>* p) { new (p) optional<T>(); } \
X void n##_ctor_n(optional<T>* p) { new (p) optional<T>(nullopt); } \
X void n##_ctor_v(optional<T>* p, const T& v) { new (p) optional<T>(v); } \
X void n##_ctor_vm(optional<T>* p, T& v) { new (p) optional<T>(std::move(v)); } \
X void n##_ctor_i(optional<T>* p, const T& v) { new (p) optional<T>(in_place, v); } \
X void n##_ctor_im(optional<T>* p, T& v) { new (p) optional<T>(in_place, std::move(v)); } \
X void n##_ctor_i0(optional<T>* p) { new (p) optional<T>(in_place); } \
X void n##_ctor_l(optional<T>* p, const T& v) { new (p) optional<T>(in_place, {1, 2}, v); } \
X void n##_emplace_l(optional<T>& a, const T& v) { a.emplace({1, 2}, v); } \
X unsigned long n##_hash(const optional<T>& a) { return std::hash<optional<T>>{}(a); } \
X void n##_make(optional<T>* p, const T& v) { new (p) optional<T>(gul14::make_optional(v)); } \
X void n##_make_m(optional<T>* p, T& v) { new (p) optional<T>(gul14::make_optional(std::move(v))); } \
X void n##_ctor_c(optional<T>* p, const optional<T>& o) { new (p) optional<T>(o); } \
X void n##_ctor_m(optional<T>* p, optional<T>& o) { new (p) optional<T>(std::move(o)); } \
X void n##_dtor(optional<T>& a) { using O = optional<T>; a.~O(); } \
X optional<T>* n##_as_n(optional<T>& a) { return &(a = nullopt); } \
X optional<T>* n##_as_c(optional<T>& a, const optional<T>& o) { return &(a = o); } \
X optional<T>* n##_as_m(optional<T>& a, optional<T>& o) { return &(a = std::move(o)); } \
X optional<T>* n##_as_v(optional<T>& a, const T& v) { return &(a = v); } \
X optional<T>* n##_as_vm(optional<T>& a, T& v) { return &(a = std::move(v)); } \
X void n##_emplace(optional<T>& a, const T& v) { a.emplace(v); } \
X void n##_emplace_m(optional<T>& a, T& v) { a.emplace(std::move(v)); } \
X void n##_emplace_0(optional<T>& a) { a.emplace(); } \
X void n##_reset(optional<T>& a) { a.reset(); } \
X void n##_swap(optional<T>& a, optional<T>& b) { a.swap(b); } \
X void n##_swap_f(optional<T>& a, optional<T>& b) { using gul14::swap; swap(a, b); } \
X bool n##_bool(const optional<T>& a) { return static_cast<bool>(a); } \
X bool n##_has(const optional<T>& a) { return a.has_value(); } \
X T* n##_arrow(optional<T>& a) { return a.operator->(); } \
X const T* n##_arrow_c(const optional<T>& a) { return a.operator->(); } \
X T* n##_star(optional<T>& a) { return &*a; } \
X const T* n##_star_c(const optional<T>& a) { return &*a; } \
X T* n##_star_m(optional<T>& a) { T&& r = *std::move(a); return &r; } \
X T* n##_value(optional<T>& a) { return &a.value(); } \
X const T* n##_value_c(const optional<T>& a) { return &a.value(); } \
X T* n##_value_m(optional<T>& a) { T&& r = std::move(a).value(); return &r; } \
X void n##_or(T* r, const optional<T>& a, const T& v) { new (r) T(a.value_or(v)); } \
X void n##_or_m(T* r, optional<T>& a, T& v) { new (r) T(std::move(a).value_or(std::move(v))); } \
REL(n, eq, ==) REL(n, ne, !=) REL(n, lt, <) REL(n, gt, >) REL(n, le, <=) REL(n, ge, >=)
namespace o_ { using T = Obj; ALL(o) }
namespace t_ { using T = Tri; ALL(t) }
// references
using R = optional<Obj&>;
X int r_size() { return sizeof(R); }
X void r_ctor(R* p) { new (p) R(); }
X void r_ctor_n(R* p) { new (p) R(nullopt); }
X void r_ctor_v(R* p, Obj& v) { new (p) R(v); }
X void r_ctor_i(R* p, Obj& v) { new (p) R(in_place, v); }
X void r_ctor_c(R* p, const R& o) { new (p) R(o); }
X void r_make(R* p, Obj& v) { new (p) R(gul14::make_optional(std::ref(v))); }
X void r_as_n(R& a) { a = nullopt; }
X void r_as_c(R& a, const R& o) { a = o; }
X void r_emplace(R& a, Obj& v) { a.emplace(v); }
X void r_reset(R& a) { a.reset(); }
X void r_swap(R& a, R& b) { a.swap(b); }
X bool r_bool(const R& a) { return static_cast<bool>(a); }
X bool r_has(const R& a) { return a.has_value(); }
X Obj* r_star(const R& a) { return &*a; }
X Obj* r_arrow(const R& a) { return a.operator->(); }
X Obj* r_value(const R& a) { return &a.value(); }
X void r_or(Obj* r, const R& a, const Obj& v) { new (r) Obj(a.value_or(v)); }
X unsigned long r_hash(const R& a) { return std::hash<R>{}(a); }
using K = optional<const Obj&>;
#define RR(R, n, N, op) X bool n##_##N##_v(const R& a, const Obj& v) { return a op v; } X bool n##_v_##N(const Obj& v, const R& a) { return v op a; } \
X bool n##_##N##_n(const R& a) { return a op nullopt; } X bool n##_n_##N(const R& a) { return nullopt op a; } X bool n##_##N(const R& a, const R& b) { return a op b; }
#define RRR(R, n) RR(R, n, eq, ==) RR(R, n, ne, !=) RR(R, n, lt, <) RR(R, n, gt, >) RR(R, n, le, <=) RR(R, n, ge, >=)
RRR(R, r) RRR(K, k)
