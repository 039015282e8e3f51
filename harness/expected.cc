// roots for expected; the operations of the value and error classes are external (specified by contract)
#include <gul14/expected.h>
#include <utility>
#include <initializer_list>
#define X extern "C"
#ifdef MAYT
#define NT
#else
#define NT noexcept
#endif
#ifdef MAYE
#define NE
#else
#define NE noexcept
#endif
#ifdef TT
#define DT ~Obj() = default;
#else
#define DT ~Obj();
#endif
#ifdef TE
#define DE ~Err() = default;
#else
#define DE ~Err();
#endif
#define CLASS(T, N, D) struct T { unsigned char x; T() N; T(const T&) N; T(T&&) N; T(std::initializer_list<int>) N; T(std::initializer_list<int>, const T&) N; D T& operator=(const T&) N; T& operator=(T&&) N; }; \
    bool operator==(const T&, const T&); bool operator!=(const T&, const T&); bool operator<(const T&, const T&); \
    bool operator>(const T&, const T&); bool operator<=(const T&, const T&); bool operator>=(const T&, const T&);
CLASS(Obj, NT, DT) CLASS(Err, NE, DE)
// a second pair that converts to the first
struct Obj2 { unsigned char x; operator Obj() const; ~Obj2(); };
using gul14::expected; using gul14::unexpected; using gul14::unexpect; using gul14::in_place;
using A = expected<Obj, Err>; using V = expected<void, Err>; using U = unexpected<Err>;
Obj cb_map(const Obj&); Obj cb_map_m(Obj&&); Err cb_err(const Err&); Err cb_err_m(Err&&);
A cb_then(const Obj&); A cb_then_m(Obj&&); A cb_else(const Err&); A cb_else_m(Err&&);
void cb_see(const Obj&); void cb_see_err(const Err&); Obj cb_map0(); V cb_then0(); V cb_else_v(const Err&); void cb_see0();
#define BOTH(n, E_) \
X int n##_size() { return sizeof(E_); } \
X void n##_ctor(E_* p) { new (p) E_(); } \
X void n##_ctor_u(E_* p, const U& u) { new (p) E_(u); } \
X void n##_ctor_um(E_* p, U& u) { new (p) E_(std::move(u)); } \
X void n##_ctor_x(E_* p, const Err& e) { new (p) E_(unexpect, e); } \
X void n##_ctor_xm(E_* p, Err& e) { new (p) E_(unexpect, std::move(e)); } \
X void n##_ctor_c(E_* p, const E_& o) { new (p) E_(o); } \
X void n##_ctor_m(E_* p, E_& o) { new (p) E_(std::move(o)); } \
X void n##_dtor(E_& a) { a.~E_(); } \
X E_* n##_as_c(E_& a, const E_& o) { return &(a = o); } \
X E_* n##_as_m(E_& a, E_& o) { return &(a = std::move(o)); } \
X bool n##_bool(const E_& a) { return static_cast<bool>(a); } \
X bool n##_has(const E_& a) { return a.has_value(); } \
X const Err* n##_err_c(const E_& a) { return &a.error(); } \
X Err* n##_err(E_& a) { return &a.error(); } \
X Err* n##_err_m(E_& a) { Err&& r = std::move(a).error(); return &r; } \
X bool n##_eq(const E_& a, const E_& b) { return a == b; } \
X bool n##_ne(const E_& a, const E_& b) { return a != b; } \
X bool n##_eq_u(const E_& a, const U& u) { return a == u; } \
X bool n##_ne_u(const E_& a, const U& u) { return a != u; } \
X bool n##_u_eq(const U& u, const E_& a) { return u == a; } \
X bool n##_u_ne(const U& u, const E_& a) { return u != a; } \
X void n##_make_u(E_* p, const Err& e) { new (p) E_(gul14::make_unexpected(e)); }
BOTH(a, A) BOTH(v, V)
#ifndef MAYE
X A* a_as_u(A& a, const U& u) { return &(a = u); }
X A* a_as_um(A& a, U& u) { return &(a = std::move(u)); }
X A* a_as_v(A& a, const Obj& v) { return &(a = v); }
X A* a_as_vm(A& a, Obj& v) { return &(a = std::move(v)); }
X V* v_as_u(V& a, const U& u) { return &(a = u); }
X V* v_as_um(V& a, U& u) { return &(a = std::move(u)); }
#endif
#if !defined(MAYE) || !defined(MAYT)
X void a_swap(A& a, A& b) { a.swap(b); }
X void a_swap_f(A& a, A& b) { using std::swap; swap(a, b); }
#endif
X void a_ctor_v(A* p, const Obj& v) { new (p) A(v); }
X void a_ctor_vm(A* p, Obj& v) { new (p) A(std::move(v)); }
X void a_ctor_i0(A* p) { new (p) A(in_place); }
X void a_ctor_i(A* p, const Obj& v) { new (p) A(in_place, v); }
X void a_ctor_im(A* p, Obj& v) { new (p) A(in_place, std::move(v)); }
X void a_ctor_o(A* p, const expected<Obj2, Err>& o) { new (p) A(o); }
X void a_ctor_om(A* p, expected<Obj2, Err>& o) { new (p) A(std::move(o)); }
X void a_emplace(A& a, const Obj& v) { a.emplace(v); }
X void a_emplace_m(A& a, Obj& v) { a.emplace(std::move(v)); }
X void a_emplace_0(A& a) { a.emplace(); }
X Obj* a_arrow(A& a) { return a.operator->(); }
X const Obj* a_arrow_c(const A& a) { return a.operator->(); }
X Obj* a_star(A& a) { return &*a; }
X const Obj* a_star_c(const A& a) { return &*a; }
X Obj* a_star_m(A& a) { Obj&& r = *std::move(a); return &r; }
X Obj* a_value(A& a) { return &a.value(); }
X const Obj* a_value_c(const A& a) { return &a.value(); }
X Obj* a_value_m(A& a) { Obj&& r = std::move(a).value(); return &r; }
X void a_or(Obj* r, const A& a, const Obj& v) { new (r) Obj(a.value_or(v)); }
X void a_or_m(Obj* r, A& a, Obj& v) { new (r) Obj(std::move(a).value_or(std::move(v))); }
X bool a_eq_v(const A& a, const Obj& v) { return a == v; }
X bool a_ne_v(const A& a, const Obj& v) { return a != v; }
X bool a_v_eq(const Obj& v, const A& a) { return v == a; }
X bool a_v_ne(const Obj& v, const A& a) { return v != a; }
#define FN(f) [](auto&& x) { return f(std::forward<decltype(x)>(x)); }
#define FN0(f) [] { return f(); }
X void a_map(A* r, const A& a) { new (r) A(a.map(FN(cb_map))); }
X void a_map_l(A* r, A& a) { new (r) A(a.map(FN(cb_map))); }
X void a_map_m(A* r, A& a) { new (r) A(std::move(a).map(FN(cb_map_m))); }
X void a_transform(A* r, const A& a) { new (r) A(a.transform(FN(cb_map))); }
X void a_transform_m(A* r, A& a) { new (r) A(std::move(a).transform(FN(cb_map_m))); }
X void a_map_v(V* r, const A& a) { new (r) V(a.map(FN(cb_see))); }
X void a_then(A* r, const A& a) { new (r) A(a.and_then(FN(cb_then))); }
X void a_then_l(A* r, A& a) { new (r) A(a.and_then(FN(cb_then))); }
X void a_then_m(A* r, A& a) { new (r) A(std::move(a).and_then(FN(cb_then_m))); }
X void a_maperr(A* r, const A& a) { new (r) A(a.map_error(FN(cb_err))); }
X void a_maperr_m(A* r, A& a) { new (r) A(std::move(a).map_error(FN(cb_err_m))); }
X void a_transerr(A* r, const A& a) { new (r) A(a.transform_error(FN(cb_err))); }
X void a_transerr_m(A* r, A& a) { new (r) A(std::move(a).transform_error(FN(cb_err_m))); }
X void a_else(A* r, const A& a) { new (r) A(a.or_else(FN(cb_else))); }
X void a_else_l(A* r, A& a) { new (r) A(a.or_else(FN(cb_else))); }
X void a_else_m(A* r, A& a) { new (r) A(std::move(a).or_else(FN(cb_else_m))); }
X void a_else_v(A* r, const A& a) { new (r) A(a.or_else(FN(cb_see_err))); }
X void v_map(A* r, const V& a) { new (r) A(a.map(FN0(cb_map0))); }
X void v_map_v(V* r, const V& a) { new (r) V(a.map(FN0(cb_see0))); }
X void v_then(V* r, const V& a) { new (r) V(a.and_then(FN0(cb_then0))); }
X void v_maperr(V* r, const V& a) { new (r) V(a.map_error(FN(cb_err))); }
X void v_else(V* r, const V& a) { new (r) V(a.or_else(FN(cb_else_v))); }
// the remaining overloads
X void a_ctor_l(A* p, const Obj& v) { new (p) A(in_place, {1, 2}, v); }
X void a_emplace_l(A& a, const Obj& v) { a.emplace({1, 2}, v); }
X void a_ctor_xl(A* p, const Err& e) { new (p) A(unexpect, {1, 2}, e); }
X void v_ctor_xl(V* p, const Err& e) { new (p) V(unexpect, {1, 2}, e); }
X void a_map_cm(A* r, const A& a) { new (r) A(std::move(a).map(FN(cb_map))); }
X void a_transform_l(A* r, A& a) { new (r) A(a.transform(FN(cb_map))); }
X void a_transform_cm(A* r, const A& a) { new (r) A(std::move(a).transform(FN(cb_map))); }
X void a_then_cm(A* r, const A& a) { new (r) A(std::move(a).and_then(FN(cb_then))); }
X void a_maperr_l(A* r, A& a) { new (r) A(a.map_error(FN(cb_err))); }
X void a_maperr_cm(A* r, const A& a) { new (r) A(std::move(a).map_error(FN(cb_err))); }
X void a_transerr_l(A* r, A& a) { new (r) A(a.transform_error(FN(cb_err))); }
X void a_transerr_cm(A* r, const A& a) { new (r) A(std::move(a).transform_error(FN(cb_err))); }
X void a_else_cm(A* r, const A& a) { new (r) A(std::move(a).or_else(FN(cb_else))); }
X void a_map_vl(V* r, A& a) { new (r) V(a.map(FN(cb_see))); }
X void a_map_vm(V* r, A& a) { new (r) V(std::move(a).map(FN(cb_see))); }
X void a_else_vl(A* r, A& a) { new (r) A(a.or_else(FN(cb_see_err))); }
X void a_else_vm(A* r, A& a) { new (r) A(std::move(a).or_else(FN(cb_see_err))); }
X bool a_maperr_v(Obj* r, const A& a) { auto x = a.map_error(FN(cb_see_err)); if (x) new (r) Obj(*x); return x.has_value(); }
X bool a_maperr_vm(Obj* r, A& a) { auto x = std::move(a).map_error(FN(cb_see_err)); if (x) new (r) Obj(*x); return x.has_value(); }
X void v_map_l(A* r, V& a) { new (r) A(a.map(FN0(cb_map0))); }
X void v_map_m(A* r, V& a) { new (r) A(std::move(a).map(FN0(cb_map0))); }
X void v_map_vm(V* r, V& a) { new (r) V(std::move(a).map(FN0(cb_see0))); }
X void v_then_l(V* r, V& a) { new (r) V(a.and_then(FN0(cb_then0))); }
X void v_then_m(V* r, V& a) { new (r) V(std::move(a).and_then(FN0(cb_then0))); }
X void v_maperr_m(V* r, V& a) { new (r) V(std::move(a).map_error(FN(cb_err))); }
X void v_else_l(V* r, V& a) { new (r) V(a.or_else(FN(cb_else_v))); }
X void v_else_m(V* r, V& a) { new (r) V(std::move(a).or_else(FN(cb_else_v))); }
X const Obj* a_value_cm(const A& a) { const Obj&& r = std::move(a).value(); return &r; }
X const Obj* a_star_cm(const A& a) { const Obj&& r = *std::move(a); return &r; }
X const Err* a_err_cm(const A& a) { const Err&& r = std::move(a).error(); return &r; }
#define REL(N, op) X bool u_##N(const U& a, const U& b) { return a op b; }
REL(eq, ==) REL(ne, !=) REL(lt, <) REL(gt, >) REL(le, <=) REL(ge, >=)
