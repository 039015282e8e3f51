// roots for variant; the operations of the alternatives are external (specified by contract)
#include <gul14/variant.h>
#include <utility>
#define X extern "C"
#ifdef MAYC
#define NC
#else
#define NC noexcept
#endif
#ifdef MAYM
#define NM
#else
#define NM noexcept
#endif
#ifdef TRIV
#define D(T) ~T() = default;
#else
#define D(T) ~T();
#endif
#define CLASS(T) struct T { unsigned char x; T() NC; T(const T&) NC; T(T&&) NM; D(T) T& operator=(const T&) NC; T& operator=(T&&) NM; }; \
    bool operator==(const T&, const T&); bool operator!=(const T&, const T&); bool operator<(const T&, const T&); \
    bool operator>(const T&, const T&); bool operator<=(const T&, const T&); bool operator>=(const T&, const T&); \
    int see(const T&); int see2(const T&); int see_m(T&&);
CLASS(P) CLASS(Q) CLASS(R)
using V = gul14::variant<P, Q, R>;
using gul14::in_place_index_t; using gul14::in_place_type_t;
X int v_size() { return sizeof(V); }
X void v_ctor(V* p) { new (p) V(); }
X void v_ctor_c(V* p, const V& o) { new (p) V(o); }
X void v_ctor_m(V* p, V& o) { new (p) V(std::move(o)); }
X void v_dtor(V& a) { a.~V(); }
X V* v_as_c(V& a, const V& o) { return &(a = o); }
X V* v_as_m(V& a, V& o) { return &(a = std::move(o)); }
X void v_swap(V& a, V& b) { a.swap(b); }
X void v_swap_f(V& a, V& b) { using gul14::swap; swap(a, b); }
X bool v_none(const V& a) { return a.valueless_by_exception(); }
X unsigned long v_index(const V& a) { return a.index(); }
#define ALT(n, T, I) \
X void v_ctor_##n(V* p, const T& v) { new (p) V(v); } \
X void v_ctor_##n##m(V* p, T& v) { new (p) V(std::move(v)); } \
X void v_ctor_i##n(V* p, const T& v) { new (p) V(in_place_index_t<I>{}, v); } \
X void v_ctor_t##n(V* p, T& v) { new (p) V(in_place_type_t<T>{}, std::move(v)); } \
X void v_ctor_d##n(V* p) { new (p) V(in_place_type_t<T>{}); } \
X V* v_as_##n(V& a, const T& v) { return &(a = v); } \
X V* v_as_##n##m(V& a, T& v) { return &(a = std::move(v)); } \
X T* v_emplace_i##n(V& a, const T& v) { return &a.emplace<I>(v); } \
X T* v_emplace_t##n(V& a, T& v) { return &a.emplace<T>(std::move(v)); } \
X T* v_emplace_d##n(V& a) { return &a.emplace<I>(); } \
X bool v_holds_i##n(const V& a) { return gul14::holds_alternative<I>(a); } \
X bool v_holds_t##n(const V& a) { return gul14::holds_alternative<T>(a); } \
X T* v_get_i##n(V& a) { return &gul14::get<I>(a); } \
X const T* v_get_c##n(const V& a) { return &gul14::get<I>(a); } \
X T* v_get_m##n(V& a) { T&& r = gul14::get<I>(std::move(a)); return &r; } \
X T* v_get_t##n(V& a) { return &gul14::get<T>(a); } \
X const T* v_get_u##n(const V& a) { return &gul14::get<T>(a); } \
X T* v_if_i##n(V* a) { return gul14::get_if<I>(a); } \
X const T* v_if_c##n(const V* a) { return gul14::get_if<I>(a); } \
X T* v_if_t##n(V* a) { return gul14::get_if<T>(a); } \
X const T* v_if_u##n(const V* a) { return gul14::get_if<T>(a); }
ALT(p, P, 0) ALT(q, Q, 1) ALT(r, R, 2)
#define REL(N, op) X bool v_##N(const V& a, const V& b) { return a op b; }
REL(eq, ==) REL(ne, !=) REL(lt, <) REL(gt, >) REL(le, <=) REL(ge, >=)
X int v_visit(const V& a) { return gul14::visit([](const auto& x) { return see(x); }, a); }
X int v_visit_l(V& a) { return gul14::visit([](auto& x) { return see(x); }, a); }
X int v_visit_m(V& a) { return gul14::visit([](auto&& x) { return see_m(std::move(x)); }, std::move(a)); }
X int v_visit_o(const V& a) { return gul14::visit(gul14::make_overload_set([](const P& x) { return see(x); }, [](const Q& x) { return see(x); }, [](const R& x) { return see(x); }), a); }
X int v_visit_2(const V& a, const V& b) { return gul14::visit([](const auto& x, const auto& y) { see2(y); return see(x); }, a, b); }
