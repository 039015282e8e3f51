// roots for SmallVector; the element's own operations are external (specified by contract)
#include <gul14/SmallVector.h>
#include <cstdint>
#include <cstddef>
#define X extern "C"
#ifdef MAYTHROW
#define NX
#else
#define NX noexcept
#endif
struct Obj {
    unsigned char x;
    Obj() NX; Obj(const Obj&) NX; Obj(Obj&&) NX; ~Obj();
    Obj& operator=(const Obj&) NX; Obj& operator=(Obj&&) NX;
};
bool operator==(const Obj&, const Obj&);
using B = gul14::SmallVector<Obj, 3>;
using U = B::SizeType;
X size_t s_off(int k) {
    struct Layout { unsigned char a[3]; void* p; U c, s; };
    return k == 0 ? offsetof(Layout, a) : k == 1 ? offsetof(Layout, p) : k == 2 ? offsetof(Layout, c) : k == 3 ? offsetof(Layout, s) : k == 4 ? sizeof(B) : sizeof(U); }
X void s_push_back(B& b, const Obj& v) { b.push_back(v); }
X void s_push_back_m(B& b, Obj& v) { b.push_back(std::move(v)); }
X Obj* s_emplace_back(B& b, const Obj& v) { return &b.emplace_back(v); }
X Obj* s_emplace_back_m(B& b, Obj& v) { return &b.emplace_back(std::move(v)); }
X Obj* s_emplace_back_0(B& b) { return &b.emplace_back(); }
X void s_pop_back(B& b) { b.pop_back(); }
X Obj* s_insert(B& b, size_t i, const Obj& v) { return b.insert(b.cbegin() + i, v); }
X Obj* s_insert_m(B& b, size_t i, Obj& v) { return b.insert(b.cbegin() + i, std::move(v)); }
X Obj* s_emplace(B& b, size_t i, const Obj& v) { return b.emplace(b.cbegin() + i, v); }
X Obj* s_insert_n(B& b, size_t i, U n, const Obj& v) { return b.insert(b.cbegin() + i, n, v); }
X Obj* s_insert_r(B& b, size_t i, const Obj* f, size_t n) { return b.insert(b.cbegin() + i, f, f + n); }
X Obj* s_insert_il(B& b, size_t i, std::initializer_list<Obj> l) { return b.insert(b.cbegin() + i, l); }
X Obj* s_erase(B& b, size_t i) { return b.erase(b.cbegin() + i); }
X Obj* s_erase_r(B& b, size_t i, size_t j) { return b.erase(b.cbegin() + i, b.cbegin() + j); }
X void s_clear(B& b) { b.clear(); }
X void s_resize(B& b, U n) { b.resize(n); }
X void s_resize_v(B& b, U n, const Obj& v) { b.resize(n, v); }
X void s_reserve(B& b, U n) { b.reserve(n); }
X void s_shrink(B& b) { b.shrink_to_fit(); }
X void s_assign_n(B& b, U n, const Obj& v) { b.assign(n, v); }
X void s_assign_r(B& b, const Obj* f, size_t n) { b.assign(f, f + n); }
X void s_assign_il(B& b, std::initializer_list<Obj> l) { b.assign(l); }
X B* s_eq_il(B& b, std::initializer_list<Obj> l) { return &(b = l); }
X void s_ctor(B* p) { new (p) B(); }
X void s_ctor_n(B* p, U n) { new (p) B(n); }
X void s_ctor_nv(B* p, U n, const Obj& v) { new (p) B(n, v); }
X void s_ctor_r(B* p, const Obj* f, size_t n) { new (p) B(f, f + n); }
X void s_ctor_il(B* p, std::initializer_list<Obj> l) { new (p) B(l); }
X void s_ctor_c(B* p, const B& b) { new (p) B(b); }
X void s_ctor_m(B* p, B& b) { new (p) B(std::move(b)); }
X void s_dtor(B& b) { b.~B(); }
X B* s_copy(B& a, const B& b) { return &(a = b); }
X B* s_move(B& a, B& b) { return &(a = std::move(b)); }
X void s_swap(B& a, B& b) { a.swap(b); }
X void s_swap_f(B& a, B& b) { gul14::swap(a, b); }
X bool s_equal(const B& a, const B& b) { return a == b; }
X bool s_unequal(const B& a, const B& b) { return a != b; }
X Obj* s_at(B& b, U i) { return &b.at(i); }
X const Obj* s_at_c(const B& b, U i) { return &b.at(i); }
X Obj* s_idx(B& b, U i) { return &b[i]; }
X const Obj* s_idx_c(const B& b, U i) { return &b[i]; }
X Obj* s_front(B& b) { return &b.front(); }
X const Obj* s_front_c(const B& b) { return &b.front(); }
X Obj* s_back(B& b) { return &b.back(); }
X const Obj* s_back_c(const B& b) { return &b.back(); }
X Obj* s_data(B& b) { return b.data(); }
X const Obj* s_data_c(const B& b) { return b.data(); }
X Obj* s_begin(B& b) { return b.begin(); }
X const Obj* s_begin_c(const B& b) { return b.begin(); }
X const Obj* s_cbegin(const B& b) { return b.cbegin(); }
X Obj* s_end(B& b) { return b.end(); }
X const Obj* s_end_c(const B& b) { return b.end(); }
X const Obj* s_cend(const B& b) { return b.cend(); }
X Obj* s_rbegin(B& b) { return b.rbegin().base(); }
X Obj* s_rend(B& b) { return b.rend().base(); }
X const Obj* s_crbegin(B& b) { return b.crbegin().base(); }
X const Obj* s_crend(B& b) { return b.crend().base(); }
X U s_size(const B& b) { return b.size(); }
X U s_capacity(const B& b) { return b.capacity(); }
X U s_inner(const B& b) { return b.inner_capacity(); }
X bool s_empty(const B& b) { return b.empty(); }
