// roots for FinalAction / finally
#include <gul14/finalizer.h>
#include <new>
#include <cstddef>
#define X extern "C"
X void gv_act(int id);          // the action
X void gv_body(int id);         // the guarded scope: anything, may throw
struct Act { int id; void operator()() const { gv_act(id); } };
using FA = gul14::FinalAction<Act>;
static_assert(sizeof(FA) == 8, "layout");
// single operations on an object in any state
X void f_ctor(FA* p, int id) { new (p) FA(Act{id}); }
X void f_finally(FA* p, int id) { new (p) FA(gul14::finally(Act{id})); }
X void f_finally_l(FA* p, int id) { Act a{id}; new (p) FA(gul14::finally(a)); }
X void f_move(FA* p, FA* q) { new (p) FA(std::move(*q)); }
X void f_assign(FA* p, FA* q) { *p = std::move(*q); }
X void f_self(FA* p) { auto& q = *p; *p = std::move(q); }
X void f_dtor(FA* p) { p->~FA(); }
// scopes
X void f_scope(int id) { auto _ = gul14::finally(Act{id}); gv_body(1); }
X void f_scope2(int id, int id2) { auto a = gul14::finally(Act{id}); gv_body(1); auto b = gul14::finally([id2] { gv_act(id2); }); gv_body(2); }
X void f_scope_move(int id) { auto a = gul14::finally(Act{id}); auto b = std::move(a); gv_body(1); auto c = std::move(b); gv_body(2); }
X void f_scope_early(int id, bool x) { auto a = gul14::finally(Act{id}); if (x) return; gv_body(1); }
static FA make(int id) { auto a = gul14::finally(Act{id}); gv_body(1); return a; }
X void f_scope_ret(int id) { auto a = make(id); gv_body(2); }
X void f_scope_fp(int id) { auto a = gul14::finally([=] { gv_act(id); }); gv_body(1); }
static void fn() { gv_act(7); }
X void f_scope_fn() { auto a = gul14::finally(fn); gv_body(1); }
X void f_scope_fn2() { auto a = gul14::finally(&fn); gv_body(1); }
// an action for which moving is visible
struct Tr { int id; Tr(const Tr& o) : id(o.id) {} Tr(Tr&& o) noexcept : id(o.id) { o.id = -1; } Tr& operator=(Tr&& o) noexcept { id = o.id; o.id = -1; return *this; } void operator()() const { gv_act(id); } };
using FT = gul14::FinalAction<Tr>;
static_assert(sizeof(FT) == 8, "layout");
X void f_lvalue(FT* p, Tr& t) { new (p) FT(gul14::finally(t)); }
X void f_clvalue(FT* p, const Tr& t) { new (p) FT(gul14::finally(t)); }
X void f_rvalue(FT* p, Tr& t) { new (p) FT(gul14::finally(std::move(t))); }
X void f_tmove(FT* p, FT* q) { new (p) FT(std::move(*q)); }
X void f_tassign(FT* p, FT* q) { *p = std::move(*q); }
