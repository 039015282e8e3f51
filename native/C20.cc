#include "oracle.h"
#include <functional>
#include <gul14/finalizer.h>
static std::vector<int> log_, want_;
struct Act { int id; std::shared_ptr<int> own; void operator()() const { log_.push_back(id); expect(own != nullptr, "action used after being moved away"); } };
using FA = gul14::FinalAction<Act>;
static void fn() { log_.push_back(-1); }
// random history over a few slots; model: slot holds (id or nothing)
void one(Src& r) {
    log_.clear(); want_.clear();
    std::string h; int next = 0;
    {
        std::unique_ptr<FA> s[3]; int m[3] = {-1, -1, -1}; // id, or -1: disarmed / no object
        size_t n = r.en ? 4 : r.pick(12);
        for (size_t i = 0; i < n; ++i) {
            size_t op = r.pick(4), a = r.pick(3), b = r.pick(3);
            h += " " + show(op) + show(a) + show(b); case_is(h);
            switch (op) {
                case 0: if (s[a]) { if (m[a] >= 0) want_.push_back(m[a]); s[a].reset(); }
                    { Act x{next, std::make_shared<int>(1)}; if (r.flag()) s[a].reset(new FA(gul14::finally(std::move(x)))); else s[a].reset(new FA(x)); } m[a] = next++; break;
                case 1: if (s[a] && m[a] >= 0) want_.push_back(m[a]); s[a].reset(); m[a] = -1; break;
                case 2: if (a != b && s[b]) { std::unique_ptr<FA> t(new FA(std::move(*s[b]))); int tm = m[b]; m[b] = -1; if (s[a] && m[a] >= 0) want_.push_back(m[a]); s[a] = std::move(t); m[a] = tm; } break;
                case 3: if (s[a] && s[b]) { *s[a] = std::move(*s[b]); if (a != b) { m[a] = m[b]; m[b] = -1; } } break;
            }
            expect_eq(show(log_), show(want_), "actions run");
        }
        for (int a = 2; a >= 0; --a) if (s[a] && m[a] >= 0) want_.push_back(m[a]);
    }
    expect_eq(show(log_), show(want_), "actions run at the end of the scope");
    log_.clear();
    bool t = r.flag(), u = r.flag();
    try { auto a = gul14::finally([] { log_.push_back(1); }); auto b = gul14::finally(fn); auto c = std::move(a); expect(log_.empty(), "nothing runs early"); if (t) throw 1; auto d = gul14::finally(Act{2, std::make_shared<int>(1)}); if (u) throw 2; } catch (int) {}
    std::vector<int> w; if (!t) w.push_back(2); w.push_back(1); w.push_back(-1);
    expect_eq(show(log_), show(w), "actions run on leaving a scope");
    log_.clear(); { std::function<void()> f = [] { log_.push_back(5); }; auto a = gul14::finally(f); f(); } expect_eq(show(log_), show(std::vector<int>{5, 5}), "lvalue actions are copied");
}
