#include "oracle.h"
#include <gul14/string_view.h>
using gul14::string_view;
static const size_t npos = ~size_t(0);
static bool match(const std::string& s, const std::string& t, size_t r) { return t.size() <= s.size() && r <= s.size() - t.size() && s.compare(r, t.size(), t) == 0; }
static bool in(const std::string& t, char c) { return t.find(c) != npos; }
template <class P> size_t fwd(size_t n, size_t pos, P p) { for (size_t j = pos; j < n; ++j) if (p(j)) return j; return npos; }
template <class P> size_t bwd(size_t n, size_t pos, P p) { if (!n) return npos; for (size_t j = pos < n ? pos : n - 1; ; --j) { if (p(j)) return j; if (!j) return npos; } }
void one(Src& r) {
    std::string S = r.str("ab", 4), T = r.str("ab", 3, 4);
    size_t pos = r.pos(S.size());
    Exact es(S), et(T);
    string_view s(es.data(), es.n), t(et.data(), et.n);
    if (S.empty() && r.flag()) s = string_view();
    char c = T.empty() ? 'a' : T[0]; std::string C(1, c), Z(T.c_str());
    case_is("s=" + show(S) + " t=" + show(T) + " pos=" + show(pos));
    auto all = [&](auto const& call, std::string const& n, size_t p) {
        auto q = [&](const char* what, size_t got_find, const std::string& TT, int f) {
            size_t w = 0;
            switch (f) {
                case 0: w = fwd(S.size() + 1, p, [&](size_t j) { return match(S, TT, j); }); break;
                case 1: w = bwd(S.size() + 1, p, [&](size_t j) { return match(S, TT, j); }); break;
                case 2: w = fwd(S.size(), p, [&](size_t j) { return in(TT, S[j]); }); break;
                case 3: w = bwd(S.size(), p, [&](size_t j) { return in(TT, S[j]); }); break;
                case 4: w = fwd(S.size(), p, [&](size_t j) { return !in(TT, S[j]); }); break;
                case 5: w = bwd(S.size(), p, [&](size_t j) { return !in(TT, S[j]); }); break;
            }
            expect_eq(got_find, w, n + "/" + what);
        };
        call(q);
    };
#define ALL(ARGS, TT, P, L) { size_t PP = P; all([&](auto const& q) { \
    q("find", s.find ARGS, TT, 0); q("rfind", s.rfind ARGS, TT, 1); q("find_first_of", s.find_first_of ARGS, TT, 2); \
    q("find_last_of", s.find_last_of ARGS, TT, 3); q("find_first_not_of", s.find_first_not_of ARGS, TT, 4); q("find_last_not_of", s.find_last_not_of ARGS, TT, 5); }, L, PP); }
    ALL((t, pos), T, pos, "sv")
    ALL((c, pos), C, pos, "char")
    ALL((et.data(), pos, et.n), T, pos, "ptr,n")
    ALL((Z.c_str(), pos), Z, pos, "cstr")
    auto d = [&](size_t got, size_t want, const char* w) { expect_eq(got, want, w); };
    d(s.find(t), s.find(t, 0), "find default"); d(s.rfind(t), s.rfind(t, npos), "rfind default");
    d(s.find(c), s.find(c, 0), "find default c"); d(s.rfind(c), s.rfind(c, npos), "rfind default c");
    d(s.find(Z.c_str()), s.find(Z.c_str(), 0), "find default cs"); d(s.rfind(Z.c_str()), s.rfind(Z.c_str(), npos), "rfind default cs");
    d(s.find_first_of(t), s.find_first_of(t, 0), "ffo default"); d(s.find_last_of(t), s.find_last_of(t, npos), "flo default");
    d(s.find_first_not_of(t), s.find_first_not_of(t, 0), "ffno default"); d(s.find_last_not_of(t), s.find_last_not_of(t, npos), "flno default");
    d(s.find_first_of(c), s.find_first_of(c, 0), "ffo default c"); d(s.find_last_of(c), s.find_last_of(c, npos), "flo default c");
    d(s.find_first_not_of(c), s.find_first_not_of(c, 0), "ffno default c"); d(s.find_last_not_of(c), s.find_last_not_of(c, npos), "flno default c");
    d(s.find_first_of(Z.c_str()), s.find_first_of(Z.c_str(), 0), "ffo default cs"); d(s.find_last_of(Z.c_str()), s.find_last_of(Z.c_str(), npos), "flo default cs");
    d(s.find_first_not_of(Z.c_str()), s.find_first_not_of(Z.c_str(), 0), "ffno default cs"); d(s.find_last_not_of(Z.c_str()), s.find_last_not_of(Z.c_str(), npos), "flno default cs");
}
