// LINK: replace.cc
#include "oracle.h"
#include <gul14/replace.h>
using gul14::string_view;
void one(Src& r) {
    std::string S = r.str("ab", r.en ? 5 : 0, 60), N = r.str("ab", r.en ? 2 : 0, 4), H = r.str("abc", r.en ? 2 : 0, 6);
    if (!r.en && r.pick(3) == 0) { size_t p = r.pick(S.size() + 1); N = S.substr(p, r.pick(6)); }
    std::string w;
    if (N.empty()) w = S;
    else for (size_t i = 0; i < S.size();) if (S.compare(i, N.size(), N) == 0) { w += H; i += N.size(); } else w += S[i++];
    case_is("replace " + show(S) + " " + show(N) + " " + show(H));
    Exact s(S), n(N), h(H); string_view vn(n.data(), n.n), vh(h.data(), h.n);
    expect_eq(gul14::replace(string_view(s.data(), s.n), vn, vh), w, "replace");
    std::string t = S; std::string& q = gul14::replace_inplace(t, vn, vh);
    expect(&q == &t, "replace_inplace returns its argument"); expect_eq(t, w, "replace_inplace");
}
