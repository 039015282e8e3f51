// LINK: string_util.cc
#include "oracle.h"
#include <gul14/join_split.h>
#include <gul14/tokenize.h>
#include <gul14/SmallVector.h>
#include <list>
using gul14::string_view;
using VS = std::vector<std::string>;
template <typename C> VS strs(const C& c) { VS r; for (auto const& x : c) r.emplace_back(x.data(), x.size()); return r; }
void one(Src& r) {
    std::string T = r.str("ab,", r.en ? 4 : 0, 50), D = r.str("a,", r.en ? 2 : 0, 4);
    if (!r.en && r.pick(3) == 0) { size_t p = r.pick(T.size() + 1); D = T.substr(p, r.pick(5)); }
    case_is("text " + show(T) + " delimiter " + show(D));
    Exact t(T), d(D); string_view tv(t.data(), t.n), dv(d.data(), d.n);
    VS w; size_t i = 0;
    if (D.empty()) { w.push_back(""); for (char c : T) w.push_back(std::string(1, c)); w.push_back(""); }
    else { for (size_t h; (h = T.find(D, i)) != std::string::npos; i = h + D.size()) w.push_back(T.substr(i, h - i)); w.push_back(T.substr(i)); }
    if (D.empty() && T.empty()) w = gul14::split(tv, dv), expect(gul14::join(w, "") == "", "split of nothing by nothing");
    expect_eq(gul14::split(tv, dv), w, "split"); expect_eq(strs(gul14::split_sv(tv, dv)), w, "split_sv");
    expect_eq(strs(gul14::split<std::list<std::string>>(tv, dv)), w, "split<list>"); expect_eq(strs(gul14::split_sv<gul14::SmallVector<string_view, 2>>(tv, dv)), w, "split_sv<SmallVector>");
    expect_eq(gul14::join(w, dv), T, "join(split(text, d), d)"); auto sv = gul14::split_sv(tv, dv); expect_eq(gul14::join(sv.begin(), sv.end(), dv), T, "join(split_sv(text, d), d)");
    if (!D.empty()) {
        std::string re; for (char c : D) { if (!isalnum(static_cast<unsigned char>(c))) re += '['; if (c == '^') { re = "\\^"; break; } re += c; if (!isalnum(static_cast<unsigned char>(c))) re += ']'; }
        bool plain = true; for (char c : D) if (!(isalnum(static_cast<unsigned char>(c)) && static_cast<unsigned char>(c) < 128) && c != ',') plain = false;
        if (plain && T.size() < 200) { expect_eq(gul14::split(tv, std::regex(re)), w, "split(regex)"); expect_eq(strs(gul14::split<std::list<string_view>>(tv, std::regex(re))), w, "split<list>(regex)"); }
    }
    if (T.size() < 200) {
        VS v; size_t p = 0; for (size_t k = 0; k < T.size();) { size_t e = k; while (e < T.size() && (T[e] == 'a' || T[e] == ',')) ++e; if (e > k) { v.push_back(T.substr(p, k - p)); p = k = e; } else ++k; } v.push_back(T.substr(p));
        static const std::regex re("[a,]+"); expect_eq(gul14::split(tv, re), v, "split(regex [a,]+)");
    }
    auto tok = [&](const std::string& set) { VS v; std::string c; for (char x : T) if (set.find(x) != std::string::npos) { if (!c.empty()) v.push_back(c); c.clear(); } else c += x; if (!c.empty()) v.push_back(c); return v; };
    expect_eq(gul14::tokenize(tv, dv), tok(D), "tokenize"); expect_eq(strs(gul14::tokenize_sv(tv, dv)), tok(D), "tokenize_sv"); expect_eq(strs(gul14::tokenize<std::list<std::string>>(tv, dv)), tok(D), "tokenize<list>");
    std::string ws(" \t\r\n\a\b\f\v"); for (auto& c : T) if (c == ',') c = ws[r.en ? 0 : r.pick(8)];
    Exact t2(T); string_view t2v(t2.data(), t2.n); expect_eq(gul14::tokenize(t2v), tok(ws), "tokenize, default"); expect_eq(strs(gul14::tokenize_sv(t2v)), tok(ws), "tokenize_sv, default");
    VS parts; size_t k = r.pick(r.en ? 3 : 12); for (size_t j = 0; j < k; ++j) parts.push_back(r.en ? (j % 2 ? "" : "xy") : r.str("xy", 0, 40));
    std::string J; for (size_t j = 0; j < k; ++j) { if (j) J += D; J += parts[j]; }
    expect_eq(gul14::join(parts, dv), J, "join"); std::list<std::string> l(parts.begin(), parts.end()); expect_eq(gul14::join(l.begin(), l.end(), dv), J, "join(list)");
}
