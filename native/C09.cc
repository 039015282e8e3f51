#include "oracle.h"
#include <gul14/to_number.h>
using gul14::string_view;
template <class T> static bool ref(const std::string& s, T& out) {
    size_t i = 0; bool neg = false;
    if (std::is_signed<T>::value && !s.empty() && s[0] == '-') { neg = true; i = 1; }
    if (i == s.size()) return false;
    __int128 v = 0, lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    bool over = false;
    for (; i < s.size(); ++i) {
        if (s[i] < '0' || s[i] > '9') return false;
        if (over) continue;
        v = v * 10 + (neg ? -(s[i] - '0') : s[i] - '0');
        if (v < lo || v > hi) over = true;
    }
    if (over) return false;
    out = static_cast<T>(v); return true;
}
template <class T> static void ck(string_view s, const std::string& S, const char* name) {
    T e{}; bool ok = ref<T>(S, e);
    auto r = gul14::to_number<T>(s);
    expect_eq(bool(r), ok, std::string("has value, to_number<") + name + ">");
    if (ok) expect(*r == e, std::string("value, to_number<") + name + ">");
}
template <class T> static std::string near(Src& r) {
    __int128 v = r.flag() ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
    v += static_cast<__int128>(r.pick(r.en ? 5 : 24)) - (r.en ? 2 : 12);
    bool neg = v < 0; if (neg) v = -v;
    std::string s; do { s.insert(s.begin(), char('0' + int(v % 10))); v /= 10; } while (v);
    size_t z = r.pick(r.en ? 2 : 30);
    s.insert(0, z, '0');
    if (neg) s.insert(0, "-");
    return s;
}
void one(Src& r) {
    std::string S;
    switch (r.pick(r.en ? 10 : 12)) {
        case 0: S = near<int8_t>(r); break; case 1: S = near<int16_t>(r); break; case 2: S = near<int32_t>(r); break; case 3: S = near<int64_t>(r); break;
        case 4: S = near<uint8_t>(r); break; case 5: S = near<uint16_t>(r); break; case 6: S = near<uint32_t>(r); break; case 7: S = near<uint64_t>(r); break;
        case 8: { static const char* w[] = {"true", "false", "TRUE", "False", "0", "1", "", "tru", "truee", "2", "00", "01", "fALSE", "-0", "+1", "-", "yes"};
            S = w[r.pick(sizeof w / sizeof *w)]; break; }
        case 9: S = r.str("-+019 ax/:.", r.en ? 4 : 0, 24); break;
        default: S = r.str("0123456789-", 0, 45); break;
    }
    if (!r.en && r.pick(4) == 0 && !S.empty()) S[r.pick(S.size())] = char(r.byte());
    Exact es(S); string_view s(es.data(), es.n);
    case_is("s=" + show(S));
    ck<int8_t>(s, S, "int8_t"); ck<int16_t>(s, S, "int16_t"); ck<int32_t>(s, S, "int32_t"); ck<int64_t>(s, S, "int64_t");
    ck<uint8_t>(s, S, "uint8_t"); ck<uint16_t>(s, S, "uint16_t"); ck<uint32_t>(s, S, "uint32_t"); ck<uint64_t>(s, S, "uint64_t");
    std::string L; for (char c : S) L += (c >= 'A' && c <= 'Z') ? char(c + 32) : c;
    bool t = L == "1" || L == "true", f = L == "0" || L == "false";
    auto b = gul14::to_number<bool>(s);
    expect_eq(bool(b), t || f, "has value, to_number<bool>");
    if (t || f) expect_eq(bool(*b), t, "value, to_number<bool>");
}
