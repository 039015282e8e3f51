// LINK: string_util.cc cat.cc
#include "oracle.h"
#include <gul14/cat.h>
#include <gul14/string_util.h>
#include <list>
#include <array>
using gul14::string_view; using gul14::cat;
static std::string hexref(uint64_t v, size_t bytes) {
    std::string s; for (size_t i = bytes * 2; i--;) s += "0123456789abcdef"[(v >> (4 * i)) & 15]; return s;
}
template <typename T> static void hexes(Src& r, const char* nm) {
    using U = std::make_unsigned_t<T>;
    size_t n = r.pick(r.en ? 3 : 7); std::string sep = r.str("-:, ", r.en ? 1 : 0, 5, r.en ? 1 : 4);
    std::vector<T> v; std::string want;
    for (size_t i = 0; i < n; ++i) { v.push_back(static_cast<T>(r.num64())); if (i) want += sep; want += hexref(static_cast<U>(v.back()), sizeof(T)); }
    case_is(std::string("hex ") + nm + " n=" + std::to_string(n) + " sep=" + show(sep));
    Exact es(sep); string_view s(es.data(), es.n);
    std::list<T> l(v.begin(), v.end());
    expect_eq(gul14::hex_string(v.begin(), v.end(), s), want, "hex_string(range)");
    expect_eq(gul14::hex_string(v, s), want, "hex_string(container)");
    expect_eq(gul14::hex_string(l, s), want, "hex_string(list)");
    if (sep.empty()) expect_eq(gul14::hex_string(v), want, "hex_string(container, default separator)");
    if (n >= 1) expect_eq(gul14::hex_string(v[0]), hexref(static_cast<U>(v[0]), sizeof(T)), "hex_string(value)");
    if (n >= 2) { T a[2] = {v[0], v[1]}; std::string w = hexref(static_cast<U>(v[0]), sizeof(T)) + sep + hexref(static_cast<U>(v[1]), sizeof(T)); expect_eq(gul14::hex_string(a, s), w, "hex_string(array)"); }
}
void one(Src& r) {
    switch (r.pick(11)) {
    case 0: { std::string p[5], w; size_t k = r.pick(6);
        for (size_t i = 0; i < k; ++i) { p[i] = r.str("ab\0", r.en ? 2 : 0, 20, 3); w += p[i]; }
        case_is("cat " + std::to_string(k) + " pieces " + show(w));
        string_view v[5]; std::vector<Exact> e; for (auto& x : p) e.emplace_back(x); for (int i = 0; i < 5; ++i) v[i] = string_view(e[i].data(), e[i].n);
        std::string g = k == 0 ? cat() : k == 1 ? cat(v[0]) : k == 2 ? cat(v[0], v[1]) : k == 3 ? cat(v[0], v[1], v[2]) : k == 4 ? cat(v[0], v[1], v[2], v[3]) : cat(v[0], v[1], v[2], v[3], v[4]);
        expect_eq(g, w, "cat");
        if (k == 5) expect_eq(cat(v[0], p[1], p[2].c_str(), 'x', v[3], -5, v[4], 7u), p[0] + p[1] + p[2].c_str() + "x" + p[3] + "-5" + p[4] + "7", "cat mixed");
        break; }
    case 1: { uint64_t u = r.num64(); std::string s = r.str("ab", r.en ? 1 : 0, 20);
        case_is("cat numbers " + std::to_string(u));
        float f = static_cast<float>(static_cast<int64_t>(u)) / 64; double d = static_cast<double>(static_cast<int64_t>(u)) / 64;
#define N(T) expect_eq(cat(static_cast<T>(u), s, static_cast<T>(u)), std::to_string(static_cast<T>(u)) + s + std::to_string(static_cast<T>(u)), "cat " #T);
        N(int) N(unsigned) N(long) N(unsigned long) N(long long) N(unsigned long long)
        expect_eq(cat(f, s, d), std::to_string(f) + s + std::to_string(d), "cat float, double");
        expect_eq(cat(static_cast<char>(u), s), std::string(1, static_cast<char>(u)) + s, "cat char");
        break; }
    case 2: { std::string s = r.str("ab", r.en ? 3 : 0, 20); size_t n = r.pick(r.en ? 5 : 40); std::string w;
        case_is("repeat " + show(s) + " " + std::to_string(n));
        for (size_t i = 0; i < n; ++i) w += s;
        Exact e(s); expect_eq(gul14::repeat(string_view(e.data(), e.n), n), w, "repeat"); break; }
    case 3: { static const char al[] = {'a', '\0', 'b'}; std::string s = r.str(al, r.en ? 4 : 0, 40, 3); Exact e(s); size_t n = r.pick(s.size() + 1);
        case_is("safe_string " + show(s) + " " + std::to_string(n));
        expect_eq(gul14::safe_string(e.data(), n), std::string(s.substr(0, n).c_str()), "safe_string");
        size_t m = r.pos(s.size()); std::string t = s.c_str(); Exact z(t + std::string(1, '\0'));
        case_is("safe_string C string " + show(t) + " " + std::to_string(m));
        expect_eq(gul14::safe_string(z.data(), m), t.substr(0, m), "safe_string(C string)");
        expect_eq(gul14::safe_string(nullptr, m), std::string(), "safe_string(null)"); break; }
    case 4: hexes<uint8_t>(r, "u8"); hexes<char>(r, "char"); break;
    case 5: hexes<int8_t>(r, "i8"); break;
    case 6: hexes<uint16_t>(r, "u16"); break;
    case 7: hexes<int16_t>(r, "i16"); break;
    case 8: hexes<uint32_t>(r, "u32"); hexes<int32_t>(r, "i32"); break;
    case 9: hexes<uint64_t>(r, "u64"); break;
    default: hexes<int64_t>(r, "i64"); break;
    }
}
