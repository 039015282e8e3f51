#include "oracle.h"
#include <gul14/gcd_lcm.h>
using W = __int128;
static W g_(W a, W b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { W t = a % b; a = b; b = t; } return a; }
static std::string s_(W v) { bool n = v < 0; if (n) v = -v; std::string s; do { s.insert(s.begin(), char('0' + int(v % 10))); v /= 10; } while (v); return n ? "-" + s : s; }
template <class A, class B> static void ck(uint64_t x, uint64_t y, const char* n) {
    using C = std::common_type_t<A, B>;
    A a = static_cast<A>(x); B b = static_cast<B>(y);
    if (std::is_signed<C>::value && (W(a) == W(std::numeric_limits<C>::min()) || W(b) == W(std::numeric_limits<C>::min()))) return;
    case_is(std::string("gcd/lcm<") + n + ">(" + s_(a) + ", " + s_(b) + ")");
    W g = g_(a, b);
    expect(W(gul14::gcd(a, b)) == g, "gcd");
    W l = g == 0 ? 0 : (W(a) / g);
    if (g) { if (l < 0) l = -l; W bb = b < 0 ? -W(b) : W(b); if (__builtin_mul_overflow(l, bb, &l)) return; }
    if (l <= W(std::numeric_limits<C>::max())) expect(W(gul14::lcm(a, b)) == l, "lcm");
}
void one(Src& r) {
    uint64_t x = r.num64(), y = r.num64();
    switch (r.pick(4)) { case 1: { uint64_t f = r.pick(1000) + 1; x %= 100000; y %= 100000; x *= f; y *= f; break; } case 2: y = x; break; case 3: y = ~x + 1; break; default: break; }
    ck<int8_t, int8_t>(x, y, "int8_t"); ck<int16_t, int16_t>(x, y, "int16_t"); ck<int32_t, int32_t>(x, y, "int32_t"); ck<int64_t, int64_t>(x, y, "int64_t");
    ck<uint8_t, uint8_t>(x, y, "uint8_t"); ck<uint16_t, uint16_t>(x, y, "uint16_t"); ck<uint32_t, uint32_t>(x, y, "uint32_t"); ck<uint64_t, uint64_t>(x, y, "uint64_t");
    ck<int32_t, int64_t>(x, y, "int32_t,int64_t"); ck<uint64_t, uint16_t>(x, y, "uint64_t,uint16_t"); ck<int8_t, int32_t>(x, y, "int8_t,int32_t"); ck<uint32_t, uint8_t>(x, y, "uint32_t,uint8_t");
}
