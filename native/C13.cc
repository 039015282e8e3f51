#include "oracle.h"
#include <gul14/num_util.h>
#include <cmath>
using W = __int128;
static std::string s_(W v) { bool n = v < 0; if (n) v = -v; std::string s; do { s.insert(s.begin(), char('0' + int(v % 10))); v /= 10; } while (v); return n ? "-" + s : s; }
template <class T> static void ck(uint64_t x, uint64_t y, uint64_t z, int o, const char* n) {
    T a = static_cast<T>(x), b = static_cast<T>(y), t = static_cast<T>(z);
    case_is(std::string("<") + n + "> a=" + s_(a) + " b=" + s_(b) + " t=" + s_(t) + " orders=" + std::to_string(o));
    T mn = std::is_signed<T>::value ? std::numeric_limits<T>::min() : T(0); bool sg = std::is_signed<T>::value;
    W A = a < 0 ? -W(a) : W(a), B = b < 0 ? -W(b) : W(b), Tt = t < 0 ? -W(t) : W(t), D = W(a) - W(b); if (D < 0) D = -D;
    if (!sg || a != mn) expect(W(gul14::abs(a)) == A, "abs");
    if (!sg || t != mn) expect(gul14::within_abs(a, b, t) == (D <= Tt), "within_abs");
    if (!sg || (a != mn && b != mn)) {
        bool e = D == 0 || static_cast<double>(D) < static_cast<double>(A > B ? A : B) / std::pow(10.0, o);
        expect(gul14::within_orders(a, b, o) == e, "within_orders");
        expect(gul14::within_orders(b, a, o) == e, "within_orders swapped");
    }
    T lo = b < t ? b : t, hi = b < t ? t : b;
    const T& c = gul14::clamp(a, lo, hi); const T* w = a < lo ? &lo : hi < a ? &hi : &a;
    expect(&c == w, "clamp");
    auto gt = [](T p, T q) { return p > q; };
    const T& c2 = gul14::clamp(a, hi, lo, gt); const T* w2 = gt(a, hi) ? &hi : gt(lo, a) ? &lo : &a;
    expect(&c2 == w2, "clamp(comp)");
}
template <class T, class U> static void ckf(uint64_t x, uint64_t y, uint64_t z, int o, const char* n) {
    T a, b, t; U p = static_cast<U>(x), q = static_cast<U>(y), r = static_cast<U>(z); memcpy(&a, &p, sizeof a); memcpy(&b, &q, sizeof b); memcpy(&t, &r, sizeof t);
    case_is(std::string("<") + n + "> a=" + show(a) + " b=" + show(b) + " t=" + show(t) + " orders=" + std::to_string(o));
    T ab = std::fabs(a);
    bool eq = memcmp(&ab, (const T*)std::addressof((const T&)T(gul14::abs(a))), sizeof(T)) == 0; expect(eq || std::isnan(a), "abs");
    T at = std::fabs(t);
    bool e = a > b ? a - at <= b : b - at <= a;
    expect(gul14::within_abs(a, b, t) == e && gul14::within_abs(b, a, t) == e, "within_abs");
    if (std::isnan(a) || std::isnan(b) || std::isnan(t)) expect(!gul14::within_abs(a, b, t), "within_abs NaN");
    unsigned ulp = static_cast<unsigned>(z >> 32) >> (x % 32);
    bool u; T d = std::fabs(a - b), m = std::max(std::fabs(a), std::fabs(b));
    if (std::isnan(a) || std::isnan(b)) u = false;
    else if (a == b) u = true;
    else if (std::isinf(a) || std::isinf(b)) u = false;
    else if (std::isnormal(m)) u = d <= std::numeric_limits<T>::epsilon() * static_cast<T>(ulp) * m;
    else u = d <= std::numeric_limits<T>::denorm_min() * static_cast<T>(ulp);
    expect(gul14::within_ulp(a, b, ulp) == u && gul14::within_ulp(b, a, ulp) == u, "within_ulp ulp=" + std::to_string(ulp));
    if (!std::isinf(a) || !std::isinf(b)) {
        bool w = !(std::isnan(a) || std::isnan(b)) && (a == b || static_cast<double>(d) < static_cast<double>(m) / std::pow(10.0, o));
        if (sizeof(T) == 8) expect(gul14::within_orders(a, b, o) == w && gul14::within_orders(b, a, o) == w, "within_orders");
    }
    if (!std::isnan(b) && !std::isnan(t)) {
        T lo = b < t ? b : t, hi = b < t ? t : b;
        const T& c = gul14::clamp(a, lo, hi); const T* w = a < lo ? &lo : hi < a ? &hi : &a;
        expect(&c == w, "clamp");
    }
}
static uint64_t near_(Src& r, uint64_t x) { return r.pick(3) ? x + r.pick(9) - 4 : r.num64(); }
void one(Src& r) {
    static const double sp[] = {0.0, -0.0, 1.0, -1.0, 1e308, -1e308, 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 4.9e-324, INFINITY, -INFINITY, NAN, 0.1, 1e10, 3.4e38};
    int o = static_cast<int>(r.pick(12)) - 2;
    if (r.flag()) {
        double A = sp[r.pick(16)], B = sp[r.pick(16)], T = sp[r.pick(16)];
        uint64_t x, y, z;
        if (r.en || r.flag()) { memcpy(&x, &A, 8); memcpy(&y, &B, 8); memcpy(&z, &T, 8); } else { x = r.raw64(); y = near_(r, x); z = r.raw64(); }
        ckf<double, uint64_t>(x, y, z, o, "double");
        float fa = (float)A, fb = (float)B, ft = (float)T; uint32_t p, q, s; memcpy(&p, &fa, 4); memcpy(&q, &fb, 4); memcpy(&s, &ft, 4);
        ckf<float, uint32_t>(p, q, (uint64_t(s) << 32) | s, o, "float"); ckf<float, uint32_t>(x, y, z, o, "float");
        return;
    }
    uint64_t x = r.num64(), y = r.en ? r.num64() : near_(r, x), z = r.num64();
    ck<int8_t>(x, y, z, o, "int8_t"); ck<int16_t>(x, y, z, o, "int16_t"); ck<int32_t>(x, y, z, o, "int32_t"); ck<int64_t>(x, y, z, o, "int64_t");
    ck<uint8_t>(x, y, z, o, "uint8_t"); ck<uint16_t>(x, y, z, o, "uint16_t"); ck<uint32_t>(x, y, z, o, "uint32_t"); ck<uint64_t>(x, y, z, o, "uint64_t");
}
