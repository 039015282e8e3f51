#include "oracle.h"
#include <algorithm>
#include <cmath>
#include <limits>
#include <list>
#include <gul14/statistics.h>
using gul14::mean; using gul14::rms;
struct R { int pad; double v; };
static double acc(R const& r) { return r.v; }
static bool near(double a, long double b, long double scale) { if (std::isnan(b)) return std::isnan(a); if (std::isinf(b)) return a == b; return std::fabs(static_cast<long double>(a) - b) <= 1e-9L * scale + 1e-300L; }
static std::string sh(const std::vector<double>& v) { std::string s; for (double x : v) { char b[40]; snprintf(b, sizeof b, "%.17g ", x); s += b; } return "[" + s + "]"; }
#define NEAR(a, b, sc, w) expect(near((a), (b), (sc)), std::string(w) + ": got " + std::to_string(a) + " expected " + std::to_string(static_cast<double>(b)))
static bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
template <class C, class V> void extrema(const C& c, const std::vector<V>& v, const char* w) {
    using L = std::numeric_limits<V>;
    V mx = L::has_quiet_NaN ? L::quiet_NaN() : L::lowest(), mn = L::has_quiet_NaN ? L::quiet_NaN() : L::max(); bool any = false;
    for (V x : v) { if (x != x) continue; if (!any) mx = mn = x; else { if (x > mx) mx = x; if (x < mn) mn = x; } any = true; }
    auto eq = [](V a, V b) { return a == b || (a != a && b != b); };
    expect(eq(gul14::maximum(c), mx), std::string(w) + " maximum"); expect(eq(gul14::minimum(c), mn), std::string(w) + " minimum");
    auto m = gul14::min_max(c); expect(eq(m.min, mn) && eq(m.max, mx), std::string(w) + " min_max");
    expect(eq(gul14::maximum(c.begin(), c.end()), mx), std::string(w) + " maximum(it)"); expect(eq(gul14::minimum(c.begin(), c.end()), mn), std::string(w) + " minimum(it)");
    auto m2 = gul14::min_max(c.begin(), c.end()); expect(eq(m2.min, mn) && eq(m2.max, mx), std::string(w) + " min_max(it)");
}
static std::vector<double> outl(std::vector<double> v, size_t k) {
    while (k-- && !v.empty()) {
        double s = 0; for (double x : v) s += x; double m = s / static_cast<double>(v.size()); size_t b = 0;
        for (size_t i = 1; i < v.size(); ++i) if (std::abs(v[b] - m) < std::abs(v[i] - m)) b = i;
        v.erase(v.begin() + b);
    }
    return v;
}
void one(Src& r) {
    size_t n = r.en ? r.pick(4) : r.pick(6) ? r.pick(9) : r.longsize() % 300;
    const double NaN = std::numeric_limits<double>::quiet_NaN();
    std::vector<double> v; bool nan = !r.en && r.pick(6) == 0; int mode = static_cast<int>(r.en ? 0 : r.pick(4));
    for (size_t i = 0; i < n; ++i) {
        double x = r.en ? (double[]){0, -1.5, 3, 100}[r.pick(4)] : mode == 0 ? static_cast<double>(static_cast<int64_t>(r.pick(9)) - 4) : mode == 1 ? static_cast<double>(static_cast<int64_t>(r.raw64())) / 65536.0 : mode == 2 ? -static_cast<double>(r.pick(1000) + 1) : static_cast<double>(r.pick(100)) * 1e-3;
        if (nan && r.pick(3) == 0) x = NaN;
        v.push_back(x);
    }
    case_is("v=" + sh(v));
    long double s = 0, q = 0, a = 0; for (double x : v) { s += x; q += static_cast<long double>(x) * x; a += std::fabs(static_cast<long double>(x)); }
    long double N = static_cast<long double>(n), m = n ? s / N : NaN, sc = n ? a : 1;
    std::vector<R> rv; for (double x : v) rv.push_back({7, x}); std::list<double> li(v.begin(), v.end());
    NEAR(mean(v), m, sc, "mean"); NEAR(mean(v.begin(), v.end()), m, sc, "mean(it)"); NEAR(mean(rv, acc), m, sc, "mean(acc)"); NEAR(mean(li), m, sc, "mean(list)"); NEAR(mean(rv.begin(), rv.end(), acc), m, sc, "mean(it, acc)");
    long double rm = n ? std::sqrt(q / N) : NaN;
    NEAR(rms(v), rm, sc, "rms"); NEAR(rms(v.begin(), v.end()), rm, sc, "rms(it)"); NEAR(rms(rv, acc), rm, sc, "rms(acc)"); NEAR(rms(rv.begin(), rv.end(), acc), rm, sc, "rms(it, acc)");
    long double d = 0; for (double x : v) d += (x - m) * (x - m); long double sd = n > 1 ? std::sqrt(d / (N - 1)) : NaN;
    for (auto const& g : {gul14::standard_deviation(v), gul14::standard_deviation(v.begin(), v.end()), gul14::standard_deviation(rv, acc), gul14::standard_deviation(rv.begin(), rv.end(), acc), gul14::standard_deviation(li)}) {
        NEAR(g.sigma(), sd, sc, "standard_deviation"); NEAR(g.mean(), m, sc, "standard_deviation mean"); NEAR(static_cast<double>(g), sd, sc, "standard_deviation conversion");
    }
    double f = 0; for (double x : v) f = f * 0.5 + x;
    auto op = [](double p, double x) { return p * 0.5 + x; };
    expect(same(gul14::accumulate(v, op), f), "accumulate"); expect(same(gul14::accumulate(v.begin(), v.end(), op), f), "accumulate(it)"); expect(same(gul14::accumulate(rv, op, acc), f), "accumulate(acc)"); expect(same(gul14::accumulate(rv.begin(), rv.end(), op, acc), f), "accumulate(it, acc)");
    extrema(v, v, "double"); extrema(li, v, "list");
    std::vector<int> iv; std::vector<float> fv; std::vector<uint8_t> uv; for (double x : v) { double y = x == x ? std::fmod(x, 1e6) : 0; iv.push_back(static_cast<int>(y)); fv.push_back(static_cast<float>(x)); uv.push_back(static_cast<uint8_t>(std::fmod(std::fabs(y), 250.0))); }
    extrema(iv, iv, "int"); extrema(fv, fv, "float"); extrema(uv, uv, "uint8");
    if (!nan) {
        auto t = v; std::sort(t.begin(), t.end()); long double md = n == 0 ? NaN : n % 2 ? t[n / 2] : (t[n / 2] / 2.0L + t[n / 2 - 1] / 2.0L);
        for (double g : {gul14::median(v), gul14::median(v.begin(), v.end()), gul14::median(rv, acc), gul14::median(rv.begin(), rv.end(), acc), gul14::median(li)}) NEAR(g, md, n ? std::fabs(md) : 1, "median");
        auto ti = iv; std::sort(ti.begin(), ti.end()); long double mi = n == 0 ? NaN : n % 2 ? ti[n / 2] : (ti[n / 2] + ti[n / 2 - 1]) / 2.0L;
        NEAR(gul14::median(iv), mi, 1, "median int"); NEAR(gul14::median(iv.begin(), iv.end()), mi, 1, "median int it");
        size_t k = r.pick(r.en ? 4 : 6); if (!r.en && r.pick(8) == 0) k = n + r.pick(3);
        auto w = outl(v, k);
        expect_eq(sh(gul14::remove_outliers(v, k)), sh(w), "remove_outliers k=" + std::to_string(k)); expect_eq(sh(gul14::remove_outliers(v.begin(), v.end(), k)), sh(w), "remove_outliers(it) k=" + std::to_string(k));
        auto c = v; auto& rr = gul14::remove_outliers(std::move(c), k); expect(&rr == &c, "remove_outliers returns its container"); expect_eq(sh(c), sh(w), "remove_outliers in place k=" + std::to_string(k));
        std::list<double> lc = li; gul14::remove_outliers(std::move(lc), k); expect_eq(sh(std::vector<double>(lc.begin(), lc.end())), sh(w), "remove_outliers list");
    }
}
