#include "oracle.h"
#include <gul14/date.h>
#include <array>
#include <map>
using namespace gul14::date;
using L = long long;
namespace {
bool lp(L y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
int len(L y, int m) { static const int l[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && lp(y) ? 29 : l[m - 1]; }
L fl(L a, L b) { L q = a / b; return q * b > a ? q - 1 : q; }
L md(L a, L b) { return a - b * fl(a, b); }
L num(L y, int m, int d) { L Y = y - 1, n = 365 * Y + fl(Y, 4) - fl(Y, 100) + fl(Y, 400) + d - 719163; for (int k = 1; k < m; ++k) n += len(y, k); return n; }
std::string s_(L v) { return std::to_string(v); }
std::string t_(L y, int m, int d) { return s_(y) + "-" + s_(m) + "-" + s_(d); }
L cnt(sys_days d) { return d.time_since_epoch().count(); }
L cnt(local_days d) { return d.time_since_epoch().count(); }
template <class A, class C> void cmp(const A& a, const A& b, const C& x, const C& y) {
    expect((a == b) == (x == y), "=="); expect((a != b) == (x != y), "!="); expect((a < b) == (x < y), "<");
    expect((a > b) == (x > y), ">"); expect((a <= b) == (x <= y), "<="); expect((a >= b) == (x >= y), ">=");
}
void date(L y, int m, int d) {
    case_is("date " + t_(y, m, d));
    year_month_day v = year{int(y)} / month{unsigned(m)} / day{unsigned(d)};
    bool mo = m >= 1 && m <= 12, yo = y > -32768;
    expect(year{int(y)}.is_leap() == lp(y), "is_leap");
    expect(v.ok() == (yo && mo && d >= 1 && d <= len(y, m)), "ok");
    expect(v.year().ok() == yo && v.month().ok() == mo && v.day().ok() == (d >= 1 && d <= 31), "ok of the parts");
    expect((v.year() / v.month()).ok() == (yo && mo) && (v.year() / v.month() / last).ok() == (yo && mo), "ok of a month");
    expect((v.month() / v.day()).ok() == (mo && d >= 1 && d <= (m == 2 ? 29 : len(1, m))), "month_day::ok");
    if (!v.ok()) return;
    L n = num(y, m, d);
    expect(cnt(sys_days(v)) == n && cnt(local_days(v)) == n, "day number");
    expect(year_month_day(sys_days(days(int(n)))) == v && year_month_day(local_days(days(int(n)))) == v, "date from day number");
    expect(unsigned((v.year() / v.month() / last).day()) == unsigned(len(y, m)), "length of month");
    expect(cnt(sys_days(v.year() / v.month() / last)) == num(y, m, len(y, m)) && cnt(local_days(v.year() / v.month() / last)) == num(y, m, len(y, m)), "last day of month");
    year_month_day vl = v.year() / v.month() / last;
    expect(vl == v.year() / v.month() / day(unsigned(len(y, m))), "last day as date");
    unsigned w = unsigned(md(n + 4, 7));
    expect(weekday(sys_days(days(int(n)))).c_encoding() == w && weekday(local_days(days(int(n)))).c_encoding() == w, "weekday");
    expect(weekday(w).iso_encoding() == (w ? w : 7u), "iso_encoding");
    year_month_weekday q{sys_days(days(int(n)))};
    unsigned i = unsigned(d + 6) / 7;
    expect(q.year() == v.year() && q.month() == v.month() && q.weekday().c_encoding() == w && q.index() == i && q.ok(), "year_month_weekday from day number");
    expect(cnt(sys_days(q)) == n && cnt(local_days(q)) == n, "day number of year_month_weekday");
    int lastd = d; while (lastd + 7 <= len(y, m)) lastd += 7;
    auto wl = v.year() / v.month() / weekday(w)[last];
    expect(wl.ok() && cnt(sys_days(wl)) == num(y, m, lastd), "last such weekday of the month");
    for (unsigned k = 0; k < 8; ++k) expect((v.year() / v.month() / weekday(w)[k]).ok() == (k >= 1 && int((d - 1) % 7 + 1 + 7 * (k - 1)) <= len(y, m)), "year_month_weekday::ok");
}
void arith(L y, int m, int d, L n, L y2, int m2, int d2) {
    case_is("arithmetic " + t_(y, m, d) + " n=" + s_(n) + " other " + t_(y2, m2, d2));
    year Y{int(y)}, Y2{int(y2)}; month M{unsigned(m)}, M2{unsigned(m2)}; day D{unsigned(d)}, D2{unsigned(d2)};
    int N = int(n);
    auto yok = [](L v) { return v >= -32767 && v <= 32767; };
    expect(unsigned(M + months(N)) == md(m - 1 + n, 12) + 1 && unsigned(M - months(N)) == md(m - 1 - n, 12) + 1, "month + months");
    expect((M - M2).count() == md(m - m2, 12), "month - month");
    { month x = M; expect(unsigned(++x) == m % 12 + 1u, "++month"); x = M; expect(unsigned(--x) == (m == 1 ? 12u : m - 1u), "--month"); x = M; x++; x--; expect(x == M, "month++ --"); }
    expect((Y - Y2).count() == y - y2, "year - year"); expect((D - D2).count() == d - d2, "day - day");
    expect((Y / M - Y2 / M2).count() == 12 * (y - y2) + m - m2, "year_month - year_month");
    for (int sg : {1, -1}) {
        L t = 12 * y + m - 1 + sg * n, ty = fl(t, 12); unsigned tm = unsigned(md(t, 12)) + 1;
        auto dm = months(sg * N); auto dy = years(sg * N);
        if (yok(ty)) {
            expect(Y / M + dm == year{int(ty)} / month{tm} && Y / M - (-dm) == year{int(ty)} / month{tm}, "year_month +- months");
            expect(Y / M / D + dm == year{int(ty)} / month{tm} / D && Y / M / D - (-dm) == year{int(ty)} / month{tm} / D, "year_month_day +- months");
            auto v = Y / M / D; v += dm; expect(v == year{int(ty)} / month{tm} / D, "year_month_day += months"); v = Y / M / D; v -= -dm; expect(v == year{int(ty)} / month{tm} / D, "year_month_day -= months");
        }
        if (yok(y + sg * n)) {
            year z{int(y + sg * n)};
            expect(Y + dy == z && Y - (-dy) == z && Y / M + dy == z / M && Y / M - (-dy) == z / M && Y / M / D + dy == z / M / D && Y / M / D - (-dy) == z / M / D, "+- years");
            auto v = Y / M / D; v -= -dy; expect(v == z / M / D, "year_month_day -= years");
        }
        weekday W(unsigned(d) % 8); L wv = d % 8 % 7;
        expect((W + days(sg * N)).c_encoding() == md(wv + sg * n, 7) && (W - days(sg * N)).c_encoding() == md(wv - sg * n, 7), "weekday +- days");
        weekday W2(unsigned(d2) % 8); expect((W - W2).count() == md(wv - d2 % 8 % 7, 7), "weekday - weekday");
        weekday x = W; ++x; expect(x.c_encoding() == md(wv + 1, 7), "++weekday"); x = W; --x; expect(x.c_encoding() == md(wv - 1, 7), "--weekday");
    }
    using T = std::array<L, 3>;
    cmp(Y / M / D, Y2 / M2 / D2, T{y, m, d}, T{y2, m2, d2}); cmp(Y / M, Y2 / M2, T{y, m, 0}, T{y2, m2, 0}); cmp(M / D, M2 / D2, T{0, m, d}, T{0, m2, d2});
    cmp(Y / M / last, Y2 / M2 / last, T{y, m, 0}, T{y2, m2, 0}); cmp(Y, Y2, y, y2); cmp(M, M2, m, m2); cmp(D, D2, d, d2);
}
void tod(L s) {
    using namespace std::chrono;
    case_is("time of day " + s_(s));
    L a = s < 0 ? -s : s;
    auto t = make_time(seconds(s));
    expect(t.hours().count() == a / 3600 && t.minutes().count() == a / 60 % 60 && t.seconds().count() == a % 60 && t.is_negative() == (s < 0) && t.to_duration().count() == s, "hh_mm_ss<seconds>");
    auto u = make_time(milliseconds(s));
    expect(u.hours().count() == a / 3600000 && u.minutes().count() == a / 60000 % 60 && u.seconds().count() == a / 1000 % 60 && u.subseconds().count() == a % 1000 && u.is_negative() == (s < 0) && u.to_duration().count() == s, "hh_mm_ss<milliseconds>");
    expect(gul14::date::floor<seconds>(milliseconds(s)).count() == fl(s, 1000), "floor"); expect(gul14::date::ceil<seconds>(milliseconds(s)).count() == -fl(-s, 1000), "ceil");
    L r = fl(s, 1000), rem = s - 1000 * r; if (rem > 500 || (rem == 500 && r % 2 != 0)) ++r;
    expect(gul14::date::round<seconds>(milliseconds(s)).count() == r, "round");
    if (a < (1LL << 46)) {
        time_point<system_clock, seconds> p{seconds(s)};
        expect(cnt(gul14::date::floor<days>(p)) == fl(s, 86400), "floor<days>"); expect(cnt(gul14::date::ceil<days>(p)) == -fl(-s, 86400), "ceil<days>");
    }
    L h = md(s, 24);
    expect(is_am(hours(h)) == (h < 12) && is_pm(hours(h)) == (h >= 12), "is_am, is_pm"); expect(!is_am(hours(-1 - h)) && !is_pm(hours(-1 - h)) && !is_am(hours(24 + h)) && !is_pm(hours(24 + h)), "is_am, is_pm outside a day");
    expect(make12(hours(h)).count() == (h % 12 ? h % 12 : 12), "make12");
    L k = h % 12 + 1; expect(make24(hours(k), false).count() == k % 12 && make24(hours(k), true).count() == k % 12 + 12, "make24");
}
}
void one(Src& r) {
    auto yr = [&]() -> L { switch (r.pick(4)) { case 0: return L(r.pick(800)) + 1600; case 1: return L(r.pick(200)) * 100 - 10000; case 2: return (L(r.pick(165)) - 82) * 400 + L(r.pick(3)) - 1; default: return L(r.pick(65534)) - 32766; } };
    auto cl = [](L y) { return y < -32767 ? -32767 : y > 32767 ? 32767 : y; };
    L y = cl(yr()); int m = int(r.pick(12)) + 1;
    int d = r.pick(3) ? int(r.pick(len(y, m))) + 1 : r.pick(2) ? len(y, m) : 1;
    date(y, m, d); date(y, 2, 28); date(y, 2, 29); date(y, 3, 1); date(y, 12, 31); date(y, 1, 1); date(-32768, m, d); date(y, int(r.pick(14)), int(r.pick(33)));
    L n = r.pick(3) == 0 ? L(r.pick(64)) - 32 : r.pick(2) ? L(r.pick(1600000)) - 800000 : L(r.pick(40000)) - 20000;
    L y2 = r.pick(2) ? y : cl(yr()); int m2 = r.pick(2) ? m : int(r.pick(12)) + 1, d2 = r.pick(2) ? d : int(r.pick(31)) + 1;
    arith(y, m, d, n, y2, m2, d2);
    L s = L(r.num64() >> (2 + r.pick(50))); if (r.pick(2)) s = -s; if (r.pick(3) == 0) s = s / 500 * 500;
    tod(s); tod(L(r.pick(400000)) - 200000);
}
