#include <gul14/date.h>
#define X extern "C"
using namespace gul14::date;
using std::chrono::hours; using std::chrono::minutes; using std::chrono::seconds; using std::chrono::milliseconds;
static year Y(int y) { return year{y}; }
static month M(unsigned m) { return month{m}; }
static day D(unsigned d) { return day{d}; }
static year_month_day ymd(int y, unsigned m, unsigned d) { return Y(y) / M(m) / D(d); }
static int cnt(sys_days d) { return d.time_since_epoch().count(); }
static int cnt(local_days d) { return d.time_since_epoch().count(); }
static void put(int* o, year_month_day v) { o[0] = int(v.year()); o[1] = int(unsigned(v.month())); o[2] = int(unsigned(v.day())); }
static void put(int* o, year_month v) { o[0] = int(v.year()); o[1] = int(unsigned(v.month())); }
// days <-> civil
X int r_to_days(int y, unsigned m, unsigned d) { return cnt(sys_days(ymd(y, m, d))); }
X int r_to_local(int y, unsigned m, unsigned d) { return cnt(local_days(ymd(y, m, d))); }
X void r_from_days(int z, int* o) { put(o, year_month_day(sys_days(days(z)))); }
X void r_from_local(int z, int* o) { put(o, year_month_day(local_days(days(z)))); }
X int r_last_days(int y, unsigned m) { return cnt(sys_days(Y(y) / M(m) / last)); }
X int r_last_local(int y, unsigned m) { return cnt(local_days(Y(y) / M(m) / last)); }
X void r_last_ymd(int y, unsigned m, int* o) { put(o, year_month_day(Y(y) / M(m) / last)); }
X unsigned r_last_day(int y, unsigned m) { return unsigned((Y(y) / M(m) / last).day()); }
X bool r_leap(int y) { return Y(y).is_leap(); }
// ok
X bool r_ok_ymd(int y, unsigned m, unsigned d) { return ymd(y, m, d).ok(); }
X bool r_ok_ym(int y, unsigned m) { return (Y(y) / M(m)).ok(); }
X bool r_ok_ymdl(int y, unsigned m) { return (Y(y) / M(m) / last).ok(); }
X bool r_ok_md(unsigned m, unsigned d) { return (M(m) / D(d)).ok(); }
X bool r_ok_y(int y) { return Y(y).ok(); }
X bool r_ok_m(unsigned m) { return M(m).ok(); }
X bool r_ok_d(unsigned d) { return D(d).ok(); }
X bool r_ok_wd(unsigned w) { return weekday{w}.ok(); }
X bool r_ok_wdi(unsigned w, unsigned i) { return weekday{w}[i].ok(); }
X bool r_ok_ymwd(int y, unsigned m, unsigned w, unsigned i) { return (Y(y) / M(m) / weekday{w}[i]).ok(); }
X bool r_ok_ymwdl(int y, unsigned m, unsigned w) { return (Y(y) / M(m) / weekday{w}[last]).ok(); }
// weekdays
X unsigned r_wd(int z) { return weekday(sys_days(days(z))).c_encoding(); }
X unsigned r_wd_local(int z) { return weekday(local_days(days(z))).c_encoding(); }
X unsigned r_wd_iso(unsigned w) { return weekday(w).iso_encoding(); }
X unsigned r_wd_add(unsigned w, int n) { return (weekday(w) + days(n)).c_encoding(); }
X unsigned r_wd_sub(unsigned w, int n) { return (weekday(w) - days(n)).c_encoding(); }
X int r_wd_diff(unsigned a, unsigned b) { return (weekday(a) - weekday(b)).count(); }
X unsigned r_wd_inc(unsigned w) { weekday x(w); ++x; return x.c_encoding(); }
X unsigned r_wd_dec(unsigned w) { weekday x(w); x--; return x.c_encoding(); }
X int r_ymwd_days(int y, unsigned m, unsigned w, unsigned i) { return cnt(sys_days(Y(y) / M(m) / weekday(w)[i])); }
X int r_ymwdl_days(int y, unsigned m, unsigned w) { return cnt(sys_days(Y(y) / M(m) / weekday(w)[last])); }
X void r_from_days_w(int z, int* o)
{
    year_month_weekday v(sys_days{days(z)});
    o[0] = int(v.year()); o[1] = int(unsigned(v.month())); o[2] = int(v.weekday().c_encoding()); o[3] = int(v.index());
}
// arithmetic
X unsigned r_m_add(unsigned m, int n) { return unsigned(M(m) + months(n)); }
X unsigned r_m_sub(unsigned m, int n) { return unsigned(M(m) - months(n)); }
X int r_m_diff(unsigned a, unsigned b) { return (M(a) - M(b)).count(); }
X unsigned r_m_inc(unsigned m) { month x = M(m); ++x; return unsigned(x); }
X unsigned r_m_dec(unsigned m) { month x = M(m); --x; return unsigned(x); }
X int r_y_add(int y, int n) { return int(Y(y) + years(n)); }
X int r_y_sub(int y, int n) { return int(Y(y) - years(n)); }
X int r_y_diff(int a, int b) { return (Y(a) - Y(b)).count(); }
X unsigned r_d_add(unsigned d, int n) { return unsigned(D(d) + days(n)); }
X int r_d_diff(unsigned a, unsigned b) { return (D(a) - D(b)).count(); }
X void r_ym_add(int y, unsigned m, int n, int* o) { put(o, Y(y) / M(m) + months(n)); }
X void r_ym_sub(int y, unsigned m, int n, int* o) { put(o, Y(y) / M(m) - months(n)); }
X void r_ym_addy(int y, unsigned m, int n, int* o) { put(o, Y(y) / M(m) + years(n)); }
X void r_ym_suby(int y, unsigned m, int n, int* o) { put(o, Y(y) / M(m) - years(n)); }
X int r_ym_diff(int y, unsigned m, int y2, unsigned m2) { return (Y(y) / M(m) - Y(y2) / M(m2)).count(); }
X void r_ymd_add(int y, unsigned m, unsigned d, int n, int* o) { put(o, ymd(y, m, d) + months(n)); }
X void r_ymd_sub(int y, unsigned m, unsigned d, int n, int* o) { auto v = ymd(y, m, d); v -= months(n); put(o, v); }
X void r_ymd_addy(int y, unsigned m, unsigned d, int n, int* o) { put(o, ymd(y, m, d) + years(n)); }
X void r_ymd_suby(int y, unsigned m, unsigned d, int n, int* o) { auto v = ymd(y, m, d); v -= years(n); put(o, v); }
// comparison: bit 0 ==, 1 !=, 2 <, 3 >, 4 <=, 5 >=
#define CMP(a, b) ((a == b) | (a != b) << 1 | (a < b) << 2 | (a > b) << 3 | (a <= b) << 4 | (a >= b) << 5)
X int r_cmp_ymd(int y, unsigned m, unsigned d, int y2, unsigned m2, unsigned d2) { auto a = ymd(y, m, d), b = ymd(y2, m2, d2); return CMP(a, b); }
X int r_cmp_ym(int y, unsigned m, int y2, unsigned m2) { auto a = Y(y) / M(m), b = Y(y2) / M(m2); return CMP(a, b); }
X int r_cmp_md(unsigned m, unsigned d, unsigned m2, unsigned d2) { auto a = M(m) / D(d), b = M(m2) / D(d2); return CMP(a, b); }
X int r_cmp_y(int y, int y2) { auto a = Y(y), b = Y(y2); return CMP(a, b); }
X int r_cmp_m(unsigned y, unsigned y2) { auto a = M(y), b = M(y2); return CMP(a, b); }
X int r_cmp_d(unsigned y, unsigned y2) { auto a = D(y), b = D(y2); return CMP(a, b); }
X int r_cmp_ymdl(int y, unsigned m, int y2, unsigned m2) { auto a = Y(y) / M(m) / last, b = Y(y2) / M(m2) / last; return CMP(a, b); }
// time of day
X void r_hms_s(long long s, long long* o) { auto t = make_time(seconds(s)); o[0] = t.hours().count(); o[1] = t.minutes().count(); o[2] = t.seconds().count(); o[3] = t.is_negative(); o[4] = t.to_duration().count(); }
X void r_hms_ms(long long s, long long* o) { auto t = make_time(milliseconds(s)); o[0] = t.hours().count(); o[1] = t.minutes().count(); o[2] = t.seconds().count(); o[3] = t.is_negative(); o[4] = t.to_duration().count(); o[5] = t.subseconds().count(); }
X bool r_am(long long h) { return is_am(hours(h)); }
X bool r_pm(long long h) { return is_pm(hours(h)); }
X long long r_make12(long long h) { return make12(hours(h)).count(); }
X long long r_make24(long long h, bool pm) { return make24(hours(h), pm).count(); }
// floor, ceil, round of time points and durations to days
X int r_floor(long long s) { return cnt(floor<days>(std::chrono::time_point<std::chrono::system_clock, seconds>(seconds(s)))); }
X int r_ceil(long long s) { return cnt(ceil<days>(std::chrono::time_point<std::chrono::system_clock, seconds>(seconds(s)))); }
X long long r_floor_s(long long ms) { return floor<seconds>(milliseconds(ms)).count(); }
X long long r_ceil_s(long long ms) { return ceil<seconds>(milliseconds(ms)).count(); }
X long long r_round_s(long long ms) { return round<seconds>(milliseconds(ms)).count(); }
