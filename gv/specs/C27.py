"""C27: calendar arithmetic of gul14::date."""
from ..spec import *
from .. import ir
ASSUME = ['the proleptic Gregorian calendar is defined by its leap-year rule and month lengths; the day number of a date is the classical closed form, shown by lemma obligations to be 0 for 1970-01-01 and to grow by one from each valid date to the next',
          'years outside -32767..32767 are not representable; sums that would leave that range are excluded',
          'std::chrono::duration and time_point are compiled from the standard library headers and verified as part of the code']
PROOFS = []
i32 = BitVecSort(32)
def c(v): return BitVecVal(v, 32)
ERA0 = 82                                    # 400-year periods counted from year -32800
DOY = [0, 31, 61, 92, 122, 153, 184, 214, 245, 275, 306, 337]      # days before March, April, ..., February
LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
def doyear(m): return DOY[(m + 9) % 12]
def leap_of(y):
    u = y + c(32800)
    return And(URem(u, c(4)) == 0, Or(URem(u, c(100)) != 0, URem(u, c(400)) == 0))
def length(y, m):
    """days in month m (concrete) of year y"""
    return If(leap_of(y), c(29), c(28)) if m == 2 else c(LEN[m - 1])
def length_(y, m):
    r = c(31)
    for k in (4, 6, 9, 11): r = If(m == k, c(30), r)
    return If(m == 2, If(leap_of(y), c(29), c(28)), r)
class Date:
    """a symbolic valid date in month m: year = 400 e + r (+ 1 for January, February) - 32800, day d"""
    def __init__(s, E, st, m, tag='', d=None):
        s.m = m
        s.e, s.r = [E.fresh(st, n + tag, i32) for n in 'er']
        s.y = E.fresh(st, 'y' + tag, i32)
        st.assume(And(ULE(s.e, c(2 * ERA0)), ULT(s.r, c(400))))
        st.assume(s.y == 400 * s.e + s.r + c((1 if m <= 2 else 0) - 32800))
        st.assume(And(s.y >= -32767, s.y <= 32767))
        if d is None:
            s.d = E.fresh(st, 'd' + tag, i32)
            st.assume(And(UGE(s.d, c(1)), ULE(s.d, length(s.y, m))))
        else: s.d = c(d)
        s.n0 = 146097 * s.e + 365 * s.r + UDiv(s.r, c(4)) - UDiv(s.r, c(100)) + c(doyear(m) - 719468 - 146097 * ERA0 - 1)
    def n(s, d=None): return s.n0 + (s.d if d is None else d)
def out(E, st, n, w=4):
    o = E.new_obj(st, 'out', n * w, 'ext'); return Ptr(o, bv(0))
def cell(E, st, p, k, w=4):
    v = st.mem[p.obj].cells.get(k * w)
    if v is None: raise Unsupported('result not written')
    return v[1]
def P(name, root, su, po, **kw):
    kw.setdefault('W', 64); kw.setdefault('ival', True); kw.setdefault('named', True)
    PROOFS.append(Proof(name, root, 'date.cc', su, po, **kw))
def post(what, f):
    return lambda E, st, r, x: E.oblige(st, f(E, st, r, x), 'post', what)

def cuts(E, st, D, inp):
    """intermediate values of the code that equal a known quantity of the date: guessed from samples, kept only
    if proved (each is an obligation of its own), then available to the goals"""
    import random
    rnd = random.Random(1)
    doy = c(doyear(D.m) - 1) + D.d
    doe = 365 * D.r + UDiv(D.r, c(4)) - UDiv(D.r, c(100)) + doy
    cand = [D.e - ERA0, D.e, D.r, UDiv(D.r, c(4)), UDiv(D.r, c(100)), doy, doe, c((D.m + 9) % 12), D.y, D.d, c(D.m), c(DOY[(D.m + 9) % 12]), c(D.m <= 2), UDiv(doe, c(1460)), UDiv(doe, c(36524)), UDiv(doe, c(146096))]
    env = []
    for e, r, d in [(rnd.randrange(1, 2 * ERA0), rnd.randrange(1, 399), rnd.randrange(1, 28)) for _ in range(6)] + [(ERA0, 399, 28), (3, 0, 1), (ERA0, 100, 1), (ERA0, 99, 20)]:
        sub = [(D.e, c(e)), (D.r, c(r)), (D.d, c(d)), (D.y, c((400 * e + r + (1 if D.m <= 2 else 0) - 32800) & 0xffffffff))]
        sub += [(v, S(z3.substitute(x, *sub))) for v, x in inp]
        env.append(sub)
    done = set()
    todo = []
    for f in list(st.facts):
        if not (z3.is_eq(f) and z3.is_app(f.arg(0)) and f.arg(0).decl().name().startswith('nm!')): continue
        x, v = f.arg(0), f.arg(1)
        if x.size() != 32: continue
        ok = True
        for sub in env:
            w = S(z3.substitute(v, *sub)); sub.append((x, w)); ok = ok and z3.is_bv_value(w)
        if not ok: continue
        todo.append(x)
    for sub in env:      # samples off this path do not count
        sub.append((None, all(z3.is_true(S(z3.substitute(f, *[z for z in sub if z[0] is not None]))) for f in st.facts if not has_q(f))))
    env = [[z for z in sub if z[0] is not None] for sub in env if sub[-1][1]]
    if len(env) < 2: return
    for x in todo:
        xs = [S(z3.substitute(x, *sub)) for sub in env]
        for k in cand:
            if all(S(z3.substitute(k, *sub)).eq(w) for sub, w in zip(env, xs)):
                if prove(st.facts, x == k, timeout=10)[0] == 'proved':
                    E.oblige(st, x == k, 'lemma', 'intermediate value', assume=True); break

for m in range(1, 13):
    mm = c(m)
    def su(E, st, m=m):
        D = Date(E, st, m); return [D.y, c(m), D.d], D
    for nm, root in (('sys_days', 'r_to_days'), ('local_days', 'r_to_local')):
        P('%s(year_month_day), month %d' % (nm, m), root, su, lambda E, st, r, D: (cuts(E, st, D, []), E.oblige(st, r == D.n(), 'post', 'the day number of the date')))
    def su(E, st, m=m):
        D = Date(E, st, m); z = E.fresh(st, 'z', i32); st.assume(z == D.n()); p = out(E, st, 3); D.p = p; D.z = z
        E.oblige(st, And(z >= -12687428, z <= 11248737), 'lemma', 'range of day numbers', assume=True)
        return [z, p], D
    def po(E, st, r, D):
        cuts(E, st, D, [(D.z, D.n())])
        y, mo, d = [cell(E, st, D.p, k) for k in range(3)]
        E.oblige(st, y == D.y, 'post', 'the year of the day'); E.oblige(st, mo == D.m, 'post', 'the month of the day'); E.oblige(st, d == D.d, 'post', 'the day of the month')
    for nm, root in (('sys_days', 'r_from_days'), ('local_days', 'r_from_local')):
        P('year_month_day(%s), month %d' % (nm, m), root, su, po)

# ---- the day number is the classical one, 0 on 1970-01-01, and counts the valid dates without gap
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
def lem(m):
    def f(E, st, r, x):
        D = Date(E, st, m)
        Y = D.y - 1 + c(32800)
        E.oblige(st, D.n() == 365 * Y + UDiv(Y, c(4)) - UDiv(Y, c(100)) + UDiv(Y, c(400)) + If(And(leap_of(D.y), BoolVal(m > 2)), c(1), c(0)) + D.d + c(CUM[m - 1] - 1 - 719162 - 146097 * ERA0), 'lemma',
                 'day number = 365 (y-1) + [(y-1)/4] - [(y-1)/100] + [(y-1)/400] + days before the month + d - 719163')
        # successor: the first day of the next month follows the last day of this one
        N = Date(E, st, m % 12 + 1, 'n', d=1)
        st.assume(D.y + (1 if m == 12 else 0) == N.y)
        E.oblige(st, N.n() == D.n(length(D.y, m)) + 1, 'lemma', 'the day after the last day of the month is the first of the next')
        if m == 1:
            st.assume(And(D.y == 1970, D.d == 1)); E.oblige(st, D.n() == 0, 'lemma', '1970-01-01 is day 0')
    return f
for m in range(1, 13): P('lemma: day number, month %d' % m, None, lambda E, st: ([], None), lem(m))

# ---- single values
def yr(E, st, n='y', lo=-32767): v = E.fresh(st, n, i32); st.assume(And(v >= lo, v <= 32767)); return v
def byte(E, st, n, lo=0, hi=255): v = E.fresh(st, n, i32); st.assume(And(UGE(v, c(lo)), ULE(v, c(hi)))); return v
def B(r): return r if z3.is_bool(r) else r != 0
def mok(m): return And(UGE(m, c(1)), ULE(m, c(12)))
def A(*fs): 
    """setup from argument makers"""
    def f(E, st):
        a = [g(E, st) for g in fs]; return a, a
    return f
y_ = lambda n='y', lo=-32767: lambda E, st: yr(E, st, n, lo)
b_ = lambda n, lo=0, hi=255: lambda E, st: byte(E, st, n, lo, hi)
def V(name, root, su, what, f, **kw):
    P(name, root, su, lambda E, st, r, a: E.oblige(st, f(r, *a), 'post', what), **kw)
V('year::is_leap', 'r_leap', A(y_()), 'divisible by 4 and not by 100, or by 400', lambda r, y: B(r) == leap_of(y))
V('year_month_day_last::day', 'r_last_day', A(y_(), b_('m', 1, 12)), 'the length of the month', lambda r, y, m: r == length_(y, m))
Y16 = lambda y: y != -32768
V('year_month_day::ok', 'r_ok_ymd', A(y_(lo=-32768), b_('m'), b_('d')), 'true exactly for existing dates', lambda r, y, m, d: B(r) == And(Y16(y), mok(m), UGE(d, c(1)), ULE(d, length_(y, m))))
V('year_month::ok', 'r_ok_ym', A(y_(lo=-32768), b_('m')), 'true exactly for existing months', lambda r, y, m: B(r) == And(Y16(y), mok(m)))
V('year_month_day_last::ok', 'r_ok_ymdl', A(y_(lo=-32768), b_('m')), 'true exactly for existing months', lambda r, y, m: B(r) == And(Y16(y), mok(m)))
def mdlen(m):
    r = c(31)
    for k in (4, 6, 9, 11): r = If(m == k, c(30), r)
    return If(m == 2, c(29), r)
V('month_day::ok', 'r_ok_md', A(b_('m'), b_('d')), 'true exactly if the day exists in that month of some year', lambda r, m, d: B(r) == And(mok(m), UGE(d, c(1)), ULE(d, mdlen(m))))
V('year::ok', 'r_ok_y', A(y_(lo=-32768)), 'all representable years but the smallest', lambda r, y: B(r) == Y16(y))
V('month::ok', 'r_ok_m', A(b_('m')), '1 to 12', lambda r, m: B(r) == mok(m))
V('day::ok', 'r_ok_d', A(b_('d')), '1 to 31', lambda r, d: B(r) == And(UGE(d, c(1)), ULE(d, c(31))))
V('weekday::ok', 'r_ok_wd', A(b_('w')), '0 to 7', lambda r, w: B(r) == ULE(w, c(7)))
V('weekday_indexed::ok', 'r_ok_wdi', A(b_('w', 0, 7), b_('i', 0, 7)), 'index 1 to 5', lambda r, w, i: B(r) == And(ULE(w, c(7)), UGE(i, c(1)), ULE(i, c(5))))
# ---- weekdays
def x64(v): return SignExt(32, v)
def mod(a, k): return URem(a + BitVecVal(k << 32, 64), BitVecVal(k, 64))       # mathematical remainder, |a| < k 2^32
def int_(n, lo=-(1 << 31), hi=(1 << 31) - 1):
    def f(E, st): v = E.fresh(st, n, i32); st.assume(And(v >= lo, v <= hi)); return v
    return f
V('weekday(sys_days)', 'r_wd', A(int_('z')), 'day 0 is a Thursday, seven days a week', lambda r, z: x64(r) == mod(x64(z) + 4, 7))
V('weekday(local_days)', 'r_wd_local', A(int_('z')), 'day 0 is a Thursday, seven days a week', lambda r, z: x64(r) == mod(x64(z) + 4, 7))
V('weekday::iso_encoding', 'r_wd_iso', A(b_('w', 0, 7)), 'Monday is 1, Sunday 7', lambda r, w: r == If(w == 0, c(7), w))
V('weekday + days', 'r_wd_add', A(b_('w', 0, 7), int_('n')), 'n days later in the week', lambda r, w, n: x64(r) == mod(x64(w) + x64(n), 7))
V('weekday - days', 'r_wd_sub', A(b_('w', 0, 7), int_('n', lo=1 - (1 << 31))), 'n days earlier in the week', lambda r, w, n: x64(r) == mod(x64(w) - x64(n), 7))
V('weekday - weekday', 'r_wd_diff', A(b_('a', 0, 7), b_('b', 0, 7)), 'days from b to the next a, 0 to 6', lambda r, a, b: x64(r) == mod(x64(a) - x64(b), 7))
V('++weekday', 'r_wd_inc', A(b_('w', 0, 7)), 'the next weekday', lambda r, w: x64(r) == mod(x64(w) + 1, 7))
V('weekday--', 'r_wd_dec', A(b_('w', 0, 7)), 'the previous weekday', lambda r, w: x64(r) == mod(x64(w) - 1, 7))
# callers of to_days and weekday_from_days are checked against their contracts
FIRST = {}
def c_to_days(E, st, a, i, where):
    p = a[0]
    f = lambda off, w: E.load(st, Ptr(p.obj, S(p.off + off)), ir.Ty('int', n=8 * w))
    y, m, d = f(0, 2), f(2, 1), f(3, 1)
    y = SignExt(16, y); m = ZeroExt(24, m); d = ZeroExt(24, d)
    E.oblige(st, And(y >= -32767, mok(m), UGE(d, c(1)), ULE(d, length_(y, m))), 'pre', 'to_days: an existing date')
    E.oblige(st, And(y == E.Y, m == E.M), 'pre', 'to_days: a day of the month in question')
    yield ('ret', st, S(E.first + d - 1))
def c_wd(E, st, a, i, where):
    if S(a[0] - E.first).eq(c(0)):      # the first of the month: its weekday has a name already
        yield ('ret', st, S(Extract(7, 0, E.fw))); return
    w = E.fresh(st, 'wd', i32); q = E.fresh(st, 'wq', i32)
    z = a[0]
    E.oblige(st, And(z >= -(1 << 27), z <= 1 << 27), 'pre', 'weekday_from_days: range of these proofs')
    st.assume(And(ULE(w, c(6)), ULE(q, c(1 << 26)), z + c(4 + 7 * (1 << 25)) == 7 * q + w))
    yield ('ret', st, S(Extract(7, 0, w)))
KEEP = (r'^gul14::date::year_month_day::to_days\(\)', r'^gul14::date::weekday::weekday_from_days\(')
CON = [(r'gul14::date::year_month_day::to_days\(\).*', c_to_days), (r'gul14::date::weekday::weekday_from_days\(.*', c_wd)]
def wsu(*fs):
    def f(E, st):
        a = [g(E, st) for g in fs]
        E.Y, E.M = a[0], a[1]
        E.first = E.fresh(st, 'first', i32); st.assume(And(E.first >= -12687428, E.first <= 11248737))
        q, w = E.fresh(st, 'fq', i32), E.fresh(st, 'fw', i32)
        E.fw = w
        st.assume(And(ULE(w, c(6)), ULE(q, c(1 << 26)), E.first + c(4 + 7 * (1 << 25)) == 7 * q + w))
        return a, a
    return f
def wpos(w, fw):
    """day of the month of the first weekday w, if the first of the month is weekday fw"""
    w = If(w == 7, c(0), w)
    return If(UGE(w, fw), w - fw, w + 7 - fw) + 1
P('sys_days(year_month_weekday)', 'r_ymwd_days', wsu(y_(), b_('m', 1, 12), b_('w', 0, 7), b_('i', 1, 5)),
  lambda E, st, r, a: E.oblige(st, r == E.first - 1 + wpos(a[2], E.fw) + 7 * (a[3] - 1), 'post', 'the i-th such weekday counted from the first of the month'), keep=KEEP, contracts=CON)
def po(E, st, r, a):
    L = length_(a[0], a[1]); n = r - E.first + 1; p = wpos(a[2], E.fw)
    E.oblige(st, And(n >= 1, n <= L, n > L - 7), 'post', 'within the last seven days of the month')
    E.oblige(st, Or(*[n == p + 7 * k for k in range(5)]), 'post', 'the requested weekday')
P('sys_days(year_month_weekday_last)', 'r_ymwdl_days', wsu(y_(), b_('m', 1, 12), b_('w', 0, 7)), po, keep=KEEP, contracts=CON)
for ilo, ihi in ((0, 4), (5, 5), (6, 7)):
  P('year_month_weekday::ok, index %d to %d' % (ilo, ihi), 'r_ok_ymwd', wsu(y_(lo=-32768), b_('m'), b_('w', 0, 7), b_('i', ilo, ihi)),
   lambda E, st, r, a: E.oblige(st, B(r) == And(Y16(a[0]), mok(a[1]), ULE(a[2], c(7)), UGE(a[3], c(1)), Or(ULE(a[3], c(4)), And(a[3] == 5, ULE(wpos(a[2], E.fw) + 28, length_(a[0], a[1]))))), 'post', 'true exactly if the month has that many such weekdays'), keep=KEEP, contracts=CON)
P('year_month_weekday_last::ok', 'r_ok_ymwdl', wsu(y_(lo=-32768), b_('m'), b_('w')),
  lambda E, st, r, a: E.oblige(st, B(r) == And(Y16(a[0]), mok(a[1]), ULE(a[2], c(7))), 'post', 'true exactly for existing months and weekdays'), keep=KEEP, contracts=CON)
P('sys_days(year_month_day_last)', 'r_last_days', wsu(y_(), b_('m', 1, 12)), lambda E, st, r, a: E.oblige(st, r == E.first - 1 + length_(a[0], a[1]), 'post', 'the last day of the month'), keep=KEEP, contracts=CON)
P('local_days(year_month_day_last)', 'r_last_local', wsu(y_(), b_('m', 1, 12)), lambda E, st, r, a: E.oblige(st, r == E.first - 1 + length_(a[0], a[1]), 'post', 'the last day of the month'), keep=KEEP, contracts=CON)
def outs(n, su, w=4):
    def f(E, st):
        a, x = su(E, st); p = out(E, st, n, w); return a + [p], (p, a)
    return f
def O(name, root, n, su, what, f, w=4, **kw):
    def po(E, st, r, x):
        p, a = x; g = f(*[cell(E, st, p, k, w) for k in range(n)], *a)
        for h in (g.children() if z3.is_and(g) else [g]): E.oblige(st, h, 'post', what)
    P(name, root, outs(n, su, w), po, **kw)
O('year_month_day(year_month_day_last)', 'r_last_ymd', 3, A(y_(), b_('m', 1, 12)), 'the last day of the month', lambda Y, M, D, y, m: And(Y == y, M == m, D == length_(y, m)))
def c_from_days(E, st, a, i, where):
    y, m, d = [E.fresh(st, n, BitVecSort(k)) for n, k in (('fy', 16), ('fm', 8), ('fd', 8))]
    E.oblige(st, a[0] == E.Z, 'pre', 'from_days: the day in question')
    E.ymd = (y, m, d)
    st.assume(And(ULE(d, 31), UGE(d, 1)))
    yield ('ret', st, S(Concat(d, m, y)))
def su(E, st):
    z = int_('z', -12687428, 11248737)(E, st); E.Z = z; p = out(E, st, 4); return [z, p], (z, p)
def po(E, st, r, x):
    z, p = x; Y, M, W, I = [cell(E, st, p, k) for k in range(4)]
    y, m, d = E.ymd
    E.oblige(st, And(Y == SignExt(16, y), M == ZeroExt(24, m)), 'post', 'year and month of the day')
    E.oblige(st, x64(W) == mod(x64(z) + 4, 7), 'post', 'its weekday')
    E.oblige(st, And(ULE(7 * I - 6, ZeroExt(24, d)), ULE(ZeroExt(24, d), 7 * I)), 'post', 'the how-manieth such weekday of the month it is')
P('year_month_weekday(sys_days)', 'r_from_days_w', su, po, keep=(r'^gul14::date::year_month_day::from_days\(',), contracts=[(r'gul14::date::year_month_day::from_days\(.*', c_from_days)])
# ---- arithmetic
I2 = int_('n', lo=2 - (1 << 31))
SM = int_('n', -800000, 800000)
def cong(r, m, n): return And(mok(r), mod(x64(r) - x64(m) - n, 12) == 0)
V('month + months', 'r_m_add', A(b_('m', 1, 12), I2), 'n months later in the year', lambda r, m, n: cong(r, m, x64(n)))
V('month - months', 'r_m_sub', A(b_('m', 1, 12), I2), 'n months earlier in the year', lambda r, m, n: cong(r, m, -x64(n)))
V('month - month', 'r_m_diff', A(b_('a', 1, 12), b_('b', 1, 12)), 'months from b to the next a, 0 to 11', lambda r, a, b: x64(r) == mod(x64(a) - x64(b), 12))
V('++month', 'r_m_inc', A(b_('m', 1, 12)), 'the next month', lambda r, m: r == If(m == 12, c(1), m + 1))
V('--month', 'r_m_dec', A(b_('m', 1, 12)), 'the previous month', lambda r, m: r == If(m == 1, c(12), m - 1))
def fits(y): return And(y >= -32767, y <= 32767)
V('year + years', 'r_y_add', A(y_(), SM), 'the year n later', lambda r, y, n: Implies(fits(y + n), r == y + n))
V('year - years', 'r_y_sub', A(y_(), SM), 'the year n earlier', lambda r, y, n: Implies(fits(y - n), r == y - n))
V('year - year', 'r_y_diff', A(y_('a'), y_('b')), 'the number of years', lambda r, a, b: r == a - b)
V('day + days', 'r_d_add', A(b_('d', 1, 31), int_('n', -30, 224)), 'the day number n later', lambda r, d, n: Implies(d + n >= 0, r == d + n))
V('day - day', 'r_d_diff', A(b_('a', 1, 31), b_('b', 1, 31)), 'the number of days', lambda r, a, b: r == a - b)
def ym(sign):
    """the year and month that lie n months away"""
    def f(Y, M, y, m, n):
        t = 12 * y + m - 1 + sign * n
        return Implies(And(t >= -32767 * 12, t <= 32767 * 12 + 11), And(12 * Y + M - 1 == t, mok(M), fits(Y)))
    return f
O('year_month + months', 'r_ym_add', 2, A(y_(), b_('m', 1, 12), SM), 'n months later', ym(1))
O('year_month - months', 'r_ym_sub', 2, A(y_(), b_('m', 1, 12), SM), 'n months earlier', ym(-1))
O('year_month + years', 'r_ym_addy', 2, A(y_(), b_('m', 1, 12), SM), 'n years later', lambda Y, M, y, m, n: Implies(fits(y + n), And(Y == y + n, M == m)))
O('year_month - years', 'r_ym_suby', 2, A(y_(), b_('m', 1, 12), SM), 'n years earlier', lambda Y, M, y, m, n: Implies(fits(y - n), And(Y == y - n, M == m)))
V('year_month - year_month', 'r_ym_diff', A(y_('a'), b_('am', 1, 12), y_('b'), b_('bm', 1, 12)), 'the number of months', lambda r, a, am, b, bm: r == 12 * (a - b) + am - bm)
D31 = b_('d', 1, 31)
O('year_month_day + months', 'r_ymd_add', 3, A(y_(), b_('m', 1, 12), D31, SM), 'the same day n months later', lambda Y, M, D, y, m, d, n: And(D == d, ym(1)(Y, M, y, m, n)))
O('year_month_day -= months', 'r_ymd_sub', 3, A(y_(), b_('m', 1, 12), D31, SM), 'the same day n months earlier', lambda Y, M, D, y, m, d, n: And(D == d, ym(-1)(Y, M, y, m, n)))
O('year_month_day + years', 'r_ymd_addy', 3, A(y_(), b_('m', 1, 12), D31, SM), 'the same day n years later', lambda Y, M, D, y, m, d, n: And(D == d, Implies(fits(y + n), And(Y == y + n, M == m))))
O('year_month_day -= years', 'r_ymd_suby', 3, A(y_(), b_('m', 1, 12), D31, SM), 'the same day n years earlier', lambda Y, M, D, y, m, d, n: And(D == d, Implies(fits(y - n), And(Y == y - n, M == m))))
# ---- comparison
def cmp6(lt, eq):
    gt = And(Not(lt), Not(eq))
    bit = lambda b, k: If(b, c(1 << k), c(0))
    return bit(eq, 0) + bit(Not(eq), 1) + bit(lt, 2) + bit(gt, 3) + bit(Not(gt), 4) + bit(Not(lt), 5)
def lex(xs, ys):
    lt, eq = BoolVal(False), BoolVal(True)
    for x, y in zip(xs, ys): lt = Or(lt, And(eq, x < y)); eq = And(eq, x == y)
    return cmp6(lt, eq)
CW = 'the six comparisons order by time'
CK = dict(ival=False, named=False)
V('year_month_day comparison', 'r_cmp_ymd', A(y_('a'), b_('am'), b_('ad'), y_('b'), b_('bm'), b_('bd')), CW, lambda r, a, m, d, b, n, e: r == lex((a, m, d), (b, n, e)), **CK)
V('year_month comparison', 'r_cmp_ym', A(y_('a'), b_('am'), y_('b'), b_('bm')), CW, lambda r, a, m, b, n: r == lex((a, m), (b, n)), **CK)
V('year_month_day_last comparison', 'r_cmp_ymdl', A(y_('a'), b_('am'), y_('b'), b_('bm')), CW, lambda r, a, m, b, n: r == lex((a, m), (b, n)), **CK)
V('month_day comparison', 'r_cmp_md', A(b_('am'), b_('ad'), b_('bm'), b_('bd')), CW, lambda r, a, m, b, n: r == lex((a, m), (b, n)), **CK)
V('year comparison', 'r_cmp_y', A(y_('a'), y_('b')), CW, lambda r, a, b: r == lex((a,), (b,)), **CK)
V('month comparison', 'r_cmp_m', A(b_('a'), b_('b')), CW, lambda r, a, b: r == lex((a,), (b,)), **CK)
V('day comparison', 'r_cmp_d', A(b_('a'), b_('b')), CW, lambda r, a, b: r == lex((a,), (b,)), **CK)
# ---- time of day
def l_(n, lo, hi):
    def f(E, st): v = E.fresh(st, n, BV64); st.assume(And(v >= lo, v <= hi)); return v
    return f
BIG = 1 << 62
def k64(v): return BitVecVal(v, 64)
def hms(scale):
    def f(*a):
        o, s = a[:-1], a[-1]
        H, M, S_, neg, d = o[:5]; sub = o[5] if len(o) > 5 else k64(0)
        ab = If(s < 0, -s, s)
        return And(H >= 0, M >= 0, M < 60, S_ >= 0, S_ < 60, sub >= 0, sub < max(scale, 1), H <= k64(BIG // (3600 * scale)),
                   3600 * scale * H + 60 * scale * M + scale * S_ + (sub if len(o) > 5 else k64(0)) == ab, d == s, neg == If(s < 0, k64(1), k64(0)))
    return f
O('hh_mm_ss<seconds>', 'r_hms_s', 5, A(l_('s', -BIG, BIG)), 'hours, minutes and seconds add up to the duration', hms(1), w=8)
O('hh_mm_ss<milliseconds>', 'r_hms_ms', 6, A(l_('s', -BIG, BIG)), 'hours, minutes, seconds and milliseconds add up to the duration', hms(1000), w=8)
V('is_am', 'r_am', A(l_('h', -BIG, BIG)), 'hours 0 to 11', lambda r, h: B(r) == And(h >= 0, h < 12))
V('is_pm', 'r_pm', A(l_('h', -BIG, BIG)), 'hours 12 to 23', lambda r, h: B(r) == And(h >= 12, h < 24))
V('make12', 'r_make12', A(l_('h', 0, 23)), 'the hour on a 12-hour clock', lambda r, h: r == If(h == 0, k64(12), If(h > 12, h - 12, h)))
def bool_(E, st): return Bool('pm')
V('make24', 'r_make24', A(l_('h', 1, 12), bool_), 'the hour on a 24-hour clock', lambda r, h, pm: r == If(pm, If(h == 12, h, h + 12), If(h == 12, k64(0), h)))
SEC = l_('s', -(1 << 46), 1 << 46)
def days64(r): return SignExt(32, r) * 86400
V('floor<days>', 'r_floor', A(SEC), 'the last midnight not after', lambda r, s: And(days64(r) <= s, s < days64(r) + 86400))
V('ceil<days>', 'r_ceil', A(SEC), 'the first midnight not before', lambda r, s: And(days64(r) >= s, s > days64(r) - 86400))
MS = l_('s', -BIG, BIG)
V('floor<seconds>', 'r_floor_s', A(MS), 'rounded down', lambda r, s: And(r >= -BIG // 1000 - 1, r <= BIG // 1000, 1000 * r <= s, s < 1000 * r + 1000))
V('ceil<seconds>', 'r_ceil_s', A(MS), 'rounded up', lambda r, s: And(r >= -BIG // 1000, r <= BIG // 1000 + 1, 1000 * r >= s, s > 1000 * r - 1000))
V('round<seconds>', 'r_round_s', A(MS), 'rounded to nearest, ties to even', lambda r, s: And(r >= -BIG // 1000 - 1, r <= BIG // 1000 + 1, 2 * (1000 * r - s) <= 1000, 2 * (s - 1000 * r) <= 1000, Implies(Or(2 * (1000 * r - s) == 1000, 2 * (s - 1000 * r) == 1000), Extract(0, 0, r) == 0)))
