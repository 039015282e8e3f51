"""Trusted contract of std::regex iteration for the one pattern gul14::unescape uses.

The pattern text is read from the constructor call in the code; any other pattern is outside the contract
and leaves the proof undecided.  A match_results is represented by two positions: end of the previous match
(P) and start of the current one (M, npos if there is none); a regex_iterator is represented by its match."""
from .spec import *
from .ir import PTR
PATTERN = b'\\\\(["\\\\nrt]|x[[:xdigit:]]{2})'
MR = r'std::__cxx11::match_results<char const\*, .*>::'
RI = r'std::__cxx11::regex_iterator<char const\*, char, .*>::'

def xdigit(b): return Or(And(UGE(b, 48), ULE(b, 57)), And(UGE(b, 65), ULE(b, 70)), And(UGE(b, 97), ULE(b, 102)))
def xval(b): return If(ULE(b, 57), b - 48, If(ULE(b, 70), b - 55, b - 87))
class Escapes:
    """escape sequences in a text"""
    def __init__(s, E, st, hay):
        s.hay = hay
        s.F = z3.Function(fresh_name('ESC'), BV64, BV64)
        x = BitVec(fresh_name('x'), 64); q = fresh_name('esc'); QPAT[q] = {s.F.name()}
        st.assume(ForAll([x], Or(s.F(x) == NPOS, And(ULE(x, s.F(x)), s.at(s.F(x)))), qid=q))
        E.escapes = s
    def simple(s, b): return Or(*[b == ord(c) for c in '"\\nrt'])
    def at(s, x):
        h, n = s.hay, s.hay.n; a = h[S(x + 1)]
        return And(ULT(x, n), ULT(S(x + 1), n), h[x] == 92,
                   Or(s.simple(a), And(a == 120, ULT(S(x + 2), n), ULT(S(x + 3), n), xdigit(h[S(x + 2)]), xdigit(h[S(x + 3)]))))
    def mlen(s, x): return If(s.hay[S(x + 1)] == 120, bv(4), bv(2))
    def value(s, x):
        h = s.hay; a = h[S(x + 1)]
        return If(a == ord('n'), bv(10, 8), If(a == ord('r'), bv(13, 8), If(a == ord('t'), bv(9, 8),
               If(a == 120, (xval(h[S(x + 2)]) << 4) | xval(h[S(x + 3)]), a))))

def put(st, p, *vals):
    m = st.w(p.obj); o = val(p.off)
    for k in [k for k in m.cells if o <= k < o + 16]: del m.cells[k]
    for k, v in enumerate(vals): m.cells[o + 8 * k] = (8, S(v))
def get(st, p):
    c = st.mem[p.obj].cells; o = val(p.off)
    if o not in c or o + 8 not in c: raise Unsupported('uninitialised match_results')
    return c[o][1], c[o + 8][1]
def text(E, st, a, lo, hi, where):
    """std::string hay[lo, hi) at a"""
    x = E.escapes; n = S(hi - lo)
    E.oblige(st, And(ULE(lo, hi), ULE(hi, x.hay.n)), 'bounds', where + ' matched range', assume=True)
    strings.make(E, st, a, strings.fresh_copy(E, st, x.hay.a, lo, n), n)

def one(f):
    def h(E, st, a, i, where): yield ('ret', st, f(E, st, a, where))
    return h
def c_regex(E, st, a, where):
    m = st.mem[a[1].obj]; got = bytes()
    n = val(strings.clen(E, st, a[1], where))
    A, i0 = strings.src(E, st, a[1], bv(n), where)
    got = bytes(val(S(Select(A, S(i0 + k)))) for k in range(n))
    if got != PATTERN or not is_val(a[2]) or val(a[2]) not in (1, 16): raise Unsupported('regular expression %r' % got)
    w = st.w(a[0].obj); w.cells.clear(); w.cells[0] = (8, bv(0x5ee1))
def c_iter(E, st, a, where):
    x = E.escapes; re_ = st.mem[a[3].obj].cells.get(0)
    if re_ is None or not is_val(re_[1]) or val(re_[1]) != 0x5ee1: raise Unsupported('regex_iterator over an unknown regex')
    if a[1].obj != x.hay.p.obj or a[2].obj != x.hay.p.obj or not (is_val(a[4]) and val(a[4]) == 0): raise Unsupported('regex_iterator range')
    if not E.valid_now(st, And(a[1].off == 0, a[2].off == x.hay.n)): raise Unsupported('regex_iterator range')
    put(st, a[0], bv(0), x.F(bv(0)))
def c_end(E, st, a, where): put(st, a[0], NPOS, NPOS)
def c_copy(E, st, a, where): put(st, a[0], *get(st, a[1])); return a[0]
def c_eq(neg):
    def f(E, st, a, where):
        (p, m), (q, k) = get(st, a[0]), get(st, a[1])
        if E.valid_now(st, m == NPOS) or E.valid_now(st, k == NPOS): e = m == k
        else:                # two matches compare equal if they matched the same text: left open
            e = Or(And(m == NPOS, k == NPOS), And(m != NPOS, k != NPOS, E.fresh(st, 'same', BoolSort())))
        return S(Not(e) if neg else e)
    return f
def c_inc(E, st, a, where):
    x = E.escapes; p, m = get(st, a[0])
    E.oblige(st, m != NPOS, 'bounds', where + ' increment of the end iterator', assume=True)
    e = S(m + x.mlen(m)); put(st, a[0], e, x.F(e)); return a[0]
def c_this(E, st, a, where): return a[0]
def c_length(E, st, a, where):
    x = E.escapes; p, m = get(st, a[0])
    if not is_val(a[1]) or val(a[1]) != 0: raise Unsupported('capture group')
    E.oblige(st, m != NPOS, 'bounds', where + ' length() of no match', assume=True)
    return x.mlen(m)
def c_position(E, st, a, where):
    p, m = get(st, a[0])
    if not is_val(a[1]) or val(a[1]) != 0: raise Unsupported('capture group')
    E.oblige(st, m != NPOS, 'bounds', where + ' position() of no match', assume=True)
    return m
class Matches:
    """matches of an arbitrary regular expression that never matches the empty text"""
    def __init__(s, E, st, hay):
        s.hay = hay; n = hay.n
        s.F, s.mlen = z3.Function(fresh_name('MATCH'), BV64, BV64), z3.Function(fresh_name('MLEN'), BV64, BV64)
        x = BitVec(fresh_name('x'), 64); q = fresh_name('match'); QPAT[q] = {s.F.name()}
        f = s.F(x); l = s.mlen(f)
        st.assume(ForAll([x], Or(f == NPOS, And(ULE(x, f), ULE(f, n), UGE(l, 1), ULE(l, n), ULE(f, n - l))), qid=q))
        E.escapes = s
        o = E.new_obj(st, 'regex', 32, 'ext'); st.mem[o].cells[0] = (8, bv(0x5ee1)); s.regex = Ptr(o, bv(0))
def c_empty(E, st, a, where): return S(get(st, a[0])[1] == NPOS)
def c_str(E, st, a, where):
    x = E.escapes; p, m = get(st, a[1])
    if not is_val(a[2]) or val(a[2]) > 1: raise Unsupported('capture group')
    E.oblige(st, m != NPOS, 'bounds', where + ' str() of no match', assume=True)
    text(E, st, a[0], S(m + val(a[2])), S(m + x.mlen(m)), where)
def c_sub(which):
    def f(E, st, a, where):
        x = E.escapes; p, m = get(st, a[0]); m_ = st.w(a[0].obj); o = val(a[0].off)
        E.oblige(st, m != NPOS, 'bounds', where + ' prefix()/suffix() of no match', assume=True)
        lo, hi = (p, m) if which == 0 else (S(m + x.mlen(m)), x.hay.n)
        sub = E.new_obj(st, 'sub_match', 24, 'ext')
        c = st.mem[sub].cells; c[0] = (8, Ptr(x.hay.p.obj, S(lo))); c[8] = (8, Ptr(x.hay.p.obj, S(hi))); c[16] = (1, bv(1, 8))
        return Ptr(sub, bv(0))
    return f
def c_sub_str(E, st, a, where):
    c = st.mem[a[1].obj].cells; o = val(a[1].off)
    text(E, st, a[0], c[o][1].off, c[o + 8][1].off, where)
def c_strtol(E, st, a, where):
    """strtol of a text of exactly two hexadecimal digits"""
    if not (is_val(a[2]) and val(a[2]) == 16) or a[0].obj is None: raise Unsupported('strtol')
    m = st.mem[a[0].obj]; A, k = strings.src(E, st, a[0], bv(3), where)
    d = [S(Select(A, S(k + j))) for j in range(3)]
    E.oblige(st, And(xdigit(d[0]), xdigit(d[1]), d[2] == 0), 'precondition', where + ' strtol is given two hex digits', assume=True)
    if a[1].obj is not None: E.store(st, a[1], Ptr(a[0].obj, S(a[0].off + 2)), PTR, where)
    return ZeroExt(56, (xval(d[0]) << 4) | xval(d[1]))
def c_errno(E, st, a, where):
    if 'errno' not in st.mem:
        oid = E.new_obj(st, 'errno', 4, 'ext'); st.mem[oid].cells[0] = (4, E.fresh(st, 'errno', BitVecSort(32))); E.errno = oid
    return Ptr(E.errno, bv(0))
def c_one(E, st, a, where): return bv(1, 32)
def c_nop(E, st, a, where): return None
REGEX = [(r'std::__cxx11::basic_regex<char, .*>::basic_regex\(char const\*, .*\)', one(c_regex)),
         (RI + r'regex_iterator\(char const\*, char const\*, .*', one(c_iter)), (RI + r'regex_iterator\(\)', one(c_end)),
         (RI + r'operator==\(.*', one(c_eq(0))), (RI + r'operator!=\(.*', one(c_eq(1))), (RI + r'operator\+\+\(\)', one(c_inc)),
         (RI + r'operator(\*|->)\(\) const', one(c_this)), (RI + r'(regex_iterator|operator=)\(.*const&\)', one(c_copy)), (RI + r'~regex_iterator\(\)', one(c_nop)),
         (MR + r'match_results\(\)', one(c_end)), (MR + r'(match_results|operator=)\(.*&&?\)', one(c_copy)), (MR + r'~match_results\(\)', one(c_nop)),
         (MR + r'length\(unsigned long\) const', one(c_length)), (MR + r'position\(unsigned long\) const', one(c_position)),
         (MR + r'empty\(\) const', one(c_empty)), (MR + r'str\(unsigned long\) const', one(c_str)), (MR + r'prefix\(\) const', one(c_sub(0))), (MR + r'suffix\(\) const', one(c_sub(1))),
         (r'_ZNKSt7__cxx119sub_matchIPKcEcvNS_12basic_string.*|std::__cxx11::sub_match<char const\*>::(str\(\) const|operator std.*)', one(c_sub_str)),
         (r'__isoc23_strtol|strtol', one(c_strtol)), (r'__errno_location', one(c_errno)),
         (r'__cxa_guard_acquire', one(c_one)), (r'__cxa_guard_release|__cxa_guard_abort|__cxa_atexit', one(c_nop))]
KEEP = (r'^std::__cxx11::(basic_regex|regex_iterator|match_results|sub_match)<', r'^_ZNKSt7__cxx119sub_match')
