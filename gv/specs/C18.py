"""C18: text builders cat, repeat, hex_string, safe_string."""
from ..spec import *
ASSUME = ['the result fits into a std::string (at most PTRDIFF_MAX characters)',
          'std::to_string(x) is an uninterpreted function of x']
PROOFS = []
def P(n, r, su, po, **kw): PROOFS.append(Proof(n, r, 'build.cc', su, po, **kw))

def concat(E, st, r, pieces, what):
    """the string at r is the concatenation of the pieces (array, length)"""
    o = string_at(E, st, r)
    tot = bv(0)
    for A, n in pieces:
        E.oblige(st, forall('k', 0, n, lambda k: Select(o.arr, S(tot + k)) == Select(A, k)), 'post', what + ': characters')
        tot = S(tot + n)
    E.oblige(st, o.len == tot, 'post', what + ': length')
    no_leaks(E, st, [r])
def one(c): return (Store(K(BV64, bv(0, 8)), bv(0), c), bv(1))
def fits(st, pieces):
    t = bv(0)
    for _, n in pieces:
        st.assume(ULE(n, PMAX)); st.assume(ULE(t, S(PMAX - n))); t = S(t + n)

def su_cat(k):
    def f(E, st):
        r = result_string(E, st)
        bs = [Buf(E, st, 's%d' % j) for j in range(k)]
        pc = [(b.a, b.n) for b in bs]; fits(st, pc)
        return [r] + [x for b in bs for x in (b.p, b.n)], (r, pc)
    return f
def po_cat(E, st, ret, c): concat(E, st, c[0], c[1], 'concatenation of the arguments in order')
for k in range(6): P('cat(%d views)' % k, 'r_cat%d' % k, su_cat(k), po_cat)
def su_chars(E, st):
    r = result_string(E, st); a, c = BitVecs('a c', 8); s = Buf(E, st, 's')
    pc = [one(a), (s.a, s.n), one(c)]; fits(st, pc)
    return [r, a, s.p, s.n, c], (r, pc)
P('cat(char, view, char)', 'r_cat_chars', su_chars, po_cat)
def su_str(E, st):
    r = result_string(E, st); s = strings.new_string(E, st, 's'); t = CStr(E, st, 't')
    pc = [(s.arr, s.len), (t.a, t.n)]; fits(st, pc)
    return [r, s.p, t.p], (r, pc)
P('cat(string, C string)', 'r_cat_str', su_str, po_cat)
for nm, ty, sort in (('int', 'int', BitVecSort(32)), ('unsigned', 'unsigned_int', BitVecSort(32)), ('long', 'long', BV64), ('ulong', 'unsigned_long', BV64),
                     ('longlong', 'long_long', BV64), ('ulonglong', 'unsigned_long_long', BV64), ('float', 'float', Float32()), ('double', 'double', Float64())):
    def su_num(E, st, ty=ty, sort=sort):
        r = result_string(E, st); s = Buf(E, st, 's'); a = Const('a', sort)
        D, L = strings.dec_text(sort, ty)
        st.assume(ULE(L(a), 1000))
        pc = [(D(a), L(a)), (s.a, s.n)]; fits(st, pc)
        return [r, a, s.p, s.n], (r, pc)
    P('cat(%s, view)' % ty.replace('_', ' '), 'r_cat_' + nm, su_num, po_cat)

# repeat
def su_rep(E, st):
    r = result_string(E, st); s = Buf(E, st, 's'); k = E.fresh(st, 'n', BV64)
    x = Expected(E, st)
    x.step(k, lambda i: s.n, lambda i, c, v: v == s[c])
    induct(E, st, 'length of i repetitions', bv(0), k, lambda i: x.LEN(i) == i * s.n, at=k)
    return [r, s.p, s.n, k], (r, s, k, x)
def po_rep(E, st, ret, c):
    r, s, k, x = c
    x.check(E, st, string_at(E, st, r), x.LEN(k), 'the n-fold repetition')
    no_leaks(E, st, [r])
P('repeat', 'r_repeat', su_rep, po_rep, templates=[builder], light=True)

# hex_string
def hexd(n): return If(ULE(n, 9), n + 48, n + 87)
def hexchar(v, c, w):
    """digit c (counted from the most significant) of the w-byte value v"""
    e = None
    for j in range(2 * w):
        hi = 8 * w - 4 * j
        d = hexd(ZeroExt(4, Extract(hi - 1, hi - 4, v)))
        e = d if e is None else If(c == j, d, e)
    return e
for nm, w in (('u8', 1), ('i8', 1), ('c', 1), ('u16', 2), ('i16', 2), ('u32', 4), ('i32', 4), ('u64', 8), ('i64', 8)):
    def su_hex(E, st, w=w):
        r = result_string(E, st); v = BitVec('v', 8 * w); return [r, v], (r, v, w)
    def po_hex(E, st, ret, c):
        r, v, w = c; o = string_at(E, st, r)
        E.oblige(st, o.len == 2 * w, 'post', 'two digits per byte')
        for j in range(2 * w):
            E.oblige(st, Select(o.arr, bv(j)) == hexd(ZeroExt(4, Extract(8 * w - 4 * j - 1, 8 * w - 4 * j - 4, v))), 'post', 'digit %d' % j)
        no_leaks(E, st, [r])
    P('hex_string(%s)' % nm, 'r_hex_' + nm, su_hex, po_hex, W=64)
# ranges: checked against the contract of hex_string(value), which the proofs above establish
def HEX(w): return z3.Function('HEX%d' % w, BitVecSort(8 * w), BYTES)
def c_hex(E, st, a, i, where):
    w = a[1].size() // 8
    strings.make(E, st, a[0], HEX(w)(a[1]), bv(2 * w))
    yield ('ret', st, None)
HC = [(r'.* gul14::hex_string<[^()]*, true>\((unsigned |signed )?(char|short|int|long)\)', c_hex)]
def rng(w, fixed=None):
    def f(E, st):
        r = result_string(E, st)
        b = Buf(E, st, 'v', width=8 * w, length=bv(fixed) if fixed else None); s = Buf(E, st, 'sep')
        x = Expected(E, st)
        m = s.n; H = HEX(w)
        x.step(b.n, lambda i: If(i == 0, bv(2 * w), m + 2 * w),
               lambda i, c, v: If(i == 0, v == Select(H(b[i]), c), If(ULT(c, m), v == s[c], v == Select(H(b[i]), S(c - m)))))
        st.assume(ULE(m, S(PMAX - 2 * w)))
        if not fixed:
            induct(E, st, 'length of i elements', bv(1), b.n, lambda i: x.LEN(i) == i * m + 2 * w * i - m, at=b.n)
        return ([r, b.p] if fixed else [r, b.p, b.n]) + [s.p, s.n], (r, b, x)
    return f
def po_rng(E, st, ret, c):
    r, b, x = c
    x.check(E, st, string_at(E, st, r), x.LEN(b.n), 'the elements in hex, separated')
    no_leaks(E, st, [r])
for nm, w in (('u8', 1), ('i8', 1), ('c', 1), ('u16', 2), ('i16', 2), ('u32', 4), ('i32', 4), ('u64', 8), ('i64', 8)):
    P('hex_string(range of %s, separator)' % nm, 'r_hexr_' + nm, rng(w), po_rng, templates=[builder], light=True, contracts=HC)
P('hex_string(uint16_t[3], separator)', 'r_hexa', rng(2, 3), po_rng, templates=[builder], light=True, contracts=HC)

def su_safe(nul):
    def f(E, st):
        r = result_string(E, st); n = E.fresh(st, 'n', BV64)
        if nul == 1: return [r, Ptr(None, bv(0)), n], (r, None, None)
        if nul == 2:
            t = CStr(E, st, 't'); return [r, t.p, n], (r, t, n)
        s = Buf(E, st, 's'); return [r, s.p, s.n], (r, s, s.n)
    return f
def po_safe(E, st, ret, c):
    r, s, n = c; o = string_at(E, st, r)
    if s is None: E.oblige(st, o.len == 0, 'post', 'a null pointer gives an empty string'); return
    E.oblige(st, And(ULE(o.len, n), ULE(o.len, s.n), forall('k', 0, o.len, lambda k: And(s[k] != 0, Select(o.arr, k) == s[k])), Or(o.len == n, s[o.len] == 0)), 'post',
             'the characters up to the first NUL or the given length')
    no_leaks(E, st, [r])
P('safe_string', 'r_safe', su_safe(0), po_safe)
P('safe_string(null)', 'r_safe', su_safe(1), po_safe)
P('safe_string(C string, any length)', 'r_safe', su_safe(2), po_safe)
