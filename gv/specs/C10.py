"""C10: to_number for floating-point types: exact grammar; the value is digits * 10^exponent computed in three roundings."""
from ..spec import *
ASSUME = ['the text has at most 2^62 characters',
          'floating-point +, *, /, conversions are functions of their arguments (IEEE rounding is not modelled)',
          'string_view::find and find_first_of return the first qualifying position (proved in C01)']
BOUNDED = ['detail::pow10: compared natively with strtold for every exponent in [-6000, 6000] and the int extremes, relative error below 2^-58']
TRUST = []
SVW = r'(gul14::)?basic_string_view<.*>'
D = r'.*gul14::detail::'
KEEP = (r'^gul14::basic_string_view<.*>::find', r'gul14::detail::')
TY = {'f': ('float', Float32(), 4), 'd': ('double', Float64(), 8), 'l': ('long double', FPSort(15, 64), 16)}
def isdig(c): return And(UGE(c, 48), ULE(c, 57))
def dig(c): return If(isdig(c), BV2Int(c) - 48, IntVal(0))

def build(E, st, fn, args):
    for o in E.call_function(st, fn, args):
        yield o
def cell(st, out):
    c = st.mem[out].cells.get(0)
    return None if c is None else c[1]
def outobj(E, st, size): return E.new_obj(st, 'out', size, 'ext')

# ---- to_number<T>: sign
def c_uf(t):
    def h(E, st, a, i, where):
        s, H, V = E.tn
        neg = And(s.n != 0, s[bv(0)] == 45); o = S(If(neg, bv(1), bv(0)))
        E.oblige(st, BoolVal(isinstance(a[1], Ptr) and a[1].obj == s.obj), 'call', 'the text without the sign is converted')
        E.oblige(st, And(a[1].off == o, a[2] == s.n - o), 'call', 'the text without the sign is converted')
        yield from build(E, st, '_Z4mk_%sb%s' % (t, {'f': 'f', 'd': 'd', 'l': 'e'}[t]), [a[0], H, V])
    return h
def su_tn(t):
    def f(E, st):
        s = Buf(E, st, 's'); out = outobj(E, st, TY[t][2])
        H, V = E.fresh(st, 'H', BoolSort()), E.fresh(st, 'V', TY[t][1]); E.tn = (s, H, V)
        return [s.p, s.n, Ptr(out, bv(0))], (s, out, H, V)
    return f
def po_tn(E, st, r, c):
    s, out, H, V = c
    E.oblige(st, r == And(s.n != 0, H), 'post', 'a value exactly if the text is not empty and the unsigned part is a number')
    v = cell(st, out)
    if v is not None: E.oblige(st, Implies(r, v == If(s[bv(0)] == 45, fpNeg(V), V)), 'post', 'a leading minus negates')
    elif z3.is_true(S(r)): E.oblige(st, BoolVal(False), 'post', 'no value')

# ---- parse_inf_nan
def lit(s, at, text): return And(*[lower(s[bv(at + i)]) == ord(ch) for i, ch in enumerate(text)])
def isspec(c): return Or(isdig(c), And(UGE(c, 97), ULE(c, 122)), And(UGE(c, 65), ULE(c, 90)), c == 95)
def su_pin(t):
    def f(E, st):
        s = Buf(E, st, 's'); out = outobj(E, st, TY[t][2])
        return [s.p, s.n, Ptr(out, bv(0))], (s, out, TY[t][1])
    return f
def po_pin(E, st, r, c):
    s, out, so = c; n = s.n
    inf3, nan3 = And(UGE(n, 3), lit(s, 0, 'inf')), And(UGE(n, 3), lit(s, 0, 'nan'))
    inf = Or(And(n == 3, inf3), And(n == 8, inf3, lit(s, 3, 'inity')))
    nan = Or(And(n == 3, nan3), And(UGE(n, 5), nan3, s[bv(3)] == 40, s[S(n - 1)] == 41, forall('k', bv(4), S(n - 1), lambda k: isspec(s[k]))))
    E.oblige(st, (r == 0) == And(n != 0, Not(inf3), Not(nan3)), 'post', 'ordinary numbers are left to the caller')
    E.oblige(st, Implies(r == 2, Or(inf, nan)), 'post', 'a value only for infinity and NaN forms')
    E.oblige(st, Implies(r == 1, And(Not(inf), Not(nan))), 'post', 'an error only for malformed forms')
    E.oblige(st, And(r >= 0, r <= 2), 'post', 'one of three answers')
    v = cell(st, out)
    if v is not None: E.oblige(st, Implies(r == 2, If(inf3, v == fpPlusInfinity(so), fpIsNaN(v))), 'post', 'infinity or NaN')

# ---- parse_exponent
def VALOF(E, st, s, o, name='VAL'):
    VAL = z3.Function(fresh_name(name), BV64, IntSort())
    st.assume(VAL(o) == 0)
    i = BitVec(fresh_name('i'), 64); q = fresh_name('valdef')
    st.assume(ForAll([i], Implies(And(ULE(o, i), ULT(i, s.n)), VAL(S(i + 1)) == 10 * VAL(i) + dig(s[i])), qid=q))
    induct(E, st, 'decimal value is non-negative', o, s.n, lambda k: VAL(k) >= 0)
    return VAL
def su_exp(E, st):
    s = Buf(E, st, 's'); st.assume(s.n != 0); out = outobj(E, st, 4)
    o = S(If(Or(s[bv(0)] == 43, s[bv(0)] == 45), bv(1), bv(0)))
    V = VALOF(E, st, s, o)
    induct(E, st, 'decimal value is monotone', o, s.n, lambda k: forall('j', o, S(k + 1), lambda j: V(j) <= V(k)))
    E.vals = [(V, bv(0))]
    return [s.p, s.n, Ptr(out, bv(0))], (s, out, o, V)
def val_template(E, st0, names, entry, cls, mcls):
    out = []
    def num(v): return v.off if isinstance(v, Ptr) else v
    def bvs(v): return z3.is_expr(v) and z3.is_bv(v)
    src = [(n, lambda w, n=n: w.v(n)) for n in names if bvs(entry[n]) and cls[n][0] == 'gen']
    for k, c in mcls.items():
        if k[0] == 'cell' and c[0] == 'gen' and bvs(st0.mem[k[1]].cells[k[2]][1]): src.append((str(k), lambda w, k=k: w.st.mem[k[1]].cells[k[2]][1]))
    idx = [('it', lambda w: w.it), ('it+1', lambda w: S(w.it + 1))]
    for n in names:
        v = num(entry[n])
        if bvs(v) and v.size() == 64 and cls[n][0] != 'gen': idx.append((n, lambda w, n=n: num(w.v(n))))
    for sn, sf in src:
        for V, _ in E.vals:
            for xn, xf in idx: out.append(('%s=%s(%s)' % (sn, V.name(), xn), lambda w, sf=sf, xf=xf, V=V: BV2Int(sf(w)) == V(xf(w))))
        for P, offs in getattr(E, 'pows', []):
            for o in offs: out.append(('%s=P10(%s+it)' % (sn, o), lambda w, sf=sf, P=P, o=o: BV2Int(sf(w)) == P(S(o + w.it))))
    return out
def exp_ok(s, o, V): return And(UGT(s.n, o), forall('d', o, s.n, lambda i: isdig(s[i])), V(s.n) <= (1 << 31) - 1)
def po_exp(E, st, r, c):
    s, out, o, V = c
    alld = forall('d', o, s.n, lambda i: isdig(s[i]))
    E.oblige(st, Implies(r, And(UGT(s.n, o), alld, V(s.n) <= (1 << 31) - 1)), 'post', 'a value only for an optional sign and digits')
    E.oblige(st, Implies(Not(r), Or(ULE(s.n, o), Not(alld), V(s.n) > (1 << 31) - 1)), 'post', 'nothing only for a malformed or too large exponent')
    v = cell(st, out)
    if v is not None:
        vi = If(v < 0, BV2Int(v) - (1 << 32), BV2Int(v))
        E.oblige(st, Implies(r, vi == If(s[bv(0)] == 45, -V(s.n), V(s.n))), 'post', 'the exponent is the signed decimal value')

# ---- to_normalized_float
def su_norm(t):
    def f(E, st):
        a, b = Buf(E, st, 'a'), Buf(E, st, 'b'); out = outobj(E, st, TY[t][2])
        st.assume(UGT(a.n, 0))
        k1 = E.fresh(st, 'k1', BV64); k2 = E.fresh(st, 'k2', BV64)
        st.assume(And(k1 == If(ULE(a.n, 19), a.n, bv(19)), k2 == If(ULE(b.n, 19 - k1), b.n, 19 - k1)))
        VA, VB = VALOF(E, st, a, bv(0), 'VA'), VALOF(E, st, b, bv(0), 'VB')
        P = powers(E, st); T = z3.Function(fresh_name('T'), BV64, IntSort())
        induct(E, st, 'VA < 10^k', bv(0), k1, lambda k: VA(k) + 1 <= P(k))
        induct(E, st, 'VB < 10^k', bv(0), k2, lambda k: VB(k) + 1 <= P(k))
        i = BitVec(fresh_name('i'), 64); q = fresh_name('t')
        st.assume(T(bv(0)) == VA(k1))
        st.assume(ForAll([i], Implies(ULT(i, k2), T(S(i + 1)) == 10 * T(i)), qid=q))
        induct(E, st, 'bound of the product', bv(0), k2, lambda k: And(T(k) >= 0, T(k) + P(k) <= P(S(k1 + k))))
        induct(E, st, 'the product', bv(0), k2, lambda k: VA(k1) * P(k) == T(k), at=k2)
        st.assume(And(ULE(k1, 19), ULE(k2, 19), ULE(k1 + k2, 19)))
        A = E.fresh(st, 'A', BV64); M = E.fresh(st, 'M', BV64)
        st.assume(And(BV2Int(A) == T(k2) + VB(k2), BV2Int(M) == P(S(k1 + k2 - 1))))
        E.texts = [(a, VA), (b, VB)]; E.pows = [(P, [bv(0), k2])]
        so = TY[t][1]; bits = so.ebits() + so.sbits()
        U = z3.Function('uitofp_64_%d' % bits, BV64, so); DV = z3.Function('fdiv_%d' % bits, so, so, so)
        return [a.p, a.n, b.p, b.n, Ptr(out, bv(0))], (a, b, out, DV(U(A), U(M)), A, M)
    return f
def po_norm(E, st, r, c):
    a, b, out, V, A, M = c
    da, db = forall('k', 0, a.n, lambda k: isdig(a[k])), forall('k', 0, b.n, lambda k: isdig(b[k]))
    E.oblige(st, Implies(r, da), 'post', 'only digits before the point'); E.oblige(st, Implies(r, db), 'post', 'only digits after the point')
    E.oblige(st, Implies(Not(r), Or(Not(da), Not(db))), 'post', 'nothing only for a non-digit')
    v = cell(st, out)
    if v is not None:
        if z3.is_app(v) and v.num_args() == 2 and v.decl().name().startswith('fdiv') and v.arg(0).num_args() == 1 and v.arg(1).num_args() == 1 \
           and v.arg(0).decl().eq(V.arg(0).decl()) and v.arg(1).decl().eq(V.arg(1).decl()):
            E.oblige(st, Implies(r, v.arg(0).arg(0) == A), 'post', 'numerator: the first 19 digits', assume=True)
            E.oblige(st, Implies(r, v.arg(1).arg(0) == M), 'post', 'denominator: the power of ten', assume=True)
        E.oblige(st, Implies(r, v == V), 'post', 'digits / power of ten')

# ---- to_unsigned_integer with magnitude, for up to 19 digits
def powers(E, st):
    P = z3.Function(fresh_name('P10'), BV64, IntSort())
    i = BitVec(fresh_name('i'), 64); q = fresh_name('p10')
    st.assume(And(P(bv(0)) == 1, P(bv(19)) == 10 ** 19))
    st.assume(ForAll([i], Implies(ULT(i, 19), And(P(S(i + 1)) == 10 * P(i), P(i) >= 1, P(i) <= 10 ** 18)), qid=q))
    return P
def su_ui(E, st):
    s = Buf(E, st, 's'); out = outobj(E, st, 8); mag = E.new_obj(st, 'mag', 8, 'ext')
    e = E.fresh(st, 'e', BV64); m0 = E.fresh(st, 'm0', BV64)
    P = powers(E, st)
    st.assume(And(ULE(s.n, 19), ULE(e, 19 - s.n), BV2Int(m0) == P(e))); st.mem[mag].cells[0] = (8, m0)
    V = VALOF(E, st, s, bv(0))
    induct(E, st, 'value < 10^k', bv(0), s.n, lambda k: V(k) + 1 <= P(k))
    E.vals = [(V, 0)]; E.pows = [(P, [e])]
    return [s.p, s.n, Ptr(mag, bv(0)), Ptr(out, bv(0))], (s, out, mag, V, P, e)
def po_ui(E, st, r, c):
    s, out, mag, V, P, e = c
    alld = forall('d', 0, s.n, lambda i: isdig(s[i]))
    E.oblige(st, Implies(r, And(s.n != 0, alld)), 'post', 'a value only for digits')
    E.oblige(st, Implies(Not(r), Or(s.n == 0, Not(alld))), 'post', 'nothing only for a non-digit')
    E.oblige(st, Implies(r, BV2Int(cell(st, mag)) == P(S(e + s.n))), 'post', 'the power of ten')
    v = cell(st, out)
    if v is not None: E.oblige(st, Implies(r, BV2Int(v) == V(s.n)), 'post', 'the decimal value')
def c_ui(E, st, a, i, where):
    sret, p, n, mag = a
    b, V = [(b, V) for b, V in E.texts if b.obj == p.obj][0]
    P, offs = E.pows[0]
    m = E.load(st, mag, Ty('int', 64), where)
    e = [o for o in offs if E.valid_now(st, BV2Int(m) == P(o))]
    if not e: raise Unsupported('magnitude')
    e = e[0]
    E.oblige(st, And(p.off == 0, ULE(n, 19), ULE(e, 19 - n), ULE(n, b.n)), 'pre', 'at most 19 digits')
    H = E.fresh(st, 'H', BoolSort()); v = E.fresh(st, 'v', BV64); m2 = E.fresh(st, 'm', BV64)
    st.assume(Implies(H, And(n != 0, forall('d', 0, n, lambda i: isdig(b[i])), BV2Int(v) == V(n), BV2Int(m2) == P(S(e + n)))))
    st.assume(Implies(Not(H), Or(n == 0, Not(forall('d', 0, n, lambda i: isdig(b[i]))))))
    E.store(st, mag, m2, Ty('int', 64), where)
    yield from build(E, st, '_Z4mk_ubm', [sret, H, v])

# ---- to_unsigned_float
def c_pin(t):
    def h(E, st, a, i, where):
        x = E.uf
        E.oblige(st, And(BoolVal(a[1].obj == x.s.obj), a[1].off == 0, a[2] == x.s.n), 'call', 'the whole text is checked for infinity and NaN')
        yield from build(E, st, '_Z5pin_%sbb%s' % (t, {'f': 'f', 'd': 'd', 'l': 'e'}[t]), [a[0], x.special, x.SH, x.SV])
    return h
def c_first(which):
    def h(E, st, a, i, where):
        x = E.uf; t = a[0]
        tp = E.load(st, t, Ty('ptr'), where); tn = E.load(st, Ptr(t.obj, S(t.off + 8)), Ty('int', 64), where)
        if which == 'e':
            cs = sorted(S(E.load(st, Ptr(a[1].obj, S(a[1].off + k)), Ty('int', 8), where)).as_long() for k in range(3)) if len(a) == 3 else sorted([S(E.load(st, Ptr(a[1].obj, S(a[1].off + k)), Ty('int', 8), where)).as_long() for k in range(2)] + [0])
            if cs != [0, 69, 101]: raise Unsupported('search for other characters')
            pos = a[-1]; res = If(x.ep == x.s.n, NPOS, x.ep); want = x.s.n
        else:
            if S(a[1]).as_long() != 46: raise Unsupported('search for another character')
            pos = a[2]; res = If(x.pp == x.ep, NPOS, x.pp); want = x.ep
        if not (tp.obj == x.s.obj and E.valid_now(st, And(tp.off == 0, tn == want, pos == 0))): raise Unsupported('search in another text')
        yield ('ret', st, S(res))
    return h
def c_exp(E, st, a, i, where):
    x = E.uf
    E.oblige(st, UGT(a[2], 0), 'pre', 'parse_exponent needs a nonempty text')
    E.oblige(st, And(BoolVal(a[1].obj == x.s.obj), a[1].off == x.ep + 1, a[2] == x.s.n - x.ep - 1), 'call', 'the exponent is the text after e')
    yield from build(E, st, '_Z4mk_ibi', [a[0], x.EH, x.EV])
def c_norm(t):
    def h(E, st, a, i, where):
        x = E.uf
        E.oblige(st, And(BoolVal(a[1].obj == x.s.obj), Or(a[4] == 0, BoolVal(a[3].obj == x.s.obj))), 'call', 'the digits of the text are converted')
        E.oblige(st, And(UGT(a[2], 0), Implies(x.big, And(a[1].off == x.z1, a[2] == x.ip - x.z1, a[4] == x.ep - x.fp, Or(a[4] == 0, a[3].off == x.fp)))),
                 'call', 'numbers of one or more: the digits from the first nonzero one')
        E.oblige(st, Implies(Not(x.big), And(a[1].off == x.z2, a[2] == 1, a[4] == x.ep - x.z2 - 1, Or(a[4] == 0, a[3].off == x.z2 + 1))),
                 'call', 'numbers below one: the digits from the first nonzero one')
        yield from build(E, st, '_Z4mk_%sb%s' % (t, {'d': 'd', 'l': 'e'}[t]), [a[0], x.NH, x.NV[t]])
    return h
POW = z3.Function('POW10', BitVecSort(32), FPSort(15, 64))
def c_pow(E, st, a, i, where): yield ('ret', st, POW(a[0]))
def su_uf(t):
    def f(E, st):
        class X: pass
        x = X(); E.uf = x; s = x.s = Buf(E, st, 's', maxlen=bv(1 << 62)); out = outobj(E, st, TY[t][2])
        B = lambda n: E.fresh(st, n, BoolSort()); N = lambda n: E.fresh(st, n, BV64)
        x.special, x.SH, x.SV = B('special'), B('SH'), E.fresh(st, 'SV', TY[t][1])
        st.assume(Implies(s.n == 0, x.special))
        x.EH, x.EV, x.NH = B('EH'), E.fresh(st, 'EV', BitVecSort(32)), B('NH')
        st.assume(x.EV != BitVecVal(1 << 31, 32))
        x.NV = {'d': E.fresh(st, 'NV', Float64()), 'l': E.fresh(st, 'NVl', FPSort(15, 64))}
        x.ep, x.pp, x.z1, x.z2 = N('ep'), N('pp'), N('z1'), N('z2')
        ise = lambda c: Or(c == 69, c == 101)
        st.assume(And(ULE(x.ep, s.n), Or(x.ep == s.n, ise(s[x.ep])), forall('k', 0, x.ep, lambda k: Not(ise(s[k])))))
        st.assume(And(ULE(x.pp, x.ep), Or(x.pp == x.ep, s[x.pp] == 46), forall('k', 0, x.pp, lambda k: s[k] != 46)))
        x.ip = x.pp; x.fp = S(If(x.pp == x.ep, x.pp, x.pp + 1))
        st.assume(And(ULE(x.z1, x.ip), forall('k', 0, x.z1, lambda k: s[k] == 48), Or(x.z1 == x.ip, s[x.z1] != 48)))
        st.assume(And(ULE(x.fp, x.z2), ULE(x.z2, x.ep), forall('k', x.fp, x.z2, lambda k: s[k] == 48), Or(x.z2 == x.ep, s[x.z2] != 48)))
        x.big = x.z1 != x.ip
        return [s.p, s.n, Ptr(out, bv(0))], (x, out, t)
    return f
def uf_template(E, st0, names, entry, cls, mcls):
    x = E.uf; out = []
    out.append(('it<=z1', lambda w: ULE(w.it, x.z1))); out.append(('it<=z2-fp', lambda w: ULE(w.it, x.z2 - x.fp)))
    return out
def po_uf(E, st, r, c):
    x, out, t = c; s = x.s
    hasexp = x.ep != s.n
    empty = And(x.ip == 0, x.fp == x.ep)
    zero = And(Not(x.big), x.z2 == x.ep)
    ok = If(x.special, x.SH, And(Implies(hasexp, And(x.ep + 1 != s.n, x.EH)), Not(empty), Or(zero, x.NH)))
    E.oblige(st, r == ok, 'post', 'a value exactly for well-formed text')
    v = cell(st, out)
    if v is None:
        if z3.is_true(S(r)): E.oblige(st, BoolVal(False), 'post', 'no value')
        return
    EV = If(hasexp, SignExt(32, x.EV), bv(0))
    ex = S(EV + If(x.big, x.ip - x.z1 - 1, -(x.z2 - x.fp + 1)))
    MX = bv((1 << 31) - 1)
    so = TY[t][1]; ld = FPSort(15, 64)
    zv = FPVal(0.0, so)
    E.oblige(st, Implies(And(r, x.special), v == x.SV), 'post', 'infinity or NaN is passed on')
    E.oblige(st, Implies(And(r, Not(x.special), zero), v == zv), 'post', 'zero digits give zero')
    # the value: T(pow10(e) * norm)
    s2 = st.fork(); s2.assume(And(r, Not(x.special), Not(zero)))
    if E.valid_now(s2, BoolVal(False)): return
    e32 = E.fresh(s2, 'e', BitVecSort(32))
    s2.assume(SignExt(32, e32) == If(ex > MX, MX, If(ex < -MX, -MX, ex)))
    nv = x.NV['l'] if t == 'l' else E.cast(s2, 'fpext', x.NV['d'], Ty('fp', 'double'), Ty('fp', 'x86_fp80'))
    mul = lambda p, q: E.fpop('fmul', p, q)
    cands = [mul(POW(e32), nv), mul(nv, POW(e32))]
    if t != 'l': cands = [E.cast(s2, 'fptrunc', q, Ty('fp', 'x86_fp80'), Ty('fp', TY[t][0])) for q in cands]
    # the exponent handed to pow10
    for p in pows(v):
        E.oblige(s2, p == e32, 'post', 'the exponent counts the digits before or the zeros after the point', assume=True)
    E.oblige(s2, Or(*[v == q for q in cands]), 'post', 'the value is 10^exponent times the normalised digits')
def pows(t):
    out = []; st = [t]; seen = set()
    while st:
        u = st.pop()
        if u.get_id() in seen: continue
        seen.add(u.get_id())
        if z3.is_app(u):
            if u.decl().eq(POW): out.append(u.arg(0))
            st += u.children()
    return out

PROOFS = []
for t in 'fdl':
    nm = TY[t][0]
    PROOFS.append(Proof('to_number<%s>' % nm, 'r_tf_' + t, 'float.cc', su_tn(t), po_tn, keep=KEEP, contracts=[(D + r'to_unsigned_float<.*', c_uf(t))], min_outcomes=2))
    PROOFS.append(Proof('parse_inf_nan<%s>' % nm, 'r_inf_' + t, 'float.cc', su_pin(t), po_pin, keep=KEEP, min_outcomes=4))
    PROOFS.append(Proof('to_unsigned_float<%s>' % nm, 'r_uf_' + t, 'float.cc', su_uf(t), po_uf, keep=KEEP, templates=[uf_template], min_outcomes=4, slow=2.5,
        contracts=[(D + r'parse_inf_nan<.*', c_pin(t)), (r'gul14::basic_string_view<.*>::find_first_of\(.*', c_first('e')), (r'gul14::basic_string_view<.*>::find\(char, .*', c_first('.')),
                   (D + r'parse_exponent\(.*', c_exp), (D + r'to_normalized_float<.*', c_norm('l' if t == 'l' else 'd')), (D + r'pow10\(int\)', c_pow)]))
for t in 'dl':
    PROOFS.append(Proof('to_normalized_float<%s>' % TY[t][0], 'r_norm_' + t, 'float.cc', su_norm(t), po_norm, keep=KEEP, contracts=[(D + r'to_unsigned_integer<unsigned long, true>.*', c_ui)], W=0, NL=True, min_outcomes=2))
PROOFS.append(Proof('to_unsigned_integer<uint64_t, true>', 'r_ui', 'float.cc', su_ui, po_ui, keep=KEEP, templates=[val_template], W=0, min_outcomes=2))
PROOFS.append(Proof('parse_exponent', 'r_exp', 'float.cc', su_exp, po_exp, keep=KEEP, templates=[val_template], W=0, min_outcomes=3))
