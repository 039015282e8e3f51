"""C13: numeric comparison helpers."""
from ..spec import *
ASSUME = ['within_orders: std::pow is an uninterpreted function; integer-to-double conversion and division are uninterpreted in the within_orders proofs',
          'preconditions: |a|, |b| (within_orders, abs) and |tol| (within_abs) are representable in the argument type; lo <= hi (clamp)']
PROOFS = []
def P(n, r, su, po, **kw): PROOFS.append(Proof(n, r, 'num.cc', su, po, **kw))
TY = [(sg, w) for sg in (1, 0) for w in (8, 16, 32, 64)]
def low(x, w): return x if x.size() == w else Extract(w - 1, 0, x)
def xt(v, sg, n): return (SignExt if sg else ZeroExt)(n - v.size(), v)
def mn(v): return v == BitVecVal(1 << (v.size() - 1), v.size())

for sg, w in TY:
    T = '%sint%d_t' % ('' if sg else 'u', w); N = '%s%d' % ('i' if sg else 'u', w)
    def su_abs(E, st, w=w, sg=sg):
        a = BitVec('a', w)
        if sg: st.assume(Not(mn(a)))
        return [a], a
    P('abs<%s>' % T, 'r_abs_' + N, su_abs, lambda E, st, r, a, w=w, sg=sg: E.oblige(st, low(r, w) == (If(a < 0, -a, a) if sg else a), 'post', 'absolute value'), W=64)
    def su_w(E, st, w=w, sg=sg):
        a, b, t = BitVecs('a b t', w)
        if sg: st.assume(Not(mn(t)))
        return [a, b, t], (a, b, t)
    def po_w(E, st, r, c, w=w, sg=sg):
        n = w + 2
        a, b, t = [xt(v, sg, n) for v in c]
        ab = lambda x: If(x < 0, -x, x)
        E.oblige(st, r == (ab(a - b) <= (ab(t) if sg else t)), 'post', 'true exactly when the exact difference does not exceed |tol|')
    P('within_abs<%s>' % T, 'r_wabs_' + N, su_w, po_w, W=128)
    def su_c(E, st, w=w, sg=sg):
        vs = []
        for nm in ('v', 'lo', 'hi'):
            o = E.new_obj(st, nm, w // 8, 'ext'); x = BitVec(nm, w); st.mem[o].cells[0] = (w // 8, x); vs.append((Ptr(o, bv(0)), x))
        return [p for p, _ in vs], vs
    def po_c(rev):
        def f(E, st, r, vs, sg=sg):
            lt = lambda a, b: ((a < b) if sg else ULT(a, b)) if not rev else ((b < a) if sg else ULT(b, a))
            (pv, v), (pl, lo), (ph, hi) = vs
            st.assume(Not(lt(hi, lo)))
            want = {pv.obj: And(Not(lt(v, lo)), Not(lt(hi, v))), pl.obj: lt(v, lo), ph.obj: lt(hi, v)}
            E.oblige(st, want[r.obj], 'post', 'lo if v<lo, hi if hi<v, v otherwise')
        return f
    P('clamp<%s>' % T, 'r_clamp_' + N, su_c, po_c(False), W=64, min_outcomes=3)
    P('clamp<%s>(comp)' % T, 'r_clampc_' + N, su_c, po_c(True), W=64, min_outcomes=3)

FS = {'f': Float32(), 'd': Float64()}
for N, s in FS.items():
    T = 'float' if N == 'f' else 'double'
    def su_c(E, st, s=s):
        vs = []
        for nm in ('v', 'lo', 'hi'):
            n = 4 if s == Float32() else 8
            o = E.new_obj(st, nm, n, 'ext'); x = Const(nm, s); st.mem[o].cells[0] = (n, x); vs.append((Ptr(o, bv(0)), x))
        return [p for p, _ in vs], vs
    def po_c(rev):
        def f(E, st, r, vs):
            lt = (lambda a, b: fpLT(b, a)) if rev else fpLT
            (pv, v), (pl, lo), (ph, hi) = vs
            st.assume(Not(lt(hi, lo)))
            if True: st.assume(And(Not(fpIsNaN(lo)), Not(fpIsNaN(hi))))
            want = {pv.obj: And(Not(lt(v, lo)), Not(lt(hi, v))), pl.obj: lt(v, lo), ph.obj: lt(hi, v)}
            E.oblige(st, want[r.obj], 'post', 'lo if v<lo, hi if hi<v, v otherwise (NaN is returned unchanged)')
        return f
    P('clamp<%s>' % T, 'r_clamp_' + N, su_c, po_c(False), fpexact=True, min_outcomes=3)
    P('clamp<%s>(comp)' % T, 'r_clampc_' + N, su_c, po_c(True), fpexact=True, min_outcomes=3)
    def su_abs(E, st, s=s): a = Const('a', s); return [a], a
    P('abs<%s>' % T, 'r_abs_' + N, su_abs, lambda E, st, r, a: E.oblige(st, r == fpAbs(a), 'post', 'absolute value'), fpexact=True)
    def su3(E, st, s=s):
        a, b, t = Const('a', s), Const('b', s), Const('t', s); return [a, b, t], (a, b, t)
    def po_wa(E, st, r, c):
        a, b, t = c
        fin = lambda x: Not(Or(fpIsNaN(x), fpIsInf(x)))
        nan = Or(*[fpIsNaN(x) for x in c])
        E.oblige(st, Implies(nan, Not(r)), 'post', 'false if any argument is NaN')
        E.oblige(st, Implies(And(fin(a), fin(b), fpIsInf(t)), r), 'post', 'an infinite tolerance admits all finite numbers')
        E.oblige(st, Implies(And(fpEQ(a, b), fin(t)), r), 'post', 'equal numbers are within every finite tolerance')
        small = lambda x: fpLEQ(fpAbs(x), FPVal(1e38, a.sort()))
        E.oblige(st, Implies(And(fpIsInf(a) != fpIsInf(b), Or(small(a), small(b)), small(t)), Not(r)), 'post', 'an infinity is not within a finite tolerance of a finite number (magnitudes up to 1e38, so that the difference cannot overflow)')
        E.oblige(st, Implies(And(fpIsInf(a), fpIsInf(b), Not(fpEQ(a, b)), fin(t)), Not(r)), 'post', 'opposite infinities are not within a finite tolerance')
        sub = lambda x: fpSub(RNE(), x, fpAbs(t))
        E.oblige(st, Implies(And(fin(a), fin(b), fin(t)), r == If(fpGT(a, b), fpLEQ(sub(a), b), fpLEQ(sub(b), a))), 'post', 'true exactly when the larger number minus |tol|, correctly rounded, does not exceed the smaller')
    P('within_abs<%s>' % T, 'r_wabs_' + N, su3, po_wa, fpexact=True, timeout=60)
    def po_sym(E, st, r, c): E.oblige(st, Or(r == 0, r == 3), 'post', 'symmetric in a and b')
    P('within_abs<%s> symmetric' % T, 'r_wabs2_' + N, su3, po_sym, fpexact=True, timeout=60, W=64)
    def suu(E, st, s=s):
        a, b, u = Const('a', s), Const('b', s), BitVec('u', 32); return [a, b, u], (a, b, u)
    def po_wu(E, st, r, c, s=s):
        a, b, u = c
        nan = Or(fpIsNaN(a), fpIsNaN(b))
        E.oblige(st, Implies(fpEQ(a, b), r), 'post', 'equal numbers are within any number of ULPs')
        E.oblige(st, Implies(nan, Not(r)), 'post', 'NaN is not close to anything')
        E.oblige(st, Implies(And(Or(fpIsInf(a), fpIsInf(b)), Not(fpEQ(a, b))), Not(r)), 'post', 'an infinity is close to itself only')
        fs = lambda x, y: fpSub(RNE(), x, y)
        fm = lambda x, y: fpMul(RNE(), x, y)
        cv = lambda x: fpUnsignedToFP(RNE(), x, s)
        d = fpAbs(fs(a, b)); m = If(fpLT(fpAbs(a), fpAbs(b)), fpAbs(b), fpAbs(a))
        eps = FPVal(2.0 ** -(s.sbits() - 1), s); den = fpBVToFP(BitVecVal(1, s.ebits() + s.sbits()), s)
        x = z3.simplify
        nr = Not(Or(nan, fpIsInf(a), fpIsInf(b)))
        E.oblige(st, Implies(And(nr, Not(fpEQ(a, b)), fpIsNormal(m)), r == fpLEQ(d, fm(fm(eps, cv(u)), m))), 'post', 'normal range: |a-b| <= epsilon * ulp * max(|a|,|b|)')
        E.oblige(st, Implies(And(nr, Not(fpEQ(a, b)), Not(fpIsNormal(m))), r == fpLEQ(d, fm(x(den), cv(u)))), 'post', 'subnormal range: |a-b| <= ulp * denorm_min')
    P('within_ulp<%s>' % T, 'r_wulp_' + N, suu, po_wu, fpexact=True, timeout=60, min_outcomes=3)

# within_orders: std::pow(10, orders) is an arbitrary number; everything else is IEEE arithmetic
def c_pow(E, st, a, i, where):
    m = E.__dict__.setdefault('powmemo', {})
    key = tuple(str(x) for x in a)
    if key not in m: m[key] = Const(fresh_name('pow'), a[0].sort())
    E.powv = m[key]; E.powargs = a
    yield ('ret', st, m[key])
POW = [(r'powf?l?|std::pow\(.*', c_pow)]
D64 = Float64()
def fdiv(x, y):
    s = x.sort(); return z3.Function('fdiv_%d' % (s.ebits() + s.sbits()), s, s, s)(x, y)
def wo_int(sg, w):
    def su(E, st):
        a, b = BitVecs('a b', w); o = BitVec('o', 32)
        if sg: st.assume(And(Not(mn(a)), Not(mn(b))))
        E.powv = Const('pow_unused', D64)
        return [a, b, o], (a, b, o)
    def po(E, st, r, c):
        a, b, o = c
        n = w + 2
        A, B = xt(a, sg, n), xt(b, sg, n)
        ab = lambda x: If(x < 0, -x, x)
        D = ab(A - B)
        E.oblige(st, Implies(a == b, r), 'post', 'equal numbers agree in every digit')
        if len(E.__dict__.get('powmemo', {})) == 1:
            # compare with the specification on the values the code itself compares
            aa, bb = ab(A), ab(B)
            E.oblige(st, Implies(a != b, r == fpLT(fpToFP(RNE(), Extract(w, 0, D), D64) if False else fpUnsignedToFP(RNE(), Extract(w - 1, 0, D), D64),
                     fdiv(fpUnsignedToFP(RNE(), Extract(w - 1, 0, If(aa < bb, bb, aa)), D64), E.powv))), 'post', 'true exactly when |a-b| < max(|a|,|b|) / 10^orders')
    return su, po
for sg, w in TY:
    if w > 32: continue
    su, po = wo_int(sg, w)
    P('within_orders<%sint%d_t>' % ('' if sg else 'u', w), 'r_word_%s%d' % ('i' if sg else 'u', w), su, po, fpexact='nodiv', timeout=100, contracts=POW, W=64)
for N, s in FS.items():
    T = 'float' if N == 'f' else 'double'
    def su(E, st, s=s):
        a, b, o = Const('a', s), Const('b', s), BitVec('o', 32)
        E.powv = Const('pow_unused', D64); return [a, b, o], (a, b, o)
    def po(E, st, r, c, s=s):
        a, b, o = c
        d = fpSub(RNE(), a, b)
        E.oblige(st, Implies(And(fpEQ(a, b), Not(fpIsInf(a))), r), 'post', 'equal numbers agree in every digit')
        E.oblige(st, Implies(Or(fpIsNaN(a), fpIsNaN(b)), Not(r)), 'post', 'NaN agrees with nothing')
        m = If(fpLT(fpAbs(a), fpAbs(b)), fpAbs(b), fpAbs(a))
        P = E.powv
        up = lambda x: x if P.sort() == s else fpFPToFP(RNE(), x, P.sort())
        E.oblige_any(st, [Implies(Not(fpIsZero(d)), r == fpLT(up(dd), fdiv(up(m), P)))
                          for dd in (If(fpGT(a, b), fpSub(RNE(), a, b), fpSub(RNE(), b, a)), fpAbs(d))], 'post', 'true exactly when |a-b| < max(|a|,|b|) / 10^orders')
    P('within_orders<%s>' % T, 'r_word_' + N, su, po, fpexact='nodiv', timeout=100, contracts=POW, W=64)
