"""C21: statistics over ranges: folds over every element in order, extrema, median."""
from ..spec import *
from .. import ir
ASSUME = ['floating-point + - * / and sqrt, and integer to floating-point conversion, are uninterpreted functions (the same ones in code and contract); pow(x, 2) is x * x']
PROOFS = []
D64 = FPSort(11, 53); F32 = FPSort(8, 24)
def fop(nm, s): return z3.Function('%s_%d' % (nm, s.ebits() + s.sbits()), s, s, s)
class Data:
    """n elements; x(i): element i as the result type"""
    def __init__(s, E, st, kind):
        s.kind = kind
        s.n = E.fresh(st, 'n', BV64)
        st.assume(ULE(s.n, bv(1 << 58)))
        if kind == 'r':
            s.obj = E.new_obj(st, 'data', S(16 * s.n), 'ext'); m = st.mem[s.obj]
            s.a = E.fresh(st, 'b', ArraySort(BV64, D64))
            m.segs.append(Seg(0, 16, 8, E.fresh(st, 'a', ArraySort(BV64, D64)), 'fp')); m.segs.append(Seg(8, 16, 8, s.a, 'fp')); m.ghost['count'] = s.n
            s.sort = D64
        else:
            w, sort, k = {'d': (8, D64, 'fp'), 'f': (4, F32, 'fp'), 'i': (4, BitVecSort(32), 'bv'), 'u': (1, BitVecSort(8), 'bv'), 'l': (8, BitVecSort(64), 'bv')}[kind]
            s.obj = E.new_obj(st, 'data', S(w * s.n), 'ext'); m = st.mem[s.obj]
            s.a = E.fresh(st, 'data', ArraySort(BV64, sort)); m.segs.append(Seg(0, w, w, s.a, k)); m.ghost['count'] = s.n
            s.sort = sort
        s.p = Ptr(s.obj, bv(0))
    def raw(s, i): return Select(s.a, i)
    def x(s, i):
        v = s.raw(i)
        if z3.is_fp(v): return v
        return z3.Function('sitofp_%d_64' % v.size(), v.sort(), D64)(v)
class Fold:
    """ACC(0) = 0, ACC(i + 1) = f(ACC(i), i)"""
    def __init__(s, E, st, n, sort, f, name='ACC'):
        s.F = z3.Function(fresh_name(name), BV64, sort)
        i = BitVec(fresh_name('i'), 64); q = fresh_name('acc'); QPAT[q] = {s.F.name()}
        st.assume(s.F(bv(0)) == FPVal(0.0, sort))
        st.assume(ForAll([i], Implies(ULT(i, n), s.F(S(i + 1)) == f(s.F(i), i)), qid=q))
        E.folds = getattr(E, 'folds', []) + [s]
def folding(E, st0, names, entry, cls, mcls):
    out = []
    vs = [(n, lambda w, n=n: w.v(n), entry[n]) for n in names]
    for k, c in mcls.items():
        if k[0] == 'cell' and c[0] != 'const': vs.append((str(k), lambda w, k=k: w.st.mem[k[1]].cells[k[2]][1], st0.mem[k[1]].cells[k[2]][1]))
    for f in getattr(E, 'folds', []):
        for n, g, v0 in vs:
            if z3.is_expr(v0) and v0.sort() == f.F.range(): out.append(('%s=%s(it)' % (n, f.F.name()), lambda w, f=f, g=g: g(w) == f.F(w.it)))
    return out
def c_pow(E, st, a, i, where):
    if a[1].eq(FPVal(2.0, a[1].sort())) or z3.is_true(S(a[1] == FPVal(2.0, a[1].sort()))): yield ('ret', st, fop('fmul', a[0].sort())(a[0], a[0]))
    else: yield ('ret', st, z3.Function('pow_%d' % (a[0].sort().ebits() + a[0].sort().sbits()), a[0].sort(), a[0].sort(), a[0].sort())(a[0], a[1]))
def SQRT(x): return z3.Function('sqrt_%d' % (x.sort().ebits() + x.sort().sbits()), x.sort(), x.sort())(x)
def c_sqrt(E, st, a, i, where): yield ('ret', st, SQRT(a[0]))
OP = z3.Function('OP', D64, D64, D64)
def c_op(E, st, a, i, where): yield ('ret', st, OP(a[0], a[1]))
MATH = [(r'powl?f?', c_pow), (r'sqrtl?f?', c_sqrt), (r'gv_op', c_op)]
def P(name, root, su, po, **kw):
    k = dict(contracts=MATH, templates=[folding], keep=(r'^gv_',)); k.update(kw)
    PROOFS.append(Proof(name, root, 'stat.cc', su, po, **k))
def cnt(n, sort): return z3.Function('uitofp_64_%d' % (sort.ebits() + sort.sbits()), BV64, sort)(n)
def su(kind, fold):
    def f(E, st):
        d = Data(E, st, kind); return [d.p, d.n], (d, fold(E, st, d))
    return f
rs = lambda d: d.sort if z3.is_fp(d.x(bv(0))) else D64
def rsort(d): return d.x(bv(0)).sort()
sumx = lambda E, st, d: Fold(E, st, d.n, rsort(d), lambda a, i: fop('fadd', rsort(d))(a, d.x(i)), 'SUM')
sumsq = lambda E, st, d: Fold(E, st, d.n, rsort(d), lambda a, i: fop('fadd', rsort(d))(a, fop('fmul', rsort(d))(d.x(i), d.x(i))), 'SUMSQ')
opx = lambda E, st, d: Fold(E, st, d.n, D64, lambda a, i: OP(a, d.x(i)), 'OPS')
def po_mean(E, st, r, c):
    d, f = c; s = rsort(d)
    E.oblige(st, r == fop('fdiv', s)(f.F(d.n), cnt(d.n, s)), 'post', 'the sum of all elements in order divided by their number')
def po_rms(E, st, r, c):
    d, f = c; s = rsort(d)
    E.oblige(st, r == SQRT(fop('fdiv', s)(f.F(d.n), cnt(d.n, s))), 'post', 'root of the mean square of all elements')
def po_op(E, st, r, c): E.oblige(st, r == c[1].F(c[0].n), 'post', 'left fold of the operation over all elements, starting from zero')
def su_sd(kind):
    def f(E, st):
        d = Data(E, st, kind); f1 = sumx(E, st, d); s = D64
        m = fop('fdiv', s)(f1.F(d.n), cnt(d.n, s))
        dev = lambda i: fop('fsub', s)(d.x(i), m)
        f2 = Fold(E, st, d.n, s, lambda a, i: fop('fadd', s)(a, fop('fmul', s)(dev(i), dev(i))), 'DEVSQ')
        return [d.p, d.n], (d, m, f2)
    return f
def po_sd(E, st, r, c):
    d, m, f2 = c; sg, me = r
    E.oblige(st, If(d.n == 0, And(fpIsNaN(me), fpIsNaN(sg)), me == m), 'post', 'mean of all elements (NaN if there are none)')
    E.oblige(st, If(ULT(d.n, 2), fpIsNaN(sg), sg == SQRT(fop('fdiv', D64)(f2.F(d.n), cnt(S(d.n - 1), D64)))), 'post', 'root of the sum of squared deviations divided by n - 1 (NaN for fewer than two elements)')
for k in 'di':
    for it in ('', 'it_'):
        P('mean %s%s' % (it, k), 't_mean_%s%s' % (it, k), su(k, sumx), po_mean); P('rms %s%s' % (it, k), 't_rms_%s%s' % (it, k), su(k, sumsq), po_rms)
        P('standard_deviation %s%s' % (it, k), 't_sd_%s%s' % (it, k), su_sd(k), po_sd); P('accumulate %s%s' % (it, k), 't_acc_%s%s' % (it, k), su(k, opx), po_op)
for it in ('', 'it_'):
    P('mean %sfloat' % it, 't_mean_%sf' % it, su('f', sumx), po_mean); P('mean %saccessor' % it, 't_mean_%sr' % it, su('r', sumx), po_mean)
P('rms accessor', 't_rms_r', su('r', sumsq), po_rms); P('standard_deviation accessor', 't_sd_r', su_sd('r'), po_sd)
# ---- extrema
class Best:
    """I(i): index of the extreme number among the first i elements (the first of equal ones), NPOS if there is none"""
    def __init__(s, E, st, d, less):
        s.d = d; s.I = z3.Function(fresh_name('BEST'), BV64, BV64)
        num = (lambda v: Not(fpIsNaN(v))) if z3.is_fp(d.raw(bv(0))) else (lambda v: BoolVal(True))
        s.num, s.less = num, less
        i = BitVec(fresh_name('i'), 64); q = fresh_name('best'); QPAT[q] = {s.I.name()}
        st.assume(s.I(bv(0)) == NPOS)
        st.assume(ForAll([i], Implies(ULT(i, d.n), s.I(S(i + 1)) == If(And(num(d.raw(i)), Or(s.I(i) == NPOS, less(d.raw(s.I(i)), d.raw(i)))), i, s.I(i))), qid=q))
        E.best = getattr(E, 'best', []) + [s]
    def is_(s, v, i, init):
        """v is the extreme of the first i elements"""
        b = s.d.raw(s.I(i)); eq = fpEQ if z3.is_fp(v) else (lambda x, y: x == y)
        return If(s.I(i) == NPOS, fpIsNaN(v) if z3.is_fp(v) else v == init, eq(v, b))
def extreme(E, st0, names, entry, cls, mcls):
    out = []
    vs = [(n, lambda w, n=n: w.v(n), entry[n]) for n in names]
    for k, c in mcls.items():
        if k[0] == 'cell' and c[0] != 'const': vs.append((str(k), lambda w, k=k: w.st.mem[k[1]].cells[k[2]][1], st0.mem[k[1]].cells[k[2]][1]))
    for x, b in enumerate(getattr(E, 'best', [])):
        out.append(('range%d' % x, lambda w, b=b: Or(b.I(w.it) == NPOS, And(ULT(b.I(w.it), w.it), b.num(b.d.raw(b.I(w.it)))))))
        for n, g, v0 in vs:
            if z3.is_expr(v0) and v0.sort() == b.d.sort: out.append(('%s=best%d(it)' % (n, x), lambda w, b=b, g=g: b.is_(g(w), w.it, b.init)))
    return out
INT = {'i': (32, True), 'u': (8, False), 'l': (64, True)}
def order(kind, largest):
    if kind in INT: lt = (lambda x, y: x < y) if INT[kind][1] else ULT
    else: lt = fpLT
    return lt if largest else (lambda x, y: lt(y, x))
def su_best(kind, largest):
    def f(E, st):
        d = Data(E, st, kind); b = Best(E, st, d, order(kind, largest)); b.init = None
        if kind in INT:
            w, sg = INT[kind]
            b.init = BitVecVal(((1 << (w - 1)) if sg else 0) if largest else ((1 << (w - 1)) - 1 if sg else (1 << w) - 1), w)
        return [d.p, d.n], (d, b)
    return f
def po_best(E, st, r, c): E.oblige(st, c[1].is_(r, c[0].n, c[1].init), 'post', 'the extreme of all elements that are numbers (if there is none: NaN, or the limit of the integer type)')
def po_best_lemma(E, st, r, c):
    d, b = c; I = b.I
    rng = lambda i: Or(I(i) == NPOS, And(ULT(I(i), i), b.num(d.raw(I(i)))))
    induct(E, st, 'the extreme is one of the elements', bv(0), d.n, rng)
    k = BitVec(fresh_name('k'), 64); kk = E.fresh(st, 'kk', BV64)
    up = lambda i: Implies(And(ULT(kk, i), b.num(d.raw(kk))), And(I(i) != NPOS, Not(b.less(d.raw(I(i)), d.raw(kk)))))
    induct(E, st, 'no number is more extreme', bv(0), d.n, up, at=d.n)
    E.oblige(st, And(rng(d.n), up(d.n)), 'lemma', 'extremality')
for k in 'dfiul':
    for lg, nm in ((True, 'max'), (False, 'min')):
        PROOFS.append(Proof('lemma: extreme %s %s' % (nm, k), None, 'stat.cc', su_best(k, lg), po_best_lemma, keep=(r'^gv_',)))
        for r in ('%s_%s', '%s_it_%s', 'mm_%s_%s', 'mm_it_%s_%s')[:2 if k == 'f' else 4]:      # min_max of float: returned as a vector, not modelled
            P('%s %s' % (r[:-3] % nm, k), 't_' + r % (nm, k), su_best(k, lg), po_best, templates=[extreme])
P('max accessor', 't_max_r', su_best('r', True), po_best, templates=[extreme]); P('min accessor', 't_min_r', su_best('r', False), po_best, templates=[extreme])
# ---- median and remove_outliers: a std::vector<T> buffer holding the elements
from .. import vectors
def vlen(E, st, v):
    """(buffer, size in elements, element width) of a std::vector at v"""
    b, e, _ = vectors.cells(E, st, v)
    if b.obj is None: return None, bv(0)
    if e.obj != b.obj: raise Unsupported('vector layout')
    w = st.mem[b.obj].segs[0].width
    d = div_exact(e.off, w)
    return b.obj, d[0] if d is not None and d[1] == 0 else S(z3.UDiv(e.off, bv(w)))
def elem(i):
    """element type of the vector in a mangled callee name"""
    if '6vectorId' in i.text: return 8, D64, 'fp'
    if '6vectorIi' in i.text: return 4, BitVecSort(32), 'bv'
    raise Unsupported('element type of ' + i.text)
def new_vec(E, st, p, n, i):
    w, sort, kind = elem(i)
    st.assume(ULE(n, bv((1 << 59))))              # a larger request throws std::length_error
    m = st.w(p.obj); o = val(p.off)
    buf = E.new_obj(st, 'vec', S(n * w), 'heap'); x = st.mem[buf]
    x.segs.append(Seg(0, w, w, K(BV64, FPVal(0.0, sort) if kind == 'fp' else BitVecVal(0, sort.size())), kind)); x.ghost['count'] = n; x.ghost['own'] = True
    for k, v in enumerate((Ptr(buf, bv(0)), Ptr(buf, S(n * w)), Ptr(buf, S(n * w)))): m.cells[o + 8 * k] = (8, v)
def c_vec_resize(E, st, a, i, where):
    b, n = vlen(E, st, a[0])
    if b is not None: raise Unsupported('resize of a non-empty vector')
    new_vec(E, st, a[0], a[1], i); yield ('ret', st, None)
def c_vec_ctor(E, st, a, i, where):
    new_vec(E, st, a[0], a[1], i); yield ('ret', st, None)
class Med:
    def __init__(s, E, st, d):
        s.d = d; s.perm = []; s.ORD = z3.Function(fresh_name('ORD'), BV64, d.raw(bv(0)).sort()); E.med = s
    def val(s, k):
        v = s.ORD(k); return v if z3.is_fp(v) else z3.Function('sitofp_%d_64' % v.size(), v.sort(), D64)(v)
def whole(E, st, f, l, where):
    M = E.med; sg = st.mem[f.obj].segs[0]
    if f.obj != l.obj: raise Unsupported('range over two objects')
    E.oblige(st, And(f.off == 0, l.off == S(M.d.n * sg.width)), 'sort-range', where + ' the range holds all elements', assume=True)
    if not any(sg.arr.eq(x) for x in M.perm):
        q = E.fresh(st, 'k', BV64)
        E.oblige(st, Implies(ULT(q, M.d.n), Select(sg.arr, q) == M.d.raw(q)), 'sort-input', where + ' the range holds a copy of the data')
    return sg
def c_nth(E, st, a, i, where):
    f, nth, l = a[:3]; M = E.med; sg = whole(E, st, f, l, where); w = sg.width
    E.oblige(st, And(ULE(nth.off, l.off), z3.URem(nth.off, bv(w)) == 0), 'sort-nth', where + ' nth inside the range', assume=True)
    R = E.fresh(st, 'sorted', sg.arr.sort()); M.perm.append(R)
    k = S(z3.UDiv(nth.off, bv(w)))
    st.assume(Implies(ULT(k, M.d.n), Select(R, k) == M.ORD(k)))
    st.w(f.obj).segs[0].arr = R
    yield ('ret', st, None)
def c_sort(E, st, a, i, where):
    f, l = a[0], a[-1] if isinstance(a[-1], Ptr) else a[1]; M = E.med; sg = whole(E, st, f, a[1], where)
    R = E.fresh(st, 'sorted', sg.arr.sort()); M.perm.append(R); q = BitVec(fresh_name('k'), 64)
    st.assume(ForAll([q], Implies(ULT(q, M.d.n), Select(R, q) == M.ORD(q)), qid=fresh_name('sort')))
    st.w(f.obj).segs[0].arr = R
    yield ('ret', st, None)
def c_delete(E, st, a, i, where):
    p = a[0]
    if p.obj is not None:
        E.oblige(st, And(BoolVal(st.mem[p.obj].alive is True and st.mem[p.obj].kind == 'heap'), p.off == 0), 'delete', where + ' deleted once, from its start')
        st.w(p.obj).alive = False
    yield ('ret', st, None)
SORT = [(r'operator delete\(void\*(, unsigned long)?\)', c_delete), (r'void std::nth_element<[^()]*>\(.*', c_nth), (r'void std::sort<[^()]*>\(.*', c_sort), (r'std::vector<(double|int), .*>::resize\(unsigned long\)', c_vec_resize),
        (r'std::vector<(double|int), .*>::vector\(unsigned long, .*\)', c_vec_ctor)]
KEEPM = (r'^gv_', r'^std::vector<[^()]*>::(resize|vector)\(unsigned long', r'^void std::(nth_element|sort)<')
def su_med(kind):
    def f(E, st):
        d = Data(E, st, kind); m = Med(E, st, d); return [d.p, d.n], (d, m)
    return f
def po_med(E, st, r, c):
    d, m = c; h = S(z3.LShR(d.n, 1)); half = lambda x: fop('fmul', D64)(x, FPVal(0.5, D64)); add = fop('fadd', D64)
    lo, hi = m.val(S(h - 1)), m.val(h)
    E.oblige(st, Implies(d.n == 0, fpIsNaN(r)), 'post', 'no elements: NaN')
    E.oblige(st, Implies(Extract(0, 0, d.n) == 1, r == hi), 'post', 'odd number of elements: the middle one in order')
    E.oblige(st, Implies(And(d.n != 0, Extract(0, 0, d.n) == 0), Or(r == add(half(hi), half(lo)), r == add(half(lo), half(hi)))), 'post', 'even number of elements: the mean of the two middle ones')
    no_leaks(E, st)
for k in 'di':
    for it in ('', 'it_'): P('median %s%s' % (it, k), 't_med_%s%s' % (it, k), su_med(k), po_med, contracts=MATH + SORT, keep=KEEPM)
P('median accessor', 't_med_r', su_med('r'), po_med, contracts=MATH + SORT, keep=KEEPM)
def dist(x, m): return fpAbs(fop('fsub', D64)(x, m))
def cont(E, st, p):
    """(buffer, elements) of the container at p: VC (pointer, size) or std::vector"""
    c = st.mem[p.obj].cells; o = val(p.off); b = c[o][1]; e = c[o + 8][1]
    if isinstance(e, Ptr): return vlen(E, st, p)
    return b.obj, e
def c_mean(E, st, a, i, where):
    b, n = cont(E, st, a[0])
    m = E.fresh(st, 'mean', D64)
    st.g['mean'] = m; st.g['fresh'] = bv(1)
    yield ('ret', st, m)
def erase(E, st, b, n, p, where):
    if p.obj != b: raise Unsupported('erase of another object')
    A = st.mem[b].segs[0].arr; o = E.out; k = index(p.off)
    E.oblige(st, And(ULT(k, n), BoolVal(True) if div_exact(p.off, 8) is not None else z3.URem(p.off, bv(8)) == 0), 'erase', where + ' an existing element', assume=True)
    E.oblige(st, st.g['fresh'] == 1, 'erase', where + ' the mean is that of the remaining elements')
    q = E.fresh(st, 'q', BV64)
    E.oblige(st, Implies(ULT(q, n), Not(fpLT(dist(Select(A, k), st.g['mean']), dist(Select(A, q), st.g['mean'])))), 'erase', where + ' no element is farther from the mean')
    if o['copy']: E.oblige(st, Implies(And(st.g['erased'] == 0, ULT(q, n)), And(n == o['d'].n, Select(A, q) == o['d'].raw(q))), 'erase', where + ' from a copy of the data')
    R = E.fresh(st, 'erased', A.sort()); j = BitVec(fresh_name('k'), 64)
    st.assume(ForAll([j], Select(R, j) == If(ULT(j, k), Select(A, j), Select(A, S(j + 1))), qid=fresh_name('ers')))
    st.w(b).segs[0].arr = R
    st.g['fresh'] = bv(0); st.g['erased'] = S(st.g['erased'] + 1)
def c_gv_erase(E, st, a, i, where):
    b, n = cont(E, st, a[0]); erase(E, st, b, n, a[1], where)
    o = val(a[0].off); st.w(a[0].obj).cells[o + 8] = (8, S(n - 1))
    yield ('ret', st, None)
def c_vec_erase(E, st, a, i, where):
    b, n = cont(E, st, a[0]); p = a[1] if isinstance(a[1], Ptr) else a[-1]
    erase(E, st, b, n, p, where)
    o = val(a[0].off); e = st.mem[a[0].obj].cells[o + 8][1]; st.w(a[0].obj).cells[o + 8] = (8, Ptr(e.obj, S(e.off - 8)))
    yield ('ret', st, p)
def c_vec_copy(E, st, a, i, where):
    b, n = vlen(E, st, a[1]); A = st.mem[b].segs[0].arr; new_vec(E, st, a[0], n, i)
    nb = vectors.cells(E, st, a[0])[0].obj; st.w(nb).segs[0].arr = A
    yield ('ret', st, None)
def c_vec_move(E, st, a, i, where):
    m, s = st.w(a[0].obj), st.w(a[1].obj)
    for k in (0, 8, 16):
        m.cells[val(a[0].off) + k] = s.cells[val(a[1].off) + k]; s.cells[val(a[1].off) + k] = (8, Ptr(None, bv(0)))
    yield ('ret', st, None)
OUT = [(r'operator delete\(void\*(, unsigned long)?\)', c_delete), (r'double gul14::mean<double, (VC|std::vector<double.*), double, .*', c_mean), (r'gv_erase', c_gv_erase),
       (r'std::vector<double, .*>::erase\(.*\)', c_vec_erase), (r'std::vector<double, .*>::vector\(unsigned long, .*\)', c_vec_ctor),
       (r'std::vector<double, .*>::vector\(std::vector<.* const&\)', c_vec_copy), (r'std::vector<double, .*>::vector\(std::vector<.*&&\)', c_vec_move)]
KEEPO = (r'^gv_', r'^std::vector<[^()]*>::(vector|erase)\(', r'^double gul14::mean<')
def index(off):
    d = div_exact(off, 8)
    return d[0] if d is not None and d[1] == 0 else S(z3.UDiv(off, bv(8)))
def farthest(E, st0, names, entry, cls, mcls):
    out = []; o = E.out
    if o is None: return out
    for n in names:
        v0 = entry[n]
        if not isinstance(v0, Ptr) or v0.obj is None or v0.obj not in st0.mem or not st0.mem[v0.obj].segs or cls[n][0] != 'gen': continue
        def far(w, n=n):
            A = w.st.mem[w.v(n).obj].segs[0].arr; q = BitVec(fresh_name('k'), 64); m = w.st.g['mean']
            return ForAll([q], Implies(ULE(q, w.it), Not(fpLT(dist(Select(A, index(w.v(n).off)), m), dist(Select(A, q), m)))), qid=fresh_name('far'))
        out.append((n + ' farthest', far))
        out.append((n + ' elem', lambda w, n=n: ULE(index(w.v(n).off), w.it)))
    if not any(isinstance(entry[n], Ptr) for n in names): out.append(('it<=n', lambda w: ULE(w.it, o['d'].n)))
    else: out.append(('it<cur', lambda w: ULT(w.it, S(o['d'].n - w.st.g['erased']))))
    out.append(('erased+n', lambda w: w.st.g['erased'] == w.it))
    return out
def ghosts(st):
    st.g['mean'] = FPVal(0.0, D64); st.g['fresh'] = bv(0); st.g['erased'] = bv(0)
def su_out(E, st):
    n = E.fresh(st, 'n', BV64); k = E.fresh(st, 'k', BV64); st.assume(ULE(n, bv(1 << 58))); ghosts(st)
    d = Data.__new__(Data); d.n = n; d.a = E.fresh(st, 'data', ArraySort(BV64, D64))
    b = E.new_obj(st, 'elems', S(8 * n), 'ext'); st.mem[b].segs.append(Seg(0, 8, 8, d.a, 'fp'))
    c = E.new_obj(st, 'cont', bv(16), 'ext'); m = st.mem[c]; m.cells[0] = (8, Ptr(b, bv(0))); m.cells[8] = (8, n)
    E.out = dict(d=d, copy=True)
    return [Ptr(c, bv(0)), k], (d, k, Ptr(c, bv(0)), b)
def po_out(E, st, r, c):
    d, k, p, b = c; mn = If(ULT(k, d.n), k, d.n)
    E.oblige(st, And(BoolVal(r.obj == p.obj), r.off == 0), 'post', 'returns the container')
    b2, n2 = cont(E, st, p)
    E.oblige(st, And(st.g['erased'] == mn, n2 == d.n - mn), 'post', 'min(k, n) elements removed')
    q = E.fresh(st, 'q', BV64)
    E.oblige(st, Implies(And(k == 0, ULT(q, d.n)), Select(st.mem[b].segs[0].arr, q) == d.raw(q)), 'post', 'nothing to remove: unchanged')
P('remove_outliers in place', 't_out', su_out, po_out, contracts=MATH + OUT, keep=KEEPO, templates=[farthest])
def su_outv(E, st):
    d = Data(E, st, 'd'); k = E.fresh(st, 'k', BV64); ghosts(st); E.out = dict(d=d, copy=True)
    o = E.new_obj(st, 'out', bv(24), 'ext')
    return [Ptr(o, bv(0)), d.p, d.n, k], (d, k, Ptr(o, bv(0)))
def po_outv(E, st, r, c):
    d, k, p = c; mn = If(ULT(k, d.n), k, d.n)
    b2, n2 = vlen(E, st, p)
    E.oblige(st, And(st.g['erased'] == mn, n2 == d.n - mn), 'post', 'min(k, n) elements removed')
    q = E.fresh(st, 'q', BV64)
    E.oblige(st, Implies(ULT(q, d.n), Select(st.mem[d.obj].segs[0].arr, q) == d.raw(q)), 'post', 'the original is not modified')
    if b2 is not None: E.oblige(st, Implies(And(k == 0, ULT(q, d.n)), Select(st.mem[b2].segs[0].arr, q) == d.raw(q)), 'post', 'nothing to remove: a copy')
    for oid, m in st.mem.items():
        if m.kind == 'heap' and m.alive is True and oid != b2: E.oblige(st, BoolVal(False), 'leak', m.name)
P('remove_outliers copy', 't_out_v', su_outv, po_outv, contracts=MATH + OUT, keep=KEEPO, templates=[farthest])
P('remove_outliers iterators', 't_out_it', su_outv, po_outv, contracts=MATH + OUT, keep=KEEPO, templates=[farthest])
# the instances whose contract remove_outliers relies on
def su_mvc(E, st):
    d = Data(E, st, 'd'); c = E.new_obj(st, 'cont', bv(16), 'ext'); m = st.mem[c]; m.cells[0] = (8, d.p); m.cells[8] = (8, d.n)
    return [Ptr(c, bv(0))], (d, sumx(E, st, d))
def su_mvec(E, st):
    d = Data(E, st, 'd'); c = E.new_obj(st, 'cont', bv(24), 'ext'); m = st.mem[c]
    for o, v in ((0, bv(0)), (8, S(d.n * 8)), (16, S(d.n * 8))): m.cells[o] = (8, Ptr(d.obj, v))
    return [Ptr(c, bv(0))], (d, sumx(E, st, d))
P('mean of the container of remove_outliers', 't_mean_vc', su_mvc, po_mean); P('mean of std::vector', 't_mean_vec', su_mvec, po_mean)
