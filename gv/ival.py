"""Translation of ground bit-vector formulas (no arrays, no functions) to linear integer arithmetic guided by
intervals: a term is an integer expression I congruent to it modulo 2^n together with bounds on I, so that
wrap-around needs a quotient variable only where the bounds do not exclude it.  Equisatisfiable."""
import z3
from z3 import *

class Give(Exception): pass

class IV:
    def __init__(s):
        s.memo = {}; s.side = []; s.keep = []; s.n = 0; s.bnd = {}; s.bmemo = {}; s.cmemo = {}; s.defs = {}; s.busy = set()

    def fresh(s, p):
        s.n += 1; return Int('%s~%d' % (p, s.n))

    # bounds asserted by top-level facts: term id -> [slo, shi, ulo, uhi]
    def learn(s, f):
        k = f.decl().kind() if z3.is_app(f) else None
        if k == Z3_OP_AND:
            for ch in f.children(): s.learn(ch)
            return
        if k == Z3_OP_EQ and z3.is_bv(f.arg(0)):
            for a, b in (f.children(), f.children()[::-1]):
                if a.decl().kind() == Z3_OP_UNINTERPRETED and not a.num_args() and a.get_id() not in s.defs:
                    s.defs[a.get_id()] = b; s.keep += [a, b]; return
            return
        neg = False
        if k == Z3_OP_NOT: f = f.arg(0); neg = True; k = f.decl().kind()
        T = {Z3_OP_SLEQ: ('s', '<='), Z3_OP_SGEQ: ('s', '>='), Z3_OP_SLT: ('s', '<'), Z3_OP_SGT: ('s', '>'),
             Z3_OP_ULEQ: ('u', '<='), Z3_OP_UGEQ: ('u', '>='), Z3_OP_ULT: ('u', '<'), Z3_OP_UGT: ('u', '>')}
        if k not in T: return
        sg, op = T[k]; a, b = f.children()
        if neg: op = {'<=': '>', '>=': '<', '<': '>=', '>': '<='}[op]
        if z3.is_bv_value(a): a, b = b, a; op = {'<=': '>=', '>=': '<=', '<': '>', '>': '<'}[op]
        if not z3.is_bv_value(b): return
        v = b.as_signed_long() if sg == 's' else b.as_long()
        if op == '<': op = '<='; v -= 1
        if op == '>': op = '>='; v += 1
        s.keep.append(a)
        d = s.bnd.setdefault(a.get_id(), [None] * 4)
        i = (0 if sg == 's' else 2) + (1 if op == '<=' else 0)
        d[i] = v if d[i] is None else (min if op == '<=' else max)(d[i], v)

    def tr(s, t):
        """(I, lo, hi) with t == I mod 2^n"""
        i = t.get_id()
        if i in s.memo: return s.memo[i]
        s.keep.append(t)
        n = t.size()
        r = None
        if i in s.defs and i not in s.busy:
            s.busy.add(i)
            r = s.tr(s.defs[i])
            s.busy.discard(i)
            if i in s.memo: r = s.memo[i]
        if r is None: r = s.term(t)
        d = s.bnd.get(i)
        if d:
            I, lo, hi = r
            if d[2] is not None or d[3] is not None:
                I, lo, hi = s.canon((I, lo, hi), n, 0)
                a, b = max(lo, d[2] or 0), min(hi, (1 << n) - 1 if d[3] is None else d[3])
                if a <= b: lo, hi = a, b
            elif d[0] is not None or d[1] is not None:
                I, lo, hi = s.canon((I, lo, hi), n, 1)
                a, b = max(lo, -(1 << n - 1) if d[0] is None else d[0]), min(hi, (1 << n - 1) - 1 if d[1] is None else d[1])
                if a <= b: lo, hi = a, b
            r = (I, lo, hi)
        s.memo[i] = r
        return r

    def canon(s, r, n, sg):
        I, lo, hi = r
        base = -(1 << n - 1) if sg else 0
        k0, k1 = (lo - base) >> n, (hi - base) >> n
        if k0 == k1: return (I if k0 == 0 else I - (k0 << n), lo - (k0 << n), hi - (k0 << n))
        key = (I.get_id(), n, sg)
        if key in s.cmemo: return s.cmemo[key]
        k = s.fresh('k'); v = I - (1 << n) * k
        s.side += [k >= k0, k <= k1, v >= base, v < base + (1 << n)]
        s.keep.append(I)
        s.cmemo[key] = (v, base, base + (1 << n) - 1)
        return s.cmemo[key]
    def u(s, t): return s.canon(s.tr(t), t.size(), 0)
    def sg(s, t): return s.canon(s.tr(t), t.size(), 1)

    def term(s, t):
        n = t.size(); k = t.decl().kind(); ch = t.children()
        if z3.is_bv_value(t):
            v = t.as_signed_long(); return (IntVal(v), v, v)
        if k == Z3_OP_UNINTERPRETED and not ch:
            v = Int('v!' + t.decl().name()); d = s.bnd.get(t.get_id()) or [None] * 4
            if d[0] is not None or d[1] is not None:
                s.side += [v >= -(1 << n - 1), v < (1 << n - 1)]; return (v, -(1 << n - 1), (1 << n - 1) - 1)
            s.side += [v >= 0, v < (1 << n)]; return (v, 0, (1 << n) - 1)
        if k == Z3_OP_BADD:
            R = [s.tr(x) for x in ch]; return (Sum([x[0] for x in R]), sum(x[1] for x in R), sum(x[2] for x in R))
        if k == Z3_OP_BSUB:
            a, b = map(s.tr, ch); return (a[0] - b[0], a[1] - b[2], a[2] - b[1])
        if k == Z3_OP_BNEG:
            a = s.tr(ch[0]); return (-a[0], -a[2], -a[1])
        if k == Z3_OP_BNOT:
            a = s.tr(ch[0]); return (-a[0] - 1, -a[2] - 1, -a[1] - 1)
        if k == Z3_OP_BMUL and len(ch) == 2:
            if z3.is_bv_value(ch[1]): ch = [ch[1], ch[0]]
            if not z3.is_bv_value(ch[0]): return s.prod(s.sg(ch[0]), s.sg(ch[1]))
            cst = ch[0].as_signed_long(); a = s.tr(ch[1])
            lo, hi = sorted((cst * a[1], cst * a[2])); return (cst * a[0], lo, hi)
        if k == Z3_OP_BSHL and z3.is_bv_value(ch[1]) and ch[1].as_long() < n:
            m = 1 << ch[1].as_long(); a = s.tr(ch[0]); return (m * a[0], m * a[1], m * a[2])
        if k == Z3_OP_BLSHR and z3.is_bv_value(ch[1]) and ch[1].as_long() < n:
            m = 1 << ch[1].as_long(); a = s.u(ch[0]); return s.fdiv(a, m)
        if k == Z3_OP_BASHR and z3.is_bv_value(ch[1]) and ch[1].as_long() < n:
            m = 1 << ch[1].as_long(); a = s.sg(ch[0]); return s.fdiv(a, m)
        if k in (Z3_OP_BUDIV, Z3_OP_BUDIV_I, Z3_OP_BUREM, Z3_OP_BUREM_I, Z3_OP_BSDIV, Z3_OP_BSDIV_I, Z3_OP_BSREM, Z3_OP_BSREM_I):
            if not z3.is_bv_value(ch[1]): raise Give('quotient')
            if k in (Z3_OP_BUDIV, Z3_OP_BUDIV_I, Z3_OP_BUREM, Z3_OP_BUREM_I):
                m = ch[1].as_long()
                if m == 0: raise Give('zero')
                a = s.u(ch[0]); q = s.fdiv(a, m)
                if k in (Z3_OP_BUDIV, Z3_OP_BUDIV_I): return q
                return (a[0] - m * q[0], 0, min(a[2], m - 1))
            m = ch[1].as_signed_long()
            if m <= 0: raise Give('divisor')
            a = s.sg(ch[0])
            if a[1] >= 0: q = s.fdiv(a, m)
            elif a[2] <= 0:
                q = s.fdiv((-a[0], -a[2], -a[1]), m); q = (-q[0], -q[2], -q[1])
            else:
                p = s.fdiv((If(a[0] >= 0, a[0], -a[0]), 0, max(-a[1], a[2])), m); q = (If(a[0] >= 0, p[0], -p[0]), -p[2], p[2])
            if k in (Z3_OP_BSDIV, Z3_OP_BSDIV_I): return q
            return (a[0] - m * q[0], max(a[1], -(m - 1)) if a[1] < 0 else 0, min(a[2], m - 1) if a[2] > 0 else 0)
        if k == Z3_OP_ITE:
            a, b = s.tr(ch[1]), s.tr(ch[2]); return (If(s.form(ch[0]), a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]))
        if k == Z3_OP_EXTRACT:
            hi, lo = t.params()
            if lo == 0: return s.tr(ch[0])      # still congruent modulo the smaller power
            a = s.fdiv(s.u(ch[0]), 1 << lo)
            return a
        if k == Z3_OP_ZERO_EXT: return s.u(ch[0])
        if k == Z3_OP_SIGN_EXT: return s.sg(ch[0])
        if k == Z3_OP_CONCAT:
            R = [s.u(x) for x in ch]; I, lo, hi = IntVal(0), 0, 0
            for x, r in zip(ch, R):
                m = 1 << x.size(); I, lo, hi = m * I + r[0], m * lo + r[1], m * hi + r[2]
            return (z3.simplify(I), lo, hi)
        if k in (Z3_OP_BAND, Z3_OP_BOR, Z3_OP_BXOR) and len(ch) == 2:
            if z3.is_bv_value(ch[1]): ch = [ch[1], ch[0]]
            if z3.is_bv_value(ch[0]):
                m = ch[0].as_long()
                if k == Z3_OP_BAND and m & (m + 1) == 0:
                    a = s.u(ch[1]); q = s.fdiv(a, m + 1); return (a[0] - (m + 1) * q[0], 0, m)
            # few-bit values: by bits
            raise Give('bitwise')
        raise Give(str(t.decl()))

    def prod(s, a, b):
        """product with a factor of few possible values"""
        if b[2] - b[1] < a[2] - a[1]: a, b = b, a
        if a[2] - a[1] > 4: raise Give('product')
        I = a[1] * b[0]; ext = [a[1] * b[1], a[1] * b[2]]
        for v in range(a[1] + 1, a[2] + 1):
            I = If(a[0] == v, v * b[0], I); ext += [v * b[1], v * b[2]]
        return (I, min(ext), max(ext))

    def fdiv(s, a, m):
        if m == 1: return a
        key = ('d', a[0].get_id(), m)
        if key not in s.cmemo:
            s.keep.append(a[0])
            lo, hi = a[1] // m, a[2] // m
            if lo == hi: q = IntVal(lo)
            else:
                q = s.fresh('q'); s.side += [a[0] - m * q >= 0, a[0] - m * q <= m - 1, q >= lo, q <= hi]
            s.cmemo[key] = (q, lo, hi)
        return s.cmemo[key]

    def form(s, f):
        i = f.get_id()
        if i in s.bmemo: return s.bmemo[i]
        s.keep.append(f)
        k = f.decl().kind(); ch = f.children()
        if k in (Z3_OP_TRUE, Z3_OP_FALSE): r = f
        elif k == Z3_OP_UNINTERPRETED and not ch: r = f
        elif k == Z3_OP_AND: r = And(*[s.form(x) for x in ch])
        elif k == Z3_OP_OR: r = Or(*[s.form(x) for x in ch])
        elif k == Z3_OP_NOT: r = Not(s.form(ch[0]))
        elif k == Z3_OP_IMPLIES: r = Implies(s.form(ch[0]), s.form(ch[1]))
        elif k == Z3_OP_XOR: r = Xor(s.form(ch[0]), s.form(ch[1]))
        elif k == Z3_OP_ITE: r = If(*[s.form(x) for x in ch])
        elif k in (Z3_OP_EQ, Z3_OP_DISTINCT, Z3_OP_IFF):
            if len(ch) != 2: raise Give('distinct')
            if z3.is_bool(ch[0]): r = s.form(ch[0]) == s.form(ch[1])
            elif z3.is_bv(ch[0]):
                n = ch[0].size(); a, b = s.tr(ch[0]), s.tr(ch[1])
                lo, hi = a[1] - b[2], a[2] - b[1]
                if -(1 << n) < lo and hi < (1 << n): r = a[0] == b[0]
                else: r = s.u(ch[0])[0] == s.u(ch[1])[0]
            elif ch[0].sort() == IntSort(): r = ch[0] == ch[1]
            else: raise Give('equality')
            if k == Z3_OP_DISTINCT: r = Not(r)
        elif k in (Z3_OP_SLEQ, Z3_OP_SGEQ, Z3_OP_SLT, Z3_OP_SGT, Z3_OP_ULEQ, Z3_OP_UGEQ, Z3_OP_ULT, Z3_OP_UGT):
            g = s.sg if k in (Z3_OP_SLEQ, Z3_OP_SGEQ, Z3_OP_SLT, Z3_OP_SGT) else s.u
            a, b = g(ch[0])[0], g(ch[1])[0]
            r = a <= b if k in (Z3_OP_SLEQ, Z3_OP_ULEQ) else a >= b if k in (Z3_OP_SGEQ, Z3_OP_UGEQ) else a < b if k in (Z3_OP_SLT, Z3_OP_ULT) else a > b
        elif k in (Z3_OP_BSMUL_NO_OVFL, Z3_OP_BSMUL_NO_UDFL, Z3_OP_BUMUL_NO_OVFL):
            n = ch[0].size(); g = s.u if k == Z3_OP_BUMUL_NO_OVFL else s.sg
            I, lo, hi = s.prod(g(ch[0]), g(ch[1]))
            if k == Z3_OP_BSMUL_NO_UDFL: r = BoolVal(True) if lo >= -(1 << n - 1) else I >= -(1 << n - 1)
            else:
                m = (1 << n - (k != Z3_OP_BUMUL_NO_OVFL)) - 1
                r = BoolVal(True) if hi <= m else I <= m
        else: raise Give(f.sexpr()[:200])
        s.bmemo[i] = r
        return r

def translate(fs):
    T = IV()
    for f in fs: T.learn(f)
    out = [T.form(f) for f in fs]
    return out + T.side
