"""Equisatisfiable (or weaker, when an operation has no linear-integer meaning) translation of ground
BV formulas to integer arithmetic: bit-vectors wider than 16 bits become integers in [0, 2^n) with
explicit wrap-around quotients; narrower ones stay bit-vectors."""
import z3
from z3 import *

NL = False      # interpret products and quotients of two variables (nonlinear integer arithmetic)
W = 16          # widths up to W stay bit-vectors

class ToInt:
    def __init__(self):
        self.memo = {}
        self.side = []
        self.decls = {}
        self.lossy = False
        self.keep = []
        self.n = 0
        self.info = {}       # term -> (translated subterms, side conditions, lossy)
        self.ranges = {}
        self.facts = {}      # fact -> (translation, side conditions, lossy)

    def fresh(self, p, sort):
        self.n += 1
        return Const('%s~%d' % (p, self.n), sort)

    def sort(self, s):
        k = s.kind()
        if k == Z3_BV_SORT: return IntSort() if s.size() > W else s
        if k == Z3_ARRAY_SORT: return ArraySort(self.sort(s.domain()), self.sort(s.range()))
        return s

    def rng(self, t, n):
        """assert 0 <= t < 2^n for an integer term standing for an n-bit vector"""
        i = t.get_id()
        r = self.ranges.get(i)
        if r is None: r = self.ranges[i] = And(t >= 0, t < (1 << n)); self.keep.append(t)
        self.side.append(r)
        return t

    def tr(self, e):
        st = [e]
        memo = self.memo
        while st:
            t = st[-1]
            i = t.get_id()
            if i in memo: st.pop(); continue
            if not z3.is_app(t): raise Exception('toint: ' + str(t)[:100])
            dp = self.deps(t)
            pend = [c for c in dp if c.get_id() not in memo]
            if pend: st.extend(pend); continue
            self.side = []; self.lossy = False
            memo[i] = self.one(t)
            self.info[i] = ([c.get_id() for c in dp], self.side, self.lossy)
            self.keep.append(t); self.keep.append(dp)
            st.pop()
        return memo[e.get_id()]

    def deps(self, t):
        if z3.is_bv(t) and t.size() > W and t.decl().kind() in (Z3_OP_BADD, Z3_OP_BSUB, Z3_OP_BNEG, Z3_OP_BMUL):
            out = []
            self.lincollect(t, 1, {}, out)
            return out
        return t.children()

    def lincollect(self, t, k, d, atoms):
        """atoms of a linear sum; returns constant"""
        kind = t.decl().kind()
        if z3.is_bv_value(t): return k * t.as_long()
        if kind == Z3_OP_BADD:
            return sum(self.lincollect(c, k, d, atoms) for c in t.children())
        if kind == Z3_OP_BSUB:
            ch = t.children()
            return self.lincollect(ch[0], k, d, atoms) + sum(self.lincollect(c, -k, d, atoms) for c in ch[1:])
        if kind == Z3_OP_BNEG: return self.lincollect(t.arg(0), -k, d, atoms)
        if kind == Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
            return self.lincollect(t.arg(1), k * self.sg(t.arg(0)), d, atoms)
        if kind == Z3_OP_BMUL:
            # nonlinear product: atom, but its factors have to be translated first
            for c in t.children(): atoms.append(c)
            i = t.get_id()
            d[i] = (d.get(i, (0, None))[0] + k, t)
            return 0
        i = t.get_id()
        d[i] = (d.get(i, (0, None))[0] + k, t)
        atoms.append(t)
        return 0

    @staticmethod
    def sg(v):
        n = v.size(); x = v.as_long()
        return x - (1 << n) if x >> (n - 1) else x

    def wrap(self, terms, const, n):
        """sum(k*t) + const modulo 2^n; terms: list of (coef, int term in [0,2^n))"""
        M = 1 << n
        const %= M
        if not terms: return IntVal(const)
        if len(terms) == 1 and terms[0][0] == 1 and const == 0: return terms[0][1]
        # choose const representation closest to zero
        if const > M // 2: const -= M
        lo = hi = const
        for k, t in terms:
            if k > 0: hi += k * (M - 1)
            else: lo += k * (M - 1)
        e = Sum([k * t if k != 1 else t for k, t in terms] + [IntVal(const)])
        r = self.fresh('w', IntSort()); q = self.fresh('q', IntSort())
        self.side.append(And(r >= 0, r < M, q >= lo // M, q <= hi // M, r == e - M * q))
        self.keep.append(r)
        return r

    def modpow(self, t, n, k):
        """t mod 2^k, t div 2^k for an n-bit integer term"""
        key = ('mp', t.get_id(), k)
        if key not in self.memo:
            r = self.fresh('m', IntSort()); q = self.fresh('d', IntSort())
            self.memo[key] = (r, q, And(r >= 0, r < (1 << k), q >= 0, q < (1 << max(n - k, 0)) if n > k else q == 0, t == r + (1 << k) * q))
            self.keep.append(t)
        r, q, c = self.memo[key]
        self.side.append(c)
        return r, q

    def b2i(self, x):
        return BV2Int(x)

    def i2b(self, t, n, w):
        """low w (<= W) bits of the n-bit integer term t as a bit-vector"""
        key = ('i2b', t.get_id(), w)
        r, q = self.modpow(t, n, w) if n > w else (t, None)
        if key not in self.memo:
            y = self.fresh('b', BitVecSort(w)); self.keep.append(t)
            self.memo[key] = (y, BV2Int(y) == r)
        y, c = self.memo[key]
        self.side.append(c)
        return y

    def m(self, t): return self.memo[t.get_id()]

    def sgn(self, t, n):
        return If(t >= (1 << (n - 1)), t - (1 << n), t)

    def uf(self, nm, args, sort):
        key = (nm, tuple(str(a.sort()) for a in args), str(sort))
        if key not in self.decls: self.decls[key] = z3.Function(nm, *([a.sort() for a in args] + [sort]))
        return self.decls[key](*args)

    def one(self, t):
        k = t.decl().kind()
        ch = t.children()
        isbv = z3.is_bv(t)
        n = t.size() if isbv else 0
        big = isbv and n > W
        if big:
            if z3.is_bv_value(t): return IntVal(t.as_long())
            if k in (Z3_OP_BADD, Z3_OP_BSUB, Z3_OP_BNEG) or (k == Z3_OP_BMUL):
                d = {}; c = self.lincollect(t, 1, d, [])
                terms = []
                for i, (kk, a) in d.items():
                    if kk == 0: continue
                    if i in self.memo: terms.append((kk, self.memo[i])); continue
                    # nonlinear product
                    p = [self.m(x) for x in a.children()]
                    terms.append((kk, self.nlmul(p, n)))
                    if a.eq(t): return terms[0][1]
                # reduce huge coefficients
                return self.wrap([(kk, x) for kk, x in terms], c, n)
            if k == Z3_OP_UNINTERPRETED:
                if not ch: return self.rng(Const(t.decl().name(), IntSort()), n)
                return self.rng(self.app(t), n)
            if k == Z3_OP_SELECT: return self.rng(Select(self.m(ch[0]), self.m(ch[1])), n)
            if k == Z3_OP_ITE: return If(self.m(ch[0]), self.m(ch[1]), self.m(ch[2]))
            if k == Z3_OP_ZERO_EXT:
                c = self.m(ch[0]); return c if ch[0].size() > W else self.b2i(c)
            if k == Z3_OP_SIGN_EXT:
                w = ch[0].size(); c = self.m(ch[0])
                if w <= W: c = self.b2i(c)
                return If(c >= (1 << (w - 1)), c + ((1 << n) - (1 << w)), c)
            if k == Z3_OP_CONCAT:
                e = None; sh = 0
                x = ch[-1]; w = x.size()
                if all(y.decl().kind() == Z3_OP_EXTRACT and y.params() == [w - 1, w - 1] and y.arg(0).eq(x) for y in ch[:-1]):   # sign extension
                    c = self.m(x)
                    if w <= W: c = self.b2i(c)
                    return If(c >= (1 << (w - 1)), c + ((1 << n) - (1 << w)), c)
                for x in reversed(ch):
                    c = self.m(x)
                    if x.size() <= W: c = self.b2i(c)
                    e = c * (1 << sh) if e is None else e + c * (1 << sh)
                    sh += x.size()
                return e
            if k == Z3_OP_EXTRACT:
                hi, lo = t.params(); w = ch[0].size(); c = self.m(ch[0])
                if lo: c = self.modpow(c, w, lo)[1]
                if hi + 1 < w: c = self.modpow(c, w - lo, hi - lo + 1)[0]
                return c
            if k in (Z3_OP_BUDIV, Z3_OP_BUDIV_I, Z3_OP_BUREM, Z3_OP_BUREM_I):
                a, b = self.m(ch[0]), self.m(ch[1])
                if z3.is_bv_value(ch[1]) and ch[1].as_long():
                    D = ch[1].as_long()
                    q = self.fresh('dq', IntSort()); r = self.fresh('dr', IntSort())
                    self.side.append(And(q >= 0, r >= 0, r < D, a == D * q + r, q <= a))
                    return q if k in (Z3_OP_BUDIV, Z3_OP_BUDIV_I) else r
                q, r = self.divrem(a, b, n)
                return q if k in (Z3_OP_BUDIV, Z3_OP_BUDIV_I) else r
            if k in (Z3_OP_BSDIV, Z3_OP_BSDIV_I, Z3_OP_BSREM, Z3_OP_BSREM_I):
                a, b = self.sgn(self.m(ch[0]), n), self.sgn(self.m(ch[1]), n)
                aa, ab = If(a < 0, -a, a), If(b < 0, -b, b)
                q, r = self.divrem(aa, ab, n)
                s = If((a < 0) != (b < 0), -q, q) if k in (Z3_OP_BSDIV, Z3_OP_BSDIV_I) else If(a < 0, -r, r)
                return If(s < 0, s + (1 << n), s)
            if k == Z3_OP_BLSHR and z3.is_bv_value(ch[1]):
                s = ch[1].as_long()
                return IntVal(0) if s >= n else (self.modpow(self.m(ch[0]), n, s)[1] if s else self.m(ch[0]))
            if k == Z3_OP_BSHL and z3.is_bv_value(ch[1]):
                s = ch[1].as_long()
                return IntVal(0) if s >= n else self.wrap([(1 << s, self.m(ch[0]))], 0, n)
            if k == Z3_OP_BNOT: return (1 << n) - 1 - self.m(ch[0])
            if k == Z3_OP_BAND and len(ch) == 2:
                for x, y in ((ch[0], ch[1]), (ch[1], ch[0])):
                    if z3.is_bv_value(x) and (x.as_long() + 1) & x.as_long() == 0 and x.as_long():
                        return self.modpow(self.m(y), n, x.as_long().bit_length())[0]
            # no integer meaning: uninterpreted, in range
            self.lossy = True
            args = [self.m(c) for c in ch]
            r = self.uf('op_%s_%d' % (t.decl().name(), n) + ''.join('_%s' % p for p in t.params()), args, IntSort())
            return self.rng(r, n)
        if isbv:      # narrow
            if not ch: return t
            if k == Z3_OP_EXTRACT and ch[0].size() > W:
                hi, lo = t.params(); w = ch[0].size(); c = self.m(ch[0])
                if lo:
                    c = self.modpow(c, w, lo)[1]
                return self.i2b(c, w - lo, hi - lo + 1)
            if k == Z3_OP_UNINTERPRETED: return self.app(t)
            if k == Z3_OP_SELECT: return Select(self.m(ch[0]), self.m(ch[1]))
            if k == Z3_OP_ITE: return If(self.m(ch[0]), self.m(ch[1]), self.m(ch[2]))
            if all(not z3.is_bv(c) or c.size() <= W for c in ch):
                return t.decl()(*[self.m(c) for c in ch])
            self.lossy = True
            return self.uf('op_%s_%d' % (t.decl().name(), n), [self.m(c) for c in ch], t.sort())
        if z3.is_bool(t):
            if not ch: return t
            if k in (Z3_OP_EQ, Z3_OP_DISTINCT):
                a = [self.m(c) for c in ch]
                if k == Z3_OP_EQ: return a[0] == a[1]
                return Distinct(*a)
            if z3.is_bv(ch[0]) and ch[0].size() > W:
                w = ch[0].size()
                a, b = self.m(ch[0]), (self.m(ch[1]) if len(ch) > 1 else None)
                if k == Z3_OP_ULEQ: return a <= b
                if k == Z3_OP_ULT: return a < b
                if k == Z3_OP_UGEQ: return a >= b
                if k == Z3_OP_UGT: return a > b
                if k in (Z3_OP_SLEQ, Z3_OP_SLT, Z3_OP_SGEQ, Z3_OP_SGT):
                    a, b = self.sgn(a, w), self.sgn(b, w)
                    return {Z3_OP_SLEQ: a <= b, Z3_OP_SLT: a < b, Z3_OP_SGEQ: a >= b, Z3_OP_SGT: a > b}[k]
                nm = t.decl().name()
                if nm in ('bvumul_noovfl',): return a * b < (1 << w)
                if nm in ('bvsmul_noovfl', 'bvsmul_noudfl'):
                    s = [self.fresh('sg', IntSort()) for _ in (a, b)]
                    for x, y in zip(s, (a, b)): self.side.append(x == self.sgn(y, w))
                    p = s[0] * s[1]
                    return p < (1 << (w - 1)) if nm.endswith('ovfl') else p >= -(1 << (w - 1))
            if k == Z3_OP_UNINTERPRETED: return self.app(t)
            if k == Z3_OP_ITE: return If(self.m(ch[0]), self.m(ch[1]), self.m(ch[2]))
            if all(self.m(c).sort() == c.sort() for c in ch):
                return t.decl()(*[self.m(c) for c in ch])
            self.lossy = True
            return self.uf('op_%s' % t.decl().name(), [self.m(c) for c in ch], BoolSort())
        # arrays, uninterpreted sorts, fp
        if k == Z3_OP_BV2INT and z3.is_bv(ch[0]):
            return self.m(ch[0]) if ch[0].size() > W else BV2Int(self.m(ch[0]))
        if not ch:
            s = self.sort(t.sort())
            return t if s == t.sort() else Const(t.decl().name(), s)
        if k == Z3_OP_STORE: return Store(self.m(ch[0]), self.m(ch[1]), self.m(ch[2]))
        if k == Z3_OP_ITE: return If(self.m(ch[0]), self.m(ch[1]), self.m(ch[2]))
        if k == Z3_OP_CONST_ARRAY: return K(self.sort(t.sort().domain()), self.m(ch[0]))
        if k == Z3_OP_SELECT: return Select(self.m(ch[0]), self.m(ch[1]))
        if k == Z3_OP_UNINTERPRETED: return self.app(t)
        if all(self.m(c).sort() == c.sort() for c in ch):
            return t.decl()(*[self.m(c) for c in ch])
        self.lossy = True
        return self.uf('op_%s_%s' % (t.decl().name(), t.sort()), [self.m(c) for c in ch], self.sort(t.sort()))

    def divrem(self, a, b, n):
        q = self.uf('udiv', [a, b], IntSort()); r = self.uf('urem', [a, b], IntSort())
        if not NL: self.lossy = True
        self.side.append(And(q >= 0, q < (1 << n), r >= 0, r < (1 << n), Implies(b != 0, And(r < b, r <= a, q <= a))))
        if NL: self.side.append(Implies(b != 0, a == b * q + r))
        return q, r

    def nlmul(self, p, n):
        if NL:
            e = p[0]
            for x in p[1:]: e = e * x
            r = self.fresh('nw', IntSort()); q = self.fresh('nq', IntSort())
            self.side.append(And(r >= 0, r < (1 << n), q >= 0, r == e - (1 << n) * q))
            if len(p) == 2:
                s = [self.fresh('sg', IntSort()) for _ in p]; q2 = self.fresh('nq', IntSort())
                for x, y in zip(s, p): self.side.append(x == self.sgn(y, n))
                self.side.append(r == s[0] * s[1] - (1 << n) * q2)
            return r
        self.lossy = True
        r = self.uf('mul%d_%d' % (n, len(p)), sorted(p, key=lambda x: x.get_id()), IntSort())
        return self.rng(r, n)

    def app(self, t):
        return self.uf(t.decl().name(), [self.m(c) for c in t.children()], self.sort(t.sort()))

    def fact(self, f):
        i = f.get_id()
        if i in self.facts: return self.facts[i]
        r = self.tr(f)
        seen = set(); st = [i]; sides = {}; lossy = False; info = self.info
        while st:
            j = st.pop()
            if j in seen: continue
            seen.add(j)
            dp, sd, ls = info[j]
            for c in sd: sides[c.get_id()] = c
            lossy = lossy or ls
            st.extend(dp)
        self.facts[i] = (r, sides, lossy); self.keep.append(f)
        return self.facts[i]

_T = {}
def translate(ground):
    """translation of every formula plus the side conditions of the terms it uses (cached per formula)"""
    T = _T.get((W, NL))
    if T is None: T = _T[(W, NL)] = ToInt()
    out = []; sides = {}; lossy = False
    for g in ground:
        r, sd, ls = T.fact(g)
        out.append(r); sides.update(sd); lossy = lossy or ls
    class R: pass
    R.lossy = lossy
    return out + list(sides.values()), R
