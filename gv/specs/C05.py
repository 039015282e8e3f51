"""C05: trimming removes exactly the maximal runs of the given characters."""
from ..spec import *

WS = b' \t\r\n\a\b\f\v'
class Const:
    def __init__(s, b):
        s.n = bv(len(b)); a = K(BV64, bv(0, 8))
        for i, c in enumerate(b): a = Store(a, bv(i), bv(c, 8))
        s.a = a; s.b = b
    def __getitem__(s, i): return Select(s.a, i)

def isin(t, c):
    if isinstance(t, Const): return Or(*[c == x for x in t.b])
    return exists('i', 0, t.n, lambda i: t[i] == c)

def setup(string, dflt):
    def f(E, st):
        s = Buf(E, st, 's', maxlen=S(PMAX - 1)); r = result_string(E, st) if string else None
        if dflt: t, ex = Const(WS), []
        else: t = Buf(E, st, 't'); ex = [t.p, t.n]
        return ([r] if string else []) + [s.p, s.n] + ex, (s, t, r)
    return f

def ends(s, t, left, right, lo, hi):
    """[lo, hi) is what remains: characters outside are trimmable, the end characters are not"""
    conj = [ULE(lo, hi), ULE(hi, s.n)]
    conj.append(forall('i', 0, lo, lambda i: isin(t, s[i])) if left else lo == 0)
    conj.append(forall('i', hi, s.n, lambda i: isin(t, s[i])) if right else hi == s.n)
    if left: conj.append(Or(lo == hi, Not(isin(t, s[lo]))))
    if right: conj.append(Or(lo == hi, Not(isin(t, s[S(hi - 1)]))))
    return And(*conj)

def post_sv(left, right):
    def f(E, st, ret, c):
        s, t, _ = c; p, l = ret
        if p.obj == s.obj:
            lo, hi = S(p.off), S(p.off + l)
            E.oblige(st, And(ULE(lo, s.n), ULE(l, s.n - lo)), 'post', 'result lies within the input')
            E.oblige(st, ends(s, t, left, right, lo, hi), 'post', 'exactly the trimmable ends are removed')
        else:
            E.oblige(st, l == 0, 'post', 'a result outside the input is empty')
            E.oblige(st, forall('i', 0, s.n, lambda i: isin(t, s[i])), 'post', 'empty only if every character is trimmable')
    return f

def post_str(left, right):
    def f(E, st, ret, c):
        s, t, r = c; o = string_at(E, st, r)
        lo, hi = BitVec(fresh_name('lo'), 64), BitVec(fresh_name('hi'), 64)
        k = BitVec(fresh_name('k'), 64)
        E.oblige(st, ForAll([lo, hi, k], Implies(ends(s, t, left, right, lo, hi), And(o.len == hi - lo, Implies(ULT(k, hi - lo), Select(o.arr, k) == s[S(lo + k)])))),
                 'post', 'the result is the input without exactly the trimmable ends')
        no_leaks(E, st, [r])
    return f

PROOFS = []
for fn, l, r in (('trim', 1, 1), ('trim_left', 1, 0), ('trim_right', 0, 1)):
    for d in (0, 1):
        x = '_d' if d else ''
        PROOFS.append(Proof(fn + '_sv' + x, 'r_%s_sv%s' % (fn, x), 'text.cc', setup(0, d), post_sv(l, r)))
        PROOFS.append(Proof(fn + x, 'r_%s%s' % (fn, x), 'text.cc', setup(1, d), post_str(l, r)))
