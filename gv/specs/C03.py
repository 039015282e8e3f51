"""C03: prefix/suffix/substring predicates, exact and ASCII-case-insensitive."""
from ..spec import *

def same(nocase):
    return (lambda a, b: lower(a) == lower(b)) if nocase else (lambda a, b: a == b)

def matches(eq, s, t, r):
    return And(ULE(t.n, s.n), ULE(r, s.n - t.n), forall('i', 0, t.n, lambda i: eq(s[S(r + i)], t[i])))

class One:
    def __init__(s, E, st, c):
        s.n = bv(1); s.a = E.fresh(st, 'one', BYTES); st.assume(Select(s.a, bv(0)) == c)
    def __getitem__(s, i): return Select(s.a, i)

def setup(kind):
    def f(E, st):
        s = Buf(E, st, 's')
        if kind == 'sv':
            t = Buf(E, st, 't'); return [s.p, s.n, t.p, t.n], (s, t)
        c = BitVec('c', 8); return [s.p, s.n, c], (s, One(E, st, c))
    return f

def post(fn, nocase):
    eq = same(nocase)
    def f(E, st, r, c):
        s, t = c
        wit = witnesses(st) + [bv(0)]
        if fn == 'starts_with': g = matches(eq, s, t, bv(0)); ng = Not(g)
        elif fn == 'ends_with': g = matches(eq, s, t, S(s.n - t.n)); ng = Not(g)
        elif fn == 'equals': g = And(s.n == t.n, matches(eq, s, t, bv(0))); ng = Not(g)
        else:
            g = exists_w('p', lambda p: matches(eq, s, t, p), wit)
            p = BitVec(fresh_name('p'), 64)
            ng = ForAll([p], Not(matches(eq, s, t, p)))
        E.oblige(st, Implies(r, g), 'post', 'true only if it occurs')
        E.oblige(st, Implies(Not(r), ng), 'post', 'false only if it does not occur')
    return f

PROOFS = []
for fn in ('contains', 'starts_with', 'ends_with', 'equals'):
    for nc in ('', '_nocase'):
        if fn == 'equals' and not nc: continue
        for kind in ('sv', 'ch'):
            if fn == 'equals' and kind == 'ch': continue
            PROOFS.append(Proof('%s%s(%s)' % (fn, nc, kind), 'r_%s%s_%s' % (fn, nc, kind), 'text.cc', setup(kind), post(fn, bool(nc))))
