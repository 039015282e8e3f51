"""C01: searching in a string_view."""
from ..spec import *

class One:
    """a one-character needle"""
    def __init__(s, E, st, c):
        s.n = bv(1); s.a = E.fresh(st, 'one', BYTES); st.assume(Select(s.a, bv(0)) == c)
    def __getitem__(s, i): return Select(s.a, i)

def match(s, t, r):
    return And(ULE(t.n, s.n), ULE(r, s.n - t.n), eqrange(s.a, r, t.a, bv(0), t.n))

def isin(t, c):
    return exists('i', 0, t.n, lambda i: t[i] == c)

def post_find(E, st, r, c):
    s, t, pos = c
    E.oblige(st, Implies(r != NPOS, And(ULE(pos, r), match(s, t, r))), 'post', 'a returned position is a match at or after pos')
    j = BitVec(fresh_name('j'), 64)
    E.oblige(st, ForAll([j], Implies(And(ULE(pos, j), ULE(j, s.n), Or(r == NPOS, ULT(j, r))), Not(match(s, t, j)))), 'post', 'no earlier match')

def post_rfind(E, st, r, c):
    s, t, pos = c
    E.oblige(st, Implies(r != NPOS, And(ULE(r, pos), match(s, t, r))), 'post', 'a returned position is a match at or before pos')
    j = BitVec(fresh_name('j'), 64)
    E.oblige(st, ForAll([j], Implies(And(ULE(j, pos), ULE(j, s.n), Or(r == NPOS, UGT(j, r))), Not(match(s, t, j)))), 'post', 'no later match')

def post_set(first, neg):
    def post(E, st, r, c):
        s, t, pos = c
        ok = (lambda j: Not(isin(t, s[j]))) if neg else (lambda j: isin(t, s[j]))
        E.oblige(st, Implies(r != NPOS, And(ULT(r, s.n), ULE(pos, r) if first else ULE(r, pos), ok(r))), 'post', 'a returned position qualifies')
        j = BitVec(fresh_name('j'), 64)
        side = (And(ULE(pos, j), Or(r == NPOS, ULT(j, r))) if first else And(ULE(j, pos), Or(r == NPOS, UGT(j, r))))
        E.oblige(st, ForAll([j], Implies(And(ULT(j, s.n), side), Not(ok(j)))), 'post', 'no position closer to the start of the search qualifies')
    return post

FUN = {
    'find': (post_find, 0), 'rfind': (post_rfind, 1),
    'find_first_of': (post_set(1, 0), 0), 'find_last_of': (post_set(0, 0), 1),
    'find_first_not_of': (post_set(1, 1), 0), 'find_last_not_of': (post_set(0, 1), 1),
}

def setup(kind, back):
    dflt = NPOS if back else bv(0)
    def f(E, st):
        pos = BitVec('pos', 64) if not kind.startswith('d') else dflt
        extra = [pos] if not kind.startswith('d') else []
        if kind == 'null':
            t = Buf(E, st, 't'); s = Buf(E, st, 's', length=bv(0))
            return [t.p, t.n] + extra, (s, t, pos)
        s = Buf(E, st, 's')
        k = kind.lstrip('d')
        if k in ('sv', 'pn'):
            t = Buf(E, st, 't')
            return [s.p, s.n, t.p, t.n] + extra, (s, t, pos)
        if k == 'ch':
            c = BitVec('c', 8)
            return [s.p, s.n, c] + extra, (s, One(E, st, c), pos)
        t = CStr(E, st, 't')
        return [s.p, s.n, t.p] + extra, (s, t, pos)
    return f

PROOFS = []
for fn, (post, back) in FUN.items():
    for kind in ('sv', 'ch', 'pn', 'cs', 'dsv', 'dch', 'dcs', 'null'):
        PROOFS.append(Proof('%s(%s)' % (fn, kind), 'r_%s_%s' % (fn, kind), 'string_view.cc', setup(kind, back), post))
