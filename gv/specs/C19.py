"""C19: gul14::span is exactly the given range."""
from ..spec import *
ASSUME = ['span is instantiated for 2-byte elements, with dynamic extent and with extent 4']
PROOFS = []
def P(name, root, setup, post, **kw): PROOFS.append(Proof(name, root, 'span.cc', setup, post, **kw))

def su(names=(), pre=None, fixed=False, second=False):
    def f(E, st):
        s = Buf(E, st, 's', length=bv(4) if fixed else None, width=16)
        args = [s.p] + ([] if fixed else [s.n])
        t = None
        if second: t = Buf(E, st, 't', width=16); args += [t.p, t.n]
        xs = [BitVec(x, 64) for x in names]
        c = (s, t) + tuple(xs)
        if pre: st.assume(pre(s.n, *xs))
        return args + xs, c
    return f
def span_is(off, n, bytes_=1):
    """the returned (pointer, count) is n(size, args) elements from element off(size, args) on"""
    def po(E, st, ret, c):
        s = c[0]; p, l = ret
        if not isinstance(p, Ptr) or p.obj != s.obj: E.oblige(st, False, 'post', 'the span refers to the given range'); return
        E.oblige(st, And(p.off == 2 * off(s.n, *c[2:]), l == n(s.n, *c[2:])), 'post', 'start and size of the span')
        E.oblige(st, And(ULE(p.off, 2 * s.n), ULE(l, (bv(1) * (2 * s.n - p.off)) if bytes_ == 2 else LShR(2 * s.n - p.off, 1))), 'post', 'the span stays inside the given range')
    return po
whole = span_is(lambda n, *x: bv(0), lambda n, *x: n)
def empty(E, st, ret, c):
    p, l = ret
    E.oblige(st, l == 0, 'post', 'no elements'); E.oblige(st, BoolVal(isinstance(p, Ptr) and p.obj is None), 'post', 'null pointer')
P('default constructor', 's_default', lambda E, st: ([], None), empty)
P('default constructor, extent 0', 's_default0', lambda E, st: ([], None), empty)
for r in ('pn', 'pp', 'cont', 'ccont', 'conv', 'copy', 'iter', 'citer', 'fiter'): P('whole range: ' + r, 's_' + r, su(), whole)
for r in ('pn4', 'pp4', 'arr', 'arr4', 'carr', 'stdarr', 'stdarr4', 'cstdarr', 'cstdarr4', 'conv4', 'conv44', 'iter4'): P('whole range: ' + r, 's_' + r, su(fixed=True), whole)
P('assignment', 's_assign', su(second=True), whole)
def su_as4(E, st):
    s, t = Buf(E, st, 's', length=bv(4), width=16), Buf(E, st, 't', length=bv(4), width=16); return [s.p, t.p], (s, t)
P('assignment, extent 4', 's_assign4', su_as4, whole)
DYN = bv((1 << 64) - 1)
for fx, sfx in ((False, ''), (True, '4')):
    P('first(count)' + sfx, 's_first' + sfx, su(['k'], lambda n, k: ULE(k, n), fx), span_is(lambda n, k: bv(0), lambda n, k: k))
    P('last(count)' + sfx, 's_last' + sfx, su(['k'], lambda n, k: ULE(k, n), fx), span_is(lambda n, k: n - k, lambda n, k: k))
    P('subspan(offset)' + sfx, 's_sub' + sfx, su(['o'], lambda n, o: ULE(o, n), fx), span_is(lambda n, o: o, lambda n, o: n - o))
    P('subspan(offset,count)' + sfx, 's_subn' + sfx, su(['o', 'k'], lambda n, o, k: And(ULE(o, n), Or(k == DYN, ULE(k, n - o))), fx),
      span_is(lambda n, o, k: o, lambda n, o, k: If(k == DYN, n - o, k)))
    g = lambda n, *x: UGE(n, 3)
    P('first<3>' + sfx, 's_tfirst' + sfx, su((), g, fx), span_is(lambda n: bv(0), lambda n: bv(3)))
    P('last<3>' + sfx, 's_tlast' + sfx, su((), g, fx), span_is(lambda n: n - 3, lambda n: bv(3)))
    P('subspan<1>' + sfx, 's_tsub' + sfx, su((), g, fx), span_is(lambda n: bv(1), lambda n: n - 1))
    P('subspan<1,2>' + sfx, 's_tsubn' + sfx, su((), g, fx), span_is(lambda n: bv(1), lambda n: bv(2)))
    P('as_bytes' + sfx, 's_bytes' + sfx, su((), None, fx), span_is(lambda n: bv(0), lambda n: 2 * n, 2))
    P('as_writable_bytes' + sfx, 's_wbytes' + sfx, su((), None, fx), span_is(lambda n: bv(0), lambda n: 2 * n, 2))
    V = lambda f: (lambda E, st, r, c: E.oblige(st, r == f(c[0].n), 'post', 'value'))
    P('size' + sfx, 's_size' + sfx, su((), None, fx), V(lambda n: n)); P('size_bytes' + sfx, 's_size_bytes' + sfx, su((), None, fx), V(lambda n: 2 * n))
    P('empty' + sfx, 's_empty' + sfx, su((), None, fx), V(lambda n: n == 0))
    def elem(f):
        def po(E, st, r, c):
            if not isinstance(r, Ptr) or r.obj != c[0].obj: E.oblige(st, False, 'post', 'refers to the given range'); return
            E.oblige(st, r.off == 2 * f(c[0].n, *c[2:]), 'post', 'refers to the element')
        return po
    inside = lambda n, i: ULT(i, n); ne = lambda n: n != 0
    P('operator[]' + sfx, 's_idx' + sfx, su(['i'], inside, fx), elem(lambda n, i: i))
    P('front' + sfx, 's_front' + sfx, su((), ne, fx), elem(lambda n: bv(0))); P('back' + sfx, 's_back' + sfx, su((), ne, fx), elem(lambda n: n - 1))
    P('reverse iterator' + sfx, 's_riter' + sfx, su(['i'], inside, fx), elem(lambda n, i: n - 1 - i))
P('const reverse iterator', 's_criter', su(['i'], inside), elem(lambda n, i: n - 1 - i))
P('rend-rbegin', 's_rcount', su(), V(lambda n: n)); P('crend-crbegin', 's_crcount', su(), V(lambda n: n))
P('get<2>', 's_get4', su((), None, True), elem(lambda n: bv(2)))
TRUTH = {'eq': (0, 1, 0), 'ne': (1, 0, 1), 'lt': (1, 0, 0), 'gt': (0, 0, 1), 'le': (1, 1, 0), 'ge': (0, 1, 1)}
for op, tr in TRUTH.items():
    def po(E, st, r, c, tr=tr):
        """agrees with the lexicographical (signed) comparison of the two ranges"""
        s, t = c[:2]; d = BitVec(fresh_name('d'), 64); mn = S(If(ULT(s.n, t.n), s.n, t.n))
        a, b = Select(s.a, d), Select(t.a, d)
        neg, zero, pos = [r if x else Not(r) for x in tr]
        E.oblige(st, ForAll([d], Implies(And(ULE(d, mn), eqrange(s.a, bv(0), t.a, bv(0), d)),
            If(d == mn, If(s.n == t.n, zero, If(ULT(s.n, t.n), neg, pos)), And(Implies(a < b, neg), Implies(a > b, pos))))), 'post', 'agrees with the lexicographical order')
    P('operator ' + op, 's_' + op, su(second=True), po)
    P('operator ' + op + ', extent 4', 's_%s4' % op, su(second=True, fixed=True), po)
