"""C15: changing the capacity of a SlidingBuffer keeps exactly the elements it promises; SlidingBufferExposed's range."""
from .C14 import *
from . import C14
ASSUME = C14.ASSUME
PROOFS = []
def add(name, root, su, po, **kw):
    k = dict(KW); k.update(kw)
    PROOFS.append(Proof(name, root, 'sliding.cc', su, po, **k))
def newcap(E, st, s):
    n = E.fresh(st, 'n', BV64); st.assume(ULE(n, PMAX)); return [(n, n)]
def resized(front):
    def po(E, st, ret, c):
        s, (n,) = c; o = s.v0
        k = S(If(ULT(n, o.size), n, o.size))
        s.check(E, st, k, o.at if front else (lambda i: o.at(S(o.size - k + i))), cap=n)
    return po
for pre, nm in (('d', 'SlidingBuffer'), ('e', 'SlidingBufferExposed')):
    for r, f in (('resize', 1), ('resize_f', 1), ('resize_b', 0), ('reserve', 1), ('reserve_b', 0)):
        add('%s::%s' % (nm, r), pre + '_' + r, state(pre, 0, None, newcap), resized(f))
def rng(end):
    def po(E, st, ret, c):
        s = c[0]; v = s.v0
        if not isinstance(ret, Ptr) or ret.obj != v.store: E.oblige(st, False, 'post', 'refers to the storage'); return
        contiguous = And(Not(v.full), ULE(v.begin + v.size, v.cap))
        E.oblige(st, ret.off == If(contiguous, v.begin + (v.size if end else 0), v.cap if end else bv(0)), 'post',
                 'the range is exactly the elements, if they are contiguous, else all of the storage')
        same(E, st, c)
    return po
for r, e in (('begin', 0), ('cbegin', 0), ('end', 1), ('cend', 1)):
    add('SlidingBufferExposed::' + r, 'e_' + r, state('e', 0), rng(e))
