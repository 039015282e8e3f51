"""C11: bit functions affect exactly the named bit; an out-of-range bit aborts instead of returning."""
from ..spec import *
PROOFS = []
def P(n, r, su, po, **kw): PROOFS.append(Proof(n, r, 'bits.cc', su, po, W=64, **kw))
def low(x, w): return x if x.size() == w else Extract(w - 1, 0, x)
def stop(E, st, why, c):
    v, b, w = c
    E.oblige(st, UGE(b, w), 'post', 'aborts only for a bit number outside the type')
def add(sg, w):
    nm = '%s%d' % ('i' if sg else 'u', w)
    T = '%sint%d_t' % ('' if sg else 'u', w)
    def su1(E, st):
        b = BitVec('b', 32); return [b], (None, b, w)
    def su2(E, st):
        v, b = BitVec('v', w), BitVec('b', 32); return [v, b], (v, b, w)
    def one(b):
        return (ZeroExt(w - 32, b) if w > 32 else Extract(w - 1, 0, b) if w < 32 else b), BitVecVal(1, w)
    def post(f):
        def g(E, st, r, c):
            v, b, _ = c
            E.oblige(st, ULT(b, w), 'post', 'returns only for a bit number inside the type')
            k, o = one(b)
            if z3.is_bool(r): E.oblige(st, r == f(v, k, o), 'post', 'tests exactly that bit'); return
            E.oblige(st, low(r, w) == f(v, k, o), 'post', 'changes exactly that bit')
        return g
    for fn, root, su, f in (('bit_set<%s>(bit)', 'bs1', su1, lambda v, k, o: o << k), ('bit_set(%s, bit)', 'bs', su2, lambda v, k, o: v | (o << k)),
                            ('bit_reset(%s, bit)', 'br', su2, lambda v, k, o: v & ~(o << k)), ('bit_flip(%s, bit)', 'bf', su2, lambda v, k, o: v ^ (o << k)),
                            ('bit_test(%s, bit)', 'bt', su2, lambda v, k, o: (LShR(v, k) & 1) == 1)):
        P(fn % T, 'r_%s_%s' % (root, nm), su, post(f), on_stop=stop, min_outcomes=2)
for sg in (1, 0):
    for w in (8, 16, 32, 64): add(sg, w)
P('is_big_endian', 'r_big', lambda E, st: ([], None), lambda E, st, r, c: E.oblige(st, Not(r), 'post', 'x86-64 is not big-endian'))
P('is_little_endian', 'r_little', lambda E, st: ([], None), lambda E, st, r, c: E.oblige(st, r, 'post', 'x86-64 is little-endian'))
