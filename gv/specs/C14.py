"""C14: SlidingBuffer behaves as the sliding window over what was pushed (representation invariant + abstraction)."""
from ..spec import *
from ..vectors import *
from .. import ir
ASSUME = ['std::vector::resize/constructor and std::rotate contracts; memory allocation succeeds',
          'the element type is a byte (the templates are instantiated for unsigned char); capacity at most PTRDIFF_MAX']
PROOFS = []

class SB:
    """a SlidingBuffer in some state satisfying the representation invariant"""
    def __init__(s, E, st, pre, fixed=0):
        s.pre, s.fixed = pre, fixed
        s.off = []
        for k in range(5):
            r = [o for o in E.call_function(st.fork(), pre + '_off', [bv(k, 32)]) if o[0] == 'ret']
            s.off.append(val(S(r[0][2])))
        s.obj = E.new_obj(st, 'buffer', s.off[4], 'ext'); s.p = Ptr(s.obj, bv(0))
    def fill(s, E, st):
        """arbitrary state satisfying the invariant"""
        c = st.mem[s.obj].cells; o = s.off
        b, e = E.fresh(st, 'begin', BV64), E.fresh(st, 'end', BV64); f = E.fresh(st, 'full', BoolSort())
        c[o[0]] = (8, b); c[o[1]] = (8, e); c[o[2]] = (1, If(f, bv(1, 8), bv(0, 8)))
        arr = E.fresh(st, 'store', BYTES)
        if s.fixed:
            st.mem[s.obj].segs.append(Seg(o[3], 1, 1, arr, 'bv')); 
            st.mem[s.obj].segs[-1].count = s.fixed
            cap = bv(s.fixed)
        else:
            cap = E.fresh(st, 'cap', BV64); st.assume(ULE(cap, PMAX))
            make_vec(E, st, Ptr(s.obj, bv(o[3])), arr, cap, 'storage')
        s.v0 = s.view(E, st)
        st.assume(s.inv(s.v0))
        return s
    def view(s, E, st):
        c = st.mem[s.obj].cells; o = s.off
        class V: pass
        v = V(); v.begin, v.end = c[o[0]][1], c[o[1]][1]
        fl = c[o[2]][1]; v.full = fl if z3.is_bool(fl) else S(Extract(0, 0, fl) == 1); v.rawfull = fl
        if s.fixed: v.store, v.arr, v.cap, v.base = s.obj, st.mem[s.obj].segs[0].arr, bv(s.fixed), s.off[3]
        else:
            v.store, v.arr, v.cap = vec(E, st, Ptr(s.obj, bv(o[3]))); v.base = 0
            if v.arr is None: v.arr = K(BV64, bv(0, 8))
        v.size = S(If(v.full, v.cap, If(UGE(v.end, v.begin), v.end - v.begin, v.end + v.cap - v.begin)))
        v.at = lambda i: Select(v.arr, v.slot(i))
        v.slot = lambda i: S(If(UGE(v.begin + i, v.cap), v.begin + i - v.cap, v.begin + i))
        return v
    def inv(s, v):
        return If(v.cap == 0, And(v.begin == 0, v.end == 0, Not(v.full)),
                  And(ULT(v.begin, v.cap), ULT(v.end, v.cap), Implies(v.full, v.begin == v.end)))
    def check(s, E, st, size, at, cap=None, what=''):
        """invariant holds, and the contents are: `size` elements, element i is at(i)"""
        v = s.view(E, st)
        E.oblige(st, s.inv(v), 'invariant', what + 'representation invariant')
        if not z3.is_bool(v.rawfull): E.oblige(st, ULE(v.rawfull, 1), 'invariant', what + 'full flag is a bool')
        E.oblige(st, v.cap == (s.v0.cap if cap is None else cap), 'post', what + 'capacity')
        E.oblige(st, v.size == size, 'post', what + 'number of elements')
        i = BitVec(fresh_name('i'), 64)
        E.oblige(st, ForAll([i], Implies(ULT(i, size), v.at(i) == at(i))), 'post', what + 'elements in order')

KINDS = (('d', 'dynamic', 0), ('f', 'array of 5', 5), ('g', 'array of 1', 1), ('e', 'exposed', 0))
KW = dict(contracts=VEC, keep=KEEPVEC)
def add(name, root, su, po, **kw):
    k = dict(KW); k.update(kw)
    PROOFS.append(Proof(name, root, 'sliding.cc', su, po, **k))
def state(pre, fixed, pre_cond=None, extra=None):
    def f(E, st):
        s = SB(E, st, pre, fixed).fill(E, st)
        if pre_cond: st.assume(pre_cond(s.v0))
        ex = extra(E, st, s) if extra else []
        return [s.p] + [x for x, _ in ex], (s, [y for _, y in ex])
    return f
def value(alias):
    """the pushed element: somewhere else, or an element of the buffer itself"""
    def f(E, st, s):
        v = E.fresh(st, 'value', BitVecSort(8))
        o = E.new_obj(st, 'value', 1, 'ext'); st.mem[o].cells[0] = (1, v)
        return [(Ptr(o, bv(0)), v)]
    return f
def selfref(E, st, s):
    i = E.fresh(st, 'self', BV64); st.assume(ULT(i, s.v0.size))
    return [(Ptr(s.v0.store, S(s.v0.slot(i) + s.v0.base)), s.v0.at(i))]
def pushed(back):
    def po(E, st, ret, c):
        s, (val,) = c; o = s.v0
        if back: s.check(E, st, If(o.full, o.cap, o.size + 1), lambda i: If(o.full, If(i == o.cap - 1, val, o.at(S(i + 1))), If(i == o.size, val, o.at(i))))
        else: s.check(E, st, If(o.full, o.cap, o.size + 1), lambda i: If(i == 0, val, o.at(S(i - 1))))
    return po
def popped(back):
    def po(E, st, ret, c):
        o = c[0].v0
        c[0].check(E, st, o.size - 1, (lambda i: o.at(i)) if back else (lambda i: o.at(S(i + 1))))
    return po
def same(E, st, c): c[0].check(E, st, c[0].v0.size, c[0].v0.at)
def elem(index):
    """returns a pointer to element index(v, args)"""
    def po(E, st, ret, c):
        s, args = c; v = s.v0
        if not isinstance(ret, Ptr) or ret.obj != v.store:
            E.oblige(st, False, 'post', 'refers to the storage'); return
        E.oblige(st, ret.off == v.slot(index(v, args)) + v.base, 'post', 'refers to the element with this index')
        same(E, st, c)
    return po
def num(f):
    def po(E, st, ret, c):
        E.oblige(st, ret == f(c[0].v0, c[1]), 'post', 'value'); same(E, st, c)
    return po
def index(E, st, s):
    i = E.fresh(st, 'i', BV64); return [(i, i)]
def inside(E, st, s):
    i = E.fresh(st, 'i', BV64); st.assume(ULT(i, s.v0.size)); return [(i, i)]
def from_end(k):
    def f(E, st, s):
        i = E.fresh(st, 'i', BV64); st.assume(And(UGT(i, k), ULE(i, s.v0.size))); return [(i, i)]
    return f
def po_at(E, st, ret, c):
    E.oblige(st, ULT(c[1][0], c[0].v0.size), 'post', 'returns only for valid indices'); elem(lambda v, a: a[0])(E, st, ret, c)
def th_at(E, st, exc, c):
    E.oblige(st, UGE(c[1][0], c[0].v0.size), 'post', 'throws only for invalid indices')
    E.oblige(st, BoolVal('out_of_range' in str(exc)), 'post', 'throws std::out_of_range')
    same(E, st, c)
def c_cat(E, st, a, i, where):
    strings.make(E, st, a[0], name='msg'); s = strings.Str(E, st, a[0])
    n = E.fresh(st, 'msg_len', BV64); st.assume(ULT(n, PMAX)); s.set(s.arr, n)
    yield ('ret', st, None)
CAT = [(r'(.* )?gul14::cat.*', c_cat)]
nonempty = lambda v: UGT(v.size, 0)
for pre, nm, fx in KINDS:
    cap1 = lambda v: UGT(v.cap, 0)
    A = lambda n, r, su, po, pre=pre, nm=nm, **kw: add('%s [%s]' % (n, nm), pre + '_' + r, su, po, **kw)
    for al, ex in (('', value(0)), (' of an own element', selfref)):
        A('push_back' + al, 'push_back', state(pre, fx, cap1, ex), pushed(1)); A('push_front' + al, 'push_front', state(pre, fx, cap1, ex), pushed(0))
    A('push_back(move)', 'push_back_m', state(pre, fx, cap1, value(0)), pushed(1)); A('push_front(move)', 'push_front_m', state(pre, fx, cap1, value(0)), pushed(0))
    A('pop_back', 'pop_back', state(pre, fx, nonempty), popped(1)); A('pop_front', 'pop_front', state(pre, fx, nonempty), popped(0))
    def po_clear(E, st, ret, c): c[0].check(E, st, bv(0), lambda i: bv(0, 8))
    A('clear', 'clear', state(pre, fx), po_clear)
    A('size', 'size', state(pre, fx), num(lambda v, a: v.size)); A('capacity', 'capacity', state(pre, fx), num(lambda v, a: v.cap))
    A('filled', 'filled', state(pre, fx), num(lambda v, a: And(v.cap != 0, v.size == v.cap))); A('empty', 'empty', state(pre, fx), num(lambda v, a: v.size == 0))
    for x in ('', '_c'):
        A('operator[]' + x, 'idx' + x, state(pre, fx, None, inside), elem(lambda v, a: a[0]))
        A('at' + x, 'at' + x, state(pre, fx, None, index), po_at, on_throw=th_at, contracts=VEC + CAT, min_outcomes=2)
        A('front' + x, 'front' + x, state(pre, fx, nonempty), elem(lambda v, a: bv(0)))
        A('back' + x, 'back' + x, state(pre, fx, nonempty), elem(lambda v, a: v.size - 1))
    def su_ctor(E, st, pre=pre, fx=fx):
        s = SB(E, st, pre, fx)
        class V: pass
        s.v0 = V(); s.v0.cap = bv(fx)
        return [s.p], (s, [])
    def po_ctor(E, st, ret, c):
        s = c[0]
        if s.fixed and not st.mem[s.obj].segs: st.w(s.obj).segs.append(Seg(s.off[3], 1, 1, K(BV64, bv(0, 8)), 'bv'))
        s.check(E, st, bv(0), lambda i: bv(0, 8))
    A('default constructor', 'ctor', su_ctor, po_ctor)
def su_ctor_n(E, st):
    s = SB(E, st, 'd'); n = E.fresh(st, 'n', BV64); st.assume(ULE(n, PMAX))
    class V: pass
    s.v0 = V(); s.v0.cap = n
    return [s.p, n], (s, [])
add('constructor(capacity)', 'd_ctor_n', su_ctor_n, po_ctor)
for r, ex, ix in (('it_plus', inside, lambda v, a: a[0]), ('it_plus2', inside, lambda v, a: a[0]), ('it_idx', inside, lambda v, a: a[0]), ('it_pe', inside, lambda v, a: a[0]),
                  ('it_minus', from_end(0), lambda v, a: v.size - a[0]), ('it_me', from_end(0), lambda v, a: v.size - a[0]),
                  ('cit_plus', inside, lambda v, a: a[0]), ('cit_plus2', inside, lambda v, a: a[0]), ('cit_minus', from_end(0), lambda v, a: v.size - a[0]), ('cit_minus2', from_end(0), lambda v, a: v.size - a[0]),
                  ('rit', inside, lambda v, a: v.size - 1 - a[0]), ('rit2', from_end(0), lambda v, a: a[0] - 1), ('crit', inside, lambda v, a: v.size - 1 - a[0]), ('crit2', from_end(0), lambda v, a: a[0] - 1)):
    add('iterator ' + r, 'd_' + r, state('d', 0, None, ex), elem(ix))
def two(E, st, s):
    i = E.fresh(st, 'i', BV64); st.assume(And(ULT(i, s.v0.size), ULT(i + 2, s.v0.size))); return [(i, i)]
def two_end(E, st, s):
    i = E.fresh(st, 'i', BV64); st.assume(And(ULE(i, s.v0.size), ULE(i + 2, s.v0.size))); return [(i, i)]
add('iterator ++', 'd_it_inc', state('d', 0, None, two), elem(lambda v, a: a[0] + 2))
add('iterator --', 'd_it_dec', state('d', 0, None, two_end), elem(lambda v, a: v.size - a[0] - 2))
add('end() - begin()', 'd_dist', state('d', 0), num(lambda v, a: v.size))
def cmpargs(op):
    def f(E, st, s):
        i, j = E.fresh(st, 'i', BV64), E.fresh(st, 'j', BV64); st.assume(And(ULE(i, s.v0.size), ULE(j, s.v0.size)))
        return [(i, i), (j, j), (bv(op, 32), None)]
    return f
for op, f in enumerate((lambda i, j: i == j, lambda i, j: i != j, ULT, UGT, ULE, UGE)):
    add('iterator comparison %d' % op, 'd_cmp', state('d', 0, None, cmpargs(op)), num(lambda v, a, f=f: f(a[0], a[1])))
