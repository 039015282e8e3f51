"""C16: SmallVector behaves as std::vector: contents, element lifetimes, storage, capacity.

The element type is an opaque class whose operations are contracts; its one byte is ghost state: 0 = raw
storage (no object), 255 = moved-from object, anything else = the object's value."""
from ..spec import *
from .C14 import CAT
ASSUME = ['the element class is one byte wide and its operations follow their contracts; vectors have at most 2^32-1 elements',
          'memory allocation succeeds; internal capacity 3']
PROOFS = []
MOVED = bv(255, 8)
INNER = 3
I8 = Ty('int', 8)
def get(E, st, p, where): return E.load(st, p, I8, where)
def put(E, st, p, v, where): E.store(st, p, v, I8, where)
def need_raw(E, st, p, where):
    E.oblige(st, get(E, st, p, where) == 0, 'lifetime', where + ': element constructed in raw storage', assume=True)
def need_live(E, st, p, where):
    v = get(E, st, p, where)
    E.oblige(st, v != 0, 'lifetime', where + ': operand is a live element', assume=True)
    return v
def ops(throwing):
    """contracts of the element's operations"""
    def wrap(f):
        def h(E, st, a, i, where):
            if throwing:
                f(E, st.fork(), a, where)          # preconditions hold in any case
                yield ('unwind', st.fork(), Exc('element'))
                emit, E.emit = E.emit, False
                try: r = f(E, st, a, where)
                finally: E.emit = emit
                yield ('ret', st, r)
            else: yield ('ret', st, f(E, st, a, where))
        return h
    def d(E, st, a, w): need_raw(E, st, a[0], w); put(E, st, a[0], bv(1, 8), w)
    def cc(E, st, a, w): v = need_live(E, st, a[1], w); need_raw(E, st, a[0], w); put(E, st, a[0], v, w)
    def mc(E, st, a, w): v = need_live(E, st, a[1], w); need_raw(E, st, a[0], w); put(E, st, a[0], v, w); put(E, st, a[1], MOVED, w)
    def ca(E, st, a, w): v = need_live(E, st, a[1], w); need_live(E, st, a[0], w); put(E, st, a[0], v, w); return a[0]
    def ma(E, st, a, w):
        v = need_live(E, st, a[1], w); need_live(E, st, a[0], w); put(E, st, a[1], MOVED, w); put(E, st, a[0], v, w); return a[0]
    def dt(E, st, a, i, w): need_live(E, st, a[0], w); put(E, st, a[0], bv(0, 8), w); yield ('ret', st, None)
    def eq(E, st, a, i, w): yield ('ret', st, S(need_live(E, st, a[0], w) == need_live(E, st, a[1], w)))
    return [(r'Obj::Obj\(\)', wrap(d)), (r'Obj::Obj\(Obj const&\)', wrap(cc)), (r'Obj::Obj\(Obj&&\)', wrap(mc)), (r'Obj::~Obj\(\)', dt),
            (r'Obj::operator=\(Obj const&\)', wrap(ca)), (r'Obj::operator=\(Obj&&\)', wrap(ma)), (r'operator==\(Obj const&, Obj const&\)', eq)]
def c_new(E, st, a, i, where):
    o = E.new_obj(st, 'block', E.z64(a[0]), 'heap')
    st.mem[o].segs.append(Seg(0, 1, 1, K(BV64, bv(0, 8)), 'bv'))
    yield ('ret', st, Ptr(o, bv(0)))
def c_delete(E, st, a, i, where):
    p = a[0]
    if p.obj is None: yield ('ret', st, None); return
    m = st.mem[p.obj]
    E.oblige(st, And(p.off == 0, BoolVal(m.kind == 'heap' and m.alive is True)), 'free', where + ': storage released once, as it was obtained')
    if m.kind == 'heap' and m.segs:
        k = BitVec(fresh_name('k'), 64); A = m.segs[0].arr
        E.oblige(st, ForAll([k], Implies(ULT(k, m.size), Select(A, k) == 0)), 'lifetime', where + ': no live elements in released storage')
    st.w(p.obj).alive = False
    yield ('ret', st, None)
HEAP = [(r'operator new\[\]\(unsigned long\)', c_new), (r'operator delete\[\]\(void\*(, unsigned long)?\)', c_delete)]

_layout = {}
def layout(E, st):
    """offsets of (internal array, data pointer, capacity, size), read off a default-constructed vector"""
    key = id(E.mod)
    if key in _layout: return _layout[key]
    def ask(k): return val(S([o for o in E.call_function(st.fork(), 's_off', [bv(k, 32)]) if o[0] == 'ret'][0][2]))
    n, w = ask(4), ask(5)
    s = st.fork(); ob = E.new_obj(s, 'probe', n, 'ext')
    outs = [o for o in E.call_function(s, 's_ctor', [Ptr(ob, bv(0))]) if o[0] == 'ret']
    c = outs[0][1].mem[ob].cells
    ptr = [o for o, (_, v) in c.items() if isinstance(v, Ptr) and v.obj == ob]
    cap = [o for o, (k, v) in c.items() if k == w and z3.is_expr(v) and is_val(v) and val(v) == INNER]
    sz = [o for o, (k, v) in c.items() if k == w and z3.is_expr(v) and is_val(v) and val(v) == 0]
    if len(ptr) != 1 or len(cap) != 1 or len(sz) != 1: raise Unsupported('layout of SmallVector: %r' % c)
    _layout[key] = (val(c[ptr[0]][1].off), ptr[0], cap[0], sz[0], n, w)
    return _layout[key]

class SV:
    def __init__(s, E, st, name='vec'):
        s.lay = layout(E, st)
        s.obj = E.new_obj(st, name, s.lay[4], 'ext'); s.p = Ptr(s.obj, bv(0)); s.name = name
        st.mem[s.obj].segs.append(Seg(s.lay[0], 1, 1, K(BV64, bv(0, 8)), 'bv', INNER))
    def fill(s, E, st, heap):
        i, p, c, z, n, w = s.lay
        m = st.w(s.obj)
        size = E.fresh(st, s.name + '_size', BitVecSort(8 * w)); arr = E.fresh(st, s.name, BYTES)
        if heap:
            cap = E.fresh(st, s.name + '_cap', BitVecSort(8 * w)); bs = E.fresh(st, s.name + '_block', BV64)
            st.assume(And(UGT(cap, INNER), ULE(ZeroExt(64 - 8 * w, cap), bs), ULE(bs, PMAX)))
            b = E.new_obj(st, s.name + '_block', bs, 'heap'); st.mem[b].segs.append(Seg(0, 1, 1, arr, 'bv'))
            m.cells[p] = (8, Ptr(b, bv(0)))
        else:
            cap = bv(INNER, 8 * w); bs = bv(INNER)
            m.cells[p] = (8, Ptr(s.obj, bv(i))); m.segs[0].arr = arr
        m.cells[c] = (w, cap); m.cells[z] = (w, size)
        st.assume(ULE(size, cap))
        n64 = ZeroExt(64 - 8 * w, size)
        st.assume(forall('i', 0, n64, lambda k: Select(arr, k) != 0)); st.assume(forall('i', n64, bs, lambda k: Select(arr, k) == 0))
        s.v0 = s.view(E, st)
        return s
    def view(s, E, st):
        i, p, c, z, n, w = s.lay; m = st.mem[s.obj]
        class V: pass
        v = V(); v.data = m.cells[p][1]; v.cap32, v.size32 = m.cells[c][1], m.cells[z][1]
        v.cap, v.size = S(ZeroExt(64 - 8 * w, v.cap32)), S(ZeroExt(64 - 8 * w, v.size32))
        v.inner = v.data.obj == s.obj
        v.ok = isinstance(v.data, Ptr) and (v.inner or (v.data.obj in st.mem and st.mem[v.data.obj].kind == 'heap' and st.mem[v.data.obj].alive is True))
        v.inarr = m.segs[0].arr
        if v.ok:
            mm = st.mem[v.data.obj]; v.arr = mm.segs[0].arr; v.bs = bv(INNER) if v.inner else mm.size; v.base = i if v.inner else 0
            v.at = lambda k: Select(v.arr, k)
        return v
    def check(s, E, st, size=None, at=None, cap=None, what=''):
        """representation invariant, and (if given) the contents: `size` elements, element i is at(i)"""
        what = what or s.name + ': '
        v = s.view(E, st)
        E.oblige(st, BoolVal(v.ok), 'invariant', what + 'data pointer is valid')
        if not v.ok: return v
        E.oblige(st, v.data.off == v.base, 'invariant', what + 'data pointer is at the start of the storage')
        E.oblige(st, (v.cap == INNER) if v.inner else And(UGT(v.cap, INNER), ULE(v.cap, v.bs)), 'invariant', what + 'capacity is that of the storage')
        E.oblige(st, ULE(v.size, v.cap), 'invariant', what + 'size <= capacity', assume=True)
        if size is not None: E.oblige(st, v.size == size, 'post', what + 'number of elements', assume=True)
        k = BitVec(fresh_name('k'), 64)
        if at is not None: E.oblige(st, ForAll([k], Implies(ULT(k, v.size), v.at(k) == at(k))), 'post', what + 'elements in order')
        else: E.oblige(st, ForAll([k], Implies(ULT(k, v.size), v.at(k) != 0)), 'lifetime', what + 'all elements are alive')
        E.oblige(st, ForAll([k], Implies(And(ULE(v.size, k), ULT(k, v.bs)), v.at(k) == 0)), 'lifetime', what + 'no element is alive beyond the size')
        if not v.inner: E.oblige(st, ForAll([k], Implies(ULT(k, INNER), Select(v.inarr, k) == 0)), 'lifetime', what + 'no element is alive in unused internal storage')
        if cap is not None: E.oblige(st, cap(v), 'post', what + 'capacity')
        return v
def no_leak(E, st, *vecs):
    own = {v.view(E, st).data.obj for v in vecs}
    if len(own) < len(vecs): E.oblige(st, False, 'invariant', 'the vectors share storage')
    for oid, m in st.mem.items():
        if m.kind == 'heap' and m.alive is True and oid not in own and m.name != 'excobj' and oid != 'exc': E.oblige(st, False, 'leak', m.name)
        if m.kind == 'stack' and len(m.cells) == 1 and 0 in m.cells and m.cells[0][0] == 1 and val(m.size) == 1:
            E.oblige(st, m.cells[0][1] == 0, 'lifetime', 'local element %s is destroyed' % m.name)

KW = dict(contracts=ops(False) + HEAP + CAT, keep=(r'^[^()]*gul14::cat',), light=True, closed=True, split=True)
def add(name, root, su, po, **kw):
    k = dict(KW); k.update(kw)
    PROOFS.append(Proof(name, root, 'small.cc', su, po, **k))
class Ctx: pass
def start(heap, extra=None, cond=None):
    def f(E, st):
        E.zero_stack = True
        c = Ctx(); c.v = SV(E, st, 'vec').fill(E, st, heap); c.o = c.v.v0; c.E = E
        args = extra(E, st, c) if extra else []
        if cond: st.assume(cond(c))
        return [c.v.p] + list(args), c
    return f
def val_arg(E, st, c, name='value'):
    c.val = E.fresh(st, name, BitVecSort(8)); st.assume(c.val != 0)
    o = E.new_obj(st, name, 1, 'ext'); st.mem[o].cells[0] = (1, c.val); c.vo = o
    return Ptr(o, bv(0))
def val_own(E, st, c):
    i = E.fresh(st, 'own', BV64); st.assume(ULT(i, c.o.size)); c.val = c.o.at(i); c.vo = None
    return Ptr(c.o.data.obj, S(c.o.data.off + i))
def u32(E, st, c, name='n'):
    x = E.fresh(st, name, BitVecSort(32)); setattr(c, name + '32', x); setattr(c, name, S(ZeroExt(32, x))); return x
def idx(E, st, c, incl):
    i = E.fresh(st, 'i', BV64); st.assume(ULE(i, c.o.size) if incl else ULT(i, c.o.size)); c.i = i; return i
def rng(E, st, c):
    """external array of elements"""
    c.src = Buf(E, st, 'src'); st.assume(forall('i', 0, c.src.n, lambda k: c.src[k] != 0)); return c.src
MAX = bv((1 << 32) - 1)
def done(size, at, ret=None, keep_val=True, cap=None):
    def po(E, st, r, c):
        c.v.check(E, st, size(c), lambda k: at(c, k), cap=(lambda v: cap(c, v)) if cap else None)
        no_leak(E, st, c.v)
        if getattr(c, 'vo', None):
            v = st.mem[c.vo].cells[0][1]
            E.oblige(st, v == c.val if keep_val else v != 0, 'post', 'the argument')
        if getattr(c, 'src', None): E.oblige(st, BoolVal(st.mem[c.src.obj].segs[0].arr.eq(c.src.a)), 'post', 'the source range is unchanged')
        if ret is not None:
            v = c.v.view(E, st)
            if not isinstance(r, Ptr) or r.obj != v.data.obj: E.oblige(st, False, 'post', 'refers to an element'); return
            E.oblige(st, r.off == v.data.off + ret(c), 'post', 'refers to the right element')
    return po
def both(name, root, extra, po, cond=None, **kw):
    for h, nm in ((0, 'internal'), (1, 'allocated')): add('%s [%s]' % (name, nm), root, start(h, extra, cond), po, **kw)
nosame = lambda c, v: v.cap == c.o.cap
same_at = lambda c, k: c.o.at(k)
one_more = lambda c: ULT(c.o.size, MAX)
ins1 = lambda c, k: If(ULT(k, c.i), c.o.at(k), If(k == c.i, c.val, c.o.at(k - 1)))
app1 = lambda c, k: If(k == c.o.size, c.val, c.o.at(k))
for al, va in (('', val_arg), (' of an own element', val_own)):
    both('push_back' + al, 's_push_back', lambda E, st, c, va=va: [va(E, st, c)], done(lambda c: c.o.size + 1, app1), one_more)
    both('emplace_back' + al, 's_emplace_back', lambda E, st, c, va=va: [va(E, st, c)], done(lambda c: c.o.size + 1, app1, ret=lambda c: c.o.size), one_more)
    both('insert' + al, 's_insert', lambda E, st, c, va=va: [idx(E, st, c, 1), va(E, st, c)], done(lambda c: c.o.size + 1, ins1, ret=lambda c: c.i), one_more)
    both('emplace' + al, 's_emplace', lambda E, st, c, va=va: [idx(E, st, c, 1), va(E, st, c)], done(lambda c: c.o.size + 1, ins1, ret=lambda c: c.i), one_more)
both('push_back(move)', 's_push_back_m', lambda E, st, c: [val_arg(E, st, c)], done(lambda c: c.o.size + 1, app1, keep_val=False), one_more)
both('emplace_back(move)', 's_emplace_back_m', lambda E, st, c: [val_arg(E, st, c)], done(lambda c: c.o.size + 1, app1, keep_val=False, ret=lambda c: c.o.size), one_more)
def d1(E, st, c): c.val = bv(1, 8); return []
both('emplace_back()', 's_emplace_back_0', d1, done(lambda c: c.o.size + 1, app1, ret=lambda c: c.o.size), one_more)
both('insert(move)', 's_insert_m', lambda E, st, c: [idx(E, st, c, 1), val_arg(E, st, c)], done(lambda c: c.o.size + 1, ins1, keep_val=False, ret=lambda c: c.i), one_more)
both('pop_back', 's_pop_back', None, done(lambda c: c.o.size - 1, same_at, cap=nosame), lambda c: UGT(c.o.size, 0))
SLOW = dict(slow=2)
fits = lambda c: ULE(c.o.size + c.n, MAX)
insn = lambda c, k: If(ULT(k, c.i), c.o.at(k), If(ULT(k, c.i + c.n), c.val, c.o.at(k - c.n)))
insr = lambda c, k: If(ULT(k, c.i), c.o.at(k), If(ULT(k, c.i + c.n), c.src[k - c.i], c.o.at(k - c.n)))
def a_rng(E, st, c):
    r = rng(E, st, c); c.n = r.n; return [r.p, r.n]
for al, va in (('', val_arg), (' of an own element', val_own)):
    both('insert(n)' + al, 's_insert_n', lambda E, st, c, va=va: [idx(E, st, c, 1), u32(E, st, c), va(E, st, c)], done(lambda c: c.o.size + c.n, insn, ret=lambda c: c.i), fits, **SLOW)
    both('resize(value)' + al, 's_resize_v', lambda E, st, c, va=va: [u32(E, st, c), va(E, st, c)], done(lambda c: c.n, lambda c, k: If(ULT(k, c.o.size), c.o.at(k), c.val)))
for nm, r in (('insert(range)', 's_insert_r'), ('insert(list)', 's_insert_il')):
    both(nm, r, lambda E, st, c: [idx(E, st, c, 1)] + a_rng(E, st, c), done(lambda c: c.o.size + c.n, insr, ret=lambda c: c.i), fits, **SLOW)
both('erase', 's_erase', lambda E, st, c: [idx(E, st, c, 0)], done(lambda c: c.o.size - 1, lambda c, k: If(ULT(k, c.i), c.o.at(k), c.o.at(k + 1)), ret=lambda c: c.i, cap=nosame))
def a_ij(E, st, c):
    i = idx(E, st, c, 1); c.j = E.fresh(st, 'j', BV64); st.assume(And(ULE(c.i, c.j), ULE(c.j, c.o.size))); return [i, c.j]
both('erase(range)', 's_erase_r', a_ij, done(lambda c: c.o.size - (c.j - c.i), lambda c, k: If(ULT(k, c.i), c.o.at(k), c.o.at(k + c.j - c.i)), ret=lambda c: c.i, cap=nosame))
both('clear', 's_clear', None, done(lambda c: bv(0), same_at, cap=nosame))
both('resize', 's_resize', lambda E, st, c: [u32(E, st, c)], done(lambda c: c.n, lambda c, k: If(ULT(k, c.o.size), c.o.at(k), bv(1, 8))))
both('reserve', 's_reserve', lambda E, st, c: [u32(E, st, c)], done(lambda c: c.o.size, same_at, cap=lambda c, v: And(UGE(v.cap, c.n), UGE(v.cap, c.o.cap))))
both('shrink_to_fit', 's_shrink', None, done(lambda c: c.o.size, same_at, cap=lambda c, v: v.cap == If(ULE(c.o.size, INNER), bv(INNER), c.o.size)))
srcat = lambda c, k: c.src[k]
both('assign(n, value)', 's_assign_n', lambda E, st, c: [u32(E, st, c), val_arg(E, st, c)], done(lambda c: c.n, lambda c, k: c.val))
small_n = lambda c: ULE(c.n, MAX)
both('assign(range)', 's_assign_r', a_rng, done(lambda c: c.n, srcat), small_n)
both('assign(list)', 's_assign_il', a_rng, done(lambda c: c.n, srcat), small_n)
def po_eq_il(E, st, r, c):
    done(lambda c: c.n, srcat)(E, st, None, c); E.oblige(st, BoolVal(isinstance(r, Ptr) and r.obj == c.v.obj), 'post', 'returns *this')
both('operator=(list)', 's_eq_il', a_rng, po_eq_il, small_n)
# construction: the object is raw storage before
def fresh(extra=None, cond=None):
    def f(E, st):
        E.zero_stack = True
        c = Ctx(); c.v = SV(E, st, 'vec'); args = extra(E, st, c) if extra else []
        if cond: st.assume(cond(c))
        return [c.v.p] + list(args), c
    return f
add('constructor()', 's_ctor', fresh(), done(lambda c: bv(0), lambda c, k: bv(0, 8)))
add('constructor(n)', 's_ctor_n', fresh(lambda E, st, c: [u32(E, st, c)]), done(lambda c: c.n, lambda c, k: bv(1, 8)))
add('constructor(n, value)', 's_ctor_nv', fresh(lambda E, st, c: [u32(E, st, c), val_arg(E, st, c)]), done(lambda c: c.n, lambda c, k: c.val))
add('constructor(range)', 's_ctor_r', fresh(a_rng, small_n), done(lambda c: c.n, srcat))
add('constructor(list)', 's_ctor_il', fresh(a_rng, small_n), done(lambda c: c.n, srcat))
def other(E, st, c, heap): c.w = SV(E, st, 'other').fill(E, st, heap); c.oo = c.w.v0; return [c.w.p]
def po_two(first, second, ret=False, same_data=False):
    def po(E, st, r, c):
        c.v.check(E, st, *first(c)); c.w.check(E, st, *second(c)); no_leak(E, st, c.v, c.w)
        if ret: E.oblige(st, BoolVal(isinstance(r, Ptr) and r.obj == c.v.obj), 'post', 'returns *this')
    return po
wsame = lambda c: (c.oo.size, c.oo.at)
vsame = lambda c: (c.o.size, c.o.at)
empty = lambda c: (bv(0), lambda k: bv(0, 8))
HN = ((0, 'internal'), (1, 'allocated'))
for h, nm in HN:
    ex = lambda E, st, c, h=h: other(E, st, c, h)
    add('copy constructor [%s]' % nm, 's_ctor_c', fresh(ex), po_two(wsame, wsame))
    add('move constructor [%s]' % nm, 's_ctor_m', fresh(ex), po_two(wsame, empty))
    for g, nm2 in HN:
        t = ' [%s, %s]' % (nm2, nm)
        add('copy assignment' + t, 's_copy', start(g, ex), po_two(wsame, wsame, True))
        add('move assignment' + t, 's_move', start(g, ex), po_two(wsame, empty, True))
        add('swap' + t, 's_swap', start(g, ex), po_two(wsame, vsame)); add('gul14::swap' + t, 's_swap_f', start(g, ex), po_two(wsame, vsame))
        for neg in (0, 1):
            def po_eq(E, st, r, c, neg=neg):
                k = BitVec(fresh_name('k'), 64)
                eq = And(c.o.size == c.oo.size, ForAll([k], Implies(ULT(k, c.o.size), c.o.at(k) == c.oo.at(k))))
                r = r if z3.is_bool(r) else r != 0
                E.oblige(st, (Not(r) if neg else r) == eq, 'post', 'equal iff same size and equal elements'); po_two(vsame, wsame)(E, st, None, c)
            add(('operator!=' if neg else 'operator==') + t, 's_unequal' if neg else 's_equal', start(g, ex), po_eq, light=False, closed=False, split=False)
    def self_arg(E, st, c): c.vo = None; return [c.v.p]
    for nm3, r in (('self copy assignment', 's_copy'), ('self move assignment', 's_move')):
        def po_self(E, st, r, c):
            c.v.check(E, st, c.o.size, c.o.at); no_leak(E, st, c.v); E.oblige(st, BoolVal(isinstance(r, Ptr) and r.obj == c.v.obj), 'post', 'returns *this')
        add('%s [%s]' % (nm3, nm), r, start(h, self_arg), po_self)
    def po_dtor(E, st, r, c):
        k = BitVec(fresh_name('k'), 64)
        E.oblige(st, ForAll([k], Implies(ULT(k, INNER), Select(st.mem[c.v.obj].segs[0].arr, k) == 0)), 'lifetime', 'all elements are destroyed')
        for oid, m in st.mem.items():
            if m.kind == 'heap' and m.alive is True: E.oblige(st, False, 'leak', m.name)
    add('destructor [%s]' % nm, 's_dtor', start(h), po_dtor)
def unchanged(ret=None, value=None):
    def po(E, st, r, c):
        c.v.check(E, st, c.o.size, c.o.at, lambda v: v.cap == c.o.cap); no_leak(E, st, c.v)
        if ret is not None:
            if not isinstance(r, Ptr) or r.obj != c.o.data.obj: E.oblige(st, False, 'post', 'refers to the storage'); return
            E.oblige(st, r.off == c.o.data.off + ret(c), 'post', 'refers to the right element')
        if value is not None: E.oblige(st, value(r, c), 'post', 'value')
    return po
for x in ('', '_c'):
    def po_at(E, st, r, c): E.oblige(st, ULT(c.n, c.o.size), 'post', 'returns only for valid indices'); unchanged(lambda c: c.n)(E, st, r, c)
    def th_at(E, st, exc, c):
        E.oblige(st, UGE(c.n, c.o.size), 'post', 'throws only for invalid indices')
        E.oblige(st, BoolVal('out_of_range' in str(exc)), 'post', 'throws std::out_of_range'); unchanged()(E, st, None, c)
    both('at' + x, 's_at' + x, lambda E, st, c: [u32(E, st, c)], po_at, on_throw=th_at, min_outcomes=2)
    both('operator[]' + x, 's_idx' + x, lambda E, st, c: [u32(E, st, c)], unchanged(lambda c: c.n), lambda c: ULT(c.n, c.o.size))
    both('front' + x, 's_front' + x, None, unchanged(lambda c: bv(0)), lambda c: UGT(c.o.size, 0))
    both('back' + x, 's_back' + x, None, unchanged(lambda c: c.o.size - 1), lambda c: UGT(c.o.size, 0))
    for b in ('data', 'begin'): both(b + x, 's_' + b + x, None, unchanged(lambda c: bv(0)))
    both('end' + x, 's_end' + x, None, unchanged(lambda c: c.o.size))
for b in ('cbegin', 'rend', 'crend'): both(b, 's_' + b, None, unchanged(lambda c: bv(0)))
for b in ('cend', 'rbegin', 'crbegin'): both(b, 's_' + b, None, unchanged(lambda c: c.o.size))
both('size', 's_size', None, unchanged(value=lambda r, c: r == c.o.size32))
both('capacity', 's_capacity', None, unchanged(value=lambda r, c: r == c.o.cap32))
both('inner_capacity', 's_inner', None, unchanged(value=lambda r, c: r == INNER))
both('empty', 's_empty', None, unchanged(value=lambda r, c: (r if z3.is_bool(r) else r != 0) == (c.o.size == 0)))
