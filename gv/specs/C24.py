"""C24: optional holds at most one object and manages its lifetime exactly; references are rebound, not copied.

The element type is an opaque class whose operations are contracts; its one byte is ghost state: 0 = raw storage
(no object), 255 = moved-from object, anything else = the object's value. Tri has a trivial destructor."""
from ..spec import *
from .C16 import get, put, need_live, I8, MOVED
ASSUME = ['the element class is one byte wide and its operations follow their contracts; its comparison operators describe one total order',
          'element destructors and comparisons do not throw']
PROOFS = []
HASH = z3.Function('hash_of_value', BitVecSort(8), BitVecSort(64))
BOA = 'bad_optional_access'
def ops(T, throwing):
    triv = T == 'Tri'
    def raw(E, st, p, w):
        v = get(E, st, p, w)
        if not triv: E.oblige(st, v == 0, 'lifetime', w + ': element constructed in raw storage', assume=True)
    def wrap(f):
        def h(E, st, a, i, where):
            if throwing:
                f(E, st.fork(), a, where)
                yield ('unwind', st.fork(), Exc('element'))
                emit, E.emit = E.emit, False
                try: r = f(E, st, a, where)
                finally: E.emit = emit
                yield ('ret', st, r)
            else: yield ('ret', st, f(E, st, a, where))
        return h
    def d(E, st, a, w): raw(E, st, a[0], w); put(E, st, a[0], bv(1, 8), w)
    def cc(E, st, a, w): v = need_live(E, st, a[1], w); raw(E, st, a[0], w); put(E, st, a[0], v, w)
    def mc(E, st, a, w): v = need_live(E, st, a[1], w); raw(E, st, a[0], w); put(E, st, a[0], v, w); put(E, st, a[1], MOVED, w)
    def ca(E, st, a, w): v = need_live(E, st, a[1], w); need_live(E, st, a[0], w); put(E, st, a[0], v, w); return a[0]
    def ma(E, st, a, w): v = need_live(E, st, a[1], w); need_live(E, st, a[0], w); put(E, st, a[1], MOVED, w); put(E, st, a[0], v, w); return a[0]
    def ic(E, st, a, w): return cc(E, st, [a[0], a[3]], w)
    def hs(E, st, a, i, w): yield ('ret', st, HASH(need_live(E, st, a[1], w)))
    def dt(E, st, a, i, w): need_live(E, st, a[0], w); put(E, st, a[0], bv(0, 8), w); yield ('ret', st, None)
    def rel(f):
        def h(E, st, a, i, w): yield ('ret', st, S(f(need_live(E, st, a[0], w), need_live(E, st, a[1], w))))
        return h
    L = [(r'X::X\(\)', wrap(d)), (r'X::X\(X const&\)', wrap(cc)), (r'X::X\(X&&\)', wrap(mc)), (r'X::~X\(\)', dt), (r'X::X\(std::initializer_list<int>, X const&\)', wrap(ic)), (r'std::hash<X>::operator\(\)\(X const&\) const', hs),
         (r'X::operator=\(X const&\)', wrap(ca)), (r'X::operator=\(X&&\)', wrap(ma))]
    for o, f in RELS.items(): L.append((r'operator%s\(X const&, X const&\)' % o, rel(f)))
    return [(p.replace('X', T), f) for p, f in L]
RELS = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: ULT(a, b), '>': lambda a, b: UGT(a, b), '<=': lambda a, b: ULE(a, b), '>=': lambda a, b: UGE(a, b)}
def c_boa(E, st, a, i, where): yield ('ret', st, None)
LIB = [(r'gul14::bad_optional_access::bad_optional_access\(.*\)', c_boa)]

_lay = {}
def layout(E, st, n):
    key = (id(E.mod), n)
    if key in _lay: return _lay[key]
    size = val(S([o for o in E.call_function(st.fork(), n + '_size', []) if o[0] == 'ret'][0][2]))
    s = st.fork(); ob = E.new_obj(s, 'probe', size, 'ext'); e = E.new_obj(s, 'pv', 1, 'ext'); s.mem[e].cells[0] = (1, bv(77, 8))
    for k in range(size): s.mem[ob].cells[k] = (1, bv(0, 8))
    emit, E.emit = E.emit, False
    try: outs = [o for o in E.call_function(s, n + '_ctor_v', [Ptr(ob, bv(0)), Ptr(e, bv(0))]) if o[0] == 'ret']
    finally: E.emit = emit
    c = {o: v for o, (k, v) in outs[0][1].mem[ob].cells.items() if k == 1}
    v77 = [o for o, v in c.items() if is_val(S(v)) and val(S(v)) == 77]; fl = [o for o, v in c.items() if is_val(S(v)) and val(S(v)) == 1]
    if len(v77) != 1 or len(fl) != 1: raise Unsupported('layout of optional: %r' % c)
    _lay[key] = (size, fl[0], v77[0]); return _lay[key]
class Opt:
    def __init__(s, E, st, n, name, engaged=None):
        """engaged None: raw storage"""
        s.n = n; s.name = name; s.triv = n == 't'
        s.size, s.f, s.e = layout(E, st, n)
        s.obj = E.new_obj(st, name, s.size, 'ext'); s.p = Ptr(s.obj, bv(0))
        m = st.mem[s.obj]
        if engaged is None:
            for k in range(s.size): m.cells[k] = (1, E.fresh(st, 'junk', BitVecSort(8)))
            m.cells[s.e] = (1, bv(0, 8))
        else:
            s.on = engaged; v = E.fresh(st, name + '_val', BitVecSort(8)); st.assume((v != 0) if engaged else (v == 0)); s.v0 = v
            m.cells[s.f] = (1, bv(1 if engaged else 0, 8)); m.cells[s.e] = (1, v)
    def now(s, st):
        c = st.mem[s.obj].cells; f = c[s.f][1]
        return (f if z3.is_bool(f) else S(f != 0)), c[s.e][1]
    def check(s, E, st, on, v=None, what=None):
        what = what or s.name + ': '
        f, x = s.now(st)
        raw = st.mem[s.obj].cells[s.f][1]
        if not z3.is_bool(raw): E.oblige(st, ULE(raw, 1), 'invariant', what + 'flag is a bool')
        E.oblige(st, f == on, 'post', what + ('contains an object' if z3.is_true(S(BoolVal(on) if isinstance(on, bool) else on)) else 'engaged state'))
        if not s.triv: E.oblige(st, (x != 0) == f, 'lifetime', what + 'an object is alive exactly when one is contained')
        else: E.oblige(st, Implies(f, x != 0), 'lifetime', what + 'a contained object is alive')
        if v is not None: E.oblige(st, Implies(f, x == v), 'post', what + 'value')
def stack_clean(E, st, n):
    if n == 't': return
    size, f, e = _lay[(id(E.mod), n)]
    for oid, m in st.mem.items():
        if m.kind == 'heap' and m.alive is True and m.name != 'excobj' and oid != 'exc': E.oblige(st, False, 'leak', m.name)
        if m.kind == 'stack' and is_val(S(E.z64(m.size))):
            z = val(S(E.z64(m.size)))
            for off in ((0,) if z == 1 else (e,) if z == size else ()):
                if off in m.cells and m.cells[off][0] == 1 and z3.is_bv(m.cells[off][1]): E.oblige(st, m.cells[off][1] == 0, 'lifetime', 'temporary %s is destroyed' % m.name)
class Ctx: pass
def val_arg(E, st, c, name='value'):
    c.val = E.fresh(st, name, BitVecSort(8)); st.assume(c.val != 0)
    o = E.new_obj(st, name, 1, 'ext'); st.mem[o].cells[0] = (1, c.val); c.vo = o
    return Ptr(o, bv(0))
def arg_ok(E, st, c, moved):
    if not getattr(c, 'vo', None): return
    v = st.mem[c.vo].cells[0][1]
    E.oblige(st, (v != 0) if moved else (v == c.val), 'post', 'the argument stays alive' if moved else 'the argument is unchanged')
def add(n, name, root, su, po, thr=None):
    T = {'o': 'Obj', 't': 'Tri', 'r': 'Obj', 'k': 'Obj'}[n]; nm = {'k': 'optional<const T&>', 'o': 'optional<T>', 't': 'optional<trivially destructible T>', 'r': 'optional<T&>'}[n]
    def f(E, st): E.zero_stack = True; return su(E, st)
    PROOFS.append(Proof('%s: %s' % (nm, name), n + '_' + root, 'optional.cc', f, po, contracts=ops(T, False) + LIB, light=True, on_throw=no_boa if root.startswith('value') else None))
    if thr: PROOFS.append(Proof('%s: %s [element operations may throw]' % (nm, name), n + '_' + root, 'optional.cc', f, po, contracts=ops(T, True) + LIB, light=True, defs=('MAYTHROW',),
                                on_throw=lambda E, st, x, c: (E.oblige(st, BoolVal(x.tinfo == 'element'), 'post', 'only the element\'s exception escapes'), thr(E, st, c))))
def no_boa(E, st, x, c):
    E.oblige(st, BoolVal(BOA in str(x.tinfo)), 'post', 'bad_optional_access is thrown'); E.oblige(st, BoolVal(not c.a.on), 'post', 'only without a value'); c.a.check(E, st, False)
def ctor(n, name, root, va, want, moved=False):
    """construction from an optional value argument; want(c) = (engaged, value)"""
    def su(E, st):
        c = Ctx(); c.a = Opt(E, st, n, 'obj'); return [c.a.p] + ([val_arg(E, st, c)] if va else []), c
    def po(E, st, r, c):
        on, v = want(c); c.a.check(E, st, on, v); arg_ok(E, st, c, moved); stack_clean(E, st, n)
    def thr(E, st, c):
        if n != 't': E.oblige(st, c.a.now(st)[1] == 0, 'lifetime', 'no object is left behind')
        arg_ok(E, st, c, moved); stack_clean(E, st, n)
    add(n, name, root, su, po, thr if va or 'i0' in root else None)
def mod(n, name, root, va, want, moved=False, on_thr=None, self_=False):
    for on in (False, True):
        def su(E, st, on=on):
            c = Ctx(); c.a = Opt(E, st, n, 'obj', on); return [c.a.p] + ([val_arg(E, st, c)] if va else []), c
        def po(E, st, r, c):
            w, v = want(c); c.a.check(E, st, w, v); arg_ok(E, st, c, moved); stack_clean(E, st, n)
            if self_: E.oblige(st, BoolVal(isinstance(r, Ptr) and r.obj == c.a.obj) if not isinstance(r, Ptr) or r.obj != c.a.obj else r.off == 0, 'post', 'returns *this')
        def thr(E, st, c):
            c.a.check(E, st, c.a.on if on_thr is None else on_thr); arg_ok(E, st, c, moved); stack_clean(E, st, n)
        add(n, name + (' [engaged]' if on else ' [empty]'), root, su, po, thr if va or '_0' in root else None)
def two(n, name, root, po, thr, raw=False, alias=False):
    for x in ((None,) if raw else (False, True)):
        for y in (False, True):
            def su(E, st, x=x, y=y):
                c = Ctx(); c.a = Opt(E, st, n, 'obj', x); c.b = Opt(E, st, n, 'other', y); return [c.a.p, c.b.p], c
            add(n, '%s [%s<- %s]' % (name, '' if raw else ('engaged ' if x else 'empty '), 'engaged' if y else 'empty'), root, su, po, thr)
    if alias:
        for x in (False, True):
            def su(E, st, x=x):
                c = Ctx(); c.a = Opt(E, st, n, 'obj', x); c.b = c.a; return [c.a.p, c.a.p], c
            add(n, name + ' [self, %s]' % ('engaged' if x else 'empty'), root, su, po, thr)
def obs(n, name, root, po, engaged=(False, True), **kw):
    for on in engaged:
        def su(E, st, on=on):
            c = Ctx(); c.a = Opt(E, st, n, 'obj', on); return [c.a.p], c
        add(n, name + (' [engaged]' if on else ' [empty]'), root, su, po, **kw)
is_self = lambda E, st, r, c: E.oblige(st, And(BoolVal(r.obj == c.a.obj), r.off == 0) if isinstance(r, Ptr) and r.obj == c.a.obj else BoolVal(False), 'post', 'returns *this')
for n in 'ot':
    none = lambda c: (False, None); some = lambda c: (True, c.val); dflt = lambda c: (True, bv(1, 8))
    ctor(n, 'constructor()', 'ctor', 0, none); ctor(n, 'constructor(nullopt)', 'ctor_n', 0, none)
    ctor(n, 'constructor(const T&)', 'ctor_v', 1, some); ctor(n, 'constructor(T&&)', 'ctor_vm', 1, some, True)
    ctor(n, 'constructor(in_place, const T&)', 'ctor_i', 1, some); ctor(n, 'constructor(in_place, T&&)', 'ctor_im', 1, some, True); ctor(n, 'constructor(in_place)', 'ctor_i0', 0, dflt)
    ctor(n, 'constructor(in_place, list, const T&)', 'ctor_l', 1, some); mod(n, 'emplace(list, const T&)', 'emplace_l', 1, some, on_thr=False)
    ctor(n, 'make_optional(const T&)', 'make', 1, some); ctor(n, 'make_optional(T&&)', 'make_m', 1, some, True)
    mod(n, 'operator=(nullopt)', 'as_n', 0, none, self_=True); mod(n, 'reset', 'reset', 0, none)
    mod(n, 'operator=(const T&)', 'as_v', 1, some, self_=True); mod(n, 'operator=(T&&)', 'as_vm', 1, some, True, self_=True)
    mod(n, 'emplace(const T&)', 'emplace', 1, some, on_thr=False); mod(n, 'emplace(T&&)', 'emplace_m', 1, some, True, on_thr=False); mod(n, 'emplace()', 'emplace_0', 0, dflt, on_thr=False)
    def po_dt(E, st, r, c, n=n):
        if n != 't': E.oblige(st, c.a.now(st)[1] == 0, 'lifetime', 'the contained object is destroyed')
    if n != 't': obs(n, 'destructor', 'dtor', po_dt)
    def po_cp(E, st, r, c, n=n):
        c.a.check(E, st, c.b.on, c.b.v0)
        if c.b is not c.a: c.b.check(E, st, c.b.on, c.b.v0)
        stack_clean(E, st, n)
    def po_mv(E, st, r, c, n=n):
        c.a.check(E, st, c.b.on, c.b.v0 if c.b is not c.a else None)
        if c.b is not c.a: c.b.check(E, st, c.b.on)
        stack_clean(E, st, n)
    def th_ct(E, st, c, n=n):
        if n != 't': E.oblige(st, c.a.now(st)[1] == 0, 'lifetime', 'no object is left behind')
        c.b.check(E, st, c.b.on, c.b.v0)
    def th_as(E, st, c, n=n):
        c.a.check(E, st, c.a.on); c.b.check(E, st, c.b.on); stack_clean(E, st, n)
    two(n, 'copy constructor', 'ctor_c', po_cp, th_ct, raw=True); two(n, 'move constructor', 'ctor_m', po_mv, th_ct, raw=True)
    two(n, 'copy assignment', 'as_c', lambda E, st, r, c, f=po_cp: (f(E, st, r, c), is_self(E, st, r, c)), th_as, alias=True)
    two(n, 'move assignment', 'as_m', lambda E, st, r, c, f=po_mv: (f(E, st, r, c), is_self(E, st, r, c)), th_as)
    def po_sw(E, st, r, c, n=n):
        c.a.check(E, st, c.b.on, c.b.v0)
        if c.b is not c.a: c.b.check(E, st, c.a.on, c.a.v0)
        stack_clean(E, st, n)
    two(n, 'swap', 'swap', po_sw, th_as); two(n, 'swap(a, b)', 'swap_f', po_sw, th_as)
    def po_b(E, st, r, c): E.oblige(st, r == BoolVal(c.a.on), 'post', 'whether an object is contained'); c.a.check(E, st, c.a.on, c.a.v0)
    obs(n, 'operator bool', 'bool', po_b); obs(n, 'has_value', 'has', po_b)
    def po_ref(E, st, r, c):
        if not isinstance(r, Ptr) or r.obj != c.a.obj: E.oblige(st, False, 'post', 'refers to the contained object'); return
        E.oblige(st, r.off == c.a.e, 'post', 'refers to the contained object'); c.a.check(E, st, True, c.a.v0)
        E.oblige(st, BoolVal(c.a.on), 'post', 'only if there is one')
    for nm, rt in (('operator->', 'arrow'), ('operator-> const', 'arrow_c'), ('operator* &', 'star'), ('operator* const&', 'star_c'), ('operator* &&', 'star_m')): obs(n, nm, rt, po_ref, engaged=(True,))
    for nm, rt in (('value() &', 'value'), ('value() const&', 'value_c'), ('value() &&', 'value_m')): obs(n, nm, rt, po_ref)
    for mv, rt in ((False, 'or'), (True, 'or_m')):
        for on in (False, True):
            def su(E, st, on=on, n=n):
                c = Ctx(); c.a = Opt(E, st, n, 'obj', on); c.r = E.new_obj(st, 'result', 1, 'ext'); st.mem[c.r].cells[0] = (1, bv(0, 8))
                return [Ptr(c.r, bv(0)), c.a.p, val_arg(E, st, c)], c
            def po(E, st, r, c, mv=mv, n=n):
                E.oblige(st, st.mem[c.r].cells[0][1] == (c.a.v0 if c.a.on else c.val), 'post', 'the contained value, or the given one if there is none')
                c.a.check(E, st, c.a.on, None if mv else c.a.v0)
                if mv and c.a.on: arg_ok(E, st, c, False)
                else: arg_ok(E, st, c, mv)
                stack_clean(E, st, n)
            def thr(E, st, c, mv=mv, n=n):
                if n != 't': E.oblige(st, st.mem[c.r].cells[0][1] == 0, 'lifetime', 'no object is left behind')
                c.a.check(E, st, c.a.on, None if mv else c.a.v0); arg_ok(E, st, c, mv); stack_clean(E, st, n)
            add(n, 'value_or%s [%s]' % (' &&' if mv else ' const&', 'engaged' if on else 'empty'), rt, su, po, thr)
KEY = {'eq': '==', 'ne': '!=', 'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>='}
def lift(op, x, y):
    """comparison with 'nothing' before every value; x, y are None or a value"""
    if x is not None and y is not None: return RELS[op](x, y)
    a, b = int(x is not None), int(y is not None)
    return BoolVal({'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op])
class Ref(Opt):
    def __init__(s, E, st, name, engaged=None):
        s.n = 'r'; s.name = name; s.obj = E.new_obj(st, name, 8, 'ext'); s.p = Ptr(s.obj, bv(0)); s.on = engaged
        if engaged: s.t = Ctx(); s.t.p = val_arg(E, st, s.t, name + '_target'); st.mem[s.obj].cells[0] = (8, s.t.p); s.v0 = s.t.val
        elif engaged is not None: st.mem[s.obj].cells[0] = (8, Ptr(None, bv(0)))
    def check(s, E, st, on, target=None, what=None):
        p = st.mem[s.obj].cells[0][1]
        if z3.is_bv(p): p = E.inttoptr(st, p)
        if on:
            ok = isinstance(p, Ptr) and p.obj is not None and (target is None or p.obj == target.obj)
            E.oblige(st, And(BoolVal(ok), p.off == 0) if ok else BoolVal(False), 'post', s.name + ': refers to the given object')
        else: E.oblige(st, And(BoolVal(p.obj is None), p.off == 0), 'post', s.name + ': refers to nothing')
def mk(E, st, n, name, on): return Ref(E, st, name, on) if n in 'rk' else Opt(E, st, n, name, on)
v_of = lambda a: a.v0 if a.on else None
for n in 'otrk':
    for k, op in KEY.items():
        for x in (False, True):
            for y in (False, True):
                def su(E, st, x=x, y=y, n=n):
                    c = Ctx(); c.a = mk(E, st, n, 'lhs', x); c.b = mk(E, st, n, 'rhs', y); return [c.a.p, c.b.p], c
                def po(E, st, r, c, op=op, n=n):
                    E.oblige(st, r == lift(op, v_of(c.a), v_of(c.b)), 'post', 'as for the values, with nothing before every value')
                add(n, 'operator%s [%s, %s]' % (op, x, y), k, su, po)
            def su1(E, st, x=x, n=n): c = Ctx(); c.a = mk(E, st, n, 'obj', x); return [c.a.p], c
            add(n, 'operator%s(optional, nullopt) [%s]' % (op, x), k + '_n', su1, lambda E, st, r, c, op=op: E.oblige(st, r == lift(op, v_of(c.a), None), 'post', 'nothing is before every value'))
            add(n, 'operator%s(nullopt, optional) [%s]' % (op, x), 'n_' + k, su1, lambda E, st, r, c, op=op: E.oblige(st, r == lift(op, None, v_of(c.a)), 'post', 'nothing is before every value'))
            for sw in (False, True):
                def su2(E, st, x=x, n=n, sw=sw):
                    c = Ctx(); c.a = mk(E, st, n, 'obj', x); v = val_arg(E, st, c); return ([v, c.a.p] if sw else [c.a.p, v]), c
                def po2(E, st, r, c, op=op, sw=sw):
                    a, b = v_of(c.a), c.val
                    E.oblige(st, r == (lift(op, b, a) if sw else lift(op, a, b)), 'post', 'as for the values, with nothing before every value')
                add(n, 'operator%s(%s) [%s]' % (op, 'T, optional' if sw else 'optional, T', x), ('v_' + k) if sw else (k + '_v'), su2, po2)
# references
def rf(name, root, x, args, po):
    for on in x:
        def su(E, st, on=on):
            c = Ctx(); c.a = Ref(E, st, 'obj', on); return [c.a.p] + args(E, st, c), c
        add('r', name + ('' if on is None else ' [engaged]' if on else ' [empty]'), root, su, po)
no_args = lambda E, st, c: []; va = lambda E, st, c: [val_arg(E, st, c)]
r_none = lambda E, st, r, c: c.a.check(E, st, False); r_val = lambda E, st, r, c: (c.a.check(E, st, True, Ptr(c.vo, bv(0))), arg_ok(E, st, c, False))
rf('constructor()', 'ctor', (None,), no_args, r_none); rf('constructor(nullopt)', 'ctor_n', (None,), no_args, r_none)
rf('constructor(T&)', 'ctor_v', (None,), va, r_val); rf('constructor(in_place, T&)', 'ctor_i', (None,), va, r_val); rf('make_optional(ref)', 'make', (None,), va, r_val)
rf('operator=(nullopt)', 'as_n', (False, True), no_args, r_none); rf('reset', 'reset', (False, True), no_args, r_none); rf('emplace', 'emplace', (False, True), va, r_val)
for y in (False, True):
    def other(E, st, c, y=y): c.b = Ref(E, st, 'other', y); return [c.b.p]
    def po_c(E, st, r, c):
        t = c.b.t.p if c.b.on else None
        c.a.check(E, st, c.b.on, t); c.b.check(E, st, c.b.on, t)
        if c.b.on: arg_ok(E, st, c.b.t, False)
        if c.a.on: arg_ok(E, st, c.a.t, False)
    rf('copy constructor <- %s' % y, 'ctor_c', (None,), other, po_c); rf('copy assignment <- %s' % y, 'as_c', (False, True), other, po_c)
    def po_s(E, st, r, c):
        c.a.check(E, st, c.b.on, c.b.t.p if c.b.on else None); c.b.check(E, st, c.a.on, c.a.t.p if c.a.on else None)
    rf('swap <- %s' % y, 'swap', (False, True), other, po_s)
rb = lambda E, st, r, c: E.oblige(st, r == BoolVal(c.a.on), 'post', 'whether it refers to an object')
rf('operator bool', 'bool', (False, True), no_args, rb); rf('has_value', 'has', (False, True), no_args, rb)
def r_ref(E, st, r, c):
    ok = c.a.on and isinstance(r, Ptr) and r.obj == c.a.t.vo
    E.oblige(st, r.off == 0 if ok else BoolVal(False), 'post', 'the object referred to')
rf('operator*', 'star', (True,), no_args, r_ref); rf('operator->', 'arrow', (True,), no_args, r_ref); rf('value', 'value', (False, True), no_args, r_ref)
def r_or(E, st, c):
    return [c.a.p, val_arg(E, st, c)]
for on in (False, True):
    def su(E, st, on=on):
        c = Ctx(); c.a = Ref(E, st, 'obj', on); c.r = E.new_obj(st, 'result', 1, 'ext'); st.mem[c.r].cells[0] = (1, bv(0, 8)); return [Ptr(c.r, bv(0)), c.a.p, val_arg(E, st, c)], c
    add('r', 'value_or [%s]' % ('engaged' if on else 'empty'), 'or', su, lambda E, st, r, c: (E.oblige(st, st.mem[c.r].cells[0][1] == (c.a.v0 if c.a.on else c.val), 'post', 'the value referred to, or the given one'), arg_ok(E, st, c, False)))

for n in 'otr':
    for on in (False, True):
        def su(E, st, on=on, n=n): c = Ctx(); c.a = mk(E, st, n, 'obj', on); return [c.a.p], c
        add(n, 'std::hash [%s]' % ('engaged' if on else 'empty'), 'hash', su,
            lambda E, st, r, c: E.oblige(st, r == HASH(c.a.v0) if c.a.on else BoolVal(is_val(S(r))), 'post', 'the hash of the value' if c.a.on else 'the same for every empty optional'))
