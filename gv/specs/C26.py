"""C26: variant holds exactly one alternative, manages its lifetime, and dispatches to exactly that alternative.

The three alternatives are opaque classes whose operations are contracts. Their one byte is ghost state: 0 = raw
storage; alternative k: 64k+1..64k+62 an object's value, 64k+63 a moved-from object."""
from ..spec import *
from .C16 import get, put, I8
ASSUME = ['three distinct alternatives, one byte wide each, whose operations follow their contracts; their comparison operators describe one total order each',
          'destructors and comparisons of the alternatives do not throw']
PROOFS = []
ALT = 'PQR'
live = lambda k: lambda v: And(UGT(v, 64 * k), ULT(v, 64 * k + 64))
moved = lambda k: bv(64 * k + 63, 8)
dflt = lambda k: bv(64 * k + 1, 8)
RELS = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: ULT(a, b), '>': lambda a, b: UGT(a, b), '<=': lambda a, b: ULE(a, b), '>=': lambda a, b: UGE(a, b)}
def ops(k, defs, throwing):
    T = ALT[k]
    def need(E, st, p, w):
        v = get(E, st, p, w); E.oblige(st, live(k)(v), 'lifetime', '%s: operand is a live alternative %d' % (w, k), assume=True); return v
    def raw(E, st, p, w):
        v = get(E, st, p, w)
        if 'TRIV' not in defs: E.oblige(st, v == 0, 'lifetime', '%s: alternative %d constructed in raw storage' % (w, k), assume=True)
    def wrap(f, may):
        def h(E, st, a, i, where):
            if throwing and may in defs:
                f(E, st.fork(), a, where)
                yield ('unwind', st.fork(), Exc('element'))
                emit, E.emit = E.emit, False
                try: r = f(E, st, a, where)
                finally: E.emit = emit
                yield ('ret', st, r)
            else: yield ('ret', st, f(E, st, a, where))
        return h
    def d(E, st, a, w): raw(E, st, a[0], w); put(E, st, a[0], dflt(k), w)
    def cc(E, st, a, w): v = need(E, st, a[1], w); raw(E, st, a[0], w); put(E, st, a[0], v, w)
    def mc(E, st, a, w): v = need(E, st, a[1], w); raw(E, st, a[0], w); put(E, st, a[0], v, w); put(E, st, a[1], moved(k), w)
    def ca(E, st, a, w): v = need(E, st, a[1], w); need(E, st, a[0], w); put(E, st, a[0], v, w); return a[0]
    def ma(E, st, a, w): v = need(E, st, a[1], w); need(E, st, a[0], w); put(E, st, a[1], moved(k), w); put(E, st, a[0], v, w); return a[0]
    def dt(E, st, a, i, w): need(E, st, a[0], w); put(E, st, a[0], bv(0, 8), w); yield ('ret', st, None)
    def rel(f):
        def h(E, st, a, i, w): yield ('ret', st, S(f(need(E, st, a[0], w), need(E, st, a[1], w))))
        return h
    def see(tag, mv=False):
        def h(E, st, a, i, w):
            v = need(E, st, a[0], w); st.g['calls'] = st.g.get('calls', ()) + ((tag, k, v),)
            if mv: put(E, st, a[0], moved(k), w)
            r = E.fresh(st, 'answer', BitVecSort(32))
            if tag == 'a': st.g['answer'] = r
            yield ('ret', st, r)
        return h
    L = [(r'X::X\(\)', wrap(d, 'MAYC')), (r'X::X\(X const&\)', wrap(cc, 'MAYC')), (r'X::X\(X&&\)', wrap(mc, 'MAYM')), (r'X::~X\(\)', dt),
         (r'X::operator=\(X const&\)', wrap(ca, 'MAYC')), (r'X::operator=\(X&&\)', wrap(ma, 'MAYM')),
         (r'see\(X const&\)', see('a')), (r'see2\(X const&\)', see('b')), (r'see_m\(X&&\)', see('a', True))]
    for o, f in RELS.items(): L.append((r'operator%s\(X const&, X const&\)' % o, rel(f)))
    return [(p.replace('X', T), f) for p, f in L]
_lay = {}
def layout(E, st):
    key = id(E.mod)
    if key in _lay: return _lay[key]
    size = val(S([o for o in E.call_function(st.fork(), 'v_size', []) if o[0] == 'ret'][0][2]))
    # where are payload and index? construct alternative 1 holding 100 and see
    s = st.fork(); ob = E.new_obj(s, 'probe', size, 'ext'); e = E.new_obj(s, 'pv', 1, 'ext'); s.mem[e].cells[0] = (1, bv(100, 8))
    for k in range(size): s.mem[ob].cells[k] = (1, bv(0, 8))
    emit, E.emit = E.emit, False
    try: outs = [o for o in E.call_function(s, 'v_ctor_q', [Ptr(ob, bv(0)), Ptr(e, bv(0))]) if o[0] == 'ret']
    finally: E.emit = emit
    c = {o: v for o, (k, v) in outs[0][1].mem[ob].cells.items() if k == 1}
    pay = [o for o, v in c.items() if is_val(S(v)) and val(S(v)) == 100]; ix = [o for o, v in c.items() if is_val(S(v)) and val(S(v)) == 1]
    if len(pay) != 1 or len(ix) != 1: raise Unsupported('layout of variant: %r' % c)
    _lay[key] = (size, ix[0], pay[0]); return _lay[key]
NONE = 3   # valueless
class Var:
    def __init__(s, E, st, name, i=None):
        """i None: raw storage; 0..2: that alternative; 3: valueless"""
        s.name = name; s.i = i; s.size, s.x, s.e = layout(E, st)
        s.obj = E.new_obj(st, name, s.size, 'ext'); s.p = Ptr(s.obj, bv(0)); m = st.mem[s.obj]
        if i is None:
            for k in range(s.size): m.cells[k] = (1, E.fresh(st, 'junk', BitVecSort(8)))
            m.cells[s.e] = (1, bv(0, 8))
        else:
            v = E.fresh(st, name + '_content', BitVecSort(8)); s.v0 = v
            st.assume(live(i)(v) if i < 3 else v == 0)
            m.cells[s.x] = (1, bv(i if i < 3 else 255, 8)); m.cells[s.e] = (1, v)
    def check(s, E, st, i, v=None):
        c = st.mem[s.obj].cells; x, p = c[s.x][1], c[s.e][1]; w = s.name + ': '
        E.oblige(st, x == (i if i < 3 else 255), 'post', w + ('holds alternative %d' % i if i < 3 else 'is valueless'))
        if i < 3: E.oblige(st, live(i)(p), 'lifetime', w + 'exactly alternative %d is alive' % i)
        else: s.gone(E, st)
        if v is not None and i < 3: E.oblige(st, p == v, 'post', w + 'content')
    def gone(s, E, st):
        if 'TRIV' not in E.c26: E.oblige(st, st.mem[s.obj].cells[s.e][1] == 0, 'lifetime', s.name + ': no object is alive')
        else: E.oblige(st, ULT(st.mem[s.obj].cells[s.e][1], 192), 'lifetime', s.name + ': storage')
    def valid(s, E, st, allowed):
        c = st.mem[s.obj].cells; x, p = c[s.x][1], c[s.e][1]
        E.oblige(st, Or(*[And(x == (i if i < 3 else 255), live(i)(p) if i < 3 else p == 0) for i in allowed]), 'lifetime', s.name + ': holds one live alternative, or is valueless with none alive')
def clean(E, st):
    if 'TRIV' in E.c26: return
    size, x, e = _lay[id(E.mod)]
    for oid, m in st.mem.items():
        if m.kind == 'heap' and m.alive is True and m.name != 'excobj' and oid != 'exc': E.oblige(st, False, 'leak', m.name)
        if m.kind == 'stack' and is_val(S(E.z64(m.size))):
            z = val(S(E.z64(m.size))); off = 0 if z == 1 else e if z == size else None
            if off is not None and off in m.cells and m.cells[off][0] == 1 and z3.is_bv(m.cells[off][1]): E.oblige(st, m.cells[off][1] == 0, 'lifetime', 'temporary %s is destroyed' % m.name)
class Ctx: pass
def arg(E, st, c, k):
    c.val = E.fresh(st, 'value', BitVecSort(8)); st.assume(live(k)(c.val)); c.k = k
    c.vo = E.new_obj(st, 'value', 1, 'ext'); st.mem[c.vo].cells[0] = (1, c.val)
    return Ptr(c.vo, bv(0))
def arg_ok(E, st, c, mv):
    v = st.mem[c.vo].cells[0][1]
    E.oblige(st, live(c.k)(v) if mv else (v == c.val), 'post', 'the argument stays alive' if mv else 'the argument is unchanged')
ALLV = ((), ('MAYC',), ('MAYC', 'MAYM'), ('TRIV',)); ONE = ((),)
def add(name, root, su, po, variants=ALLV, thr=None, on_throw=None):
    def mk(d):
        def f(E, st):
            E.c26 = d; E.zero_stack = {1: (0,), 2: (0, 1)}; layout(E, st); return su(E, st)
        return f
    for d in variants:
        con = lambda t: [x for k in range(3) for x in ops(k, d, t)]
        PROOFS.append(Proof(name + (' %s' % '/'.join(d) if d else ''), 'v_' + root, 'variant.cc', mk(d), po, contracts=con(False), light=True, defs=d, on_throw=on_throw))
        if thr and 'MAYC' in d:
            PROOFS.append(Proof('%s %s [operations of the alternatives may throw]' % (name, '/'.join(d)), 'v_' + root, 'variant.cc', mk(d), po, contracts=con(True), light=True, defs=d,
                                on_throw=lambda E, st, x, c, d=d: (E.oblige(st, BoolVal(x.tinfo == 'element'), 'post', 'only the alternative\'s exception escapes'), thr(E, st, c, d))))
ST = {None: '', 0: ' [0]', 1: ' [1]', 2: ' [2]', 3: ' [valueless]'}
def is_self(E, st, r, c): E.oblige(st, And(BoolVal(r.obj == c.a.obj), r.off == 0) if isinstance(r, Ptr) and r.obj == c.a.obj else BoolVal(False), 'post', 'returns *this')
def is_content(E, st, r, c): E.oblige(st, r.off == c.a.e if isinstance(r, Ptr) and r.obj == c.a.obj else BoolVal(False), 'post', 'refers to the content')
def put_in(name, root, k, given=True, mv=False, states=(None,), ret=None, emplace=False):
    for x in states:
        def su(E, st, x=x):
            c = Ctx(); c.a = Var(E, st, 'obj', x); return [c.a.p] + ([arg(E, st, c, k)] if given else []), c
        def po(E, st, r, c):
            c.a.check(E, st, k, c.val if given else dflt(k))
            if given: arg_ok(E, st, c, mv)
            if ret: ret(E, st, r, c)
            clean(E, st)
        def thr(E, st, c, d):
            if c.a.i is None: c.a.gone(E, st)
            elif emplace: c.a.check(E, st, NONE)
            elif c.a.i == k: c.a.check(E, st, k)
            elif 'MAYM' not in d: c.a.check(E, st, c.a.i, c.a.v0)     # a temporary was made first: nothing changed
            else: c.a.valid(E, st, (c.a.i, NONE))
            if given: arg_ok(E, st, c, mv)
            clean(E, st)
        add(name + ST[x], root, su, po, thr=thr)
put_in('variant()', 'ctor', 0, False)
S4 = (0, 1, 2, 3)
for k, n in enumerate('pqr'):
    T = ALT[k]
    put_in('variant(const T%d&)' % k, 'ctor_' + n, k); put_in('variant(T%d&&)' % k, 'ctor_%sm' % n, k, mv=True); put_in('variant(in_place_index<%d>, const T&)' % k, 'ctor_i' + n, k)
    put_in('variant(in_place_type<T%d>, T&&)' % k, 'ctor_t' + n, k, mv=True); put_in('variant(in_place_type<T%d>)' % k, 'ctor_d' + n, k, False)
    put_in('operator=(const T%d&)' % k, 'as_' + n, k, states=S4, ret=is_self); put_in('operator=(T%d&&)' % k, 'as_%sm' % n, k, mv=True, states=S4, ret=is_self)
    put_in('emplace<%d>(const T&)' % k, 'emplace_i' + n, k, states=S4, ret=is_content, emplace=True); put_in('emplace<T%d>(T&&)' % k, 'emplace_t' + n, k, mv=True, states=S4, ret=is_content, emplace=True); put_in('emplace<%d>()' % k, 'emplace_d' + n, k, False, states=S4, ret=is_content, emplace=True)
    for x in S4:
        def su(E, st, x=x): c = Ctx(); c.a = Var(E, st, 'obj', x); return [c.a.p], c
        for rt in ('holds_i', 'holds_t'):
            add('holds_alternative %s%d%s' % (rt, k, ST[x]), rt + n, su, lambda E, st, r, c, k=k: (E.oblige(st, r == BoolVal(c.a.i == k), 'post', 'whether this alternative is held'), c.a.check(E, st, c.a.i, c.a.v0)), ONE)
        for rt in ('get_i', 'get_c', 'get_m', 'get_t', 'get_u'):
            add('%s%d%s' % (rt, k, ST[x]), rt + n, su, lambda E, st, r, c, k=k: (is_content(E, st, r, c), E.oblige(st, BoolVal(c.a.i == k), 'post', 'only if this alternative is held'), c.a.check(E, st, c.a.i, c.a.v0)), ONE,
                on_throw=lambda E, st, ex, c, k=k: (E.oblige(st, BoolVal('bad_variant_access' in str(ex.tinfo) and c.a.i != k), 'post', 'bad_variant_access exactly if it is not held'), c.a.check(E, st, c.a.i, c.a.v0)))
        for rt in ('if_i', 'if_c', 'if_t', 'if_u'):
            def po(E, st, r, c, k=k):
                if c.a.i == k: is_content(E, st, r, c)
                else: E.oblige(st, And(BoolVal(r.obj is None), r.off == 0), 'post', 'null if it is not held')
                c.a.check(E, st, c.a.i, c.a.v0)
            add('%s%d%s' % (rt, k, ST[x]), rt + n, su, po, ONE)
    add('get_if%d(nullptr)' % k, 'if_i' + n, lambda E, st: ([Ptr(None, bv(0))], Ctx()), lambda E, st, r, c: E.oblige(st, And(BoolVal(r.obj is None), r.off == 0), 'post', 'null for null'), ONE)
for x in S4:
    def su(E, st, x=x): c = Ctx(); c.a = Var(E, st, 'obj', x); return [c.a.p], c
    add('destructor' + ST[x], 'dtor', su, lambda E, st, r, c: c.a.gone(E, st))
    add('valueless_by_exception' + ST[x], 'none', su, lambda E, st, r, c: (E.oblige(st, r == BoolVal(c.a.i == NONE), 'post', 'whether it is valueless'), c.a.check(E, st, c.a.i, c.a.v0)), ONE)
    add('index' + ST[x], 'index', su, lambda E, st, r, c: (E.oblige(st, r == bv(c.a.i if c.a.i < 3 else (1 << 64) - 1), 'post', 'index of the alternative, npos if valueless'), c.a.check(E, st, c.a.i, c.a.v0)), ONE)
    for rt, mv in (('visit', False), ('visit_l', False), ('visit_m', True), ('visit_o', False)):
        def po(E, st, r, c, mv=mv):
            calls = st.g.get('calls', ()); E.oblige(st, BoolVal(len(calls) == 1 and c.a.i < 3), 'post', 'the visitor is called exactly once')
            if len(calls) == 1:
                E.oblige(st, And(BoolVal(calls[0][1] == c.a.i), calls[0][2] == c.a.v0), 'post', 'with the alternative that is held'); E.oblige(st, r == st.g['answer'], 'post', 'and its result is returned')
            c.a.check(E, st, c.a.i, None if mv else c.a.v0)
        def bad(E, st, ex, c): E.oblige(st, BoolVal('bad_variant_access' in str(ex.tinfo) and c.a.i == NONE and not st.g.get('calls')), 'post', 'bad_variant_access exactly if valueless')
        add('%s%s' % (rt, ST[x]), rt, su, po, ONE, on_throw=bad)
    for y in S4:
        s = ' [%s, %s]' % (ST[x].strip(' []'), ST[y].strip(' []'))
        def su2(E, st, x=x, y=y): c = Ctx(); c.a = Var(E, st, 'obj', x); c.b = Var(E, st, 'other', y); return [c.a.p, c.b.p], c
        def po_c(E, st, r, c): c.a.check(E, st, c.b.i, c.b.v0); c.b.check(E, st, c.b.i, c.b.v0); is_self(E, st, r, c); clean(E, st)
        def po_m(E, st, r, c): c.a.check(E, st, c.b.i, c.b.v0); c.b.check(E, st, c.b.i); is_self(E, st, r, c); clean(E, st)
        def th(mv):
            def f(E, st, c, d):
                if 'MAYM' not in d and c.a.i != c.b.i: c.a.check(E, st, c.a.i, c.a.v0)
                else: c.a.valid(E, st, (c.a.i, NONE))
                c.b.check(E, st, c.b.i, None if mv else c.b.v0); clean(E, st)
            return f
        add('copy assignment' + s, 'as_c', su2, po_c, thr=th(False)); add('move assignment' + s, 'as_m', su2, po_m, thr=th(True))
        def po_s(E, st, r, c): c.a.check(E, st, c.b.i, c.b.v0); c.b.check(E, st, c.a.i, c.a.v0); clean(E, st)
        def th_s(E, st, c, d):
            # each stays what it was, is valueless, or (the first step done) already holds the other's alternative
            for o in (c.a, c.b): o.valid(E, st, sorted({c.a.i, c.b.i, NONE}))
            clean(E, st)
        add('swap' + s, 'swap', su2, po_s, thr=th_s); add('swap(a, b)' + s, 'swap_f', su2, po_s)
        for o, op in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('gt', '>'), ('le', '<='), ('ge', '>=')):
            def po(E, st, r, c, op=op):
                i, j = [(v.i if v.i < 3 else -1) for v in (c.a, c.b)]
                if i == j and i >= 0: w = RELS[op](c.a.v0, c.b.v0)
                else: w = BoolVal({'==': i == j, '!=': i != j, '<': i < j, '>': i > j, '<=': i <= j, '>=': i >= j}[op])
                E.oblige(st, r == w, 'post', 'by index (valueless first), then by value'); c.a.check(E, st, c.a.i, c.a.v0); c.b.check(E, st, c.b.i, c.b.v0)
            add('operator%s%s' % (op, s), o, su2, po, ONE)
        def po_v(E, st, r, c):
            calls = {t: (k, v) for t, k, v in st.g.get('calls', ())}
            E.oblige(st, BoolVal(len(st.g.get('calls', ())) == 2 and set(calls) == {'a', 'b'} and calls['a'][0] == c.a.i and calls['b'][0] == c.b.i), 'post', 'the visitor gets the alternatives that are held, once')
            if set(calls) == {'a', 'b'}: E.oblige(st, And(calls['a'][1] == c.a.v0, calls['b'][1] == c.b.v0, r == st.g['answer']), 'post', 'their values, and its result is returned')
        add('visit with two variants' + s, 'visit_2', su2, po_v, ONE, on_throw=lambda E, st, ex, c: E.oblige(st, BoolVal('bad_variant_access' in str(ex.tinfo) and NONE in (c.a.i, c.b.i) and not st.g.get('calls')), 'post', 'bad_variant_access exactly if one is valueless'))
    def suc(E, st, x=x): c = Ctx(); c.a = Var(E, st, 'obj'); c.b = Var(E, st, 'other', x); return [c.a.p, c.b.p], c
    for mv in (False, True):
        def po(E, st, r, c, mv=mv): c.a.check(E, st, c.b.i, c.b.v0); c.b.check(E, st, c.b.i, None if mv else c.b.v0); clean(E, st)
        def th_c(E, st, c, d, mv=mv): c.a.gone(E, st); c.b.check(E, st, c.b.i, None if mv else c.b.v0); clean(E, st)
        add(('move' if mv else 'copy') + ' constructor' + ST[x], 'ctor_m' if mv else 'ctor_c', suc, po, thr=th_c)
    def sus(E, st, x=x): c = Ctx(); c.a = Var(E, st, 'obj', x); return [c.a.p, c.a.p], c
    add('self-assignment' + ST[x], 'as_c', sus, lambda E, st, r, c: (c.a.check(E, st, c.a.i, c.a.v0), is_self(E, st, r, c), clean(E, st)))
