"""C25: expected holds exactly a value or an error and manages its lifetime; the monadic operations call back exactly when they should.

Value and error are opaque classes whose operations are contracts. Their one byte is ghost state: 0 = raw storage,
1..126 a value, 127 a moved-from value, 128..254 an error, 255 a moved-from error."""
from ..spec import *
from .C16 import get, put, I8
ASSUME = ['value and error classes are one byte wide and their operations follow their contracts; their == and != are complementary, < etc. one total order',
          'destructors, comparisons and moves of the error class do not throw; value operations are let throw in assignment from a value, emplace and swap only']
PROOFS = []
BAD = 'bad_expected_access'
live_v = lambda v: And(v != 0, ULT(v, 128)); live_e = lambda v: UGE(v, 128)
RELS = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: ULT(a, b), '>': lambda a, b: UGT(a, b), '<=': lambda a, b: ULE(a, b), '>=': lambda a, b: UGE(a, b)}
def gone(v, d):
    """no object with a non-trivial destructor is alive in this byte"""
    return Or(v == 0, *([live_v(v)] if 'TT' in d else []), *([live_e(v)] if 'TE' in d else []))
def ops(T, throwing, defs=()):
    live, moved = (live_v, bv(127, 8)) if T == 'Obj' else (live_e, bv(255, 8)); kind = 'value' if T == 'Obj' else 'error'
    def need(E, st, p, w):
        v = get(E, st, p, w); E.oblige(st, live(v), 'lifetime', '%s: operand is a live %s' % (w, kind), assume=True); return v
    def raw(E, st, p, w): E.oblige(st, gone(get(E, st, p, w), defs), 'lifetime', '%s: %s constructed in raw storage' % (w, kind), assume=True)
    def wrap(f):
        def h(E, st, a, i, where):
            if throwing:
                f(E, st.fork(), a, where)
                yield ('unwind', st.fork(), Exc('element'))
                emit, E.emit = E.emit, False
                try: r = f(E, st, a, where)
                finally: E.emit = emit
                yield ('ret', st, r)
            else: yield ('ret', st, f(E, st, a, where))
        return h
    def d(E, st, a, w): raw(E, st, a[0], w); put(E, st, a[0], bv(1 if T == 'Obj' else 129, 8), w)
    def cc(E, st, a, w): v = need(E, st, a[1], w); raw(E, st, a[0], w); put(E, st, a[0], v, w)
    def mc(E, st, a, w): v = need(E, st, a[1], w); raw(E, st, a[0], w); put(E, st, a[0], v, w); put(E, st, a[1], moved, w)
    def ca(E, st, a, w): v = need(E, st, a[1], w); need(E, st, a[0], w); put(E, st, a[0], v, w); return a[0]
    def ma(E, st, a, w): v = need(E, st, a[1], w); need(E, st, a[0], w); put(E, st, a[1], moved, w); put(E, st, a[0], v, w); return a[0]
    def ic(E, st, a, w): return cc(E, st, [a[0], a[3]], w)
    def dt(E, st, a, i, w): need(E, st, a[0], w); put(E, st, a[0], bv(0, 8), w); yield ('ret', st, None)
    def rel(f):
        def h(E, st, a, i, w): yield ('ret', st, S(f(need(E, st, a[0], w), need(E, st, a[1], w))))
        return h
    L = [(r'X::X\(\)', wrap(d)), (r'X::X\(X const&\)', wrap(cc)), (r'X::X\(X&&\)', wrap(mc)), (r'X::~X\(\)', dt), (r'X::X\(std::initializer_list<int>, X const&\)', wrap(ic)),
         (r'X::operator=\(X const&\)', wrap(ca)), (r'X::operator=\(X&&\)', wrap(ma))]
    if T == 'Obj':
        def conv(E, st, a, w): v = need(E, st, a[1], w); raw(E, st, a[0], w); put(E, st, a[0], v, w)
        L += [(r'Obj2::operator Obj\(\) const', wrap(conv)), (r'Obj2::~Obj2\(\)', dt)]
    for o, f in RELS.items(): L.append((r'operator%s\(X const&, X const&\)' % o, rel(f)))
    def cb(args, res):
        # a callback: records the call, its argument, and returns a fresh result
        def h(E, st, a, i, where):
            sr = res in ('Obj', 'Err', 'exp', 'vexp')
            arg = a[1 if sr else 0] if args else None
            E.oblige(st, BoolVal(st.g.get('cb') is None), 'post', 'the function is called at most once')
            v = None
            if args:
                lv = live_v if args[0] == 'v' else live_e
                v = get(E, st, arg, where); E.oblige(st, lv(v), 'lifetime', 'the function gets a live argument', assume=True)
                if args[1:] == 'm': put(E, st, arg, bv(127 if args[0] == 'v' else 255, 8), where)
            outs = []
            if res in ('Obj', 'Err'):
                r = E.fresh(st, 'cb_result', BitVecSort(8)); st.assume((live_v if res == 'Obj' else live_e)(r)); put(E, st, a[0], r, where)
                st.g['cb'] = (args, v, res, r); outs = [st]
            elif res in ('exp', 'vexp'):
                for on in (True, False):
                    s = st.fork(); lay = _lay[(id(E.mod), 'a' if res == 'exp' else 'v')]
                    r = E.fresh(s, 'cb_result', BitVecSort(8)); s.assume(live_v(r) if on and res == 'exp' else r == 0 if on else live_e(r))
                    put(E, s, Ptr(a[0].obj, S(a[0].off + lay[2])), r, where); put(E, s, Ptr(a[0].obj, S(a[0].off + lay[1])), bv(1 if on else 0, 8), where)
                    s.g['cb'] = (args, v, on, r); outs.append(s)
            else: st.g['cb'] = (args, v, None, None); outs = [st]
            for s in outs: yield ('ret', s, None)
        return h
    if T == 'Obj':
        for n, a, r in (('cb_map', 'v', 'Obj'), ('cb_map_m', 'vm', 'Obj'), ('cb_err', 'e', 'Err'), ('cb_err_m', 'em', 'Err'), ('cb_then', 'v', 'exp'), ('cb_then_m', 'vm', 'exp'),
                        ('cb_else', 'e', 'exp'), ('cb_else_m', 'em', 'exp'), ('cb_see', 'v', None), ('cb_see_err', 'e', None), ('cb_map0', '', 'Obj'), ('cb_then0', '', 'vexp'), ('cb_else_v', 'e', 'vexp'), ('cb_see0', '', None)):
            L.append((n + r'\(.*\)', cb(a, r)))
    return [(p.replace('X', T), f) for p, f in L]
def c_exc(E, st, a, i, where):
    o = E.new_obj(st, 'excobj', a[0], 'heap')
    if is_val(S(a[0])) and val(S(a[0])) == 16: st.mem[o].cells[8] = (1, bv(0, 8))   # vtable pointer, then the error
    yield ('ret', st, Ptr(o, bv(0)))
LIB = [(r'__cxa_allocate_exception', c_exc)]
_lay = {}
def layout(E, st, n):
    key = (id(E.mod), n)
    if key in _lay: return _lay[key]
    size = val(S([o for o in E.call_function(st.fork(), n + '_size', []) if o[0] == 'ret'][0][2]))
    # where are flag and payload? construct an error holding 200 and see
    s = st.fork(); ob = E.new_obj(s, 'probe', size, 'ext'); e = E.new_obj(s, 'pv', 1, 'ext'); s.mem[e].cells[0] = (1, bv(200, 8))
    for k in range(size): s.mem[ob].cells[k] = (1, bv(0, 8))
    emit, E.emit = E.emit, False
    try:
        outs = [o for o in E.call_function(s, n + '_ctor_x', [Ptr(ob, bv(0)), Ptr(e, bv(0))]) if o[0] == 'ret']
        c = {o: v for o, (k, v) in outs[0][1].mem[ob].cells.items() if k == 1}
        pay = [o for o, v in c.items() if is_val(S(v)) and val(S(v)) == 200]
        s = st.fork(); ob = E.new_obj(s, 'probe', size, 'ext')
        for k in range(size): s.mem[ob].cells[k] = (1, bv(0, 8))
        outs = [o for o in E.call_function(s, n + '_ctor', [Ptr(ob, bv(0))]) if o[0] == 'ret']
        c = {o: v for o, (k, v) in outs[0][1].mem[ob].cells.items() if k == 1}
        fl = [o for o, v in c.items() if is_val(S(v)) and val(S(v)) == 1 and o not in pay]
    finally: E.emit = emit
    if len(pay) != 1 or len(fl) != 1: raise Unsupported('layout of expected: %r' % c)
    _lay[key] = (size, fl[0], pay[0]); return _lay[key]
class Exp:
    def __init__(s, E, st, n, name, on=None):
        """on None: raw storage; True: value; False: error"""
        s.n = n; s.name = name; s.on = on
        s.size, s.f, s.e = layout(E, st, n)
        s.obj = E.new_obj(st, name, s.size, 'ext'); s.p = Ptr(s.obj, bv(0)); m = st.mem[s.obj]
        if on is None:
            for k in range(s.size): m.cells[k] = (1, E.fresh(st, 'junk', BitVecSort(8)))
            m.cells[s.e] = (1, bv(0, 8))
        else:
            v = E.fresh(st, name + '_content', BitVecSort(8)); s.v0 = v
            st.assume(live_e(v) if not on else live_v(v) if n == 'a' else v == 0)
            m.cells[s.f] = (1, bv(1 if on else 0, 8)); m.cells[s.e] = (1, v)
    def check(s, E, st, on, v=None):
        c = st.mem[s.obj].cells; f, x = c[s.f][1], c[s.e][1]; w = s.name + ': '
        if not z3.is_bool(f): E.oblige(st, ULE(f, 1), 'invariant', w + 'flag is a bool'); f = S(f != 0)
        E.oblige(st, f == on, 'post', w + ('holds a value' if on else 'holds an error'))
        if on and s.n == 'v': E.oblige(st, gone(x, E.c25), 'lifetime', w + 'no object is alive')
        else: E.oblige(st, live_v(x) if on else live_e(x), 'lifetime', w + 'exactly the %s is alive' % ('value' if on else 'error'))
        if v is not None and not (on and s.n == 'v'): E.oblige(st, x == v, 'post', w + 'content')
    def gone(s, E, st): E.oblige(st, gone(st.mem[s.obj].cells[s.e][1], E.c25), 'lifetime', s.name + ': no object is alive')
def clean(E, st):
    sizes = {v[0]: v[2] for k, v in _lay.items() if k[0] == id(E.mod)}
    for oid, m in st.mem.items():
        if m.kind == 'heap' and m.alive is True and m.name != 'excobj' and oid != 'exc': E.oblige(st, False, 'leak', m.name)
        if m.kind == 'stack' and is_val(S(E.z64(m.size))):
            z = val(S(E.z64(m.size))); off = 0 if z == 1 else sizes.get(z)
            if off is not None and off in m.cells and m.cells[off][0] == 1 and z3.is_bv(m.cells[off][1]): E.oblige(st, gone(m.cells[off][1], E.c25), 'lifetime', 'temporary %s is destroyed' % m.name)
class Ctx: pass
def arg(E, st, c, kind):
    c.val = E.fresh(st, kind, BitVecSort(8)); st.assume((live_v if kind == 'value' else live_e)(c.val)); c.kind = kind
    c.vo = E.new_obj(st, kind, 1, 'ext'); st.mem[c.vo].cells[0] = (1, c.val)
    return Ptr(c.vo, bv(0))
def arg_ok(E, st, c, moved):
    v = st.mem[c.vo].cells[0][1]
    E.oblige(st, (live_v if c.kind == 'value' else live_e)(v) if moved else (v == c.val), 'post', 'the argument stays alive' if moved else 'the argument is unchanged')
VARIANTS = ((), ('MAYT',), ('MAYE',), ('MAYT', 'MAYE'), ('TT',), ('TE',), ('TT', 'TE'))
NAME = {'a': 'expected<T, E>', 'v': 'expected<void, E>', 'u': 'unexpected<E>'}
def add(n, name, root, su, po, variants=VARIANTS, thr=None, on_throw=None):
    def mk(d):
      def f(E, st):
        E.c25 = d; E.zero_stack = {1: (0,), 2: (0, 1), 16: (8,)}; layout(E, st, 'a'); layout(E, st, 'v'); return su(E, st)
      return f
    for d in variants:
        f = mk(d)
        PROOFS.append(Proof('%s: %s%s' % (NAME[n], name, ' %s' % '/'.join(d) if d else ''), n + '_' + root, 'expected.cc', f, po, contracts=ops('Obj', False, d) + ops('Err', False, d) + LIB, light=True, defs=d, on_throw=on_throw))
        if thr and 'MAYT' in d and 'MAYE' not in d:
            PROOFS.append(Proof('%s: %s %s [value operations may throw]' % (NAME[n], name, '/'.join(d)), n + '_' + root, 'expected.cc', f, po, contracts=ops('Obj', True, d) + ops('Err', False, d) + LIB, light=True, defs=d,
                                on_throw=lambda E, st, x, c: (E.oblige(st, BoolVal(x.tinfo == 'element'), 'post', 'only the element\'s exception escapes'), thr(E, st, c))))
NOE = ((), ('MAYT',), ('TT',), ('TE',), ('TT', 'TE')); NOTBOTH = ((), ('MAYT',), ('MAYE',), ('TT',), ('TE',), ('TT', 'TE'))
W = lambda on: ' [value]' if on else ' [error]'
def is_self(E, st, r, c): E.oblige(st, And(BoolVal(r.obj == c.a.obj), r.off == 0) if isinstance(r, Ptr) and r.obj == c.a.obj else BoolVal(False), 'post', 'returns *this')
def put_in(n, name, root, kind, on, moved=False, states=(None,), self_=False, v=None, variants=VARIANTS, throws=False):
    """afterwards the object holds the given thing"""
    for x in states:
        def su(E, st, x=x):
            c = Ctx(); c.a = Exp(E, st, n, 'obj', x); return [c.a.p] + ([arg(E, st, c, kind)] if kind else []), c
        def po(E, st, r, c):
            c.a.check(E, st, on, c.val if kind else v)
            if kind: arg_ok(E, st, c, moved)
            if self_: is_self(E, st, r, c)
            clean(E, st)
        def thr(E, st, c):
            # strong enough: still the error it held, or some live value
            c.a.check(E, st, c.a.on, None if c.a.on else c.a.v0)
            if kind: arg_ok(E, st, c, moved)
            clean(E, st)
        add(n, name + ('' if x is None else W(x)), root, su, po, variants, thr if throws and (throws != 'error' or not x) else None)
for n in 'av':
    put_in(n, 'constructor()', 'ctor', None, True, v=bv(1, 8))
    put_in(n, 'constructor(const unexpected&)', 'ctor_u', 'error', False); put_in(n, 'constructor(unexpected&&)', 'ctor_um', 'error', False, True)
    put_in(n, 'constructor(unexpect, const E&)', 'ctor_x', 'error', False); put_in(n, 'constructor(unexpect, E&&)', 'ctor_xm', 'error', False, True)
    put_in(n, 'make_unexpected', 'make_u', 'error', False)
    put_in(n, 'operator=(const unexpected&)', 'as_u', 'error', False, False, (False, True), True, variants=NOE); put_in(n, 'operator=(unexpected&&)', 'as_um', 'error', False, True, (False, True), True, variants=NOE)
put_in('a', 'constructor(in_place)', 'ctor_i0', None, True, v=bv(1, 8))
for nm, rt in (('constructor(const T&)', 'ctor_v'), ('constructor(in_place, const T&)', 'ctor_i')): put_in('a', nm, rt, 'value', True); put_in('a', nm.replace('const T&', 'T&&'), rt + 'm', 'value', True, True)
put_in('a', 'operator=(const T&)', 'as_v', 'value', True, False, (False, True), True, variants=NOE, throws=True); put_in('a', 'operator=(T&&)', 'as_vm', 'value', True, True, (False, True), True, variants=NOE, throws=True)
put_in('a', 'emplace(const T&)', 'emplace', 'value', True, False, (False, True), throws='error'); put_in('a', 'emplace(T&&)', 'emplace_m', 'value', True, True, (False, True), throws='error')
put_in('a', 'emplace()', 'emplace_0', None, True, False, (False, True), v=bv(1, 8), throws='error')
for n in 'av':
    for x in (False, True):
        def su(E, st, x=x, n=n): c = Ctx(); c.a = Exp(E, st, n, 'obj', x); return [c.a.p], c
        add(n, 'destructor' + W(x), 'dtor', su, lambda E, st, r, c: c.a.gone(E, st))
        def po_b(E, st, r, c): E.oblige(st, r == BoolVal(c.a.on), 'post', 'whether there is a value'); c.a.check(E, st, c.a.on, c.a.v0)
        add(n, 'operator bool' + W(x), 'bool', su, po_b, ((),)); add(n, 'has_value' + W(x), 'has', su, po_b, ((),))
        def po_r(E, st, r, c):
            ok = isinstance(r, Ptr) and r.obj == c.a.obj
            E.oblige(st, r.off == c.a.e if ok else BoolVal(False), 'post', 'refers to the content'); c.a.check(E, st, c.a.on, c.a.v0)
        if not x:
            for rt in ('err_c', 'err', 'err_m'): add(n, 'error() ' + {'err_c': 'const&', 'err': '&', 'err_m': '&&'}[rt], rt, su, po_r, ((),))
        if n == 'a':
            if x:
                for rt in ('arrow', 'arrow_c', 'star', 'star_c', 'star_m', 'star_cm'): add(n, 'access %s' % rt, rt, su, po_r, ((),))
            def bad(E, st, ex, c, x=x):
                E.oblige(st, BoolVal(BAD in str(ex.tinfo) and not x), 'post', 'bad_expected_access is thrown exactly without a value')
                m = [o for i, o in st.mem.items() if o.name == 'excobj']
                E.oblige(st, m[-1].cells[8][1] == c.a.v0 if m and 8 in m[-1].cells else BoolVal(False), 'post', 'the exception carries the error')
                c.a.check(E, st, False)
            for rt in ('value', 'value_c', 'value_m', 'value_cm'): add(n, 'value() %s' % rt + W(x), rt, su, lambda E, st, r, c, f=po_r: (f(E, st, r, c), E.oblige(st, BoolVal(c.a.on), 'post', 'returns only if there is a value')), ((),), on_throw=bad)
    # copy, move, assignment
    for y in (False, True):
        for x in (None, False, True):
            def su(E, st, x=x, y=y, n=n):
                c = Ctx(); c.a = Exp(E, st, n, 'obj', x); c.b = Exp(E, st, n, 'other', y); return [c.a.p, c.b.p], c
            def po_c(E, st, r, c): c.a.check(E, st, c.b.on, c.b.v0); c.b.check(E, st, c.b.on, c.b.v0); clean(E, st)
            def po_m(E, st, r, c): c.a.check(E, st, c.b.on, c.b.v0); c.b.check(E, st, c.b.on); clean(E, st)
            if x is None: add(n, 'copy constructor' + W(y), 'ctor_c', su, po_c); add(n, 'move constructor' + W(y), 'ctor_m', su, po_m)
            else:
                s = ' [%s <- %s]' % ('value' if x else 'error', 'value' if y else 'error')
                add(n, 'copy assignment' + s, 'as_c', su, lambda E, st, r, c, f=po_c: (f(E, st, r, c), is_self(E, st, r, c)))
                add(n, 'move assignment' + s, 'as_m', su, lambda E, st, r, c, f=po_m: (f(E, st, r, c), is_self(E, st, r, c)))
                if n == 'a':
                    def po_s(E, st, r, c): c.a.check(E, st, c.b.on, c.b.v0); c.b.check(E, st, c.a.on, c.a.v0); clean(E, st)
                    def th_s(E, st, c):
                        for o in (c.a, c.b): o.check(E, st, o.on, None if o.on else o.v0)
                        clean(E, st)
                    add(n, 'swap' + s, 'swap', su, po_s, NOTBOTH, thr=th_s); add(n, 'swap(a, b)' + s, 'swap_f', su, po_s, NOTBOTH)
                for k, op in (('eq', '=='), ('ne', '!=')):
                    def po_e(E, st, r, c, op=op, n=n):
                        same = BoolVal(c.a.on == c.b.on) if c.a.on != c.b.on or (n == 'v' and c.a.on) else c.a.v0 == c.b.v0
                        E.oblige(st, r == (same if op == '==' else Not(same)), 'post', 'equal exactly if both hold equal values or both equal errors')
                    add(n, 'operator%s%s' % (op, s), k, su, po_e, ((),))
        def su(E, st, y=y, n=n): c = Ctx(); c.a = c.b = Exp(E, st, n, 'obj', y); return [c.a.p, c.a.p], c
        add(n, 'self-assignment' + W(y), 'as_c', su, lambda E, st, r, c: (c.a.check(E, st, c.a.on, c.a.v0), is_self(E, st, r, c), clean(E, st)))
        for k, op in (('eq', '=='), ('ne', '!=')):
            for kind, q in (('error', 'u'), ('value', 'v')):
                if kind == 'value' and n == 'v': continue
                for sw in (False, True):
                    def su(E, st, y=y, n=n, kind=kind, sw=sw):
                        c = Ctx(); c.a = Exp(E, st, n, 'obj', y); v = arg(E, st, c, kind); return ([v, c.a.p] if sw else [c.a.p, v]), c
                    def po(E, st, r, c, op=op, kind=kind):
                        same = c.a.v0 == c.val if c.a.on == (kind == 'value') else BoolVal(False)
                        E.oblige(st, r == (same if op == '==' else Not(same)), 'post', 'equal exactly if it holds that %s' % kind)
                    add(n, 'operator%s(%s)%s' % (op, ('%s, expected' if sw else 'expected, %s') % kind, W(y)), ('%s_%s' % (q, k)) if sw else ('%s_%s' % (k, q)), su, po, ((),))
for y in (False, True):
    for mv in (False, True):
        def su(E, st, y=y): c = Ctx(); c.a = Exp(E, st, 'a', 'obj'); c.b = Exp(E, st, 'a', 'other', y); return [c.a.p, c.b.p], c
        def po(E, st, r, c, mv=mv): c.a.check(E, st, c.b.on, c.b.v0); c.b.check(E, st, c.b.on, None if mv and not c.b.on else c.b.v0); clean(E, st)
        add('a', 'converting constructor (%s)%s' % ('move' if mv else 'copy', W(y)), 'ctor_om' if mv else 'ctor_o', su, po)
        def su(E, st, y=y):
            c = Ctx(); c.a = Exp(E, st, 'a', 'obj', y); c.r = E.new_obj(st, 'result', 1, 'ext'); st.mem[c.r].cells[0] = (1, bv(0, 8))
            return [Ptr(c.r, bv(0)), c.a.p, arg(E, st, c, 'value')], c
        def po(E, st, r, c, mv=mv):
            E.oblige(st, st.mem[c.r].cells[0][1] == (c.a.v0 if c.a.on else c.val), 'post', 'the value, or the given one if there is none')
            c.a.check(E, st, c.a.on, None if mv and c.a.on else c.a.v0); arg_ok(E, st, c, mv and not c.a.on); clean(E, st)
        add('a', 'value_or %s%s' % ('&&' if mv else 'const&', W(y)), 'or_m' if mv else 'or', su, po)
# monadic operations: (name, root, object, result, called when, moved)
def monad(n, name, root, rn, when, mv, kind):
    for y in (False, True):
        def su(E, st, y=y):
            c = Ctx(); c.r = Exp(E, st, rn, 'result'); c.a = Exp(E, st, n, 'obj', y); st.g['cb'] = None; return [c.r.p, c.a.p], c
        def po(E, st, r, c):
            cb = st.g.get('cb'); called = c.a.on == when
            E.oblige(st, BoolVal((cb is not None) == called), 'post', 'the function is called exactly if there is %s' % ('a value' if when else 'an error'))
            if cb is not None and called:
                a, v, res, x = cb
                if a: E.oblige(st, v == c.a.v0, 'post', 'it gets the %s' % ('value' if when else 'error'))
                if kind == 'map': c.r.check(E, st, when, x)
                elif kind == 'chain': c.r.check(E, st, res, x)
                elif kind == 'see_map': c.r.check(E, st, True)
                elif kind == 'see': c.r.check(E, st, c.a.on, c.a.v0)
            elif not called: c.r.check(E, st, c.a.on, c.a.v0)
            c.a.check(E, st, c.a.on, None if mv else c.a.v0); clean(E, st)
        add(n, name + W(y), root, su, po)
for nm, rt, mv in (('map const&', 'map', False), ('map &', 'map_l', False), ('map &&', 'map_m', True), ('transform const&', 'transform', False), ('transform &&', 'transform_m', True)): monad('a', nm, rt, 'a', True, mv, 'map')
monad('a', 'map to void', 'map_v', 'v', True, False, 'see_map')
for nm, rt, mv in (('and_then const&', 'then', False), ('and_then &', 'then_l', False), ('and_then &&', 'then_m', True)): monad('a', nm, rt, 'a', True, mv, 'chain')
for nm, rt, mv in (('map_error const&', 'maperr', False), ('map_error &&', 'maperr_m', True), ('transform_error const&', 'transerr', False), ('transform_error &&', 'transerr_m', True)): monad('a', nm, rt, 'a', False, mv, 'map')
for nm, rt, mv in (('or_else const&', 'else', False), ('or_else &', 'else_l', False), ('or_else &&', 'else_m', True)): monad('a', nm, rt, 'a', False, mv, 'chain')
monad('a', 'or_else with a void function', 'else_v', 'a', False, False, 'see')
monad('v', 'map', 'map', 'a', True, False, 'map'); monad('v', 'map to void', 'map_v', 'v', True, False, 'see_map'); monad('v', 'and_then', 'then', 'v', True, False, 'chain')
monad('v', 'map_error', 'maperr', 'v', False, False, 'map'); monad('v', 'or_else', 'else', 'v', False, False, 'chain')
for k, op in {'eq': '==', 'ne': '!=', 'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>='}.items():
    def su(E, st):
        c = Ctx(); c.x, c.y = Ctx(), Ctx(); return [arg(E, st, c.x, 'error'), arg(E, st, c.y, 'error')], c
    add('u', 'operator' + op, k, su, lambda E, st, r, c, op=op: E.oblige(st, r == RELS[op](c.x.val, c.y.val), 'post', 'as for the errors'), ((),))

put_in('a', 'constructor(in_place, list, const T&)', 'ctor_l', 'value', True); put_in('a', 'emplace(list, const T&)', 'emplace_l', 'value', True, False, (False, True), throws='error')
put_in('a', 'constructor(unexpect, list, const E&)', 'ctor_xl', 'error', False); put_in('v', 'constructor(unexpect, list, const E&)', 'ctor_xl', 'error', False)
for nm, rt in (('map const&&', 'map_cm'), ('transform &', 'transform_l'), ('transform const&&', 'transform_cm')): monad('a', nm, rt, 'a', True, False, 'map')
monad('a', 'and_then const&&', 'then_cm', 'a', True, False, 'chain'); monad('a', 'or_else const&&', 'else_cm', 'a', False, False, 'chain')
for nm, rt in (('map_error &', 'maperr_l'), ('map_error const&&', 'maperr_cm'), ('transform_error &', 'transerr_l'), ('transform_error const&&', 'transerr_cm')): monad('a', nm, rt, 'a', False, False, 'map')
for nm, rt, mv in (('&', 'map_vl', False), ('&&', 'map_vm', True)): monad('a', 'map to void ' + nm, rt, 'v', True, mv, 'see_map')
for nm, rt, mv in (('&', 'else_vl', False), ('&&', 'else_vm', True)): monad('a', 'or_else with a void function ' + nm, rt, 'a', False, mv, 'see')
for nm, rt, mv in (('map &', 'map_l', False), ('map &&', 'map_m', True)): monad('v', nm, rt, 'a', True, mv, 'map')
monad('v', 'map to void &&', 'map_vm', 'v', True, True, 'see_map')
for nm, rt, mv in (('and_then &', 'then_l', False), ('and_then &&', 'then_m', True)): monad('v', nm, rt, 'v', True, mv, 'chain')
monad('v', 'map_error &&', 'maperr_m', 'v', False, True, 'map')
for nm, rt, mv in (('or_else &', 'else_l', False), ('or_else &&', 'else_m', True)): monad('v', nm, rt, 'v', False, mv, 'chain')
for y in (False, True):
    for mv in (False, True):
        def su(E, st, y=y):
            c = Ctx(); c.a = Exp(E, st, 'a', 'obj', y); c.r = E.new_obj(st, 'result', 1, 'ext'); st.mem[c.r].cells[0] = (1, bv(0, 8)); st.g['cb'] = None
            return [Ptr(c.r, bv(0)), c.a.p], c
        def po(E, st, r, c, mv=mv):
            cb = st.g.get('cb'); E.oblige(st, BoolVal((cb is None) == c.a.on), 'post', 'the function is called exactly if there is an error')
            if cb is not None: E.oblige(st, cb[1] == c.a.v0, 'post', 'it gets the error')
            E.oblige(st, r == BoolVal(c.a.on), 'post', 'the result has a value exactly if there is one')
            E.oblige(st, st.mem[c.r].cells[0][1] == (c.a.v0 if c.a.on else 0), 'post', 'the value is passed on'); c.a.check(E, st, c.a.on, None if mv else c.a.v0); clean(E, st)
        add('a', 'map_error with a void function %s%s' % ('&&' if mv else 'const&', W(y)), 'maperr_vm' if mv else 'maperr_v', su, po)
