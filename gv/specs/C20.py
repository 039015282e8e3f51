"""C20: FinalAction runs its action exactly once, when the owning object goes away."""
from ..spec import *
ASSUME = ['actions do not throw (the destructor is noexcept) and are themselves cheap-to-move values']
PROOFS = []
def c_act(E, st, a, i, where):
    st.log = st.log + [('act', a[0])]; yield ('ret', st, None)
def c_body(E, st, a, i, where):
    st.log = st.log + [('body', a[0])]
    s2 = st.fork(); s2.log = list(st.log)
    yield ('unwind', s2, Exc('_ZTI9BodyThrew'))
    yield ('ret', st, None)
HOOKS = [(r'gv_act', c_act), (r'gv_body', c_body)]
def P(name, root, su, po, **kw): PROOFS.append(Proof(name, root, 'final.cc', su, po, contracts=HOOKS, keep=(r'^gv_',), **kw))
def obj(E, st, name):
    o = E.new_obj(st, name, 8, 'ext'); i = E.fresh(st, name + '_id', BitVecSort(32)); f = E.fresh(st, name + '_on', BoolSort())
    st.mem[o].cells[0] = (4, i); st.mem[o].cells[4] = (1, If(f, bv(1, 8), bv(0, 8)))
    return Ptr(o, bv(0)), i, f
def state(E, st, p):
    c = st.mem[p.obj].cells; f = c[4][1]
    return c[0][1], (f if z3.is_bool(f) else S(f != 0))
def raw(E, st): return Ptr(E.new_obj(st, 'new', 8, 'ext'), bv(0))
def calls(E, st, n, what='the action is not run by this operation'):
    E.oblige(st, BoolVal(len([x for x in st.log if x[0] == 'act']) == n), 'post', what)
def is_(E, st, p, i, f, what):
    i1, f1 = state(E, st, p)
    E.oblige(st, And(f1 == f, Implies(f1, i1 == i)), 'post', what)
def su_ctor(E, st):
    p = raw(E, st); i = BitVec('id', 32); return [p, i], (p, i)
def po_ctor(E, st, r, c):
    is_(E, st, c[0], c[1], BoolVal(True), 'armed with the given action'); calls(E, st, 0)
P('constructor', 'f_ctor', su_ctor, po_ctor); P('finally(temporary)', 'f_finally', su_ctor, po_ctor); P('finally(lvalue)', 'f_finally_l', su_ctor, po_ctor)
def su_move(E, st):
    q = obj(E, st, 'src'); p = raw(E, st); return [p, q[0]], (p,) + q
def po_move(E, st, r, c):
    is_(E, st, c[0], c[2], c[3], 'takes over the action and whether it is to be run'); is_(E, st, c[1], c[2], BoolVal(False), 'the moved-from object is disarmed'); calls(E, st, 0)
P('move constructor', 'f_move', su_move, po_move)
def su_asg(E, st):
    p = obj(E, st, 'dst'); q = obj(E, st, 'src'); return [p[0], q[0]], (p[0],) + q
P('move assignment', 'f_assign', su_asg, po_move)
def su_one(E, st):
    p = obj(E, st, 'obj'); return [p[0]], p
def po_self(E, st, r, c):
    is_(E, st, c[0], c[1], c[2], 'unchanged'); calls(E, st, 0)
P('self move assignment', 'f_self', su_one, po_self)
def po_dtor(E, st, r, c):
    a = [x[1] for x in st.log if x[0] == 'act']
    E.oblige(st, If(c[2], BoolVal(len(a) == 1), BoolVal(len(a) == 0)), 'post', 'runs the action exactly once if armed, else not at all')
    for x in a: E.oblige(st, x == c[1], 'post', 'runs its own action')
P('destructor', 'f_dtor', su_one, po_dtor)
def scope(want):
    """want(bodies run, ids) -> ids of the actions that have to run, in order, after the bodies"""
    def chk(E, st, c):
        ev = st.log; acts = [x[1] for x in ev if x[0] == 'act']; bodies = [x for x in ev if x[0] == 'body']
        w = want(len(bodies), c)
        E.oblige(st, BoolVal(len(acts) == len(w)), 'post', 'each action runs exactly once')
        E.oblige(st, BoolVal(all(x[0] == 'act' for x in ev[len(bodies):])), 'post', 'actions run when the scope is left, not before')
        if len(acts) == len(w):
            E.oblige(st, And([z3.BoolVal(True)] + [x == y for x, y in zip(acts, w)]), 'post', 'the right actions in reverse order of creation')
    return dict(post=lambda E, st, r, c: chk(E, st, c), thr=lambda E, st, x, c: chk(E, st, c))
def ids(n, extra=()):
    def f(E, st):
        xs = [BitVec('id%d' % k, 32) for k in range(n)]
        return xs + [z3.Bool(e) for e in extra], xs
    return f
for nm, root, su, w, k in (('scope', 'f_scope', ids(1), lambda b, c: c, 2), ('two actions', 'f_scope2', ids(2), lambda b, c: c[::-1] if b > 1 else c[:1], 3),
                           ('moved within the scope', 'f_scope_move', ids(1), lambda b, c: c, 3), ('early return', 'f_scope_early', ids(1, ['x']), lambda b, c: c, 3),
                           ('returned from a function', 'f_scope_ret', ids(1), lambda b, c: c, 3), ('lambda', 'f_scope_fp', ids(1), lambda b, c: c, 2),
                           ('function', 'f_scope_fn', ids(0), lambda b, c: [bv(7, 32)], 2), ('function pointer', 'f_scope_fn2', ids(0), lambda b, c: [bv(7, 32)], 2)):
    h = scope(w)
    P(nm, root, su, h['post'], on_throw=h['thr'], min_outcomes=k)
def su_tr(E, st):
    p = raw(E, st); o = E.new_obj(st, 'action', 4, 'ext'); i = E.fresh(st, 'id', BitVecSort(32)); st.mem[o].cells[0] = (4, i)
    return [p, Ptr(o, bv(0))], (p, i, o)
def po_tr(keeps):
    def f(E, st, r, c):
        po_ctor(E, st, r, c[:2])
        if keeps: E.oblige(st, st.mem[c[2]].cells[0][1] == c[1], 'post', "the caller's action object is left as it was")
    return f
P('finally(tracked lvalue)', 'f_lvalue', su_tr, po_tr(True)); P('finally(const lvalue)', 'f_clvalue', su_tr, po_tr(True)); P('finally(tracked temporary)', 'f_rvalue', su_tr, po_tr(False))
P('move constructor (tracked)', 'f_tmove', su_move, po_move); P('move assignment (tracked)', 'f_tassign', su_asg, po_move)
