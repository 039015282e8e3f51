"""C22: Trigger: state changes are atomic and no waiter misses one."""
from ..spec import *
from ..monitor import *
ASSUME = ASSUME_SYNC + ['clock readings and time spans stay below 2^61 ns']
PROOFS = []
def konst(E, fn):
    """value returned by a constant function of the harness (offsets computed by the compiler)"""
    from ..engine import State
    s = State(); emit = E.emit; E.emit = False
    try: return val([o for o in E.call_function(s, fn, [])][0][2])
    finally: E.emit = emit
def setup(E, st, how):
    of, om, oc, sz = (konst(E, f) for f in ('o_flag', 'o_mutex', 'o_cv', 'o_size'))
    o = E.new_obj(st, 'trigger', sz, 'ext'); p = lambda k: Ptr(o, bv(k))
    def flag(st):
        v = st.mem[o].cells[of][1]
        return S(v) if z3.is_bool(v) else S(v != 0)
    def havoc(E, st):
        f = E.fresh(st, 'triggered', BoolSort()); st.w(o).cells[of] = (1, If(f, bv(1, 8), bv(0, 8))); st.g['acq'] = b64(f)
    def at_unlock(E, st, where):
        st.g['last'] = b64(flag(st))
        if how != 'set': E.oblige(st, st.g['last'] == st.g['acq'], 'unlock', where + ' the state is left as it was')
    def at_wait(E, st, t, where):
        E.oblige(st, And(BoolVal(how in ('wait', 'until', 'for')), Not(flag(st))), 'wait', where + ' blocks only after seeing the trigger low under this lock')
        if how == 'wait': E.oblige(st, BoolVal(t is None), 'wait', where + ' waits without time limit')
        else:
            E.oblige(st, BoolVal(t is not None), 'wait', where + ' waits with a time limit')
            if t is not None: E.oblige(st, t == (E.arg if how == 'until' else S(st.g['now'] + E.arg)), 'wait', where + ' exactly the given time limit')
        E.oblige(st, st.g['acq'] == b64(flag(st)), 'wait', where + ' the state is left as it was')
    def at_notify(E, st, kind, where):
        # a wake-up counts once the new state is visible to whoever is woken
        if kind == 'all': st.g['notified'] = S(If(st.g['locked'] == 1, b64(flag(st)), If(UGT(st.g['sections'], 0), st.g['last'], bv(0))))
    havoc(E, st)
    st.g.update(last=bv(0), acq=bv(0), notified=bv(0))
    Monitor(E, st, p(om), p(oc), lambda st, q: q.obj == o and is_val(q.off) and val(q.off) == of, havoc, None, at_wait, at_unlock, None, at_notify)
    return p(0), flag
b64 = lambda c: If(c, bv(1), bv(0))
def P(name, root, how, args, post, **kw):
    def su(E, st):
        p, flag = setup(E, st, how); xs = args(E, st); E.arg = xs[0] if xs else None
        if 'pre' in kw: kw['pre'](E, st, p)
        return [p] + xs, (p, flag, xs)
    def po(E, st, r, c):
        if kw.get('sections', True): E.oblige(st, And(st.g['locked'] == 0, st.g['sections'] == 1), 'post', 'one critical section, mutex released')
        post(E, st, r, c)
    PROOFS.append(Proof(name, root, 'trigger.cc', su, po, contracts=SYNC, keep=KEEPSYNC, **{k: v for k, v in kw.items() if k not in ('pre', 'sections')}))
none = lambda E, st: []
def tm(E, st):
    t = E.fresh(st, 't', BV64); st.assume(And(t > -(1 << 61), t < (1 << 61))); return [t]
def high(E, st, r, c): E.oblige(st, And(st.g['last'] == 1, st.g['notified'] == 1), 'post', 'the trigger is high and every waiting thread is woken after it went high')
def low(E, st, r, c): E.oblige(st, st.g['last'] == 0, 'post', 'the trigger is low')
P('trigger', 't_trigger', 'set', none, high); P('destructor', 't_dtor', 'set', none, high); P('reset', 't_reset', 'set', none, low)
P('assignment', 't_assign', 'set', lambda E, st: [z3.Bool('b')], lambda E, st, r, c: (E.oblige(st, same_ptr(E, st, r, c[0]), 'post', 'returns *this'), E.oblige(st, If(c[2][0], And(st.g['last'] == 1, st.g['notified'] == 1), st.g['last'] == 0), 'post', 'the trigger has the given state; going high wakes every waiting thread'))[0])
P('conversion to bool', 't_bool', 'get', none, lambda E, st, r, c: E.oblige(st, b64(r) == st.g['last'], 'post', 'returns the state'))
P('wait', 't_wait', 'wait', none, lambda E, st, r, c: E.oblige(st, st.g['last'] == 1, 'post', 'returns only when the trigger is high'))
def timed(neg):
    def f(E, st, r, c):
        r = Not(r) if neg else r
        E.oblige(st, b64(r) == st.g['last'], 'post', 'returns the state of the trigger at the end')
        E.oblige(st, Implies(Not(r), st.g['status'] == 1), 'post', 'gives up only when the time limit has passed')
    return f
P('wait_until (system clock)', 't_until', 'until', tm, timed(False)); P('wait_until (steady clock)', 't_until_s', 'until', tm, timed(False)); P('wait_for', 't_for', 'for', tm, timed(False))
P('sleep with trigger', 't_sleep', 'for', tm, timed(True))
def po_ctor(E, st, r, c): E.oblige(st, Not(c[1](st)), 'post', 'a new trigger is low')
P('constructor', 't_ctor', 'set', none, po_ctor, sections=False, pre=lambda E, st, p: st.g.update(locked=bv(1)))
