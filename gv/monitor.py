"""Monitor reasoning: contracts of std::mutex, std::unique_lock and std::condition_variable.

Acquiring the mutex makes the protected state arbitrary, subject to the monitor invariant (any other thread may
have run any number of operations); releasing it obliges the invariant; protected memory may only be touched while
the mutex is held (a hook on every load and store).  Ghost state: locked, sections (released critical sections),
progress (blocking waits), status (result of the last timed wait)."""
import re
from .engine import *
from .logic import *
from .spec import val

class Monitor:
    def __init__(s, E, st, mutex, cv, protected, havoc, inv=None, at_wait=None, at_unlock=None, at_lock=None, at_notify=None):
        s.mutex, s.cv, s.protected, s.havoc, s.inv = mutex, cv, protected, havoc, inv
        s.at_wait, s.at_unlock, s.at_lock, s.at_notify = at_wait, at_unlock, at_lock, at_notify
        st.g.update(locked=bv(0), sections=bv(0), progress=bv(0), status=bv(0), now=bv(0))
        E.mon = s
        E.guard = s.guard
    def guard(s, E, st, p, n, what, where):
        if getattr(E, 'in_contract', False): return
        if s.protected(st, p): E.oblige(st, st.g['locked'] == 1, 'lock', '%s %s of shared state with the mutex held' % (where, what))
def same_ptr(E, st, p, q): return And(BoolVal(p.obj == q.obj), p.off == q.off)
def c_lock(E, st, a, i, where):
    M = E.mon
    E.oblige(st, same_ptr(E, st, a[0], M.mutex), 'lock', where + ' the mutex of this object')
    E.oblige(st, st.g['locked'] == 0, 'lock', where + ' mutex not already held by this thread', assume=True)
    M.havoc(E, st); st.g['locked'] = bv(1)
    if M.at_lock: M.at_lock(E, st, where)
    yield ('ret', st, None)
def c_unlock(E, st, a, i, where):
    M = E.mon
    E.oblige(st, same_ptr(E, st, a[0], M.mutex), 'lock', where + ' the mutex of this object')
    E.oblige(st, st.g['locked'] == 1, 'lock', where + ' unlocks a mutex it holds', assume=True)
    if M.inv: M.inv(E, st, where)
    if M.at_unlock: M.at_unlock(E, st, where)
    st.g['locked'] = bv(0); st.g['sections'] = S(st.g['sections'] + 1)
    yield ('ret', st, None)
def lock_arg(E, st, p, where):
    c = st.mem[p.obj].cells; o = val(p.off)
    m, owns = c[o][1], c[o + 8][1]
    E.oblige(st, And(same_ptr(E, st, m, E.mon.mutex), owns == 1 if not z3.is_bool(owns) else owns), 'lock', where + ' waits with the lock it owns')
def c_wait(E, st, a, i, where):
    M = E.mon
    E.oblige(st, same_ptr(E, st, a[0], M.cv), 'wait', where + ' on the condition variable of this object')
    lock_arg(E, st, a[1], where)
    E.oblige(st, st.g['locked'] == 1, 'wait', where + ' with the mutex held', assume=True)
    if M.at_wait: M.at_wait(E, st, None, where)
    if M.inv: M.inv(E, st, where)
    M.havoc(E, st); st.g['progress'] = S(st.g['progress'] + 1)
    yield ('ret', st, None)
def c_wait_until(E, st, a, i, where):
    M = E.mon
    E.oblige(st, same_ptr(E, st, a[0], M.cv), 'wait', where + ' on the condition variable of this object')
    lock_arg(E, st, a[1], where)
    E.oblige(st, st.g['locked'] == 1, 'wait', where + ' with the mutex held', assume=True)
    t = st.mem[a[2].obj].cells[val(a[2].off)][1]
    if M.at_wait: M.at_wait(E, st, t, where)
    if M.inv: M.inv(E, st, where)
    M.havoc(E, st); st.g['progress'] = S(st.g['progress'] + 1)
    r = E.fresh(st, 'status', BitVecSort(32)); st.assume(ULT(r, 2))
    st.g['status'] = ZeroExt(32, r)
    yield ('ret', st, r)
def c_notify(kind):
    def f(E, st, a, i, where):
        M = E.mon
        E.oblige(st, same_ptr(E, st, a[0], M.cv), 'notify', where + ' the condition variable of this object')
        if M.at_notify: M.at_notify(E, st, kind, where)
        yield ('ret', st, None)
    return f
def c_now(E, st, a, i, where):
    t = E.fresh(st, 'now', BV64); st.assume(And(t >= 0, ULT(t, bv(1 << 61))))
    st.g['now'] = t
    yield ('ret', st, t)
def c_nop(E, st, a, i, where): yield ('ret', st, None)
SYNC = [(r'std::mutex::lock\(\)', c_lock), (r'std::mutex::unlock\(\)', c_unlock),
        (r'std::condition_variable::wait\(std::unique_lock<std::mutex>&\)', c_wait),
        (r'std::cv_status std::condition_variable::wait_until<[^()]*>\(std::unique_lock<std::mutex>&, std::chrono::time_point<[^()]*> const&\)', c_wait_until),
        (r'std::condition_variable::notify_all\(\)', c_notify('all')), (r'std::condition_variable::notify_one\(\)', c_notify('one')),
        (r'std::condition_variable::~?condition_variable\(\)|std::mutex::~?mutex\(\)', c_nop),
        (r'std::chrono::_V2::(steady|system)_clock::now\(\)', c_now)]
KEEPSYNC = (r'^std::mutex::', r'^std::condition_variable::', r'^std::cv_status std::condition_variable::wait_until<')
ASSUME_SYNC = ['std::mutex and std::condition_variable: mutual exclusion, wait releases and reacquires the mutex and may return at any time, notify_all reaches every thread that is blocked',
               'monitor rule: other threads access the shared state only through the operations verified here']
