"""C23: ThreadPool: every task runs at most once, in order, when due; cancellation, states and shutdown are exact."""
from ..spec import *
from ..monitor import *
from .C22 import konst, b64
ASSUME = ASSUME_SYNC + ['clock readings and start times stay below 2^61 ns', 'standard containers: erase removes exactly the element, push_back and emplace_back append exactly one']
PROOFS = []
I64 = ArraySort(BV64, BV64)
TASK, ID, NAME = 24, 8, 32
FLAGS = ('moved', 'erased', 'idp', 'namep', 'ran', 'idr', 'namer')    # steps of the task a worker handles
IDG = ('mid', 'eid', 'pid', 'nid', 'rk')
class Pool:
    """layout, protected state and monitor invariant of a thread pool"""
    def __init__(s, E, st, how):
        s.how = how
        for f in 'cap threads cv mutex pending ids names next shut size tid tptr ttime task'.split(): setattr(s, f, konst(E, 'o_' + f))
        assert s.task == TASK and s.tid == 0 and s.ttime == 16
        s.o = E.new_obj(st, 'pool', s.size, 'ext')
        s.pb, s.ib, s.nb, s.tb = (E.new_obj(st, n, bv(1 << 40), 'ext') for n in ('pending', 'running ids', 'running names', 'threads'))
        s.vt = E.new_obj(st, 'vtable', 64, 'ext'); st.mem[s.vt].cells[16] = (8, FnPtr('__task_run'))
        s.C, s.T = BitVec('capacity', 64), BitVec('threads', 64)
        st.assume(And(UGE(s.C, 1), ULE(s.C, 10000000), UGE(s.T, 1), ULE(s.T, 10000)))
        c = st.w(s.o).cells
        c[s.cap] = (8, s.C)
        s.setvec(st, s.threads, s.tb, 8, s.T)
        st.g.update({k: bv(0) for k in FLAGS + IDG + ('n0', 'x0', 'm0', 's0', 'lastshut', 'notified', 'jn', 'pj')})
        st.g['open'] = bv(0)
        s.fill(E, st)
        Monitor(E, st, Ptr(s.o, bv(s.mutex)), Ptr(s.o, bv(s.cv)), s.protected, s.havoc, s.inv, s.at_wait, s.at_unlock, None, s.at_notify)
        E.pool = s; E.mloop = s
        g0 = E.guard
        def guard(E, st, p, n, what, where):
            g0(E, st, p, n, what, where)
            for off, b, w in ((s.pending, s.pb, TASK), (s.ids, s.ib, ID), (s.names, s.nb, NAME)):
                if p.obj == b and not getattr(E, 'in_contract', False): E.oblige(st, ULT(UDiv(p.off, bv(w)) if div_exact(p.off, w) is None else div_exact(p.off, w)[0], s.vec(E, st, off, w)), 'bounds', '%s %s inside the vector' % (where, what))
        E.guard = guard
    def shared(s, o): return o in (s.o, s.pb, s.ib, s.nb)
    def applies(s, E, st, fn, L):
        for b in L.blocks:
            for i in fn.blocks[b]:
                if i.op in ('call', 'invoke') and i.x['callee'][0] == 'glob':
                    d = E.demangle(i.x['callee'][1])
                    if re.match(r'.*(std::condition_variable::wait|std::mutex::(un)?lock\(\))', d): return True
        return False
    def idle(s, st): return And(*[st.g[k] == 0 for k in FLAGS])
    def at_loop(s, E, st, where):
        st.g['locked'] = S(st.g['locked'])
        if is_val(st.g['locked']) and val(st.g['locked']) == 1: s.havoc(E, st)
        for k in st.g:
            if k in FLAGS: st.g[k] = bv(0)
            elif k != 'locked': st.g[k] = E.fresh(st, k, BV64)
        if is_val(st.g['locked']) and val(st.g['locked']) == 1: s.snap(E, st)
        s.loop_locked = st.g['locked']
    def check_loop(s, E, st, where):
        if s.how == 'work': s.steps(E, st, where)
        E.oblige(st, And(st.g['locked'] == s.loop_locked, s.idle(st)), 'invariant', where + ': every task taken has been dealt with')
        if is_val(S(st.g['locked'])) and val(S(st.g['locked'])) == 1: s.inv(E, st, where)
    def setvec(s, st, off, buf, w, n):
        c = st.w(s.o).cells
        c[off] = (8, Ptr(buf, bv(0))); c[off + 8] = (8, Ptr(buf, S(n * w))); c[off + 16] = (8, Ptr(buf, bv(1 << 40)))
    def vec(s, E, st, off, w):
        b, e = (st.mem[s.o].cells[off + k][1] for k in (0, 8))
        dv = div_exact(e.off, w)
        if dv is None or dv[1]: raise Unsupported('vector size')
        return dv[0]
    def n_pend(s, E, st): return s.vec(E, st, s.pending, TASK)
    def n_ids(s, E, st): return s.vec(E, st, s.ids, ID)
    def n_names(s, E, st): return s.vec(E, st, s.names, NAME)
    def IDS(s, st): return st.mem[s.pb].segs[0].arr
    def TM(s, st): return st.mem[s.pb].segs[1].arr
    def RUN(s, st): return st.mem[s.ib].segs[0].arr
    def NM(s, st): return st.mem[s.nb].segs[0].arr
    def nxt(s, st): return st.mem[s.o].cells[s.next][1]
    def shutdown(s, st):
        v = st.mem[s.o].cells[s.shut][1]
        return S(v) if z3.is_bool(v) else S(v != 0)
    def invariant(s, E, st):
        n, m = s.n_pend(E, st), s.n_ids(E, st)
        A, X, R = s.IDS(st), s.nxt(st), s.RUN(st)
        i, j = BitVec('i', 64), BitVec('j', 64)
        return [('at most capacity() tasks are pending', ULE(n, s.C)),
                ('one name per running task', s.n_names(E, st) == m),
                ('names and ids of running tasks are in the same order', ForAll([i], Implies(ULT(i, m), Select(s.NM(st), i) == Select(R, i)), qid=fresh_name('nms'))),
                ('pending tasks are in the order in which they were added', ForAll([i, j], Implies(And(ULT(i, j), ULT(j, n)), ULT(Select(A, i), Select(A, j))), qid=fresh_name('ord'))),
                ('task ids are handed out once', ForAll([i], Implies(ULT(i, n), ULT(Select(A, i), X)), qid=fresh_name('nxt'))),
                ('no task is both pending and running', ForAll([i, j], Implies(And(ULT(i, n), ULT(j, m)), Select(A, i) != Select(R, j)), qid=fresh_name('dsj'))),
                ('ids of running tasks were handed out', ForAll([i], Implies(ULT(i, m), ULT(Select(R, i), X)), qid=fresh_name('nxr')))]
    def fill(s, E, st):
        """arbitrary protected state under the invariant"""
        n, m = E.fresh(st, 'npend', BV64), E.fresh(st, 'nrun', BV64)
        st.assume(And(ULE(n, s.C), ULE(m, 10000)))
        s.setvec(st, s.pending, s.pb, TASK, n); s.setvec(st, s.ids, s.ib, ID, m); s.setvec(st, s.names, s.nb, NAME, m)
        st.w(s.pb).segs[:] = [Seg(0, TASK, 8, E.fresh(st, 'id', I64)), Seg(s.ttime, TASK, 8, E.fresh(st, 'start', I64))]
        st.w(s.ib).segs[:] = [Seg(0, ID, 8, E.fresh(st, 'run', I64))]
        st.w(s.nb).segs[:] = [Seg(0, NAME, 8, E.fresh(st, 'name_of', I64))]
        x = E.fresh(st, 'next', BV64); sh = E.fresh(st, 'shutdown', BoolSort())
        st.assume(ULT(x, bv(1 << 63)))
        c = st.w(s.o).cells; c[s.next] = (8, x); c[s.shut] = (1, If(sh, bv(1, 8), bv(0, 8)))
        for _, f in s.invariant(E, st): st.assume(f)
    def havoc(s, E, st):
        s.fill(E, st)
        s.snap(E, st)
    def snap(s, E, st):
        st.g['n0'] = s.n_pend(E, st); st.g['x0'] = s.nxt(st); st.g['m0'] = s.n_ids(E, st); st.g['s0'] = b64(s.shutdown(st))
        if s.how != 'work': st.w(s.o).ghost['A0'] = (s.IDS(st), s.TM(st), s.RUN(st))
        else:
            # nobody else removes the id of the task this worker runs
            busy = And(st.g['idp'] == 1, st.g['idr'] == 0)
            if not z3.is_false(S(busy)):
                k = E.fresh(st, 'mine', BV64)
                st.assume(Implies(busy, And(ULT(k, st.g['m0']), Select(s.RUN(st), k) == st.g['pid'])))
    def inv(s, E, st, where):
        for w, f in s.invariant(E, st): E.oblige(st, f, 'invariant', where + ': ' + w)
    def at_unlock(s, E, st, where):
        st.g['lastshut'] = b64(s.shutdown(st))
        if s.how == 'get': s.unchanged(E, st, where)
        if s.how == 'work': s.steps(E, st, where)
    def steps(s, E, st, where):
        g = st.g
        E.oblige(st, And(g['moved'] == g['erased'], g['erased'] == g['idp'], g['idp'] == g['namep']), 'task', where + ': a task leaves the queue exactly when it is listed as running')
        E.oblige(st, Implies(g['moved'] == 1, And(g['mid'] == g['eid'], g['pid'] == g['eid'], g['nid'] == g['eid'])), 'task', where + ': the task taken, removed and listed is the same one')
        E.oblige(st, And(g['idr'] == g['namer'], g['idr'] == g['ran']), 'task', where + ': a task is listed as running until it has been run') if s.phase_end(st) else None
        s.reset(st)
    def phase_end(s, st): return not z3.is_true(S(st.g['ran'] == 0))
    def reset(s, st):
        # finished with the task: ready for the next one
        done = S(st.g['idr'] == 1)
        for k in FLAGS: st.g[k] = S(If(done, bv(0), st.g[k]))
    def unchanged(s, E, st, where):
        A, T, R = st.mem[s.o].ghost['A0']
        E.oblige(st, And(s.n_pend(E, st) == st.g['n0'], s.n_ids(E, st) == st.g['m0'], s.nxt(st) == st.g['x0'], b64(s.shutdown(st)) == st.g['s0'], BoolVal(A.eq(s.IDS(st)) and T.eq(s.TM(st)) and R.eq(s.RUN(st)))), 'frame', where + ': the pool is left as it was')
    def at_wait(s, E, st, t, where):
        E.oblige(st, BoolVal(s.how == 'work'), 'wait', where + ' only workers wait')
        s.steps(E, st, where)
        E.oblige(st, And(Not(s.shutdown(st)), s.idle(st)), 'wait', where + ' blocks only while no shutdown is requested')
        n, T = s.n_pend(E, st), s.TM(st); k = BitVec('k', 64)
        if t is None: E.oblige(st, n == 0, 'wait', where + ' waits without time limit only when no task is pending')
        else:
            E.oblige(st, forall_(k, n, Select(T, k) >= t), 'wait', where + ' sleeps no longer than until the first pending task is due')
            E.oblige(st, forall_(k, n, Select(T, k) > st.g['now']), 'wait', where + ' does not sleep while a task is due')
    def at_notify(s, E, st, kind, where):
        if s.how == 'add': ok = any(x[0] == 'add' for x in st.log)
        else: ok = kind == 'all'
        if ok: st.g['notified'] = S(If(st.g['locked'] == 1, b64(s.shutdown(st)) if s.how == 'end' else bv(1), If(st.g['sections'] == 1, st.g['lastshut'] if s.how == 'end' else bv(1), bv(0))))
    def protected(s, st, p):
        if p.obj in (s.pb, s.ib, s.nb): return True
        if p.obj != s.o: return False
        return not is_val(p.off) or s.pending <= val(p.off) < s.shut + 1
KEEP = KEEPSYNC + (r'^std::vector<.*>::(erase|clear|push_back|vector|~vector|resize|reserve)[(<]', r'^void std::vector<.*>::emplace_back<', r'^std::unique_ptr<.*>::(~?unique_ptr|reset|operator=)\(', r'^std::thread::',
    r'^[^()]* std::(find|find_if|min_element)<', r'^gul14::ThreadPool::.*::(\$_\d+|\{lambda.*\})::operator\(\)\(',
    r'^std::packaged_task<', r'std::make_unique<', r'^std::future<', r'^[^()]*std::__basic_future<', r'shared_from_this', r'^std::(shared|weak)_ptr<', r'^gul14::cat')
def forall_(k, n, f): return ForAll([k], Implies(ULT(k, n), f), qid=fresh_name('all'))
def c_clear(E, st, a, i, where):
    p = E.pool; w = where_vec(E, p, a[0], where)
    E.oblige(st, st.g['locked'] == 1, 'lock', where + ' with the mutex held')
    p.setvec(st, *w, bv(0))
    yield ('ret', st, None)
def where_vec(E, p, q, where):
    if q.obj == p.o and is_val(q.off):
        for off, b, w in ((p.pending, p.pb, TASK), (p.ids, p.ib, ID), (p.names, p.nb, NAME)):
            if val(q.off) == off: return off, b, w
    raise Unsupported('unknown vector ' + where)
def c_erase(E, st, a, i, where):
    p = E.pool; off, b, w = where_vec(E, p, a[0], where)
    E.oblige(st, st.g['locked'] == 1, 'lock', where + ' with the mutex held')
    n = p.vec(E, st, off, w)
    if len(a) == 3:
        # range: only the whole vector
        if not (p.how != 'work' and isinstance(a[1], Ptr) and isinstance(a[2], Ptr) and a[1].obj == b == a[2].obj and is_val(S(a[1].off)) and val(S(a[1].off)) == 0 and z3.is_true(S(a[2].off == S(n * w)))): raise Unsupported('erase of a range')
        p.setvec(st, off, b, w, bv(0)); yield ('ret', st, a[1]); return
    if a[1].obj != b: raise Unsupported('erase of a foreign iterator')
    dv = div_exact(a[1].off, w)
    if dv is None or dv[1]: raise Unsupported('erase position')
    k = dv[0]
    E.oblige(st, ULT(k, n), 'pre', where + ' erases an existing element', assume=True)
    if p.how == 'work': p_erase(E, st, p, off, k, where)
    for sg in st.w(b).segs:
        R = E.fresh(st, 'erased', I64); q = BitVec(fresh_name('q'), 64)
        st.assume(ForAll([q], Select(R, q) == If(ULT(q, k), Select(sg.arr, q), Select(sg.arr, q + 1)), qid=fresh_name('fill')))
        sg.arr = R
    p.setvec(st, off, b, w, S(n - 1))
    st.log.append(('erase', off, k))
    yield ('ret', st, a[1])
def p_erase(E, st, p, off, k, where):
    g = st.g; q = BitVec('q', 64)
    if off == p.pending:
        T = p.TM(st)
        E.oblige(st, And(g['moved'] == 1, g['erased'] == 0), 'task', where + ': one task is taken from the queue, and only to be run')
        E.oblige(st, Select(T, k) <= g['now'], 'task', where + ': the task is due')
        E.oblige(st, forall_(q, k, Select(T, q) > g['now']), 'task', where + ': no task added earlier is due')
        g['erased'] = bv(1); g['eid'] = S(Select(p.IDS(st), k))
    elif off == p.ids:
        E.oblige(st, And(g['ran'] == 1, g['idr'] == 0, Select(p.RUN(st), k) == g['pid']), 'task', where + ': only the id of the task that was run is removed')
        E.oblige(st, Implies(g['namer'] == 1, g['rk'] == k), 'task', where + ': name and id are removed at the same position')
        g['idr'] = bv(1); g['rk'] = k
    else:
        E.oblige(st, And(g['ran'] == 1, g['namer'] == 0), 'task', where + ': only the name of the task that was run is removed')
        E.oblige(st, Implies(g['idr'] == 1, g['rk'] == k), 'task', where + ': name and id are removed at the same position')
        g['namer'] = bv(1); g['rk'] = k
def c_push(E, st, a, i, where):
    p = E.pool; off, b, w = where_vec(E, p, a[0], where); g = st.g
    E.oblige(st, And(st.g['locked'] == 1, BoolVal(p.how == 'work')), 'lock', where + ' with the mutex held')
    n = p.vec(E, st, off, w)
    if off == p.ids: v = E.load(st, a[1], Ty('int', 64), where)
    elif off == p.names: v = name_of(st, a[1])
    else: raise Unsupported('push_back of a task')
    sg = st.w(b).segs[0]; sg.arr = Store(sg.arr, n, v)
    p.setvec(st, off, b, w, S(n + 1))
    f, x = ('idp', 'pid') if off == p.ids else ('namep', 'nid')
    E.oblige(st, g[f] == 0, 'task', where + ': listed once')
    g[f] = bv(1); g[x] = v
    yield ('ret', st, None)
def name_of(st, q):
    v = st.mem[q.obj].ghost.get('name%d' % val(q.off))
    if v is None: raise Unsupported('unknown string')
    return v
def c_str_copy(move):
    def f(E, st, a, i, where):
        v = name_of(st, a[1])
        if move: st.w(a[1].obj).ghost['name%d' % val(a[1].off)] = bv((1 << 64) - 1)
        st.w(a[0].obj).ghost['name%d' % val(a[0].off)] = v
        yield ('ret', st, None)
    return f
def c_uptr_move(E, st, a, i, where):
    p = E.pool; q = a[1]
    if q.obj == p.pb:
        E.oblige(st, And(st.g['locked'] == 1, st.g['moved'] == 0), 'task', where + ': a task is taken with the mutex held, one at a time')
        dv = div_exact(S(q.off - p.tptr), TASK)
        if dv is None or dv[1]: raise Unsupported('task position')
        E.oblige(st, ULT(dv[0], p.n_pend(E, st)), 'bounds', where + ': takes an existing task', assume=True)
        id = S(Select(p.IDS(st), dv[0])); st.g['moved'] = bv(1); st.g['mid'] = id
        t = E.new_obj(st, 'task', 64, 'ext')
        m = st.w(t); m.cells[0] = (8, Ptr(p.vt, bv(0))); m.ghost['name8'] = id; m.ghost['id'] = id
        v = Ptr(t, bv(0))
    else:
        v = st.mem[q.obj].cells[val(q.off)][1]; st.w(q.obj).cells[val(q.off)] = (8, NULL)
    st.w(a[0].obj).cells[val(a[0].off)] = (8, v)
    yield ('ret', st, a[0])
def c_uptr_reset(E, st, a, i, where):
    # destroys the task held, if any; only a local pointer is ever reset
    if a[0].obj == E.pool.pb or not (isinstance(a[1], Ptr) and a[1].obj is None): raise Unsupported('unique_ptr::reset')
    st.w(a[0].obj).cells[val(a[0].off)] = (8, NULL)
    yield ('ret', st, None)
def c_run(E, st, a, i, where):
    p = E.pool; g = st.g
    E.oblige(st, g['locked'] == 0, 'task', where + ': a task runs without the mutex')
    E.oblige(st, And(g['ran'] == 0, g['erased'] == 1, st.mem[a[0].obj].ghost['id'] == g['eid'], BoolVal(a[1].obj == p.o)), 'task', where + ': a task that was taken runs once, on this pool')
    g['ran'] = bv(1)
    s2 = st.fork()
    yield ('ret', st, None)
    yield ('unwind', s2, Exc('task'))
def c_nop32(E, st, a, i, where): yield ('ret', st, bv(0, 32))
# ---- std::find, std::find_if, std::min_element: first element that satisfies the predicate the lambda computes
def rng(E, st, a, where):
    p = E.pool; f, l = a[0], a[1]
    for off, b, w in ((p.pending, p.pb, TASK), (p.ids, p.ib, ID)):
        if f.obj == b and l.obj == b:
            x, y = div_exact(f.off, w), div_exact(l.off, w)
            if not x or not y or x[1] or y[1]: break
            E.oblige(st, And(st.g['locked'] == 1, ULE(x[0], y[0]), ULE(y[0], p.vec(E, st, off, w))), 'lock', where + ' over the shared list with the mutex held', assume=True)
            return b, w, x[0], y[0]
    raise Unsupported('range of a search ' + where)
def lambda_of(E, i, where):
    d = E.demangle(i.x['callee'][1])
    for n in E.mod.funcs:
        m = re.fullmatch(r'(.*)::operator\(\)\([^()]*\)( const)?', E.demangle(n))
        if m and m.group(1) + '>(' in d: return n
    raise Unsupported('predicate of ' + d[:200])
def evaluate(E, st, n, clo, ptrs, where):
    """value of a pure predicate on symbolic elements"""
    s = st.fork(); c = E.new_obj(s, 'closure', 16, 'stack')
    for k, v in enumerate(clo): s.mem[c].cells[8 * k] = (8, v)
    emit, E.emit = E.emit, False
    try: outs = list(E.call_function(s, n, [Ptr(c, bv(0))] + ptrs))
    finally: E.emit = emit
    if any(o[0] != 'ret' for o in outs): raise Unsupported('predicate throws')
    r = [And(*(o[1].facts[len(st.facts):] + [o[2]])) for o in outs]
    return S(Or(*r)) if len(r) > 1 else S(outs[0][2])
def c_find(kind):
    def f(E, st, a, i, where):
        b, w, lo, hi = rng(E, st, a, where)
        q, r = BitVec(fresh_name('q'), 64), E.fresh(st, 'found', BV64)
        if kind == 'find':
            x = E.load(st, a[2], Ty('int', 64), where); A = st.mem[b].segs[0].arr
            pr = lambda k: Select(A, k) == x
        else:
            n = lambda_of(E, i, where); body = evaluate(E, st, n, a[2:], [Ptr(b, S(q * w))], where)
            pr = lambda k: S(substitute(body, (q, k)))
        st.assume(And(ULE(lo, r), ULE(r, hi), Implies(ULT(r, hi), pr(r))))
        st.assume(ForAll([q], Implies(And(ULE(lo, q), ULT(q, r)), Not(pr(q))), qid=fresh_name('find')))
        yield ('ret', st, Ptr(b, S(r * w)))
    return f
def c_min(E, st, a, i, where):
    b, w, lo, hi = rng(E, st, a, where)
    q, q2, r = BitVec(fresh_name('q'), 64), BitVec(fresh_name('q'), 64), E.fresh(st, 'min', BV64)
    body = evaluate(E, st, lambda_of(E, i, where), a[2:], [Ptr(b, S(q * w)), Ptr(b, S(q2 * w))], where)
    less = lambda x, y: S(substitute(body, (q, x), (q2, y)))
    st.assume(And(ULE(lo, r), Or(ULT(r, hi), And(r == hi, lo == hi))))
    st.assume(ForAll([q], Implies(And(ULE(lo, q), ULT(q, hi)), Not(less(q, r))), qid=fresh_name('min')))
    yield ('ret', st, Ptr(b, S(r * w)))
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
VECS = [(r'std::vector<.*>::clear\(\)', c_clear), (r'std::vector<.*>::erase\(.*_iterator<[^()]*\)', c_erase), (r'std::vector<.*>::push_back\(.*\)', c_push),
        (STR + r'::basic_string\(' + STR + r' const&\)', c_str_copy(False)), (STR + r'::basic_string\(' + STR + r'&&\)', c_str_copy(True)), (STR + r'::~basic_string\(\)', c_nop),
        (r'std::unique_ptr<gul14::ThreadPool::NamedTask, .*>::(unique_ptr|operator=)\(std::unique_ptr<.*&&\)', c_uptr_move), (r'std::unique_ptr<gul14::ThreadPool::NamedTask, .*>::reset\(.*\)', c_uptr_reset), (r'std::unique_ptr<gul14::ThreadPool::NamedTask, .*>::~unique_ptr\(\)', c_nop),
        (r'__task_run', c_run), (r'sigemptyset|sigaddset|pthread_sigmask', c_nop32),
        (r'[^()]* std::find<.*', c_find('find')), (r'[^()]* std::find_if<.*', c_find('find_if')), (r'[^()]* std::min_element<.*', c_min)]
def P(name, root, how, args, post, sections=1, **kw):
    def su(E, st):
        p = Pool(E, st, how); xs = args(E, st)
        return [Ptr(p.o, bv(0))] + xs, (p, xs)
    def po(E, st, r, c):
        E.oblige(st, And(st.g['locked'] == 0, st.g['sections'] == sections), 'post', 'one critical section, mutex released')
        post(E, st, r, c[0], *c[1])
    PROOFS.append(Proof(name, root, 'pool.cc', su, po, contracts=VECS + SYNC, keep=KEEP, **kw))
none = lambda E, st: []
def eq(E, st, a, b, what): E.oblige(st, a == b, 'post', what)
P('count_pending', 'p_count', 'get', none, lambda E, st, r, p: eq(E, st, r, st.g['n0'], 'number of pending tasks'))
P('is_full', 'p_full', 'get', none, lambda E, st, r, p: eq(E, st, r, st.g['n0'] == p.C, 'true exactly when capacity() tasks are pending'))
P('is_idle', 'p_idle', 'get', none, lambda E, st, r, p: eq(E, st, r, And(st.g['n0'] == 0, st.g['m0'] == 0), 'true exactly when no task is pending or running'))
P('is_shutdown_requested', 'p_shutdown', 'get', none, lambda E, st, r, p: eq(E, st, r, st.g['s0'] == 1, 'the shutdown flag'))
P('capacity', 'p_capacity', 'get', none, lambda E, st, r, p: eq(E, st, r, p.C, 'the capacity'), sections=0)
P('count_threads', 'p_threads', 'get', none, lambda E, st, r, p: eq(E, st, r, p.T, 'number of threads'), sections=0)
def tid(E, st): return [BitVec('id', 64)]
def ex(nm, n, A, id):
    k = BitVec(nm, 64); return Exists([k], And(ULT(k, n), Select(A, k) == id))
def po_state(E, st, r, p, id):
    A, T, R = st.mem[p.o].ghost['A0']
    r = Extract(31, 0, r)
    running, pending = ex('k', st.g['m0'], R, id), ex('k', st.g['n0'], A, id)
    E.oblige(st, Implies(r == 1, running), 'post', 'running: the id is in the list of running tasks')
    E.oblige(st, Implies(r == 0, pending), 'post', 'pending: the id is in the list of pending tasks')
    E.oblige(st, Implies(r != 1, Not(running)), 'post', 'not running: the id is not in the list of running tasks')
    E.oblige(st, Implies(And(r != 1, r != 0), Not(pending)), 'post', 'unknown: the id is not in the list of pending tasks')
P('get_task_state', 'p_state', 'get', tid, po_state)
def po_cancel(E, st, r, p, id):
    A, T, R = st.mem[p.o].ghost['A0']; n0 = st.g['n0']
    er = [x for x in st.log if x[0] == 'erase']
    E.oblige(st, r == BoolVal(len(er) == 1), 'post', 'true exactly when one task was removed')
    E.oblige(st, BoolVal(all(x[1] == p.pending for x in er) and len(er) <= 1), 'post', 'only pending tasks are removed')
    if er: E.oblige(st, Select(A, er[0][2]) == id, 'post', 'the removed task is the given one')
    else: E.oblige(st, Not(ex('k', n0, A, id)), 'post', 'false only when the task is not pending')
    E.oblige(st, And(s_eq(st.g['m0'], p.n_ids(E, st)), p.nxt(st) == st.g['x0'], b64(p.shutdown(st)) == st.g['s0']), 'post', 'nothing else changes')
s_eq = lambda a, b: a == b
P('cancel_pending_task', 'p_cancel', 'cancel', tid, po_cancel)
def po_all(E, st, r, p):
    E.oblige(st, And(r == st.g['n0'], p.n_pend(E, st) == 0), 'post', 'all pending tasks are removed and counted')
    E.oblige(st, And(s_eq(st.g['m0'], p.n_ids(E, st)), p.nxt(st) == st.g['x0'], b64(p.shutdown(st)) == st.g['s0']), 'post', 'nothing else changes')
P('cancel_pending_tasks', 'p_cancel_all', 'cancel', none, po_all)

def po_work(E, st, r, p):
    E.oblige(st, And(st.g['locked'] == 0, st.g['lastshut'] == 1, p.idle(st)), 'post', 'a worker ends only on shutdown, with no task in hand')
def min_template(E, st0, names, entry, cls, mcls):
    """a variable that is at most every start time looked at so far"""
    out = []; p = E.pool; vs = []
    for n in names:
        v = entry[n]
        if z3.is_expr(v) and z3.is_bv(v) and v.size() == 64: vs.append((n, lambda w, n=n: w.v(n)))
        if isinstance(v, Ptr) and v.obj == p.pb:
            def at(w, n=n):
                q = w.v(n); dv = div_exact(q.off, TASK) if isinstance(q, Ptr) and q.obj == p.pb else None
                if dv is None or dv[1]: raise NotApplicable()
                return Select(p.TM(st0), dv[0])
            vs.append((n, at))
    for k in mcls:
        if k[0] == 'cell' and k[3] == 8 and not p.shared(k[1]):
            def cell(w, k=k):
                v = w.st.mem[k[1]].cells[k[2]][1]
                if not (z3.is_expr(v) and z3.is_bv(v)): raise NotApplicable()
                return v
            vs.append((str(k[1]), cell))
    for n, get_ in vs:
        for d in (0, 1):
            def f(w, get_=get_, d=d):
                k = BitVec('k', 64); v = get_(w)
                return ForAll([k], Implies(And(ULT(k, w.it + d), ULT(k, p.n_pend(E, st0))), v <= Select(p.TM(st0), k)), qid=fresh_name('low'))
            out.append(('%s is at most the start times so far (%d)' % (n, d), f))
    return out
def P_work():
    def su(E, st):
        p = Pool(E, st, 'work'); return [Ptr(p.o, bv(0))], p
    PROOFS.append(Proof('perform_work', 'p_work', 'pool.cc', su, lambda E, st, r, p: po_work(E, st, r, p), contracts=VECS + SYNC, keep=KEEP, slow=2, templates=[min_template]))
P_work()

# ---- add_task: the standard library's task, future and pointer classes carry tokens (which function, which name, which future)
def tok(st, q, k): return st.mem[q.obj].ghost.get('%s%d' % (k, val(q.off)))
def settok(st, q, k, v): st.w(q.obj).ghost['%s%d' % (k, val(q.off))] = v
def c_ptask(E, st, a, i, where):
    settok(st, a[0], 'fn', E.load(st, a[1], Ty('int', 32), where)); yield ('ret', st, None)
def c_make_task(E, st, a, i, where):
    fn, nm = tok(st, a[1], 'fn'), tok(st, a[2], 'name')
    if fn is None or nm is None: raise Unsupported('make_unique')
    settok(st, a[1], 'fn', None); settok(st, a[2], 'name', bv((1 << 64) - 1))
    t = E.new_obj(st, 'task', 256, 'heap'); m = st.w(t); m.ghost.update(fn=fn, name=nm)
    st.w(a[0].obj).cells[val(a[0].off)] = (8, Ptr(t, bv(0)))
    yield ('ret', st, None)
def c_get_future(E, st, a, i, where):
    E.oblige(st, BoolVal('fn' in st.mem[a[1].obj].ghost), 'task', where + ': the future belongs to the task')
    settok(st, a[0], 'fut', a[1].obj); yield ('ret', st, None)
def c_fut_move(E, st, a, i, where):
    settok(st, a[0], 'fut', tok(st, a[1], 'fut')); settok(st, a[1], 'fut', None); yield ('ret', st, None)
def c_this(E, st, a, i, where):
    settok(st, a[0], 'pool', a[1].obj); yield ('ret', st, None)
def c_ptr(k):
    def f(E, st, a, i, where):
        if tok(st, a[1], k) is not None: settok(st, a[0], k, tok(st, a[1], k))
        c = st.mem[a[1].obj].cells.get(val(a[1].off))
        if c is not None: st.w(a[0].obj).cells[val(a[0].off)] = c
        yield ('ret', st, None)
    return f
def c_append(E, st, a, i, where):
    p = E.pool
    if where_vec(E, p, a[0], where)[0] != p.pending: raise Unsupported('emplace_back')
    E.oblige(st, And(st.g['locked'] == 1, BoolVal(p.how == 'add')), 'lock', where + ' with the mutex held')
    n = p.n_pend(E, st)
    id, tm = E.load(st, a[1], Ty('int', 64), where), E.load(st, a[3], Ty('int', 64), where)
    up = st.mem[a[2].obj].cells[val(a[2].off)][1]
    E.oblige(st, BoolVal(isinstance(up, Ptr) and up.obj is not None), 'task', where + ': a task is queued', assume=True)
    st.w(a[2].obj).cells[val(a[2].off)] = (8, NULL)
    sg = st.w(p.pb).segs
    sg[0].arr = Store(sg[0].arr, n, id); sg[1].arr = Store(sg[1].arr, n, tm)
    p.setvec(st, p.pending, p.pb, TASK, S(n + 1))
    m = st.mem[up.obj].ghost
    st.log.append(('add', up.obj, id, tm, m['fn'], m['name']))
    yield ('ret', st, None)
def c_text(E, st, a, i, where): yield ('ret', st, Ptr(E.new_obj(st, 'text', 64, 'ext'), bv(0)))
def c_len(E, st, a, i, where): yield ('ret', st, E.fresh(st, 'len', BV64))
TH = r'gul14::ThreadPool'
FUT = r'std::(future<.*>|__basic_future<.*>)'
ADD = [(STR + r'::basic_string\(.*\)', c_nop), (STR + r'::data\(\) const', c_text), (STR + r'::(length|size)\(\) const', c_len), (r'std::__cxx11::to_string\(.*\)|gul14::cat.*', c_nop),
       (r'std::packaged_task<.*>::packaged_task<.*', c_ptask), (r'std::packaged_task<.*>::~packaged_task\(\)', c_nop), (r'std::packaged_task<.*>::get_future\(\)', c_get_future),
       (r'.*std::make_unique<gul14::ThreadPool::NamedTaskImpl<.*', c_make_task), (r'std::enable_shared_from_this<.*>::shared_from_this\(\)', c_this),
       (r'std::(shared|weak)_ptr<.*>::~(shared|weak)_ptr\(\)|std::unique_ptr<.*>::~unique_ptr\(\)|std::future<.*>::~future\(\)', c_nop),
       (r'std::weak_ptr<gul14::ThreadPool>::weak_ptr.*|std::shared_ptr<gul14::ThreadPool>::shared_ptr\(.*', c_ptr('pool')), (r'std::shared_ptr<std::atomic<bool>( const)?>::shared_ptr.*', c_ptr('flag')),
       (r'void std::vector<gul14::ThreadPool::Task, .*>::emplace_back<.*', c_append)]
FADD = [(r'std::future<.*>::future\(std::future<.*>&&\)', c_fut_move)]
def P_add(name, root, start):
    def su(E, st):
        p = Pool(E, st, 'add')
        h, f, nm = E.new_obj(st, 'handle', 128, 'ext'), E.new_obj(st, 'function', 4, 'ext'), E.new_obj(st, 'string', 32, 'ext')
        k, t, N = BitVec('function', 32), BitVec('t', 64), BitVec('name', 64)
        st.assume(And(t > -(1 << 61), t < (1 << 61)))
        st.mem[f].cells[0] = (4, k); st.mem[nm].ghost['name0'] = N
        return [Ptr(h, bv(0)), Ptr(p.o, bv(0)), Ptr(f, bv(0)), t, Ptr(nm, bv(0))], (p, h, k, t, N)
    def same(E, st, p, what):
        E.oblige(st, And(p.n_ids(E, st) == st.g['m0'], b64(p.shutdown(st)) == st.g['s0'], BoolVal(p.RUN(st).eq(st.mem[p.o].ghost['A0'][2]))), 'post', what)
    def po(E, st, r, c):
        p, h, k, t, N = c
        A, T, R = st.mem[p.o].ghost['A0']; n0, x0 = st.g['n0'], st.g['x0']
        ad = [x for x in st.log if x[0] == 'add']
        E.oblige(st, And(st.g['locked'] == 0, st.g['sections'] == 1), 'post', 'one critical section, mutex released')
        E.oblige(st, BoolVal(len(ad) == 1), 'post', 'exactly one task is queued')
        if len(ad) != 1: return
        _, o, id, tm, fn, nm = ad[0]
        E.oblige(st, And(ULT(n0, p.C), p.n_pend(E, st) == n0 + 1, Select(p.IDS(st), n0) == x0, p.nxt(st) == x0 + 1, id == x0), 'post', 'the task gets the next id and the last place in the queue')
        j = BitVec('j', 64)
        E.oblige(st, forall_(j, n0, And(Select(p.IDS(st), j) == Select(A, j), Select(p.TM(st), j) == Select(T, j))), 'post', 'the other tasks stay as they are')
        E.oblige(st, tm == {'at': t, 'delay': S(st.g['now'] + t), 'now': bv(0)}[start], 'post', 'it gets the given start time')
        E.oblige(st, And(fn == k, nm == N), 'post', 'it runs the given function under the given name')
        same(E, st, p, 'nothing else changes')
        H = st.mem[h]
        E.oblige(st, And(H.cells[konst(E, 'o_hid')][1] == x0, BoolVal(H.ghost.get('fut%d' % konst(E, 'o_hfut')) == o and H.ghost.get('pool%d' % konst(E, 'o_hpool')) == p.o)), 'post', 'the handle refers to this task and pool')
        E.oblige(st, st.g['notified'] == 1, 'post', 'a waiting worker is woken after the task has been queued')
    def th(E, st, x, c):
        p, h, k, t, N = c
        E.oblige(st, And(BoolVal(x.tinfo == '_ZTISt13runtime_error'), st.g['n0'] == p.C, st.g['locked'] == 0), 'throw', 'runtime_error only when the queue is full, mutex released')
        E.oblige(st, BoolVal(not [x for x in st.log if x[0] == 'add']), 'throw', 'no task is queued')
        E.oblige(st, And(p.n_pend(E, st) == st.g['n0'], p.nxt(st) == st.g['x0']), 'throw', 'the queue stays as it is')
        same(E, st, p, 'nothing else changes')
    PROOFS.append(Proof(name, root, 'pool.cc', su, po, contracts=VECS + FADD + ADD + SYNC, keep=KEEP, on_throw=th, min_outcomes=2))
for nm, root, start in (('fct(pool), time', 'p_add', 'at'), ('fct(), time', 'p_add_g', 'at'), ('fct(pool), delay', 'p_add_d', 'delay'), ('fct(), delay', 'p_add_dg', 'delay'), ('fct(pool)', 'p_add_n', 'now'), ('fct()', 'p_add_ng', 'now')):
    P_add('add_task(%s)' % nm, root, start)
# ---- destruction: shutdown is announced, every worker is told and joined before the members go away
def th_index(E, st, q, where):
    p = E.pool; dv = div_exact(q.off, 8)
    if q.obj != p.tb or dv is None or dv[1]: raise Unsupported('thread')
    E.oblige(st, ULT(dv[0], p.T), 'bounds', where + ': a thread of this pool')
    return dv[0]
def c_joinable(E, st, a, i, where):
    k = th_index(E, st, a[0], where)
    E.oblige(st, And(k == st.g['jn'], st.g['pj'] == 0), 'join', where + ': threads are joined one after the other')
    st.g['jn'] = S(st.g['jn'] + 1); s2 = st.fork(); st.g['pj'] = bv(1)
    yield ('ret', st, BoolVal(True)); yield ('ret', s2, BoolVal(False))
def c_join(E, st, a, i, where):
    k = th_index(E, st, a[0], where); g = st.g
    pj = val(S(g['pj']))
    E.oblige(st, k == S(g['jn'] - pj), 'join', where + ': every thread is joined once')
    E.oblige(st, And(g['locked'] == 0, g['lastshut'] == 1, g['notified'] == 1), 'join', where + ': joins without the mutex, after shutdown has been announced to all workers')
    g['jn'] = S(g['jn'] + (1 - pj)); g['pj'] = bv(0); yield ('ret', st, None)
def c_gone(E, st, a, i, where):
    E.oblige(st, And(st.g['jn'] == E.pool.T, st.g['pj'] == 0, st.g['locked'] == 0), 'join', where + ': no member is destroyed before all threads have ended')
    st.g['gone'] = S(st.g['gone'] + 1); yield ('ret', st, None)
END = [(r'std::thread::joinable\(\) const', c_joinable), (r'std::thread::join\(\)', c_join), (r'std::vector<.*>::~vector\(\)', c_gone), (r'std::condition_variable::~condition_variable\(\)', c_gone),
       (r'std::enable_shared_from_this<.*>::~enable_shared_from_this\(\)', c_nop)]
def P_end():
    def su(E, st):
        p = Pool(E, st, 'end'); st.g['gone'] = bv(0); return [Ptr(p.o, bv(0))], p
    def po(E, st, r, p): E.oblige(st, And(st.g['locked'] == 0, st.g['gone'] == 5), 'post', 'members are destroyed after all threads have been joined')
    PROOFS.append(Proof('destructor', 'p_dtor', 'pool.cc', su, po, contracts=END + VECS + ADD + SYNC, keep=KEEP + (r'^std::enable_shared_from_this<',)))
P_end()
# ---- construction
def c_spawn(E, st, a, i, where):
    p = E.pool; q = a[0]
    E.oblige(st, And(BoolVal(q.obj == p.o), q.off == p.threads, st.g['ready'] == 1), 'spawn', where + ': workers start after the members have been built')
    v = st.mem[a[1].obj].cells[val(a[1].off)][1]
    E.oblige(st, BoolVal(isinstance(v, Ptr) and v.obj == p.o), 'spawn', where + ': the worker serves this pool')
    p.setvec(st, p.threads, p.tb, 8, S(p.vec(E, st, p.threads, 8) + 1)); yield ('ret', st, None)
def c_thread(E, st, a, i, where):
    p = E.pool; v = st.mem[a[1].obj].cells[val(a[1].off)][1]
    E.oblige(st, BoolVal(isinstance(v, Ptr) and v.obj == p.o), 'spawn', where + ': the worker serves this pool')
    E.oblige(st, st.g['ready'] == 1, 'spawn', where + ': workers start after the members have been built')
    settok(st, a[0], 'thread', True); yield ('ret', st, None)
def c_push_thread(E, st, a, i, where):
    p = E.pool; q = a[0]
    E.oblige(st, And(BoolVal(q.obj == p.o and tok(st, a[1], 'thread') is True), q.off == p.threads), 'spawn', where + ': a started worker is stored')
    st.w(a[1].obj).ghost.pop('thread%d' % val(a[1].off), None)
    p.setvec(st, p.threads, p.tb, 8, S(p.vec(E, st, p.threads, 8) + 1)); yield ('ret', st, None)
def c_del_thread(E, st, a, i, where):
    E.oblige(st, BoolVal(tok(st, a[0], 'thread') is not True), 'spawn', where + ': no running thread is abandoned'); yield ('ret', st, None)
def c_empty(E, st, a, i, where):
    p = E.pool
    for off, b, w in ((p.pending, p.pb, TASK), (p.ids, p.ib, ID), (p.names, p.nb, NAME), (p.threads, p.tb, 8)):
        if is_val(a[0].off) and val(a[0].off) == off: p.setvec(st, off, b, w, bv(0)); break
    else: raise Unsupported('vector')
    yield ('ret', st, None)
NEW = [(r'std::thread::thread<.*', c_thread), (r'std::vector<std::thread, .*>::push_back\(.*&&\)', c_push_thread), (r'std::thread::~thread\(\)', c_del_thread), (r'std::vector<.*>::vector\(\)', c_empty), (r'void std::vector<std::thread, .*>::emplace_back<.*', c_spawn), (r'std::vector<std::thread, .*>::reserve\(unsigned long\)', c_nop),
       (r'std::vector<.*>::~vector\(\)', c_nop), (r'std::enable_shared_from_this<.*>::~?enable_shared_from_this\(\)', c_nop)]
def P_new():
    def su(E, st):
        p = Pool(E, st, 'new'); n, c = BitVec('num_threads', 64), BitVec('cap', 64)
        st.g['locked'] = bv(1); st.g['ready'] = bv(1)      # nobody else can see the pool yet
        c0 = st.w(p.o).cells; c0.pop(p.cap); c0.pop(p.next); c0.pop(p.shut)
        return [Ptr(p.o, bv(0)), n, c], (p, n, c)
    good = lambda n, c: And(UGE(n, 1), ULE(n, 10000), UGE(c, 1), ULE(c, 10000000))
    def po(E, st, r, x):
        p, n, c = x; m = st.mem[p.o].cells
        E.oblige(st, good(n, c), 'post', 'accepts only valid numbers')
        E.oblige(st, And(p.vec(E, st, p.threads, 8) == n, m[p.cap][1] == c), 'post', 'the given number of threads and capacity')
        E.oblige(st, And(p.n_pend(E, st) == 0, p.n_ids(E, st) == 0, p.n_names(E, st) == 0, Not(p.shutdown(st))), 'post', 'a new pool is idle')
    def th(E, st, e, x):
        p, n, c = x; E.oblige(st, And(BoolVal(e.tinfo == '_ZTISt16invalid_argument'), Not(good(n, c)), p.vec(E, st, p.threads, 8) == 0), 'throw', 'invalid_argument for an illegal number of threads or capacity, and only then')
    PROOFS.append(Proof('constructor', 'p_ctor', 'pool.cc', su, po, contracts=NEW + VECS + ADD + SYNC, keep=KEEP + (r'^std::enable_shared_from_this<',), on_throw=th, min_outcomes=2))
P_new()
# ---- task handles: a future is (valid, ready), `started` tells whether a worker has begun the task
def fut(E, st, q): return E.hd if q.obj == E.hd.o and val(q.off) == E.hd.f else None
def c_valid(E, st, a, i, where): yield ('ret', st, S(st.g['valid'] == 1))
def c_wait_for(E, st, a, i, where):
    E.oblige(st, And(st.g['valid'] == 1, E.load(st, a[1], Ty('int', 64), where) == 0), 'future', where + ': asks a valid future without blocking')
    yield ('ret', st, S(If(st.g['ready'] == 1, bv(0, 32), bv(1, 32))))
def c_fwait(E, st, a, i, where):
    E.oblige(st, st.g['valid'] == 1, 'future', where + ': waits for a valid future'); st.g['ready'] = bv(1); yield ('ret', st, None)
def c_get(E, st, a, i, where):
    E.oblige(st, st.g['valid'] == 1, 'future', where + ': asks a valid future', assume=True)
    st.g['valid'] = bv(0); st.g['ready'] = bv(1); st.g['got'] = bv(1); s2 = st.fork()
    yield ('ret', st, E.hd_value); yield ('unwind', s2, Exc('task'))
def c_fassign(E, st, a, i, where):
    if a[0].obj != E.hd: raise Unsupported('future')
    st.g['valid'] = bv(0); yield ('ret', st, a[0])
def c_wlock(E, st, a, i, where):
    s2 = st.fork()
    for s, v in ((st, Ptr(E.pool.o, bv(0))), (s2, NULL)):
        s.w(a[0].obj).cells[val(a[0].off)] = (8, v); s.g['alive'] = bv(1 if s is st else 0); yield ('ret', s, None)
def c_shmove(E, st, a, i, where):
    st.w(a[0].obj).cells[val(a[0].off)] = st.mem[a[1].obj].cells[val(a[1].off)]; yield ('ret', st, None)
HAND = [(r'std::__basic_future<.*>::valid\(\) const', c_valid), (r'.* std::__basic_future<.*>::wait_for<.*', c_wait_for), (r'std::__basic_future<.*>::wait\(\) const', c_fwait), (r'std::future<.*>::get\(\)', c_get),
        (r'std::future<.*>::operator=\(std::future<.*>&&\)', c_fassign), (r'std::future<.*>::future\(\)', c_nop), (r'std::weak_ptr<.*>::lock\(\) const', c_wlock),
        (r'std::weak_ptr<.*>::weak_ptr\(std::weak_ptr<.*> const&\)', c_nop), (r'std::shared_ptr<gul14::ThreadPool>::shared_ptr\(std::shared_ptr<.*', c_shmove)]
def P_hand(name, root, how, post, throws):
    def su(E, st):
        p = Pool(E, st, how); h = E.new_obj(st, 'handle', konst(E, 'o_hsize'), 'ext'); E.hd = h; E.hd_value = BitVec('result', 32)
        id, fl = BitVec('id', 64), E.new_obj(st, 'started', 1, 'ext')
        sb, db = z3.Bool('started'), z3.Bool('done')
        c = st.mem[h].cells; c[konst(E, 'o_hid')] = (8, id); c[konst(E, 'o_hstart')] = (8, Ptr(fl, bv(0))); c[konst(E, 'o_hdone')] = (1, If(db, bv(1, 8), bv(0, 8)))
        st.mem[fl].cells[0] = (1, If(sb, bv(1, 8), bv(0, 8)))
        v, r = z3.Bool('valid'), z3.Bool('ready')
        st.g.update(valid=b64(v), ready=b64(r), got=bv(0), alive=bv(1))
        st.assume(Implies(v, Not(db)))
        return [Ptr(h, bv(0))], (p, h, id, sb, db, v, r)
    PROOFS.append(Proof(name, root, 'pool.cc', su, post, contracts=HAND + VECS + FADD + ADD + SYNC, keep=KEEP, on_throw=throws, min_outcomes=1))
def complete(c):
    p, h, id, sb, db, v, r = c; return If(v, And(r, sb), db)
def keeps(E, st, c, what='the handle stays as it was'):
    p, h, id, sb, db, v, r = c
    E.oblige(st, And(st.g['valid'] == b64(v), done(E, st, c) == db), 'post', what)
def done(E, st, c):
    x = st.mem[c[1]].cells[konst(E, 'o_hdone')][1]; return S(x) if z3.is_bool(x) else S(x != 0)
def po_complete(E, st, r, c):
    E.oblige(st, r == complete(c), 'post', 'true exactly when the task has been started and has finished'); keeps(E, st, c)
def po_hstate(E, st, r, c):
    r = Extract(31, 0, r)
    p = c[0]; A, T, R = st.mem[p.o].ghost['A0']; running, pending = ex('k', st.g['m0'], R, c[2]), ex('k', st.g['n0'], A, c[2])
    E.oblige(st, ULE(r, 3), 'post', 'one of the four states')
    E.oblige(st, Implies(r == 1, running), 'post', 'running: the task is in the list of running tasks'); E.oblige(st, Implies(r == 0, pending), 'post', 'pending: the task is in the queue')
    E.oblige(st, Implies(UGE(r, 2), And(Not(running), Not(pending), (r == 2) == complete(c))), 'post', 'otherwise complete when it has been started and has finished, else canceled'); keeps(E, st, c)
def po_hcancel(E, st, r, c):
    po_cancel(E, st, r, c[0], c[2])
    E.oblige(st, And(done(E, st, c) == c[4], st.g['valid'] == If(r, bv(0), b64(c[5]))), 'post', 'the result is given up exactly when the task was removed from the queue')
def po_result(E, st, r, c):
    E.oblige(st, And(c[5], st.g['got'] == 1, r == E.hd_value, done(E, st, c) == c[3]), 'post', 'the result of the task; the handle remembers whether it completed')
def th_pool(E, st, x, c):
    E.oblige(st, And(BoolVal(x.tinfo == '_ZTISt11logic_error'), st.g['alive'] == 0, st.g['locked'] == 0), 'throw', 'logic_error only when the pool is gone'); keeps(E, st, c)
def th_result(E, st, x, c):
    if x.tinfo == 'task': E.oblige(st, And(c[5], done(E, st, c) == c[3]), 'throw', 'the exception of the task; the handle remembers whether it completed')
    else: E.oblige(st, And(BoolVal(x.tinfo == '_ZTISt11logic_error'), Not(c[5])), 'throw', 'logic_error only when there is no result'); keeps(E, st, c)
P_hand('TaskHandle::is_complete', 'h_complete', 'get', po_complete, None)
P_hand('TaskHandle::get_state', 'h_state', 'get', po_hstate, th_pool)
P_hand('TaskHandle::cancel', 'h_cancel', 'cancel', po_hcancel, th_pool)
P_hand('TaskHandle::get_result', 'h_result', 'get', po_result, th_result)
# ---- a task marks itself as started, then runs its function once
def c_invoke(E, st, a, i, where):
    E.oblige(st, And(st.g['calls'] == 0, BoolVal(a[0].obj == E.ti and val(a[0].off) == E.tif and a[1].obj == E.tip), st.mem[E.tfl].cells[0][1] != 0), 'task', where + ': the function runs once, on the given pool, after the task has been marked as started')
    st.g['calls'] = S(st.g['calls'] + 1); s2 = st.fork()
    yield ('ret', st, None); yield ('unwind', s2, Exc('task'))
def P_run():
    def su(E, st):
        E.tif = konst(E, 'o_tifct'); E.ti = E.new_obj(st, 'task', konst(E, 'o_tisize'), 'ext'); E.tip = E.new_obj(st, 'pool', 400, 'ext'); E.tfl = E.new_obj(st, 'started', 1, 'ext')
        st.mem[E.tfl].cells[0] = (1, bv(0, 8)); st.mem[E.ti].cells[konst(E, 'o_tistart')] = (8, Ptr(E.tfl, bv(0))); st.g['calls'] = bv(0)
        return [Ptr(E.ti, bv(0)), Ptr(E.tip, bv(0))], None
    po = lambda E, st, *x: E.oblige(st, st.g['calls'] == 1, 'post', 'the function has been run')
    PROOFS.append(Proof('NamedTaskImpl::operator()', 't_run', 'pool.cc', su, po, contracts=[(r'std::packaged_task<.*>::operator\(\)\(.*', c_invoke)], keep=KEEP, on_throw=lambda E, st, e, c: po(E, st)))
P_run()
def c_copyvec(E, st, a, i, where):
    p = E.pool
    E.oblige(st, And(st.g['locked'] == 1, BoolVal(a[1].obj == p.o), a[1].off == p.names), 'lock', where + ': copies the list of running names with the mutex held')
    st.log.append(('copy', a[0].obj)); yield ('ret', st, None)
def P_names():
    def su(E, st):
        p = Pool(E, st, 'get'); o = E.new_obj(st, 'result', 24, 'ext'); return [Ptr(o, bv(0)), Ptr(p.o, bv(0))], (p, o)
    def po(E, st, r, c): E.oblige(st, And(st.g['locked'] == 0, st.g['sections'] == 1, BoolVal([x for x in st.log if x[0] == 'copy'] == [('copy', c[1])])), 'post', 'a copy of the list, mutex released')
    PROOFS.append(Proof('get_running_task_names', 'p_running', 'pool.cc', su, po, contracts=[(r'std::vector<.*>::vector\(std::vector<.* const&\)', c_copyvec)] + VECS + ADD + SYNC, keep=KEEP))
P_names()
