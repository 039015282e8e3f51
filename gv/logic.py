"""Term layer and prover: canonical simplification, quantifier instantiation (index-guided, array
property style), on-demand unfolding of defined symbols, and discharge by SMT solvers."""
import z3, time, os, subprocess, tempfile, hashlib
from z3 import *

BV64 = BitVecSort(64)
BV8 = BitVecSort(8)
BYTES = ArraySort(BV64, BV8)

def S(e):
    """canonical form (linear sums sorted)"""
    return z3.simplify(e, som=True, sort_sums=True)

def bv(v, n=64):
    return BitVecVal(v, n)

def is_val(e):
    return z3.is_bv_value(e)

def val(e):
    return e.as_long()

_fresh = [0]
def fresh_name(p):
    _fresh[0] += 1
    return '%s!%d' % (p, _fresh[0])

# ---------------------------------------------------------------- linear decomposition
_lin = {}
def lin(e):
    """canonical BV expr -> (dict id->(coef, atom), const); e must be S-canonical"""
    key = e.get_id()
    r = _lin.get(key)
    if r is not None and r[2].eq(e):
        return r
    n = e.size(); M = (1 << n) - 1
    d = {}; c = 0
    def add(t, k):
        nonlocal c
        if z3.is_bv_value(t):
            c = (c + k * t.as_long()) & M; return
        if z3.is_app(t):
            kind = t.decl().kind()
            if kind == Z3_OP_BADD:
                for x in t.children(): add(x, k)
                return
            if kind == Z3_OP_BSUB:
                ch = t.children(); add(ch[0], k)
                for x in ch[1:]: add(x, -k)
                return
            if kind == Z3_OP_BNEG:
                add(t.arg(0), -k); return
            if kind == Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
                add(t.arg(1), k * t.arg(0).as_long()); return
        i = t.get_id()
        if i in d: d[i] = ((d[i][0] + k) & M, t)
        else: d[i] = (k & M, t)
    add(e, 1)
    d = {i: v for i, v in d.items() if v[0]}
    r = (d, c, e)
    _lin[key] = r
    return r

def unlin(d, c, n):
    t = BitVecVal(c, n)
    for k, a in d.values():
        t = t + BitVecVal(k, n) * a
    return S(t)

def signed(v, n):
    return v - (1 << n) if v >> (n - 1) else v

def div_exact(e, stride):
    """e == stride * q + r syntactically: returns (q, r) with 0<=r<stride or None"""
    d, c, _ = lin(e)
    n = e.size()
    q = {}
    for i, (k, a) in d.items():
        ks = signed(k, n)
        if ks % stride:
            # a choice between two multiples of the stride
            if not (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE): return None
            x = div_exact(a.arg(1), stride); y = div_exact(a.arg(2), stride)
            if x is None or y is None or x[1] or y[1]: return None
            t = S(z3.If(a.arg(0), x[0], y[0]))
            j = t.get_id()
            q[j] = ((k + (q[j][0] if j in q else 0)) % (1 << n), t)
            continue
        k2 = (ks // stride) % (1 << n)
        q[i] = ((k2 + (q[i][0] if i in q else 0)) % (1 << n), a)
    cs = signed(c, n)
    return unlin(q, (cs // stride) % (1 << n), n), cs % stride

# ---------------------------------------------------------------- defined symbols
DEFS = {}      # decl name -> (generator(app) -> list of Bool facts, recursive?)

def defined(name, gen, rec=False):
    DEFS[name] = (gen, rec)

_hq = {}
def has_q(e):
    i = e.get_id()
    r = _hq.get(i)
    if r is not None and r[1].eq(e): return r[0]
    if z3.is_quantifier(e): v = True
    elif z3.is_bool(e) and z3.is_app(e):
        v = any(has_q(c) for c in e.children())
    else: v = False
    _hq[i] = (v, e)
    return v

# anchor predicate: constantly true; marks terms a quantifier should be matched against skolems with
ANCH = z3.Function('ANCH', BV64, BoolSort())

# extra instantiation candidates per quantifier id
QHINT = {}
# per quantifier id: the only pattern heads (array or function names) it is matched on
QPAT = {}

_qbody = {}
def open_q(q):
    """placeholders and body of a quantifier"""
    i = q.get_id()
    r = _qbody.get(i)
    if r is not None and r[2].eq(q): return r[0], r[1]
    ph = [Const(fresh_name('?' + q.var_name(j)), q.var_sort(j)) for j in range(q.num_vars())]
    b = S(substitute_vars(q.body(), *reversed(ph)))
    _qbody[i] = (ph, b, q)
    return ph, b

def roots(a):
    """root heads of an array term"""
    out = set(); seen = set(); st = [a]
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_app(t):
            k = t.decl().kind()
            if k == Z3_OP_STORE: st.append(t.arg(0)); continue
            if k == Z3_OP_ITE: st.append(t.arg(1)); st.append(t.arg(2)); continue
            if k == Z3_OP_CONST_ARRAY: out.add('K'); continue
            if k == Z3_OP_SELECT: out.add('sel'); continue
            out.add(t.decl().name())
    return out

class QF:
    __slots__ = ('ph', 'body', 'guard', 'pats', 'hint', 'done', 'q', 'depth', 'nest')

def contains(e, ids, memo):
    i = e.get_id()
    if i in ids: return True
    if i in memo: return memo[i]
    r = any(contains(c, ids, memo) for c in e.children())
    memo[i] = r
    return r

def patterns(ph, body):
    """list of (key, index term) with index term mentioning a placeholder"""
    ids = {p.get_id() for p in ph}
    memo = {}
    out = []; seen = set()
    st = [body]
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen: continue
        seen.add(i)
        if not contains(t, ids, memo): continue
        if z3.is_quantifier(t):
            st.append(t.body()); continue
        if not z3.is_app(t): continue
        k = t.decl().kind()
        if k == Z3_OP_SELECT:
            ix = t.arg(1)
            if contains(ix, ids, memo) and not has_var(ix):
                for r in roots(t.arg(0)):
                    out.append((('sel', r), ix))
            elif contains(ix, ids, memo) and not z3.is_quantifier(ix):
                # index depends on an inner bound variable, too: match its lower end with the terms of the goal
                z = at_zero(ix)
                if z is not None and contains(z, ids, {}):
                    for r in roots(t.arg(0)): out.append((('goal', 'sel', r), z))
        elif k == Z3_OP_EQ and z3.is_bv(t.arg(0)) and t.arg(0).size() == 64 and not has_var(t):
            df = S(t.arg(0) - t.arg(1))
            d, c, _ = lin(df)
            ins = [(kk, a) for kk, a in d.values() if contains(a, ids, memo)]
            if len(ins) == 1 and ins[0][1].get_id() in ids and signed(ins[0][0], 64) in (1, -1):
                kk, a = ins[0]
                rest = {x: v for x, v in d.items() if v[1].get_id() != a.get_id()}
                r = unlin(rest, c, 64)
                out.append((('bound', a.get_id(), S(-r) if signed(kk, 64) == 1 else r), a))
            st.extend(t.children())
        elif k == Z3_OP_UNINTERPRETED and t.num_args():
            for j in range(t.num_args()):
                a = t.arg(j)
                if (z3.is_bv(a) or a.sort().kind() == Z3_UNINTERPRETED_SORT) and contains(a, ids, memo) and not has_var(a):
                    out.append((('app', t.decl().name(), j), a))
        st.extend(t.children())
    return out

def at_zero(e):
    vs = set(); st = [e]
    while st:
        t = st.pop()
        if z3.is_var(t): vs.add(t)
        elif z3.is_quantifier(t): return None
        else: st.extend(t.children())
    n = 1 + max((z3.get_var_index(v) for v in vs), default=-1)
    if n == 0: return e
    by = {z3.get_var_index(v): v.sort() for v in vs}
    if any(x.kind() != Z3_BV_SORT for x in by.values()): return None
    return S(substitute_vars(e, *[BitVecVal(0, by[j].size()) if j in by else BitVecVal(0, 64) for j in range(n)]))

_hv = {}
def has_var(e):
    i = e.get_id()
    r = _hv.get(i)
    if r is not None and r[1].eq(e): return r[0]
    if z3.is_var(e): v = True
    elif z3.is_quantifier(e): v = True
    else: v = any(has_var(c) for c in e.children())
    _hv[i] = (v, e)
    return v

class Prover:
    def __init__(self, rounds=3, maxinst=1500, rec_depth=3):
        self.rounds, self.maxinst, self.rec_depth = rounds, maxinst, rec_depth

    def setup(self, assertions):
        self.ground = []
        self.gids = set()
        self.qfs = []
        self.qseen = set()
        self.terms = {}          # key -> {id: term}
        self.tseen = set()
        self.apps = []           # pending defined apps (app, depth)
        self.appseen = {}
        self.ninst = 0; self.nest = 0; self.skm = {}
        self.reads = []          # (array, index) of every select
        for a in assertions:
            self.add(a, 0)

    def add(self, a, depth):
        a = S(a)
        if z3.is_true(a): return
        g = self.nnf(a, True, depth)
        self.addground(g, depth)

    def addground(self, g, depth):
        if z3.is_true(g): return
        if z3.is_and(g):
            for c in g.children(): self.addground(c, depth)
            return
        i = g.get_id()
        if i in self.gids: return
        self.gids.add(i)
        self.ground.append(g)
        self.collect(g, depth)

    def collect(self, g, depth):
        st = [g]
        while st:
            t = st.pop()
            i = t.get_id()
            if i in self.tseen: continue
            self.tseen.add(i)
            if not z3.is_app(t): continue
            k = t.decl().kind()
            if k == Z3_OP_SELECT:
                self.reads.append((t.arg(0), t.arg(1)))
                for r in roots(t.arg(0)):
                    self.terms.setdefault(('sel', r), {})[t.arg(1).get_id()] = t.arg(1)
            elif k == Z3_OP_STORE:
                for r in roots(t.arg(0)):
                    self.terms.setdefault(('sel', r), {})[t.arg(1).get_id()] = t.arg(1)
            elif k == Z3_OP_UNINTERPRETED and t.num_args():
                nm = t.decl().name()
                if nm == 'ANCH': continue
                for j in range(t.num_args()):
                    a = t.arg(j)
                    self.terms.setdefault(('app', nm, j), {})[a.get_id()] = a
                if nm in DEFS:
                    if i not in self.appseen:
                        self.appseen[i] = depth
                        self.apps.append((t, depth))
            st.extend(t.children())

    def nnf(self, e, pos, depth):
        if not has_q(e):
            return e if pos else S(Not(e))
        if z3.is_quantifier(e):
            fa = e.is_forall()
            if fa == pos:
                b = FreshBool('q')
                self.addq(e, b, pos, depth)
                return b
            ph = [Const(fresh_name('sk_' + e.var_name(j)), e.var_sort(j)) for j in range(e.num_vars())]
            for c in ph:
                if c.sort() == BV64 and self.ninst == 0: self.terms.setdefault(('app', 'ANCH', 0), {})[c.get_id()] = c
            body = S(substitute_vars(e.body(), *reversed(ph)))
            return self.nnf(body, pos, depth)
        if z3.is_not(e): return self.nnf(e.arg(0), not pos, depth)
        if z3.is_and(e) or z3.is_or(e):
            cs = [self.nnf(c, pos, depth) for c in e.children()]
            return And(*cs) if z3.is_and(e) == pos else Or(*cs)
        if z3.is_implies(e):
            a, b = e.arg(0), e.arg(1)
            if pos: return Or(self.nnf(a, False, depth), self.nnf(b, True, depth))
            return And(self.nnf(a, True, depth), self.nnf(b, False, depth))
        if e.decl().kind() == Z3_OP_ITE:
            c, a, b = e.children()
            if has_q(c):
                return self.nnf(And(Implies(c, a), Implies(Not(c), b)), pos, depth)
            cc = c
            return And(Or(Not(cc), self.nnf(a, pos, depth)), Or(cc, self.nnf(b, pos, depth)))
        if z3.is_eq(e) and z3.is_bool(e.arg(0)):
            a, b = e.arg(0), e.arg(1)
            return self.nnf(And(Implies(a, b), Implies(b, a)) if pos else
                            Or(And(a, Not(b)), And(b, Not(a))), True, depth)
        raise Exception('nnf: ' + str(e)[:200])

    def addq(self, q, guard, pos, depth):
        f = QF()
        ph, body = open_q(q)
        f.ph, f.body = ph, (body if pos else S(Not(body)))
        f.guard, f.q = guard, q
        f.pats = patterns(ph, f.body)
        if q.qid() in QPAT: f.pats = [x for x in f.pats if x[0][0] in ('sel', 'app') and x[0][1] in QPAT[q.qid()]]
        f.hint = QHINT.get(q.qid(), [])
        f.done = set(); f.depth = depth; f.nest = self.nest
        self.qfs.append(f)

    def defining(self, f):
        """the array a quantifier defines cell by cell (None if it does not)"""
        if not (f.q.is_forall() and len(f.ph) == 1 and f.q.qid().startswith(('closed', 'fill', 'cpy'))): return None
        b = f.body
        if z3.is_eq(b):
            for l in b.children():
                if z3.is_app(l) and l.decl().kind() == Z3_OP_SELECT and l.arg(1).eq(f.ph[0]): return l.arg(0)
        return None

    def inst(self, f, asg):
        key = tuple(t.get_id() for t in asg)
        if key in f.done: return
        f.done.add(key)
        self.ninst += 1
        if TRACE == '2': print('        inst L%d %s n%d' % (self.level, f.q.qid(), f.nest), [str(t).replace('\n','').replace('18446744073709551615','-1') for t in asg])
        body = S(substitute(f.body, *zip(f.ph, asg)))
        if z3.is_true(body): return
        self.nest = f.nest + 1
        g = self.nnf(body, True, f.depth)
        self.nest = 0
        self.addground(S(Or(Not(f.guard), g)), f.depth)

    def instantiate(self):
        n0 = self.ninst
        self.snap = {k: list(v.values()) for k, v in self.terms.items()}
        for f in list(self.qfs):
            for asg in self.assignments(f):
                if self.ninst > self.maxinst: return True
                self.inst(f, asg)
        return self.ninst > n0

    def chain(self):
        """unfold cell-by-cell definitions of arrays at the indices where the arrays are read"""
        defs = {}
        for f in self.qfs:
            T = self.defining(f)
            if T is not None: defs.setdefault(T.get_id(), []).append(f)
        if not defs: return
        n = 0
        while n < len(self.reads) and self.ninst <= self.maxinst:
            T, ix = self.reads[n]; n += 1
            for f in defs.get(T.get_id(), ()): self.inst(f, (ix,))

    def assignments(self, f):
        ph = f.ph
        ids = {p.get_id(): j for j, p in enumerate(ph)}
        res = [(None,) * len(ph)]
        # iterate: assign variables one at a time
        order_done = set()
        outs = [dict()]
        remaining = set(range(len(ph)))
        while remaining:
            best = None
            for j in sorted(remaining):
                pid = ph[j].get_id()
                usable = []
                for key, ix in f.pats:
                    if z3.is_bv(ix):
                        d, c, _ = lin(ix)
                        if pid not in d: continue
                        others = [x for x in d if x != pid and self._mentions(d[x][1], f, remaining - {j})]
                        if others: continue
                        if any(self._mentions(d[x][1], f, {j}) for x in d if x != pid): continue
                        usable.append((key, ix, d, c))
                    elif ix.get_id() == pid:
                        usable.append((key, ix, None, None))
                if usable:
                    best = (j, usable); break
            hints = [h for h in f.hint if not has_var(h)]
            hist = f.q.qid().startswith('hist')
            if hist and f.nest > 0 and self.level < 3: hints = []
            if best is not None and self.level < 3:
                def score(u):
                    return (len(u[2]) + (1 if u[3] else 0)) if u[2] is not None else 0
                mn = {}
                for u in best[1]: mn[u[0]] = min(mn.get(u[0], 99), score(u))
                keep = []
                for u in best[1]:
                    if u[0][:2] == ('app', 'ANCH'):
                        if self.level >= 1: keep.append(u)
                    elif u[0][0] == 'goal':
                        if self.level >= 1 and f.nest == 0: keep.append(u)
                    elif u[0][0] == 'bound':
                        if self.level >= 1 and (not hist or f.nest == 0 or self.level >= 2): keep.append(u)
                    elif score(u) == mn[u[0]]:
                        if self.level >= 2 or (self.level == 1 and not hist): keep.append(u)
                        elif self.level == 1: keep.append((('goal',) + u[0],) + u[1:])
                best = (best[0], keep)
            if best is None:
                j = min(remaining); usable = []
            else:
                j, usable = best
            p = ph[j]
            new = []
            for o in outs:
                cands = {}
                for h in hints:
                    if h.sort() == p.sort(): cands[h.get_id()] = h
                for key, ix, d, c in usable:
                    if key[0] == 'bound':
                        cands[key[2].get_id()] = key[2]; continue
                    if key[0] == 'goal':
                        gt = [g for g in self.snap.get(key[1:], ()) if self.has_sk(g)]
                    else: gt = self.snap.get(key)
                    if not gt: continue
                    for g in gt:
                        if g.sort() != ix.sort(): continue
                        if d is None:
                            cands[g.get_id()] = g; continue
                        n = ix.size()
                        k = signed(d[p.get_id()][0], n)
                        rest = {x: v for x, v in d.items() if x != p.get_id()}
                        r = unlin(rest, c, n) if rest or c else BitVecVal(0, n)
                        if o: r = substitute(r, *[(ph[x], t) for x, t in o.items()])
                        diff = S(g - r) if not (z3.is_bv_value(r) and r.as_long() == 0) else g
                        if k == 1: t = diff
                        elif k == -1: t = S(-diff)
                        else:
                            dv = div_exact(diff, abs(k))
                            if dv is None or dv[1] != 0:
                                if k > 0 and k & (k - 1) == 0 and k <= 64 and self.has_sk(g): t = dv[0] if dv is not None else S(LShR(diff, k.bit_length() - 1))
                                else: continue
                            else: t = dv[0] if k > 0 else S(-dv[0])
                        cands[t.get_id()] = t
                for t in cands.values():
                    no = dict(o); no[j] = t
                    new.append(no)
                if len(new) > 3000: break
            outs = new
            remaining.discard(j)
        return [tuple(o[j] for j in range(len(ph))) for o in outs]

    def has_sk(self, g):
        ids = self.terms.get(('app', 'ANCH', 0))
        if not ids: return False
        i = g.get_id()
        if i not in self.skm: self.skm[i] = contains(g, ids, {})
        return self.skm[i]

    def _mentions(self, t, f, js):
        ids = {f.ph[j].get_id() for j in js}
        return contains(t, ids, {})

    def expand(self):
        ch = False
        pend, self.apps = self.apps, []
        for app, depth in pend:
            gen, rec = DEFS[app.decl().name()]
            if rec and depth >= self.rec_depth: continue
            for fct in gen(*app.children()):
                self.add(fct, depth + (1 if rec else 0))
            ch = True
        return ch

    def saturate(self, rounds):
        for _ in range(rounds):
            a = self.expand()
            b = self.instantiate()
            if self.level >= 1: self.chain()
            while self.apps and self.expand(): a = True
            if not a and not b: break

STATS = {'queries': 0, 'time': 0.0, 'cvc5': 0}
DUMP = os.environ.get('GV_DUMP')

def fp_only(fs):
    """ground formulas over floating point, bit-vectors and booleans only"""
    seen = set(); st = list(fs); fp = False
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if not z3.is_app(t): return False
        k = t.sort().kind()
        if k in (Z3_FLOATING_POINT_SORT, Z3_ROUNDING_MODE_SORT): fp = True
        elif k not in (Z3_BV_SORT, Z3_BOOL_SORT): return False
        if t.decl().kind() == Z3_OP_UNINTERPRETED and t.num_args(): return False
        st.extend(t.children())
    return fp

def _fpcheck(fs, timeout):
    s = z3.SolverFor('QF_FPBV'); s.set('timeout', int(timeout * 1000)); s.add(fs)
    return s.check(), s

def fp_solve(ground, timeout):
    """plain first; then case split on the order of the compared inputs with the arithmetic abstracted"""
    r, s = _fpcheck(ground, min(timeout, 8))
    if r != unknown: return r, s
    pairs = {}
    seen = set(); st = [z3.simplify(And(*ground))]; arith = (Z3_OP_FPA_ADD, Z3_OP_FPA_SUB, Z3_OP_FPA_MUL, Z3_OP_FPA_DIV, Z3_OP_FPA_TO_FP, Z3_OP_FPA_TO_FP_UNSIGNED)
    leaf = lambda t: t.num_args() == 0 or (t.decl().kind() in (Z3_OP_FPA_ABS, Z3_OP_FPA_NEG) and leaf(t.arg(0)))
    const = lambda t: z3.is_fprm_value(t) or z3.is_fp_value(t) or (t.num_args() and all(const(c) for c in t.children()))
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if t.decl().kind() in (Z3_OP_FPA_LT, Z3_OP_FPA_LE, Z3_OP_FPA_GT, Z3_OP_FPA_GE, Z3_OP_FPA_EQ):
            x, y = t.arg(0), t.arg(1)
            if leaf(x) and leaf(y) and not const(x) and not const(y):
                k = tuple(sorted((x.get_id(), y.get_id())))
                n, _ = pairs.get(k, (0, None)); pairs[k] = (n + 1, (x, y))
        st.extend(t.children())
    pl = [v for n, v in sorted(pairs.values(), key=lambda z: -z[0])][:2]
    cases = [([], list(ground))]
    for x, y in pl:
        nc = []
        for facts, g in cases:
            for lt, gt, eq in ((True, False, False), (False, True, False), (False, False, True), (False, False, False)):
                b = z3.BoolVal
                sub = []
                for u, v, l in ((x, y, lt), (y, x, gt)):
                    sub += [(fpLT(u, v), b(l)), (fpGT(v, u), b(l)), (fpLEQ(u, v), b(l or eq)), (fpGEQ(v, u), b(l or eq)), (fpEQ(u, v), b(eq))]
                f = fpLT(x, y) if lt else fpLT(y, x) if gt else fpEQ(x, y) if eq else Or(fpIsNaN(x), fpIsNaN(y))
                h = [z3.substitute(h, *sub) for h in g]
                if eq and x.decl().kind() == y.decl().kind() == Z3_OP_FPA_ABS: h = [z3.substitute(z, (y, x)) for z in h]   # equal absolute values are identical
                nc.append((facts + [f], h))
        cases = nc
    memo = {}
    def ab(t):
        """arithmetic results become arbitrary numbers (equal terms the same one): sound for unsat"""
        i = t.get_id()
        if i in memo: return memo[i][1]
        if t.num_args() == 0: r = t
        else:
            ch = [ab(c) for c in t.children()]
            r = t.decl()(*ch) if t.decl().kind() not in (Z3_OP_AND, Z3_OP_OR) else (And if t.decl().kind() == Z3_OP_AND else Or)(*ch)
            if t.decl().kind() == Z3_OP_FPA_ABS and t.arg(0).decl().kind() == Z3_OP_FPA_ADD and str(t.arg(0).arg(0).decl().kind()) == str(Z3_OP_FPA_RM_NEAREST_TIES_TO_EVEN):
                # |p + q| == |(-p) + (-q)|, also for infinities, NaN and zeros
                rm, p, q = t.arg(0).children(); p, q = ab(p), ab(q)
                k1, k2 = [tuple(sorted(z3.simplify(f(z)).sexpr() for z in (p, q))) for f in (lambda z: z, lambda z: fpNeg(z))]
                k = ('abs', min(k1, k2))
                if k not in memo: memo[k] = (t, Const(fresh_name('fpv'), t.sort()))
                r = fpAbs(memo[k][1])
            elif t.decl().kind() in arith and z3.is_fp(t) and not const(t):
                if t.decl().kind() in (Z3_OP_FPA_ADD, Z3_OP_FPA_MUL):
                    k = ('c', t.decl().kind(), t.arg(0).sexpr()) + tuple(sorted(c.sexpr() for c in r.children()[1:]))   # commutative
                else: k = ('c', r.sexpr())
                if k not in memo: memo[k] = (r, Const(fresh_name('fpv'), r.sort()))
                r = memo[k][1]
        memo[i] = (t, r); return r
    worst = (unsat, s)
    end = time.time() + timeout
    for facts, g in cases:
        h = z3.simplify(And(*g))
        if z3.is_false(h): continue
        r, s2 = _fpcheck([ab(h)] + facts, 3)
        if r == unsat: continue
        r, s2 = _fpcheck([h] + facts, max(2, min(timeout / 2, end - time.time())))
        if r == sat: return r, s2
        if r != unsat: worst = (r, s2)
    return worst

IVAL = False    # integer translation guided by intervals first
SCALE = 1   # retry with more solver time
SEED = 0
def _solve(ground, timeout):
    """integer translation first; bit-vectors when that is not conclusive and was lossy"""
    t = time.time()
    timeout = timeout * SCALE
    STATS['queries'] += 1
    try:
        from . import toint
        if fp_only(ground):
            return fp_solve(ground, timeout)
        if IVAL:
            from . import ival
            try:
                out = ival.translate(ground)
                s = z3.Solver(); s.set('timeout', int(timeout * 1000))
                if SEED: s.set('random_seed', SEED)
                s.add(out); r = s.check()
                STATS['ival'] = STATS.get('ival', 0) + 1
                if r == unsat: return r, s
            except ival.Give as e:
                if TRACE: print('      ival:', e)
        out, T = toint.translate(ground)
        s = z3.Solver(); s.set('timeout', int(timeout * 1000))
        if SEED: s.set('random_seed', SEED)
        s.add(out)
        r = s.check()
        if r == unsat or (r == sat and not T.lossy):
            return r, s
    finally:
        STATS['time'] += time.time() - t
    t = time.time()
    s2 = z3.Solver()
    s2.set('timeout', int(timeout * 1000))
    s2.add(ground)
    r2 = s2.check()
    STATS['time'] += time.time() - t; STATS['bv'] = STATS.get('bv', 0) + 1
    if r2 == unknown and r == sat: return r2, s2
    return r2, s2

LEVELS = ((0, 1, 4), (1, 1, 6), (1, 1, 8), (2, 1, 10), (2, 1, 12), (3, 1, 20))

def prove(facts, goal, timeout=20, rounds=None, rec_depth=3, levels=None):
    """facts |= goal?  ('proved', None) | ('failed', model) | ('unknown', reason)"""
    g = S(goal)
    if z3.is_true(g): return 'proved', None
    p = Prover(rec_depth=rec_depth)
    p.setup(list(facts) + [Not(goal)])
    last = ('unknown', None)
    prevn = -1
    for lev, rnd, tmo in (levels or LEVELS):
        if tmo > timeout or (not p.qfs and not p.apps and not levels): tmo = timeout
        p.level = lev
        p.saturate(rnd)
        if len(p.ground) == prevn and lev: continue
        prevn = len(p.ground)
        res, s = _solve(p.ground, tmo)
        if TRACE: print('      L%d ground=%d inst=%d -> %s' % (lev, len(p.ground), p.ninst, res))
        if res == unsat: return 'proved', None
        if res == sat: last = ('failed', s.model())
        else: last = ('unknown', s.reason_unknown())
        if DUMP:
            with open('%s/%s.smt2' % (DUMP, fresh_name('q')), 'w') as fh: fh.write(s.to_smt2())
        if not p.qfs and not p.apps: break
    return last

TRACE = os.environ.get('GV_TRACE')

def feasible(facts, timeout=2):
    """False only if the ground part is certainly unsatisfiable"""
    from . import toint
    t = time.time()
    timeout = timeout * SCALE
    try:
        out, T = toint.translate([f for f in facts if not has_q(f)])
        s = z3.Solver(); s.set('timeout', int(timeout * 1000)); s.add(out)
        r = s.check()
        if r == sat and T.lossy:
            s = z3.Solver(); s.set('timeout', 500)
            s.add([f for f in facts if not has_q(f)])
            r = s.check()
    finally:
        STATS['queries'] += 1; STATS['time'] += time.time() - t
    return r != unsat
