"""C02: slicing, element access and ordering of string_view."""
from ..spec import *

def le_min(n, m): return If(ULT(n, m), n, m)

def order(E, st, r, sa, sp, sn, ta, tp, tn, what):
    """r has the sign of the lexicographical (unsigned char) comparison of the two ranges"""
    d = BitVec(fresh_name('d'), 64)
    mn = S(le_min(sn, tn))
    a, b = Select(sa, S(sp + d)), Select(ta, S(tp + d))
    pre = And(ULE(d, mn), eqrange(sa, sp, ta, tp, d))
    neg, zero, pos = r
    E.oblige(st, ForAll([d], Implies(pre, If(d == mn, If(sn == tn, zero, If(ULT(sn, tn), neg, pos)),
                                             And(Implies(ULT(a, b), neg), Implies(UGT(a, b), pos))))), 'post', what)

def sign(r): return (r < 0, r == 0, r > 0)
def boolean(r, tneg, tzero, tpos):
    f = lambda x: r if x else Not(r)
    return (f(tneg), f(tzero), f(tpos))

def throws(cond):
    """on_throw: std::out_of_range, and only when cond(ctx)"""
    def h(E, st, exc, c):
        E.oblige(st, BoolVal(exc.tinfo == '_ZTISt12out_of_range'), 'throws', 'the exception is std::out_of_range')
        E.oblige(st, cond(c), 'throws', 'thrown only when the position is past the end')
    return h

PROOFS = []
def P(name, root, setup, post, **kw):
    PROOFS.append(Proof(name, root, 'string_view.cc', setup, post, **kw))

# ---- slices: pointer into the viewed range, length as specified
def slice_is(E, st, ret, s, off, n):
    p, l = ret
    E.oblige(st, BoolVal(p.obj == s.obj), 'post', 'slice stays in the viewed array')
    E.oblige(st, And(p.off == off, l == n), 'post', 'slice has the specified start and length')
    E.oblige(st, And(ULE(p.off, s.n), ULE(l, s.n - p.off)), 'post', 'slice within the view')

def su(names):
    def f(E, st):
        s = Buf(E, st, 's'); xs = [BitVec(x, 64) for x in names]
        return [s.p, s.n] + xs, (s,) + tuple(xs)
    return f

def post_substr(E, st, ret, c):
    s, pos, k = c if len(c) == 3 else c + (NPOS,)
    E.oblige(st, ULE(pos, s.n), 'post', 'returns only for a position within the view')
    slice_is(E, st, ret, s, pos, If(ULT(k, s.n - pos), k, s.n - pos))
P('substr', 'r_substr', su(['pos', 'k']), post_substr, on_throw=throws(lambda c: UGT(c[1], c[0].n)), min_outcomes=2)
P('substr(pos)', 'r_substr_d', su(['pos']), post_substr, on_throw=throws(lambda c: UGT(c[1], c[0].n)), min_outcomes=2)
P('remove_prefix', 'r_remove_prefix', su(['k']), lambda E, st, r, c: slice_is(E, st, r, c[0], le_min(c[1], c[0].n), c[0].n - le_min(c[1], c[0].n)))
P('remove_suffix', 'r_remove_suffix', su(['k']), lambda E, st, r, c: slice_is(E, st, r, c[0], bv(0), c[0].n - le_min(c[1], c[0].n)))
def post_at(E, st, r, c):
    s, pos = c
    E.oblige(st, ULT(pos, s.n), 'post', 'returns only for a valid index')
    E.oblige(st, r == s[pos], 'post', 'returns the character at the index')
P('at', 'r_at', su(['pos']), post_at, on_throw=throws(lambda c: UGE(c[1], c[0].n)), min_outcomes=2)
def pre_idx(E, st):
    a, c = su(['pos'])(E, st); st.assume(ULT(c[1], c[0].n)); return a, c
P('operator[]', 'r_index', pre_idx, post_at)
P('reverse iterator', 'r_riter', pre_idx, lambda E, st, r, c: E.oblige(st, r == c[0][S(c[0].n - 1 - c[1])], 'post', 'k-th element from the end'))
def pre_ne(E, st):
    a, c = su([])(E, st); st.assume(c[0].n != 0); return a, c
P('front', 'r_front', pre_ne, lambda E, st, r, c: E.oblige(st, r == c[0][bv(0)], 'post', 'first character'))
P('back', 'r_back', pre_ne, lambda E, st, r, c: E.oblige(st, r == c[0][S(c[0].n - 1)], 'post', 'last character'))
P('empty', 'r_empty', su([]), lambda E, st, r, c: E.oblige(st, r == (c[0].n == 0), 'post', 'empty iff no characters'))
P('iterators', 'r_iter', su([]), lambda E, st, r, c: slice_is(E, st, r, c[0], bv(0), c[0].n))
P('reverse range', 'r_rcount', su([]), lambda E, st, r, c: E.oblige(st, r == c[0].n, 'post', 'rend - rbegin is the length'))
def su_cs(E, st):
    s = CStr(E, st, 's'); return [s.p], (s,)
P('from C string', 'r_cstr', su_cs, lambda E, st, r, c: slice_is(E, st, r, c[0], bv(0), c[0].n))

def su_copy(E, st):
    s = Buf(E, st, 's'); d = Buf(E, st, 'd'); k = BitVec('k', 64); pos = BitVec('pos', 64)
    st.assume(Implies(ULE(pos, s.n), ULE(le_min(k, s.n - pos), d.n)))
    return [s.p, s.n, d.p, k, pos], (s, d, k, pos)
def post_copy(E, st, r, c):
    s, d, k, pos = c
    E.oblige(st, ULE(pos, s.n), 'post', 'returns only for a position within the view')
    E.oblige(st, r == le_min(k, s.n - pos), 'post', 'number of characters copied')
    new = st.mem[d.obj].segs[0].arr
    E.oblige(st, forall('i', 0, d.n, lambda i: Select(new, i) == If(ULT(i, r), Select(s.a, S(pos + i)), d[i])), 'post', 'copied characters, nothing else written')
P('copy', 'r_copy', su_copy, post_copy, on_throw=throws(lambda c: UGT(c[3], c[0].n)), min_outcomes=2)

def su2(tail=(), cs=False):
    def f(E, st):
        s = Buf(E, st, 's'); t = CStr(E, st, 't') if cs else Buf(E, st, 't')
        xs = [BitVec(x, 64) for x in tail]
        return [s.p, s.n] + xs[:2] + [t.p] + ([] if cs else [t.n]) + xs[2:], (s, t) + tuple(xs)
    return f
P('swap', 'r_swap', su2(), lambda E, st, r, c: slice_is(E, st, r, c[1], bv(0), c[1].n))
P('swap (other)', 'r_swap2', su2(), lambda E, st, r, c: slice_is(E, st, r, c[0], bv(0), c[0].n))

def sub(pos, k, n):
    """substr(pos, k): (start, length)"""
    return pos, S(If(ULT(k, n - pos), k, n - pos))
def post_cmp(E, st, r, c):
    s, t = c[:2]
    sp, sn = bv(0), s.n; tp, tn = bv(0), t.n
    if len(c) >= 4:
        E.oblige(st, ULE(c[2], s.n), 'post', 'returns only for a position within the view')
        sp, sn = sub(c[2], c[3], s.n)
    if len(c) == 6:
        E.oblige(st, ULE(c[4], t.n), 'post', 'returns only for a position within the argument')
        tp, tn = sub(c[4], c[5], t.n)
    order(E, st, sign(r), s.a, sp, sn, t.a, tp, tn, 'sign of the lexicographical comparison')
P('compare', 'r_compare', su2(), post_cmp)
P('compare(cs)', 'r_compare_cs', su2(cs=True), post_cmp)
oor = throws(lambda c: Or(UGT(c[2], c[0].n), *([UGT(c[4], c[1].n)] if len(c) > 4 else [])))
P('compare(pos,n,sv)', 'r_compare3', su2(['p', 'k']), post_cmp, on_throw=oor, min_outcomes=2)
P('compare(pos,n,sv,pos,n)', 'r_compare5', su2(['p', 'k', 'p2', 'k2']), post_cmp, on_throw=oor, min_outcomes=2)
P('compare(pos,n,cs)', 'r_compare3cs', su2(['p', 'k'], cs=True), post_cmp, on_throw=oor, min_outcomes=2)
P('compare(pos,n,ptr,n)', 'r_compare4', su2(['p', 'k']), post_cmp, on_throw=oor, min_outcomes=2)

TRUTH = {'eq': (0, 1, 0), 'ne': (1, 0, 1), 'lt': (1, 0, 0), 'gt': (0, 0, 1), 'le': (1, 1, 0), 'ge': (0, 1, 1)}
def su_sc(E, st):
    s = CStr(E, st, 's'); t = Buf(E, st, 't'); return [s.p, t.p, t.n], (s, t)
for op, tr in TRUTH.items():
    def post_rel(E, st, r, c, tr=tr):
        s, t = c
        order(E, st, boolean(r, *tr), s.a, bv(0), s.n, t.a, bv(0), t.n, 'agrees with the lexicographical order')
    P('operator ' + op, 'r_' + op, su2(), post_rel)
    P('operator ' + op + ' (cs)', 'r_%s_cs' % op, su2(cs=True), post_rel)
    P('operator ' + op + ' (cs left)', 'r_%s_sc' % op, su_sc, post_rel)
