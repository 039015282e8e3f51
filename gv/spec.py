"""Vocabulary for contracts: roots, symbolic arguments, spec predicates."""
import os, re
from z3 import *
from .logic import *
from .engine import *

NPOS = bv((1 << 64) - 1)
PMAX = bv((1 << 63) - 1)

class Buf:
    def __init__(s, E, st, name, maxlen=PMAX, length=None, width=8):
        s.n = length if length is not None else E.fresh(st, name + '_len', BV64)
        s.obj = E.new_array(st, name, s.n, width=width)
        s.a = st.mem[s.obj].segs[0].arr
        s.p = Ptr(s.obj, bv(0))
        if width == 8: st.assume(ULE(s.n, maxlen))
        else:
            st.assume(ULE(s.n, bv(((1 << 63) - 1) // (width // 8))))
            st.mem[s.obj].ghost['count'] = s.n
    def __getitem__(s, i): return Select(s.a, i)

def forall(name, lo, hi, body, qid=None):
    """for all k in [lo, hi): body(k)"""
    k = BitVec(fresh_name(name), 64)
    g = ULT(k, hi) if (isinstance(lo, int) and lo == 0) else And(ULE(lo, k), ULT(k, hi))
    qid = qid or fresh_name('fa')
    QHINT.setdefault(qid, [bv(0) if isinstance(lo, int) else S(lo), S(hi - 1)])
    return ForAll([k], Implies(g, body(k)), qid=qid)

def exists(name, lo, hi, body):
    k = BitVec(fresh_name(name), 64)
    g = ULT(k, hi) if (isinstance(lo, int) and lo == 0) else And(ULE(lo, k), ULT(k, hi))
    qid = fresh_name('ex'); QHINT[qid] = [bv(0) if isinstance(lo, int) else S(lo), S(hi - 1)]
    return Exists([k], And(g, body(k)), qid=qid)

def eqrange(A, p, B, q, n):
    return forall('i', 0, n, lambda i: Select(A, S(p + i)) == Select(B, S(q + i)))

class Proof:
    """one root function: setup(E, st) -> (args, ctx); post(E, st, ret, ctx) states obligations"""
    def __init__(s, name, root, src, setup, post, **kw):
        s.name, s.root, s.src, s.setup, s.post, s.kw = name, root, src, setup, post, kw
    def mkey(s):
        return (s.src, tuple(s.kw.get('keep', ())), tuple(s.kw.get('defs', ())))

class CStr:
    """NUL-terminated character array: n characters, none of them NUL, then NUL"""
    def __init__(s, E, st, name):
        s.n = E.fresh(st, name + '_len', BV64)
        s.obj = E.new_array(st, name, S(s.n + 1))
        s.a = st.mem[s.obj].segs[0].arr
        s.p = Ptr(s.obj, bv(0))
        st.assume(ULT(s.n, PMAX))
        E.itbounds.append(s.n)
        st.assume(Select(s.a, s.n) == 0)
        st.assume(forall('z', 0, s.n, lambda k: Select(s.a, k) != 0))
    def __getitem__(s, i): return Select(s.a, i)

from . import strings
def result_string(E, st):
    """pointer for a std::string returned by value"""
    return Ptr(E.new_obj(st, 'result', 32, 'ext'), bv(0))

def string_at(E, st, p):
    return strings.Str(E, st, p)

def lower(c): return If(And(UGE(c, 65), ULE(c, 90)), c + 32, c)
def upper(c): return If(And(UGE(c, 97), ULE(c, 122)), c - 32, c)

def witnesses(st):
    """iteration counters occurring in the path's facts: candidate witnesses for existential goals"""
    seen = set(); out = {}
    stack = list(st.facts)
    while stack:
        t = stack.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): continue
        if z3.is_app(t):
            if t.decl().kind() == Z3_OP_UNINTERPRETED and t.decl().name().startswith('it!'): out[t.get_id()] = t
            stack.extend(t.children())
    return list(out.values())

def exists_w(name, body, wit):
    """exists k: body(k), with candidate witnesses"""
    k = BitVec(fresh_name(name), 64)
    qid = fresh_name('ex'); QHINT[qid] = [S(w) for w in wit]
    return Exists([k], body(k), qid=qid)

def no_leaks(E, st, keep=()):
    """every string buffer / heap block created on this path is released, except those owned by `keep`"""
    live = set()
    for p in keep:
        try: live.add(strings.Str(E, st, p).buf)
        except Unsupported: pass
    for oid, m in st.mem.items():
        if m.kind in ('strbuf', 'heap') and m.alive is True and oid not in live and 'own' not in m.ghost and oid != 'exc' and m.name != 'excobj':
            E.oblige(st, BoolVal(False), 'leak', m.name)

def induct(E, st, name, lo, hi, Pk, at=None):
    """lemma by induction: Pk(lo), Pk(k) -> Pk(k+1) for lo<=k<hi; then assumed for all lo<=k<=hi"""
    E.oblige(st, Implies(ULE(lo, hi), Pk(lo)), 'lemma', name + ' (base)')
    k = E.fresh(st, 'k', BV64)
    s2 = st.fork(); s2.assume(And(ULE(lo, k), ULT(k, hi))); s2.assume(Pk(k))
    E.oblige(s2, Pk(S(k + 1)), 'lemma', name + ' (step)')
    if at is not None:
        st.assume(Implies(And(ULE(lo, at), ULE(at, hi)), Pk(at))); return
    v = BitVec(fresh_name('n'), 64)
    qid = fresh_name('ind'); QHINT[qid] = [S(hi)]
    st.assume(ForAll([v], Implies(And(ULE(lo, v), ULE(v, hi)), Pk(v)), qid=qid))

# ---------------------------------------------------------------- text builders
class Expected:
    """The text a function has to build, given piece by piece: LEN(i) is the length of the first i pieces,
    OUT the whole text.  The pieces' defining equations are assumed (they define OUT), the code's output is
    proved equal to it."""
    def __init__(s, E, st, name='OUT'):
        s.E, s.st = E, st
        s.LEN = z3.Function(fresh_name(name + 'LEN'), BV64, BV64)
        s.OUT = Const(fresh_name(name), BYTES)
        E.expected = getattr(E, 'expected', []) + [s]
        st.assume(s.LEN(bv(0)) == 0)
    def step(s, n, piecelen, char):
        """piece i (i < n) has piecelen(i) characters; char(i, c, v): its character c is v"""
        st = s.st
        i = BitVec(fresh_name('i'), 64); c = BitVec(fresh_name('c'), 64)
        st.assume(ForAll([i], Implies(ULT(i, n), And(s.LEN(S(i + 1)) == s.LEN(i) + piecelen(i), ULE(s.LEN(i), s.LEN(S(i + 1))),
                                                      ULE(s.LEN(S(i + 1)), PMAX))), qid=s.qid('lendef')))
        st.assume(ForAll([i, c], Implies(And(ULT(i, n), ULT(c, piecelen(i))), char(i, c, Select(s.OUT, s.LEN(i) + c))), qid=s.qid('outdef')))
    def qid(s, n):
        q = fresh_name(n); QPAT[q] = {s.LEN.name(), s.OUT.decl().name()}; return q
    def check(s, E, st, o, total, what='the text'):
        E.oblige(st, o.len == total, 'post', what + ' has exactly the expected length')
        k = BitVec(fresh_name('k'), 64)
        E.oblige(st, ForAll([k], Implies(ULT(k, total), Select(o.arr, k) == Select(s.OUT, k))), 'post', what + ' has exactly the expected characters')

def string_cells(st, oid):
    """cells holding the length of the std::string whose buffer is oid"""
    for ob, m in st.mem.items():
        for o, (n, v) in m.cells.items():
            if isinstance(v, Ptr) and v.obj == oid and is_val(v.off) and val(v.off) == 0 and o + 8 in m.cells:
                yield ob, o + 8

def counters(E, names, entry, cls, mcls, st0):
    """numbers in a loop that may count progress: name, function of a view"""
    out = [('it', lambda w: w.it), ('it+1', lambda w: S(w.it + 1))]
    def num(v): return v.off if isinstance(v, Ptr) else v
    for n in names:
        v = num(entry[n])
        if z3.is_expr(v) and z3.is_bv(v) and v.size() == 64: out.append((n, lambda w, n=n: num(w.v(n))))
    for k, c in mcls.items():
        if k[0] == 'cell' and c[0] != 'const':
            v = num(st0.mem[k[1]].cells[k[2]][1])
            if z3.is_expr(v) and z3.is_bv(v) and v.size() == 64:
                out.append((str(k), lambda w, k=k: num(w.st.mem[k[1]].cells[k[2]][1])))
    return out

def builder(E, st0, names, entry, cls, mcls):
    """loop invariants for text builders: what has been written so far is a prefix of the expected text"""
    out = []
    cs = counters(E, names, entry, cls, mcls, st0)
    for x in getattr(E, 'expected', []):
        for k, c in mcls.items():
            if k[0] != 'seg' or c[0] != 'gen': continue
            if not (z3.is_expr(st0.mem[k[1]].segs[k[2]].arr) and st0.mem[k[1]].segs[k[2]].arr.sort() == BYTES): continue
            arr = lambda w, k=k: w.st.mem[k[1]].segs[k[2]].arr
            pos = []
            for ob, o in string_cells(st0, k[1]):
                pos.append(('len', lambda w, ob=ob, o=o: w.st.mem[ob].cells[o][1]))
            own = {str(('cell', ob, o, 8)) for ob, o in string_cells(st0, k[1])}
            for pn, pf in pos + [c for c in cs[2:] if c[0] not in own]:
                for cn, cf in cs:
                    out.append(('%s=LEN(%s)' % (pn, cn), lambda w, pf=pf, cf=cf: pf(w) == x.LEN(cf(w))))
                def pre(w, pf=pf, arr=arr):
                    q = BitVec(fresh_name('k'), 64); qid = fresh_name('pfx')
                    return ForAll([q], Implies(ULT(q, pf(w)), Select(arr(w), q) == Select(x.OUT, q)), qid=qid)
                pre.hard = pn == 'len'
                out.append(('prefix(%s)' % pn, pre))
    return out

# ---------------------------------------------------------------- searching
SVN = r'gul14::basic_string_view<char, gul14::char_traits<char, std::char_traits<char>>>'
KEEPFIND = (r'^gul14::basic_string_view<.*>::find\(',)
class Search:
    """F(x): the first occurrence of the needle in the haystack at or after x, or npos.  The contract of
    string_view::find (proved in C01) is that it returns F."""
    def __init__(s, E, st, hay, needle):
        s.E, s.hay, s.needle = E, hay, needle
        s.F = z3.Function(fresh_name('FIRST'), BV64, BV64)
        x = BitVec(fresh_name('x'), 64)
        q = fresh_name('first'); QPAT[q] = {s.F.name()}
        n, m = hay.n, needle.n
        st.assume(ForAll([x], Or(s.F(x) == NPOS, And(ULE(x, s.F(x)), ULE(m, n), ULE(s.F(x), n - m))), qid=q))
        E.search = getattr(E, 'search', []) + [s]
    def result(s, E, st, pos, d):
        """first occurrence in a text whose tail from pos on is the haystack's tail, shifted by d"""
        f = s.F(S(pos + d))
        return S(If(ULE(pos, S(s.hay.n - d)), If(f == NPOS, NPOS, S(f - d)), NPOS))

def find_contract(E, st, text, needle, pos, where):
    """find(needle, pos) on text=(arr, start, len); needle=(arr, start, len)"""
    ta, t0, tn = text; na, n0, nn = needle
    for s in getattr(E, 'search', []):
        if not (na is not None and na.eq(s.needle.a) and E.valid_now(st, And(n0 == 0, nn == s.needle.n))): continue
        d = S(s.hay.n - tn)
        if ta.eq(s.hay.a) and E.valid_now(st, t0 == d): return s.result(E, st, pos, d)
        if ta.eq(s.hay.a): continue
        k = BitVec(fresh_name('k'), 64)
        r = prove(st.facts, ForAll([k], Implies(And(ULE(pos, k), ULT(k, tn)), Select(ta, S(t0 + k)) == Select(s.hay.a, S(k + d)))), timeout=12)
        if os.environ.get('GV_TRACE'): print('   find: tail of the haystack?', r[0])
        if r[0] == 'proved':
            return s.result(E, st, pos, d)
    # any other search: what find promises
    r = E.fresh(st, 'found', BV64); k = BitVec(fresh_name('k'), 64)
    st.assume(Or(r == NPOS, And(ULE(pos, r), ULE(nn, tn), ULE(r, tn - nn))))
    if na is not None:
        st.assume(ForAll([k], Implies(And(r != NPOS, ULT(k, nn)), Select(ta, S(t0 + r + k)) == Select(na, S(n0 + k))), qid=fresh_name('fnd')))
    return r

def c_sv_find(kind):
    def h(E, st, a, i, where):
        t = a[0]
        tp = E.load(st, t, Ty('ptr'), where); tn = E.load(st, Ptr(t.obj, S(t.off + 8)), Ty('int', 64), where)
        ta, t0 = strings.src(E, st, tp, tn, where)
        if kind == 'psn': p, pos, n = a[1], a[2], a[3]
        elif kind == 'sv': p, n, pos = a[1], a[2], a[3]
        elif kind == 'cs': p, pos = a[1], a[2]; n = strings.clen(E, st, p, where)
        if kind == 'ch':
            pos = a[2]; na, n0, n = None, bv(0), bv(1)
            for s in getattr(E, 'search', []):
                if getattr(s.needle, 'ch', None) is not None and s.needle.ch.eq(a[1]): na = s.needle.a
        else: na, n0 = strings.src(E, st, p, n, where)
        if ta is None: ta = E.fresh(st, 'empty', BYTES)
        yield ('ret', st, find_contract(E, st, (ta, t0, tn), (na, n0, n), pos, where))
    return h
SV_FIND = [(re.escape(SVN) + r'::find\(char const\*, unsigned long, unsigned long\) const', c_sv_find('psn')),
           (re.escape(SVN) + r'::find\(' + re.escape(SVN) + r', unsigned long\) const', c_sv_find('sv')),
           (re.escape(SVN) + r'::find\(char const\*, unsigned long\) const', c_sv_find('cs')),
           (re.escape(SVN) + r'::find\(char, unsigned long\) const', c_sv_find('ch'))]
def c_str_find(E, st, a, i, where):
    s = strings.Str(E, st, a[0])
    na, n0 = strings.src(E, st, a[1], a[3], where)
    yield ('ret', st, find_contract(E, st, (s.arr, bv(0), s.len), (na, n0, a[3]), a[2], where))
STR_FIND = [(strings.BS + r'find\(char const\*, unsigned long, unsigned long\) const', c_str_find)]

# ---------------------------------------------------------------- substituting matches
class Pieces:
    """match i starts at F(P(i)); P(i): end of match i-1 (0 for the first); LEN(i): length of the text built before P(i)"""
    def __init__(s, E, st, hay, F, mlen, hlen, hchar):
        """mlen(x): length of the match at x; hlen(x), hchar(x, c): the text that replaces it"""
        s.hay, s.F = hay, F
        s.P = z3.Function(fresh_name('P'), BV64, BV64); s.LEN = z3.Function(fresh_name('LEN'), BV64, BV64)
        s.OUT = Const(fresh_name('OUT'), BYTES)
        E.pieces = s; E.ranks = [lambda i: hay.n - s.P(i)]
        n = hay.n
        st.assume(And(s.P(bv(0)) == 0, s.LEN(bv(0)) == 0))
        i, c = BitVec(fresh_name('i'), 64), BitVec(fresh_name('c'), 64)
        def qid(nm): q = fresh_name(nm); QPAT[q] = {s.LEN.name(), s.OUT.decl().name(), s.P.name()}; return q
        f = F(s.P(i)); g = S(f - s.P(i)); i1 = S(i + 1); m, h = mlen(f), hlen(f)
        st.assume(ForAll([i], Implies(f != NPOS, And(s.P(i1) == f + m, s.LEN(i1) == s.LEN(i) + g + h, ULE(s.LEN(i), PMAX), ULE(s.LEN(i1), PMAX),
                                                     ULE(s.LEN(i1) + n - s.P(i1), PMAX), ULE(s.LEN(i), s.LEN(i1)))), qid=qid('pdef')))
        v = Select(s.OUT, s.LEN(i) + c)
        st.assume(ForAll([i, c], Implies(And(f != NPOS, ULT(c, g + h)), v == If(ULT(c, g), hay[s.P(i) + c], hchar(f, c - g))), qid=qid('outdef')))

def pieces_template(E, st0, names, entry, cls, mcls):
    x = E.pieces; out = []; n = x.hay.n
    def num(v): return v.off if isinstance(v, Ptr) else v
    vs = []
    for nm in names:
        v = num(entry[nm])
        if z3.is_expr(v) and z3.is_bv(v) and v.size() == 64: vs.append((nm, lambda w, nm=nm: num(w.v(nm))))
    # cells of objects that hold positions are treated like variables
    for k, c in mcls.items():
        if k[0] == 'cell' and c[0] != 'const' and k[3] == 8:
            v = st0.mem[k[1]].cells[k[2]][1]
            if z3.is_expr(v) and z3.is_bv(v): vs.append((str(k), lambda w, k=k: w.st.mem[k[1]].cells[k[2]][1]))
    its = [('it', lambda w: w.it), ('it+1', lambda w: S(w.it + 1))]
    for cn, ct in its[:1]:
        def alive(w, ct=ct):
            q = BitVec(fresh_name('i'), 64)
            return ForAll([q], Implies(ULT(q, ct(w)), x.F(x.P(q)) != NPOS), qid=fresh_name('alive'))
        out.append(('matches(%s)' % cn, alive))
        out.append(('P(%s)<=n' % cn, lambda w, ct=ct: ULE(x.P(ct(w)), n)))
        out.append(('LEN(%s)<=MAX' % cn, lambda w, ct=ct: And(ULE(x.LEN(ct(w)), PMAX), ULE(x.LEN(ct(w)) + n - x.P(ct(w)), PMAX))))
        for vn, vf in vs:
            P, L = (lambda w, ct=ct: x.P(ct(w))), (lambda w, ct=ct: x.LEN(ct(w)))
            out.append(('%s=P(%s)' % (vn, cn), lambda w, vf=vf, P=P: vf(w) == P(w)))
            out.append(('%s=LEN(%s)' % (vn, cn), lambda w, vf=vf, L=L: vf(w) == L(w)))
            out.append(('%s=F(P(%s))' % (vn, cn), lambda w, vf=vf, P=P: vf(w) == x.F(P(w))))
            out.append(('%s=match(%s)' % (vn, cn), lambda w, vf=vf, P=P, L=L: vf(w) == If(x.F(P(w)) == NPOS, NPOS, L(w) + x.F(P(w)) - P(w))))
            out.append(('%s=LEN+rest(%s)' % (vn, cn), lambda w, vf=vf, P=P, L=L: vf(w) == L(w) + n - P(w)))
        for k, c in mcls.items():
            if k[0] != 'seg' or c[0] != 'gen': continue
            if st0.mem[k[1]].segs[k[2]].arr.sort() != BYTES: continue
            arr = lambda w, k=k: w.st.mem[k[1]].segs[k[2]].arr
            def pre(w, arr=arr, ct=ct):
                q = BitVec(fresh_name('k'), 64)
                return ForAll([q], Implies(ULT(q, x.LEN(ct(w))), Select(arr(w), q) == Select(x.OUT, q)), qid=fresh_name('pfx'))
            pre.hard = True
            def suf(w, arr=arr, ct=ct):
                q = BitVec(fresh_name('k'), 64); L, P = x.LEN(ct(w)), x.P(ct(w))
                return ForAll([q], Implies(And(ULE(L, q), ULT(q, L + n - P)), Select(arr(w), q) == x.hay[q - L + P]), qid=fresh_name('sfx'))
            suf.hard = True
            out += [('prefix(%s)' % cn, pre), ('rest(%s)' % cn, suf)]
    return out

def pieces_check(E, st, o, x, trivial):
    n = x.hay.n
    best = None
    for w in [bv(0)] + witnesses(st):
        if E.valid_now(st, And(x.F(x.P(w)) == NPOS, o.len == x.LEN(w) + n - x.P(w)), 5): best = w; break
    if best is None:
        E.oblige(st, trivial, 'post', 'every occurrence is replaced, giving a text of the expected length', assume=True)
        N = bv(0)
    else: N = best
    if E.valid_now(st, trivial):
        k = BitVec(fresh_name('k'), 64)
        E.oblige(st, And(o.len == n, ForAll([k], Implies(ULT(k, n), Select(o.arr, k) == x.hay[k]))), 'post', 'nothing is changed'); return
    q, k = BitVec(fresh_name('i'), 64), BitVec(fresh_name('k'), 64)
    E.oblige(st, x.F(x.P(N)) == NPOS, 'post', 'no occurrence is left')
    E.oblige(st, ForAll([q], Implies(ULT(q, N), x.F(x.P(q)) != NPOS)), 'post', 'only occurrences are replaced')
    E.oblige(st, o.len == x.LEN(N) + n - x.P(N), 'post', 'the length of the result')
    E.oblige(st, ForAll([k], Implies(ULT(k, x.LEN(N)), Select(o.arr, k) == Select(x.OUT, k))), 'post', 'text up to the last occurrence')
    E.oblige(st, ForAll([k], Implies(And(ULE(x.LEN(N), k), ULT(k, o.len)), Select(o.arr, k) == x.hay[k - x.LEN(N) + x.P(N)])), 'post', 'text after the last occurrence')

