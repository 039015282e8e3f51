"""C08: split and tokenize cut a text into exactly the specified pieces; join glues pieces together."""
from ..spec import *
from .. import regex_esc
ASSUME = ['string_view::find, find_first_of and find_first_not_of return the first qualifying position (proved in C01)',
          'std::vector::emplace_back(view) appends an element with the characters of the view',
          'the joined text fits into a std::string',
          'std::regex_iterator enumerates the leftmost non-overlapping matches of the given expression, which never matches the empty text']
PROOFS = []
ARR64 = ArraySort(BV64, BV64)

class Cut:
    """expected pieces: piece i is [start(i), start(i)+length(i)) for i < N, N is the first index where more(N) fails (plus a tail)"""

def c_piece(E, st, a, i, where):
    """record one inserted piece; a: container, characters, length"""
    sink, p, n = a
    x = E.cut
    cnt = x.count(E, st, sink, where)
    if isinstance(p, Ptr) and p.obj != x.text.obj and not E.valid_now(st, n == 0):
        E.oblige(st, BoolVal(False), 'post', 'a piece refers to the text')
    off = p.off if isinstance(p, Ptr) and p.obj == x.text.obj else bv(0)
    E.oblige(st, And(ULE(off, x.text.n), ULE(n, x.text.n - off)), 'bounds', 'a piece lies inside the text')
    m = st.w(x.starts); m.segs[0].arr = Store(m.segs[0].arr, cnt, off)
    m = st.w(x.lens); m.segs[0].arr = Store(m.segs[0].arr, cnt, n)
    x.bump(E, st, sink, cnt)
    yield ('ret', st, None)
def c_emplace(E, st, a, i, where):
    v = a[1]
    p = E.load(st, v, Ty('ptr'), where); n = E.load(st, Ptr(v.obj, S(v.off + 8)), Ty('int', 64), where)
    yield from c_piece(E, st, [a[0], p, n], i, where)
PIECE = [(r'gv_piece', c_piece), (r'(.* )?std::vector<.*>::emplace_back<' + re.escape(SVN) + r'>\(.*', c_emplace)]
KEEP = KEEPFIND + (r'^gul14::basic_string_view<.*>::find_first_(not_)?of\(', r'^[^()]*std::vector<[^()]*>::emplace_back<')

def setup_cut(kind, expect):
    """kind: sink (records in the container itself) or vec"""
    def f(E, st):
        class X: pass
        x = X(); E.cut = x
        x.text, x.delim = Buf(E, st, 'text'), Buf(E, st, 'delim')
        mk = lambda nm: E.new_obj(st, nm, PMAX, 'ext')
        x.starts, x.lens = mk('starts'), mk('lens')
        for o in (x.starts, x.lens): st.mem[o].segs.append(Seg(0, 8, 8, E.fresh(st, 'rec', ARR64), 'bv'))
        r = E.new_obj(st, 'result', 8 if kind == 'sink' else 24, 'ext')
        if kind == 'sink':
            x.count = lambda E, st, s, w: E.load(st, s, Ty('int', 64), w)
            x.bump = lambda E, st, s, c: E.store(st, s, S(c + 1), Ty('int', 64), 'count')
            x.final = lambda E, st: E.load(st, Ptr(r, bv(0)), Ty('int', 64), 'count')
        else:
            g = E.new_obj(st, 'count', 8, 'ext'); st.mem[g].cells[0] = (8, bv(0))
            def count(E, st, s, w):
                if s.obj != r: E.oblige(st, BoolVal(False), 'post', 'pieces go into the returned container')
                return st.mem[g].cells[0][1]
            x.count = count
            x.bump = lambda E, st, s, c: st.w(g).cells.__setitem__(0, (8, S(c + 1)))
            x.final = lambda E, st: st.mem[g].cells[0][1]
        expect(E, st, x)
        if x.regex is not None: return [Ptr(r, bv(0)), x.text.p, x.text.n, x.regex], x
        return [Ptr(r, bv(0)), x.text.p, x.text.n] + ([x.delim.p, x.delim.n] if not x.ws else []), x
    return f
def rec(x, start, length):
    def f(n, w):
        q = BitVec(fresh_name('i'), 64); s, l = w.mem[x.starts].segs[0].arr, w.mem[x.lens].segs[0].arr
        qid = fresh_name('rec'); 
        return ForAll([q], Implies(ULT(q, n), And(Select(s, q) == start(q), Select(l, q) == length(q))), qid=qid)
    return f
def expect_split(E, st, x):
    x.ws = False; x.regex = None
    n, m = x.text.n, x.delim.n
    F = x.F = Search(E, st, x.text, x.delim).F
    k = BitVec(fresh_name('x'), 64); q = fresh_name('first'); QPAT[q] = {F.name()}
    st.assume(ForAll([k], Implies(m == 0, F(k) == If(ULE(k, n), k, NPOS)), qid=q))
    P, Q = x.P, x.Q = z3.Function(fresh_name('P'), BV64, BV64), z3.Function(fresh_name('Q'), BV64, BV64)
    st.assume(And(P(bv(0)) == 0, Q(bv(0)) == 0))
    i = BitVec(fresh_name('i'), 64); q = fresh_name('pdef'); QPAT[q] = {P.name(), Q.name()}
    h = F(Q(i))
    st.assume(ForAll([i], Implies(h != NPOS, And(P(S(i + 1)) == h + m, Q(S(i + 1)) == h + If(m == 0, bv(1), m))), qid=q))
    x.more = lambda i: F(Q(i)) != NPOS
    x.rec = rec(x, P, lambda i: F(Q(i)) - P(i))
    x.funs = [('P', P), ('Q', Q)]
    x.extra = lambda i: And(ULE(P(i), n), ULE(Q(i), n + 1), ULE(P(i), Q(i)), If(m == 0, And(Q(i) == i, P(i) == If(i == 0, bv(0), i - 1)), Q(i) == P(i)))
    x.tail = lambda i: (P(i), n - P(i))
    E.ranks = [lambda i: n + 1 - Q(i)]
def expect_re(E, st, x):
    x.ws = False; n = x.text.n
    M = regex_esc.Matches(E, st, x.text); x.regex = M.regex
    F = x.F = M.F
    P = x.P = z3.Function(fresh_name('P'), BV64, BV64)
    st.assume(P(bv(0)) == 0)
    i = BitVec(fresh_name('i'), 64); q = fresh_name('pdef'); QPAT[q] = {P.name()}
    h = F(P(i))
    st.assume(ForAll([i], Implies(h != NPOS, P(S(i + 1)) == h + M.mlen(h)), qid=q))
    x.more = lambda i: F(P(i)) != NPOS
    x.rec = rec(x, P, lambda i: F(P(i)) - P(i))
    x.funs = [('P', P), ('F(P)', lambda i: F(P(i))), ('F(P(i-1))', lambda i: If(i == 0, NPOS, F(P(S(i - 1)))))]
    x.extra = lambda i: And(ULE(P(i), n), ULE(i, P(i)), Or(i == 0, And(P(i) == F(P(S(i - 1))) + M.mlen(F(P(S(i - 1)))), F(P(S(i - 1))) != NPOS)))
    x.tail = lambda i: (P(i), n - P(i))
    E.ranks = [lambda i: n - P(i)]
def c_set(neg):
    def h(E, st, a, i, where):
        x = E.cut; t = a[0]
        tp = E.load(st, t, Ty('ptr'), where); tn = E.load(st, Ptr(t.obj, S(t.off + 8)), Ty('int', 64), where)
        ok = tp.obj == x.text.obj and E.valid_now(st, And(tp.off == 0, tn == x.text.n))
        if x.ws: ok = ok and x.isws(E, st, a[1], a[2])
        else: ok = ok and a[1].obj == x.delim.obj and E.valid_now(st, And(a[1].off == 0, a[2] == x.delim.n))
        if not ok: raise Unsupported('another character search')
        f = (x.FN if neg else x.FD)(a[3])
        yield ('ret', st, S(If(ULT(a[3], x.text.n), f, NPOS)))
    return h
SETS = [(re.escape(SVN) + r'::find_first_not_of\(' + re.escape(SVN) + r', unsigned long\) const', c_set(1)),
        (re.escape(SVN) + r'::find_first_of\(' + re.escape(SVN) + r', unsigned long\) const', c_set(0))]
WS = bytes([7, 8, 32, 9, 10, 13, 11, 12])
def expect_tok(ws):
    def f(E, st, x):
        x.ws = ws; x.regex = None; n = x.text.n
        def isws(E, st, p, ln):
            if not E.valid_now(st, ln == len(ws_chars(E, st, p))): return False
            return sorted(ws_chars(E, st, p)) == sorted(b' \a\b\t\n\v\f\r')
        def ws_chars(E, st, p):
            m = st.mem[p.obj]; o = val(p.off); out = []
            while True:
                b = S(E.load(st, Ptr(p.obj, bv(o)), Ty('int', 8), 'whitespace'))
                if val(b) == 0: return out
                out.append(val(b)); o += 1
        x.isws = isws
        FN, FD = x.FN, x.FD = z3.Function(fresh_name('NEXTTOKEN'), BV64, BV64), z3.Function(fresh_name('NEXTDELIM'), BV64, BV64)
        for G in (FN, FD):
            k = BitVec(fresh_name('x'), 64); q = fresh_name('first'); QPAT[q] = {G.name()}
            st.assume(ForAll([k], Or(G(k) == NPOS, And(ULE(k, G(k)), ULT(G(k), n))), qid=q))
        # a token starts where no delimiter is
        k = BitVec(fresh_name('x'), 64); q = fresh_name('disj'); QPAT[q] = {FN.name(), FD.name()}
        st.assume(ForAll([k], Implies(FN(k) != NPOS, Or(FD(FN(k)) == NPOS, UGT(FD(FN(k)), FN(k)))), qid=q))
        e = lambda v: If(v == NPOS, n, v)
        T, B = x.T, x.B = z3.Function(fresh_name('T'), BV64, BV64), z3.Function(fresh_name('B'), BV64, BV64)   # token start; where the search for it begins
        i = BitVec(fresh_name('i'), 64); q = fresh_name('tdef'); QPAT[q] = {T.name(), B.name()}
        st.assume(B(bv(0)) == 0)
        st.assume(ForAll([i], And(T(i) == If(ULT(B(i), n), FN(B(i)), NPOS), Implies(T(i) != NPOS, B(S(i + 1)) == e(FD(T(i))))), qid=q))
        x.more = lambda i: T(i) != NPOS
        x.rec = rec(x, T, lambda i: B(S(i + 1)) - T(i))
        x.funs = [('T', T), ('B', B)]
        x.extra = lambda i: And(ULE(B(i), n), ULE(i, B(i)))
        x.tail = None
        E.ranks = [lambda i: n - B(i)]
    return f
def cut_template(E, st0, names, entry, cls, mcls):
    x = E.cut; out = []
    def num(v): return v.off if isinstance(v, Ptr) else v
    vs = []
    for nm in names:
        v = num(entry[nm])
        if z3.is_expr(v) and z3.is_bv(v) and v.size() == 64: vs.append((nm, lambda w, nm=nm: num(w.v(nm))))
    for k, c in mcls.items():
        if k[0] == 'cell' and c[0] != 'const' and k[3] == 8:
            v = st0.mem[k[1]].cells[k[2]][1]
            if z3.is_expr(v) and z3.is_bv(v): vs.append((str(k), lambda w, k=k: w.st.mem[k[1]].cells[k[2]][1]))
    def alive(w):
        q = BitVec(fresh_name('i'), 64)
        return ForAll([q], Implies(ULT(q, w.it), x.more(q)), qid=fresh_name('alive'))
    out += [('pieces', alive), ('extra', lambda w: x.extra(w.it)), ('recorded', lambda w: x.rec(w.it, w.st))]
    for vn, vf in vs:
        out.append(('%s=it' % vn, lambda w, vf=vf: vf(w) == w.it))
        for fn, f in x.funs: out.append(('%s=%s' % (vn, fn), lambda w, vf=vf, f=f: vf(w) == f(w.it)))
    return out
def po(E, st, ret, x):
    c = x.final(E, st)
    N = None
    for w in [bv(0)] + witnesses(st):
        for d in (0, 1):
            if E.valid_now(st, And(Not(x.more(S(w + d))), c == w + d + (1 if x.tail else 0))): N = S(w + d); break
        if N is not None: break
    if N is None:
        E.oblige(st, BoolVal(False), 'post', 'there are exactly as many pieces as there should be'); return
    q = BitVec(fresh_name('i'), 64)
    E.oblige(st, Not(x.more(N)), 'post', 'no piece is missing')
    E.oblige(st, ForAll([q], Implies(ULT(q, N), x.more(q))), 'post', 'no piece is invented')
    E.oblige(st, x.rec(N, st), 'post', 'every piece is the expected part of the text')
    if x.tail:
        s, l = x.tail(N)
        E.oblige(st, And(Select(st.mem[x.starts].segs[0].arr, N) == s, Select(st.mem[x.lens].segs[0].arr, N) == l), 'post', 'the last piece is the rest of the text')
KW = dict(templates=[cut_template], light=True, keep=KEEP)
for nm, k in (('', 'sink'), ('_sv', 'sink'), ('_vs', 'vec'), ('_vv', 'vec')):
    PROOFS.append(Proof('split' + nm, 'r_split' + nm, 'split.cc', setup_cut(k, expect_split), po, contracts=SV_FIND + PIECE, **KW))
    PROOFS.append(Proof('tokenize' + nm, 'r_tokenize' + nm, 'split.cc', setup_cut(k, expect_tok(False)), po, contracts=SETS + PIECE, **KW))
PROOFS.append(Proof('tokenize (default whitespace)', 'r_tokenize_ws', 'split.cc', setup_cut('vec', expect_tok(True)), po, contracts=SETS + PIECE, **KW))

for nm, k in (('r_split_re', 'sink'), ('r_split_re_vs', 'vec')):
    PROOFS.append(Proof(nm[2:], nm, 'split.cc', setup_cut(k, expect_re), po, contracts=regex_esc.REGEX + PIECE, templates=[cut_template], light=True, keep=KEEP + regex_esc.KEEP + (r'regex', r'std::__detail')))

# join: part i is an arbitrary piece of one arbitrary memory block
def c_part(k):
    def h(E, st, a, i, where):
        x = E.join
        E.oblige(st, ULT(a[0], x.n), 'bounds', 'only existing parts are accessed')
        st.assume(Implies(ULT(a[0], x.n), And(ULE(x.L(a[0]), x.pool.n), ULE(x.OFF(a[0]), x.pool.n - x.L(a[0])))))
        yield ('ret', st, x.L(a[0]) if k else Ptr(x.pool.obj, x.OFF(a[0])))
    return h
PARTS = [(r'gv_part_ptr', c_part(0)), (r'gv_part_len', c_part(1))]
def su_join(E, st):
    class X: pass
    x = X(); E.join = x
    r = result_string(E, st); x.n = E.fresh(st, 'parts', BV64); x.pool = Buf(E, st, 'pool'); g = Buf(E, st, 'glue')
    U = lambda nm: z3.Function(fresh_name(nm), BV64, BV64)
    x.OFF, x.L, x.SUM = U('OFF'), U('PARTLEN'), U('SUM')
    i = BitVec(fresh_name('i'), 64); q = fresh_name('parts'); QPAT[q] = {x.L.name(), x.OFF.name()}
    st.assume(ForAll([i], Implies(ULT(i, x.n), And(ULE(x.L(i), x.pool.n), ULE(x.OFF(i), x.pool.n - x.L(i)))), qid=q))
    e = Expected(E, st)
    gl = lambda i: If(i == 0, bv(0), g.n)
    e.step(x.n, lambda i: S(gl(i) + x.L(i)), lambda i, c, v: v == If(ULT(c, gl(i)), g[c], x.pool[x.OFF(i) + (c - gl(i))]))
    i = BitVec(fresh_name('i'), 64); q = fresh_name('sum'); QPAT[q] = {x.SUM.name()}
    st.assume(x.SUM(bv(0)) == 0)
    st.assume(ForAll([i], Implies(ULT(i, x.n), x.SUM(S(i + 1)) == x.SUM(i) + x.L(i)), qid=q))
    induct(E, st, 'length of i joined parts', bv(1), x.n, lambda i: e.LEN(i) == x.SUM(i) + (i - 1) * g.n, at=x.n)
    return [r, x.n, g.p, g.n], (r, x, e)
def join_template(E, st0, names, entry, cls, mcls):
    x = E.join; out = []
    for nm in names:
        v = entry[nm]
        if z3.is_expr(v) and z3.is_bv(v) and v.size() == 64:
            out.append(('%s=SUM(it)' % nm, lambda w, nm=nm: w.v(nm) == x.SUM(w.it)))
    return out
def po_join(E, st, ret, c):
    r, x, e = c
    e.check(E, st, string_at(E, st, r), e.LEN(x.n), 'the joined text')
    no_leaks(E, st, [r])
for nm, root in (('join(iterators)', 'r_join_it'), ('join(container)', 'r_join_c')):
    PROOFS.append(Proof(nm, root, 'split.cc', su_join, po_join, templates=[builder, join_template], light=True, contracts=PARTS, keep=KEEP))
