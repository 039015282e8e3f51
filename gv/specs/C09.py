"""C09: to_number for integers and bool: exact grammar, exact value, exact range."""
from ..spec import *

def isdig(c): return And(UGE(c, 48), ULE(c, 57))
def dig(c): return If(isdig(c), BV2Int(c) - 48, IntVal(0))

def setup(w, sg):
    def f(E, st):
        s = Buf(E, st, 's')
        out = E.new_obj(st, 'out', w // 8, 'ext')
        neg = And(s.n != 0, s[bv(0)] == 45) if sg else BoolVal(False)
        o = S(If(neg, bv(1), bv(0)))
        VAL = z3.Function('VAL', BV64, IntSort())
        st.assume(VAL(bv(0)) == 0)
        st.assume(VAL(o) == 0)
        i = BitVec('i', 64)
        st.assume(ForAll([i], Implies(And(ULE(o, i), ULT(i, s.n)), VAL(i + 1) == 10 * VAL(i) + dig(s[i])), qid='valdef'))
        induct(E, st, 'decimal value is non-negative', o, s.n, lambda k: VAL(k) >= 0)
        if sg: st.assume(VAL(bv(0)) == 0)
        induct(E, st, 'decimal value is monotone', o, s.n,
               lambda k: forall('j', o, S(k + 1), lambda j: VAL(j) <= VAL(k)))
        return [s.p, s.n, Ptr(out, bv(0))], (s, out, neg, o, VAL, w, sg)
    return f

def templates(ctxbox):
    def t(E, st0, names, entry, cls, mcls):
        out = []
        VAL = z3.Function('VAL', BV64, IntSort())
        vs = [n for n in names if z3.is_expr(entry[n]) and z3.is_bv(entry[n]) and cls[n][0] == 'gen']
        ps = [n for n in names if isinstance(entry[n], Ptr) or (z3.is_expr(entry[n]) and z3.is_bv(entry[n]) and entry[n].size() == 64)]
        for v in vs:
            for p in ps:
                if p == v: continue
                out.append(('%s=VAL(%s)' % (v, p), lambda w, v=v, p=p: BV2Int(w.v(v)) == VAL(w.v(p).off if isinstance(w.v(p), Ptr) else w.v(p))))
            out.append(('%s=VAL(it)' % v, lambda w, v=v: BV2Int(w.v(v)) == VAL(w.it)))
            out.append(('%s=VAL(it+1)' % v, lambda w, v=v: BV2Int(w.v(v)) == VAL(S(w.it + 1))))
        for k, c in mcls.items():
            if c[0] == 'gen' and k[0] == 'cell':
                for p in ps:
                    out.append(('%s=VAL(%s)' % (k, p), lambda w, k=k, p=p: BV2Int(w.st.mem[k[1]].cells[k[2]][1]) == VAL(w.v(p).off if isinstance(w.v(p), Ptr) else w.v(p))))
        return out
    return t

def post(E, st, r, c):
    s, out, neg, o, VAL, w, sg = c
    lim = If(neg, IntVal(1 << (w - 1)), IntVal((1 << (w - 1)) - 1)) if sg else IntVal((1 << w) - 1)
    alld = forall('d', o, s.n, lambda i: isdig(s[i]))
    V = VAL(s.n)
    E.oblige(st, Implies(r, And(UGT(s.n, o), alld)), 'post', 'a value only for an optional sign and at least one digit')
    cell = st.mem[out].cells.get(0)
    if z3.is_true(S(r)) or cell is not None:
        v = cell[1]
        vi = If(v < 0, BV2Int(v) - (1 << w), BV2Int(v)) if sg else BV2Int(v)
        E.oblige(st, Implies(r, vi == If(neg, -V, V)), 'post', 'the value is the decimal value of the digits')
    E.oblige(st, Implies(Not(r), Or(ULE(s.n, o), Not(alld), V > lim)), 'post', 'nothing only for malformed or out-of-range input')

def eqlit(s, lit):
    return And(s.n == len(lit), *[lower(s[bv(i)]) == ord(ch) for i, ch in enumerate(lit)])
def su_bool(E, st):
    s = Buf(E, st, 's'); out = E.new_obj(st, 'out', 1, 'ext'); return [s.p, s.n, Ptr(out, bv(0))], (s, out)
def post_bool(E, st, r, c):
    s, out = c
    tr = Or(And(s.n == 1, s[bv(0)] == 49), eqlit(s, 'true')); fa = Or(And(s.n == 1, s[bv(0)] == 48), eqlit(s, 'false'))
    E.oblige(st, r == Or(tr, fa), 'post', 'a value exactly for 0, 1, true, false')
    cell = st.mem[out].cells.get(0)
    if cell is not None: E.oblige(st, Implies(r, (as_bv(cell[1], 8) == 1) == tr), 'post', 'the right truth value')

PROOFS = [Proof('to_number<%s%d_t>' % ('int' if sg else 'uint', w), 'r_tn_%s%d' % ('i' if sg else 'u', w), 'number.cc', setup(w, sg), post,
                templates=[templates(None)], W=0, min_outcomes=3)
          for sg in (1, 0) for w in (8, 16, 32, 64)]
PROOFS.append(Proof('to_number<bool>', 'r_tn_bool', 'number.cc', su_bool, post_bool, min_outcomes=3))
