"""C04: ASCII case conversion."""
from ..spec import *
PROOFS = []
def P(name, root, setup, post, **kw): PROOFS.append(Proof(name, root, 'text.cc', setup, post, **kw))

for nm, f in (('lower', lower), ('upper', upper)):
    def su_c(E, st):
        c = BitVec('c', 8); return [c], c
    P(nm + '(char)', 'r_%s_c' % nm, su_c, lambda E, st, r, c, f=f: E.oblige(st, r == f(c), 'post', 'ASCII letters change case, other characters unchanged'))
    def su(E, st):
        s = Buf(E, st, 's', maxlen=S(PMAX - 1)); r = result_string(E, st); return [r, s.p, s.n], (s, r)
    def post(E, st, ret, c, f=f):
        s, r = c; o = string_at(E, st, r)
        E.oblige(st, o.len == s.n, 'post', 'same length')
        E.oblige(st, forall('i', 0, s.n, lambda i: Select(o.arr, i) == f(s[i])), 'post', 'every character converted, in place')
        no_leaks(E, st, [r])
    P(nm + '(string)', 'r_' + nm, su, post)
    def su_i(E, st):
        s = strings.new_string(E, st, 's'); return [s.p], (s, s.arr, s.len)
    def post_i(E, st, ret, c, f=f):
        s, old, n = c; o = string_at(E, st, s.p)
        E.oblige(st, BoolVal(ret.obj == s.p.obj and S(ret.off - s.p.off).eq(bv(0))), 'post', 'returns its argument')
        E.oblige(st, o.len == n, 'post', 'same length')
        E.oblige(st, forall('i', 0, n, lambda i: Select(o.arr, i) == f(Select(old, i))), 'post', 'every character converted, in place')
        no_leaks(E, st, [s.p])
    P(nm + '_inplace', 'r_%s_in' % nm, su_i, post_i)
