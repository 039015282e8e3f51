"""C07: replace and replace_inplace substitute exactly the leftmost non-overlapping occurrences."""
from ..spec import *
ASSUME = ['the result and the intermediate strings fit into a std::string', 'replace_inplace: needle and hammer are not views into the haystack itself',
          'std::string::find returns the first occurrence at or after the given position']
PROOFS = []

def pieces(E, st, hay, needle, hammer):
    x = Pieces(E, st, hay, Search(E, st, hay, needle).F, lambda f: needle.n, lambda f: hammer.n, lambda f, c: hammer[c])
    x.needle = needle
    return x
def su(inplace):
    def f(E, st):
        b, c = Buf(E, st, 'needle'), Buf(E, st, 'hammer')
        if inplace:
            r = strings.new_string(E, st, 'haystack')
            class H: pass
            h = H(); h.n, h.a, h.p = r.len, r.arr, r.p
            H.__getitem__ = lambda s, i: Select(s.a, i)
            x = pieces(E, st, h, b, c)
            return [r.p, b.p, b.n, c.p, c.n], (r.p, x)
        r = result_string(E, st); a = Buf(E, st, 'haystack')
        x = pieces(E, st, a, b, c)
        return [r, a.p, a.n, b.p, b.n, c.p, c.n], (r, x)
    return f
def po(inplace):
    def f(E, st, ret, c):
        r, x = c
        if inplace: E.oblige(st, BoolVal(isinstance(ret, Ptr) and ret.obj == r.obj and E.valid_now(st, ret.off == r.off)), 'post', 'returns the haystack itself')
        pieces_check(E, st, string_at(E, st, r), x, x.needle.n == 0)
        no_leaks(E, st, [r])
    return f
for nm, root, ip in (('replace', 'r_replace', 0), ('replace_inplace', 'r_replace_in', 1)):
    PROOFS.append(Proof(nm, root, 'subst.cc', su(ip), po(ip), templates=[pieces_template], light=True, contracts=SV_FIND + STR_FIND, keep=KEEPFIND))
