"""C06: escape gives the escaped form of every byte; unescape undoes it (unescape: bounded, see native/C06.cc)."""
from ..spec import *
ASSUME = ['the result fits into a std::string (at most PTRDIFF_MAX characters)']
PROOFS = []
def hexd(n): return If(ULE(n, 9), n + 48, n + 87)
def simple(b): return Or(b == 34, b == 92, b == 10, b == 13, b == 9)
def plain(b): return And(UGE(b, 32), ULE(b, 126), Not(simple(b)))
def piecelen(b): return If(plain(b), bv(1), If(simple(b), bv(2), bv(4)))
def char(b, c, v):
    sec = If(b == 10, bv(ord('n'), 8), If(b == 13, bv(ord('r'), 8), If(b == 9, bv(ord('t'), 8), b)))
    hexc = If(c == 1, bv(ord('x'), 8), If(c == 2, hexd(LShR(b, 4)), hexd(b & 15)))
    return If(plain(b), v == b, If(c == 0, v == 92, If(simple(b), v == sec, v == hexc)))
def su(E, st):
    r = result_string(E, st); s = Buf(E, st, 's')
    x = Expected(E, st)
    x.step(s.n, lambda i: piecelen(s[i]), lambda i, c, v: char(s[i], c, v))
    return [r, s.p, s.n], (r, s, x)
def po(E, st, ret, c):
    r, s, x = c
    x.check(E, st, string_at(E, st, r), x.LEN(s.n), 'the escaped text')
    no_leaks(E, st, [r])
PROOFS.append(Proof('escape', 'r_escape', 'esc.cc', su, po, templates=[builder], light=True, keep=(r'regex', r'std::__detail')))

from .. import regex_esc
ASSUME += ['std::regex_iterator enumerates the leftmost non-overlapping matches of the pattern (trusted contract for exactly this pattern, ECMAScript grammar, "C" locale digits)',
           'strtol of two hexadecimal digits gives their value']
def last_match(E, st0, names, entry, cls, mcls):
    x = E.pieces; out = []
    for k, c in mcls.items():
        if k[0] == 'cell' and c[0] != 'const' and k[3] == 8 and z3.is_expr(st0.mem[k[1]].cells[k[2]][1]):
            f = lambda w, k=k: w.st.mem[k[1]].cells[k[2]][1]
            out.append(('%s=previous match' % (k,), lambda w, f=f: Or(w.it == 0, f(w) == x.F(x.P(S(w.it - 1))))))
    return out
def su_un(E, st):
    r = result_string(E, st); s = Buf(E, st, 's')
    e = regex_esc.Escapes(E, st, s)
    x = Pieces(E, st, s, e.F, e.mlen, lambda f: bv(1), lambda f, c: e.value(f))
    return [r, s.p, s.n], (r, x)
def po_un(E, st, ret, c):
    r, x = c
    pieces_check(E, st, string_at(E, st, r), x, BoolVal(False))
    no_leaks(E, st, [r])
PROOFS.append(Proof('unescape', 'r_unescape', 'esc.cc', su_un, po_un, templates=[pieces_template, last_match], light=True, contracts=regex_esc.REGEX, keep=(r'regex', r'std::__detail') + regex_esc.KEEP))
