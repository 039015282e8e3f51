"""Trusted contracts of std::vector<byte> members and std::rotate (libstdc++ layout: begin, end, end of storage)."""
import re
from .engine import *
from .logic import *

def cells(E, st, p):
    c = st.mem[p.obj].cells; o = val(p.off)
    return [c[o + 8 * k][1] for k in range(3)]
def vec(E, st, p):
    """(array object, array, size)"""
    b, e, _ = cells(E, st, p)
    if b.obj is None: return None, None, bv(0)
    if e.obj != b.obj or not (is_val(b.off) and val(b.off) == 0): raise Unsupported('vector layout')
    return b.obj, st.mem[b.obj].segs[0].arr, e.off
def make_vec(E, st, p, arr, n, name='vec', zero_ok=True):
    m = st.w(p.obj); o = val(p.off)
    buf = E.new_obj(st, name, S(n), 'heap')
    st.mem[buf].segs.append(Seg(0, 1, 1, arr, 'bv'))
    st.mem[buf].ghost['own'] = True
    for k, v in enumerate((Ptr(buf, bv(0)), Ptr(buf, S(n)), Ptr(buf, S(n)))): m.cells[o + 8 * k] = (8, v)
    return buf
PMAX = bv((1 << 63) - 1)
def c_resize(E, st, a, i, where):
    ob, arr, n = vec(E, st, a[0]); k = a[1]
    st.assume(ULE(k, PMAX))             # a larger request throws std::length_error
    R = E.fresh(st, 'vec', BYTES); q = BitVec(fresh_name('k'), 64)
    old = Select(arr, q) if arr is not None else bv(0, 8)
    st.assume(ForAll([q], Implies(ULT(q, k), Select(R, q) == If(ULT(q, n), old, bv(0, 8))), qid=fresh_name('rsz')))
    if ob is not None: st.w(ob).alive = False
    make_vec(E, st, a[0], R, k)
    yield ('ret', st, None)
def c_ctor_n(E, st, a, i, where):
    st.assume(ULE(a[1], PMAX))
    make_vec(E, st, a[0], K(BV64, bv(0, 8)), a[1])
    yield ('ret', st, None)
def c_rotate(E, st, a, i, where):
    f, m, l = a[:3]
    if f.obj is None and l.obj is None: yield ('ret', st, f); return
    if f.obj != m.obj or f.obj != l.obj: raise Unsupported('rotate over two objects')
    E.oblige(st, And(ULE(f.off, m.off), ULE(m.off, l.off), ULE(l.off, st.mem[f.obj].size)), 'bounds', where + ' rotate range', assume=True)
    A = st.mem[f.obj].segs[0].arr; R = E.fresh(st, 'rot', A.sort()); q = BitVec(fresh_name('k'), 64)
    s, n = S(m.off - f.off), S(l.off - f.off)
    j = S(q - f.off)
    st.assume(ForAll([q], Select(R, q) == If(And(ULE(f.off, q), ULT(q, l.off)), If(ULT(j, S(n - s)), Select(A, S(q + s)), Select(A, S(q + s - n))), Select(A, q)), qid=fresh_name('rot')))
    st.w(f.obj).segs[0].arr = R
    yield ('ret', st, Ptr(f.obj, S(f.off + l.off - m.off)))
VEC = [(r'std::vector<unsigned char, .*>::resize\(unsigned long\)', c_resize),
       (r'std::vector<unsigned char, .*>::vector\(unsigned long, .*\)', c_ctor_n),
       (r'(.* )?std::(_V2::)?rotate<.*', c_rotate)]
KEEPVEC = (r'^std::vector<[^()]*>::(resize|vector)\(unsigned long', r'^[^()]* std::(_V2::)?rotate<', r'^[^()]*gul14::cat')
