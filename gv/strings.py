"""Trusted contracts of std::string (libstdc++ layout: buffer pointer, length).

A string is a buffer object (byte array, size length+1) plus its length.  Growing past max_size and
allocation failure are excluded by assumption; the terminating NUL is written when c_str() is called.
Pointers into a string stay attached to its buffer (invalidation by reallocation is not modelled)."""
import re
from .engine import *
from .logic import *

PMAX = bv((1 << 63) - 1)
BS = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>::'

class Str:
    """a std::string at pointer p in state st"""
    def __init__(s, E, st, p):
        s.E, s.st, s.p = E, st, p
        if not is_val(p.off): raise Unsupported('std::string at symbolic address')
        if p.obj is None: raise Unsupported('std::string at null')
        c = st.mem[p.obj].cells
        o = val(p.off)
        if o not in c or o + 8 not in c: raise Unsupported('use of an uninitialised std::string')
        s.buf = c[o][1].obj; s.len = c[o + 8][1]
        m = st.mem[s.buf]
        if m.alive is not True: raise Unsupported('use of a destroyed std::string')
    @property
    def arr(s): return s.st.mem[s.buf].segs[0].arr
    def set(s, arr, ln):
        """new contents"""
        m = s.st.w(s.buf)
        m.segs[0].arr = S(arr) if z3.is_expr(arr) else arr
        ln = S(ln)
        m.size = S(ln + 1)
        s.st.w(s.p.obj).cells[val(s.p.off) + 8] = (8, ln)
        s.len = ln
    def grow(s, ln):
        s.st.assume(ULE(ln, PMAX))
        s.st.assume(ULE(s.len, ln))

def make(E, st, p, arr=None, ln=None, name='str'):
    """construct a string at p"""
    if not is_val(p.off): raise Unsupported('std::string at symbolic address')
    if arr is None: arr = E.fresh(st, name + '_c', BYTES)
    ln = bv(0) if ln is None else S(ln)
    buf = E.new_obj(st, name, S(ln + 1), 'strbuf')
    st.mem[buf].segs.append(Seg(0, 1, 1, arr, 'bv'))
    m = st.w(p.obj)
    m.cells[val(p.off)] = (8, Ptr(buf, bv(0)))
    m.cells[val(p.off) + 8] = (8, ln)
    return Str(E, st, p)

def new_string(E, st, name, ln=None):
    """an external std::string argument with arbitrary contents"""
    o = E.new_obj(st, name, 32, 'ext')
    ln = E.fresh(st, name + '_len', BV64) if ln is None else ln
    st.assume(ULT(ln, PMAX))
    s = make(E, st, Ptr(o, bv(0)), ln=ln, name=name + '_buf')
    st.mem[s.buf].ghost['own'] = True          # belongs to the caller
    return s

def src(E, st, p, n, where):
    """array and start index of n readable characters at p"""
    n = S(n)
    if is_val(n) and val(n) == 0: return None, bv(0)
    if p.obj is None:
        E.oblige(st, n == 0, 'null-deref', where); st.assume(n == 0); return None, bv(0)
    m = st.mem[p.obj]
    if m.alive is not True: E.oblige(st, n == 0, 'use-after-free', where + ' ' + m.name)
    E.oblige(st, Or(n == 0, And(ULE(n, m.size), ULE(p.off, m.size - n))), 'bounds', '%s characters of %s' % (where, m.name), assume=True)
    if m.segs:
        f = E.find_seg(st, m, p.off, 1, p)
        if f is None or f[0].width != 1: raise Unsupported('string source layout ' + m.name)
        return f[0].arr, f[1]
    if is_val(n) and is_val(p.off) and val(n) <= 64:
        a = E.fresh(st, 'chars', BYTES)
        for k in range(val(n)):
            v = E.load(st, Ptr(p.obj, S(p.off + k)), Ty('int', 8), where)
            a = Store(a, bv(k), v)
        return a, bv(0)
    raise Unsupported('string source ' + m.name)

def clen(E, st, p, where):
    """length of the C string at p: the first NUL at or after p"""
    if p.obj is None:
        E.oblige(st, False, 'null-deref', where); raise PathEnd()
    m = st.mem[p.obj]
    if m.segs and is_val(p.off) and is_val(m.size) and val(m.size) <= 512:
        a = m.segs[0].arr
        for k in range(val(p.off), val(m.size)):
            v = S(Select(a, bv(k)))
            if not is_val(v): break
            if val(v) == 0: return bv(k - val(p.off))
    if not m.segs:
        k = val(p.off)
        while True:
            v = S(E.load(st, Ptr(p.obj, bv(k)), Ty('int', 8), where))
            if not is_val(v): raise Unsupported('C string in cells')
            if val(v) == 0: return bv(k - val(p.off))
            k += 1
    f = E.find_seg(st, m, p.off, 1, p)
    arr, idx = f[0].arr, f[1]
    # an existing NUL must be known: candidates recorded by the spec
    n = E.fresh(st, 'strlen', BV64)
    ok = None
    for t in E.itbounds:
        g = And(ULE(p.off, t), ULT(t, m.size), Select(arr, t) == 0)
        if E.valid_now(st, g): ok = t; break
    if ok is None: E.oblige(st, False, 'c-string', where + ' NUL termination of ' + m.name)
    else: st.assume(ULE(n, ok - p.off))
    k = BitVec(fresh_name('k'), 64)
    st.assume(ULT(n, m.size - p.off)); st.assume(Select(arr, S(idx + n)) == 0)
    st.assume(ForAll([k], Implies(ULT(k, n), Select(arr, S(idx + k)) != 0), qid=fresh_name('clen')))
    return n

def splice(E, st, A, ai, B, bi, n):
    """A with n characters of B (from bi) written at ai"""
    n = S(n)
    if B is None: return A
    if is_val(n) and val(n) <= 16:
        vals = [S(Select(B, S(bi + k))) for k in range(val(n))]
        for k, v in enumerate(vals): A = Store(A, S(ai + k), v)
        return S(A)
    if S(ai - bi).eq(bv(0)) and is_val(ai) and val(ai) == 0 and A.eq(B): return A
    return E.copy_range(st, A, ai, B, bi, n)

def fresh_copy(E, st, B, bi, n):
    """an array whose first n characters are B[bi..]"""
    if B is None: return E.fresh(st, 'str_c', BYTES)
    if is_val(bi) and val(bi) == 0: return B
    R = E.fresh(st, 'str_c', BYTES)
    k = BitVec(fresh_name('k'), 64)
    st.assume(ForAll([k], Implies(ULT(k, n), Select(R, k) == Select(B, S(k + bi))), qid=fresh_name('cpy')))
    return R

def append(E, s, B, bi, n):
    new = S(s.len + n)
    s.grow(new)
    s.set(splice(E, s.st, s.arr, s.len, B, bi, n), new)

def ret(st, v=None): return ('ret', st, v)
C = []
def contract(sig):
    def d(f):
        def h(E, st, a, i, where):
            r = f(E, st, a, i, where)
            if hasattr(r, '__next__'):
                for o in r: yield o
            else: yield ('ret', st, r)
        C.append((BS + sig, h)); return f
    return d

AL = r'(, std::allocator<char> const&)?'
IT = r'(char const\*|char\*|__gnu_cxx::__normal_iterator<char( const)?\*, std::__cxx11::basic_string<.*?> ?>)'
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'

def span(E, st, p, q):
    """(pointer, count) of an iterator range"""
    if p.obj != q.obj:
        raise Unsupported('iterator range over two objects')
    return p, S(q.off - p.off)

@contract(r'basic_string\((std::allocator<char> const&)?\)')
def _(E, st, a, i, w): make(E, st, a[0])
@contract(r'basic_string\(%s const&\)' % STR)
def _(E, st, a, i, w): o = Str(E, st, a[1]); make(E, st, a[0], o.arr, o.len)
@contract(r'basic_string\(%s const&, unsigned long(, unsigned long)?\)' % STR)
def _(E, st, a, i, w):
    o = Str(E, st, a[1]); pos = a[2]; k = a[3] if len(a) > 3 else bv(-1)
    for s2, t in E.branch(st, ULE(pos, o.len)):
        if not t: yield ('unwind', s2, Exc('_ZTISt12out_of_range')); continue
        n = S(If(ULT(k, o.len - pos), k, o.len - pos))
        make(E, s2, a[0], fresh_copy(E, s2, o.arr, pos, n), n)
        yield ret(s2)
@contract(r'basic_string\(%s&&\)' % STR)
def _(E, st, a, i, w):
    o = Str(E, st, a[1])
    make(E, st, a[0], o.arr, o.len)
    o.set(o.arr, bv(0))
@contract(r'basic_string\(char const\*, unsigned long%s\)' % AL)
def _(E, st, a, i, w):
    B, bi = src(E, st, a[1], a[2], w); make(E, st, a[0], fresh_copy(E, st, B, bi, a[2]), a[2])
@contract(r'basic_string(<.*>)?\(char const\*%s\)' % AL)
def _(E, st, a, i, w):
    n = clen(E, st, a[1], w); B, bi = src(E, st, a[1], n, w); make(E, st, a[0], fresh_copy(E, st, B, bi, n), n)
@contract(r'basic_string\(unsigned long, char%s\)' % AL)
def _(E, st, a, i, w):
    A = E.fresh(st, 'str_c', BYTES); st.assume(ULE(a[1], PMAX))
    make(E, st, a[0], E.fill_range(st, A, bv(0), a[1], a[2]), a[1])
@contract(r'basic_string<%s, void>\(%s, %s%s\)' % (IT, IT, IT, AL))
def _(E, st, a, i, w):
    p, n = span(E, st, a[1], a[2]); B, bi = src(E, st, p, n, w); make(E, st, a[0], fresh_copy(E, st, B, bi, n), n)
@contract(r'~basic_string\(\)')
def _(E, st, a, i, w):
    o = val(a[0].off) if is_val(a[0].off) else None
    if o is None: raise Unsupported('std::string at symbolic address')
    c = st.mem[a[0].obj].cells.get(o)
    if c is None: raise Unsupported('destroying an uninitialised std::string')
    m = st.w(c[1].obj)
    if m.alive is not True: E.oblige(st, False, 'double-destroy', w)
    m.alive = False
    w_ = st.w(a[0].obj)
    for x in (o, o + 8): w_.cells.pop(x, None)      # the object's representation is gone
@contract(r'(size|length)\(\) const')
def _(E, st, a, i, w): return Str(E, st, a[0]).len
@contract(r'empty\(\) const')
def _(E, st, a, i, w): return S(Str(E, st, a[0]).len == 0)
@contract(r'max_size\(\) const')
def _(E, st, a, i, w): return PMAX
@contract(r'capacity\(\) const')
def _(E, st, a, i, w):
    s = Str(E, st, a[0]); c = E.fresh(st, 'cap', BV64); st.assume(ULE(s.len, c)); st.assume(ULE(c, PMAX)); return c
@contract(r'(data|begin|cbegin)\(\)( const)?')
def _(E, st, a, i, w): return Ptr(Str(E, st, a[0]).buf, bv(0))
@contract(r'(end|cend)\(\)( const)?')
def _(E, st, a, i, w): s = Str(E, st, a[0]); return Ptr(s.buf, s.len)
@contract(r'c_str\(\)( const)?')
def _(E, st, a, i, w):
    s = Str(E, st, a[0]); s.set(Store(s.arr, s.len, bv(0, 8)), s.len); return Ptr(s.buf, bv(0))
@contract(r'front\(\)( const)?')
def _(E, st, a, i, w):
    s = Str(E, st, a[0]); E.oblige(st, s.len != 0, 'bounds', w + ' front() of a string', assume=True); return Ptr(s.buf, bv(0))
@contract(r'back\(\)( const)?')
def _(E, st, a, i, w):
    s = Str(E, st, a[0]); E.oblige(st, s.len != 0, 'bounds', w + ' back() of a string', assume=True); return Ptr(s.buf, S(s.len - 1))
@contract(r'operator\[\]\(unsigned long\)( const)?')
def _(E, st, a, i, w):
    s = Str(E, st, a[0]); E.oblige(st, ULE(a[1], s.len), 'bounds', w + ' operator[] of a string', assume=True); return Ptr(s.buf, S(a[1]))
@contract(r'at\(unsigned long\)( const)?')
def _(E, st, a, i, w):
    s = Str(E, st, a[0])
    for s2, t in E.branch(st, ULT(a[1], s.len)):
        yield ret(s2, Ptr(s.buf, S(a[1]))) if t else ('unwind', s2, Exc('_ZTISt12out_of_range'))
@contract(r'reserve\((unsigned long)?\)')
def _(E, st, a, i, w):
    Str(E, st, a[0])
    if len(a) < 2: yield ret(st); return
    for s2, t in E.branch(st, ULE(a[1], PMAX)):
        yield ret(s2) if t else ('unwind', s2, Exc('_ZTISt12length_error'))
@contract(r'shrink_to_fit\(\)')
def _(E, st, a, i, w): Str(E, st, a[0])
@contract(r'clear\(\)')
def _(E, st, a, i, w): s = Str(E, st, a[0]); s.set(s.arr, bv(0))
@contract(r'resize\(unsigned long(, char)?\)')
def _(E, st, a, i, w):
    s = Str(E, st, a[0]); c = a[2] if len(a) > 2 else bv(0, 8); n = a[1]
    for s2, t in E.branch(st, ULE(n, PMAX)):
        if not t: yield ('unwind', s2, Exc('_ZTISt12length_error')); continue
        for s3, t3 in E.branch(s2, ULE(n, s.len)):
            s4 = Str(E, s3, a[0])
            if t3: s4.set(s4.arr, n)
            else: s4.set(E.fill_range(s3, s4.arr, s4.len, S(n - s4.len), c), n)
            yield ret(s3)
@contract(r'push_back\(char\)')
def _(E, st, a, i, w):
    s = Str(E, st, a[0]); s.grow(S(s.len + 1)); s.set(Store(s.arr, s.len, a[1]), S(s.len + 1))
@contract(r'operator\+=\(char\)')
def _(E, st, a, i, w):
    s = Str(E, st, a[0]); s.grow(S(s.len + 1)); s.set(Store(s.arr, s.len, a[1]), S(s.len + 1)); return a[0]
@contract(r'pop_back\(\)')
def _(E, st, a, i, w):
    s = Str(E, st, a[0]); E.oblige(st, s.len != 0, 'bounds', w + ' pop_back() of a string', assume=True); s.set(s.arr, S(s.len - 1))
@contract(r'(append|operator\+=|assign|operator=)\(%s (const&|&&)\)' % STR)
def _(E, st, a, i, w):
    d = E.demangle(i.x['callee'][1]); o = Str(E, st, a[1]); s = Str(E, st, a[0])
    if 'append' in d or 'operator+=' in d: append(E, s, o.arr, bv(0), o.len)
    else:
        s.set(o.arr, o.len)
        if '&&' in d and s.buf != o.buf: o.set(o.arr, bv(0))
    return a[0]
@contract(r'(append|assign)\(char const\*, unsigned long\)')
def _(E, st, a, i, w):
    s = Str(E, st, a[0]); B, bi = src(E, st, a[1], a[2], w)
    if '::append' in E.demangle(i.x['callee'][1]): append(E, s, B, bi, S(a[2]))
    else: s.set(fresh_copy(E, st, B, bi, a[2]), a[2])
    return a[0]
@contract(r'(append|operator\+=|assign|operator=)\(char const\*\)')
def _(E, st, a, i, w):
    d = E.demangle(i.x['callee'][1]); s = Str(E, st, a[0])
    n = clen(E, st, a[1], w); B, bi = src(E, st, a[1], n, w)
    if 'append' in d or 'operator+=' in d: append(E, s, B, bi, n)
    else: s.set(fresh_copy(E, st, B, bi, n), n)
    return a[0]
@contract(r'(append|assign)\(unsigned long, char\)')
def _(E, st, a, i, w):
    s = Str(E, st, a[0]); n = S(a[1])
    if '::assign' in E.demangle(i.x['callee'][1]): s.set(s.arr, bv(0))
    new = S(s.len + n); s.grow(new)
    s.set(E.fill_range(st, s.arr, s.len, n, a[2]), new); return a[0]
@contract(r'operator=\(char\)')
def _(E, st, a, i, w):
    s = Str(E, st, a[0]); s.set(Store(s.arr, bv(0), a[1]), bv(1)); return a[0]
@contract(r'(%s& )?(append|assign)<%s, void>\(%s, %s\)' % (STR, IT, IT, IT))
def _(E, st, a, i, w):
    s = Str(E, st, a[0]); p, n = span(E, st, a[1], a[2]); B, bi = src(E, st, p, n, w)
    if 'append<' in E.demangle(i.x['callee'][1]): append(E, s, B, bi, n)
    else: s.set(fresh_copy(E, st, B, bi, n), n)
    return a[0]

def insert_at(E, s, pos, B, bi, n):
    st = s.st; A = s.arr; new = S(s.len + n); s.grow(new)
    R = E.fresh(st, 'ins', BYTES); k = BitVec(fresh_name('k'), 64)
    mid = Select(B, S(k - pos + bi)) if B is not None else Select(A, k)
    st.assume(ForAll([k], Implies(ULT(k, new), Select(R, k) == If(ULT(k, pos), Select(A, k), If(ULT(k - pos, n), mid, Select(A, S(k - n))))), qid=fresh_name('ins')))
    s.set(R, new)
def erase_at(E, s, pos, n):
    st = s.st; A = s.arr; new = S(s.len - n)
    R = E.fresh(st, 'era', BYTES); k = BitVec(fresh_name('k'), 64)
    st.assume(ForAll([k], Implies(ULT(k, new), Select(R, k) == If(ULT(k, pos), Select(A, k), Select(A, S(k + n)))), qid=fresh_name('era')))
    s.set(R, new)
@contract(r'insert\(unsigned long, char const\*, unsigned long\)')
def _(E, st, a, i, w):
    s = Str(E, st, a[0]); B, bi = src(E, st, a[2], a[3], w)
    for s2, t in E.branch(st, ULE(a[1], s.len)):
        if not t: yield ('unwind', s2, Exc('_ZTISt12out_of_range')); continue
        insert_at(E, Str(E, s2, a[0]), a[1], B, bi, S(a[3])); yield ret(s2, a[0])
@contract(r'(.* )?insert<%s, void>\(__gnu_cxx::__normal_iterator<.*>, %s, %s\)' % (IT, IT, IT))
def _(E, st, a, i, w):
    s = Str(E, st, a[0])
    if a[1].obj != s.buf: raise Unsupported('foreign iterator')
    p, n = span(E, st, a[2], a[3]); B, bi = src(E, st, p, n, w)
    E.oblige(st, ULE(a[1].off, s.len), 'bounds', w + ' insert position', assume=True)
    insert_at(E, s, a[1].off, B, bi, n); return Ptr(s.buf, a[1].off)
@contract(r'erase\(unsigned long, unsigned long\)')
def _(E, st, a, i, w):
    s = Str(E, st, a[0])
    for s2, t in E.branch(st, ULE(a[1], s.len)):
        if not t: yield ('unwind', s2, Exc('_ZTISt12out_of_range')); continue
        n = S(If(ULT(a[2], s.len - a[1]), a[2], s.len - a[1]))
        if E.valid_now(s2, ULE(a[2], s.len - a[1])): n = a[2]
        erase_at(E, Str(E, s2, a[0]), a[1], n); yield ret(s2, a[0])
@contract(r'replace\(unsigned long, unsigned long, char const\*, unsigned long\)')
def _(E, st, a, i, w):
    s = Str(E, st, a[0]); B, bi = src(E, st, a[3], a[4], w)
    for s2, t in E.branch(st, ULE(a[1], s.len)):
        if not t: yield ('unwind', s2, Exc('_ZTISt12out_of_range')); continue
        n = S(If(ULT(a[2], s.len - a[1]), a[2], s.len - a[1]))
        if E.valid_now(s2, ULE(a[2], s.len - a[1])): n = a[2]
        x = Str(E, s2, a[0]); erase_at(E, x, a[1], n); insert_at(E, x, a[1], B, bi, S(a[4])); yield ret(s2, a[0])
@contract(r'replace\(__gnu_cxx::__normal_iterator<.*>, __gnu_cxx::__normal_iterator<.*>, (char const\*, unsigned long|char const\*, char const\*|char\*, char\*|__gnu_cxx::__normal_iterator<.*>, __gnu_cxx::__normal_iterator<.*>)\)')
def _(E, st, a, i, w):
    s = Str(E, st, a[0])
    if a[1].obj != s.buf or a[2].obj != s.buf: raise Unsupported('foreign iterator')
    pos, n = a[1].off, S(a[2].off - a[1].off)
    E.oblige(st, And(ULE(pos, a[2].off), ULE(a[2].off, s.len)), 'bounds', w + ' replace range', assume=True)
    if isinstance(a[4], Ptr): p, cnt = span(E, st, a[3], a[4])
    else: p, cnt = a[3], S(a[4])
    B, bi = src(E, st, p, cnt, w)
    if is_val(n) and val(n) == 0 and S(pos - s.len).eq(bv(0)): append(E, s, B, bi, cnt); return a[0]
    erase_at(E, s, pos, n); insert_at(E, s, pos, B, bi, cnt); return a[0]
@contract(r'substr\(unsigned long, unsigned long\) const')
def _(E, st, a, i, w):
    o = Str(E, st, a[1]); pos, k = a[2], a[3]
    for s2, t in E.branch(st, ULE(pos, o.len)):
        if not t: yield ('unwind', s2, Exc('_ZTISt12out_of_range')); continue
        n = S(If(ULT(k, o.len - pos), k, o.len - pos))
        make(E, s2, a[0], fresh_copy(E, s2, o.arr, pos, n), n); yield ret(s2)
@contract(r'swap\(%s&\)' % STR)
def _(E, st, a, i, w):
    x, y = Str(E, st, a[0]), Str(E, st, a[1]); xa, xl, ya, yl = x.arr, x.len, y.arr, y.len
    x.set(ya, yl); y.set(xa, xl)

def find_post(E, st, A, n, B, bi, m, pos):
    """result of std::string::find"""
    r = E.fresh(st, 'found', BV64)
    NP = bv(-1)
    def match(p, nm):
        k = BitVec(fresh_name('i'), 64)
        return And(ULE(m, n), ULE(p, n - m), ForAll([k], Implies(ULT(k, m), Select(A, S(p + k)) == Select(B, S(bi + k))), qid=fresh_name(nm)))
    st.assume(Or(r == NP, And(ULE(pos, r), match(r, 'fmat'))))
    j = BitVec(fresh_name('j'), 64)
    st.assume(ForAll([j], Implies(And(ULE(pos, j), ULE(j, n), Or(r == NP, ULT(j, r))), Not(match(j, 'fno'))), qid=fresh_name('fnone')))
    return r
@contract(r'find\(char const\*, unsigned long, unsigned long\) const')
def _(E, st, a, i, w):
    s = Str(E, st, a[0]); B, bi = src(E, st, a[1], a[3], w)
    if B is None: B = E.fresh(st, 'nothing', BYTES)
    return find_post(E, st, s.arr, s.len, B, bi, S(a[3]), a[2])
@contract(r'find\(%s const&, unsigned long\) const' % STR)
def _(E, st, a, i, w):
    s = Str(E, st, a[0]); t = Str(E, st, a[1])
    return find_post(E, st, s.arr, s.len, t.arr, bv(0), t.len, a[2])
@contract(r'find\(char, unsigned long\) const')
def _(E, st, a, i, w):
    s = Str(E, st, a[0]); B = E.fresh(st, 'one', BYTES); st.assume(Select(B, bv(0)) == a[1])
    return find_post(E, st, s.arr, s.len, B, bv(0), bv(1), a[2])

def c_nop(E, st, a, i, w): yield ('ret', st, None)
CONTRACTS = C + [
    (r'(std::allocator<char>|std::__new_allocator<char>)::~?\w+\(.*\)', c_nop),
]

# std::to_string: the decimal text of a number is an uninterpreted function of the number (one per argument type)
def dec_text(sort, name):
    return (z3.Function('DEC_' + name, sort, BYTES), z3.Function('DECLEN_' + name, sort, BV64))
def c_to_string(E, st, a, i, where):
    ty = E.demangle(i.x['callee'][1]).split('(')[-1].rstrip(')')
    ty = re.sub(r'\W+', '_', ty)
    D, L = dec_text(a[1].sort(), ty)
    st.assume(ULE(L(a[1]), bv(1000)))
    make(E, st, a[0], D(a[1]), L(a[1]))
    yield ('ret', st, None)
CONTRACTS += [(r'std::(__cxx11::)?to_string.*', c_to_string)]

# memchr reads in order and stops at the first match (C11 7.24.5.1)
def c_memchr(E, st, a, i, where):
    p, c, n = a[0], Extract(7, 0, a[1]), a[2]
    if p.obj is None:
        E.oblige(st, n == 0, 'null-deref', where); st.assume(n == 0); yield ('ret', st, Ptr(None, bv(0))); return
    m = st.mem[p.obj]
    f = E.find_seg(st, m, p.off, 1, p) if m.segs else None
    if f is None or f[0].width != 1: raise Unsupported('memchr source ' + m.name)
    arr, idx = f[0].arr, f[1]
    av = S(m.size - p.off)
    def none(s, k): 
        v = BitVec(fresh_name('k'), 64); q = fresh_name('mch'); QHINT[q] = [S(k - 1)]
        s.assume(ForAll([v], Implies(ULT(v, k), Select(arr, S(idx + v)) != c), qid=q))
    s1 = st.fork(); r = E.fresh(s1, 'mchr', BV64)
    s1.assume(And(ULE(p.off, m.size), ULT(r, n), ULT(r, av), Select(arr, S(idx + r)) == c)); none(s1, r)
    E.witnesses = getattr(E, 'witnesses', []) + [r]
    yield ('ret', s1, Ptr(p.obj, S(p.off + r)))
    s2 = st.fork(); none(s2, S(If(ULE(n, av), n, av)))
    E.oblige(s2, Or(n == 0, And(ULE(p.off, m.size), ULE(n, av))), 'bounds', where + ' memchr ' + m.name, assume=True)
    yield ('ret', s2, Ptr(None, bv(0)))
CONTRACTS += [(r'memchr', c_memchr)]
