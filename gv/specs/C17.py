"""C17: SmallVector under exceptions thrown by element operations: no leaks, always valid, documented strong guarantees."""
from .C16 import *
from . import C16
ASSUME = C16.ASSUME + ['element destructors and comparisons do not throw']
PROOFS = []
STRONG = ('push_back', 'emplace_back', 'reserve', 'resize', 'shrink_to_fit')     # contents unchanged
SKIP = ('operator==', 'operator!=', 'destructor', 'at', 'operator[]', 'front', 'back', 'data', 'begin', 'end', 'size', 'capacity', 'inner', 'empty', 'cbegin', 'cend', 'rbegin', 'rend', 'crbegin', 'crend', 'clear', 'pop_back', 'constructor()')
def thrown(name):
    base = name.split(' [')[0]; ctor = 'constructor' in name
    strong = base.replace(' of an own element', '').split('(')[0] in STRONG
    def h(E, st, exc, c):
        E.oblige(st, BoolVal(exc.tinfo == 'element'), 'post', 'only the element\'s exception escapes')
        if ctor:
            k = BitVec(fresh_name('k'), 64)
            E.oblige(st, ForAll([k], Implies(ULT(k, INNER), Select(st.mem[c.v.obj].segs[0].arr, k) == 0)), 'lifetime', 'all constructed elements are destroyed')
            no_leak(E, st, *([c.w] if hasattr(c, 'w') else []))
        elif strong: c.v.check(E, st, c.o.size, c.o.at)
        else: c.v.check(E, st)
        if hasattr(c, 'w'):
            if 'swap' in name: c.w.check(E, st)
            else: c.w.check(E, st, c.oo.size, c.oo.at)
        if not ctor: no_leak(E, st, *([c.v, c.w] if hasattr(c, 'w') else [c.v]))
        if getattr(c, 'vo', None):
            v = st.mem[c.vo].cells[0][1]
            E.oblige(st, v != 0 if '(move)' in name else v == c.val, 'post', 'the argument')
    return h
for p in C16.PROOFS:
    if p.name.split(' [')[0].split('(')[0].split('_c')[0] in SKIP and 'constructor' not in p.name or p.name.startswith('constructor()'): continue
    kw = dict(p.kw); kw.update(contracts=ops(True) + HEAP + CAT, defs=('MAYTHROW',), on_throw=thrown(p.name))
    if 'slow' in kw: kw['slow'] = 4
    PROOFS.append(Proof(p.name, p.root, p.src, p.setup, p.post, **kw))
