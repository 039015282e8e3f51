"""Symbolic executor / verification-condition generator over LLVM IR (gv.ir).

Every function is executed path by path on symbolic inputs; loops are cut at their header:
loop-carried values become functions of a ghost iteration counter, related by the (quantified)
step relation of the loop body, plus candidate invariants that are kept only when proved
inductive.  Calls are replaced by contracts where one is registered."""
import itertools, os
import z3, re, sys, time
from z3 import *
from .logic import *
from . import ir
from .ir import Ty

class Unsupported(Exception):
    pass

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off): s.obj, s.off = obj, off
    def __repr__(s): return '<%s+%s>' % (s.obj, s.off)

class Poison:
    def __repr__(s): return '<poison>'
POISON = Poison()      # a pointer to an object of an earlier loop iteration: must not be used

class FnPtr:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
    def __repr__(s): return '@' + s.name

class Exc:
    """an in-flight C++ exception"""
    def __init__(s, tinfo, obj=None): s.tinfo, s.obj = tinfo, obj
    def __repr__(s): return 'exc:%s' % s.tinfo

NULL = Ptr(None, bv(0))

class Seg:
    """typed array segment: element i lives at base + i*stride, width bytes"""
    __slots__ = ('base', 'stride', 'width', 'arr', 'kind', 'count')
    def __init__(s, base, stride, width, arr, kind='bv', count=None):
        s.base, s.stride, s.width, s.arr, s.kind, s.count = base, stride, width, arr, kind, count
    def copy(s): return Seg(s.base, s.stride, s.width, s.arr, s.kind, s.count)

class Mem:
    __slots__ = ('size', 'alive', 'cells', 'segs', 'ghost', 'kind', 'name', 'ro')
    def __init__(s, name, size, kind):
        s.name, s.size, s.kind = name, size, kind
        s.alive = True; s.cells = {}; s.segs = []; s.ghost = {}; s.ro = False
    def copy(s):
        m = Mem(s.name, s.size, s.kind)
        m.alive = s.alive; m.cells = dict(s.cells); m.segs = [x.copy() for x in s.segs]
        m.ghost = dict(s.ghost); m.ro = s.ro
        return m

class State:
    __slots__ = ('regs', 'mem', 'facts', 'its', 'owned', 'exc', 'log', 'g')
    def __init__(s):
        s.regs = {}; s.mem = {}; s.facts = []; s.its = (); s.owned = set(); s.exc = None
        s.log = []          # python-level trace of notable events
        s.g = {}            # global ghost state (z3 exprs)
    def fork(s):
        n = State.__new__(State)
        n.regs = dict(s.regs); n.mem = dict(s.mem); n.facts = list(s.facts); n.its = s.its
        n.owned = set(); s.owned = set(); n.exc = s.exc; n.log = list(s.log); n.g = dict(s.g)
        return n
    def w(s, obj):
        """writable view of an object's memory"""
        m = s.mem[obj]
        if obj not in s.owned:
            m = m.copy(); s.mem[obj] = m; s.owned.add(obj)
        return m
    def assume(s, f):
        f = S(f)
        if not z3.is_true(f): s.facts.append(f)

def as_bv(v, n):
    if z3.is_bool(v): return If(v, BitVecVal(1, n), BitVecVal(0, n))
    return v

def fpsort(n):
    return {'float': Float32(), 'double': Float64(), 'half': Float16(), 'x86_fp80': FPSort(15, 64)}[n]

class Loop:
    def __init__(s, h, b): s.header, s.blocks = h, b

class Obligation:
    __slots__ = ('root', 'kind', 'where', 'status', 'info', 'time', 'goal')
    def __init__(s, root, kind, where, status, info, t, goal):
        s.root, s.kind, s.where, s.status, s.info, s.time, s.goal = root, kind, where, status, info, t, goal

class View:
    """what an invariant candidate may talk about: loop variables + memory at a loop head"""
    def __init__(s, E, st, names, vals, it, st0):
        s.E, s.st, s.names, s.vals, s.it, s.st0 = E, st, names, vals, it, st0
    def v(s, n): return s.vals[s.names.index(n)]

class Engine:
    named = False
    def __init__(self, mod, contracts=(), timeout=20):
        self.mod = mod
        self.objn = 0
        self.contracts = list(contracts)   # (predicate(name, demangled), handler)
        self.obls = []
        self.emit = True
        self.nounroll = set()
        self.ranks = []
        self.light = False                 # invariants come from the spec's templates only (no history facts)
        self.split = False                 # explore both sides of an integer select
        self.zero_stack = False            # True: one-byte locals start as 0 (ghost state: raw storage); {size: offsets}: these bytes do
        self.root = ''
        self.timeout = timeout
        self.closed = False                # propose closed forms of arrays written by loops
        self.fpexact = False               # IEEE semantics for fp arithmetic instead of uninterpreted operations
        self.generic = True                # try the generic candidates on 'gen' variables
        self.templates = []                # spec-provided invariant templates
        self.globs = {}
        self.dem = {}
        self.ccache = {}
        self.names = {}
        self.maxpaths = 4000
        self.npaths = 0
        self.trace = False
        self.stop_on_fail = False
        self.loopsinfo = []
        self.depth = 0
        self.used_contracts = set()
        self.guard = None                  # hook on every memory access (lock discipline)
        self.mloop = None                  # monitor whose loops are cut with its invariant
        self.inlined = set()
        self.deadline = None
        self.check_gep = False
        self.itbounds = []                 # terms that may bound a loop's iteration count (candidates)

    # ------------------------------------------------------------ naming
    def fresh(self, st, name, sort):
        nm = fresh_name(name)
        if st is None or not st.its: return Const(nm, sort)
        f = z3.Function(nm, *([i.sort() for i in st.its] + [sort]))
        return f(*st.its)

    def demangle(self, n):
        return self.dem.get(n, n)

    # ------------------------------------------------------------ objects
    def new_obj(self, st, name, size, kind='heap'):
        self.objn += 1
        oid = '%s#%d' % (name, self.objn)
        m = Mem(name, S(size) if not isinstance(size, int) else bv(size), kind)
        st.mem[oid] = m; st.owned.add(oid)
        return oid

    def new_array(self, st, name, count, width=8, kind='ext', arr=None, maxcount=None):
        """external array object of `count` elements of `width` bits"""
        wb = width // 8
        size = S(count * wb) if not isinstance(count, int) else bv(count * wb)
        oid = self.new_obj(st, name, size, kind)
        if arr is None:
            arr = self.fresh(st, name, ArraySort(BV64, BitVecSort(width)))
        st.mem[oid].segs.append(Seg(0, wb, wb, arr, 'bv'))
        return oid

    def init_layout(self, st, oid, ty, base=0):
        ty = self.mod.resolve(ty)
        m = st.w(oid)
        if ty.k == 'arr':
            el = self.mod.resolve(ty.el)
            es = self.mod.size(el)
            if el.k in ('int', 'fp') and ty.n > 1:
                sort = BitVecSort(es * 8) if el.k == 'int' else fpsort(el.n)
                arr = self.fresh(st, m.name + '_a', ArraySort(BV64, sort))
                m.segs.append(Seg(base, es, es, arr, 'bv' if el.k == 'int' else 'fp', ty.n))
            elif ty.n <= 16:
                for i in range(ty.n): self.init_layout(st, oid, el, base + i * es)
        elif ty.k == 'struct':
            offs, _ = self.mod.struct_layout(ty)
            for o, e in zip(offs, ty.el): self.init_layout(st, oid, e, base + o)

    def global_obj(self, st, name):
        if name in self.mod.funcs or name in self.mod.decls:
            return FnPtr(name)
        if name in self.mod.aliases:
            return self.const(st, self.mod.aliases[name], ir.PTR)
        oid = 'g:' + name
        if oid not in st.mem:
            ty, init, const = self.mod.globals[name]
            try: size = self.mod.size(ty)
            except Exception: size = 0
            m = Mem(name, bv(size), 'global'); m.ro = const
            st.mem[oid] = m; st.owned.add(oid)
            if init is not None and (const or name.startswith('_ZGV')):
                # guard of a function-local static: seen before its initialisation (afterwards the object is the same)
                self.init_global(st, oid, ty, init, 0)
            elif init is not None:
                self.init_layout(st, oid, ty)
        return Ptr(oid, bv(0))

    def init_global(self, st, oid, ty, init, base):
        ty = self.mod.resolve(ty)
        m = st.w(oid)
        if ty.k == 'arr' and self.mod.resolve(ty.el).k == 'int':
            el = self.mod.resolve(ty.el); es = self.mod.size(el)
            if init[0] == 'bytes': vals = list(init[1])
            elif init[0] == 'zero': vals = [0] * ty.n
            elif init[0] == 'agg': vals = [v[1] if v[0] == 'int' else 0 for _, v in init[1]]
            else: return
            key = ('garr', m.name, base)
            if key in self.globs: arr = self.globs[key]
            else:
                arr = K(BV64, BitVecVal(0, es * 8))
                for i, v in enumerate(vals):
                    arr = Store(arr, bv(i), BitVecVal(v, es * 8))
                self.globs[key] = arr
            m.segs.append(Seg(base, es, es, arr, 'bv', len(vals)))
            return
        if ty.k == 'arr' and init[0] in ('agg', 'zero'):
            es = self.mod.size(ty.el)
            for i in range(ty.n):
                self.init_global(st, oid, ty.el, init[1][i][1] if init[0] == 'agg' else ('zero', ty.el), base + i * es)
            return
        if ty.k == 'struct' and init[0] in ('agg', 'zero'):
            offs, _ = self.mod.struct_layout(ty)
            for i, (o, e) in enumerate(zip(offs, ty.el)):
                self.init_global(st, oid, e, init[1][i][1] if init[0] == 'agg' else ('zero', e), base + o)
            return
        try:
            m.cells[base] = (self.mod.size(ty), self.const(st, init, ty))
        except Exception:
            pass

    # ------------------------------------------------------------ constants / operands
    def const(self, st, v, ty):
        ty = self.mod.resolve(ty)
        k = v[0]
        if k == 'int':
            if ty.k == 'int':
                if ty.n == 1: return BoolVal(bool(v[1] & 1))
                return BitVecVal(v[1], ty.n)
            if ty.k == 'fp': return FPVal(float(v[1]), fpsort(ty.n))
        if k == 'null': return NULL
        if k == 'glob': return self.global_obj(st, v[1])
        if k == 'zero':
            if ty.k == 'int': return BoolVal(False) if ty.n == 1 else BitVecVal(0, ty.n)
            if ty.k == 'ptr': return NULL
            if ty.k == 'fp': return FPVal(0.0, fpsort(ty.n))
            if ty.k == 'struct': return [self.const(st, ('zero', e), e) for e in ty.el]
            if ty.k == 'arr': return [self.const(st, ('zero', ty.el), ty.el) for _ in range(ty.n)]
        if k in ('undef', 'poison'):
            if ty.k == 'int': return self.fresh(st, 'undef', BoolSort() if ty.n == 1 else BitVecSort(ty.n))
            if ty.k == 'ptr': return NULL
            if ty.k == 'fp': return self.fresh(st, 'undef', fpsort(ty.n))
            if ty.k == 'struct': return [self.const(st, (k, e), e) for e in ty.el]
            if ty.k == 'arr': return [self.const(st, (k, ty.el), ty.el) for _ in range(ty.n)]
        if k == 'fpbits':
            # textual IR: float constants are given as double bits
            d = z3.simplify(fpBVToFP(BitVecVal(v[1], 64), Float64()))
            if ty.n == 'double': return d
            return z3.simplify(fpFPToFP(RNE(), d, fpsort(ty.n)))
        if k == 'fp':
            return FPVal(v[1], fpsort(ty.n))
        if k == 'fp80':
            sgn_exp = v[1] >> 64; frac = v[1] & ((1 << 64) - 1)
            bits = BitVecVal(((sgn_exp << 63) | (frac & ((1 << 63) - 1))), 79)
            return z3.simplify(fpBVToFP(bits, FPSort(15, 64)))
        if k == 'agg':
            return [self.const(st, x, t) for t, x in v[1]]
        if k == 'cgep':
            base = self.const(st, v[2], ir.PTR)
            return self.gep(st, v[1], base, [(t, self.const(st, x, t)) for t, x in v[3]])
        if k == 'ccast':
            x = self.const(st, v[3], v[2])
            return self.cast(st, v[1], x, v[2], v[4])
        if k == 'cbin':
            a = self.const(st, v[3], v[2]); b = self.const(st, v[4], v[2])
            return self.binop(st, v[1], a, b, v[2], (), '')
        raise Unsupported('const %r %r' % (v, ty))

    def ev(self, st, v, ty):
        if v[0] == 'loc':
            return st.regs[v[1]]
        return self.const(st, v, ty)

    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, kind, where, assume=False):
        if not isinstance(goal, bool):
            g = S(goal)
        else:
            g = BoolVal(goal)
        if self.emit:
            t = time.time()
            if z3.is_true(g): status, info = 'proved', None
            else: status, info = prove(st.facts, g, timeout=self.timeout)
            self.obls.append(Obligation(self.root, kind, where, status, info, time.time() - t, g))
            if status != 'proved' and self.trace:
                print('   FAILED', kind, where, status, str(g)[:300])
                if self.trace > 1:
                    for f in st.facts: print('      |', str(f)[:int(os.environ.get("GV_W","400"))].replace('\n', ' '))
        if assume and not z3.is_true(g): st.facts.append(g)
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')

    def oblige_any(self, st, goals, kind, where):
        """equivalent formulations of one obligation: discharged when one of them is"""
        n = len(self.obls)
        for g in goals:
            del self.obls[n:]
            self.oblige(st, g, kind, where)
            if all(o.status == 'proved' for o in self.obls[n:]): return

    def nowrap(self, fn, i):
        """may k*x be divided by k to give x?  Not when the dividend is computed by a shift or product that may wrap
        around (a truncation with sign extension is an exact shift in the normalised IR)"""
        defs = getattr(fn, '_defs', None)
        if defs is None:
            defs = fn._defs = {}
            for bl in fn.blocks.values():
                for x in bl:
                    if x.res is not None:
                        t = x.text.split('=', 1)
                        names = re.findall(r'%("[^"]*"|[-\w$.]+)', t[1] if len(t) > 1 else '')
                        defs[re.search(r'%("[^"]*"|[-\w$.]+)', t[0]).group(1)] = (x, names)
        need = 'nsw' if i.op in ('ashr', 'sdiv') else 'nuw'
        seen = set(); todo = re.findall(r'%("[^"]*"|[-\w$.]+)', i.text.split('=', 1)[1])
        while todo:
            v = todo.pop()
            if v in seen or v not in defs: continue
            seen.add(v)
            x, names = defs[v]
            if x.op in ('shl', 'mul'):
                if need not in x.x.get('flags', ()): return False
            elif x.op in ('add', 'sub', 'or', 'and', 'xor', 'phi', 'select', 'freeze', 'zext', 'sext', 'trunc', 'lshr', 'ashr', 'sdiv', 'udiv'):
                todo.extend(names)
        return True

    def valid_now(self, st, goal, timeout=5):
        """proved from the state's facts (used to resolve ambiguity, not an obligation)"""
        g = S(goal)
        if z3.is_true(g): return True
        if z3.is_false(g): return False
        return prove(st.facts, g, timeout=timeout, levels=LEVELS[:2])[0] == 'proved'

    # ------------------------------------------------------------ memory access
    def check_access(self, st, p, n, what, where):
        if isinstance(p, FnPtr): raise Unsupported('data access through function pointer')
        if self.guard is not None and p.obj is not None: self.guard(self, st, p, n, what, where)
        if p.obj is None:
            self.oblige(st, False, 'null-deref', where); raise PathEnd()
        m = st.mem[p.obj]
        if m.alive is not True:
            self.oblige(st, BoolVal(False) if m.alive is False else m.alive, 'use-after-free', where + ' ' + m.name)
            if m.alive is False: raise PathEnd()
        nn = bv(n) if isinstance(n, int) else n
        goal = And(ULE(nn, m.size), ULE(p.off, m.size - nn))
        if isinstance(n, int) and len(m.segs) == 1 and not is_val(m.size) and m.segs[0].stride > 1:
            # whole array of elements: an element index below the count is inside (no wrap-around: count*stride <= PTRDIFF_MAX)
            sg = m.segs[0]
            dv = div_exact(S(p.off - bv(sg.base)), sg.stride)
            cnt = m.ghost.get('count')
            if dv is not None and cnt is not None and sg.base == 0 and dv[1] + n <= sg.stride: goal = ULT(dv[0], cnt)
        self.oblige(st, goal, 'bounds', '%s %s of %s' % (where, what, m.name))
        return m

    def find_seg(self, st, m, off, n, p):
        """segment (and element index expr) an access of n bytes at symbolic/concrete off falls into"""
        cands = []
        for sg in m.segs:
            rel = S(off - bv(sg.base))
            dv = div_exact(rel, sg.stride)
            if dv is None: continue
            idx, r = dv
            cands.append((sg, idx, r))
        if len(cands) > 1:
            # several arrays in the object: keep the one the offset provably lies in
            sel = []
            for sg, idx, r in cands:
                if r >= sg.width: continue
                if sg.count is not None:
                    if self.valid_now(st, ULT(idx, bv(sg.count) if isinstance(sg.count, int) else sg.count)):
                        sel.append((sg, idx, r)); break
                elif r + n <= sg.width:
                    sel.append((sg, idx, r))
            cands = sel
        if not cands: return None
        return cands[0]

    def load(self, st, p, ty, where=''):
        ty = self.mod.resolve(ty)
        if ty.k == 'struct' or ty.k == 'arr':
            out = []
            if ty.k == 'struct':
                offs, _ = self.mod.struct_layout(ty)
                for o, e in zip(offs, ty.el): out.append(self.load(st, Ptr(p.obj, S(p.off + o)), e, where))
            else:
                es = self.mod.size(ty.el)
                for i in range(ty.n): out.append(self.load(st, Ptr(p.obj, S(p.off + i * es)), ty.el, where))
            return out
        n = self.mod.size(ty)
        m = self.check_access(st, p, n, 'load', where)
        off = p.off
        if is_val(off):
            o = val(off)
            c = m.cells.get(o)
            if c is not None and c[0] == n:
                return self.conv(st, c[1], ty)
            if c is None or c[0] != n:
                # inside a wider integer cell / made of narrower ones
                r = self.load_cells(st, m, o, n, ty)
                if r is not None: return r
            sg = self.find_seg_conc(m, o, n)
            if sg is None and not m.segs and not any(o < co + cn and co < o + n for co, (cn, _) in m.cells.items()):
                v = self.fresh_of(st, ty, m.name)
                st.w(p.obj).cells[o] = (n, v)
                return v
            if sg is None:
                v = self.fresh_of(st, ty, m.name)
                st.w(p.obj).cells[o] = (n, v)
                return v
        f = self.find_seg(st, m, off, n, p)
        if f is None:
            f = self.lazy_seg(st, p, off, n, ty)
            m = st.mem[p.obj]
        sg, idx, r = f
        if sg.kind == 'ptr':
            if ty.k != 'ptr': raise Unsupported('int load from pointer array')
            return Ptr(sg.count_obj if False else sg.kindobj, S(Select(sg.arr, idx)))
        if r == 0 and n == sg.width:
            return self.conv(st, S(Select(sg.arr, idx)), ty)
        if sg.kind == 'bv' and sg.width == 1 and sg.stride == 1 and ty.k == 'int':
            parts = [Select(sg.arr, idx + i) for i in range(n)]
            return self.conv(st, S(Concat(*reversed(parts))) if n > 1 else parts[0], ty)
        if sg.kind == 'bv' and ty.k == 'int' and r + n <= sg.width:
            v = S(Extract((r + n) * 8 - 1, r * 8, Select(sg.arr, idx)))
            return self.conv(st, v, ty)
        raise Unsupported('load %r at %s of %s (width %d stride %d)' % (ty, off, m.name, sg.width, sg.stride))

    def find_seg_conc(self, m, o, n):
        for sg in m.segs:
            if sg.count is None:
                if o >= sg.base: return sg
            elif not isinstance(sg.count, int):
                return sg
            elif sg.base <= o < sg.base + sg.stride * sg.count: return sg
        return None

    def load_cells(self, st, m, o, n, ty):
        for co, (cn, cv) in m.cells.items():
            if co <= o and o + n <= co + cn and z3.is_expr(cv) and (z3.is_bv(cv)):
                return self.conv(st, S(Extract((o - co + n) * 8 - 1, (o - co) * 8, cv)), ty)
        parts = []
        x = o
        while x < o + n:
            c = m.cells.get(x)
            if c is None or x + c[0] > o + n or not (z3.is_expr(c[1]) and z3.is_bv(c[1])): return None
            parts.append(c[1]); x += c[0]
        if parts:
            return self.conv(st, S(Concat(*reversed(parts))) if len(parts) > 1 else parts[0], ty)
        return None

    def fresh_of(self, st, ty, name):
        ty = self.mod.resolve(ty)
        if ty.k == 'int': return self.fresh(st, 'uninit_' + name, BoolSort() if ty.n == 1 else BitVecSort(ty.n))
        if ty.k == 'fp': return self.fresh(st, 'uninit_' + name, fpsort(ty.n))
        if ty.k == 'ptr': return NULL
        raise Unsupported('fresh of %r' % ty)

    def conv(self, st, v, ty):
        """reinterpret a stored value at the loaded type"""
        if ty.k == 'int':
            if isinstance(v, Ptr): return self.ptrtoint(st, v, ty.n)
            if z3.is_bool(v):
                return v if ty.n == 1 else S(If(v, BitVecVal(1, ty.n), BitVecVal(0, ty.n)))
            if z3.is_bv(v):
                if ty.n == 1: return S(Extract(0, 0, v) == 1)
                if v.size() == ty.n: return v
            if z3.is_fp(v): return S(fpToIEEEBV(v))
        if ty.k == 'ptr':
            if isinstance(v, (Ptr, FnPtr)): return v
            if z3.is_bv(v): return self.inttoptr(st, v)
        if ty.k == 'fp':
            if z3.is_fp(v): return v
            if z3.is_bv(v): return S(fpBVToFP(v, fpsort(ty.n)))
        raise Unsupported('conv %r to %r' % (v, ty))

    def lazy_seg(self, st, p, off, n, ty):
        """first symbolic access to an untyped object: give it an array layout of this width"""
        m = st.w(p.obj)
        d, c, _ = lin(off)
        if m.cells or m.segs:
            # existing concrete cells become array elements when they fit the same layout
            if m.segs: raise Unsupported('second layout for %s: off %s' % (m.name, off))
        if ty.k == 'int': sort, kind = BitVecSort(n * 8), 'bv'
        elif ty.k == 'fp': sort, kind = fpsort(ty.n), 'fp'
        else: raise Unsupported('symbolic pointer array ' + m.name)
        dv = div_exact(off, n)
        if dv is None or dv[1] != 0: raise Unsupported('unaligned symbolic access %s' % off)
        arr = self.fresh(st, m.name + '_a', ArraySort(BV64, sort))
        for o, (cn, cv) in sorted(m.cells.items()):
            if cn != n or o % n or not z3.is_expr(cv): raise Unsupported('mixed layout for ' + m.name)
            arr = Store(arr, bv(o // n), as_bv(cv, n * 8))
        m.cells = {}
        sg = Seg(0, n, n, arr, kind)
        m.segs.append(sg)
        return sg, dv[0], 0

    def store(self, st, p, v, ty, where=''):
        ty = self.mod.resolve(ty)
        if isinstance(v, list):
            if ty.k == 'struct':
                offs, _ = self.mod.struct_layout(ty)
                for o, e, x in zip(offs, ty.el, v): self.store(st, Ptr(p.obj, S(p.off + o)), x, e, where)
            else:
                es = self.mod.size(ty.el)
                for i, x in enumerate(v): self.store(st, Ptr(p.obj, S(p.off + i * es)), x, ty.el, where)
            return
        n = self.mod.size(ty)
        m = self.check_access(st, p, n, 'store', where)
        if m.ro: self.oblige(st, False, 'write-const', where + ' ' + m.name)
        off = p.off
        m = st.w(p.obj)
        if z3.is_expr(v) and z3.is_bool(v): v = S(If(v, BitVecVal(1, 8), BitVecVal(0, 8)))
        if is_val(off):
            o = val(off)
            if self.find_seg_conc(m, o, n) is None:
                # split / drop overlapping cells
                for co in [x for x in m.cells if x != o and x < o + n and o < x + m.cells[x][0]]:
                    cn, cv = m.cells.pop(co)
                    if not (z3.is_expr(cv) and z3.is_bv(cv)):
                        continue
                    for b in range(cn):
                        if not (o <= co + b < o + n):
                            m.cells[co + b] = (1, S(Extract(b * 8 + 7, b * 8, cv)))
                old = m.cells.get(o)
                if old is not None and old[0] > n and z3.is_expr(old[1]) and z3.is_bv(old[1]):
                    for b in range(n, old[0]):
                        m.cells[o + b] = (1, S(Extract(b * 8 + 7, b * 8, old[1])))
                m.cells[o] = (n, v)
                return
        f = self.find_seg(st, m, off, n, p)
        if f is None: f = self.lazy_seg(st, p, off, n, ty)
        sg, idx, r = f
        if isinstance(v, Ptr): raise Unsupported('pointer store into array %s' % m.name)
        if z3.is_fp(v) and sg.kind == 'bv': v = fpToIEEEBV(v)
        if r == 0 and n == sg.width:
            if z3.is_bv(v) and sg.kind == 'fp': v = fpBVToFP(v, sg.arr.sort().range())
            sg.arr = S(Store(sg.arr, idx, v)); return
        if sg.kind == 'bv' and sg.width == 1 and sg.stride == 1:
            a = sg.arr
            for i in range(n):
                a = Store(a, S(idx + i), S(Extract(i * 8 + 7, i * 8, v)))
            sg.arr = S(a); return
        if sg.kind == 'bv' and r + n <= sg.width:
            old = Select(sg.arr, idx); W = sg.width * 8
            parts = []
            if r + n < sg.width: parts.append(Extract(W - 1, (r + n) * 8, old))
            parts.append(v)
            if r: parts.append(Extract(r * 8 - 1, 0, old))
            sg.arr = S(Store(sg.arr, idx, Concat(*parts) if len(parts) > 1 else parts[0])); return
        raise Unsupported('store %r at %s of %s' % (ty, off, m.name))

    # ------------------------------------------------------------ bulk memory
    def memcpy(self, st, dst, src, n, where, move=False):
        n = S(n)
        if is_val(n) and val(n) == 0: return
        zero = z3.is_expr(n) and not is_val(n)
        if dst.obj is None or src.obj is None:
            self.oblige(st, n == 0, 'null-deref', where); st.assume(n == 0); return
        for p, w in ((src, 'memcpy-src'), (dst, 'memcpy-dst')):
            m = st.mem[p.obj]
            if m.alive is not True:
                self.oblige(st, Or(n == 0, BoolVal(False) if m.alive is False else m.alive), 'use-after-free', where)
            self.oblige(st, Or(n == 0, And(ULE(n, m.size), ULE(p.off, m.size - n))), 'bounds', '%s %s of %s' % (where, w, m.name))
        if not move and dst.obj == src.obj:
            self.oblige(st, Or(n == 0, ULE(dst.off + n, src.off), ULE(src.off + n, dst.off)), 'memcpy-overlap', where)
        ms = st.mem[src.obj]; md = st.w(dst.obj)
        if is_val(n) and is_val(dst.off) and is_val(src.off) and val(n) <= 512:
            so, do, nn = val(src.off), val(dst.off), val(n)
            if self.find_seg_conc(md, do, nn) is None and self.find_seg_conc(ms, so, nn) is None:
                new = {o - so + do: (c, v) for o, (c, v) in ms.cells.items() if so <= o and o + c <= so + nn}
                for o in [x for x in md.cells if do <= x < do + nn]: del md.cells[o]
                md.cells.update(new)
                return
        fs = self.find_seg(st, ms, src.off, 1, src)
        if fs is None and not ms.segs and not ms.cells: fs = None
        fd = self.find_seg(st, md, dst.off, 1, dst)
        if fs is None and fd is None:
            raise Unsupported('memcpy between cell objects %s %s' % (ms.name, md.name))
        if fd is None:
            if md.cells or md.segs:
                # constant-size copy of array bytes into cells
                if is_val(n) and is_val(dst.off) and val(n) <= 64:
                    sg = fs[0]
                    for i in range(val(n) // sg.width):
                        md.cells[val(dst.off) + i * sg.width] = (sg.width, S(Select(sg.arr, fs[1] + i)))
                    return
                raise Unsupported('memcpy into cells of ' + md.name)
            sg = fs[0]
            arr = self.fresh(st, md.name + '_a', sg.arr.sort())
            ns = Seg(0, sg.stride, sg.width, arr, sg.kind)
            md.segs.append(ns)
            fd = self.find_seg(st, md, dst.off, 1, dst)
        if fs is None:
            # cells into array
            if is_val(n) and is_val(src.off) and val(n) <= 512:
                sg = fd[0]; a = sg.arr
                for i in range(val(n) // sg.width):
                    v = self.load_cells(st, ms, val(src.off) + i * sg.width, sg.width, Ty('int', sg.width * 8))
                    if v is None: v = self.fresh(st, 'uninit', BitVecSort(sg.width * 8))
                    a = Store(a, S(fd[1] + i), v)
                sg.arr = S(a); return
            raise Unsupported('memcpy from cells of ' + ms.name)
        sd, di, dr = fd; ss, si, sr = fs
        if sd.stride != ss.stride or sd.width != ss.width or dr or sr or sd.kind != ss.kind or sd.stride != sd.width:
            raise Unsupported('memcpy with different layouts %s %s' % (ms.name, md.name))
        dv = div_exact(n, sd.stride)
        if dv is None or dv[1]: raise Unsupported('memcpy length %s not a multiple of %d' % (n, sd.stride))
        cnt = dv[0]
        if is_val(cnt) and val(cnt) <= 16:
            vals = [Select(ss.arr, S(si + i)) for i in range(val(cnt))]
            a = sd.arr
            for i, v in enumerate(vals): a = Store(a, S(di + i), v)
            sd.arr = S(a); return
        sd.arr = self.copy_range(st, sd.arr, di, ss.arr, si, cnt)

    def copy_range(self, st, A, ai, B, bi, n):
        """fresh array: A with [ai, ai+n) replaced by B[bi, bi+n)"""
        R = self.fresh(st, 'cpy', A.sort())
        k = BitVec(fresh_name('k'), 64)
        st.assume(ForAll([k], Select(R, k) == If(ULT(k - ai, n), Select(B, k - ai + bi), Select(A, k)), qid=fresh_name('cpy')))
        return R

    def fill_range(self, st, A, ai, n, v):
        R = self.fresh(st, 'fill', A.sort())
        k = BitVec(fresh_name('k'), 64)
        st.assume(ForAll([k], Select(R, k) == If(ULT(k - ai, n), v, Select(A, k)), qid=fresh_name('fill')))
        return R

    def memset(self, st, dst, v, n, where):
        n = S(n)
        if is_val(n) and val(n) == 0: return
        if dst.obj is None:
            self.oblige(st, n == 0, 'null-deref', where); st.assume(n == 0); return
        m = st.mem[dst.obj]
        self.oblige(st, Or(n == 0, And(ULE(n, m.size), ULE(dst.off, m.size - n))), 'bounds', where + ' memset ' + m.name)
        m = st.w(dst.obj)
        f = self.find_seg(st, m, dst.off, 1, dst)
        if f is None:
            if is_val(n) and is_val(dst.off) and val(n) <= 1024:
                o, nn = val(dst.off), val(n)
                for x in [x for x in m.cells if o <= x < o + nn]: del m.cells[x]
                if is_val(v) and val(v) == 0:
                    x = o
                    while x < o + nn:
                        k = 8 if x % 8 == 0 and x + 8 <= o + nn else 1
                        m.cells[x] = (k, bv(0, 8 * k)); x += k
                else:
                    for x in range(o, o + nn): m.cells[x] = (1, v)
                return
            arr = self.fresh(st, m.name + '_a', BYTES)
            if m.cells: raise Unsupported('memset over cells')
            m.segs.append(Seg(0, 1, 1, arr, 'bv'))
            f = self.find_seg(st, m, dst.off, 1, dst)
        sg, idx, r = f
        if r or sg.stride != sg.width or sg.kind != 'bv': raise Unsupported('memset layout')
        dv = div_exact(n, sg.stride)
        if dv is None or dv[1]: raise Unsupported('memset length')
        vv = v if sg.width == 1 else S(Concat(*[v] * sg.width))
        if is_val(dv[0]) and val(dv[0]) <= 64:
            a = sg.arr
            for i in range(val(dv[0])): a = Store(a, S(idx + i), vv)
            sg.arr = S(a)
        else:
            sg.arr = self.fill_range(st, sg.arr, idx, dv[0], vv)

    # ------------------------------------------------------------ pointers
    def base_addr(self, st, obj):
        if obj is None: return bv(0)
        b = Const('addr_' + obj, BV64)
        return b

    def ptrtoint(self, st, p, n):
        if isinstance(p, FnPtr): return Const('fn_' + p.name, BitVecSort(n))
        e = S(self.base_addr(st, p.obj) + p.off)
        if n < 64: e = S(Extract(n - 1, 0, e))
        return e

    def inttoptr(self, st, v):
        if is_val(v): return NULL if val(v) == 0 else Ptr(None, v)
        d, c, _ = lin(S(v))
        for i, (k, a) in d.items():
            if k == 1 and z3.is_const(a) and a.decl().name().startswith('addr_'):
                return Ptr(a.decl().name()[5:], S(v - a))
        raise Unsupported('inttoptr %s' % v)

    def gep(self, st, sty, base, idx):
        if isinstance(base, FnPtr): raise Unsupported('gep on function')
        off = base.off
        ty = sty
        first = True
        for ity, iv in idx:
            if isinstance(iv, tuple): raise Unsupported('gep')
            n = iv.size() if z3.is_bv(iv) else 1
            e = iv if n == 64 else (SignExt(64 - n, iv) if n < 64 else Extract(63, 0, iv))
            if first:
                off = off + e * bv(self.mod.size(ty)); first = False
            else:
                rt = self.mod.resolve(ty)
                if rt.k == 'struct':
                    i = val(S(e)); offs, _ = self.mod.struct_layout(rt)
                    off = off + bv(offs[i]); ty = rt.el[i]
                elif rt.k == 'arr':
                    off = off + e * bv(self.mod.size(rt.el)); ty = rt.el
                else: raise Unsupported('gep into %r' % rt)
        off = S(off)
        if base.obj is None and not is_val(off):
            try: return self.inttoptr(st, off)
            except Unsupported: pass
        return Ptr(base.obj, off)

    # ------------------------------------------------------------ arithmetic
    def binop(self, st, op, a, b, ty, flags, where):
        ty = self.mod.resolve(ty)
        if ty.k == 'fp' or op[0] == 'f' and op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return self.fpop(op, a, b)
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            raise Unsupported('binop on pointer')
        if z3.is_bool(a) or z3.is_bool(b):
            if op == 'and': return S(And(a, b))
            if op == 'or': return S(Or(a, b))
            if op in ('xor', 'add', 'sub'): return S(Xor(a, b))
            raise Unsupported('bool ' + op)
        if self.named and op in ('udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'shl', 'lshr', 'ashr') and not is_val(a) and a.num_args():
            a = self.nameit(st, a)
            r = self.binop1(st, op, a, b, ty, flags, where)
            return self.nameit(st, r) if z3.is_bv(r) and not is_val(r) else r
        return self.binop1(st, op, a, b, ty, flags, where)

    def binop1(self, st, op, a, b, ty, flags, where):
        n = a.size()
        if op == 'add':
            return S(a + b)
        if op == 'sub':
            return S(a - b)
        if op == 'mul':
            return S(a * b)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.oblige(st, b != 0, 'div-by-zero', where)
            if op in ('sdiv', 'srem'):
                self.oblige(st, Not(And(a == BitVecVal(1 << (n - 1), n), b == BitVecVal(-1, n))), 'signed-overflow', where)
            if op == 'udiv':
                if is_val(b):
                    dv = div_exact(a, val(b)) if 'exact' in flags else None
                    if dv is not None and dv[1] == 0: return dv[0]
                return S(UDiv(a, b))
            if op == 'sdiv':
                if 'exact' in flags and is_val(b):
                    dv = div_exact(a, val(b))
                    if dv is not None and dv[1] == 0: return dv[0]
                return S(a / b)
            if op == 'urem':
                if not is_val(b):
                    # a mod b is a or a - b whenever the context bounds a by 2b (proved, not assumed)
                    if self.valid_now(st, ULT(a, b)): return a
                    if self.valid_now(st, ULT(LShR(a, BitVecVal(1, n)), b)): return S(If(ULT(a, b), a, a - b))
                return S(URem(a, b))
            return S(SRem(a, b))
        if op in ('shl', 'lshr', 'ashr'):
            if 'exact' in flags and is_val(b):
                dv = div_exact(a, 1 << val(b))
                if dv is not None and dv[1] == 0 and n == 64: return dv[0]
            if op == 'shl':
                if is_val(b): return S(a * BitVecVal(1 << val(b), n)) if val(b) < n else BitVecVal(0, n)
                return S(a << b)
            return S(LShR(a, b)) if op == 'lshr' else S(a >> b)
        if op == 'and': return S(a & b)
        if op == 'or':
            if 'disjoint' in flags: return S(a + b)
            return S(a | b)
        if op == 'xor': return S(a ^ b)
        raise Unsupported(op)

    def fpop(self, op, a, b):
        s = a.sort()
        nm = '%s_%d' % (op, s.ebits() + s.sbits())
        if self.fpexact and not (op == 'fdiv' and self.fpexact == 'nodiv'):
            return S({'fadd': fpAdd, 'fsub': fpSub, 'fmul': fpMul, 'fdiv': fpDiv}[op](RNE(), a, b))
        f = z3.Function(nm, s, s, s)
        return f(a, b)

    def nameit(self, st, v):
        """a fresh name for a value (a definition): keeps the solver's terms small"""
        x = self.fresh(st, 'nm', v.sort()); st.assume(x == v)
        return x

    def cast(self, st, op, v, fty, tty, where=''):
        fty = self.mod.resolve(fty); tty = self.mod.resolve(tty)
        if op == 'ptrtoint': return self.ptrtoint(st, v, tty.n)
        if op == 'inttoptr': return self.inttoptr(st, v)
        if op in ('bitcast', 'addrspacecast'):
            if fty.k == tty.k: return v
            return self.conv(st, v, tty)
        if op == 'zext':
            if z3.is_bool(v): return S(If(v, BitVecVal(1, tty.n), BitVecVal(0, tty.n)))
            return S(ZeroExt(tty.n - v.size(), v))
        if op == 'sext':
            if z3.is_bool(v): return S(If(v, BitVecVal(-1, tty.n), BitVecVal(0, tty.n)))
            return S(SignExt(tty.n - v.size(), v))
        if op == 'trunc':
            if self.named and not is_val(v) and z3.is_bv(v) and v.num_args(): v = self.nameit(st, v)
            if tty.n == 1: return S(Extract(0, 0, v) == 1)
            return S(Extract(tty.n - 1, 0, v))
        if op in ('sitofp', 'uitofp'):
            if z3.is_bool(v): v = If(v, BitVecVal(1, 8), BitVecVal(0, 8))
            s = fpsort(tty.n)
            if self.fpexact: return S((fpSignedToFP if op == 'sitofp' else fpUnsignedToFP)(RNE(), v, s))
            return z3.Function('%s_%d_%d' % (op, v.size(), s.ebits() + s.sbits()), v.sort(), s)(v)
        if op in ('fptosi', 'fptoui'):
            return z3.Function('%s_%d_%d' % (op, v.sort().ebits() + v.sort().sbits(), tty.n), v.sort(), BitVecSort(tty.n))(v)
        if op in ('fpext', 'fptrunc'):
            s = fpsort(tty.n)
            return S(fpFPToFP(RNE(), v, s))
        raise Unsupported(op)

    def icmp(self, st, pred, a, b, where=''):
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
                return BoolVal(same if pred == 'eq' else not same)
            if a.obj == b.obj:
                m = st.mem.get(a.obj)
                a, b = a.off, b.off
                if m is not None and 'count' in m.ghost and m.segs[0].stride > 1 and pred in ('eq', 'ne', 'ult', 'ule', 'ugt', 'uge'):
                    # element indices instead of byte offsets, when no wrap-around is possible
                    x, y = div_exact(a, m.segs[0].stride), div_exact(b, m.segs[0].stride)
                    if x and y and x[1] == y[1]:
                        c = m.ghost['count']
                        if self.valid_now(st, And(ULE(x[0], c), ULE(y[0], c)), 3): a, b = x[0], y[0]
            elif pred in ('eq', 'ne'):
                return BoolVal(pred == 'ne')
            else:
                a, b = self.ptrtoint(st, a, 64), self.ptrtoint(st, b, 64)
        if z3.is_bool(a):
            if pred == 'eq': return S(a == b)
            if pred == 'ne': return S(Xor(a, b))
            a = If(a, BitVecVal(1, 1), BitVecVal(0, 1)); b = If(b, BitVecVal(1, 1), BitVecVal(0, 1))
        f = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: ULT(a, b), 'ule': lambda: ULE(a, b),
             'ugt': lambda: UGT(a, b), 'uge': lambda: UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
             'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]
        return S(f())

    def fcmp(self, pred, a, b):
        un = Or(fpIsNaN(a), fpIsNaN(b))
        base = {'eq': fpEQ, 'gt': fpGT, 'ge': fpGEQ, 'lt': fpLT, 'le': fpLEQ}
        if pred == 'true': return BoolVal(True)
        if pred == 'false': return BoolVal(False)
        if pred == 'uno': return S(un)
        if pred == 'ord': return S(Not(un))
        if pred == 'one': return S(And(Not(un), Not(fpEQ(a, b))))
        if pred == 'une': return S(Not(fpEQ(a, b)))
        if pred[0] == 'o': return S(base[pred[1:]](a, b))
        if pred == 'ueq': return S(Or(un, fpEQ(a, b)))
        return S(Or(un, base[pred[1:]](a, b)))

    # ------------------------------------------------------------ execution
    def call_function(self, st, name, args):
        """execute a function body; yields ('ret', st, val) / ('unwind', st, exc) / ('stop', st, why)"""
        fn = self.mod.funcs[name]
        self.inlined.add(name)
        saved = st.regs
        st = st.fork()
        st.regs = {}
        for (pty, pname, pattr), a in zip(fn.params, args):
            if isinstance(a, Ptr) and 'byval' in (pattr or {}):
                pass
            st.regs[pname] = a
        self.depth += 1
        if self.depth > 40: raise Unsupported('call depth')
        try:
            for o in self.region(st, fn, fn.order[0], None, None):
                if o[0] == 'ret':
                    o[1].regs = dict(saved)
                    yield o
                elif o[0] == 'unwind':
                    o[1].regs = dict(saved)
                    yield o
                elif o[0] == 'stop': yield o
                else: raise Unsupported('outcome ' + o[0])
        finally:
            self.depth -= 1

    def cfg(self, fn):
        c = ir.cfg(fn)
        if not hasattr(c, 'L'):
            if c.irreducible: raise Unsupported('irreducible control flow in ' + fn.name)
            c.L = {h: Loop(h, b) for h, b in c.loops.items()}
        return c

    def region(self, st, fn, block, prev, loop):
        """execute from block; inside `loop` stop at its back edge / on leaving it"""
        an = self.cfg(fn)
        work = [(st, block, prev, 0)]
        first = True
        while work:
            st, b, prev, idx = work.pop()
            if idx == 0:
                if loop is not None and not first:
                    if b == loop.header: yield ('back', st, prev); continue
                    if b not in loop.blocks: yield ('leave', st, b, prev); continue
                L = an.L.get(b)
                if L is not None and L is not loop:
                    if self.mloop is not None and self.mloop.applies(self, st, fn, L): un = self.monitor_loop(st, fn, L, prev)
                    else: un = self.unroll(st, fn, L, prev)
                    for o in (un if un is not None else self.do_loop(st, fn, L, prev)):
                        if o[0] == 'leave': work.append((o[1], o[2], o[3], 0))
                        else: yield o
                    first = False
                    continue
            entering = first and loop is not None
            first = False
            self.npaths += 1
            if self.npaths > self.maxpaths: raise Unsupported('too many paths')
            try:
                for o in self.block(st, fn, b, prev, idx, skip_phis=entering):
                    if o[0] == 'goto': work.append((o[1], o[2], o[3], 0))
                    elif o[0] == 'resume': work.append((o[1], b, prev, o[2]))
                    else: yield o
            except PathEnd:
                pass

    def branch(self, st, cond):
        """list of (state, truth)"""
        c = S(cond)
        if z3.is_true(c): return [(st, True)]
        if z3.is_false(c): return [(st, False)]
        out = []
        s2 = st.fork(); s2.facts.append(S(Not(c)))
        st.facts.append(c)
        if feasible(st.facts): out.append((st, True))
        if feasible(s2.facts): out.append((s2, False))
        return out

    def block(self, st, fn, b, prev, idx, skip_phis=False):
        ins = fn.blocks[b]
        if idx == 0 and not skip_phis:
            new = {}
            for i in ins:
                if i.op != 'phi': break
                new[i.res] = self.phi_val(st, i, prev)
            st.regs.update(new)
        j = idx
        if idx == 0:
            while j < len(ins) and ins[j].op == 'phi': j += 1
        n = len(ins)
        while j < n:
            i = ins[j]
            op = i.op
            where = '%s:%s' % (self.short(fn.name), b)
            if op in ir.BIN:
                a = self.ev(st, i.ops[0], i.ty); c = self.ev(st, i.ops[1], i.ty)
                fl = i.x.get('flags', ())
                if 'exact' in fl and not self.nowrap(fn, i): fl = tuple(x for x in fl if x != 'exact')
                st.regs[i.res] = self.binop(st, op, a, c, i.ty, fl, where)
            elif op == 'fneg':
                a = self.ev(st, i.ops[0], i.ty); st.regs[i.res] = S(fpNeg(a))
            elif op == 'icmp':
                st.regs[i.res] = self.icmp(st, i.x['pred'], self.ev(st, i.ops[0], i.x['oty']), self.ev(st, i.ops[1], i.x['oty']), where)
            elif op == 'fcmp':
                st.regs[i.res] = self.fcmp(i.x['pred'], self.ev(st, i.ops[0], i.x['oty']), self.ev(st, i.ops[1], i.x['oty']))
            elif op in ir.CAST:
                st.regs[i.res] = self.cast(st, op, self.ev(st, i.ops[0], i.x['fty']), i.x['fty'], i.ty, where)
            elif op == 'getelementptr':
                base = self.ev(st, i.ops[0], ir.PTR)
                st.regs[i.res] = self.gep(st, i.x['sty'], base, [(t, self.ev(st, v, t)) for t, v in i.x['idx']])
            elif op == 'load':
                p = self.ev(st, i.ops[0], ir.PTR)
                st.regs[i.res] = self.load(st, p, i.ty, where)
            elif op == 'store':
                v = self.ev(st, i.ops[0], i.ty); p = self.ev(st, i.ops[1], ir.PTR)
                self.store(st, p, v, i.ty, where)
            elif op == 'alloca':
                ty = i.x['aty']
                oid = self.new_obj(st, i.res, self.mod.size(ty), 'stack')
                self.init_layout(st, oid, ty)
                if self.zero_stack:
                    for k in ({1: (0,)} if self.zero_stack is True else self.zero_stack).get(self.mod.size(ty), ()):
                        if not any(q.base <= k < q.base + q.stride * (q.count or 1 << 40) for q in st.mem[oid].segs): st.mem[oid].cells[k] = (1, bv(0, 8))
                st.regs[i.res] = Ptr(oid, bv(0))
            elif op == 'select':
                c = self.ev(st, i.ops[0], i.x['cty']); x = self.ev(st, i.ops[1], i.ty); y = self.ev(st, i.ops[2], i.ty)
                r = self.sel(c, x, y)
                if self.split and z3.is_expr(x) and z3.is_bv(x) and not z3.is_true(c) and not z3.is_false(c): r = None
                if r is None:
                    for s2, t in self.branch(st, c):
                        s2.regs[i.res] = x if t else y
                        yield ('resume', s2, j + 1)
                    return
                st.regs[i.res] = r
            elif op == 'freeze':
                st.regs[i.res] = self.ev(st, i.ops[0], i.ty)
            elif op == 'extractvalue':
                v = self.ev(st, i.ops[0], i.x['aty'])
                for k in i.x['idx']: v = v[k]
                st.regs[i.res] = v
            elif op == 'insertvalue':
                v = self.ev(st, i.ops[0], i.ty); x = self.ev(st, i.ops[1], i.x['ety'])
                def ins_(v, idxs):
                    v = list(v)
                    v[idxs[0]] = x if len(idxs) == 1 else ins_(v[idxs[0]], idxs[1:])
                    return v
                st.regs[i.res] = ins_(v, i.x['idx'])
            elif op == 'br':
                yield ('goto', st, i.x['tgt'], b); return
            elif op == 'condbr':
                c = self.ev(st, i.ops[0], ir.I1)
                for s2, t in self.branch(st, c):
                    yield ('goto', s2, i.x['t'] if t else i.x['f'], b)
                return
            elif op == 'switch':
                v = self.ev(st, i.ops[0], i.ty)
                rest = st
                for cv, lab in i.x['cases']:
                    cc = (v if cv & 1 else Not(v)) if z3.is_bool(v) else v == BitVecVal(cv, v.size())
                    br = self.branch(rest, cc)
                    rest = None
                    for s2, t in br:
                        if t: yield ('goto', s2, lab, b)
                        else: rest = s2
                    if rest is None: break
                if rest is not None: yield ('goto', rest, i.x['default'], b)
                return
            elif op == 'ret':
                yield ('ret', st, self.ev(st, i.ops[0], i.ty) if i.ops else None); return
            elif op == 'unreachable':
                self.oblige(st, False, 'unreachable-reached', where)
                return
            elif op in ('call', 'invoke'):
                handled = False
                for o in self.call(st, fn, i, where):
                    if o[0] == 'ret':
                        s2 = o[1]
                        if i.res is not None: s2.regs[i.res] = o[2]
                        if op == 'invoke': yield ('goto', s2, i.x['normal'], b)
                        else: yield ('resume', s2, j + 1)
                    elif o[0] == 'unwind':
                        s2 = o[1]; s2.exc = o[2]
                        if op == 'invoke': yield ('goto', s2, i.x['unwind'], b)
                        else: yield ('unwind', s2, o[2])
                    else: yield o
                return
            elif op == 'landingpad':
                st.regs[i.res] = [Ptr('exc', bv(0)), self.selector(st, i)]
                if 'exc' not in st.mem: st.mem['exc'] = Mem('exc', bv(64), 'heap')
                # an exception no clause matches does not stop here unless there is a cleanup
                if st.regs[i.res][1] is None:
                    yield ('unwind', st, st.exc); return
            elif op == 'resume':
                yield ('unwind', st, st.exc); return
            elif op == 'fence':
                pass
            else:
                raise Unsupported('instruction ' + i.text.strip()[:120])
            j += 1
        raise Unsupported('fell off block')

    def sel(self, c, x, y):
        c = S(c)
        if z3.is_true(c): return x
        if z3.is_false(c): return y
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.obj == y.obj: return Ptr(x.obj, S(If(c, x.off, y.off)))
            return None
        if z3.is_expr(x) and z3.is_expr(y): return S(If(c, x, y))
        return None

    def phi_val(self, st, i, prev):
        if prev in i.x['inc']: return self.ev(st, i.x['inc'][prev], i.ty)
        raise Unsupported('phi without predecessor %s in %s' % (prev, i.text))

    def short(self, n):
        d = self.demangle(n)
        return d if len(d) < 80 else d[:77] + '...'

    SUBCLASS = {
        '_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'],
        '_ZTISt16invalid_argument': ['_ZTISt11logic_error', '_ZTISt9exception'],
        '_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
        '_ZTISt11logic_error': ['_ZTISt9exception'],
        '_ZTISt13runtime_error': ['_ZTISt9exception'],
        '_ZTISt9bad_alloc': ['_ZTISt9exception'],
        '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc', '_ZTISt9exception'],
    }
    def selector(self, st, i):
        t = st.exc.tinfo if st.exc else None
        for cl in i.x.get('clauses', ()):
            if cl[0] == 'catch':
                v = cl[1]
                if v[0] == 'null': return BitVecVal(1, 32)
                if v[0] == 'glob' and (v[1] == t or v[1] in self.SUBCLASS.get(t, ())): return self.typeid(v[1])
        if i.x.get('cleanup'): return BitVecVal(0, 32)
        return None

    def typeid(self, name):
        self.names.setdefault(name, 100 + len(self.names))
        return BitVecVal(self.names[name], 32)

    # ------------------------------------------------------------ calls
    def call(self, st, fn, i, where):
        cal = i.x['callee']
        if cal[0] == 'asm': raise Unsupported('inline asm')
        if cal[0] == 'loc':
            f = st.regs[cal[1]]
            if not isinstance(f, FnPtr): raise Unsupported('indirect call')
            name = f.name
        elif cal[0] == 'glob':
            name = cal[1]
            while name in self.mod.aliases: name = self.mod.aliases[name][1]
        else: raise Unsupported('callee %r' % (cal,))
        if name.startswith('llvm.dbg') or name.startswith('llvm.experimental.noalias'):
            yield ('ret', st, None); return
        args = [self.ev(st, a[1], a[0]) if a[0].k != 'metadata' else None for a in i.x['args']]
        if name.startswith('llvm.'):
            r = self.intrinsic(st, name, args, i, where)
            if isinstance(r, tuple) and r and r[0] == 'fork':
                for s2, v in r[1]: yield ('ret', s2, v)
            else: yield ('ret', st, r)
            return
        h = self.find_contract(name)
        if h is not None:
            self.used_contracts.add(self.demangle(name))
            for o in h(self, st, args, i, where): yield o
            return
        if name in self.mod.funcs:
            for o in self.call_function(st, name, args): yield o
            return
        raise Unsupported('no contract for %s' % self.demangle(name))

    def find_contract(self, name):
        if name in self.ccache: return self.ccache[name]
        d = self.demangle(name)
        h = None
        for pat, hd in self.contracts:
            if (pat(name, d) if callable(pat) else re.fullmatch(pat, d)):
                h = hd; break
        self.ccache[name] = h
        return h

    def intrinsic(self, st, name, a, i, where):
        def has(p): return name.startswith('llvm.' + p)
        if has('lifetime') or has('assume') or has('stacksave') or has('stackrestore') or has('prefetch') or has('invariant'):
            if has('assume'): pass
            return None
        if has('memcpy'): return self.memcpy(st, a[0], a[1], self.z64(a[2]), where)
        if has('memmove'): return self.memcpy(st, a[0], a[1], self.z64(a[2]), where, move=True)
        if has('memset'): return self.memset(st, a[0], a[1], self.z64(a[2]), where)
        if has('umin'): return S(If(ULT(a[0], a[1]), a[0], a[1]))
        if has('umax'): return S(If(ULT(a[0], a[1]), a[1], a[0]))
        if has('smin'): return S(If(a[0] < a[1], a[0], a[1]))
        if has('smax'): return S(If(a[0] < a[1], a[1], a[0]))
        if has('abs.'):
            n = a[0].size()
            return S(If(a[0] < 0, -a[0], a[0]))
        if has('usub.sat'): return S(If(ULT(a[0], a[1]), BitVecVal(0, a[0].size()), a[0] - a[1]))
        if has('uadd.sat'):
            n = a[0].size(); return S(If(ULT(a[0] + a[1], a[0]), BitVecVal(-1, n), a[0] + a[1]))
        if has('umul.with.overflow'):
            n = a[0].size(); x, y = (a[1], a[0]) if is_val(a[0]) else (a[0], a[1])
            if is_val(y) and val(y): return [S(x * y), S(UGT(x, BitVecVal(((1 << n) - 1) // val(y), n)))]
            return [S(x * y), S(Not(BVMulNoOverflow(x, y, False)))]
        if has('smul.with.overflow'):
            n = a[0].size(); x, y = (a[1], a[0]) if is_val(a[0]) else (a[0], a[1])
            if is_val(y) and 0 < signed(val(y), n):
                d = signed(val(y), n); mx = ((1 << (n - 1)) - 1) // d; mn = -((1 << (n - 1)) // d)
                return [S(x * y), S(Or(x > BitVecVal(mx, n), x < BitVecVal(mn, n)))]
            return [S(x * y), S(Not(And(BVMulNoOverflow(x, y, True), BVMulNoUnderflow(x, y))))]
        if has('uadd.with.overflow'):
            return [S(a[0] + a[1]), S(ULT(a[0] + a[1], a[0]))]
        if has('sadd.with.overflow'):
            n = a[0].size(); mx = BitVecVal((1 << (n - 1)) - 1, n); mn = BitVecVal(1 << (n - 1), n)
            return [S(a[0] + a[1]), S(If(a[1] >= 0, a[0] > mx - a[1], a[0] < mn - a[1]))]
        if has('usub.with.overflow'):
            return [S(a[0] - a[1]), S(ULT(a[0], a[1]))]
        if has('ssub.with.overflow'):
            n = a[0].size(); mx = BitVecVal((1 << (n - 1)) - 1, n); mn = BitVecVal(1 << (n - 1), n)
            return [S(a[0] - a[1]), S(If(a[1] >= 0, a[0] < mn + a[1], a[0] > mx + a[1]))]
        if has('fshl') or has('fshr'):
            n = a[0].size(); c = URem(a[2], BitVecVal(n, n)); x = Concat(a[0], a[1]); c2 = ZeroExt(n, c)
            if has('fshl'): return S(Extract(2 * n - 1, n, x << c2))
            return S(Extract(n - 1, 0, LShR(x, c2)))
        if has('ctpop'):
            n = a[0].size()
            return S(sum([ZeroExt(n - 1, Extract(k, k, a[0])) for k in range(n)], BitVecVal(0, n)))
        if has('bswap'):
            n = a[0].size() // 8
            return S(Concat(*[Extract(k * 8 + 7, k * 8, a[0]) for k in range(n)]))
        if has('expect'): return a[0]
        if has('eh.typeid.for'):
            v = i.x['args'][0][1]
            return self.typeid(v[1])
        if has('is.constant'): return BoolVal(False)
        if has('objectsize'): return self.fresh(st, 'objsize', BV64)
        if has('fabs'): return S(fpAbs(a[0]))
        if has('ubsantrap'):
            self.oblige(st, False, {0: 'signed-overflow', 3: 'div-overflow', 12: 'signed-overflow', 13: 'signed-overflow',
                                    20: 'shift-range', 21: 'signed-overflow'}.get(val(a[0]), 'ub-trap'), where); raise PathEnd()
        if has('trap'):
            self.oblige(st, False, 'trap', where); raise PathEnd()
        if has('fmuladd'): return self.fpop('fadd', self.fpop('fmul', a[0], a[1]), a[2])
        if has('is.fpclass'):
            m = val(a[1]); x = a[0]
            tests = [fpIsNaN(x), fpIsNaN(x), And(fpIsInf(x), fpIsNegative(x)), And(fpIsNormal(x), fpIsNegative(x)),
                     And(fpIsSubnormal(x), fpIsNegative(x)), And(fpIsZero(x), fpIsNegative(x)), And(fpIsZero(x), fpIsPositive(x)),
                     And(fpIsSubnormal(x), fpIsPositive(x)), And(fpIsNormal(x), fpIsPositive(x)), And(fpIsInf(x), fpIsPositive(x))]
            return S(Or(*[t for k, t in enumerate(tests) if m >> k & 1]))
        if has('sqrt') or has('pow') or has('floor') or has('ceil') or has('round') or has('trunc.') or has('log') or has('exp'):
            s = a[0].sort()
            return z3.Function(name.replace('.', '_'), *([s] * (len(a) + 1)))(*a)
        raise Unsupported('intrinsic ' + name)

    def z64(self, v):
        return v if v.size() == 64 else S(ZeroExt(64 - v.size(), v))

    # ------------------------------------------------------------ loops
    def locs(self, st):
        """all scalar/array locations of the state's memory: key -> value"""
        out = {}
        for oid, m in st.mem.items():
            out[('alive', oid)] = m.alive
            out[('size', oid)] = m.size
            for o, (n, v) in m.cells.items(): out[('cell', oid, o, n)] = v
            for k, sg in enumerate(m.segs): out[('seg', oid, k)] = sg.arr
            for k, v in m.ghost.items(): out[('ghost', oid, k)] = v
        for k, v in st.g.items(): out[('g', k)] = v
        return out

    def setloc(self, st, key, v):
        if key[0] == 'g': st.g[key[1]] = v; return
        m = st.w(key[1])
        if key[0] == 'alive': m.alive = v
        elif key[0] == 'size': m.size = v
        elif key[0] == 'cell': m.cells[key[2]] = (key[3], v)
        elif key[0] == 'seg': m.segs[key[2]].arr = v
        else: m.ghost[key[2]] = v

    @staticmethod
    def same(a, b):
        if a is b: return True
        if isinstance(a, Ptr) and isinstance(b, Ptr): return a.obj == b.obj and a.off.eq(b.off)
        if isinstance(a, FnPtr) and isinstance(b, FnPtr): return a.name == b.name
        if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(Engine.same(x, y) for x, y in zip(a, b))
        try: return a == b
        except Exception: return False

    def unroll(self, st, fn, L, prev):
        """a loop whose exit decisions are all constants is executed exactly; None if it is not such a loop"""
        phis = [i for i in fn.blocks[L.header] if i.op == 'phi']
        np0, emit0, nl = self.npaths, self.emit, len(self.loopsinfo)
        def ent(s, prev):
            s = s.fork()
            vals = [(i.res, self.phi_val(s, i, prev)) for i in phis]
            for n, v in vals: s.regs[n] = v
            return s
        key = (fn.name, L.header)
        if key in self.nounroll: return None
        self.emit = False
        res = None
        try:
            for run in (0, 1):
                self.emit = emit0 if run else False
                if run: self.npaths = np0
                cur = [ent(st, prev)]; res = []
                for n in range(80):
                    nxt = []
                    for s in cur:
                        bk, lv = [], []
                        for o in self.region(s, fn, L.header, None, L):
                            (bk if o[0] == 'back' else lv).append(o)
                            if not run and bk and any(x[0] == 'leave' for x in lv): raise NotApplicable()
                        res.extend(lv)
                        nxt.extend(ent(o[1], o[2]) for o in bk)
                    if len(nxt) > 24: raise NotApplicable()
                    cur = nxt
                    if not cur: break
                else: raise NotApplicable()
        except (NotApplicable, Unsupported):
            res = None
            if run: raise
            self.nounroll.add(key)
        finally:
            self.emit = emit0; self.npaths = np0 if res is None else self.npaths
            if res is None: del self.loopsinfo[nl:]
        return res

    def monitor_loop(self, st, fn, L, prev):
        """loop that acquires or waits for the monitor: cut with the monitor invariant (the shared state is arbitrary
        under the invariant at the head; locals changed by the body are unknown there)"""
        M = self.mloop
        phis = [i for i in fn.blocks[L.header] if i.op == 'phi']
        entry = {i.res: self.phi_val(st, i, prev) for i in phis}
        lname = '%s:%s' % (self.short(fn.name), L.header)
        unk, genphi = {}, set()
        def unknown(s, v):
            if z3.is_expr(v): return self.fresh(s, 'unk', v.sort())
            return POISON
        def cut():
            s = st.fork()
            for n, v in entry.items(): s.regs[n] = unknown(s, v) if n in genphi else v
            for k, v in unk.items():
                if k[1] in s.mem: self.setloc(s, k, unknown(s, v))
            M.at_loop(self, s, lname)
            return s
        emit0, np0 = self.emit, self.npaths
        self.emit = False
        try:
            for attempt in range(20):
                s = cut(); cl = self.locs(s); changed = False
                for o in list(self.region(s, fn, L.header, None, L)):
                    if o[0] != 'back': continue
                    for i in phis:
                        if i.res not in genphi and not self.same(self.phi_val(o[1], i, o[2]), entry[i.res]): genphi.add(i.res); changed = True
                    for k, v in self.locs(o[1]).items():
                        if k[0] == 'g' or k[1] not in st.mem or M.shared(k[1]) or k in unk: continue
                        if k not in cl or not self.same(v, cl[k]):
                            if k[0] == 'seg' and k not in cl: raise Unsupported('new array in monitor loop')
                            unk[k] = v; changed = True
                    for k in cl:
                        if k[0] == 'cell' and k not in unk and not M.shared(k[1]) and k[1] in o[1].mem and k not in self.locs(o[1]):
                            unk[k] = cl[k]; changed = True
                if not changed: break
            else: raise Unsupported('monitor loop fixpoint')
        finally:
            self.emit = emit0
        self.npaths = np0
        M.check_loop(self, st.fork(), lname + ' on entry')
        self.loopsinfo.append((lname, ['monitor invariant']))
        res = []
        for o in self.region(cut(), fn, L.header, None, L):
            if o[0] == 'back': M.check_loop(self, o[1], lname)
            else: res.append(o)
        return res

    def do_loop(self, st, fn, L, prev, forced=None):
        phis = [i for i in fn.blocks[L.header] if i.op == 'phi']
        entry = {i.res: self.phi_val(st, i, prev) for i in phis}
        lname = '%s:%s' % (self.short(fn.name), L.header)
        it = self.fresh(st, 'it', BV64)
        st0 = st
        names = [i.res for i in phis]
        cls = {n: ('const',) for n in names}     # per phi
        forced = forced or {}                    # phis proved to be linear in the iteration counter
        cls.update(forced)
        mcls = {}                                # per memory location
        emit0 = self.emit
        np0 = self.npaths
        self.emit = False
        gens = {}

        def genval(key, v0):
            """function of the iteration counter for a generic location"""
            if key not in gens:
                nm = fresh_name('v_' + (key if isinstance(key, str) else '_'.join(map(str, key))))
                sort = v0.off.sort() if isinstance(v0, Ptr) else v0.sort()
                gens[key] = z3.Function(nm, *([i.sort() for i in st0.its] + [BV64, sort]))
            return gens[key]
        unscaled = set()
        def scale(key, v0):
            """stride of the array a generic pointer moves over (its offset is that multiple of a fresh
            index function, checked at every back edge in bump), 0 if it is treated as a byte offset"""
            if key in unscaled or v0.obj not in st0.mem: return 0
            ss = {g.stride for g in st0.mem[v0.obj].segs}
            if len(ss) != 1: return 0
            w = ss.pop(); b = min(g.base for g in st0.mem[v0.obj].segs)
            if w < 2 or b: return 0
            d = div_exact(v0.off, w)
            return w if d is not None and d[1] == 0 else 0
        def at(key, c, v0, itv):
            if c[0] == 'const': return v0
            if isinstance(v0, Ptr):
                if c[0] == 'gen' and scale(key, v0):
                    w = scale(key, v0)
                    return Ptr(v0.obj, S(genval(key, v0.off)(*(list(st0.its) + [itv])) * w))
                return Ptr(v0.obj, at(key, c, v0.off, itv))
            if c[0] == 'lin':
                n = v0.size()
                t = itv if n == 64 else (Extract(n - 1, 0, itv) if n < 64 else ZeroExt(n - 64, itv))
                return S(v0 + BitVecVal(c[1], n) * t)
            return genval(key, v0)(*(list(st0.its) + [itv]))
        def cut(itv, extra=()):
            s = st0.fork()
            s.its = st0.its + (it,)
            for n in names: s.regs[n] = at(n, cls[n], entry[n], itv)
            for k, c in mcls.items():
                self.setloc(s, k, at(k, c, m0[k], itv))
            return s
        m0 = self.locs(st0)
        backs = []
        try:
            for attempt in range(40):
                s = cut(it)
                cutlocs = self.locs(s)
                nf = len(s.facts)
                # base facts
                base = self.loop_base(st0, entry, names, cls, mcls, m0, gens, it, scale)
                s.facts.extend(base)
                nf = len(s.facts)
                backs = []
                for o in self.region(s, fn, L.header, None, L):
                    if o[0] == 'back': backs.append(o)
                changed = False
                vcuts = {n: at(n, cls[n], entry[n], it) for n in names}
                for o in backs:
                    bs, bprev = o[1], o[2]
                    for i in phis:
                        v1 = self.phi_val(bs, i, bprev)
                        if i.res in forced: continue
                        if self.bump(cls, i.res, entry[i.res], vcuts[i.res], v1, at, it, scale, unscaled, bs):
                            changed = True
                    bl = self.locs(bs)
                    for k in cutlocs:
                        if k not in bl and k[0] == 'cell' and k in m0 and k[1] in bs.mem and not bs.mem[k[1]].segs:
                            # destroyed in the loop: no longer known at its head
                            st0.w(k[1]).cells.pop(k[2], None); m0 = self.locs(st0); mcls.pop(k, None); changed = True
                    for k, v in bl.items():
                        if k not in cutlocs:
                            if k[0] == 'ghost' or k[0] == 'g':
                                raise Unsupported('new ghost in loop %s' % (k,))
                            if k[1] in st0.mem and k[0] in ('cell', 'seg'):
                                # location first touched in the loop: materialise before the loop
                                if k[0] == 'cell':
                                    self.materialise(st0, k, v); m0 = self.locs(st0); changed = True
                                else:
                                    sg = bs.mem[k[1]].segs[k[2]]
                                    mm = st0.w(k[1])
                                    if len(mm.segs) == k[2]:
                                        arr = self.fresh(st0, mm.name + '_a', sg.arr.sort())
                                        for co, (cn, cv) in sorted(mm.cells.items()):
                                            if cn != sg.width or co % sg.stride or not z3.is_expr(cv): raise Unsupported('mixed layout')
                                            arr = Store(arr, bv(co // sg.stride), cv)
                                        mm.cells = {}
                                        mm.segs.append(Seg(sg.base, sg.stride, sg.width, arr, sg.kind, sg.count))
                                    m0 = self.locs(st0); changed = True
                            continue
                        if not self.same(v, cutlocs[k]):
                            if k not in m0: continue
                            if k not in mcls: mcls[k] = ('const',)
                            if self.bump(mcls, k, m0[k], cutlocs[k], v, at, it, scale, unscaled, bs): changed = True
                if not changed: break
            else:
                raise Unsupported('loop fixpoint not reached ' + lname)
            # history facts
            k = BitVec(fresh_name('k'), 64)
            alts = []
            for o in backs:
                bs, bprev = o[1], o[2]
                conj = list(bs.facts[nf:])
                for i in phis:
                    if cls[i.res][0] == 'gen':
                        v1 = self.phi_val(bs, i, bprev)
                        cur = at(i.res, cls[i.res], entry[i.res], S(it + 1))
                        conj.append(self.eqv(cur, v1))
                bl = self.locs(bs)
                for kk, c in mcls.items():
                    if c[0] == 'gen':
                        conj.append(self.eqv(at(kk, c, m0[kk], S(it + 1)), bl[kk]))
                alts.append(And(*conj) if conj else BoolVal(True))
            hist = None
            if alts and not self.light:
                body = S(Or(*alts)) if len(alts) > 1 else S(alts[0])
                anch = []
                for n in names:
                    v0 = entry[n]; v0 = v0.off if isinstance(v0, Ptr) else v0
                    if cls[n][0] == 'lin' and v0.size() == 64:
                        anch.append(ANCH(at(n, cls[n], v0, it)))
                if anch: body = And(body, *anch)
                qid = fresh_name('hist')
                QHINT[qid] = [S(it - 1), bv(0)]
                hist = ForAll([k], Implies(ULT(k, it), substitute(body, (it, k))), qid=qid)
            # candidate invariants (Houdini)
            cands = self.candidates(st0, fn, L, names, entry, cls, mcls, m0, it, backs)
            if not self.light: cands += self.array_candidates(st0, cls, mcls, m0, it, at, backs)
            if self.closed: cands += self.closed_forms(st0, cls, mcls, m0, it, at, backs)
            def view(s, itv, prevb=None, vals=None):
                return View(self, s, names, vals, itv, st0)
            kept = []
            if cands:
                ev = View(self, st0, names, [entry[n] for n in names], bv(0), st0)
                b0 = st0.facts + self.loop_base(st0, entry, names, cls, mcls, m0, gens, it, scale)
                for nm, cf in cands:
                    try: f0 = cf(ev)
                    except NotApplicable: continue
                    if f0 is None: continue
                    if prove(b0, f0, timeout=4, levels=LEVELS[:2])[0] == 'proved':
                        kept.append((nm, cf))
                # inductiveness
                while kept:
                    s = cut(it)
                    s.facts.extend(self.loop_base(st0, entry, names, cls, mcls, m0, gens, it, scale))
                    if hist is not None: s.facts.append(hist)
                    cv = View(self, s, names, [s.regs[n] for n in names], it, st0)
                    inv = []
                    for nm, cf in kept: inv.append(cf(cv))
                    s.facts.extend(inv)
                    drop = set()
                    pend = []
                    for o in self.region(s, fn, L.header, None, L):
                        if o[0] == 'back': pend.append(o)
                    for o in pend:
                        bs, bprev = o[1], o[2]
                        vals = [self.phi_val(bs, i, bprev) for i in phis]
                        bvw = View(self, bs, names, vals, S(it + 1), st0)
                        bl = self.locs(bs)
                        for i, v1 in zip(phis, vals):
                            if cls[i.res][0] == 'gen': bs.facts.append(S(self.eqv(at(i.res, cls[i.res], entry[i.res], S(it + 1)), v1)))
                        for kk, c in mcls.items():
                            if c[0] == 'gen': bs.facts.append(S(self.eqv(at(kk, c, m0[kk], S(it + 1)), bl[kk])))
                        for x, (nm, cf) in enumerate(kept):
                            if x in drop: continue
                            g = cf(bvw)
                            r = prove(bs.facts, g, timeout=12) if getattr(cf, 'hard', False) else prove(bs.facts, g, timeout=6, levels=LEVELS[:2])
                            if r[0] != 'proved':
                                drop.add(x)
                                if self.trace > 1: print('   drop', nm, r[0], str(g)[:200])
                    if not drop: break
                    kept = [c for x, c in enumerate(kept) if x not in drop]
        finally:
            self.emit = emit0
        self.npaths = np0
        seen1 = set(); uniq = []
        for nm, cf in kept:
            one = getattr(cf, 'one', None)
            if one is not None and one in seen1: continue     # equivalent forms of one fact
            seen1.add(one); uniq.append((nm, cf))
        kept = uniq
        new = dict(forced)
        for nm, cf in kept:
            lin_ = getattr(cf, 'lin', None)
            if lin_ and lin_[0] not in new: new[lin_[0]] = ('lin', lin_[1])
        if len(new) > len(forced):
            for o in self.do_loop(st0, fn, L, prev, new): yield o
            return
        if hist is not None:
            hk = []
            for nm, cf in kept:
                if getattr(cf, 'hist', False):
                    s = cut(it)
                    hk.append(S(cf(View(self, s, names, [s.regs[n] for n in names], it, st0))))
            if hk:
                hist = ForAll([k], Implies(ULT(k, it), substitute(And(body, *hk), (it, k))), qid=qid)
        # final pass
        s = cut(it)
        s.facts.extend(self.loop_base(st0, entry, names, cls, mcls, m0, gens, it, scale))
        if hist is not None: s.facts.append(hist)
        cv = View(self, s, names, [s.regs[n] for n in names], it, st0)
        for nm, cf in kept: s.facts.append(S(cf(cv)))
        if self.trace:
            print('  loop', lname, {n: (cls[n], str(entry[n])[:60]) for n in names}, {str(k): c for k, c in mcls.items() if c[0] != 'const'}, 'inv', [n for n, _ in kept], 'backs', len(backs))
        self.loopsinfo.append((lname, [n for n, _ in kept]))
        finals = []
        s0 = s.fork()
        for o in self.region(s, fn, L.header, None, L):
            if o[0] == 'back': finals.append(o)
            else:
                if o[0] == 'leave': o[1].its = st0.its
                yield o
        if emit0 and finals:
            self.terminate(s0, finals, phis, names, cls, mcls, cv, lname)

    def array_candidates(self, st0, cls, mcls, m0, it, at, backs):
        """what a loop has written stays; what it has not reached is unchanged"""
        out = []
        for kk, c in mcls.items():
            if kk[0] != 'seg' or c[0] != 'gen': continue
            a0 = m0[kk]
            cur = lambda j, kk=kk, c=c, a0=a0: at(kk, c, a0, j)
            idxs = {}
            whole = False
            for o in backs:
                e = self.locs(o[1])[kk]
                for ix in self.store_indices(e, cur(it)):
                    if ix is None: whole = True
                    else: idxs[ix.get_id()] = ix
            for ix in idxs.values():
                d = S(ix - it)
                if contains(d, {it.get_id()}, {}):
                    d = S(ix + it)
                    if contains(d, {it.get_id()}, {}): continue
                    sg = -1
                else: sg = 1
                at_ = (lambda j, d=d: S(d + j)) if sg == 1 else (lambda j, d=d: S(d - j))
                k = BitVec(fresh_name('j'), 64)
                def stable(w, cur=cur, at_=at_, k=k):
                    return ForAll([k], Implies(ULT(k, w.it), Select(cur(w.it), at_(k)) == Select(cur(S(k + 1)), at_(k))), qid=fresh_name('stab'))
                out.append(('written stays %s' % (kk,), stable))
                def frame(w, cur=cur, d=d, sg=sg, a0=a0, k=k):
                    rel = k - d if sg == 1 else d - k
                    return ForAll([k], Implies(UGE(rel, w.it), Select(cur(w.it), k) == Select(a0, k)), qid=fresh_name('frame'))
                out.append(('rest unchanged %s' % (kk,), frame))
                def future(w, cur=cur, d=d, sg=sg, a0=a0, k=k):
                    # at every earlier iteration the not yet reached part was still the original
                    j = BitVec(fresh_name('j'), 64)
                    return ForAll([j], Implies(ULE(j, w.it), Select(cur(j), at_(j)) == Select(a0, at_(j))), qid=fresh_name('orig'))
                out.append(('original when reached %s' % (kk,), future))
            # a string that only grows
            m = st0.mem.get(kk[1])
            if m is not None and m.kind in ('strbuf',):
                own = None
                for oid, mm in st0.mem.items():
                    for co, (cn, cv) in mm.cells.items():
                        if isinstance(cv, Ptr) and cv.obj == kk[1] and ('cell', oid, co + 8, 8) in m0: own = ('cell', oid, co + 8, 8)
                if own is not None and own in mcls:
                    ln = lambda j, own=own: at(own, mcls[own], m0[own], j)
                    jj = BitVec(fresh_name('j'), 64); k = BitVec(fresh_name('p'), 64)
                    if mcls[own][0] == 'gen':
                        out.append(('len grows', lambda w, ln=ln, jj=jj: ForAll([jj], Implies(ULT(jj, w.it), ULE(ln(jj), ln(w.it))), qid=fresh_name('grow'))))
                    def prefix(w, cur=cur, ln=ln, jj=jj, k=k):
                        return ForAll([jj, k], Implies(And(ULE(jj, w.it), ULT(k, ln(jj))), Select(cur(w.it), k) == Select(cur(jj), k)), qid=fresh_name('pre'))
                    if mcls[own][0] == 'gen': out.append(('prefix stays', prefix))
        return out

    def closed_forms(self, st0, cls, mcls, m0, it, at, backs):
        """the array after `it` iterations, if every cell that was read or written had its original value when reached"""
        segs = [kk for kk, c in mcls.items() if kk[0] == 'seg' and c[0] == 'gen']
        cur = {kk: at(kk, mcls[kk], m0[kk], it) for kk in segs}
        out = []
        def orig(v): return S(z3.substitute(v, *[(cur[kk], m0[kk]) for kk in segs])) if segs else v
        for kk in segs:
            stores = []
            for o in backs:
                e = self.locs(o[1])[kk]; chain = []; ok = True
                while not e.eq(cur[kk]):
                    if e.decl().kind() != Z3_OP_STORE: ok = False; break
                    chain.append((e.arg(1), e.arg(2))); e = e.arg(0)
                if not ok: stores = None; break
                nrw = [(S(ZeroExt(64 - w_, Extract(w_ - 1, 0, it))), it) for w_ in (8, 16, 32)]
                for ix, v in chain:
                    # narrow counters: as long as they do not wrap around (the candidate is checked, not assumed)
                    ix, v = S(z3.substitute(ix, *nrw)), z3.substitute(v, *nrw)
                    d, sg = S(ix - it), 1
                    if contains(d, {it.get_id()}, {}):
                        d, sg = S(ix + it), -1
                        if contains(d, {it.get_id()}, {}): stores = None; break
                    if not any(x[0].eq(d) and x[1] == sg for x in stores): stores.append((d, sg, orig(v)))
                if stores is None: break
            if not stores or len(stores) > 3: continue
            for perm in itertools.permutations(stores):
                def f(w, perm=perm, kk=kk):
                    k = BitVec(fresh_name('k'), 64)
                    e = Select(m0[kk], k)
                    for d, sg, v in reversed(perm):
                        j = S(k - d) if sg == 1 else S(d - k)
                        e = If(ULT(j, w.it), z3.substitute(v, (it, j)), e)
                    return ForAll([k], Select(w.st.mem[kk[1]].segs[kk[2]].arr, k) == S(e), qid=fresh_name('closed'))
                f.hard = True; f.one = kk
                out.append(('closed form %s' % (kk,), f))
        return out

    @staticmethod
    def store_indices(e, base):
        """indices at which array expression e updates base (None: something else)"""
        out = []; seen = set(); st = [e]
        while st:
            t = st.pop()
            if t.get_id() in seen or t.eq(base): continue
            seen.add(t.get_id())
            k = t.decl().kind()
            if k == Z3_OP_STORE: out.append(t.arg(1)); st.append(t.arg(0))
            elif k == Z3_OP_ITE: st.append(t.arg(1)); st.append(t.arg(2))
            else: out.append(None)
        return out

    def eqv(self, a, b):
        if isinstance(a, Ptr):
            if a.obj != b.obj: raise Unsupported('pointer changes object in loop')
            return a.off == b.off
        if z3.is_fp(a): return a == b   # identity of bit patterns
        return a == b

    def materialise(self, st, k, v):
        m = st.w(k[1])
        if isinstance(v, Ptr) and v.obj is not None and v.obj not in st.mem: m.cells[k[2]] = (k[3], POISON)
        elif isinstance(v, Ptr): m.cells[k[2]] = (k[3], Ptr(v.obj, self.fresh(st, 'uninit', BV64)))
        elif z3.is_expr(v): m.cells[k[2]] = (k[3], self.fresh(st, 'uninit', v.sort()))
        else: m.cells[k[2]] = (k[3], v)

    def bump(self, cls, key, v0, vcut, v1, at, it, scale, unscaled, bs):
        """update the class of a loop location given its value after an iteration"""
        c = cls[key]
        if v0 is POISON: return False
        if c[0] == 'gen': 
            if isinstance(v0, Ptr) and (not isinstance(v1, Ptr) or v1.obj != v0.obj):
                raise Unsupported('pointer %s changes object in loop (%s -> %s)' % (key, v0, v1))
            if isinstance(v0, Ptr) and scale(key, v0):
                w = scale(key, v0); d = div_exact(v1.off, w)
                if (d is None or d[1]) and not self.valid_now(bs, URem(v1.off, bv(w)) == 0):
                    unscaled.add(key); return True
            return False
        if self.same(vcut, v1): 
            return False
        a, b = vcut, v1
        if isinstance(v0, Ptr):
            if not isinstance(v1, Ptr) or v1.obj != v0.obj:
                raise Unsupported('pointer %s changes object in loop (%s -> %s)' % (key, v0, v1))
            a, b = vcut.off, v1.off
        elif not z3.is_expr(v0) or not z3.is_expr(v1):
            raise Unsupported('non-term loop location %s' % (key,))
        if z3.is_bv(a):
            d = S(b - a)
            if z3.is_bv_value(d):
                if c[0] == 'const':
                    cls[key] = ('lin', d.as_long()); return True
                if c == ('lin', d.as_long()): return False
        cls[key] = ('gen',)
        return True

    def loop_base(self, st0, entry, names, cls, mcls, m0, gens, it, scale):
        """facts at the loop head: generic values start at their entry value"""
        out = []
        for n in names:
            if cls[n][0] == 'gen' and n in gens:
                v0 = entry[n]; w = 0
                if isinstance(v0, Ptr): w = scale(n, v0); v0 = v0.off
                if w: v0 = div_exact(v0, w)[0]; out.append(ULT(gens[n](*(list(st0.its) + [it])), bv((1 << 64) // w)))
                out.append(gens[n](*(list(st0.its) + [bv(0)])) == v0)
        for k, c in mcls.items():
            if c[0] == 'gen' and k in gens:
                v0 = m0[k]; w = 0
                if isinstance(v0, Ptr): w = scale(k, v0); v0 = v0.off
                if w: v0 = div_exact(v0, w)[0]; out.append(ULT(gens[k](*(list(st0.its) + [it])), bv((1 << 64) // w)))
                out.append(gens[k](*(list(st0.its) + [bv(0)])) == v0)
        return out

    def terminate(self, s, finals, phis, names, cls, mcls, cv, lname):
        t0 = time.time()
        cand = []
        for n in names:
            if cls[n][0] == 'const': continue
            v = s.regs[n]
            v = v.off if isinstance(v, Ptr) else v
            if z3.is_expr(v) and z3.is_bv(v): cand.append((n, None))
        l0 = self.locs(s)
        for k, c in mcls.items():
            if c[0] != 'const':
                v = l0[k]; v = v.off if isinstance(v, Ptr) else v
                if z3.is_expr(v) and z3.is_bv(v): cand.append((None, k))
        ok = None
        if 'progress' in s.g and all(not self.same(o[1].g['progress'], s.g['progress']) for o in finals): ok = True      # every iteration blocks until another thread acts
        for meas in [] if ok else self.measures(s, cand, cv):
            good = True
            for o in finals:
                bs, bprev = o[1], o[2]
                vals = {i.res: self.phi_val(bs, i, bprev) for i in phis}
                a, b = meas(s, {n: s.regs[n] for n in names}, self.locs(s)), meas(bs, vals, self.locs(bs))
                if prove(bs.facts, ULT(b, a), timeout=5, levels=LEVELS[:2])[0] != 'proved':
                    good = False; break
            if good: ok = True; break
        for f in ([] if ok else self.ranks):
            # measures given by the specification, as functions of the iteration count
            if all(prove(o[1].facts, ULT(f(S(cv.it + 1)), f(cv.it)), timeout=5)[0] == 'proved' for o in finals): ok = True; break
        self.obls.append(Obligation(self.root, 'terminates', lname, 'proved' if ok else 'unknown', None if ok else 'no decreasing measure found', time.time() - t0, None))

    def measures(self, s, cand, cv):
        def get(n, k, vals, locs):
            v = vals[n] if n is not None else locs[k]
            return v.off if isinstance(v, Ptr) else v
        for n, k in cand:
            yield lambda st, vals, locs, n=n, k=k: get(n, k, vals, locs)
            yield lambda st, vals, locs, n=n, k=k: ~get(n, k, vals, locs)
        # differences of two variables
        for x in range(len(cand)):
            for y in range(len(cand)):
                if x != y:
                    def m(st, vals, locs, x=x, y=y):
                        a = get(*cand[x], vals, locs); b = get(*cand[y], vals, locs)
                        if a.size() != b.size(): return a
                        return a - b
                    yield m

    def candidates(self, st0, fn, L, names, entry, cls, mcls, m0, it, backs=()):
        """bounds on generic variables + spec templates"""
        out = []
        gen = [n for n in names if cls[n][0] == 'gen']
        bvs = [n for n in names if isinstance(entry[n], Ptr) or (z3.is_expr(entry[n]) and z3.is_bv(entry[n]))]
        def num(v): return v.off if isinstance(v, Ptr) else v
        def ok(v, w):
            if isinstance(v, Ptr) != isinstance(w, Ptr): return False
            return num(v).size() == num(w).size()
        # loop-invariant registers compared in the loop
        terms = []
        for b in L.blocks:
            for i in fn.blocks[b]:
                if i.op == 'icmp':
                    for o in i.ops:
                        if o[0] == 'loc' and o[1] in st0.regs and o[1] not in names:
                            terms.append(st0.regs[o[1]])
        for n in gen:
            if n not in bvs: continue
            v0 = num(entry[n])
            out.append(('%s>=init' % n, lambda w, n=n, v0=v0: ULE(v0, num(w.v(n)))))
            out.append(('%s<=init' % n, lambda w, n=n, v0=v0: ULE(num(w.v(n)), v0)))
            for m in names:
                if m != n and m in bvs and ok(entry[n], entry[m]):
                    out.append(('%s<=%s' % (n, m), lambda w, n=n, m=m: ULE(num(w.v(n)), num(w.v(m)))))
                    out.append(('%s>=%s' % (n, m), lambda w, n=n, m=m: UGE(num(w.v(n)), num(w.v(m)))))
            if num(entry[n]).size() == 64:
                up = lambda w, n=n, v0=v0: num(w.v(n)) == v0 + w.it
                dn = lambda w, n=n, v0=v0: num(w.v(n)) == v0 - w.it
                up.lin = (n, 1); dn.lin = (n, (1 << 64) - 1)
                out.append(('%s=init+it' % n, up)); out.append(('%s=init-it' % n, dn))
                for m in gen:
                    if m > n and m in bvs and num(entry[m]).size() == 64:
                        m0_ = num(entry[m])
                        out.append(('%s+%s const' % (n, m), lambda w, n=n, m=m, v0=v0, m0_=m0_: num(w.v(n)) + num(w.v(m)) == S(v0 + m0_)))
                        out.append(('%s-%s const' % (n, m), lambda w, n=n, m=m, v0=v0, m0_=m0_: num(w.v(n)) - num(w.v(m)) == S(v0 - m0_)))
            seen = []
            for t in terms:
                tt = num(t)
                if z3.is_expr(tt) and z3.is_bv(tt) and ok(entry[n], t) and not any(tt.eq(x) for x in seen):
                    seen.append(tt)
                    out.append(('%s<=%s' % (n, tt), lambda w, n=n, tt=tt: ULE(num(w.v(n)), tt)))
        for _, cf in out: cf.hist = True
        if not self.generic: out = []
        # bounds on the iteration counter from linear variables compared with invariant terms
        seen = []
        for b in sorted(L.blocks):
            for i in fn.blocks[b]:
                if i.op != 'icmp': continue
                for x, y in ((i.ops[0], i.ops[1]), (i.ops[1], i.ops[0])):
                    if x[0] != 'loc' or x[1] not in names: continue
                    n = x[1]
                    if y[0] == 'loc':
                        if y[1] in names and cls[y[1]][0] != 'const': continue
                        if y[1] in names: T = entry[y[1]]
                        elif y[1] in st0.regs: T = st0.regs[y[1]]
                        else:
                            # read in the loop, but the same in every iteration
                            T = next((o[1].regs[y[1]] for o in backs if y[1] in o[1].regs), None)
                            if T is None or (z3.is_expr(num(T)) and contains(num(T), {it.get_id()}, {})): continue
                    else:
                        try: T = self.const(st0, y, i.x['oty'])
                        except Exception: continue
                    if isinstance(T, FnPtr): continue
                    T = num(T); v0 = num(entry[n])
                    if not (z3.is_expr(T) and z3.is_bv(T)) or not z3.is_bv(v0) or cls[n][0] != 'lin': continue
                    if v0.size() < 64:
                        c = signed(cls[n][1], v0.size())
                        if abs(c) != 1 or T.size() != v0.size(): continue
                        e = S(ZeroExt(64 - v0.size(), T - v0 if c > 0 else v0 - T))
                        if not any(e.eq(z) for z in seen):
                            seen.append(e); out.append(('it<=%s' % e, lambda w, e=e: ULE(w.it, e)))
                        continue
                    if v0.size() != 64: continue
                    c = signed(cls[n][1], 64)
                    a = abs(c)
                    if a == 0 or a > 4096: continue
                    d = S(T - v0) if c > 0 else S(v0 - T)
                    if a == 1: es = (d, S(d + 1), S(d - 1))
                    else:
                        dv = div_exact(d, a)
                        es = (dv[0],) if dv is not None and dv[1] == 0 else () if a & (a - 1) or a > 64 else (S(LShR(d, a.bit_length() - 1)),)
                    for e in es:
                        if z3.is_bv_value(e) and e.as_long() == 0: continue
                        if not any(e.eq(z) for z in seen):
                            seen.append(e)
                            out.append(('it<=%s' % e, lambda w, e=e: ULE(w.it, e)))
        for e in self.itbounds:
            if not any(e.eq(z) for z in seen):
                out.append(('it<=%s' % e, lambda w, e=e: ULE(w.it, e)))
        for t in self.templates:
            out.extend(t(self, st0, names, entry, cls, mcls))
        return out

class PathEnd(Exception):
    pass

class NotApplicable(Exception):
    pass
