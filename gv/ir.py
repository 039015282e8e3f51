"""Parser for textual LLVM IR (LLVM 18, opaque pointers): the subset produced by
clang -O0 plus the normalising passes in build.py."""
import re, struct

class ParseError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'el', 'packed')
    def __init__(s, k, n=None, el=None, packed=False):
        s.k, s.n, s.el, s.packed = k, n, el, packed
    def __repr__(s):
        if s.k == 'int': return 'i%d' % s.n
        if s.k == 'arr': return '[%d x %r]' % (s.n, s.el)
        if s.k == 'struct': return '{%s}' % ','.join(map(repr, s.el))
        if s.k == 'named': return '%' + s.n
        return s.k

I1 = Ty('int', 1); I8 = Ty('int', 8); I32 = Ty('int', 32); I64 = Ty('int', 64)
PTR = Ty('ptr'); VOID = Ty('void'); LABEL = Ty('label'); META = Ty('metadata')
FLOATS = {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}

TOK = re.compile(r'''
    (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<gid>@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
  | (?P<lid>%(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
  | (?P<meta>!(?:\w[\w.]*|"[^"]*")?)
  | (?P<attr>\#\d+)
  | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
  | (?P<word>[A-Za-z_$.][-\w$.]*)
  | (?P<p>\.\.\.|[()\[\]{}<>,=*:|])
  | (?P<ws>\s+)
''', re.X)

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        if s[pos] == ';':
            break
        m = TOK.match(s, pos)
        if not m:
            raise ParseError('cannot tokenize: ' + s[pos:pos + 60])
        pos = m.end()
        if m.lastgroup != 'ws':
            out.append(m.group(0))
    return out

def unq(n):
    """strip the sigil and quotes"""
    n = n[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n

class Instr:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'text')
    def __init__(s, op, res=None, ty=None, ops=(), text='', **x):
        s.op, s.res, s.ty, s.ops, s.x, s.text = op, res, ty, ops, x, text
    def __repr__(s):
        return s.text.strip()

class Function:
    def __init__(s, name, ret, params, attrs=''):
        s.name, s.ret, s.params, s.attrs = name, ret, params, attrs
        s.blocks = {}      # label -> [Instr]
        s.order = []
        s.nounwind = 'nounwind' in attrs
        s._an = None

PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'writable', 'readonly',
               'writeonly', 'nocapture', 'immarg', 'returned', 'inreg', 'nofree', 'swiftself',
               'dead_on_unwind', 'readnone', 'nest', 'noext', 'allocptr', 'allocalign'}
FN_WORDS = {'dso_local', 'linkonce_odr', 'internal', 'private', 'hidden', 'weak_odr', 'weak',
            'external', 'available_externally', 'local_unnamed_addr', 'unnamed_addr', 'default',
            'protected', 'fastcc', 'ccc', 'coldcc', 'linkonce', 'tail', 'musttail', 'notail',
            'constant', 'global', 'thread_local', 'extern_weak', 'common', 'appending',
            'externally_initialized', 'noundef'}

class P:
    """token cursor"""
    def __init__(s, toks, mod):
        s.t, s.i, s.mod = toks, 0, mod
    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else None
    def next(s):
        v = s.t[s.i]; s.i += 1; return v
    def accept(s, x):
        if s.peek() == x:
            s.i += 1; return True
        return False
    def expect(s, x):
        v = s.next()
        if v != x:
            raise ParseError('expected %r got %r in %s' % (x, v, ' '.join(s.t)))
    # ---- types
    def type(s):
        t = s.next()
        if re.fullmatch(r'i\d+', t): ty = Ty('int', int(t[1:]))
        elif t == 'ptr': ty = PTR
        elif t == 'void': ty = VOID
        elif t == 'label': ty = LABEL
        elif t == 'metadata': ty = META
        elif t in FLOATS: ty = Ty('fp', t)
        elif t == '[':
            n = int(s.next()); s.expect('x'); el = s.type(); s.expect(']')
            ty = Ty('arr', n, el)
        elif t == '{':
            el = []
            while not s.accept('}'):
                el.append(s.type()); s.accept(',')
            ty = Ty('struct', None, el)
        elif t == '<':
            if s.peek() == '{':
                s.next(); el = []
                while not s.accept('}'):
                    el.append(s.type()); s.accept(',')
                s.expect('>')
                ty = Ty('struct', None, el, True)
            else:
                n = int(s.next()); s.expect('x'); el = s.type(); s.expect('>')
                ty = Ty('vec', n, el)
        elif t[0] == '%': ty = Ty('named', unq(t))
        elif t == 'opaque': ty = Ty('opaque')
        elif t == 'token': ty = Ty('token')
        else: raise ParseError('type? %r in %s' % (t, ' '.join(s.t)))
        while True:
            if s.peek() == '(' and ty.k in ('void', 'int', 'ptr', 'fp', 'struct', 'named') and s._isfnty():
                d = 0
                while True:
                    x = s.next()
                    if x == '(': d += 1
                    if x == ')':
                        d -= 1
                        if d == 0: break
                ty = Ty('fn', None, ty)
            elif s.peek() == 'addrspace':
                s.next(); s.expect('('); s.next(); s.expect(')')
            else:
                break
        return ty
    def _isfnty(s):
        # function type in call: 'void (ptr, ...) @f(' ; only when followed later by a callee
        d = 0
        j = s.i
        while j < len(s.t):
            if s.t[j] == '(': d += 1
            elif s.t[j] == ')':
                d -= 1
                if d == 0:
                    nx = s.t[j + 1] if j + 1 < len(s.t) else None
                    return nx is not None and (nx[0] in '@%')
            j += 1
        return False
    def skip_param_attrs(s):
        d = {}
        while True:
            t = s.peek()
            if t in PARAM_ATTRS:
                d[t] = True; s.next()
            elif t in ('align', ) and s.peek(1) and s.peek(1).isdigit():
                s.next(); s.next()
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'align', 'captures', 'range', 'nofpclass', 'memory'):
                s.next(); s.skip_parens()
            elif t in ('sret', 'byval', 'elementtype', 'inalloca', 'byref', 'preallocated'):
                s.next(); s.expect('('); ty = s.type(); s.expect(')'); d[t] = ty
            elif t and t.startswith('"'):
                s.next()
                if s.accept('='): s.next()
            else:
                return d
    def skip_parens(s):
        s.expect('('); d = 1
        while d:
            t = s.next()
            if t == '(': d += 1
            if t == ')': d -= 1
    # ---- values: returned as tuples
    def value(s, ty):
        t = s.next()
        if t[0] == '%' : return ('loc', unq(t))
        if t[0] == '@' : return ('glob', unq(t))
        if t in ('true', 'false'): return ('int', 1 if t == 'true' else 0)
        if t == 'null': return ('null',)
        if t in ('undef', 'poison'): return (t, ty)
        if t == 'zeroinitializer': return ('zero', ty)
        if t == 'none': return ('none',)
        if t[0] == 'c' and t[1:2] == '"': return ('bytes', cstr(t[1:]))
        if t in ('getelementptr',):
            flags = []
            while s.peek() in ('inbounds', 'nuw', 'nusw'): flags.append(s.next())
            s.expect('('); sty = s.type(); s.expect(','); s.type(); base = s.value(PTR)
            idx = []
            while s.accept(','):
                s.accept('inrange')
                ity = s.type(); idx.append((ity, s.value(ity)))
            s.expect(')')
            return ('cgep', sty, base, idx)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            s.expect('('); fty = s.type(); v = s.value(fty); s.expect('to'); tty = s.type(); s.expect(')')
            return ('ccast', t, fty, v, tty)
        if t in ('sub', 'add', 'mul', 'and', 'or', 'xor', 'shl'):
            while s.peek() in ('nuw', 'nsw'): s.next()
            s.expect('('); a = s.type(); va = s.value(a); s.expect(','); b = s.type(); vb = s.value(b); s.expect(')')
            return ('cbin', t, a, va, vb)
        if t == '[' or t == '{' or t == '<':
            close = {'[': ']', '{': '}', '<': '>'}[t]
            if t == '<' and s.peek() == '{':
                s.next(); close = '}>'
            els = []
            while True:
                if close == '}>':
                    if s.peek() == '}':
                        s.next(); s.expect('>'); break
                elif s.accept(close): break
                ety = s.type(); els.append((ety, s.value(ety))); s.accept(',')
            return ('agg', els)
        if re.fullmatch(r'-?\d+', t):
            if ty.k == 'fp': return ('fp', float(t))
            return ('int', int(t))
        if re.fullmatch(r'-?\d+\.\d+(e[+-]?\d+)?', t): return ('fp', float(t))
        if t.startswith('0xK'): return ('fp80', int(t[3:], 16))
        if t.startswith('0x'):
            if ty.k == 'fp': return ('fpbits', int(t[2:], 16))
            return ('int', int(t, 16))
        if t == 'dso_local_equivalent' or t == 'no_cfi': return s.value(ty)
        if t == 'splat':
            s.expect('('); ety = s.type(); v = s.value(ety); s.expect(')'); return ('splat', ety, v)
        if t == 'asm': return ('asm',)
        if t[0] == '!' : return ('meta',)
        raise ParseError('value? %r in %s' % (t, ' '.join(s.t)))

def cstr(q):
    q = q[1:-1]
    out = bytearray(); i = 0
    while i < len(q):
        if q[i] == '\\':
            if q[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(q[i+1:i+3], 16)); i += 3
        else:
            out.extend(q[i].encode('utf8')); i += 1
    return bytes(out)

BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp',
        'uitofp', 'fpext', 'fptrunc', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'nneg', 'disjoint', 'nnan', 'ninf', 'nsz', 'arcp', 'contract',
         'afn', 'reassoc', 'fast', 'nusw', 'samesign'}

class Module:
    def __init__(s):
        s.types = {}; s.globals = {}; s.funcs = {}; s.decls = {}; s.attrs = {}; s.aliases = {}
        s._lay = {}

    # ---- layout
    def resolve(s, ty):
        while ty.k == 'named':
            ty = s.types[ty.n]
        return ty
    def align(s, ty):
        ty = s.resolve(ty)
        if ty.k == 'int':
            b = max(1, (ty.n + 7) // 8); a = 1
            while a < b: a *= 2
            return min(a, 16)
        if ty.k == 'ptr': return 8
        if ty.k == 'fp': return {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}[ty.n]
        if ty.k == 'arr': return s.align(ty.el)
        if ty.k == 'struct':
            if ty.packed: return 1
            return max([1] + [s.align(e) for e in ty.el])
        if ty.k == 'vec': return s.size(ty)
        if ty.k == 'opaque': return 1
        raise ParseError('align %r' % ty)
    def size(s, ty):
        """alloc size"""
        ty = s.resolve(ty)
        if ty.k == 'int':
            b = max(1, (ty.n + 7) // 8); a = s.align(ty)
            return (b + a - 1) // a * a
        if ty.k == 'ptr': return 8
        if ty.k == 'fp': return FLOATS[ty.n]
        if ty.k == 'arr': return ty.n * s.size(ty.el)
        if ty.k == 'struct': return s.struct_layout(ty)[1]
        if ty.k == 'vec': return ty.n * s.size(ty.el)
        if ty.k == 'opaque': return 0
        raise ParseError('size %r' % ty)
    def struct_layout(s, ty):
        key = id(ty)
        if key in s._lay: return s._lay[key][1]
        off = 0; offs = []
        for e in ty.el:
            if not ty.packed:
                a = s.align(e); off = (off + a - 1) // a * a
            offs.append(off); off += s.size(e)
        if not ty.packed:
            a = s.align(ty); off = (off + a - 1) // a * a
        s._lay[key] = (ty, (offs, off))
        return (offs, off)

def parse(text):
    mod = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        if not l or l[0] in ';!$' or l.startswith(('source_filename', 'target ', 'module asm')):
            i += 1; continue
        if l[0] == '%':
            toks = tokenize(l); p = P(toks, mod)
            name = unq(p.next()); p.expect('='); p.expect('type')
            mod.types[name] = p.type()
            i += 1; continue
        if l.startswith('attributes '):
            m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
            mod.attrs[m.group(1)] = m.group(2)
            i += 1; continue
        if l[0] == '@':
            parse_global(mod, l); i += 1; continue
        if l.startswith('declare '):
            f = parse_header(mod, l); mod.decls[f.name] = f
            i += 1; continue
        if l.startswith('define '):
            f = parse_header(mod, l)
            i += 1
            cur = None
            body = []
            while lines[i] != '}':
                b = lines[i]
                if not b.strip() or b.lstrip().startswith(';'):
                    i += 1; continue
                if not b.startswith(' '):
                    m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w$.]+):', b)
                    if not m: raise ParseError('label? ' + b)
                    lab = m.group(1)
                    if lab.startswith('"'): lab = lab[1:-1]
                    cur = lab; f.blocks[cur] = []; f.order.append(cur)
                    i += 1; continue
                if cur is None:
                    # unnamed entry block: its implicit number is the count of unnamed params
                    cur = '%entry'; f.blocks[cur] = []; f.order.append(cur)
                # join continuation lines (switch tables, invoke, landingpad clauses)
                txt = b
                if re.match(r'\s+(%[^=]+= )?(switch) ', b) and not b.rstrip().endswith(']'):
                    while not lines[i].strip().startswith(']') :
                        i += 1; txt += ' ' + lines[i]
                while i + 1 < n and lines[i + 1].startswith('          ') :
                    i += 1; txt += ' ' + lines[i]
                f.blocks[cur].append(parse_instr(mod, txt))
                i += 1
            mod.funcs[f.name] = f
            i += 1; continue
        i += 1
    return mod

def parse_global(mod, l):
    toks = tokenize(l)
    p = P(toks, mod)
    name = unq(p.next()); p.expect('=')
    const = False
    while True:
        t = p.peek()
        if t == 'comdat':
            break
        if t in FN_WORDS:
            if t == 'constant': const = True
            if t == 'constant' or t == 'global':
                p.next(); break
            p.next()
            if t == 'thread_local' and p.peek() == '(':
                p.skip_parens()
        elif t == 'alias':
            p.next(); p.type(); p.expect(','); p.type(); v = p.value(PTR)
            mod.aliases[name] = v
            return
        elif t == 'addrspace':
            p.next(); p.skip_parens()
        else:
            break
    ty = p.type()
    init = None
    if p.peek() is not None and p.peek() != ',' and p.peek() != 'comdat':
        init = p.value(ty)
    mod.globals[name] = (ty, init, const)

def parse_header(mod, l):
    toks = tokenize(l.rstrip('{ '))
    p = P(toks, mod)
    p.next()
    while p.peek() in FN_WORDS or p.peek() in PARAM_ATTRS or p.peek() in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range', 'nofpclass'):
        if p.peek() in FN_WORDS: p.next()
        else: p.skip_param_attrs()
    ret = p.type()
    name = unq(p.next())
    p.expect('(')
    params = []
    unn = 0
    while not p.accept(')'):
        if p.accept('...'):
            params.append((None, '...', {})); continue
        ty = p.type(); a = p.skip_param_attrs()
        pn = None
        if p.peek() and p.peek()[0] == '%':
            pn = unq(p.next())
        params.append((ty, pn, a)); p.accept(',')
    rest = toks[p.i:]
    attrs = []
    for t in rest:
        if t.startswith('#'): attrs.append(mod_attr(mod, t))
        else: attrs.append(t)
    f = Function(name, ret, params, ' '.join(attrs))
    f.attr_refs = [t for t in rest if t.startswith('#')]
    return f

def mod_attr(mod, t):
    return mod.attrs.get(t, t)

def parse_instr(mod, txt):
    toks = tokenize(txt)
    # drop trailing metadata
    for k, t in enumerate(toks):
        if t.startswith('!') and k > 0 and toks[k - 1] == ',':
            # metadata operands in calls are 'metadata !x'; a ', !name' ends the instruction
            toks = toks[:k - 1]; break
    p = P(toks, mod)
    res = None
    if p.peek(1) == '=':
        res = unq(p.next()); p.next()
    op = p.next()
    flags = set()
    I = lambda **k: Instr(op, res, text=txt, **k)
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BIN:
        while p.peek() in FLAGS: flags.add(p.next())
        ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
        return Instr(op, res, ty, (a, b), txt, flags=flags)
    if op == 'fneg':
        while p.peek() in FLAGS: flags.add(p.next())
        ty = p.type(); a = p.value(ty)
        return Instr(op, res, ty, (a,), txt)
    if op in CAST:
        while p.peek() in FLAGS: flags.add(p.next())
        fty = p.type(); v = p.value(fty); p.expect('to'); tty = p.type()
        return Instr(op, res, tty, (v,), txt, fty=fty, flags=flags)
    if op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS: flags.add(p.next())
        pred = p.next(); ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
        return Instr(op, res, I1, (a, b), txt, pred=pred, oty=ty)
    if op == 'alloca':
        p.accept('inalloca')
        ty = p.type()
        cnt = None
        while p.accept(','):
            if p.peek() == 'align': p.next(); p.next()
            else:
                cty = p.type(); cnt = p.value(cty)
        return Instr(op, res, PTR, (), txt, aty=ty, cnt=cnt)
    if op == 'load':
        at = p.accept('atomic'); p.accept('volatile')
        ty = p.type(); p.expect(','); p.type(); v = p.value(PTR)
        return Instr(op, res, ty, (v,), txt, atomic=at)
    if op == 'store':
        at = p.accept('atomic'); p.accept('volatile')
        ty = p.type(); v = p.value(ty); p.expect(','); p.type(); d = p.value(PTR)
        return Instr(op, res, ty, (v, d), txt, atomic=at)
    if op == 'getelementptr':
        while p.peek() in FLAGS: flags.add(p.next())
        sty = p.type(); p.expect(','); p.type(); base = p.value(PTR)
        idx = []
        while p.accept(','):
            ity = p.type(); idx.append((ity, p.value(ity)))
        return Instr(op, res, PTR, (base,), txt, sty=sty, idx=idx, flags=flags)
    if op == 'phi':
        while p.peek() in FLAGS: flags.add(p.next())
        ty = p.type(); inc = []
        while p.accept('['):
            v = p.value(ty); p.expect(','); b = unq(p.next()); p.expect(']')
            inc.append((b, v)); p.accept(',')
        return Instr(op, res, ty, (), txt, inc=dict(inc))
    if op == 'select':
        while p.peek() in FLAGS: flags.add(p.next())
        cty = p.type(); c = p.value(cty); p.expect(','); ty = p.type(); a = p.value(ty)
        p.expect(','); p.type(); b = p.value(ty)
        return Instr(op, res, ty, (c, a, b), txt, cty=cty)
    if op == 'br':
        if p.peek() == 'label':
            p.next(); return Instr('br', None, None, (), txt, tgt=unq(p.next()))
        ty = p.type(); c = p.value(ty); p.expect(','); p.next(); a = unq(p.next()); p.expect(','); p.next()
        b = unq(p.next())
        return Instr('condbr', None, None, (c,), txt, t=a, f=b)
    if op == 'switch':
        ty = p.type(); v = p.value(ty); p.expect(','); p.next(); d = unq(p.next()); p.expect('[')
        cases = []
        while not p.accept(']'):
            cty = p.type(); cv = p.value(cty); p.expect(','); p.next(); cases.append((cv[1], unq(p.next())))
        return Instr('switch', None, ty, (v,), txt, default=d, cases=cases)
    if op == 'ret':
        ty = p.type()
        if ty.k == 'void': return Instr('ret', None, None, (), txt)
        return Instr('ret', None, ty, (p.value(ty),), txt)
    if op == 'unreachable':
        return Instr('unreachable', text=txt)
    if op in ('call', 'invoke'):
        while p.peek() in FLAGS or p.peek() in FN_WORDS: p.next()
        p.skip_param_attrs()
        while p.peek() in FN_WORDS: p.next()
        rty = p.type()
        if rty.k == 'fn': rty = rty.el
        callee = p.value(PTR)
        if callee[0] == 'asm':
            return Instr('asm', res, rty, (), txt)
        p.expect('(')
        args = []
        while not p.accept(')'):
            ty = p.type(); a = p.skip_param_attrs(); v = p.value(ty)
            args.append((ty, v, a)); p.accept(',')
        nounw = False
        x = {}
        while p.peek() is not None:
            t = p.next()
            if t.startswith('#'):
                x.setdefault('attrs', []).append(t)
            elif t == 'nounwind': nounw = True
            elif t == 'to':
                p.next(); x['normal'] = unq(p.next())
            elif t == 'unwind':
                p.next(); x['unwind'] = unq(p.next())
            elif t == '[':
                while p.next() != ']': pass
        return Instr(op, res, rty, (), txt, callee=callee, args=args, nounwind=nounw, **x)
    if op == 'landingpad':
        ty = p.type()
        cl = []
        cleanup = False
        while p.peek() is not None:
            t = p.next()
            if t == 'cleanup': cleanup = True
            elif t in ('catch', 'filter'):
                cty = p.type(); cl.append((t, p.value(cty)))
        return Instr(op, res, ty, (), txt, clauses=cl, cleanup=cleanup)
    if op == 'resume':
        ty = p.type(); v = p.value(ty)
        return Instr(op, None, ty, (v,), txt)
    if op == 'extractvalue':
        ty = p.type(); v = p.value(ty); idx = []
        while p.accept(','): idx.append(int(p.next()))
        return Instr(op, res, None, (v,), txt, aty=ty, idx=idx)
    if op == 'insertvalue':
        ty = p.type(); v = p.value(ty); p.expect(','); ety = p.type(); e = p.value(ety); idx = []
        while p.accept(','): idx.append(int(p.next()))
        return Instr(op, res, ty, (v, e), txt, ety=ety, idx=idx)
    if op == 'freeze':
        ty = p.type(); return Instr(op, res, ty, (p.value(ty),), txt)
    if op == 'fence':
        return Instr('fence', text=txt)
    if op == 'atomicrmw':
        p.accept('volatile'); o = p.next(); p.type(); d = p.value(PTR); p.expect(','); ty = p.type(); v = p.value(ty)
        return Instr(op, res, ty, (d, v), txt, rmw=o)
    if op == 'cmpxchg':
        p.accept('weak'); p.accept('volatile'); p.type(); d = p.value(PTR); p.expect(','); ty = p.type(); a = p.value(ty)
        p.expect(','); p.type(); b = p.value(ty)
        return Instr(op, res, ty, (d, a, b), txt)
    return Instr('unknown:' + op, res, None, (), txt)

# ---------------------------------------------------------------- CFG analysis
def successors(blk):
    t = blk[-1]
    if t.op == 'br': return [t.x['tgt']]
    if t.op == 'condbr': return [t.x['t'], t.x['f']]
    if t.op == 'switch': return [t.x['default']] + [b for _, b in t.x['cases']]
    if t.op == 'invoke': return [t.x['normal'], t.x['unwind']]
    return []

class CFG:
    def __init__(s, f):
        s.f = f
        s.entry = f.order[0]
        s.succ = {b: list(dict.fromkeys(successors(f.blocks[b]))) for b in f.order}
        s.pred = {b: [] for b in f.order}
        for b, ss in s.succ.items():
            for x in ss: s.pred[x].append(b)
        # RPO + dominators
        seen = set(); post = []
        st = [(s.entry, iter(s.succ[s.entry]))]; seen.add(s.entry)
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x); st.append((x, iter(s.succ[x]))); break
            else:
                post.append(b); st.pop()
        rpo = post[::-1]
        s.rpo = rpo
        num = {b: i for i, b in enumerate(rpo)}
        idom = {s.entry: s.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in s.pred[b] if p in idom]
                if not ps: continue
                new = ps[0]
                for p in ps[1:]:
                    a, c = p, new
                    while a != c:
                        while num[a] > num[c]: a = idom[a]
                        while num[c] > num[a]: c = idom[c]
                    new = a
                if idom.get(b) != new:
                    idom[b] = new; ch = True
        s.idom = idom
        def dom(a, b):
            while True:
                if a == b: return True
                if b == s.entry: return False
                b = idom[b]
        s.loops = {}     # header -> set of blocks
        for b in rpo:
            for x in s.succ[b]:
                if dom(x, b):
                    body = s.loops.setdefault(x, {x})
                    wl = [b]
                    while wl:
                        y = wl.pop()
                        if y not in body:
                            body.add(y); wl.extend(p for p in s.pred[y] if p in num)
        # irreducible retreating edges
        s.irreducible = [(b, x) for b in rpo for x in s.succ[b] if num[x] <= num[b] and not dom(x, b)]
def cfg(f):
    if f._an is None: f._an = CFG(f)
    return f._an
