"""Compile a harness translation unit against /repo's current sources to normalised LLVM IR."""
import os, re, subprocess, hashlib, tempfile
from . import ir

LLVM = '/usr/lib/llvm-18/bin/'
REPO = os.environ.get('GV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PASSES = 'always-inline,globaldce,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,early-cse,simplifycfg)'

class BuildError(Exception):
    pass

def sh(cmd, inp=None, timeout=300):
    p = subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr.decode(errors='replace')[-3000:]))
    return p.stdout.decode(errors='replace')

def demangle(names):
    names = list(names)
    if not names: return {}
    out = sh([LLVM + 'llvm-cxxfilt'], '\n'.join(names).encode()).split('\n')
    return dict(zip(names, out))

# defined library functions that are treated by contract, not inlined (trusted std:: contracts)
KEEP = re.compile(r"^(std::__cxx11::basic_string<|std::(__cxx11::)?to_string|std::__throw_|void std::__throw)")

def compile_ir(src, keep=(), defs=(), std='c++14', extra=()):
    """IR module for /verif/harness/<src>; functions whose demangled name matches one of `keep`
    stay calls (contract boundary), every other function is inlined into the harness roots"""
    cmd = [LLVM + 'clang++', '-std=' + std, '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
           '-fsanitize=signed-integer-overflow,shift-exponent', '-fsanitize-trap=signed-integer-overflow,shift-exponent',
           '-w', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + VERIF + '/harness', '-S', '-emit-llvm', '-o', '-',
           os.path.join(VERIF, 'harness', src)]
    cmd += ['-D' + d for d in defs] + list(extra)
    text = sh(cmd)
    return normalise(text, keep), text

def normalise(text, keep=()):
    text = re.sub(r'^(attributes #\d+ = \{[^}]*)\}', lambda m: m.group(0).replace(' noinline', '').replace(' optnone', ''), text, flags=re.M)
    for a, b in re.findall(r'^@("[^"]+"|[-\w$.]+) = [^\n]*\balias [^\n]*, ptr @("[^"]+"|[-\w$.]+)$', text, flags=re.M):
        # constructor/destructor variants that are one function
        text = re.sub(r'^@%s = [^\n]*\balias .*\n' % re.escape(a), '', text, flags=re.M)
        text = re.sub(r'@%s(?![-\w$.])' % re.escape(a), lambda m: '@' + b, text)
    names = re.findall(r'^define [^@]*@("[^"]+"|[-\w$.]+)\(', text, flags=re.M)
    names = [n.strip('"') for n in names]
    dm = demangle(names)
    pats = [re.compile(k) for k in keep]
    out = []
    for l in text.split('\n'):
        if l.startswith('define '):
            m = re.match(r'define [^@]*@("[^"]+"|[-\w$.]+)\(', l)
            n = m.group(1).strip('"'); d = dm.get(n, n)
            root = not n.startswith('_Z') and not n.startswith('__clang')
            kept = root or KEEP.match(d) or any(p.search(d) for p in pats)
            at = ' noinline' if kept else ' alwaysinline'
            if n.startswith('__clang'): at = ' noinline'
            m2 = re.search(r' #\d+', l)
            if m2: l = l[:m2.start()] + at + l[m2.start():]
            else: l = re.sub(r' \{$', at + ' {', l)
        out.append(l)
    return sh([LLVM + 'opt', '-S', '-passes=' + PASSES], '\n'.join(out).encode())

def module(src, **kw):
    text, raw = compile_ir(src, **kw)
    mod = ir.parse(text)
    mod.text = text
    mod.rawdefs = list(demangle([n.strip('"') for n in re.findall(r'^define [^@]*@("[^"]+"|[-\w$.]+)\(', raw, flags=re.M)]).values())
    mod.dem = demangle(list(mod.funcs) + list(mod.decls))
    return mod
