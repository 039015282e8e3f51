"""debug: print the normalised IR of a harness: tools/ir.py SRC [keep...]"""
import sys, os
sys.path.insert(0, '/verif')
from gv import build
t, raw = build.compile_ir(sys.argv[1], keep=sys.argv[2:])
open('/tmp/b.ll', 'w').write(t)
import re
for n in re.findall(r'^define [^@]*@("[^"]+"|[-\w$.]+)\(', t, flags=re.M): print(build.demangle([n.strip('"')]).popitem()[1][:150])
print('calls:')
print('\n'.join(sorted(set(x[:200] for x in build.demangle(list(set(re.findall(r'(?:call|invoke) [^@\n]*@([-\w$.]+)\(', t)))).values()))))
