#!/usr/bin/env python3
"""Writes harness/src/reg.rs: the list of harnesses."""
import glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mods, fs = [], []
for f in sorted(glob.glob(V + '/harness/src/h_*.rs')):
    mod = os.path.basename(f)[:-3]
    mods.append(mod)
    for m in re.findall(r'pub extern "C" fn (h_\w+)', open(f).read()):
        fs.append((mod, m))
t = '// written by tools/mkreg.py\n'
t += 'use crate::*;\n#[used]\n#[no_mangle]\npub static HARNESSES: &[(&str, H)] = &[\n'
cfg = lambda a: '#[cfg(feature = "tool")]' if a == 'h_tool' else ''
t += ''.join('    %s("%s", %s::%s),\n' % (cfg(a), b, a, b) for a, b in fs) + '];\n'
open(V + '/harness/src/reg.rs', 'w').write(t)
p = V + '/harness/src/main.rs'
s = open(p).read()
s = re.sub(r'(?m)^(#\[cfg\(feature = "tool"\)\])?mod h_\w+;\n', '', s)
s = s.replace('mod st;\n', ''.join('%smod %s;\n' % (cfg(m), m) for m in mods) + 'mod st;\n', 1)
open(p, 'w').write(s)
