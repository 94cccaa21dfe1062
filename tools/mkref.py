#!/usr/bin/env python3
"""Freezes a copy of the repository's expansion coefficients in /verif/ref, in
long double and a namespace of its own.  Run once, at the audited commit; the
result is committed, so that later changes of the repository do not reach it."""
import os, re, glob
src = '/repo/source/himalaya/hierarchies'; dst = '/verif/ref/hierarchies'
os.makedirs(dst, exist_ok=True)
body = []
for f in sorted(glob.glob(src + '/H[0-9]*.[ch]pp')):
    s = open(f).read()
    s = re.sub(r'/\*\*.*?\*/', '', s, flags=re.S)
    s = re.sub(r'^ *//.*$', '', s, flags=re.M)
    s = s.replace('#include "himalaya/hierarchies/HierarchyFlags.hpp"', '#include "ref/flags.hpp"')
    s = s.replace('#include "himalaya/misc/Constants.hpp"', '#include "ref/constants.hpp"').replace('#include "himalaya/misc/Powers.hpp"', '')
    s = re.sub(r'#include "himalaya/hierarchies/(H\w+)\.hpp"', r'#include "ref/hierarchies/\1.hpp"', s)
    s = re.sub(r'\bdouble\b', 'R', s).replace('namespace himalaya', 'namespace vref')
    s = re.sub(r'\n\s*\n+', '\n', s)
    open(os.path.join(dst, os.path.basename(f)), 'w').write(s)
