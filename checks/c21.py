#!/usr/bin/env python3
"""C21: character classes and number conversions of the Mes C Library against the system's C library."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mesmc import core, build, libc
c = core.Check('C21', 'exploration')
t = build.Tree()
o, undef = libc.archive(c, t)
l1 = os.path.join(c.scratch, 'l1.o')
build.run(['gcc', '-c'] + t.CPP + t.CFL + ['-DHAVE_LONG_LONG=1', '-o', l1, 'lib/libtcc1.c'], cwd=t.dir)
build.run(['objcopy', '--prefix-symbols=mes_', l1])
# the division helpers of the ARM build, on this machine's long
dv = os.path.join(c.scratch, 'dv.o')
build.run(['gcc', '-c'] + t.CPP + t.CFL + ['-D__raise=mes___raise_div', '-o', dv, 'lib/mes/div.c'], cwd=t.dir)
build.run(['objcopy', '--prefix-symbols=dv_', '--redefine-sym', 'mes___raise_div=mes___raise_div', dv])
build.run(['objcopy', '--redefine-sym', 'dv_mes___raise_div=mes___raise_div', dv])
exe = libc.harness(c, 'c21.c', [o, dv, l1])
f, n, s = libc.run(c, exe, jobs=[[str(i)] + (['deep'] if c.thorough else []) for i in range(11)])
libc.report(c, f, n, s, exe, 'all texts up to a length over an alphabet of digits, letters, signs, spaces and prefixes in several bases; the boundary '
            'values of every type in every base 2 to 36, printed and parsed; every pair of boundary values for the division helpers; all character codes')
c.finish()
