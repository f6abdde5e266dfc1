#!/usr/bin/env python3
"""C23: formatted input of the Mes C Library against the system's C library, over a grammar of formats."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mesmc import core, build, libc
c = core.Check('C23', 'exploration')
t = build.Tree()
o, undef = libc.archive(c, t, exclude=['_read'])
exe = libc.harness(c, 'c23.c', [o])
f, n, s = libc.run(c, exe, jobs=[[str(i)] + (['deep'] if c.thorough else []) for i in range(17)])
libc.report(c, f, n, s, exe, 'all formats of up to three items (conversions, spaces, characters) with all texts up to a length over an alphabet of digits, '
            'signs, spaces and letters; boundary numerals with all separators; results, count and the rest of the stream are compared')
c.finish()
