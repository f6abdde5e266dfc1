#!/usr/bin/env python3
"""C20: string and memory functions of the Mes C Library against the system's C library, every small input."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mesmc import core, build, libc
c = core.Check('C20', 'exploration')
t = build.Tree()
o, undef = libc.archive(c, t, extra=['lib/string/__memcpy.c', 'lib/string/__memmove.c', 'lib/string/__memset.c'])
exe = libc.harness(c, 'c20.c', [o])
f, n, s = libc.run(c, exe, jobs=[[str(i)] + (['deep'] if c.thorough else []) for i in range(7)])
libc.report(c, f, n, s, exe, 'all byte strings up to a length over small alphabets that include 0x7f, 0x80 and 0xff, all pairs of bytes, all '
            'offsets, lengths and overlaps up to a bound, each placed against inaccessible pages; written memory is compared as a whole')
c.finish()
