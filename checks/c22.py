#!/usr/bin/env python3
"""C22: formatted output of the Mes C Library against the system's C library, over a grammar of formats."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mesmc import core, build, libc
c = core.Check('C22', 'exploration')
t = build.Tree()
o, undef = libc.archive(c, t, exclude=['_write'])
exe = libc.harness(c, 'c22.c', [o])
f, n, s = libc.run(c, exe, jobs=[[str(i)] + (['deep'] if c.thorough else []) for i in range(13)])
libc.report(c, f, n, s, exe, 'every combination of flags, width, precision (also as *), length modifier and conversion with boundary arguments, '
            'all sequences of up to four conversions and texts; every limit of vsnprintf around the length, each against an inaccessible page')
c.finish()
