#!/usr/bin/env python3
"""C25: malloc, calloc, realloc and free of the Mes C Library: every sequence up to a depth, every refusal by the system."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mesmc import core, build, libc
c = core.Check('C25', 'fault_enumeration')
t = build.Tree()
o, undef = libc.archive(c, t)
exe = libc.harness(c, 'c25.c', [o])
f, n, s = libc.run(c, exe, jobs=[[str(i)] + (['deep'] if c.thorough else []) for i in range(16)])
libc.report(c, f, n, s, exe, 'every sequence of malloc, calloc, realloc, free and strdup over a set of sizes up to a depth, with every one of its requests to '
            'the system refused in turn, and with sizes no system has; after each step every live block is checked for place, alignment, overlap and content')
c.finish()
