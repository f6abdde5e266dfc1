#!/usr/bin/env python3
"""C26: environment, option parsing, sorting and the search for executables of the Mes C Library."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mesmc import core, build, libc
c = core.Check('C26', 'exploration')
t = build.Tree()
o, undef = libc.archive(c, t, exclude=['execve'], extra=['lib/posix/getopt.c'])
exe = libc.harness(c, 'c26.c', [o])
f, n, s = libc.run(c, exe, jobs=[[str(i)] + (['deep'] if c.thorough else []) for i in range(8)])
libc.report(c, f, n, s, exe, 'every sequence of setenv, unsetenv and getenv up to a length against an exact map; every small array, and every permutation, sorted; '
            'every argument vector of an alphabet up to a length through getopt and getopt_long, call by call against the system\'s; every PATH up to a length')
c.finish()
