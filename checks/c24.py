#!/usr/bin/env python3
"""C24: streams and descriptors of the Mes C Library on a model kernel, every sequence up to a depth, every spoilt answer."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mesmc import core, build, libc
c = core.Check('C24', 'fault_enumeration')
t = build.Tree()
o, undef = libc.archive(c, t, exclude=['syscall', '_write'])
exe = libc.harness(c, 'c24.c', [o])
f, n, s = libc.run(c, exe, jobs=[[str(i)] + (['deep'] if c.thorough else []) for i in range(16)], timeout=850 if c.thorough else 300)
libc.report(c, f, n, s, exe, 'every sequence of stream operations, and of descriptor operations, up to a length, over files in every mode, pipes and terminals, with three buffer sizes; '
            'and with each single system call of it failing or transferring less, in turn; against a reference that never reads ahead')
c.finish()
