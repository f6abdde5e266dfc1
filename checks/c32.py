#!/usr/bin/env python3
"""C32: structures, unions, arrays, pointers, initializers and storage compiled by MesCC, run next to the same program compiled by gcc."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mesmc import core, build, mescc, c32_tests
c = core.Check('C32', 'exploration')
tree = build.Tree()
c.cov['bounds'] = ('structures and unions of up to three members of every kind in every kind of place, every member written and all bytes compared; '
                   'copies of structures of every size; every shape of initializer; arrays, pointers, static and external storage; '
                   'for x86_64 and x86; compared with gcc where C defines the result')
for m in ('64', '32'):
    mescc.run_groups(c, mescc.Cc(tree, m), list(c32_tests.groups(m, c.thorough)), 'g' + m)
c.finish()
