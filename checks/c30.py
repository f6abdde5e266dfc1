#!/usr/bin/env python3
"""C30: expressions compiled by MesCC for x86_64, run next to the same program compiled by gcc."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mesmc import core, build, mescc, c30_tests
c = core.Check('C30', 'exploration')
cc = mescc.Cc(build.Tree(), '64')
c.cov['bounds'] = ('every operator with every pair of operand types of char to unsigned long, each operand in every kind of place '
                   '(global, local, pointed to, element, member), every tuple of boundary values, every pair of nested operators, casts, '
                   'conversions, compound assignments, constant expressions; compared with gcc where C defines the result')
mescc.run_groups(c, cc, list(c30_tests.groups('64', c.thorough)))
c.finish()
