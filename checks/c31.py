#!/usr/bin/env python3
"""C31: statements, conditions, jumps and functions compiled by MesCC, run next to the same program compiled by gcc."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mesmc import core, build, mescc, c31_tests
c = core.Check('C31', 'exploration')
tree = build.Tree()
c.cov['bounds'] = ('every pair of nested statements and conditions, switches over every arrangement of cases and ways out, jumps between labels, '
                   'functions of up to the stated number of parameters of every type, directly and through pointers, scopes; for x86_64 and x86; '
                   'each on every value of the decisions it takes; compared with gcc where C defines the result')
for m in ('64', '32'):
    mescc.run_groups(c, mescc.Cc(tree, m), list(c31_tests.groups(m, c.thorough)), 'g' + m)
c.finish()
