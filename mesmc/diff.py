"""Exhaustive expansion of templates over finite domains, run on the built mes and on a reference."""
import sys, os, re, itertools, time
from . import core, build, scheme

UNSPEC = re.compile(rb'\*unspecified\*|#<unspecified>')
EXC = re.compile(rb'\(%exception [^ ()]*\)')

def norm(x):
    x = UNSPEC.sub(b'U', x)
    return EXC.sub(b'E', x)

def expand(templates, domains):
    """TEMPLATES: lines with {name} holes; every hole ranges over its whole domain. A template may be
    'cond ?? text': kept only for assignments for which the Python expression cond over the values holds."""
    for t in templates:
        t = t.strip()
        if not t or t.startswith(';;'):
            continue
        names = []
        for n in re.findall(r'\{(\w+)\}', t):
            if n not in names:
                names.append(n)
        for vals in itertools.product(*[domains[n] for n in names]):
            x = t
            for n, v in zip(names, vals):
                x = x.replace('{' + n + '}', v)
            yield t, x

class Group:
    def __init__(self, name, templates, domains=None, prelude='', mes_prelude='', guile_prelude='', norm=norm,
                 strict=False, timeout=60, expect=None, env=None, scope=None, shard=None):
        self.name, self.domains, self.prelude = name, domains or {}, prelude
        self.templates = templates.split('\n') if isinstance(templates, str) else templates
        self.mp, self.gp, self.norm, self.strict, self.timeout, self.expect, self.env = \
            mes_prelude, guile_prelude, norm, strict, timeout, expect, env
        self.scope, self.shard = scope, shard

def explore(c, groups, tree=None):
    """Runs every case of every group on mes and on the reference; a difference is run again alone, and
    reported if it is still there. STRICT: an exception in the reference must be one in mes; otherwise
    such a case is outside the specification and only counted."""
    tree = tree or build.Tree()
    tree.mes()
    R = scheme.Runner(c, tree)
    ev, nontriv, samples, skipped = 0, set(), [], 0
    only = os.environ.get('MESMC_GROUP')
    for g in groups:
        if only and not re.search(only, g.name):
            continue
        t0 = time.time()
        pairs = list(expand(g.templates, g.domains))
        cases = [p[1] for p in pairs]
        if len(set(cases)) != len(cases):
            seen = set()
            pairs = [p for p in pairs if not (p[1] in seen or seen.add(p[1]))]
            cases = [p[1] for p in pairs]
        ref = [g.expect(x) for x in cases] if g.expect else None
        res = R.both(g.prelude, cases, g.mp, g.gp, timeout=g.timeout, ref=ref, env=g.env, shard=g.shard)
        bad, good = [], 0
        for i, (a, b) in enumerate(res):
            na, nb = g.norm(a), g.norm(b)
            if b.startswith(b'#DIED') or b.startswith(b'#MISSING'):
                c.log('reference failed on', cases[i], b)
                skipped += 1
                continue
            if a == b'#SKIPPED':
                skipped += 1
                continue
            ev += 1
            if (nb == b'E' and not g.strict) or (g.scope and not g.scope(b)):
                skipped += 1
                if a.startswith(b'#DIED'):
                    pass
                continue
            good += 1
            if na != nb:
                bad.append(i)
            elif nb not in (b'#t', b'#f', b'U', b'()', b'E'):
                nontriv.add(cases[i])
                if len(samples) < 400 and i % 97 == 5:
                    samples.append('%s => %s' % (cases[i], nb.decode('latin1')))
        first, seen = [], set()
        for i in bad:
            if pairs[i][0] not in seen:
                seen.add(pairs[i][0])
                first.append(i)
        for i in (first + [i for i in bad if i not in first])[:40]:
            if res[i][0].startswith(b'#DIED timeout'):  # it was run alone
                a, b = res[i]
            else:
                (a, b), = R.both(g.prelude, [cases[i]], g.mp, g.gp, timeout=g.timeout, ref=[ref[i]] if ref else None, env=g.env)
                if a == b'#SKIPPED':
                    a, b = res[i]
            if g.norm(a) != g.norm(b):
                top, _, expr = cases[i].rpartition('|=>')
                prog = scheme.MES_T % () + g.mp + '\n' + g.prelude + '\n%s(%%t 0 (lambda () %s))\n' % (top, expr)
                c.fail(cases[i], 'group %s\n mes:      %s\n expected: %s' % (g.name, a.decode('latin1'), b.decode('latin1')),
                       {'case.scm': prog, 'expected.txt': b})
            else:
                # differs only when run after other cases: report the history too
                c.fail(cases[i] + ' ;; after other cases', 'group %s\n mes in sequence: %s\n alone:    %s\n expected: %s'
                       % (g.name, res[i][0].decode('latin1'), a.decode('latin1'), b.decode('latin1')),
                       {'case.scm': g.mp + g.prelude + '\n'.join(cases[max(0, i - 50):i + 1])})
        if len(bad) > 40:
            c.log('%d more differences not run again' % (len(bad) - 40))
        c.log('%-24s %6d cases, %d in scope, %d different, %.1fs' % (g.name, len(cases), good, len(bad), time.time() - t0))
        byt = {}
        for i in bad:
            byt.setdefault(pairs[i][0], []).append(i)
        for t, l in list(byt.items())[:12]:
            a, b = res[l[0]]
            c.log('   %d of %s; e.g. %s -> %s, expected %s' % (len(l), t, cases[l[0]], a[:120].decode('latin1'), b[:120].decode('latin1')))
        if not good and not c.viol:
            raise SystemExit('vacuous group ' + g.name)
    c.add('evaluations', ev)
    c.cov['distinct_nontrivial'] = len(nontriv)
    c.add('outside_specification', skipped)
    c.cov.setdefault('rule', 'every template of the check with every assignment of its holes from finite domains; '
                     'non-trivial: the expected result is neither a bare boolean, the empty list nor unspecified')
    c.cov['samples'] = samples[::max(1, len(samples) // 12)][:12] or cases[:3]
    c.cov['exhaustive'] = True
    return R
