#!/usr/bin/env python3
"""C34: the mescc driver makes the files it is asked for, and only those, and its exit status says whether it did."""
import sys, os, re, itertools, subprocess, shutil, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mesmc import core, build, mescc
c = core.Check('C34', 'fault_enumeration')
tree = build.Tree()
tree.mes()
tree.mescc_go()
ENV = {'guile': tree.mes_env(MES='guile'), 'mes': tree.mes_env()}
CRT = os.path.join(c.scratch, 'crt')
BUDGET = 800 if c.thorough else 10**9
T0 = time.time()

def run(host, args, cwd, env=None, timeout=300):
    e = dict(ENV[host])
    e['LIBRARY_PATH'] = CRT
    e.update(env or {})
    for k in ('M1', 'HEX2', 'BLOOD_ELF'):
        if not env or k not in env:
            e.pop(k, None)
    try:
        r = subprocess.run([tree.path('scripts', 'mescc')] + args, env=e, cwd=cwd, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout[-600:].decode('latin-1')
    except subprocess.TimeoutExpired:
        return 'timeout', ''

def snapshot(d):
    s = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            with open(q, 'rb') as h:
                s[os.path.relpath(q, d)] = h.read()
    return s

# --- the inputs
SRC = {}
for m in ('64', '32'):
    SRC[m] = {
        'm.c': 'int f (int x);\nint main ()\n{\n return f (40);\n}\n',
        'f.c': 'static int two = 2;\nint f (int x)\n{\n return x + two;\n}\n',
        'd/e.c': '#include "e.h"\nint main ()\n{\n return E;\n}\n',
        'd/e.h': '#define E 42\n',
        'all.c': 'int main ()\n{\n return 42;\n}\n',
        'bad.c': 'int f (int x)\n{\n return x + ;\n}\n',
        'sem.c': 'int f (int x)\n{\n return no_such_variable + x;\n}\n',
        'note.txt': 'hello\n',
        'keep.c': 'int keep;\n', 'keep.s': 'keep\n', 'keep.o': 'keep\n', 'keep.E': 'keep\n', 'a': 'keep\n'}
# the start file that is linked in front: found through LIBRARY_PATH
for m in ('64', '32'):
    p = os.path.join(CRT, mescc.ARCH[m] + '-mes')
    os.makedirs(p)
    with open(os.path.join(p, 'crt1.c'), 'w') as f:
        f.write('int main ();\n' + mescc.START[m])
    r = run('guile', ['-m', m, '-c', '-o', 'crt1.o', 'crt1.c'], p)
    if r[0]:
        c.fail('base: mescc -c crt1.c', str(r))
        c.finish()
base = {}
def prepare(m):
    d = os.path.join(c.scratch, 'base' + m)
    os.makedirs(os.path.join(d, 'd'))
    for f, t in SRC[m].items():
        with open(os.path.join(d, f), 'w') as h:
            h.write(t)
    for n in ('m', 'f'):
        w = os.path.join(c.scratch, 'w%s%s' % (m, n))
        os.mkdir(w)
        shutil.copy(os.path.join(d, n + '.c'), w)
        for s, x in (('-E', '.E'), ('-S', '.s'), ('-c', '.o')):
            r = run('guile', ['-m', m, s, '-o', n + x, n + '.c'], w)
            if not os.path.exists(os.path.join(w, n + x)):
                c.fail('base: mescc %s %s.c' % (s, n), str(r))
                c.finish()
            # under names of their own, so that what is made from m.c or f.c does not meet them
            shutil.copy(os.path.join(w, n + x), os.path.join(d, n + x[1:] + x))
    base[m] = d
for m in ('64', '32'):
    prepare(m)

# --- what each command line is to make: a model of the driver
def suffix(f, s):
    b = f.rsplit('/', 1)
    return '/'.join(b[:-1] + [b[-1].rsplit('.', 1)[0] + s])
def kind(f):
    return f[f.rindex('.') + 1:] if '.' in f else ''
def ok_input(f):
    return f not in ('none.c', 'none.s', 'none.o', 'none.E', 'bad.c', 'sem.c')
def model(stage, out, ins):
    """(succeeds, files it makes besides the output, output), or None where nothing is claimed.
    The side files: the assembly of what is compiled, next to the object, and objects next to their source."""
    ks = {kind(f) for f in ins}
    if not ks <= set('cEso'):
        return None
    good = all(ok_input(f) for f in ins)
    first = ins[0].rsplit('/', 1)[-1]
    side = set()
    if stage == '-E':
        if ks != {'c'}:
            return None
        good = all(f not in ('none.c', 'bad.c') for f in ins) # only the parser sees it
        return good, side, out or suffix(first, '.E')
    if stage == '-S':
        if not ks <= {'c', 'E'}:
            return None
        return good, side, out or suffix(first, '.s')
    if stage == '-c':
        o = out or suffix(first, '.o')
        if ks <= {'c', 'E'}:
            return good, {suffix(o, '.s')}, o
        if ks <= {'s'}:
            return good, side, o
        if ks <= {'c', 'E', 's'}:
            return False, side, o
        return None
    src = [f for f in ins if kind(f) in 'cE']
    s = [f for f in ins if kind(f) == 's']
    if src:
        side |= {suffix(src[0], '.s'), suffix(src[0], '.o')}
    if s:
        side |= {suffix(s[0], '.o')}
    return good, side, out or 'a.out'

MAIN = ('m.c', 'ms.s', 'mo.o', 'mE.E')
FUN = ('f.c', 'fs.s', 'fo.o', 'fE.E')
WHOLE = ('all.c', 'd/e.c')
def complete(ins):
    return set(ins) & set(WHOLE) and len(ins) == 1 or len(ins) == 2 and set(ins) & set(MAIN) and set(ins) & set(FUN)

CASES = [] # host, machine, stage, output option, inputs, extra arguments
INS = [(x,) for x in MAIN + FUN + WHOLE + ('bad.c', 'sem.c', 'none.c', 'none.s', 'none.o', 'none.E')]
INS += [p for x in MAIN for y in FUN for p in ((x, y), (y, x))]
INS += [p for x in ('m.c', 'ms.s', 'mo.o') for y in ('bad.c', 'sem.c', 'none.c', 'none.s', 'none.o') for p in ((x, y), (y, x))]
for m in ('64', '32'):
    for stage in ('', '-S', '-c', '-E'):
        for out in (None, 'out', 'd/out.x', 'no-dir/out'):
            for ins in INS:
                if stage == '-E' and len(ins) > 1 or out in ('d/out.x', 'no-dir/out') and len(ins) > 1 and not complete(ins):
                    continue
                if model(stage, out, ins) is None:
                    continue
                if stage == '' and not complete(ins) and model(stage, out, ins)[0]:
                    continue # one half of a program: does not link (hex2 decides)
                CASES.append(('guile', m, stage, out, ins))
n = len(CASES)
if not c.thorough:
    # one machine in full, the other with the first output options
    CASES = [x for x in CASES if x[1] == '64' or x[3] in (None, 'out')]
    # Mes as host: single inputs, and the pairs that make a program by default
    CASES += [('mes', '64' if k % 2 else '32', stage, out, ins) for k, (stage, out, ins) in enumerate(
        (stage, out, ins) for stage in ('', '-S', '-c', '-E') for out in (None, 'd/out.x', 'no-dir/out') for ins in INS
        if (len(ins) == 1 and (out is None or ins[0] in ('m.c', 'f.c', 'ms.s', 'all.c')) or complete(ins) and out is None and stage == '') and model(stage, out, ins) is not None
        and (stage or complete(ins) or not model(stage, out, ins)[0]))]
else:
    CASES += [('mes',) + x[1:] for x in CASES]

def program(m, d, f):
    "the exit status of the program"
    try:
        return subprocess.run([os.path.join(d, f)], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20).returncode
    except (OSError, subprocess.TimeoutExpired) as e:
        return str(e)

def finish(m, d, stage, o, ins):
    """what was made, taken further to a program and run: what went wrong, or None"""
    if stage == '':
        st = program(m, d, o)
        return None if st == 42 else 'the program ends with %r instead of 42' % (st,)
    # what the other half of the program is
    w = os.path.join(d, 'zz')
    os.mkdir(w)
    k = {'-S': 's', '-c': 'o', '-E': 'E'}[stage]
    shutil.copy(os.path.join(d, o), os.path.join(w, 'x.' + k))
    args = [os.path.join(w, 'x.' + k)]
    if not complete(ins):
        args.append(os.path.join(d, 'fo.o' if set(ins) & set(MAIN) else 'mo.o'))
    r = run('guile', ['-m', m, '-nodefaultlibs', '-o', os.path.join(w, 'x')] + args, w)
    if r[0] != 0:
        return 'the output does not link: %s' % (r,)
    st = program(m, w, 'x')
    shutil.rmtree(w)
    return None if st == 42 else 'the program made of the output ends with %r instead of 42' % (st,)

def judge(host, m, stage, out, ins, env=None, extra=(), fails=None):
    d = os.path.join(c.scratch, 'k%d' % next(SEQ))
    shutil.copytree(base[m], d)
    before = snapshot(d)
    good, side, o = model(stage, out, ins)
    if out == 'no-dir/out' or fails:
        good = False
    args = ['-m', m, '-nodefaultlibs'] + ([stage] if stage else []) + list(extra) + (['-o', out] if out else []) + list(ins)
    st, err = run(host, args, d, env)
    after = snapshot(d)
    what = []
    name = 'mescc %s' % ' '.join(args)
    if st == 'timeout':
        what.append('does not end')
    changed = {f for f in before if after.get(f) != before[f]}
    new = set(after) - set(before)
    if changed:
        what.append('changes or removes %s' % ' '.join(sorted(changed)))
    if good:
        if st != 0:
            what.append('status %s: %s' % (st, err))
        elif new - side != {o}:
            what.append('makes %s, not %s' % (' '.join(sorted(new)) or 'nothing', ' '.join(sorted({o} | side))))
        else:
            x = finish(m, d, stage, o, ins) if all(ok_input(f) for f in ins) else None
            if x:
                what.append(x)
    else:
        if st == 0:
            what.append('status 0, though it can not be done: %s' % err)
        # (an error nobody catches ends Mes by a signal)
        if new - side - {o}:
            what.append('makes %s' % ' '.join(sorted(new)))
        if st != 0 and out is None and stage == '' and o in new and os.access(os.path.join(d, o), os.X_OK) and program(m, d, o) == 42:
            what.append('leaves a whole program behind, but says it failed')
    shutil.rmtree(d)
    return host, name, env, what
SEQ = itertools.count()

def report(ex, fn, jobs, label):
    for r in ex.map(fn, jobs):
        if r is None:
            c.add('left out for time')
            continue
        host, name, env, what = r
        c.add(label)
        if c.cov[label] % 40 == 1:
            c.samples.append('%s: %s on %s' % (label, name, host))
        if what:
            c.fail('%s: %s%s' % (host, ''.join('%s=%s ' % x for x in sorted((env or {}).items())), name), '\n'.join(what))

with ThreadPoolExecutor(8) as ex:
    report(ex, lambda j: None if time.time() - T0 > BUDGET else judge(*j), CASES, 'command lines')
c.log('command lines')

# --- tools that fail: every tool the driver runs, in every way
tools = os.path.join(c.scratch, 'tools')
os.mkdir(tools)
WAYS = {'false': 'exit 1', 'three': 'exit 3', 'high': 'exit 255', 'term': 'kill -TERM $$', 'segv': 'kill -SEGV $$'}
for n, t in WAYS.items():
    with open(os.path.join(tools, n), 'w') as f:
        f.write('#!/bin/sh\n%s\n' % t)
    os.chmod(os.path.join(tools, n), 0o755)
with open(os.path.join(tools, 'not-executable'), 'w') as f:
    f.write('#!/bin/sh\n')
FAULTS = []
for host in ('guile', 'mes'):
    for w in list(WAYS) + ['not-executable', 'missing']:
        p = os.path.join(tools, w)
        for tool, runs in (('M1', [('', ('all.c',)), ('-c', ('all.c',)), ('-c', ('ms.s',)), ('', ('ms.s', 'fo.o')), ('', ('mo.o', 'fs.s'))]),
                           ('HEX2', [('', ('all.c',)), ('', ('mo.o', 'fo.o'))]),
                           ('BLOOD_ELF', [('', ('all.c',))])):
            for stage, ins in runs:
                if host == 'mes' and not c.thorough and ins != ('all.c',) and w not in ('segv', 'false'):
                    continue
                FAULTS.append((host, '64', stage, None, ins, {tool: p}, ['-g'] if tool == 'BLOOD_ELF' else []))
with ThreadPoolExecutor(8) as ex:
    report(ex, lambda j: None if time.time() - T0 > BUDGET else judge(*j, fails=True), FAULTS, 'failing tools')
    # and tools that are not needed may fail
    U = [(h, '64', s, None, i, {t: os.path.join(tools, 'false')}) for h in ('guile', 'mes') for s, i, t in
         (('-S', ('all.c',), 'M1'), ('-S', ('all.c',), 'HEX2'), ('-E', ('all.c',), 'M1'), ('-c', ('all.c',), 'HEX2'), ('-c', ('ms.s',), 'HEX2'), ('', ('mo.o', 'fo.o'), 'M1'), ('', ('all.c',), 'BLOOD_ELF'))]
    report(ex, lambda j: judge(*j), U, 'tools not needed')
c.log('tools')

# --- debug information: with -g the same behaviour
with ThreadPoolExecutor(8) as ex:
    def debug(j):
        host, m, ins = j
        d = os.path.join(c.scratch, 'g%d' % next(SEQ))
        shutil.copytree(base[m], d)
        st, err = run(host, ['-m', m, '-nodefaultlibs', '-g'] + list(ins), d)
        x = program(m, d, 'a.out') if st == 0 else err
        shutil.rmtree(d)
        return host, 'mescc -g -m %s %s' % (m, ' '.join(ins)), None, [] if st == 0 and x == 42 else ['status %s, program %s' % (st, x)]
    report(ex, debug, [(h, m, i) for h in ('guile', 'mes') for m in ('64', '32') for i in (('all.c',), ('m.c', 'f.c'), ('ms.s', 'fs.s'), ('d/e.c',))], 'programs with debug information')

# --- definitions and include directories: every order of them against the rule that the first directory with the file counts
def directories(j):
    host, m, dirs, form, quoted, own = j
    d = os.path.join(c.scratch, 'i%d' % next(SEQ))
    for k, x in enumerate('pqr'):
        os.makedirs(os.path.join(d, x))
        with open(os.path.join(d, x, 'only-%s.h' % x), 'w') as f:
            f.write('#define ONLY_%s %d\n' % (x, 1 << k))
        if x != 'r':
            with open(os.path.join(d, x, 'shared.h'), 'w') as f:
                f.write('#define SHARED %d\n' % (10 * (k + 1)))
    os.makedirs(os.path.join(d, 's'))
    if own:
        with open(os.path.join(d, 's', 'shared.h'), 'w') as f:
            f.write('#define SHARED 70\n')
    inc = '#include "shared.h"' if quoted else '#include <shared.h>'
    with open(os.path.join(d, 's', 'x.c'), 'w') as f:
        f.write('%s\nint main ()\n{\n return SHARED;\n}\n' % inc)
    have = [x for x in dirs if x != 'r']
    want = 70 if own else (10 * ('pq'.index(have[0]) + 1) if have else None)
    args = ['-m', m, '-nodefaultlibs', '-o', 'x']
    for x in dirs:
        args += {'joined': ['-I' + x], 'apart': ['-I', x]}[form]
    args.append('s/x.c')
    st, err = run(host, args, d)
    got = program(m, d, 'x') if st == 0 else None
    shutil.rmtree(d)
    what = []
    if want is None:
        if st == 0:
            what.append('status 0 without the file')
    elif got != want:
        what.append('status %s, program %s instead of %s: %s' % (st, got, want, err))
    return host, 'mescc %s, %s' % (' '.join(args), inc), None, what
DIRS = [('guile', '64', p, f, q, o) for r in range(0, 4) for p in itertools.permutations('pqr', r) for f in ('joined', 'apart') for q in (True, False) for o in (True, False)
        if not (o and not q)]
DIRS += [('mes', '64') + x[2:] for x in DIRS if c.thorough or x[3] == 'apart' and len(x[2]) == 2]
DEFS = []
for host in ('guile', 'mes'):
    for form in ('joined', 'apart'):
        for args, want in ((['A'], 1), (['A=5'], 5), (['A=B', 'B=6'], 6), (['B=6', 'A=B'], 6), (['A= 7'], 7), (['A=f(3)', 'f(x)=x'], None),
                           ([], 100), (['A=0'], 0), (['A', 'B=2'], 1), (['A=1+1'], 2), (["A='a'"], 97)):
            if want is not None:
                DEFS.append((host, form, args, want))
def defines(j):
    host, form, args, want = j
    d = os.path.join(c.scratch, 'D%d' % next(SEQ))
    os.makedirs(d)
    with open(os.path.join(d, 'x.c'), 'w') as f:
        f.write('#ifndef A\n#define A 100\n#endif\nint main ()\n{\n return A;\n}\n')
    a = ['-m', '64', '-nodefaultlibs', '-o', 'x']
    for x in args:
        a += ['-D' + x] if form == 'joined' else ['-D', x]
    st, err = run(host, a + ['x.c'], d)
    got = program('64', d, 'x') if st == 0 else None
    shutil.rmtree(d)
    return host, 'mescc %s' % ' '.join(a), None, [] if got == want else ['status %s, program %s instead of %s: %s' % (st, got, want, err)]
with ThreadPoolExecutor(8) as ex:
    report(ex, directories, DIRS, 'include directories')
    report(ex, defines, DEFS, 'definitions')
c.log('directories and definitions')

# --- libraries: found in the -L directories in their order, linked once each
def libraries(j):
    host, dirs, libs = j
    m = '64'
    d = os.path.join(c.scratch, 'l%d' % next(SEQ))
    shutil.copytree(base[m], d)
    for k, x in enumerate(('L1', 'L2')):
        p = os.path.join(d, x, 'x86_64-mes')
        os.makedirs(p)
        with open(os.path.join(d, 'g.c'), 'w') as f:
            f.write('int f (int x)\n{\n return x + %d;\n}\n' % (2 + k))
        if not os.path.exists(LIB[k] + '.o'):
            pass
        shutil.copy(LIB[k] + '.o', os.path.join(p, 'libfun.a'))
        shutil.copy(LIB[k] + '.s', os.path.join(p, 'libfun.s'))
        os.remove(os.path.join(d, 'g.c'))
    os.makedirs(os.path.join(d, 'L3'))
    args = ['-m', m, '-nodefaultlibs', '-o', 'x'] + [y for x in dirs for y in ('-L', x)] + ['m.c'] + [x for y in libs for x in ('-l', y)]
    st, err = run(host, args, d)
    have = [x for x in dirs if x != 'L3']
    want = None if not have or 'none' in libs or 'fun' not in libs else 41 + int(have[0][1])
    got = program(m, d, 'x') if st == 0 else None
    shutil.rmtree(d)
    what = []
    if want is None:
        if st == 0:
            what.append('status 0 without the library')
    elif got != want:
        what.append('status %s, program %s instead of %s: %s' % (st, got, want, err))
    return host, 'mescc %s' % ' '.join(args), None, what
LIB = []
for k in (0, 1):
    p = os.path.join(c.scratch, 'libfun%d' % k)
    with open(p + '.c', 'w') as f:
        f.write('int f (int x)\n{\n return x + %d;\n}\n' % (2 + k))
    run('guile', ['-m', '64', '-c', '-o', p + '.o', p + '.c'], c.scratch)
    LIB.append(p)
LIBS = [(h, dirs, libs) for h in ('guile', 'mes') for r in (0, 1, 2, 3) for dirs in itertools.permutations(('L1', 'L2', 'L3'), r) for libs in (['fun'], ['fun', 'fun'], ['none'], ['fun', 'none'], [])
        if h == 'guile' or libs == ['fun']]
with ThreadPoolExecutor(8) as ex:
    report(ex, libraries, LIBS, 'libraries')
c.log('libraries')
c.totals('an evaluation is one run of the driver with one command line on one host (Guile or Mes), its status, the files it leaves and what the program it makes does compared with a model; every one is non-trivial but those of tools that the stage does not need',
         ('command lines', 'failing tools', 'tools not needed', 'programs with debug information', 'include directories', 'definitions', 'libraries'), but=('tools not needed',))
c.finish()
