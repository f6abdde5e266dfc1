#!/usr/bin/env python3
"""C33: MesCC makes the same code from the same input whatever runs it and however it is asked."""
import sys, os, re, itertools, subprocess, shutil, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mesmc import core, build, mescc, c30_tests, c31_tests, c32_tests
c = core.Check('C33', 'exploration')
tree = build.Tree()
tree.mes()
tree.mescc_go()
GU = tree.mes_env(MES='guile')
ME = tree.mes_env()
T = time.time()
BUDGET = 800 if c.thorough else 10**9

def run(env, args, cwd, timeout=400):
    try:
        r = subprocess.run([tree.path('scripts', 'mescc')] + args, env=env, cwd=cwd, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return r.returncode, r.stderr[-800:].decode('latin-1')
    except subprocess.TimeoutExpired:
        return 'timeout', ''

def get(f):
    try:
        with open(f, 'rb') as h:
            return h.read()
    except OSError:
        return None

def directory(name):
    d = os.path.join(c.scratch, name)
    os.makedirs(d)
    return d

def differ(a, b):
    "where two texts part"
    for n, (x, y) in enumerate(itertools.zip_longest(a.split(b'\n'), b.split(b'\n'))):
        if x != y:
            return 'line %d: %r and %r' % (n + 1, (x or b'')[:100], (y or b'')[:100])

# the corpus: the C programs of the tree, and small programs from the grammars of C30, C31 and C32
corpus = []
sc = tree.path('lib', 'tests')
files = sorted(os.path.join(d, f) for d, _, fs in os.walk(sc) for f in fs if f.endswith('.c'))
INC = ['-I', tree.path('include'), '-I', tree.path('lib'), '-D', 'HAVE_CONFIG_H=0']
for n, f in enumerate(files):
    if re.search(r'\b(float|double)\b|[0-9]\.[0-9]', open(f, errors='replace').read()):
        continue # floating point: not claimed
    for m in ('64', '32'):
        if c.thorough or n % 3 == (m == '32'):
            corpus.append((os.path.relpath(f, sc), m, f, INC))
if c.thorough:
    lib = tree.path('lib')
    for f in sorted(os.path.join(d, f) for d, _, fs in os.walk(lib) for f in fs if f.endswith('.c') and '/tests/' not in d and not re.search('/(arm|riscv|hurd|gnu|windows|freebsd|.*-gcc|.*-mes-gcc|m2)', d)):
        corpus.append((os.path.relpath(f, lib), '64', f, INC))
PROG = []
for m in ('64', '32'):
    for mod in (c30_tests, c31_tests, c32_tests):
        kinds = {}
        for g in mod.groups(m, False):
            k = g[0]
            while isinstance(k, tuple):
                k = k[0]
            k = re.sub(r'\W.*', '', str(k)) if mod is c30_tests else str(k)
            kinds.setdefault(k, []).append(g)
        for k, gs in kinds.items():
            step = 1 if k == 'data' else max(1, len(gs) // (8 if c.thorough else 3))
            tests = [(t, g[2] if len(g) > 2 else '') for g in gs[::step] for t in g[1][::max(1, len(g[1]) // 4)]]
            size = 12
            for n in range(0, len(tests), size):
                b = mescc.Batch(m)
                for i, (t, pre) in enumerate(tests[n:n + size]):
                    b.add('t%d' % i, t[0], t[1])
                    b.pre = pre
                name = 'p%s_%s_%s_%d.c' % (mod.__name__[-9:-6], re.sub(r'\W', '', k), m, n // size)
                if c.thorough or k == 'data' and n // size % 2 == (m == '32') or n < 2 * size and k != 'data':
                    PROG.append((name, m, b.text(False), []))
src = directory('src')
for name, m, text, inc in PROG:
    with open(os.path.join(src, name), 'w') as f:
        f.write(text)
    corpus.append((name, m, os.path.join(src, name), ['-nostdinc']))
c.log('%d programs' % len(corpus))

# 1. Guile and Mes as host
def host(j):
    n, (name, m, f, inc) = j
    d = directory('h%d' % n)
    res = []
    for e in (GU, ME):
        res.append((run(e, ['-S', '-m', m] + inc + ['-o', 'out.s', f], d), get(os.path.join(d, 'out.s'))))
        if os.path.exists(os.path.join(d, 'out.s')):
            os.remove(os.path.join(d, 'out.s'))
        if time.time() - T > BUDGET:
            return None
    return name, m, f, res
with ThreadPoolExecutor(8) as ex:
    for r in ex.map(host, enumerate(corpus)):
        if r is None:
            c.add('left out for time')
            continue
        name, m, f, ((g, gs), (me, ms)) = r
        if g[0] != 0:
            # refused: by both
            c.add('programs both hosts refuse')
            if me[0] == 0:
                c.fail('host: %s -m %s: refused by Guile only' % (name, m), g[1])
            continue
        c.add('programs compiled by both hosts')
        if me[0] != 0:
            c.fail('host: %s -m %s: fails on Mes' % (name, m), 'status %s: %s' % me, {os.path.basename(name): open(f).read()})
        elif gs != ms:
            c.fail('host: %s -m %s: differs' % (name, m), differ(gs, ms), {os.path.basename(name): open(f).read(), 'guile.s': gs.decode('latin-1'), 'mes.s': ms.decode('latin-1')})
c.log('hosts compared')

# 2. every way from the source to the program gives the same one; the name of the output, and running again, change nothing
def norm(t, names):
    for n in names:
        t = t.replace(('_string_' + n + '_').encode(), b'_string_')
    return t
ROUTES = [('-S, -c, link', [['-S', '-o', 'x.s', 'in.c'], ['-c', '-o', 'x.o', 'x.s'], ['-nostdlib', '-o', 'x', 'x.o']]),
          ('-S -c', [['-S', 'in.c'], ['-c', 'in.s'], ['-nostdlib', '-o', 'x', 'in.o']]),
          ('-S, link', [['-S', '-o', 'other-name.s', 'in.c'], ['-nostdlib', '-o', 'x', 'other-name.s']]),
          ('-c, link', [['-c', '-o', 'x.o', 'in.c'], ['-nostdlib', '-o', 'x', 'x.o']]),
          ('-c in another directory', [['-c', '-o', 'sub/long.name.o', 'in.c'], ['-nostdlib', '-o', 'x', 'sub/long.name.o']]),
          ('link', [['-nostdlib', '-o', 'x', 'in.c']]),
          ('a.out', [['-nostdlib', 'in.c']]),
          ('-E, link', [['-E', '-o', 'x.E', 'in.c'], ['-nostdlib', '-o', 'x', 'x.E']]),
          ('-E, -S, link', [['-E', '-o', 'x.E', 'in.c'], ['-S', '-o', 'x.s', 'x.E'], ['-nostdlib', '-o', 'x', 'x.s']]),
          ('-E, -c, link', [['-E', 'in.c'], ['-c', 'in.E'], ['-nostdlib', '-o', 'x', 'in.o']]),
          ('verbose', [['-v', '-nostdlib', '-o', 'x', 'in.c']]),
          ('source elsewhere', [['-nostdlib', '-o', 'x', 'sub/in.c']])]
CH = [p for p in PROG if re.search(r'_(0|1)\.c$', p[0])]
CH = CH[::1 if c.thorough else max(1, len(CH) // 10)]
def route(j):
    n, (p, (rname, steps)) = j
    name, m, text, inc = p
    d = directory('r%d' % n)
    os.mkdir(os.path.join(d, 'sub'))
    for x in ('in.c', 'sub/in.c'):
        with open(os.path.join(d, x), 'w') as f:
            f.write(text)
    if time.time() - T > BUDGET:
        return None
    for s in steps:
        st = run(GU, ['-m', m, '-nostdinc'] + s, d)
        if st[0] != 0:
            return name, m, rname, '%s: status %s: %s' % (' '.join(s), *st), None
    x = get(os.path.join(d, 'x')) or get(os.path.join(d, 'a.out'))
    o = next((get(os.path.join(d, f)) for f in ('x.o', 'in.o', 'sub/long.name.o') if os.path.exists(os.path.join(d, f))), None)
    shutil.rmtree(d)
    return name, m, rname, None, (x, o)
ref = {}
obj = {}
with ThreadPoolExecutor(8) as ex:
    for r in ex.map(route, enumerate([(p, r) for p in CH for r in ROUTES])):
        if r is None:
            c.add('left out for time')
            continue
        name, m, rname, err, x = r
        c.add('ways to a program')
        if err:
            c.fail('route: %s -m %s by %s' % (name, m, rname), err)
        elif x[0] is None:
            c.fail('route: %s -m %s by %s' % (name, m, rname), 'no program')
        elif ref.setdefault((name, m), x[0]) != x[0]:
            c.fail('route: %s -m %s by %s' % (name, m, rname), 'another program than by %s' % ROUTES[0][0])
        elif x[1] is not None:
            o = re.sub(rb'_string_[\w./-]*?\.[a-zA-Z]_', b'_string_', x[1])
            c.add('objects compared')
            if obj.setdefault((name, m), o) != o:
                c.fail('route: %s -m %s by %s' % (name, m, rname), 'another object than by %s: %s' % (ROUTES[0][0], differ(obj[name, m], o)))
c.log('ways compared')

# 3. other inputs on the command line: every order of up to three
FN = {'a': 'int a1 (int x)\n{\n return x + 1;\n}\nint a2;\nstatic int as (void)\n{\n return 5;\n}\nint a3 (void)\n{\n return as ();\n}\n',
      'b': 'struct s { int p; char q; };\nint b1 (struct s *x)\n{\n return x->p + x->q;\n}\nint b2[3] = { 1, 2, 3 };\n',
      'd': 'typedef char *t;\nenum { E = 4 };\nint d1 (t x)\n{\n switch (*x)\n {\n case E: return 1;\n default: return 2;\n }\n}\nchar *d2 = "d2";\n'}
def parts(t):
    "the functions and data of an assembly file by name"
    p = {}
    for x in re.split(rb'\n\n+(?=<?\n?:)', b'\n\n' + t):
        m = re.match(rb'(?:<\n)?:(\w+)', x.strip(b'\n'))
        if m:
            p[m.group(1)] = re.sub(rb'^(<\n)|\s*<?\s*$', b'', x.strip(b'\n'))
    return p
alone = {}
for m in ('64', '32'):
    for k in FN:
        d = directory('f%s%s' % (k, m))
        open(os.path.join(d, k + '.c'), 'w').write(FN[k])
        st = run(GU, ['-S', '-m', m, '-nostdinc', '-o', 'out.s', k + '.c'], d)
        t = get(os.path.join(d, 'out.s'))
        if t is None:
            c.fail('alone: %s' % k, st[1])
            t = b''
        alone[m, k] = parts(t)
for n, (m, ks) in enumerate([(m, ks) for m in ('64', '32') for r in (2, 3) for ks in itertools.permutations(sorted(FN), r)]):
    d = directory('m%d' % n)
    for k in FN:
        open(os.path.join(d, k + '.c'), 'w').write(FN[k])
    st = run(GU, ['-S', '-m', m, '-nostdinc', '-o', 'out.s'] + [k + '.c' for k in ks], d)
    t = get(os.path.join(d, 'out.s'))
    c.add('orders of inputs')
    if t is None:
        c.fail('inputs %s -m %s' % (' '.join(ks), m), st[1])
        continue
    p = parts(t)
    for k in ks:
        for f, x in alone[m, k].items():
            if f.startswith((b'HEX2', b'ELF', b'_string')):
                continue
            if p.get(f) != x:
                c.fail('inputs %s -m %s: %s' % (' '.join(ks), m, f.decode()), differ(x, p.get(f) or b''))

# 4. the heap: sizes from too small to ample, for every phase of collections relative to the work
name, m, text, inc = [p for p in PROG if 'c31' in p[0] or 'p31' in p[0]][0] if any('31' in p[0] for p in PROG) else PROG[0]
f = os.path.join(src, name)
want = None
lo, hi, k = (2000000, 8000000, 120) if c.thorough else (2400000, 6000000, 24)
def heap(a):
    d = directory('a%d' % a)
    if time.time() - T > BUDGET + 60:
        return a, None, None
    st = run(dict(ME, MES_ARENA=str(a), MES_MAX_ARENA=str(a)), ['-S', '-m', m, '-nostdinc', '-o', 'out.s', f], d)
    return a, st, get(os.path.join(d, 'out.s'))
d = directory('a')
run(GU, ['-S', '-m', m, '-nostdinc', '-o', 'out.s', f], d)
want = get(os.path.join(d, 'out.s'))
with ThreadPoolExecutor(8) as ex:
    for a, st, t in ex.map(heap, [lo + (hi - lo) * i // k for i in range(k)]):
        if st is None:
            continue
        c.add('heap sizes')
        if st[0] != 0:
            c.add('heap sizes too small')
            if 'out of memory' not in st[1].lower() and 'no room' not in st[1].lower():
                c.fail('heap of %d cells' % a, 'status %s: %s' % st)
        elif t != want:
            c.fail('heap of %d cells' % a, 'other output: ' + differ(want, t or b''))
c.cov['bounds'] = ('every C program of lib/tests and programs of the grammars of C30 to C32, on Guile and on Mes; every way from source to program; '
                   'every order of up to three inputs; a range of heap sizes')
c.samples = ['%s for %s bits, on Guile and on Mes' % (x[0], x[1]) for x in corpus]
c.totals('an evaluation is one comparison of two outputs that have to be the same: one program on the two hosts, one program by one more route, one order of inputs, one heap size; non-trivial: there is an output (the compiler does not refuse)',
         ('programs compiled by both hosts', 'programs both hosts refuse', 'ways to a program', 'orders of inputs', 'heap sizes'), but=('programs both hosts refuse',))
c.finish()
