"""C01: at every moment at which the interpreter may collect, a collection changes nothing a program does."""
import sys, os, subprocess, re, itertools
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mesmc import core, build, scheme
from mesmc.c01_programs import PROGRAMS, KINDS, HOLDERS, PRELUDE, product_program

c = core.Check('C01', 'exploration')
T = c.thorough
tree = build.Tree()
c.log('building')
tree.mes()
exe = tree.path('bin', 'mes-gc')
with tree.lock('mesgc'):
    obj = c.scratch + '/gcdrv.o'
    build.run(['gcc', '-O1', '-c'] + tree.CPP + tree.CFL + ['-o', obj, build.VERIF + '/harness/gcdrv.c'], cwd=tree.dir)
    tree.link(exe, tree.compile_all('src-obj', tree.sources()['mes_SOURCES']) + [obj], ['-Wl,--wrap=gc_check,--wrap=gc_stats'])
shown = {}

def run(binary, file, env, d, timeout):
    """As scheme.run, with standard output a file."""
    with open(d + '/out.main', 'w+b') as o:
        p = subprocess.Popen([binary, '-s', file], env=env, cwd=d, stdin=subprocess.DEVNULL, stdout=o,
                             stderr=subprocess.PIPE, start_new_session=True)
        try:
            _, err = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            _, err = p.communicate()
            rc = 'timeout'
        o.seek(0)
        return rc, o.read(), err

class Prog:
    def __init__(self, name, text, guile=True):
        self.name, self.text, self.guile = name, text, guile
        self.dir = os.path.join(c.scratch, re.sub(r'\W', '_', name))
        os.makedirs(self.dir)
        self.file = self.dir + '/p.scm'
        with open(self.file, 'w') as f:
            f.write(text)
        self.seq = 0
    def mes(self, mode, compare=False, timeout=120, binary=exe, ref=True, **env):
        self.seq += 1
        d = '%s/%d' % (self.dir, self.seq)
        os.makedirs(d)
        e = tree.mes_env(MESMC_GC=mode, MES_ARENA='2000000', MES_MAX_ARENA='2000000', MES_STACK='100000', **env)
        if ref:
            e['MESMC_REF'] = self.dir + '/ref'
        if compare:
            e['MESMC_COMPARE'] = '1'
        return run(binary, self.file, e, d, timeout)

def stats(err):
    m = re.findall(rb'GC points (\d+) schedules (\d+) bad (\d+) collections (\d+)', err)
    return tuple(map(int, m[-1])) if m else None

def bads(err):
    return [l.decode('latin-1') for l in err.splitlines() if l.startswith(b'GC BAD')]

def report(p, how, detail):
    k = (p.name, how)
    shown[k] = shown.get(k, 0) + 1
    if shown[k] <= 2:
        c.log('BAD', p.name, how, detail[:300].replace('\n', '~'))
        c.fail('%s: %s' % (p.name, how), detail, {'program.scm': p.text})

def base(p):
    """The output without any collection, which must also be the reference interpreter's."""
    rc, out, err = p.mes('n', ref=False)
    st = stats(err)
    if rc != 0 or st is None:
        report(p, 'without collection', 'status %s\n%s\n%s' % (rc, out[-300:].decode('latin-1'), err[-600:].decode('latin-1')))
        return None
    with open(p.dir + '/ref', 'wb') as f:
        f.write(out)
    p.ref, p.points = out, st[0]
    if p.guile:
        rc, g, ge = scheme.run(['guile', '--no-auto-compile', '-s', p.file], build.base_env(), p.dir, 60)
        if rc != 0:
            raise Exception('reference fails on %s: %s' % (p.name, ge[-400:].decode()))
        if g != out:
            report(p, 'without collection', 'output   %r\nreference %r' % (out[:600], g[:600]))
        c.add('programs_compared_with_reference')
    c.add('programs')
    c.add('collection_points', p.points)
    return p

def every(job):
    p, n, ph = job
    rc, out, err = p.mes('e%d,%d' % (n, ph), compare=(n == 1 and (T or not p.name.startswith('every kind'))))
    st = stats(err)
    how = 'a collection at every %d. point from %d' % (n, ph)
    if rc != 0 or out != p.ref:
        report(p, how, 'status %s\noutput   %r\nexpected %r\n%s' % (rc, out[:400], p.ref[:400], err[-500:].decode('latin-1')))
    for b in bads(err)[:2]:
        report(p, how, b)
    if st:
        c.add('collections', st[3])
        if n == 1 and (T or not p.name.startswith('every kind')):
            c.add('heaps_compared', st[3])
    c.add('schedules')

def fork(job):
    p, d, fr, stride = job
    rc, out, err = p.mes('f%d,%d,%d' % (d, fr, stride), timeout=800 if T else 400)
    st = stats(err)
    how = 'up to %d collection(s)' % d
    for b in bads(err)[:2]:
        report(p, how, b + '\nexpected %r' % p.ref[:400])
    if rc != 0 or st is None:
        if not bads(err):
            report(p, how, 'status %s\n%s' % (rc, err[-500:].decode('latin-1')))
        return
    sub = sum(map(int, re.findall(rb'GC sub \d+ schedules (\d+)', err)))
    c.add('schedules', st[1] + sub)
    c.add('schedules_of_%d' % d, st[1] + sub)

def arena(job):
    """The interpreter as it is, with a small or growing heap."""
    p, env = job
    d = '%s/a%d' % (p.dir, p.seq); p.seq += 1
    os.makedirs(d)
    e = tree.mes_env(**env)
    for k in ('MES_MAX_ARENA', 'MES_STACK', 'MES_ARENA'):
        if k not in env:
            e.pop(k, None)
    rc, out, err = scheme.run([tree.path('bin', 'mes'), '-s', p.file], e, d, 120)
    c.add('heap_settings')
    how = 'heap ' + ' '.join('%s=%s' % kv for kv in sorted(env.items()))
    if rc == 0 and out == p.ref:
        c.add('heap_settings_with_the_same_result')
        return
    # not enough memory: said so, and what was written until then is what is written with enough
    if rc not in (0, 'timeout') and re.search(rb'out of memory|STACK FULL|realloc failed', err) and p.ref.startswith(out):
        c.add('heap_settings_reported_as_too_small')
        return
    report(p, how, 'status %s\noutput   %r\nexpected %r\n%s' % (rc, out[:400], p.ref[:400], err[-500:].decode('latin-1')))

ps = [Prog(n, t, g) for n, t, g in PROGRAMS]
for h in HOLDERS:
    ps.append(Prog('every kind of datum in ' + h[0], product_program(h, KINDS), False))
with ThreadPoolExecutor(build.JOBS) as ex:
    ps = [p for p in ex.map(base, ps) if p]
    c.log('%d programs, %d points' % (len(ps), sum(p.points for p in ps)), [(p.name[:22], p.points) for p in ps if os.environ.get('MESMC_V')])
    small = lambda p: p.points <= 3300 and not p.name.startswith('work')
    prod = lambda p: p.name.startswith('every kind')
    work = lambda p: p.name.startswith('work')
    ns = lambda p: (1, 2, 3, 5, 8, 13) if T else (1, 3) if small(p) else (1,) if prod(p) else (9,)
    jobs = [(p, n, ph) for p in ps for n in ns(p) for ph in (range(n) if T else (0,))]
    if os.environ.get('MESMC_V') == '2':
        c.finish()
    list(ex.map(every, sorted(jobs, key=lambda j: -j[0].points)))
    c.log('every N-th point done, %d collections' % c.cov.get('collections', 0))
    jobs = []
    for p in sorted(ps, key=lambda p: -p.points):
        if work(p) or not T and not small(p):
            continue
        n = max(1, p.points // 150)
        jobs += [(p, 1, i, n) for i in range(n)]
    list(ex.map(fork, jobs))
    c.log('single collections done, %d schedules' % c.cov.get('schedules', 0))
    if T:
        jobs = [(p, 2, i, 16) for p in ps if p.points <= 420 for i in range(16)]
        c.cov['programs_with_all_pairs'] = len(jobs) // 16
        list(ex.map(fork, jobs))
        c.log('pairs of collections done')
    # the collector as the program triggers it
    big = [p for p in ps if work(p)]
    sizes = list(range(30000, 120000, 250 if T else 2500)) + [150000, 200000, 300000, 400000]
    jobs = []
    for p in big:
        for a in sizes:
            jobs.append((p, dict(MES_ARENA=str(a), MES_MAX_ARENA=str(a))))
        for a in sizes[::2 if T else 6]:
            for j in ('1000', '5000', '200000'):
                jobs.append((p, dict(MES_ARENA=str(a), MES_MAX_ARENA='2000000', MES_JAM=j)))
            for s in ('50', '1000', '10000'):
                # with hardly more room than the margin every check collects, and the program takes minutes
                if a >= 60000 or s != '10000':
                    jobs.append((p, dict(MES_ARENA=str(a), MES_MAX_ARENA='2000000', MES_SAFETY=s)))
        for s in ('1000', '2000', '5000', '20000', '100000'):
            jobs.append((p, dict(MES_ARENA='100000', MES_STACK=s)))
    c.log('%d settings of the heap' % len(jobs))
    list(ex.map(arena, jobs))
c.cov.update(exhaustive=True, bounds='%d programs; every single collection point of each%s%s; a collection at every N-th point for N of %s; every heap size of a list' %
             (len(ps), '' if T else ' with up to 3300', ', every pair for those of at most 420 points' if T else '', '1,2,3,5,8,13 at every phase' if T else '1 and 3 (programs of up to 3300 points), 1 (products of kinds and holders), 9 (others)'))
c.assumptions.append('collections happen only where the interpreter calls gc_check or (gc); every such call of a program, between its two calls of gc-stats, is a decision point')
c.samples = ['%s, collecting at point %d of %d' % (p.name, p.points // 2, p.points) for p in ps]
c.totals('an evaluation is one run of a program with collections at chosen points, or with one setting of the heap; distinct by program and schedule; compared: the heap graph across each collection, and the output with that of no collection and of Guile',
         ('schedules', 'heap_settings'), but=())
c.finish()
