"""The Mes C Library, compiled by gcc from the working tree, with every global symbol given the prefix mes_,
linked into one process with a harness that uses the system's C library as the reference."""
import os, re, subprocess, time
from . import build, scheme
H = os.path.join(build.VERIF, 'harness')

def archive(c, tree, exclude=(), extra=(), name='mes'):
    """-> relocatable object with all of libc+gnu except the sources EXCLUDE (base names), plus EXTRA sources;
    an object in EXTRA_OBJS may come compiled."""
    exclude = set(exclude) | {'brk'}
    srcs = [s for s in tree.sources()['libc_gnu_SOURCES'] if os.path.splitext(os.path.basename(s))[0] not in exclude]
    tree.gcc_libs()
    with tree.lock('libcobj'):
        objs = tree.compile_all('gcc-lib', srcs)
        objs += tree.compile_all('gcc-lib-extra', extra)
    r = os.path.join(c.scratch, name + '.r.o')
    build.run(['ld', '-r', '-o', r] + objs)
    o = os.path.join(c.scratch, name + '.o')
    build.run(['objcopy', '--prefix-symbols=mes_', r, o])
    # all of its data in one section, so that a harness can set it back
    names = {m.group(1) for m in re.finditer(r'^ *\d+ (\S+) ', build.run(['objdump', '-h', o]).decode(), re.M)}
    for n in sorted(names):
        if re.match(r'\.(data|bss)(\.|$)', n) and not n.startswith('.data.rel.ro'):
            if n.startswith('.bss'):
                build.run(['objcopy', '--set-section-flags', n + '=alloc,load,contents,data', o])
            build.run(['objcopy', '--rename-section', n + '=mes_data', o])
    undef = [l.split()[-1] for l in build.run(['nm', '-u', o]).decode().splitlines()]
    return o, undef

def harness(c, source, objs, flags=(), name=None):
    exe = os.path.join(c.scratch, name or os.path.splitext(source)[0])
    build.run(['gcc', '-O1', '-g', '-w', '-std=gnu11', '-fno-builtin', '-I', H, '-o', exe, os.path.join(H, source)] + list(objs) + list(flags))
    return exe

def run(c, exe, args=(), jobs=None, timeout=None):
    """Runs EXE with each argument list of JOBS in parallel and collects FAIL, COUNT, SAMPLE lines."""
    from concurrent.futures import ThreadPoolExecutor
    timeout = timeout or (800 if c.thorough else 250)
    jobs = jobs if jobs is not None else [list(args)]
    def one(a):
        d = os.path.join(c.scratch, 'run.' + '.'.join(re.sub(r'\W', '_', x) for x in a))
        os.makedirs(d, exist_ok=True)
        return a, scheme.run([exe] + a, build.base_env(), d, timeout)
    fails, counts, samples = [], {}, []
    with ThreadPoolExecutor(build.JOBS) as ex:
        for a, (rc, o, e) in ex.map(one, jobs):
            done = False
            for l in o.decode('latin-1').split('\n'):
                if l.startswith('FAIL '):
                    case, _, detail = l[5:].partition(' || ')
                    fails.append((case, detail))
                elif l.startswith('COUNT '):
                    w = l.split()
                    for k, v in zip(w[1::2], w[2::2]):
                        counts[k] = counts.get(k, 0) + int(v)
                elif l.startswith('SAMPLE '):
                    samples.append(l[7:])
                elif l.startswith('GROUP '):
                    c.log(l)
                elif l == 'DONE':
                    done = True
            if not done:
                fails.append(('harness %s' % ' '.join(a), 'the process ended early: %r %s %s' % (rc, o[-300:].decode('latin-1'), e[-300:].decode('latin-1'))))
    return fails, counts, samples

def report(c, fails, counts, samples, exe, rule):
    for case, detail in fails:
        c.fail(case, detail, {'how.txt': 'run the harness of this check; it prints a FAIL line for the case\n'})
    c.cov['evaluations'] = counts.get('evaluations', 0)
    c.cov['distinct_nontrivial'] = counts.get('nontrivial', 0)
    for k, v in counts.items():
        if k not in ('evaluations', 'nontrivial'):
            c.cov[k] = v
    c.cov['rule'] = rule
    c.cov['samples'] = samples[::max(1, len(samples) // 12)][:12]
    c.cov['exhaustive'] = True
    if not c.cov['evaluations'] and not fails:
        raise SystemExit('vacuous')
