"""Whole programs, one process each: exit status, standard output and standard error."""
import os
from concurrent.futures import ThreadPoolExecutor
from . import build, scheme

def run_all(c, tree, jobs, timeout=20, cwd=None):
    """jobs: list of (argv after mes, stdin bytes or None, extra env, files {name: text}). Returns [(rc, out, err)].
    Each runs in a new scratch directory of its own; argv may use @ for that directory."""
    mes = tree.mes()
    hangs = []
    def one(ij):
        if len(hangs) > 24:     # each is reported; the others would take the time of all
            return 'timeout', b'', b'not run: too many programs do not end', {}
        i, (argv, inp, env, files) = ij
        d = os.path.join(c.scratch, 'p%d' % i)
        os.makedirs(d, exist_ok=True)
        for n, t in files.items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(t if isinstance(t, bytes) else t.encode('latin-1'))
        e = tree.mes_env()
        e.update(env)
        r = scheme.run([mes] + [a.replace('@', d) for a in argv], e, d, timeout, input=inp if inp is not None else b'')
        if r[0] == 'timeout' and len(hangs) < 8:
            r = scheme.run([mes] + [a.replace('@', d) for a in argv], e, d, timeout * 4, input=inp if inp is not None else b'')
        if r[0] == 'timeout':
            hangs.append(i)
        left = {}
        for root, _, fs in os.walk(d):
            for n in fs:
                p = os.path.join(root, n)
                with open(p, 'rb') as f:
                    left[os.path.relpath(p, d)] = f.read(1 << 20)
        build.shutil.rmtree(d, ignore_errors=True)
        return r + (left,)
    with ThreadPoolExecutor(build.JOBS) as ex:
        return list(ex.map(one, enumerate(jobs)))
