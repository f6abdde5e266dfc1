"""Runs numbered Scheme cases under mes and under a reference, in shards, and survives crashes."""
import os, subprocess, re, time, signal
from concurrent.futures import ThreadPoolExecutor
from . import build

def run(cmd, env, cwd, timeout, stdin=subprocess.DEVNULL, input=None):
    """-> (rc or 'timeout', stdout, stderr); the whole process group is ended on timeout."""
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdin=subprocess.PIPE if input is not None else stdin,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, e = p.communicate(input, timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return 'timeout', o, e

MES_T = r'''
(define (%%t i th)
  (core:display "\n\v") (core:display i) (core:display " ")
  (%%p (catch #t th (lambda (k . a) (list '%%exception k))))
  (core:display "\f"))
(define (%%p x) (write x))
'''
GUILE_T = r'''
(define (%%t i th)
  (display "\n\v") (display i) (display " ")
  (%%p (catch #t th (lambda (k . a) (list '%%exception k))))
  (display "\f"))
(define (%%p x) (write x))
'''
RX = re.compile(rb'\n\x0b(\d+) (.*?)\x0c', re.S)

class Runner:
    def __init__(self, check, tree, jobs=None):
        self.c, self.t = check, tree
        self.jobs = jobs or build.JOBS
        self.n = 0
        self.seq = 0
        self.retry = 20
        self.deaths = 0
        self.max_deaths = 40    # after so many cases that end the process, the rest are skipped
        self.hangs = 0
        self.max_hangs = 7      # the same for cases that do not end

    def mes_cmd(self, f):
        return [self.t.path('bin', 'mes'), '-s', f], self.t.mes_env()

    def guile_cmd(self, f):
        return ['guile', '--no-auto-compile', '-s', f], build.base_env()

    def batch(self, kind, prelude, cases, ids, timeout, env=None):
        """Runs the cases IDS in one process; returns {id: bytes}; a case that kills or hangs the
        process gets b'#DIED rc' and the rest continue in a new process."""
        res = {}
        todo = list(ids)
        head = (MES_T if kind == 'mes' else GUILE_T) % () + prelude
        while todo:
            if self.deaths > self.max_deaths or self.hangs > self.max_hangs:
                res.update((i, b'#SKIPPED') for i in todo)
                break
            self.seq += 1
            f = os.path.join(self.c.scratch, '%s%d_%d.scm' % (kind, os.getpid(), id(todo) ^ self.seq))
            with open(f, 'w', encoding='latin-1' if kind == 'mes' else 'utf-8') as fh:
                fh.write(head + '\n')
                for i in todo:
                    # 'FORMS |=> EXPR': FORMS are evaluated at top level first
                    top, _, expr = cases[i].rpartition('|=>')
                    fh.write('%s(%%t %d (lambda () %s))\n' % (top, i, expr))
            cmd, e = (self.mes_cmd if kind == 'mes' else self.guile_cmd)(f)
            if env and kind == 'mes':
                e = dict(e, **env)
            rc, out, err = run(cmd, e, self.c.scratch, timeout)
            os.unlink(f)
            got = {}
            for m in RX.finditer(out):
                got[int(m.group(1))] = m.group(2)
            res.update((i, got[i]) for i in todo if i in got)
            rest = [i for i in todo if i not in got]
            if not rest:
                break
            # the first one missing is the one that ended the process; run it alone to be sure
            bad = rest[0]
            if len(todo) > 1:
                r = self.batch(kind, prelude, cases, [bad], self.retry, env)
                res.update(r)
            else:
                tail = out[-300:] + b' | ' + err[-300:]
                res[bad] = b'#DIED %s' % str(rc).encode()
                if kind == 'mes':
                    self.deaths += 1
                    if rc == 'timeout':
                        self.hangs += 1
                self.last_died = tail
            todo = rest[1:]
        return res

    def both(self, prelude, cases, mes_prelude='', guile_prelude='', timeout=120, shard=None, ref=None, env=None, common_guile=True):
        """cases: list of expressions. Returns list of (mes, reference) byte strings."""
        n = len(cases)
        shard = shard or max(50, min(4000, (n + self.jobs * 2 - 1) // (self.jobs * 2)))
        chunks = [list(range(i, min(n, i + shard))) for i in range(0, n, shard)]
        kinds = ['mes'] + (['guile'] if ref is None else [])
        def one(j):
            kind, ids = j
            p = (mes_prelude if kind == 'mes' else guile_prelude) + '\n' + prelude
            return kind, self.batch(kind, p, cases, ids, timeout, env)
        out = {'mes': {}, 'guile': {}}
        with ThreadPoolExecutor(self.jobs) as ex:
            for kind, r in ex.map(one, [(k, ch) for ch in chunks for k in kinds]):
                out[kind].update(r)
        if ref is not None:
            return [(out['mes'].get(i, b'#MISSING'), ref[i]) for i in range(n)]
        return [(out['mes'].get(i, b'#MISSING'), out['guile'].get(i, b'#MISSING')) for i in range(n)]
