"""Reporting: evidence, known findings, violations and their replay files."""
import os, re, sys, json, time, hashlib, shutil, tempfile, atexit, signal, threading
from . import build
VERIF = build.VERIF

# signals that whoever started the check ignores or blocks (nohup, a background job) are back to normal for what it runs
for _s in (signal.SIGHUP, signal.SIGINT, signal.SIGQUIT, signal.SIGTERM, signal.SIGUSR1, signal.SIGUSR2, signal.SIGALRM, signal.SIGCHLD):
    if signal.getsignal(_s) == signal.SIG_IGN:
        signal.signal(_s, signal.SIG_DFL)
signal.pthread_sigmask(signal.SIG_SETMASK, [])

class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.cov = {}
        self.assumptions = []
        self.viol = []
        self.samples = []
        self.known_hit = {}
        self.scratch = tempfile.mkdtemp(prefix='mesmc.%s.' % prop, dir=os.environ.get('MESMC_TMP', '/tmp'))
        os.chmod(self.scratch, 0o755)
        atexit.register(shutil.rmtree, self.scratch, True)
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
        self.known = []
        kf = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(kf):
            with open(kf) as f:
                self.known = [k for k in json.load(f)['findings'] if k['property'] == prop]
        self.max_report = int(os.environ.get('MESMC_MAXREPORT', '5'))
        self.out = os.path.join(VERIF, 'evidence')
        os.makedirs(self.out, exist_ok=True)
        self.lock = threading.Lock()
        if not self.thorough:
            threading.Thread(target=self.watch, daemon=True).start()

    def watch(self, at=700):
        """A quick run that found violations reports them within the time a check has, even when
        what it found are programs that do not end."""
        while not self.viol or time.time() - self.t0 < at:
            time.sleep(5)
        if not self.lock.acquire(False):
            return
        self.log('stopped: the rest of the exploration takes too long')
        code = self.report()
        sys.stdout.flush()
        kids = {}
        for d in filter(str.isdigit, os.listdir('/proc')):
            try:
                with open('/proc/%s/stat' % d) as f:
                    kids.setdefault(int(f.read().rpartition(')')[2].split()[1]), []).append(int(d))
            except OSError:
                pass
        todo = kids.get(os.getpid(), [])
        while todo:
            k = todo.pop()
            todo += kids.get(k, [])
            try:
                os.kill(k, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(self.scratch, True)
        os._exit(code)

    def log(self, *a):
        print('[%s %.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    def fail(self, case, detail, replay=None):
        """CASE: the text that identifies the failing input; REPLAY: {file name: contents}."""
        for k in self.known:
            if case in k['cases']:
                self.known_hit.setdefault(k['what'], []).append(case)
                return
        self.viol.append((case, detail, replay or {}))

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def totals(self, rule, of, but=()):
        """The sums the evidence states, out of the counts of this run."""
        self.cov['evaluations'] = sum(self.cov.get(k, 0) for k in of)
        self.cov['distinct_nontrivial'] = sum(self.cov.get(k, 0) for k in of if k not in but)
        self.cov['rule'] = rule
        s = self.samples
        self.cov['samples'] = s[::max(1, len(s) // 10)][:10]

    def finish(self):
        self.lock.acquire()
        sys.exit(self.report())

    def report(self):
        for what, cases in sorted(self.known_hit.items()):
            print('KNOWN-FINDING: property=%s %s [%d listed case(s), e.g. %s]' % (self.prop, what, len(cases), cases[0][:120]))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        if self.assumptions:
            ev['assumptions'] = self.assumptions
        tmp = os.path.join(self.out, self.prop + '.json.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write('\n')
        os.rename(tmp, os.path.join(self.out, self.prop + '.json'))
        rdir = os.path.join(self.out, 'replay', self.prop)
        shutil.rmtree(rdir, ignore_errors=True)
        if not self.viol:
            self.log('held on everything explored:', json.dumps({k: v for k, v in self.cov.items() if isinstance(v, (int, bool))}))
            return 0
        self.viol.sort(key=lambda v: len(v[0]))
        kind, order = {}, []
        for v in self.viol:     # the shortest of each kind first
            k = re.match(r'[^(]*', v[0]).group()
            kind[k] = kind.get(k, 0) + 1
            order.append((kind[k], len(v[0])))
        self.viol = [v for _, v in sorted(zip(order, self.viol), key=lambda x: x[0])]
        for n, (case, detail, replay) in enumerate(self.viol[:self.max_report]):
            d = os.path.join(rdir, '%03d' % n)
            os.makedirs(d)
            with open(os.path.join(d, 'case.txt'), 'w') as f:
                f.write(case + '\n\n' + detail + '\n')
            for name, text in replay.items():
                with open(os.path.join(d, name), 'wb') as f:
                    f.write(text if isinstance(text, bytes) else text.encode())
            print('--- %s\n%s' % (case[:600], detail[:1200]))
            print('VIOLATION property=%s replay=%s' % (self.prop, d))
        print('%d violation(s) in all' % len(self.viol))
        return 1
