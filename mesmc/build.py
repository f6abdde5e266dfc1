"""Builds what the checks need from the working tree of /repo, outside /repo.

Nothing in /repo is read except its source files (tracked, or new and not ignored): the
build products lying there may be older than the sources."""
import os, sys, subprocess, hashlib, shutil, tempfile, re, fcntl, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('MESMC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.build')
JOBS = int(os.environ.get('MESMC_JOBS', '8'))

class BuildError(Exception):
    pass

def base_env():
    e = {k: v for k, v in os.environ.items()
         if not (k.startswith('MES') or k in ('CC', 'CFLAGS', 'CPPFLAGS', 'LDFLAGS', 'LC_ALL', 'SCHEME',
                                              'GUILE_LOAD_COMPILED_PATH', 'TESTS', 'V', 'srcdest', 'srcdir'))}
    e.update(HOME='/root', PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
             LANG='C.UTF-8', GUILE_AUTO_COMPILE='0', V='0',
             GUILE_LOAD_PATH='/usr/share/guile/3.0:/usr/share/guile/site/3.0')
    return e

def source_files():
    out = subprocess.run(['git', '-c', 'safe.directory=*', '-C', REPO, 'ls-files', '-co', '--exclude-standard', '-z'],
                         stdout=subprocess.PIPE, check=True).stdout
    fs = [f.decode() for f in out.split(b'\0') if f]
    return sorted(f for f in fs if os.path.isfile(os.path.join(REPO, f)))

def tree_hash(files):
    h = hashlib.sha256()
    for f in files:
        p = os.path.join(REPO, f)
        h.update(f.encode() + b'\0' + (b'x' if os.access(p, os.X_OK) else b'-'))
        if os.path.islink(p):
            h.update(os.readlink(p).encode())
        else:
            with open(p, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    for f in ('build.py',):
        with open(os.path.join(VERIF, 'mesmc', f), 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]

class Tree:
    """A configured copy of the sources, in a cache keyed by their content."""
    def __init__(self):
        files = source_files()
        self.hash = tree_hash(files)
        self.dir = os.path.join(CACHE, self.hash)
        os.makedirs(CACHE, exist_ok=True)
        with self.lock('tree'):
            if not os.path.exists(os.path.join(self.dir, '.configured')):
                if os.path.isdir(self.dir):
                    shutil.rmtree(self.dir)
                tmp = self.dir
                os.makedirs(tmp)
                for f in files:
                    d = os.path.join(tmp, f)
                    os.makedirs(os.path.dirname(d), exist_ok=True)
                    shutil.copy2(os.path.join(REPO, f), d, follow_symlinks=False)
                r = subprocess.run(['./configure', 'CC=gcc', 'CFLAGS=-fno-stack-protector'], cwd=tmp,
                                   env=base_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   stdin=subprocess.DEVNULL)
                if r.returncode:
                    raise BuildError('configure: ' + r.stdout.decode(errors='replace')[-2000:])
                open(os.path.join(tmp, '.configured'), 'w').close()
        os.utime(self.dir)
        self.prune()

    def prune(self):
        ds = [d for d in os.listdir(CACHE) if re.fullmatch(r'[0-9a-f]{20}', d)]
        ds.sort(key=lambda d: os.path.getmtime(os.path.join(CACHE, d)))
        for d in ds[:-3]:
            p = os.path.join(CACHE, d)
            if d != self.hash and time.time() - os.path.getmtime(p) > 1200:
                shutil.rmtree(p, ignore_errors=True)

    def lock(self, name):
        return FileLock(os.path.join(CACHE, self.hash + '.' + name + '.lock'))

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def sources(self, compiler='gcc', cpu='x86_64'):
        """The project's own source lists, from build-aux/configure-lib.sh."""
        names = ['libc_mini_SOURCES', 'libmes_SOURCES', 'libmescc_SOURCES', 'libc_SOURCES', 'libc_tcc_SOURCES',
                 'libc_gnu_SOURCES', 'libtcc1_SOURCES', 'mes_SOURCES']
        bits = '64' if cpu == 'x86_64' else '32'
        sh = ('. ./config.sh >/dev/null; mes_cpu=%s; mes_bits=%s; compiler=%s; . build-aux/configure-lib.sh; ' % (cpu, bits, compiler)
              + ''.join('echo "@%s" ${%s}; ' % (n, n) for n in names))
        r = subprocess.run(['bash', '-c', sh], cwd=self.dir, env=base_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
        d = {}
        for line in r.stdout.decode().splitlines():
            w = line.split()
            if w and w[0].startswith('@'):
                d[w[0][1:]] = w[1:]
        if not all(d.get(n) for n in names):
            raise BuildError('source lists: ' + r.stderr.decode())
        return d

    CPP = ['-D', 'HAVE_CONFIG_H=1', '-I', 'lib', '-I', 'include', '-I', 'include/linux/x86_64']
    CFL = ['-static', '-nostdinc', '-nostdlib', '-fno-builtin', '-fno-stack-protector', '-w']

    def compile_all(self, out, srcs, extra=()):
        """gcc each source into OUT/<basename>.o; the first of two sources with one basename wins."""
        os.makedirs(self.path(out), exist_ok=True)
        seen, jobs = {}, []
        for s in srcs:
            b = os.path.splitext(os.path.basename(s))[0]
            if b in seen:
                continue
            seen[b] = s
            o = self.path(out, b + '.o')
            if not os.path.exists(o):
                jobs.append((s, o))
        def one(j):
            s, o = j
            r = subprocess.run(['gcc', '-c'] + self.CPP + self.CFL + list(extra) + ['-o', o + '.tmp', s], cwd=self.dir,
                               env=base_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                return s + ': ' + r.stdout.decode(errors='replace')[-1500:]
            os.rename(o + '.tmp', o)
        with ThreadPoolExecutor(JOBS) as ex:
            errs = [e for e in ex.map(one, jobs) if e]
        if errs:
            raise BuildError('\n'.join(errs[:3]))
        return [self.path(out, b + '.o') for b in seen]

    def gcc_libs(self):
        """The Mes C Library for gcc: crt1.o, libc.a, libc+gnu.a, in gcc-lib."""
        with self.lock('gcclib'):
            stamp = self.path('gcc-lib', '.done')
            if not os.path.exists(stamp):
                L = self.sources()
                self.compile_all('gcc-lib', ['lib/linux/x86_64-mes-gcc/crt1.c'])
                for a, n in (('libc.a', 'libc_SOURCES'), ('libc+tcc.a', 'libc_tcc_SOURCES'),
                             ('libc+gnu.a', 'libc_gnu_SOURCES'), ('libmes.a', 'libmes_SOURCES'),
                             ('libc-mini.a', 'libc_mini_SOURCES')):
                    objs = self.compile_all('gcc-lib', L[n])
                    run(['ar', 'crD', self.path('gcc-lib', a)] + objs)
                run(['ar', 'crD', self.path('gcc-lib', 'libgetopt.a')] + self.compile_all('gcc-lib', ['lib/posix/getopt.c']))
                open(stamp, 'w').close()
        return self.path('gcc-lib')

    def mes(self):
        """bin/mes, linked with the Mes C Library as the project links it."""
        self.gcc_libs()
        with self.lock('mes'):
            exe = self.path('bin', 'mes')
            if not os.path.exists(exe):
                os.makedirs(self.path('bin'), exist_ok=True)
                objs = self.compile_all('src-obj', self.sources()['mes_SOURCES'])
                self.link(exe, objs)
        return exe

    def link(self, exe, objs, extra=(), libs=('-lc', '-lgcc', '-lc')):
        run(['gcc'] + self.CFL + ['-static', '-g', '-o', exe + '.tmp', self.path('gcc-lib', 'crt1.o')] + list(objs)
            + list(extra) + ['-L', self.path('gcc-lib')] + list(libs))
        os.rename(exe + '.tmp', exe)

    def mes_env(self, **kw):
        """The environment pre-inst-env gives."""
        e = base_env()
        e.update(MES_PREFIX=self.dir, MES=self.path('bin', 'mes'), MES_UNINSTALLED='1', LANG='', LC_ALL='',
                 srcdest=self.dir + '/', abs_top_srcdir=self.dir, abs_top_builddir=self.dir,
                 GUILE_LOAD_PATH='%s:%s:%s' % (self.path('module'), self.path('mes'), e['GUILE_LOAD_PATH']),
                 GUILE_LOAD_COMPILED_PATH='%s:%s' % (self.path('scripts'), self.path('module')),
                 PATH='%s:%s:%s' % (self.path('scripts'), self.path('bin'), e['PATH']),
                 MES_ARENA='20000000', MES_MAX_ARENA='20000000', MES_STACK='5000000')
        e.update(kw)
        return e

    def mescc_go(self):
        """Compiles the MesCC modules for Guile (they run 25 times faster there)."""
        with self.lock('go'):
            stamp = self.path('module', '.done')
            if not os.path.exists(stamp):
                r = subprocess.run(['bash', 'build-aux/build-guile.sh'], cwd=self.dir, env=base_env(),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
                if r.returncode:
                    raise BuildError('build-guile: ' + r.stdout.decode(errors='replace')[-2000:])
                open(stamp, 'w').close()

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=base_env(), **kw)
    if r.returncode:
        raise BuildError(' '.join(cmd)[:300] + '\n' + r.stdout.decode(errors='replace')[-3000:])
    return r.stdout

class FileLock:
    def __init__(self, p):
        self.p = p
    def __enter__(self):
        self.f = open(self.p, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()
