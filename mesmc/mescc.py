"""Programs for MesCC: compiled with MesCC (run by Guile or Mes) and, as reference, with gcc.

A batch is a list of tests. A test is (name, declarations, expression-or-body, tuples): see Batch."""
import os, subprocess, struct, hashlib, threading
from . import build

RT = {'64': ('long _sys3 (long n, long a, long b, long c)\n{\n'
             ' asm ("mov____0x8(%rbp),%rax !0x10");\n asm ("mov____0x8(%rbp),%rdi !0x18");\n'
             ' asm ("mov____0x8(%rbp),%rsi !0x20");\n asm ("mov____0x8(%rbp),%rdx !0x28");\n asm ("syscall");\n}\n'),
      '32': ('long _sys3 (long n, long a, long b, long c)\n{\n'
             ' asm ("mov____0x8(%ebp),%eax !8");\n asm ("mov____0x8(%ebp),%ebx !12");\n'
             ' asm ("mov____0x8(%ebp),%ecx !16");\n asm ("mov____0x8(%ebp),%edx !20");\n asm ("int____$0x80");\n}\n')}
START = {'64': 'int _start ()\n{\n main ();\n asm ("mov____%rax,%rdi");\n asm ("mov____$i32,%rax %0x3c");\n asm ("syscall");\n}\n',
         '32': 'int _start ()\n{\n main ();\n asm ("mov____%eax,%ebx");\n asm ("mov____$i32,%eax %0x1");\n asm ("int____$0x80");\n}\n'}
NR = {'64': dict(read=0, write=1), '32': dict(read=3, write=4)}
ARCH = {'64': 'x86_64', '32': 'x86'}

class Cc:
    def __init__(self, tree, mach='64', host='guile'):
        self.tree, self.mach, self.host = tree, mach, host
        if host == 'guile':
            tree.mescc_go()
        self.env = tree.mes_env(MES='guile') if host == 'guile' else tree.mes_env()
        self.dir = tree.path('lib', 'linux', ARCH[mach] + '-mes')
    def s(self, src, out, opts=(), timeout=600, env=None):
        """C to assembly; gives None or what went wrong."""
        e = self.env if env is None else env
        try:
            r = subprocess.run([self.tree.path('scripts', 'mescc'), '-m', self.mach, '-S', '-nostdinc'] + list(opts) + ['-o', out, src],
                               env=e, cwd=os.path.dirname(src), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            return 'timeout'
        if r.returncode or not os.path.exists(out):
            return 'status %d: %s' % (r.returncode, r.stdout[-1500:].decode('latin-1'))
        return None
    def link(self, s_files, exe):
        a = ['--little-endian', '--architecture', {'64': 'amd64', '32': 'x86'}[self.mach]]
        m1 = self.tree.path('lib', ARCH[self.mach] + '-mes', ARCH[self.mach] + '.M1')
        r = subprocess.run(['M1'] + a + ['-f', m1] + [x for f in s_files for x in ('-f', f)] + ['-o', exe + '.hex2'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        if r.returncode:
            return 'M1: ' + r.stdout[-500:].decode('latin-1')
        d = self.dir
        r = subprocess.run(['hex2'] + a + ['--base-address', '0x1000000', '-f', d + '/elf%s-header.hex2' % self.mach,
                            '-f', exe + '.hex2', '-f', d + '/elf%s-footer-single-main.hex2' % self.mach, '-o', exe],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        if r.returncode:
            return 'hex2: ' + r.stdout[-500:].decode('latin-1')
        os.chmod(exe, 0o755)
        return None
    def program(self, text, exe):
        with open(exe + '.c', 'w') as f:
            f.write(text)
        e = self.s(exe + '.c', exe + '.s')
        return e or self.link([exe + '.s'], exe)

GCC_RT = {'64': '''
static long _sys3 (long n, long a, long b, long c)
{ long r; __asm__ volatile ("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory"); return r; }
int main (void);
__asm__ (".globl _start\\n_start: xor %ebp,%ebp; and $-16,%rsp; call main; mov %eax,%edi; mov $231,%eax; syscall");
''', '32': '''
static long _sys3 (long n, long a, long b, long c)
{ long r; __asm__ volatile ("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c) : "memory"); return r; }
int main (void);
__asm__ (".globl _start\\n_start: xor %ebp,%ebp; and $-16,%esp; call main; mov %eax,%ebx; mov $252,%eax; int $0x80");
'''}
UB = ['add_overflow', 'sub_overflow', 'mul_overflow', 'divrem_overflow', 'negate_overflow', 'shift_out_of_bounds',
      'out_of_bounds', 'type_mismatch_v1', 'pointer_overflow', 'vla_bound_not_positive', 'load_invalid_value',
      'builtin_unreachable', 'nonnull_arg', 'missing_return']
GCC_UB = ('static void *_jb[5];\nint _ub;\nstatic int _try;\n' +
          ''.join('void __ubsan_handle_%s (void) { if (!_try) __builtin_trap (); _ub = 1; __builtin_longjmp (_jb, 1); }\n' % n for n in UB)
          + 'void *memset (void *p, int c, unsigned long n) { char *q = p; while (n--) *q++ = c; return p; }\n'
            'void *memcpy (void *p, void const *s, unsigned long n) { char *q = p; char const *r = s; while (n--) *q++ = *r++; return p; }\n')

# name: declaration, values on 64 bit, values on 32 bit
TYPES = {
 'c':  ('char', [-128, -1, 0, 1, 7, 127], None),
 'uc': ('unsigned char', [0, 1, 8, 128, 255], None),
 's':  ('short', [-32768, -2, 0, 1, 5, 32767], None),
 'us': ('unsigned short', [0, 1, 3, 32768, 65535], None),
 'i':  ('int', [-2147483648, -7, -1, 0, 1, 3, 31, 2147483647], None),
 'u':  ('unsigned', [0, 1, 2, 31, 2147483648, 4294967295], None),
 'l':  ('long', [-2**63, -2**31 - 1, -3, 0, 1, 63, 2**32, 2**63 - 1], [-2**31, -3, -1, 0, 1, 31, 65536, 2**31 - 1]),
 'ul': ('unsigned long', [0, 1, 2**31, 2**32 + 5, 2**63, 2**64 - 1], [0, 1, 31, 2**31, 2**32 - 1]),
}
# strings of decisions
TYPES['d'] = ('int', list(range(256)), None)
TYPES['e'] = ('int', list(range(64)), None)
def values(t, mach):
    return TYPES[t][1] if mach == '64' or TYPES[t][2] is None else TYPES[t][2]
def literal(v, t, mach):
    bits = 64 if mach == '64' else 32
    if v == -2**63: return '(-9223372036854775807 - 1)'
    if v == -2**31: return '(-2147483647 - 1)'
    suf = ('U' if t in ('u', 'ul') else '') + ('L' if t in ('l', 'ul') and mach == '64' and abs(v) >= 2**31 else '')
    return '%d%s' % (v, suf) if v >= 0 else '(%d)' % v

class Batch:
    """Tests compiled into one program. add(name, params, text): text defines `long NAME (void)` in terms of
    the globals x_T of params (a list of (global, type))."""
    def __init__(self, mach):
        self.mach, self.tests, self.pre = mach, [], ''
    def add(self, name, params, text):
        self.tests.append((name, tuple(params), text))
    def text(self, ref):
        m = self.mach
        t = []
        if ref:
            t += [GCC_RT[m], GCC_UB]
        else:
            t += ['int main (void);\n', START[m], RT[m]]
        # bits are read off the memory the result is in
        t += ['char _sb[4096];\nlong _sn;\nlong _sl;\nlong _r;\n']
        if not ref:
            t += ['''
int _skip (void)
{
  if (_sn == _sl)
    {
      _sl = _sys3 (%d, 0, (long) _sb, 4096);
      _sn = 0;
      if (_sl <= 0)
        return 0;
    }
  _sn = _sn + 1;
  return _sb[_sn - 1];
}
void _run (long (*f) (void))
{
  _r = 0;
  if (_skip () == 0)
    _r = f ();
  _sys3 (%d, 1, (long) &_r, sizeof (long));
}
''' % (NR[m]['read'], NR[m]['write'])]
        else:
            t += ['''
void _run (long (*f) (void))
{
  _r = 0;
  _try = 1;
  _ub = 0;
  if (!__builtin_setjmp (_jb))
    _r = f ();
  _try = 0;
  _sys3 (%d, 1, (long) &_r, sizeof (long));
  _sys3 (%d, 1, (long) &_ub, 1);
}
''' % (NR[m]['write'], NR[m]['write'])]
        glob = sorted({p for _, ps, _ in self.tests for p in ps})
        for g, ty in glob:
            t.append('%s %s;\n' % (TYPES[ty][0], g))
        for ty in sorted({p[1] for p in glob}):
            v = values(ty, m)
            t.append('%s _v_%s[%d] = { %s };\n' % (TYPES[ty][0], ty, len(v), ', '.join(literal(x, ty, m) for x in v)))
        for ps in sorted({ps for _, ps, _ in self.tests}):
            body = 'int _i0; int _i1; int _i2; int _i3;\n'
            for n, (g, ty) in enumerate(ps):
                body += ' for (_i%d = 0; _i%d < %d; _i%d = _i%d + 1)\n {\n %s = _v_%s[_i%d];\n' % (n, n, len(values(ty, m)), n, n, g, ty, n)
            # every variable afresh for each run
            if ps:
                body += ' ' + ' '.join('%s = _v_%s[_i%d];' % (g, ty, n) for n, (g, ty) in enumerate(ps)) + '\n'
            body += ' _run (f);\n' + ' }\n' * len(ps)
            t.append('void _loop_%s (long (*f) (void))\n{\n%s}\n' % ('_'.join(g for g, ty in ps) or 'none', body))
        t.append(self.pre)
        for n, ps, x in self.tests:
            t.append(x.replace('NAME', n) + '\n')
        for k in range(0, len(self.tests), 200):
            t.append('void _main%d (void)\n{\n' % k)
            for n, ps, x in self.tests[k:k + 200]:
                t.append(' _loop_%s (&%s);\n' % ('_'.join(g for g, ty in ps) or 'none', n))
            t.append('}\n')
        t.append('int main (void)\n{\n%s return 0;\n}\n' % ''.join(' _main%d ();\n' % k for k in range(0, len(self.tests), 200)))
        return ''.join(t)
    def points(self):
        import itertools
        for n, ps, x in self.tests:
            for vs in itertools.product(*[values(ty, self.mach) for g, ty in ps]):
                yield n, ps, x, vs
    def run(self, cc, d, name):
        """Gives (list of (test, values, got, expected), number compared, number undefined) or an error string."""
        exe = '%s/%s' % (d, name)
        W = 8 if self.mach == '64' else 4
        with open(exe + '.ref.c', 'w') as f:
            f.write(self.text(True))
        r = subprocess.run(['gcc', '-m' + self.mach, '-w', '-O0', '-std=gnu99', '-ffreestanding', '-fno-builtin', '-fno-stack-protector', '-fpack-struct=1',
                            '-fno-pie', '-no-pie', '-fsanitize=undefined', '-nostdlib', '-static', '-o', exe + '.ref', exe + '.ref.c'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise Exception('reference: ' + r.stdout[-1500:].decode('latin-1'))
        r = subprocess.run([exe + '.ref'], stdout=subprocess.PIPE, stdin=subprocess.DEVNULL)
        npts = 0
        for n, ps, x in self.tests:
            k = 1
            for g, ty in ps:
                k *= len(values(ty, self.mach))
            npts += k
        if r.returncode or len(r.stdout) != npts * (W + 1):
            raise Exception('reference of %s: status %s, %d of %d results' % (name, r.returncode, len(r.stdout) // (W + 1), npts))
        ref = bytearray(npts * W)
        for k in range(W):
            ref[k::W] = r.stdout[k::W + 1]
        skip = bytearray(r.stdout[W::W + 1])
        undefined = sum(skip)
        e = cc.program(self.text(False), exe)
        if e:
            return e
        crashes = {}
        while True:
            with open(exe + '.skip', 'wb') as f:
                f.write(skip)
            with open(exe + '.skip', 'rb') as f:
                try:
                    r = subprocess.run([exe], stdin=f, stdout=subprocess.PIPE, timeout=20 if len(HANGS) < 4 else 4)
                    rc, out = r.returncode, r.stdout
                except subprocess.TimeoutExpired as t:
                    rc, out = 'timeout', t.stdout or b''
                    HANGS.append(name)
            n = len(out) // W
            if n == npts and rc == 0:
                break
            if len(HANGS) > MAXHANGS or n >= npts or n in crashes or len(crashes) >= 20:
                return 'status %s after %d of %d results (in %s)' % (rc, n, npts, list(self.points())[min(n, npts - 1)])
            crashes[n] = rc
            skip[n] = 1
            if rc == 'timeout':     # not the other values of this test
                at = 0
                for _, ps, _ in self.tests:
                    k = 1
                    for g, ty in ps:
                        k *= len(values(ty, self.mach))
                    if at <= n < at + k:
                        skip[n:at + k] = b'\1' * (at + k - n)
                    at += k
        bad = []
        if crashes or bytes(ref) != out:
            for i, p in enumerate(self.points()):
                x = ref[i * W:i * W + W]
                if i in crashes:
                    bad.append((p, 'status %s' % crashes[i], int.from_bytes(x, 'little', signed=True)))
                elif not skip[i] and out[i * W:i * W + W] != x:
                    bad.append((p, int.from_bytes(out[i * W:i * W + W], 'little', signed=True), int.from_bytes(x, 'little', signed=True)))
        return bad, npts - undefined, undefined

# Programs that did not end.  Each is a violation; after MAXHANGS of them the
# rest is left, to report them within the time a check has.
HANGS = []
MAXHANGS = 24

def run_groups(c, cc, groups, prefix='g'):
    """Runs each group of tests as a batch on its own; reports on check c."""
    from concurrent.futures import ThreadPoolExecutor
    def one(j):
        n, g = j
        if len(HANGS) > MAXHANGS:
            return g[0], Batch(cc.mach), None
        b = Batch(cc.mach)
        for k, t in enumerate(g[1]):
            b.add('t%d' % k, t[0], t[1])
        b.pre = g[2] if len(g) > 2 else ''
        return g[0], b, b.run(cc, c.scratch, '%s%d' % (prefix, n))
    samples = []
    with ThreadPoolExecutor(8) as ex:
        for g, b, r in ex.map(one, enumerate(groups)):
            if r is None:
                c.add('groups left after %d programs that do not end' % MAXHANGS, 1)
                continue
            c.add('groups', 1)
            c.add('programs', len(b.tests))
            name = ' '.join(str(x) for x in g) if isinstance(g, tuple) else str(g)
            if isinstance(r, str):
                c.fail('%s: %s' % (name, r.strip().split('\n')[-1][-200:]), r, {'program.c': b.text(False)})
                continue
            bad, n, undef = r
            c.add('evaluations', n + undef)
            c.add('distinct_nontrivial', n)
            c.add('evaluations where C leaves the result undefined', undef)
            samples.append(dict(group=name, function=' '.join(b.tests[0][2].split())[:300] if len(b.tests[0]) > 2 else str(b.tests[0])[:300]))
            seen = set()
            for (t, ps, x, vs), got, want in bad:
                if t in seen:
                    continue
                seen.add(t)
                val = ', '.join('%s = %s' % (p[0], v) for p, v in zip(ps, vs))
                c.fail('%s: %s with %s' % (name, ' '.join(x.split())[:300], val or 'no values'), 'gives %s, not %s' % (got, want),
                       {'test.c': '/* %s\n   %s */\n%s\n' % (name, val, x)})
    c.cov['samples'] = samples[::max(1, len(samples) // 10)][:10]
    c.cov['rule'] = ('an evaluation is one generated function, compiled by MesCC, called on one tuple of values and compared with the same function compiled by gcc; '
                     'non-trivial: the reference, run with the sanitizers, says C defines the result')
