"""The statements of C31: every tree of statements up to a size, run on every string of decisions."""
import itertools, functools

PRE = '''
int _h;
int _d;
int _nk;
int _budget;
void T (int n)
{
  _h = (_h * 31 + n) & 16777215;
}
int K (void)
{
  int r;
  _nk = _nk + 1;
  if (_nk > 9)
    {
      T (29);
      return 0;
    }
  r = _d & 1;
  _d = _d >> 1;
  T (17 + r);
  return r;
}
int V (void)
{
  int r;
  r = _d & 3;
  _d = _d >> 2;
  T (20 + r);
  return r;
}
void _begin (int d)
{
  _h = 1;
  _nk = 0;
  _d = d;
}
'''

class Ctx:
    def __init__(self):
        self.n = 0
        self.lab = 0
    def t(self):
        self.n += 1
        return 'T (%d);' % (self.n % 16 + 1)

# A tree is a tuple (kind, children...). Enumerated by the number of compound nodes.
LEAF = ['T', 'break', 'continue', 'return', 'empty', 'goto']
@functools.lru_cache(None)
def trees(size, loop, sw, leaves):
    """All trees with exactly SIZE compound nodes. LOOP: in a loop; SW: in a switch."""
    out = []
    if size == 0:
        for l in leaves:
            if l == 'break' and not (loop or sw): continue
            if l == 'continue' and not loop: continue
            out.append((l,))
        return out
    n = size - 1
    for s in trees(n, loop, sw, leaves):
        out.append(('if', s))
        out.append(('ifnot', s))
        out.append(('block', s))
    for s in trees(n, True, False, leaves):
        for k in ('while', 'do', 'for', 'forever', 'fornoinc'):
            out.append((k, s))
    for a in range(n + 1):
        for x in trees(a, loop, sw, leaves):
            for y in trees(n - a, loop, sw, leaves):
                out.append(('ifelse', x, y))
    for a in range(n + 1):
        for x in trees(a, loop, True, leaves):
            for y in trees(n - a, loop, True, leaves):
                out.append(('switch', x, y))
                out.append(('switchd', x, y))
                out.append(('dswitch', x, y))
    return out

def text(t, c, brace):
    """The statement(s) of a tree: with traces around, in braces or, where that is one statement, without."""
    k = t[0]
    if k == 'T': return c.t()
    if k == 'empty': return ';'
    if k in ('break', 'continue'): return k + ';'
    if k == 'return': return 'return _h + 1;'
    if k == 'goto': return 'goto end;'
    def body(s):
        x = text(s, c, brace)
        return '{ %s %s %s }' % (c.t(), x, c.t()) if brace else x
    if k == 'if': return 'if (K ()) ' + body(t[1])
    if k == 'ifnot': return 'if (!K ()) ' + body(t[1])
    if k == 'block': return '{ int x; x = 5; %s T (x); }' % text(t[1], c, brace)
    if k == 'while': return 'while (K ()) ' + body(t[1])
    if k == 'do': return 'do %s while (K ());' % body(t[1])
    if k == 'for': return 'for (T (11); K (); T (12)) ' + body(t[1])
    if k == 'fornoinc': return 'for (; K ();) ' + body(t[1])
    if k == 'forever': return 'for (;;) { if (!K ()) break; %s }' % text(t[1], c, brace)
    if k == 'ifelse':
        x = body(t[1])
        if not brace and t[1][0] in ('if', 'ifnot', 'while', 'for', 'fornoinc', 'ifelse'):
            x = '{ %s }' % x
        return 'if (K ()) %s else %s' % (x, body(t[2]))
    if k == 'switch': return 'switch (V ()) { case 0: %s %s case 1: %s %s }' % (c.t(), text(t[1], c, brace), c.t(), text(t[2], c, brace))
    if k == 'switchd': return 'switch (V ()) { case 0: %s case 2: %s default: %s }' % (text(t[1], c, brace), c.t(), text(t[2], c, brace))
    if k == 'dswitch': return 'switch (V ()) { default: %s case 2: case 3: %s }' % (text(t[1], c, brace), text(t[2], c, brace))
    raise Exception(k)

def fn(body, pre='', tail='end: T (15);'):
    return '%slong NAME (void)\n{\n _begin (x_d);\n %s\n%s\n return _h;\n}' % (pre, body, tail)

# short-circuit expressions over K () with N leaves
@functools.lru_cache(None)
def conds(n):
    if n == 1:
        return ['K ()', '!K ()']
    out = []
    for a in range(1, n):
        for x in conds(a):
            for y in conds(n - a):
                for op in ('&&', '||'):
                    out.append('(%s %s %s)' % (x, op, y))
                    if n == 2: out.append('!(%s %s %s)' % (x, op, y))
                if not x.startswith('!') or n == 2: out.append('(%s, %s)' % (x, y))
    for a in range(1, n - 1):
        for b in range(1, n - a):
            for x in conds(a):
                for y in conds(b):
                    for z in conds(n - a - b):
                        if n == 3 or '!' not in x + z: out.append('(%s ? %s : %s)' % (x, y, z))
    return out

USES = {
 'if': 'if (%s) T (1); else T (2);',
 'while': 'while (%s) { T (1); if (_nk > 9) break; }',
 'for': 'for (T (3); %s; T (4)) { T (1); if (_nk > 9) break; }',
 'do': 'do { T (1); if (_nk > 9) break; } while (%s);',
 'value': 'T (%s);',
 'assignment': '{ int v; v = %s; T (v + 1); }',
 'argument of operator': 'T (3 + (%s));',
 'switch': 'switch (%s) { case 0: T (1); break; case 1: T (2); }',
 'comparison': 'if ((%s) == 1) T (1); else T (2);',
 'return': 'return (%s) * 2;',
}

SEQ = ['T (2);', 'if (K ()) goto a;', 'if (K ()) goto b;', 'a: T (3);', 'b: T (4);', 'if (K ()) { T (5); c: T (6); }', 'if (K ()) goto c;',
       'while (K ()) { T (7); d: T (8); }', 'if (K ()) goto d;']

def switches():
    """Switches over every set of labels, in every order."""
    vals = ['0', '1', '2', 'default', '3', "1 + 1", "'b' - 'a'"]
    parts = [' case %s: T (%%d);' % v if v != 'default' else ' default: T (%d);' for v in vals]
    for n in range(0, 5):
        for p in itertools.permutations(range(5), n):
            for ends in itertools.product((0, 1), repeat=n):
                if n > 2 and sum(ends) not in (0, 1, n - 1):
                    continue
                b = ''.join(parts[i] % (i + 2) + (' break;' if e else '') for i, e in zip(p, ends))
                yield 'switch (V ()) {%s }' % b
                if n == 2: yield 'while (K ()) switch (V ()) {%s }' % b
                if n == 2: yield 'while (K ()) { switch (V ()) {%s T (9); continue; } T (10); }' % b
    for ty in ('char', 'unsigned char', 'short', 'unsigned', 'long', 'unsigned long'):
        yield '{ %s v; v = V () - 2; switch (v) { case 0: T (1); break; case -1: T (2); break; case -2: T (3); break; default: T (4); } }' % ty
        yield '{ %s v; v = V () * 100; switch (v) { case 0: T (1); break; case 100: T (2); break; case 200: T (3); break; default: T (4); } }' % ty
        yield "{ %s v; v = V () + 'a'; switch (v) { case 'a': T (1); break; case 'b': T (2); break; case '\\\\': T (3); break; default: T (4); } }" % ty
    yield 'switch (V ()) { case 0: case 1: T (1); case 2: case 3: T (2); }'
    yield 'switch (V ()) { case 0: { T (1); case 1: T (2); } break; case 2: T (3); }'
    yield 'switch (V ()) { case 0: if (K ()) { T (1); break; } case 1: T (2); }'
    yield 'switch (V ()) { case 0: while (K ()) { T (1); break; } case 1: T (2); }'
    yield 'switch (V ()) { case 0: switch (V ()) { case 0: T (1); break; case 1: T (2); } T (3); case 1: T (4); }'
    yield 'switch (V ()) { case 0: switch (V ()) { case 0: T (1); break; default: T (2); } break; default: T (4); }'
    yield 'switch (V ()) { case 0: return 1; case 1: return 2; default: return 3; }'
    yield 'switch (V ()) { T (3); case 0: T (1); }'
    yield 'switch (V ()) ; '
    yield 'switch (V ()) { default: ; }'
    yield 'switch (V ()) { case 0: ; case 1: T (2); }'
    yield 'switch (V ()) case 1: T (2);'
    yield 'switch (V ()) { case 0: T (1); break; case 1: T (2); break; } T (3);'
    yield 'switch (V ()) { case 0: case 1: break; default: T (2); break; } T (3);'

FUN = [
 # recursion and calls
 ('int fact (int n) { if (n < 2) return 1; return n * fact (n - 1); }\n', 'return fact (x_d & 7);'),
 ('int fib (int n) { if (n < 2) return n; return fib (n - 1) + fib (n - 2); }\n', 'return fib (x_d & 7);'),
 ('int odd (int n); int even (int n) { if (n == 0) return 1; return odd (n - 1); } int odd (int n) { if (n == 0) return 0; return even (n - 1); }\n', 'return even (x_d);'),
 ('int ack (int m, int n) { if (m == 0) return n + 1; if (n == 0) return ack (m - 1, 1); return ack (m - 1, ack (m, n - 1)); }\n', 'return ack (x_d & 1, (x_d >> 1) & 7);'),
 ('void nothing (void) {}\n', 'nothing (); T (1); return _h;'),
 ('void early (int n) { T (1); if (n & 1) return; T (2); }\n', 'early (x_d); return _h;'),
 ('int six (int a, int b, int c, int d, int e, int f) { return a + 2 * b + 3 * c + 4 * d + 5 * e + 6 * f; }\n', 'return six (x_d, 1, 2, x_d, 3, 4);'),
 ('int nine (int a, int b, int c, int d, int e, int f, int g, int h, int i) { return a - 2 * b + 3 * c - 4 * d + 5 * e - 6 * f + 7 * g - 8 * h + 9 * i; }\n', 'return nine (x_d, 1, 2, x_d, 3, 4, 5, x_d + 1, 7);'),
 ('int two (int a, int b) { return a * 3 - b; }\n', 'return two (two (x_d, 1), two (2, x_d));'),
 ('int two (int a, int b) { return a * 3 - b; }\n', 'int (*f) (int, int); f = &two; return f (x_d, 4);'),
 ('int two (int a, int b) { return a * 3 - b; }\n', 'int (*f) (int, int); f = two; return (*f) (x_d, 4);'),
 ('int one (int a) { return a * 3; } int two (int a) { return a * 5; }\n', 'int (*f) (int); if (x_d & 1) f = one; else f = two; return f (x_d);'),
 ('int one (int a) { return a * 3; } int two (int a) { return a * 5; } int (*f1) (int) = one;\n', 'int (*f) (int); f = f1; f1 = two; return f (x_d) + f1 (x_d);'),
 ('int one (int a) { return a * 3; } int app (int (*f) (int), int n) { return f (n) + 1; }\n', 'return app (one, x_d);'),
 ('int one (int a) { return a * 3; } struct ops { int x; int (*f) (int); };\n', 'struct ops o; struct ops *p; o.f = one; p = &o; return o.f (x_d) + p->f (x_d + 1);'),
 ('long g; long *one (long *a) { return a; }\n', 'long *(*f) (long *); f = one; long *p; p = f (&g); g = x_d; return *p + *f (&g);'),
 ('long g; long *one (long *a) { return a; }\n', 'long *(*f) (long *); f = one; g = x_d; return *(*f) (&g);'),
 ('long *one (long *a) { return a; } long *app (long *(*f) (long *), long *p) { return f (p); } long *app2 (long *(*f) (long *), long *p) { return (*f) (p); }\n', 'long g; g = x_d; return *app (one, &g) + *app2 (one, &g);'),
 ('unsigned one (int a) { return a - 9; } long app (unsigned (*f) (int), int n) { return f (n); }\n', 'return app (one, x_d);'),
 ('unsigned char one (int a) { return a - 9; } long app (unsigned char (*f) (int), int n) { return f (n); }\n', 'return app (one, x_d);'),
 ('long one (int a) { return a - 9L; } long app (long (*f) (int), int n) { return f (n); }\n', 'return app (one, x_d) * 3;'),
 ('char *one (int a) { return "abcdefgh" + (a & 7); } struct ops { int x; char *(*f) (int); };\n', 'struct ops o; struct ops *p; o.f = one; p = &o; char *s; s = p->f (x_d); return *s + *o.f (x_d + 1) + o.f (x_d)[0];'),
 ('char *one (int a) { return "abcdefgh" + (a & 7); }\n', 'return one (x_d)[0] * 100 + *one (x_d + 1) + one (3)[x_d & 3];'),
 ('struct s { int a; int b; }; struct s gs; struct s *one (int a) { gs.b = a; return &gs; }\n', 'return one (x_d)->b + one (3)->b * 1000;'),
 ('struct s { int a; int b; }; struct s gs; struct s *one (int a) { gs.b = a; return &gs; }\n', 'struct s *(*f) (int); f = one; return f (x_d)->b;'),
 ('int arg (int a) { a = a + 1; if (a > 5) a = a * 2; return a; }\n', 'int a; a = x_d; return arg (a) * 1000 + a;'),
 ('int addr (int a) { int *p; p = &a; *p = *p + 7; return a; }\n', 'return addr (x_d);'),
 ('int put (int *p) { *p = *p + 7; return *p; }\n', 'int a; a = x_d; put (&a); return a;'),
 ('int st (void) { static int n; n = n + 1; return n; }\n', 'return st () * 0 + st () - st ();'),
 ('int st (int r) { static int n = 5; if (r) n = 5; n = n + 1; return n; }\n', 'st (1); st (0); return st (0) + x_d;'),
 ('int cc (char c) { return c; } int uc (unsigned char c) { return c; }\n', 'return cc (x_d * 50) * 1000 + uc (x_d * 50);'),
 ('char rc (int c) { return c; } unsigned char ruc (int c) { return c; } short rs (int c) { return c; }\n', 'return rc (x_d * 50) * 1000 + ruc (x_d * 50) + rs (x_d * 5000);'),
 ('char *str (int n) { if (n & 1) return "odd"; return "even"; }\n', 'return str (x_d)[0] * 256 + str (x_d)[2];'),
 ('int depth (int n, int *p) { int a[3]; a[0] = n; a[1] = n * 2; a[2] = 0; if (p) a[2] = p[1]; if (n == 0) return a[2]; return depth (n - 1, a) + a[1]; }\n', 'return depth (x_d & 15, 0);'),
]
SCOPE = [
 'int x; x = 1; { int x; x = 2; T (x); } T (x); return _h;',
 'int x; x = 1; { int y; y = 2; { int x; x = 3; T (x + y); } T (x); } T (x); return _h;',
 'int x; x = 1; if (K ()) { int x; x = 2; T (x); } else { int y; y = 4; T (y); } T (x); return _h;',
 'int i; for (i = 0; i < 3; i++) { int j; for (j = 0; j < i; j++) { int i; i = j + 10; T (i); } T (i); } return _h;',
 'int i; i = 7; for (int i = 0; i < 3; i++) T (i); T (i); return _h;',
 'for (int i = 0; i < 3; i++) T (i); for (int i = 5; i > 2; i--) T (i); return _h;',
 'int i; int j; for (i = 0, j = 9; i < j; i++, j--) T (i * j & 15); return _h;',
 'int i; for (i = 0; i < 10; i++) { if (i == x_d) continue; if (i == 8) break; T (i); } return _h;',
 'int i; i = 0; while (i < 5) { i++; if (i & 1) continue; T (i); } return _h;',
 'int i; i = 0; do { i++; if (i & 1) continue; T (i); } while (i < 5); return _h;',
 'int i; int j; for (i = 0; i < 4; i++) { for (j = 0; j < 4; j++) { if (j == 2) break; T (i * 4 + j); } if (i == 2) break; } return _h;',
 'int i; i = x_d; again: T (i & 15); i--; if (i > 0) goto again; return _h;',
 'int _h2; int x_d2; _h2 = 4; x_d2 = 5; T (_h2 + x_d2); return _h;',
 'int T2 = 5, b = T2 + 1, *p = &b; T (*p); return _h;',
 'int a = 3; int b = a * 2; { int a = b + 1; T (a); } T (a); return _h;',
]

def groups(mach, thorough):
    def chunk(name, tests, n=400, P=[('x_d', 'd')]):
        tests = list(tests)
        for k in range(0, len(tests), n):
            yield (name, k // n), [(P, x) for x in tests[k:k + n]], PRE
    some = ('T', 'break', 'continue', 'return', 'empty', 'goto')
    few = ('T', 'break', 'continue')
    for brace in (True, False):
        what = 'statements' + (' in braces' if brace else '')
        for size, leaves in ((0, some), (1, some), (2, some)) + (((3, ('T', 'break') if brace else ('T', 'continue')),) if not thorough else ((3, few),)):
            def one(t):
                c = Ctx()
                return fn(text(t, c, brace) + ' ' + c.t())
            ts = trees(size, False, False, leaves)
            yield from chunk((what, size), [one(t) for t in ts], P=[('x_d', 'd' if size < 3 else 'e')])
    for u, x in USES.items():
        cs = conds(1) + conds(2) + conds(3) if u in ('if', 'while', 'value') or thorough else conds(1) + conds(2) + conds(3)[::1]
        if thorough: cs = cs + conds(4)[::1]
        yield from chunk(('conditions', u), [fn(x % e) for e in cs])
    gotos = []
    for n in range(1, 4 if thorough else 3):
        for p in itertools.product(SEQ, repeat=n):
            b = list(p) 
            for l in 'abcd':
                k = sum('%s:' % l in s for s in b)
                if k > 1: break
                if not k and any('goto %s' % l in s for s in b):
                    b = b + ['%s: T (9);' % l]
            else:
                gotos.append(fn(' '.join(b)))
    for n in (3, 4):
        base = ['a: T (3);', 'b: T (4);', 'if (K ()) goto a;', 'if (K ()) goto b;', 'while (K ()) { T (7); if (K ()) goto a; }',
                'if (K ()) { T (8); goto b; }']
        for p in itertools.permutations(base, n):
            if ('goto a' in ' '.join(p)) == (base[0] in p) and ('goto b' in ' '.join(p)) == (base[1] in p):
                gotos.append(fn(' '.join(p)))
    yield from chunk(('goto',), gotos)
    yield from chunk(('switch',), [fn(s) for s in switches()])
    yield from chunk(('functions',), [fn(b, p, '') for p, b in FUN], 1)
    yield from chunk(('scopes',), [fn(b, '', '') for b in SCOPE])
