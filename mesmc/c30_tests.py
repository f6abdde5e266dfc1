"""The expressions of C30 and C35: batches of tests in the sense of mescc.Batch."""
import itertools
from .mescc import Batch, TYPES, values, literal

ARITH = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>']
COMPARE = ['<', '>', '<=', '>=', '==', '!=']
LOGIC = ['&&', '||']
ALL = ARITH + COMPARE + LOGIC
T8 = list(TYPES)
C = lambda t: TYPES[t][0]

# where an operand can be: declarations before the function, statements in it, the operand
def places(t, n):
    """n is 'a' or 'b'; the value is in the global n_t"""
    g, y = '%s_%s' % (n, t), C(t)
    return {
     'global': ('', '', g),
     'local': ('', ' %s l%s; l%s = %s;' % (y, n, n, g), 'l' + n),
     'pointer': ('', ' %s *p%s; p%s = &%s;' % (y, n, n, g), '*p' + n),
     'element': ('', ' %s r%s[3]; int i%s; i%s = 1; r%s[0] = 0; r%s[2] = 0; r%s[i%s] = %s;' % (y, n, n, n, n, n, n, n, g), 'r%s[i%s]' % (n, n)),
     'member': ('struct sNAME%s { char x; %s m; char y; };\n' % (n, y), ' struct sNAME%s s%s; s%s.x = 1; s%s.y = 2; s%s.m = %s;' % (n, n, n, n, n, g), 's%s.m' % n),
     'pointed-to member': ('struct sNAME%s { char x; %s m; char y; };\n' % (n, y), ' struct sNAME%s s%s; struct sNAME%s *q%s; q%s = &s%s; q%s->x = 1; q%s->y = 2; q%s->m = %s;' % ((n,) * 9 + (g,)), 'q%s->m' % n),
    }
PLACES = list(places('i', 'a'))

def fn(ret, body, pre='', params=''):
    return '%s%s NAME (void)\n{\n%s%s\n}' % (pre, 'long', body, ret)

def groups(mach, thorough):
    """Yields (group name, [tests])."""
    P = lambda *ts: [('%s_%s' % (n, t), t) for n, t in zip('abc', ts)]
    # binary operators, every pair of types, of places
    for op in ALL:
        for pa in PLACES:
            for pb in (PLACES if thorough else ['global'] if pa != 'global' else PLACES):
                tests = []
                for ta in T8:
                    for tb in T8:
                        if not thorough and not (pa == 'global' and pb == 'global') and ta != tb and 'i' not in (ta, tb) and 'ul' not in (ta, tb):
                            continue
                        A, B = places(ta, 'a')[pa], places(tb, 'b')[pb]
                        tests.append((P(ta, tb), fn(' return (long) (%s %s %s);' % (A[2], op, B[2]), A[1] + B[1], A[0] + B[0])))
                yield 'operator %s on a %s and a %s' % (op, pa, pb), tests
        tests = []
        for ta in T8:
            for v in values(ta, mach):
                L = literal(v, ta, mach)
                if not (op in ('/', '%') and v == 0):
                    tests.append((P(ta), fn(' return (long) (a_%s %s %s);' % (ta, op, L), '')))
                tests.append((P(ta), fn(' return (long) (%s %s a_%s);' % (L, op, ta), '')))
            for n in (1, 2, 3, 7, 200) if op not in ('<<', '>>') else (1, 2, 5, 7):
                tests.append((P(ta), fn(' return (long) (a_%s %s %d);' % (ta, op, n), '')))
        yield 'operator %s with a constant' % op, tests
        tests = []
        for ta, tb in itertools.product(T8, T8):
            tests.append((P(ta, tb), 'long NAMEf (%s a, %s b)\n{\n return (long) (a %s b);\n}\nlong NAME (void)\n{\n return NAMEf (a_%s, b_%s);\n}' % (C(ta), C(tb), op, ta, tb)))
        yield 'operator %s on parameters' % op, tests
    # as a condition
    for op in COMPARE + LOGIC + ['&', '-']:
        for form in ('if (%s) return 7; return 3;', 'if (!(%s)) return 7; return 3;', 'return %s ? 7 : 3;', 'long n; n = 0; while (%s) { n = n + 1; if (n == 2) return n; } return n;',
                     'if ((%s) && a_T) return 7; return 3;', 'if ((%s) || b_U) return 7; return 3;', 'return !(%s);'):
            if not thorough and form.startswith('long n') and op not in COMPARE:
                continue
            tests = []
            for ta, tb in itertools.product(T8, T8):
                e = 'a_%s %s b_%s' % (ta, op, tb)
                if form.startswith('return %s'):
                    e = '(%s)' % e
                tests.append((P(ta, tb), fn(' ' + (form % e).replace('a_T', 'a_' + ta).replace('b_U', 'b_' + tb), '')))
            yield 'operator %s as a condition: %s' % (op, form), tests
    tests = []
    for t in T8:
        for pl in PLACES:
            A = places(t, 'a')[pl]
            for form in ('if (%s) return 7; return 3;', 'if (!%s) return 7; return 3;', 'return (%s) ? 7 : 3;', 'return !%s;', 'return !!%s;',
                         'while (%s) return 7; return 3;', 'do { } while (!%s && !a_T); return 5;' , 'long x; if (x = %s) return 7; return 3;', 'for (; %s; ) return 7; return 3;'):
                if 'do' in form:
                    continue
                tests.append((P(t), fn(' ' + (form % A[2]).replace('a_T', 'a_' + t), A[1], A[0])))
    yield 'value as a condition', tests
    # unary
    for pl in PLACES:
        tests = []
        for t in T8:
            A = places(t, 'a')[pl]
            for u in ('-', '+', '~', '!', '- -', '~~', '!!', '-~', '~-'):
                tests.append((P(t), fn(' return (long) (%s%s);' % (u, A[2]), A[1], A[0])))
            for t2 in T8:
                tests.append((P(t), fn(' return (long) (%s) %s;' % (C(t2), A[2]), A[1], A[0])))
                if thorough or pl == 'global':
                    for t3 in T8:
                        tests.append((P(t), fn(' return (long) (%s) (%s) %s;' % (C(t3), C(t2), A[2]), A[1], A[0])))
        yield 'unary operators and casts on a ' + pl, tests
    # assignment and conversion
    for pl in PLACES:
        tests = []
        for t, t2 in itertools.product(T8, T8):
            A = places(t, 'a')[pl]
            pre = A[1]
            tests.append((P(t, t2), fn(' %s = b_%s; return (long) %s;' % (A[2], t2, A[2]), pre, A[0])))
            tests.append((P(t, t2), fn(' return (long) (%s = b_%s);' % (A[2], t2), pre, A[0])))
        yield 'assignment to a ' + pl, tests
    tests = []
    for t, t2 in itertools.product(T8, T8):
        tests.append((P(t), '%s NAMEf (void)\n{\n return a_%s;\n}\nlong NAME (void)\n{\n return (long) NAMEf ();\n}' % (C(t2), t)))
        tests.append((P(t), 'long NAMEf (%s x)\n{\n return (long) x;\n}\nlong NAME (void)\n{\n return NAMEf (a_%s);\n}' % (C(t2), t)))
        tests.append((P(t), fn(' %s x = a_%s; return (long) x;' % (C(t2), t), '')))
        tests.append((P(t), fn(' static %s x; x = a_%s; return (long) x;' % (C(t2), t), '')))
        tests.append((P(t), '%s NAMEf (void)\n{\n return a_%s;\n}\nlong NAME (void)\n{\n return (long) (NAMEf () + 1);\n}' % (C(t2), t)))
    yield 'conversion by return, argument and initialiser', tests
    # increment and decrement
    for pl in PLACES:
        tests = []
        for t in T8:
            A = places(t, 'a')[pl]
            lv = '(%s)' % A[2] if A[2].startswith('*') else A[2]
            for form in ('%s++', '%s--', '++%s', '--%s'):
                e = form % lv
                tests.append((P(t), fn(' return (long) (%s);' % e, A[1], A[0])))
                tests.append((P(t), fn(' %s; return (long) %s;' % (e, lv), A[1], A[0])))
                tests.append((P(t), fn(' long r; r = %s; return r * 3 + %s;' % (e, lv), A[1], A[0])) if t in ('c', 'uc', 's', 'us') else
                             (P(t), fn(' long r; r = %s; return r ^ %s;' % (e, lv), A[1], A[0])))
                tests.append((P(t), fn(' if (%s) return 7; return 3;' % e, A[1], A[0])))
                tests.append((P(t), fn(' if (!(%s)) return 7; return 3;' % e, A[1], A[0])))
        yield 'increment and decrement of a ' + pl, tests
    # compound assignment
    for op in ARITH:
        for pl in PLACES:
            tests = []
            for ta, tb in itertools.product(T8, T8):
                if not thorough and pl not in ('global', 'local') and ta != tb and 'i' not in (ta, tb):
                    continue
                A = places(ta, 'a')[pl]
                tests.append((P(ta, tb), fn(' %s %s= b_%s; return (long) %s;' % (A[2], op, tb, A[2]), A[1], A[0])))
                if thorough or ta == tb or 'i' in (ta, tb):
                    tests.append((P(ta, tb), fn(' return (long) (%s %s= b_%s);' % (A[2], op, tb), A[1], A[0])))
            yield 'compound assignment %s= to a %s' % (op, pl), tests
    # two operators
    ts = ('i', 'u', 'l', 'uc') if thorough else ('i', 'u')
    for o1 in ALL:
        for ta, tb, tc in itertools.product(ts, ts, ts) if thorough else [('i', 'i', 'i'), ('i', 'u', 'l'), ('u', 'u', 'u'), ('l', 'i', 'uc'), ('uc', 's', 'ul')]:
            tests = []
            for o2 in ALL:
                tests.append((P(ta, tb, tc), fn(' return (long) ((a_%s %s b_%s) %s c_%s);' % (ta, o1, tb, o2, tc), '')))
                tests.append((P(ta, tb, tc), fn(' return (long) (a_%s %s (b_%s %s c_%s));' % (ta, o1, tb, o2, tc), '')))
            yield 'two operators, %s first, on %s, %s and %s' % (o1, C(ta), C(tb), C(tc)), tests
    # precedence: no parentheses
    tests = []
    for o1, o2 in itertools.product(ALL, ALL):
        tests.append((P('i', 'i', 'i'), fn(' return (long) (a_i %s b_i %s c_i);' % (o1, o2), '')))
    yield 'precedence of two operators', tests
    # deep expressions: more values alive than registers
    tests = []
    for op in ALL:
        for d in (3, 4, 5, 6, 8):
            for left in (0, 1):
                e = 'a_i'
                for k in range(d):
                    o = ['%s', 'b_i', 'c_i', '%d' % (k + 2)][k % 4]
                    x = 'b_i' if k % 3 == 0 else 'c_i' if k % 3 == 1 else str(k + 2)
                    oo = op if k % 2 == 0 else '+^-|&'[(k // 2) % 5]
                    e = '(%s %s %s)' % ((e, oo, x) if left else (x, oo, e))
                tests.append((P('i', 'i', 'i'), fn(' return (long) %s;' % e, '')))
        # a balanced tree
        def tree(n, leaf):
            if n == 0:
                leaf[0] += 1
                return ['a_i', 'b_i', 'c_i', '5'][leaf[0] % 4]
            l = tree(n - 1, leaf)
            return '(%s %s %s)' % (l, op if n % 2 else '^', tree(n - 1, leaf))
        for n in (2, 3, 4):
            tests.append((P('i', 'i', 'i'), fn(' return (long) %s;' % tree(n, [0]), '')))
    for k in range(0, len(tests), 60):
        yield 'deep expressions %d' % (k // 60), tests[k:k + 60]
    # calls inside expressions
    pre = 'int NAMEg (int x, int y)\n{\n return x - 2 * y;\n}\nint NAMEh (int x)\n{\n return x ^ 5;\n}\n'
    tests = []
    calls = ['NAMEg (%s, %s)', '(%s + NAMEh (%s))', '(NAMEh (%s) - %s)', 'NAMEg (NAMEh (%s), %s)', '(%s * NAMEg (3, %s))']
    leaves = ['a_s', 'b_s', '7']
    def build(n, leaf):
        if n == 0:
            leaf[0] += 1
            yield leaves[leaf[0] % 3]
            return
        for c in calls:
            for x in build(n - 1, leaf):
                for y in (build(n - 2, leaf) if n > 1 else ['b_s']):
                    yield c % (x, y)
    for e in itertools.chain(build(1, [0]), build(2, [0]), build(3, [0]) if thorough else itertools.islice(build(3, [0]), 0, None, 3)):
        tests.append((P('s', 's'), fn(' return (long) (%s);' % e, '', pre)))
    for k in range(0, len(tests), 150):
        yield 'calls inside expressions %d' % (k // 150), tests[k:k + 150]
    # what is evaluated, and in which order where C says so
    pre = 'long NAMEt;\nint NAMEf (int n, int v)\n{\n NAMEt = NAMEt * 7 + n;\n return v;\n}\n'
    tests = []
    forms = ['(%s && %s)', '(%s || %s)', '(%s ? %s : f3)', '(f3 ? %s : %s)', '(%s, %s)', '(!%s && %s)', '(f3 && %s || %s)']
    leaf = ['f1', 'f2']
    exps = [f % (x, y) for f in forms for x in leaf for y in leaf]
    exps += [f % (g % ('f1', 'f2'), 'f4') for f in forms for g in forms] + [f % ('f4', g % ('f1', 'f2')) for f in forms for g in forms]
    sub = {'f1': 'NAMEf (1, a_i)', 'f2': 'NAMEf (2, b_i)', 'f3': 'NAMEf (3, a_i & 1)', 'f4': 'NAMEf (4, b_i - 1)'}
    for e in exps:
        for k, v in sub.items():
            e = e.replace(k, v)
        for form in (' long r; NAMEt = 0; r = %s; return NAMEt * 16 + (r & 15);', ' NAMEt = 0; if (%s) return NAMEt * 2; return NAMEt * 2 + 1;', ' NAMEt = 0; while (%s) return NAMEt * 2; return NAMEt * 2 + 1;'):
            tests.append((P('i', 'i'), fn(form % e, '', pre)))
    for k in range(0, len(tests), 150):
        yield 'evaluation of logical operators %d' % (k // 150), tests[k:k + 150]
    # pointers
    for t in T8 + ['S3', 'S12', 'S24', 'P']:
        st = {'S3': 'struct sNAME { char x[3]; };\n', 'S12': 'struct sNAME { int x; int y; int z; };\n', 'S24': 'struct sNAME { long x; long y; long z; };\n'}.get(t, '')
        y = 'struct sNAME' if st else 'char *' if t == 'P' else C(t)
        val = '' if st else ''
        tests = []
        init = ' %s r[6]; %s *p; %s *q; int i; int k; i = a_idx; k = b_idx; p = &r[i]; q = &r[k];' % (y, y, y)
        def T(e, extra=''):
            tests.append((None, 'int NAMEi;\nint NAMEk;\n' + fn(e, (init + extra).replace('a_idx', 'NAMEi').replace('b_idx', 'NAMEk'), st)))
        W = '(long) '
        exprs = ['(char *) p - (char *) r', '(char *) (p + 1) - (char *) r', '(char *) (p - 1) - (char *) r', '(char *) (p + k) - (char *) r', '(char *) (p + k - 1) - (char *) r', '(char *) (k + p) - (char *) r', '(char *) (1 + p) - (char *) r', '(char *) (k + 1 + p) - (char *) r', '(char *) (1 + r) - (char *) r', '(char *) &1[p] - (char *) r', '(char *) &k[r] - (char *) r', '(char *) (p + (char) k) - (char *) r', '(char *) (p + 1UL) - (char *) r', '(char *) (p + -1) - (char *) r', '(char *) (&p[2] - k) - (char *) r', '(char *) (1 ? p : q) - (char *) r', '(char *) (k ? p : q) - (char *) r', '(char *) (k ? p + 1 : q - 1) - (char *) r', '(char *) (i++, p) - (char *) r', '(p + 1) - q', '(p + k) - (q - i)', 'p + 1 > q', 'p - 1 == q', '&p[1] != &q[i]', '(p < q) + (q < p)', '(p - q) / 2', '(q - p) > 0', '-(p - q)', '(int) (p - q)', 'i + (p - q)', 'p == (void *) q', '(void *) p == (void *) q', '0 == p', 'p != 0 && q != 0', 'p > r || q > r', '(long) &*p - (long) p', 'sizeof (p - q)', 'sizeof (*r)', 'sizeof r[1]', 'sizeof (&r)', 'sizeof (p + 1)',
                 '(char *) (q - i) - (char *) r', '(char *) &p[k] - (char *) p', '(char *) &r[i] - (char *) r', '(char *) &p[1] - (char *) p', '(char *) (r + i) - (char *) r',
                 'p - q', 'q - p', 'p - r', '&r[i] - &r[k]', 'p < q', 'p <= q', 'p > q', 'p >= q', 'p == q', 'p != q', '!p', 'p && q', 'p == 0', '(p - q) * 2', '(p - r) + (q - r)',
                 'sizeof (*p)', 'sizeof (r)', 'sizeof (p)', 'sizeof (r[0])', 'sizeof (r) / sizeof (r[0])', '(long) (p + 2) - (long) p', '(unsigned long) &r[3] - (unsigned long) &r[1]']
        for e in exprs:
            T(' return (long) (%s);' % e)
        for s in ['p++', '++p', 'p--', '--p', 'p += k', 'p -= k', 'p += 2', 'p = p + 1', 'p = &p[k]', 'q = p++', 'q = ++p', 'q = p--', 'q = --p', 'q += p - r', 'p = q = p + 1', 'p = 1 + p', 'p = k + p', 'p = &1[p]', 'p += -1', 'p -= -k', 'p = p - 1 + k', 'p += k ? 1 : 2', 'if (k) p++; else q++', 'i = p++ - q; q += i', 'p = q + (p - r)', 'p++, q--', 'p = q++', 'p = (q++ == r) ? q : r']:
            T(' %s; return ((char *) p - (char *) r) * 1000 + ((char *) q - (char *) r);' % s)
        for s in ['(p++ == q)', '(++p == q)', '(p-- == q)', '(--p == q)']:
            T(' i = %s; return ((char *) p - (char *) r) * 1000 + i;' % s)
        # every pair of indices
        out = []
        for _, x in tests:
            for i, k in itertools.product((0, 1, 4) if not thorough else range(5), (0, 1, 3) if not thorough else range(5)):
                out.append(([], x.replace('int NAMEi;', 'int NAMEi = %d;' % i).replace('int NAMEk;', 'int NAMEk = %d;' % k)))
        for n in range(0, len(out), 250):
            yield 'pointers to %s %d' % (y.replace('sNAME', t), n // 250), out[n:n + 250]
        if st or t == 'P':
            continue
        # through pointers
        tests = []
        init = ' %s r[6]; %s *p; %s **pp; %s *v[2]; int i; for (i = 0; i < 6; i++) r[i] = i * 3 + 1; i = NAMEi; p = &r[i]; pp = &p; v[0] = r; v[1] = p; r[2] = a_%s;' % (y, y, y, y, t)
        after = ' { long z; z = 0; int j; for (j = 0; j < 6; j++) z = z * 5 + r[j]; return (z * 7 + (p - r)) * 16 + NAMEc * 4 + i; }' if t not in ('l', 'ul', 'u', 'i') else ' { long z; z = 0; int j; for (j = 0; j < 6; j++) z = (z ^ r[j]) & 0xffffff; return (z * 8 + (p - r)) * 64 + NAMEc * 8 + i; }'
        for e in ['*p', '*(p + 1)', 'p[1]', '1[p]', '*p + 1', '**pp', '*pp[0]', '(*pp)[1]', '*v[1]', 'v[1][0]', '*(v[0] + 2)', '*p++', '*++p', '(*p)++', '++*p', '*p--', '*--p', '(*p)--', '--*p', '*p * *p', '-*p', '!*p', '~*p', '*p == a_T', 'p[0] - p[1]',
                  '*&r[i]', '(&r[i])[1]', 'r[r[0]]', 'r[i] + r[i + 1]', '(*p == 4) + 1', '*p ? 5 : 6']:
            tests.append((e, ' return (long) (%s);' % e.replace('a_T', 'a_' + t)))
        for s in ['1[p] = 9', '*(1 + p) = 9', 'r[NAMEg ()]++', '++r[NAMEg ()]', 'r[NAMEg ()] += 3', 'r[NAMEg ()] <<= 1', 'r[i++] += 3', 'r[++i] -= 3', 'r[i--]++', 'p[NAMEg ()] |= 8', '*NAMEh (p) += 2', '(*NAMEh (p))++', '--*NAMEh (p)', 'NAMEh (p)[1] ^= 5', '*p++ += 2', '*++p *= 3', '(*p++)++', '++*++p', '*(p++) = 3', 'p++[1] = 9', 'r[r[0]] += r[1]', 'v[NAMEg () - 1][0] += 4', '**v += 4', '(*pp)[NAMEg ()] += 4', '*(*pp)++ += 4', '*p = 9', 'p[1] = 9', '*p++ = 9', '*++p = 9', '(*p)++', '++*p', '*p-- = 9', '*--p = 9', '*p += 5', 'p[1] += 5', '*p = p[1]', 'p[1] = *p', '**pp = 9', '*pp = *pp + 1', '(*pp)++', '*(*pp)++ = 8', 'v[1][1] = 9', 'v[1]++, *v[1] = 7', '*p |= 8', '*p ^= 3', '*p <<= 1', '*p++, *p = 6', 'r[i]++', '--r[i + 1]', 'r[i] = r[i + 1] = 8', 'r[i] -= 3', '*p = *p * 3', '*p++ = *p', 'p[0] = p[1], p[1] = 2']:
            if s == '*p++ = *p':
                continue
            tests.append((s, ' %s;%s' % (s, after)))
        out = []
        for e, b in tests:
            for i in (1, 2) if not thorough else (1, 2, 3, 4):
                out.append((P(t), fn(b, init + ' NAMEc = 0;', 'int NAMEi = %d;\nint NAMEc;\nint NAMEg (void) { NAMEc++; return NAMEc; }\n%s *NAMEh (%s *p) { NAMEc = NAMEc + 1; return p + NAMEc - 1; }\n' % (i, y, y))))
        yield 'through pointers to ' + y, out
    # constants
    tests = []
    cs = ['0', '1', '127', '128', '255', '256', '32767', '32768', '65535', '65536', '2147483647', '0x7fffffff', '0x7f', '0xff', '0x80', '0x8000', '0xffff', '0xabCD', '017', '0777', '010', '00', '1U', '2147483648U', '4294967295U', '0x80000000', '0xffffffff', '0xffffffffU',
          '1L', '2147483647L', '1UL', '1LU', '0x7fffffffL', '-1', '-128', '-2147483647', '-2147483647 - 1', '-0x80', '- -1', '~0', '~0U', '-1U',
          "'a'", "'\\n'", "'\\t'", "'\\0'", "'\\''", "'\\\\'", "'\"'", "'\\\"'", "'\\r'", "'\\b'", "'\\f'", "'\\v'", "'\\a'", "'\\x41'", "'\\101'", "'\\7'", "'\\177'", "'\\377'", "'\\xff'", "' '", "'~'", "'0'", "'?'"]
    if mach == '64':
        cs += ['4294967296', '9223372036854775807', '0x7fffffffffffffff', '0x100000000', '18446744073709551615U', '0xffffffffffffffffUL', '0x8000000000000000UL', '4294967295', '2147483648', '-2147483648', '-4294967295', '-9223372036854775807']
    for x in cs:
        for f in ('return (long) (%s);', 'long x; x = %s; return x;', 'int x; x = (%s); return (long) x;', 'unsigned char x; x = %s; return (long) x;', 'return (long) ((%s) + 1);', 'return (%s) > -1;', 'return (%s) < 10;', 'static long x = %s; return x;', 'static int x = %s; return (long) x;',
                  'return (long) sizeof (%s);', 'return (long) (%s) == a_l;', 'return a_l < (%s);', 'switch (a_l) { case %s: return 1; default: return 2; }'):
            if '+ 1' in f and x in ('2147483647', '0x7fffffff', '2147483647L', '0x7fffffffL', '9223372036854775807', '0x7fffffffffffffff'):
                continue        # overflows
            tests.append((P('l') if 'a_l' in f else [], fn(' ' + f % x, '')))
    for k in range(0, len(tests), 300):
        yield 'constants %d' % (k // 300), tests[k:k + 300]
    # constant expressions
    tests = []
    ks = ['5', '(-3)', '0', '7', '2'] 
    for op in ALL:
        for x, y in itertools.product(ks, ks):
            if op in ('/', '%') and y == '0' or op in ('<<', '>>') and '-' in x + y:
                continue
            e = '%s %s %s' % (x, op, y)
            for f in ('return (long) (%s);', 'static int x = %s; return x;', 'static long x[2] = { 1, %s }; return x[1];', 'int x[((%s) & 7) + 1]; return (long) sizeof (x);', 'enum { NAMEe = %s }; return (long) NAMEe;', 'switch (a_i) { case (%s): return 1; default: return 2; }'):
                tests.append((P('i') if 'a_i' in f else [], fn(' ' + f % e, '')))
    for e in ['!5', '!0', '~5', '-(3)', '+4', '1 ? 5 : 6', '0 ? 5 : 6', '(2 > 1) ? 3 : 4', 'sizeof (int)', 'sizeof (long) * 2', 'sizeof (char)', '(char) 300', '(unsigned char) 300', '(int) 5L', '(3 == 3) ? 9 : 8', '1 + 2 * 3', '(1 + 2) * 3', '1 << 2 + 1', '8 >> 1 << 1', '5 & 3 | 8', '~0 & 15']:
        for f in ('return (long) (%s);', 'static int x = %s; return x;', 'static long x[2] = { 1, %s }; return x[1];', 'int x[((%s) & 7) + 1]; return (long) sizeof (x);', 'enum { NAMEe = %s }; return (long) NAMEe;', 'switch (a_i) { case (%s): return 1; default: return 2; }'):
            tests.append((P('i') if 'a_i' in f else [], fn(' ' + f % e, '')))
    for k in range(0, len(tests), 300):
        yield 'constant expressions %d' % (k // 300), tests[k:k + 300]
