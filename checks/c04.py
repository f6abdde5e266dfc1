"""C04: all texts of a grammar of external representations are read back against a model; write then read is the identity."""
import sys, itertools, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mesmc import core, build, scheme, diff, procs
from mesmc.diff import Group

c = core.Check('C04', 'exploration')
T = c.thorough
# the model: a datum is an int, bool, or a tuple (kind, contents)
def S(b): return ('s', b if isinstance(b, bytes) else b.encode('latin-1'))
def C(n): return ('c', n)
def Y(n): return ('y', n.encode('latin-1'))
def K(n): return ('k', n.encode('latin-1'))
NIL = ('e',)
def cons(a, d): return ('p', a, d)
def L(*xs, tail=NIL):
    r = tail
    for x in reversed(xs):
        r = cons(x, r)
    return r
def V(*xs): return ('v',) + xs
def dump(x):
    if x is True: return '(t)'
    if x is False: return '(f)'
    if isinstance(x, int): return '(n %d)' % x
    if x[0] in 'syk': return '(%s)' % ' '.join([x[0]] + [str(b) for b in x[1]])
    if x[0] == 'c': return '(c %d)' % x[1]
    if x[0] == 'e': return '(e)'
    if x[0] == 'p': return '(p %s %s)' % (dump(x[1]), dump(x[2]))
    return '(%s)' % ' '.join(['v'] + [dump(y) for y in x[1:]])
DUMP = r'''
(define (codes s) (map1 char->integer (string->list s)))
(define (dump x)
  (cond ((eq? x #t) '(t)) ((eq? x #f) '(f)) ((null? x) '(e))
        ((number? x) (list 'n x))
        ((string? x) (cons 's (codes x)))
        ((char? x) (list 'c (char->integer x)))
        ((symbol? x) (cons 'y (codes (symbol->string x))))
        ((keyword? x) (cons 'k (codes (symbol->string (keyword->symbol x)))))
        ((pair? x) (list 'p (dump (car x)) (dump (cdr x))))
        ((vector? x) (cons 'v (map1 dump (vector->list x))))
        (#t 'other)))
'''
ATOMS = [('0', 0), ('1', 1), ('-1', -1), ('+5', 5), ('007', 7), ('1234567890123', 1234567890123), ('-42', -42),
         ('9223372036854775807', 2 ** 63 - 1), ('-9223372036854775807', -2 ** 63 + 1),
         ('#b101', 5), ('#b-11', -3), ('#b0', 0), ('#o17', 15), ('#o-7', -7), ('#xff', 255), ('#xFF', 255), ('#x-1a', -26), ('#xAbC0', 0xabc0), ('#x7fffffffffffffff', 2 ** 63 - 1),
         ('""', S('')), ('"a"', S('a')), ('"a b"', S('a b')), ('"\\""', S('"')), ('"\\\\"', S('\\')), ('"a\\nb\\tc"', S('a\nb\tc')),
         ('"x\\0y"', S('x\0y')), ('"\\a\\b\\v\\f\\r\\e"', S('\a\b\v\f\r\x1b')), ('"\\x41"', S('A')), ('";(#|"', S(';(#|')), ('"two\nlines"', S('two\nlines')),
         ('"\xe9\xff"', S('\xe9\xff')), ('"\\x7e!"', S('~!')),
         ('#\\a', C(97)), ('#\\A', C(65)), ('#\\space', C(32)), ('#\\newline', C(10)), ('#\\tab', C(9)), ('#\\nul', C(0)), ('#\\alarm', C(7)),
         ('#\\backspace', C(8)), ('#\\linefeed', C(10)), ('#\\vtab', C(11)), ('#\\page', C(12)), ('#\\return', C(13)), ('#\\esc', C(27)),
         ('#\\(', C(40)), ('#\\)', C(41)), ('#\\;', C(59)), ('#\\"', C(34)), ('#\\#', C(35)), ('#\\\\', C(92)), ("#\\'", C(39)), ('#\\0', C(48)), ('#\\7', C(55)),
         ('#\\8', C(56)), ('#\\101', C(65)), ('#\\012', C(10)), ('#\\377', C(255)), ('#\\x41', C(65)), ('#\\x7F', C(127)), ('#\\xfe', C(254)), ('#\\xAB', C(0xab)), ('#\\x', C(120)), ('#\\X', C(88)),
         ('#\\*', C(42)), ('#\\,', C(44)), ('#\\.', C(46)),
         ('a', Y('a')), ('abc', Y('abc')), ('a1', Y('a1')), ('+', Y('+')), ('-', Y('-')), ('...', Y('...')), ('->', Y('->')), ('4a', Y('4a')), ('+1b', Y('+1b')), ('-5a', Y('-5a')),
         ('1+', Y('1+')), ('1-', Y('1-')), ('<=?', Y('<=?')), ('a.b', Y('a.b')), ('.5', Y('.5')), ('a#b', Y('a#b')), ('$%&*/:<=>?^_~!', Y('$%&*/:<=>?^_~!')), ('A', Y('A')), ('*', Y('*')),
         ('#:a', K('a')), ('#:foo-bar', K('foo-bar')), ('#:k1', K('k1')),
         ('#t', True), ('#f', False), ('()', NIL)]
cases = {}
def add(group, text, datum):
    cases.setdefault(group, {})["(dump '%s)" % text] = dump(datum).encode()
# separators between tokens: white space and comments of every kind
SEP = [' ', '\n', '\t', '\f', '\r\n', '  \n ', ';c\n', ';\n', '#|c|#', '#|a|b#c|#', '#!c!#', '#;x ', '#;(x y)', '#; #|;|# "s" ', ' ;a\n;b\n ', '#|(|#']
small = [('1', 1), ('a', Y('a')), ('"s"', S('s')), ('#\\c', C(99)), ('()', NIL)]
for t, d in ATOMS:
    add('atoms', t, d)
    for s in SEP:
        add('atoms', s + t, d)
        add('atoms', '(%s%s%s)' % (s, t, ' ' + s), L(d))
        add('atoms', '(%s . %s%s)' % (t, s, t + ' ' + s), cons(d, d))
        add('atoms', '#(%s%s%s)' % (s, t, ' ' + s), V(d))
    for q, n in (("'", 'quote'), ('`', 'quasiquote'), (',', 'unquote'), (',@', 'unquote-splicing'), ("#'", 'syntax'), ('#`', 'quasisyntax'), ('#,', 'unsyntax'), ('#,@', 'unsyntax-splicing')):
        add('atoms', q + t, L(Y(n), d))
        add('atoms', '(1 %s%s %s%s)' % (q, t, q, t), L(1, L(Y(n), d), L(Y(n), d)))
        add('atoms', '(1 . %s%s)' % (q, t), L(1, Y(n), d))
# pairs of atoms with every separator
for (t, d), (u, e) in itertools.product(ATOMS, ATOMS if T else ATOMS[::3] + small):
    for s in (SEP if T else SEP[::3] + ['#;x ']):
        if s[0] in '#' and t[-1] not in '")':
            s = ' ' + s            # '#' may be part of a symbol
        add('pairs of atoms', '(%s%s%s)' % (t, s, u), L(d, e))
# delimiters that end a token by themselves
for t, d in ATOMS:
    if t not in ('#\\x',):
        add('delimiters', '(%s(b)%s"s"%s;c\n)' % (t, t, t), L(d, L(Y('b')), d, S('s'), d))
    add('delimiters', '((%s)(%s))' % (t, t), L(L(d), L(d)))
# structures with every combination of separators
A, B, D = Y('a'), Y('b'), Y('d')
SHAPES = [('(_a_b_)', L(A, B)), ('(_a_._b_)', cons(A, B)), ('#(_a_b_)', V(A, B)), ('(_(_)_a_)', L(NIL, A)), ("(_'_a_)", L(L(Y('quote'), A))),
          ('(a_(b_d)_a)', L(A, L(B, D), A)), ('(a_._(b_._d_))', cons(A, cons(B, D))), ('`(a_,b_,@_d)', L(Y('quasiquote'), L(A, L(Y('unquote'), B), L(Y('unquote-splicing'), D)))),
          ('(_"s"_1_)', L(S('s'), 1)), ('#(_#(_a_)_)', V(V(A))), ('(_#\\a_#t_)', L(C(97), True)), ('(a_b_._(d_))', L(A, B, D)), ('(_(_(_)_)_)', L(L(NIL)))]
SEP2 = SEP if T else [' ', '\n', ';c\n', '#|c|#', '#;x ', '#!c!#', '\r\n']
for sh, d in SHAPES:
    parts = sh.split('_')
    for ss in itertools.product(SEP2, repeat=len(parts) - 1):
        if len(parts) > 5 and not T and len(set(ss)) > 2:
            continue
        if len(parts) > 4 and T and len(set(ss)) > 3:
            continue
        t = parts[0]
        for s, p in zip(ss, parts[1:]):
            if s[0] == '#' and t[-1] not in '")( \n' and not t.endswith("'") :
                s = ' ' + s
            if t.endswith(',') and s[0] == '@':
                s = ' ' + s
            t += s + p
        add('structures', t, d)
# every list and vector of small depth over small atoms
def trees(d):
    if d == 0:
        return list(small)
    sub = trees(d - 1)
    r = list(sub)
    pick = sub if d == 1 else sub[:40] if not T else sub[:70]
    for x, y in itertools.product(pick, repeat=2):
        r.append(('(%s %s)' % (x[0], y[0]), L(x[1], y[1])))
        r.append(('(%s . %s)' % (x[0], y[0]), cons(x[1], y[1])))
        r.append(('#(%s %s)' % (x[0], y[0]), V(x[1], y[1])))
    for x in pick:
        r.append(('(%s)' % x[0], L(x[1])))
        r.append(("'%s" % x[0], L(Y('quote'), x[1])))
        r.append(("#(%s)" % x[0], V(x[1])))
    return r
TR = trees(2)
for t, d in TR:
    add('trees', t, d)
# size
for n in (10, 100, 1000):
    add('size', '(' * n + ')' * n, (lambda f: f(f, n))(lambda f, k: NIL if k == 1 else cons(f(f, k - 1), NIL)) if n <= 100 else (lambda r: r)(eval("NIL")) ) if n <= 100 else None
for n in (10, 1000, 5000):
    add('size', '(%s)' % ' '.join(['a'] * min(n, 900)), L(*[A] * min(n, 900)))
    add('size', '"%s"' % ('x' * n), S('x' * n))
    add('size', 'x' * n, Y('x' * n))
    add('size', '(#|%s|# a)' % ('comment ' * n), L(A))
    add('size', '(;%s\n a)' % ('comment ' * n), L(A))
    add('size', '(#!%s!# a)' % ('comment ' * n), L(A))
# every byte: in strings, as characters, as escapes
for b in range(1, 256):
    ch = chr(b)
    if ch not in '"\\':
        add('bytes', '"%s"' % ch, S(ch))
        add('bytes', '"a%sb"' % ch, S('a' + ch + 'b'))
    add('bytes', '#\\%s' % ch, C(b)) if not (ch.isalnum() and ord(ch) < 128) or True else None
    if b != 13:
        add('bytes', '(;%s\n1)' % ch, L(1)) if b != 10 else None
    add('bytes', '(#|%s|#1)' % ch, L(1))
for b in range(256):
    add('bytes', '"\\x%02x"' % b, S(chr(b)))
    add('bytes', '"q\\x%02X;"' % b, S('q' + chr(b) + ';'))
    add('bytes', '#\\%03o' % b, C(b)) if b > 7 else None
    add('bytes', '#\\x%02x' % b, C(b))
    add('bytes', '#x%x' % b, b)
    add('bytes', '#o%o' % b, b)
    add('bytes', '#b{:b}'.format(b), b)
sys.setrecursionlimit(20000)
G = []
for name, d in cases.items():
    G.append(Group('read: ' + name, ['{x}'], dict(x=list(d)), expect=d.__getitem__, prelude=DUMP, norm=lambda x: x))
diff.explore(c, G)

# write, then read what was written: with the C writer and with the one of (mes display)
atoms_w = [d for t, d in ATOMS] + [C(i) for i in range(256)] + [S(bytes([i])) for i in range(256)] + [S(bytes([97, i, 98])) for i in range(256)] + \
          [S(bytes([i, 48])) for i in range(256)]
def build_expr(x):
    "an expression that makes the datum without the reader's help"
    if x is True: return '#t'
    if x is False: return '#f'
    if isinstance(x, int): return str(x)
    if x[0] == 's': return '(list->string (map1 integer->char (list %s)))' % ' '.join(str(b) for b in x[1])
    if x[0] == 'y': return '(string->symbol %s)' % build_expr(('s', x[1]))
    if x[0] == 'k': return '(symbol->keyword %s)' % build_expr(('y', x[1]))
    if x[0] == 'c': return '(integer->char %d)' % x[1]
    if x[0] == 'e': return "'()"
    if x[0] == 'p': return '(cons %s %s)' % (build_expr(x[1]), build_expr(x[2]))
    return '(vector %s)' % ' '.join(build_expr(y) for y in x[1:])
# symbols with every character an identifier may have (reader_identifier_p)
for i in range(33, 127):
    if chr(i) not in '"();#,`\'':
        atoms_w.append(Y('a' + chr(i) + 'b'))
        if chr(i) not in '0123456789.':
            atoms_w.append(Y(chr(i)))
data = atoms_w + [d for t, d in TR] + [L(x, x) for x in atoms_w] + [V(x, L(x)) for x in atoms_w] + [cons(x, x) for x in atoms_w[:100]]
seen, uniq = set(), []
for d in data:
    k = dump(d)
    if k not in seen:
        seen.add(k)
        uniq.append(d)
tree = build.Tree()
tree.mes()
R = scheme.Runner(c, tree)
exprs = [build_expr(d) for d in uniq]
n = 0
for name, mp in (('C writer', ''), ('(mes display)', '(mes-use-module (mes display))')):
    # the runner's marks are \v and \f: those bytes raw in the output would end a case early
    res = R.both('', exprs, mes_prelude=mp, ref=[b''] * len(exprs), timeout=60)
    texts = [a for a, _ in res]
    again = R.both(DUMP, ["(dump '%s)" % t.decode('latin-1') for t in texts], ref=[dump(d).encode() for d in uniq], timeout=60)
    bad = 0
    for d, e, t, (a, b) in zip(uniq, exprs, texts, again):
        n += 1
        if a != b:
            bad += 1
            c.fail('%s: write of %s' % (name, e), 'written: %r\nread again: %s\nexpected: %s' % (t, a.decode('latin-1'), b.decode('latin-1')),
                   {'case.scm': scheme.MES_T % () + mp + DUMP + "(write %s)\n" % e, 'expected.txt': b})
    # the exact text, where there is one spelling
    for d, t in zip(uniq, texts):
        def plain(x):
            return x is True or x is False or isinstance(x, int) or x[0] == 'e' or (x[0] in 'sy' and all(32 < b < 127 and b not in b'"\\' for b in x[1]) and (x[0] == 's' or x[1])) or \
                (x[0] == 'c' and 33 <= x[1] < 127) or (x[0] == 'p' and plain(x[1]) and plain(x[2])) or (x[0] == 'v' and all(plain(y) for y in x[1:]))
        def show(x):
            if x is True: return '#t'
            if x is False: return '#f'
            if isinstance(x, int): return str(x)
            if x[0] == 's': return '"%s"' % x[1].decode()
            if x[0] == 'y': return x[1].decode()
            if x[0] == 'c': return '#\\' + chr(x[1])
            if x[0] == 'e': return '()'
            if x[0] == 'v': return '#(%s)' % ' '.join(show(y) for y in x[1:])
            r = '(' + show(x[1])
            x = x[2]
            while x is not True and x is not False and not isinstance(x, int) and x[0] == 'p':
                r += ' ' + show(x[1])
                x = x[2]
            return r + ('' if x == NIL else ' . ' + show(x)) + ')'
        if plain(d):
            n += 1
            if t.decode('latin-1') != show(d):
                c.fail('%s: text of %s' % (name, build_expr(d)), 'written: %r\nexpected: %r' % (t, show(d)), {'case.scm': mp + '(write %s)' % build_expr(d)})
    c.log('%s: %d data written and read again, %d different' % (name, len(uniq), bad))
# display, and the ends of inputs: whole programs
jobs, want = [], []
def prog(text, out, ok=True, args=None):
    jobs.append((['-s', '@/p.scm'], None, {}, {'p.scm': text}))
    want.append((text, out, ok))
allb = ' '.join(str(i) for i in range(256))
for mp in ('', '(mes-use-module (mes display))'):
    prog(mp + '(display (list->string (map1 integer->char (list %s))))' % allb, bytes(range(256)))
    prog(mp + '(for-each display (map1 integer->char (list %s)))' % allb, bytes(range(256)))
    prog(mp + '(display (list "a b" #\\a (quote |) "\\n" 1 #t))', b'(a b a | \n 1 #t)')
    prog(mp + '(display (quote (1 . 2)))(display (quote (1 2 . 3)))(display (quote (1 . #f)))(display (list 1 (vector 2 "x") #\\y))', b'(1 . 2)(1 2 . 3)(1 . #f)(1 #(2 x) y)')
    prog(mp + '(display "abc" (current-error-port))(display 1)', b'1')
for tail in ('', '\n', ' ', ';', ';c', ' ;c', '#|c|#', '\r\n', '#!x!#', '\n\n;\n', '\t', '\f', '#;x', ' #;(a b)\n'):
    prog('(display 1)(display 2)' + tail, b'12')
    prog('(display 1)' + (tail if tail.endswith(('\n', '#')) or not tail.strip() else tail + '\n') + (' ' if tail == '#;x' else '') + '(display 2)', b'12')
for tail in ('(display 2', '(display "2', '(display 2) (', "(display '(1 2)", '#|', '#| |', '#(1 2', '(display 2 . '):
    prog('(display 1)\n' + tail, None, ok=False)
if not os.environ.get('MESMC_GROUP'):
    res = procs.run_all(c, tree, jobs)
    for (text, out, ok), (rc, o, e, files) in zip(want, res):
        n += 1
        if (ok and (rc != 0 or o != out)) or (not ok and (rc == 0 or rc == 'timeout')):
            c.fail('program ' + text, 'status %s, output %r, expected %s' % (rc, o[:300], repr(out) if ok else 'a status that is not 0'), {'p.scm': text.encode('latin-1')})
c.add('evaluations', n)
c.cov['rule'] = 'every text of the grammar (atoms, separators and comments, structures, bytes) and every datum written; non-trivial: the datum is more than a boolean'
c.finish()
