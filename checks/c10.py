"""C10: ports. All operation sequences up to a depth over string ports, file ports and standard input and
output, with every way to name or redirect a port, against Guile."""
import sys, itertools, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mesmc import core, build, scheme, diff, procs
from mesmc.diff import Group

c = core.Check('C10', 'exploration')
D = 1 if c.thorough else 0
LOAD = ' '.join('(mes-use-module (%s))' % m for m in ('mes scm', 'mes guile', 'mes display', 'mes simple-format', 'srfi srfi-1', 'srfi srfi-13', 'srfi srfi-9'))
# a character is shown as its code, so that the encoding of the harness's own output does not matter
PRE = '''(define (ci x) (cond ((eof-object? x) -1) ((char? x) (char->integer x)) ((string? x) (cons 's (map char->integer (string->list x)))) ((symbol? x) (cons 'y (map char->integer (string->list (symbol->string x))))) ((pair? x) (cons (ci (car x)) (ci (cdr x)))) (else x)))
(define-record-type pt (make-pt x y) pt? (x pt-x) (y pt-y))
(define R (make-pt 1 'b))
(define (back c) (if (eof-object? c) c (begin (unread-char c) c)))
'''
KW = dict(prelude=PRE,
          mes_prelude=LOAD + '''(define pre "m") (define (done p) p) (define (rd . p) (apply read p)) (define (rb) (read-byte)) (define (pb) (peek-byte)) (define (out! p) (set-current-output-port p)) (define (in! p) (set-current-input-port p))
(define (file->string* f) (read-string (open-input-file f)))''',
          guile_prelude='''(use-modules (srfi srfi-1) (srfi srfi-9) (srfi srfi-13) (ice-9 rdelim)) (fluid-set! %default-port-encoding "ISO-8859-1") (define pre "g")
(set-port-encoding! (current-output-port) "ISO-8859-1")
(define (done p) (if (output-port? p) (close-port p)))
(define (rd . p) (let ((x (apply read p))) (if (eof-object? x) (throw 'outside) x)))
(define (b x) (if (eof-object? x) -1 (char->integer x)))
(define (rb) (b (read-char))) (define (pb) (b (peek-char)))
(define (out! p) (set-current-output-port p)) (define (in! p) (set-current-input-port p))
(define (open-output-file* f) (open-output-file f))
(define (file->string* f) (force-output (current-output-port)) (call-with-input-file f read-string))''', shard=150)
G = []
def add(name, cases, **kw):
    c.log('%s: %d cases' % (name, len(cases)))
    G.append(Group(name, ['{x}'], dict(x=cases), **dict(KW, **kw)))
def lit(s):
    return '(list->string (map integer->char (list %s)))' % ' '.join(str(ord(x)) for x in s)
# 1. one input port: a string, or a file
CONT = ['', 'a', 'ab\n', '\n\nx', '\xff\x80z', '(a b)c "d', 'x y', '"s\\n"12 ', ';c\nz', '\0\x01\0']
OPS = {'c': '(read-char)', 'p': '(peek-char)', 'b': '(rb)', 'k': '(pb)', 'u': '(back (read-char))', 'z': '(unread-char #\\Z)', 'l': '(read-line)', 's': '(read-string)', 'r': '(rd)',
       'C': '(read-char (current-input-port))', 'L': '(read-line (current-input-port) \'concat)', 'R': '(rd (current-input-port))', 'S': '(read-string (current-input-port))'}
def seqs(ops, n):
    for k in range(1, n + 1):
        for s in itertools.product(ops, repeat=k):
            # one character of push-back, and only of one just read
            if all(x != 'z' or (i and s[i - 1] in 'cbC') for i, x in enumerate(s)):
                yield s
def body(s):
    return ' '.join('(a%d (ci %s))' % (i, OPS[x]) for i, x in enumerate(s))
def res(s):
    return '(list %s)' % ' '.join('a%d' % i for i in range(len(s)))
def in_string(t, s):
    return '(with-input-from-string %s (lambda () (let* (%s) %s)))' % (lit(t), body(s), res(s))
n = 3 + D
add('a string port', [in_string(t, s) for t in CONT for s in seqs('cpbkuzlsrCLRS', n) if not (t[:1] == '\0' and set('rR') & set(s))])
add('a string port, deeper', [in_string(t, s) for t in ('ab\n', '\xff\x80z') for s in seqs('cpuz', 5 + D)])
nth = [0]
def fn():
    nth[0] += 1
    return '(string-append pre "%d")' % nth[0]
def in_file(t, s, ops=None):
    # the file is written by the case itself
    return '(let ((f %s)) (with-output-to-file f (lambda () (display %s))) (with-input-from-file f (lambda () (let* (%s) %s))))' % (fn(), lit(t), body(s), res(s))
add('a file port', [in_file(t, s) for t in CONT[:8] for s in seqs('cpuzlsrCL', 2 + D)])
# 2. two ports side by side, named or current
OPS2 = ["(in! p)", "(in! q)", "(ci (read-char))", "(ci (peek-char))", "(ci (read-char p))", "(ci (read-char q))", "(ci (read-line q))", "(ci (rd p))", "(ci (read-string p))", "(ci (back (read-char)))",
        "(with-input-from-string \"XY\" (lambda () (list (ci (read-char)) (ci (read-char p)) (ci (read-char)))))", "(eq? (current-input-port) p)"]
def two(bind, s):
    steps = ' '.join('(a%d %s)' % (i, '(begin %s 0)' % x if x.startswith('(in!') else x) for i, x in enumerate(s))
    return '(let* ((prev (current-input-port)) %s (st (in! p)) %s (x (read-char)) (end (in! prev))) (list %s (ci x) (eq? (current-input-port) prev)))' % (bind, steps, res(s))
SP = '(p (open-input-string "(a b)c d\n"))'
SQ = '(q (open-input-string "1\n23\n"))'
def FQ():
    f = fn()
    return '(f %s) (w (with-output-to-file f (lambda () (display "1\\n23\\n")))) (q (open-input-file f))' % f
add('two string ports', [two(SP + SQ, s) for k in range(n + 1) for s in itertools.product(OPS2, repeat=k)])
add('a string port and a file port', [two(SP + FQ(), s) for k in range(2 + D + 1) for s in itertools.product(OPS2, repeat=k)])
# 3. output: nested redirections
def outx(d):
    """expressions with output, up to depth D"""
    base = ["(display 'a)", "(write-char #\\b)", "(write \"c\\n\")", "(newline)", "(display '(d . \"e\") (current-output-port))", "(write-char (integer->char 255) (current-output-port))", "(display \"to outer\" o)", "(write-byte 65)"]
    if d == 0:
        return base
    sub = outx(d - 1)
    few = base[:1] + base[6:7] if d > 1 else base[:3] + base[6:7]
    out = list(base)
    for e in sub:
        for f in few:
            out += ['(begin %s %s)' % (e, f), '(begin %s %s)' % (f, e)] if d == 1 else ['(begin %s %s)' % (f, e)]
        out += ['(t (with-output-to-string (lambda () %s)))' % e, '(display (with-output-to-string (lambda () %s)))' % e,
                '(t (with-output-to-string (lambda () (display "x") %s (write-char #\\y))))' % e,
                '(let ((o2 (current-output-port))) %s (display "o2" o2))' % e]
    return list(dict.fromkeys(out))
OT = "(let* ((l '()) (t (lambda (x) (set! l (cons (ci x) l)))) (o #f) (r (with-output-to-string (lambda () (set! o (current-output-port)) %s)))) (list (ci r) l))"
add('output to strings', [OT % e.replace('(display "to outer" o)', '(display "to outer" (current-output-port))') for e in outx(2)])
# write-byte is put-u8 on the current output port in Guile
G[-1].gp += '(use-modules (ice-9 binary-ports)) (define (write-byte b . p) (write-char (integer->char b)))'
def filex(d, k=0):
    base = ["(display 'a)", "(write-char #\\b)", "(write \"c\\n\")", "(display \"P\" p)", "(write-char (integer->char 200) p)", "(newline p)", "(write '(1 . \"x\") p)", "(display R p)", "(write (list R))"]
    if d == 0:
        return base
    sub = filex(d - 1, k + 1)
    out = list(base)
    for e in sub:
        out += ['(with-output-to-port q (lambda () %s))' % e, '(let* ((s (out! q)) (u %s)) (out! s))' % e, '(let* ((s (out! p)) (u %s) (v (display "then")) (w (out! s))) (display "after"))' % e,
                '(with-output-to-file (string-append f "b") (lambda () %s))' % e, '(begin (with-output-to-file (string-append f "b") (lambda () %s (display "end"))) (display "back"))' % e,
                '(t (with-output-to-string (lambda () %s)))' % e.replace(' p)', ')').replace(' q)', ')') if 'out!' not in e and 'port' not in e and 'file' not in e else '(t (with-output-to-string (lambda () (display "s") %s (display "2"))))' % e,
                '(begin %s (write-char #\\p p))' % e, '(begin (display "x") %s (display "y"))' % e]
    return list(dict.fromkeys(out))
FT = '''(let* ((f %s) (l '()) (t (lambda (x) (set! l (cons (ci x) l)))) (p (open-output-file f)) (q (open-output-file (string-append f "q"))) (o (current-output-port)) (w0 (with-output-to-file (string-append f "b") (lambda () 0)))
 (r (with-output-to-file (string-append f "o") (lambda () %s))) (d (done p)) (d2 (done q))) (list l (map (lambda (x) (ci (file->string* (string-append f x)))) '("" "q" "b" "o")) (eq? o (current-output-port))))'''
add('output to files', [FT % (fn(), e) for e in filex(2 if D else 1)] + ([] if D else [FT % (fn(), e) for e in filex(2)[::1] if e.count('with-output-to') + e.count('out!') >= 2]), shard=90)
# the guile side has no with-output-to-port under that name
G[-1].gp += '(define (with-output-to-port p th) (let ((s (set-current-output-port p))) (let ((r (th))) (set-current-output-port s) r)))'
# 4. what is written can be read back: through a string, through a file
DAT = ["'a", "12", "-7", '"s\\n\\"\\\\"', "#\\a", "#\\space", "'()", "'(1 . 2)", "'(a (b) . c)", "(vector 1 'x \"y\")", "#t", "''q", "'(quote x y)", '""', "(list 1 \"2\" #\\3)", "(integer->char 10)", "'(#t #f)", "(string #\\tab #\\a)"]
cases = []
for x, y in itertools.product(DAT, repeat=2):
    cases.append('(let ((s (with-output-to-string (lambda () (write %s) (display " ") (write %s) (newline))))) (with-input-from-string s (lambda () (let* ((a (rd)) (b (rd)) (r (read-string))) (list a b (equal? a %s) (equal? b %s) r)))))' % (x, y, x, y))
for x in DAT:
    cases.append('(let ((f %s)) (with-output-to-file f (lambda () (write %s) (newline) (display "tail"))) (with-input-from-file f (lambda () (let* ((a (rd)) (b (read-char)) (r (read-string))) (list a b r (equal? a %s))))))' % (fn(), x, x))
    cases.append('(let ((f %s)) (with-output-to-file f (lambda () (display %s))) (equal? (ci (file->string* f)) (ci (with-output-to-string (lambda () (display %s))))))' % (fn(), x, x))
    cases.append("(ci (object->string %s))" % x)
    cases.append("(ci (object->string %s display))" % x)
add('write then read', cases)
# 5. format
FM = ['a', '~a', '~s', '~A', '~S', '~%', '~~', ' ', '\\"', '(']
ARGS = ["'x", '"q\\n"', '12', "(list 1 \"s\" #\\c)", '#f']
cases = []
for k in range(4 if not D else 5):
    for fs in itertools.product(FM if k < 3 else FM[:2] + FM[2:7:2] + FM[6:8], repeat=k):
        na = sum(f[0] == '~' and f[1] in 'aAsS' for f in fs)
        for i in range(len(ARGS) if na else 1):
            args = ' '.join(ARGS[(i + j) % len(ARGS)] for j in range(na))
            for fun in (('simple-format', 'format') if i == 0 else ('simple-format',)):
                cases.append('(ci (%s #f "%s" %s))' % (fun, ''.join(fs), args))
            if i == 1 or not na:
                cases.append('(ci (with-output-to-string (lambda () (simple-format #t "%s" %s) (simple-format (current-output-port) "%s" %s))))' % (''.join(fs), args, ''.join(fs), args))
add('formats', cases, shard=1500)
# 6. names of files
PATHS = ['/', 'a', '/a', 'a/b', '/a/b', 'a/b/c', '/a/b/c.scm', 'b.scm', 'x.tar.gz', '/.x']
add('parts of file names', ['(list (ci (dirname "%s")) (ci (basename "%s")))' % (p, p) for p in PATHS[1:]] +
    ['(list (ci (basename "%s" "%s")))' % (p, e) for p in PATHS[1:] for e in ('.scm', '.gz', 'tar.gz', '.x', 'c')
     if os.path.basename(p) != e] +
    ['(let ((f %s)) (list (file-exists? f) (begin (with-output-to-file f (lambda () (display "x"))) (file-exists? f)) (access? f R_OK) (access? (string-append f "/x") R_OK)))' % fn()] +
    ['(catch \'system-error (lambda () (open-input-file (string-append "nothere" "%s")) 1) (lambda (k . a) k))' % x for x in ('', '/a')])
R = diff.explore(c, G)
# 7. standard input, output and error of a whole program
OPS['i'] = '(begin (write-char #\\i) 0)'
t = R.t
P_IN = ''.join('(mes-use-module (%s))' % m for m in ('mes scm', 'mes guile', 'mes simple-format', 'srfi srfi-9')) + PRE
def simulate(inp, s):
    """the result of the reading operations S on a byte string"""
    i, out = 0, []
    push = []
    def get():
        nonlocal i
        if push:
            return push.pop()
        if i < len(inp):
            i += 1
            return ord(inp[i - 1])
        return None
    for x in s:
        if x in 'cp':
            g = get()
            out.append('-1' if g is None else str(g))
            if x == 'p' and g is not None:
                push.append(g)
        elif x == 'l':
            l = []
            g = get()
            if g is None:
                out.append('-1')
                continue
            while g is not None and g != 10:
                l.append(g)
                g = get()
            out.append('(s' + ''.join(' %d' % v for v in l) + ')')
        elif x == 's':
            l = []
            g = get()
            while g is not None:
                l.append(g)
                g = get()
            out.append('(s' + ''.join(' %d' % v for v in l) + ')')
        elif x == 'z':
            push.append(90)
            out.append('90')
    return '(' + ' '.join(out) + ')'
jobs, want = [], []
for inp in ('', 'a', 'x\ny', '\xff\n\n', '(quit) '):
    for s in seqs('cplsz', 2 + D):
        prog = P_IN + '(let* (%s) (write %s))' % (body(s), res(s))
        for how in range(3 if len(s) < 3 else 1):
            data = inp.encode('latin-1')
            if how == 0:
                jobs.append((['-s', '@/t.scm'], data, {}, {'t.scm': prog}))
            elif how == 1:
                jobs.append((['-c', prog], data, {}, {}))
            else:
                jobs.append((['@/t.scm', 'x'], data, {}, {'t.scm': prog}))
            want.append((simulate(inp, s).encode(), b'', (('' if how != 1 else '-c ') + inp, s)))
OUT = {'a': ('(display "a")', 1), 'b': ('(display "b" (current-error-port))', 2), 'c': ('(write-char #\\c 1)', '1'), 'd': ('(write-char #\\d 2)', '2'), 'e': ('(core:display "e")', 1), 'f': ('(core:display-error "f")', 2),
       'F': ('(with-output-to-file "f" (lambda () %s))', 'f'), 'E': ('(with-error-to-file "g" (lambda () %s))', 'g'), 'P': ('(with-output-to-port 2 (lambda () %s))', 2),
       'Q': ('(let ((s (set-current-error-port 1))) %s (set-current-error-port s))', 1), 'R': ('(let ((s (set-current-output-port 2))) %s (set-current-output-port s))', 2)}
def osim(prog, o=1, e=2, st=None):
    """prog: nested lists of letters; st: contents by place"""
    for x in prog:
        if isinstance(x, str):
            d = OUT[x][1]
            place = {'1': 1, '2': 2}.get(d) or (o if d == 1 else e)
            st[place] = st.get(place, '') + x.lower()
        else:
            k, sub = x
            if k == 'F':
                st['f'] = ''
                osim(sub, 'f', e, st)
            elif k == 'E':
                st['g'] = ''
                osim(sub, o, 'g', st)
            elif k in 'PR':
                osim(sub, 2, e, st)
            else:
                osim(sub, o, 1, st)
    return st
def otext(prog):
    return ' '.join(OUT[x][0] if isinstance(x, str) else OUT[x[0]][0] % otext(x[1]) for x in prog)
progs = [list(p) for k in (1, 2) for p in itertools.product('abcdef', repeat=k)]
flat = [list('aceb'), list('abcdef'), list('fedcba')]
progs += [['a', (k, f), 'b', 'a'] for k in 'FEPQR' for f in flat]
progs += [['a', (k, ['a', (k2, f), 'b', 'e']), 'b', 'a'] for k in 'FEPQR' for k2 in 'FEPQR' if not (k == k2 and k in 'FE') for f in flat[1:]]
if D:
    progs += [['a', (k, ['a', (k2, ['b', (k3, list('abcdef')), 'a']), 'b', 'e']), 'b', 'a'] for k in 'FEPQR' for k2 in 'FEPQR' for k3 in 'FEPQR' if len(set(k + k2 + k3) & set('FE')) == sum(x in 'FE' for x in k + k2 + k3)]
# a redirection ends when it is left by an exception, too
X = {'throw': "(throw 'x 1)", 'not': '(car 1)', 'unbound': 'nosuchvariable'}
for (h, e), k in itertools.product(X.items(), 'FEPX'):
    leave = {'X': '(with-output-to-string (lambda () %s))'}
    def ctx(k, body):
        return (leave.get(k) or OUT[k][0]) % body
    for k2 in ' FEPX':
        inner = ctx(k, '(display "lost") (core:display-error "") %s' % e)
        if k2 != ' ':
            inner = ctx(k2, inner) if not (k2 == k and k in 'FE') else None
        if not inner:
            continue
        text = "(display \"a\") (catch #t (lambda () %s) (lambda (k . a) (display \"b\") (display \"e\" (current-error-port)))) (display \"c\") (with-output-to-string (lambda () (display 1))) (display \"d\" (current-error-port))" % inner
        to2 = 'lost' if k == 'P' or (k2 == 'P' and k == 'E') else ''
        lost1 = 'lost' if 'X' not in (k, k2) and (k == 'E' and k2 in ' E') else ''
        jobs.append((['-s', '@/t.scm'], b'', {}, {'t.scm': P_IN + text}))
        want.append((b'a' + lost1.encode() + b'bc', to2.encode() + b'ed', ({}, text)))
for h, e in X.items():
    for inp in ('(with-input-from-string "XY" (lambda () (read-char) %s))', '(with-input-from-file "t.scm" (lambda () (read-char) %s))', '(with-input-from-string "ab" (lambda () (with-input-from-string "cd" (lambda () %s))))'):
        text = "(let* ((a (read-char)) (b (catch #t (lambda () %s) (lambda (k . a) (read-char)))) (c (read-char))) (display (list a b c)))" % (inp % e)
        jobs.append((['-s', '@/t.scm'], b'123', {}, {'t.scm': P_IN + text}))
        want.append((b'(1 2 3)', b'', ({}, text)))
for p in progs:
    st = osim(p, st={})
    jobs.append((['-s', '@/t.scm'], b'', {}, {'t.scm': P_IN + otext(p)}))
    want.append((st.get(1, '').encode(), st.get(2, '').encode(), ({k: v.encode() for k, v in st.items() if k in ('f', 'g')}, otext(p))))
got = procs.run_all(c, t, jobs)
bad = 0
for (argv, inp, env, files), (o, e, info), (rc, go, ge, left) in zip(jobs, want, got):
    extra = isinstance(info[0], dict) and any(left.get(k) != v for k, v in info[0].items())
    c.add('evaluations', 1)
    if (rc, go, ge) != (0, o, e) or extra:
        bad += 1
        if bad <= 20:
            c.fail('process: %r %s' % (info[0], info[1]), 'exit %r\n stdout %r, expected %r\n stderr %r, expected %r\n files %r' % (rc, go[:200], o[:200], ge[:200], e[:200], {k: v for k, v in left.items() if k != 't.scm'}),
                   {'t.scm': files.get('t.scm') or ' '.join(argv), 'stdin': inp, 'expected.txt': o})
c.log('whole programs           %6d cases, %d different' % (len(jobs), bad))
c.finish()
