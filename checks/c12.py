"""C12: errors. Every kind of faulty call in every evaluation position up to a depth, caught in every way, and
uncaught in whole programs."""
import sys, itertools, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mesmc import core, build, scheme, diff, procs
from mesmc.diff import Group

c = core.Check('C12', 'exploration')
D = 1 if c.thorough else 0
LOAD = ' '.join('(mes-use-module (%s))' % m for m in ('mes scm', 'mes catch', 'mes guile', 'mes simple-format', 'srfi srfi-1', 'srfi srfi-9', 'srfi srfi-13', 'srfi srfi-43', 'srfi srfi-26'))
PRE = '''(define l '())
(define (t x) (set! l (cons x l)) x)
(define-macro (mac x) (list 'list ''m x))
(define (deep n th) (if (= n 0) (th) (+ 1 (deep (- n 1) th))))
(define (after) (list (+ 1 2) (map (lambda (x) (* x x)) '(1 2)) (catch 'x (lambda () (throw 'x 5)) (lambda (k v) (list k v))) (vector-ref (vector 7) 0)))
(define (no x) x)
(define-record-type pt (make-pt x y) pt? (x pt-x) (y pt-y)) (define R (make-pt 1 2))
(define v3 (vector 1 2 3)) (define s3 "abc") (define l3 '(1 2 3))
(define (f0) 'f0) (define (f1 a) (list 'f1 a)) (define (f2 a b) (list 'f2 a b)) (define (r0 . r) r) (define (r1 a . r) (list a r)) (define (r2 a b . r) (list a b r))
'''
KW = dict(prelude=PRE, mes_prelude=LOAD, guile_prelude='(use-modules (srfi srfi-1) (srfi srfi-9) (srfi srfi-13) (srfi srfi-26) ((srfi srfi-43) #:select (vector-for-each vector-map)))', strict=True)
G = []
def add(name, cases, **kw):
    cases = list(dict.fromkeys(cases))
    c.log('%s: %d cases' % (name, len(cases)))
    G.append(Group(name, ['{x}'], dict(x=cases), **dict(KW, **kw)))
VAL = ['5', "'a", '"s"', '#\\c', "'()", '#t', '#f', '(if #f #f)', '(vector 1)', "'(1 2)", "'(1 . 2)", '(string->symbol "")', '123456789012', '#:k', 'R', '(make-hash-table 3)']
# 1. which calls are errors
CALL = ['(f0 {a})', '(f1 {a})', '(f2 {a})', '(r0 {a})', '(r1 {a})', '(r2 {a})', '((lambda () 1) {a})', '((lambda (x) x) {a})', '((lambda (x y) y) {a})', '((lambda (x . y) y) {a})', '((lambda (x y . z) z) {a})', '((lambda x x) {a})',
        '(car {a})', '(cons {a})', '(null? {a})', '(pair? {a})', '(set-car! {a})', '(vector-ref {a})', '(vector-set! {a})', '(char->integer {a})', '(not {a})', '(cadr {a})',
        '(let loop ((i 0) (j 1)) (if (= i 0) (loop {a}) (list i j)))', '(apply f1 (list {a}))', '(apply f2 {a} (list))', '(apply r1 (list {a}))', '(apply car (list {a}))', '(call-with-values (lambda () (values {a})) f2)', '(call-with-values (lambda () (values {a})) r1)',
        '(map f2 l3 {m})', '(for-each f0 l3 {m})', '((cut f2 {c}) 1)', '(catch \'x (lambda () (throw \'x {a})) (lambda (k a) (list k a)))', '(let () (define (g x) x) (g {a}))', '(string-length {a})', '(length {a})', '(append2 {a})']
cases = []
for t_ in CALL:
    for n in range(4):
        a = ' '.join(["'x", '2', 'l3'][:n])
        if n and t_ in ('(append2 {a})',):
            continue
        x = t_.replace('{a}', a).replace('{m}', ' '.join(['l3'] * n)).replace('{c}', ' '.join(['<>', '3', '4'][:n]))
        if x.startswith('(append2'):
            continue
        if x.startswith(('(string-length', '(vector-ref \'x', '(vector-set! \'x', '(char->integer', '(length')) and n:
            # the argument itself is of the wrong type: outside this property unless the number is wrong too
            if (x.startswith(('(string-length', '(char->integer', '(length')) and n == 1) or (x.startswith('(vector-ref') and n == 2) or (x.startswith('(vector-set') and n == 3):
                continue
        if x.startswith('(apply f2 2') or x == '(apply f2  (list))':
            pass
        cases.append(x)
add('number of arguments', cases)
add('not a procedure', ['(%s)' % v for v in VAL] + ["(%s 1 'x)" % v for v in VAL] + ['(apply %s (list 1))' % v for v in VAL] + ['(map %s l3)' % v for v in VAL] + ['((begin (t 1) %s) (t 2))' % v for v in VAL]
    + ['(let ((p %s)) (p 1))' % v for v in VAL] + ['((if #t %s) 1)' % v for v in VAL] + ['(call-with-values (lambda () 1) %s)' % v for v in VAL] + ['(for-each %s l3)' % v for v in VAL])
CXR = ['car', 'cdr'] + ['c%sr' % ''.join(p) for n in (2, 3) for p in itertools.product('ad', repeat=n)]
add('not a pair', ['(%s %s)' % (p, v) for p in CXR for v in VAL + ["'((1) (2 3) 4)", "'((((1))))", "(list)", "'(1 2 3 4)"]] + ['(%s %s 9)' % (p, v) for p in ('set-car!', 'set-cdr!') for v in VAL if "'(" not in v]
    + ['(map car (list \'(1) %s))' % v for v in VAL] + ['(for-each cdr (list %s))' % v for v in VAL] + ['(apply cdr (list %s))' % v for v in VAL])
NUM = ['+', '-', '*', 'quotient', 'remainder', 'modulo', '<', '>', '=', 'max', 'min', 'logand', 'logior']
add('not a number', ['(%s %s %s)' % (p, a, b) for p in NUM for v in VAL for a, b in ((v, '2'), ('2', v)) if not (p == '=' and v != '5')] + ['(%s %s)' % (p, v) for p in ('zero?', 'even?', 'odd?', '1+', '1-', 'abs', '-') for v in VAL]
    + ['(%s 5 0)' % p for p in ('quotient', 'remainder', 'modulo')])
IX = ['-1', '0', '2', '3', '4', '100', '123456789012']
add('out of range', ['(vector-ref v3 %s)' % i for i in IX] + ['(vector-set! (vector 1 2 3) %s 9)' % i for i in IX] + ['(string-ref s3 %s)' % i for i in IX] + ['(list-ref l3 %s)' % i for i in IX] + ['(list-tail l3 %s)' % i for i in IX]
    + ['(list-head l3 %s)' % i for i in IX] + ['(substring s3 %s %s)' % p for p in itertools.product(IX[:6], repeat=2)] + ['(substring s3 %s)' % i for i in IX] + ['(vector-ref (vector) %s)' % i for i in IX] + ['(string-ref "" %s)' % i for i in IX])
add('unbound variables', ['nosuch', '(nosuch)', '(nosuch 1)', '(f1 nosuch)', '(let ((x nosuch)) 1)', '(if nosuch 1 2)', '(if #t 1 nosuch)', '(if #f nosuch 2)', '(set! l nosuch)', '(procedure? (lambda () nosuch))', '((lambda () nosuch))', '(and #f nosuch)', '(or 1 nosuch)',
    '(let () (define (g) (h2)) (define (h) 1) (g))', '(begin nosuch 1)', '(cond (#f nosuch) (else 3))', '(cond (nosuch 1) (else 3))', '(case 1 ((2) nosuch) (else 4))', '(case nosuch ((2) 1) (else 4))', "(catch 'other (lambda () nosuch) (lambda x 'wrong))",
    '(vector nosuch)', '(apply nosuch l3)', '(map nosuch l3)', '(quote nosuch)', '`(a ,nosuch)', '`(a nosuch)', '(let loop ((i nosuch)) i)', '(do ((i 0 (+ i 1))) ((= i 2) nosuch))', '(do ((i 0 nosuch2)) (#t 1))', "(with-output-to-string (lambda () (display nosuch)))", '(let ((nosuch 1)) nosuch)', '((lambda (nosuch) nosuch) 2)', '(let* ((a nosuch) (nosuch 1)) a)', '(let ((x 1)) (nosuch x) x)'])
# 2. faults in every position
ERR = ['(car 5)', 'nosuch', "(5 1)", '(f1)', '(f1 1 2)', "(throw 'k 1 2)", "(throw 'k)", '(vector-ref v3 3)', "(+ 1 'a)", "(nosuch (t 9))", '(cdr (cdr (cdr (cdr l3))))', "(apply f2 '(1))", '(string-ref s3 3)', '(r2 1)', "('s)", "(list-ref l3 7)"]
CTX = ['{e}', '(list (t 1) {e} (t 2))', '(begin (t 1) {e} (t 2))', '(if {e} (t 1) (t 2))', '(if (t #t) {e} (t 2))', '(let ((x {e})) (t x))', '(let* ((x (t 1)) (y {e})) (t y))', '(letrec ((f (lambda () {e}))) (t (f)))', '(let () (define x {e}) (t x))', '(({e}) (t 1))', '({e} (t 1))',
       '(cond ({e} (t 1)) (else (t 2)))', '(cond (#f 1) (else {e} (t 2)))', '(case {e} ((1) (t 1)) (else (t 2)))', '(and (t 1) {e} (t 2))', '(or #f {e} (t 2))', '(when (t 1) {e} (t 2))', '(apply (lambda (x) (t x)) (list {e}))', '((lambda (x y) (t y)) (t 1) {e})', '((lambda () {e}))', '(t {e})', '(car {e})',
       '(map (lambda (x) (t x) (if (= x 2) {e} x)) l3)', '(for-each (lambda (x) (t x) (if (= x 2) {e} x)) l3)', '(fold (lambda (x r) (t x) (if (= x 2) {e} x)) 0 l3)', '(vector-for-each (lambda (i x) (t x) (if (= x 2) {e} x)) v3)', '(let loop ((i 0)) (t i) (if (< i 2) (loop (+ i 1)) {e}))', '(do ((i 0 (+ i 1))) ((= i 2) {e}) (t i))',
       "(catch 'other (lambda () (t 1) {e} (t 2)) (lambda x (t 'wrong)))", "(catch 'q (lambda () (throw 'q)) (lambda (k) (t 1) {e} (t 2)))", '(call/cc (lambda (k) (t 1) {e} (k 3)))', '(call-with-values (lambda () {e}) (lambda x (t x)))', '(values (t 1) {e})', '(mac {e})', '`(a ,{e} ,@(t l3))', '(let ((x 1)) (set! x {e}) (t x))',
       '(with-output-to-string (lambda () (display (t 1)) {e} (t 2)))', '(deep 50 (lambda () {e}))', '(string-append "a" {e})', '(vector (t 1) {e})', '(cons {e} (t 2))', '(apply t (list {e}))', '(eq? {e} (t 1))', '(+ (t 1) {e})', '(with-input-from-string "x" (lambda () {e}))', '(let-values* {e})'][:-1]
W = ["(begin (set! l '()) (let* ((r (catch #t (lambda () {b}) (lambda (k . a) 'caught))) (tr (reverse l))) (list r tr (after))))"]
WK = ["(begin (set! l '()) (let* ((r (catch 'k (lambda () (catch #t (lambda () {b} 'none) (lambda (k . a) (t 'in) (throw 'k 'again)))) (lambda (k . a) (list 'out k a)))) (tr (reverse l))) (list r tr (after))))",
      "(begin (set! l '()) (let* ((r (list (catch #t (lambda () (catch 'q (lambda () {b}) (lambda x (t 'q)))) (lambda (k . a) 'caught)) (catch #t (lambda () {b}) (lambda (k . a) 'caught2)))) (tr (reverse l))) (list r tr (after))))",
      "(begin (set! l '()) (let* ((r (catch #t (lambda () (for-each (lambda (i) (t i) (catch #t (lambda () {b}) (lambda (k . a) (t 'h)))) '(1 2 3)) 'end) (lambda (k . a) 'outer))) (tr (reverse l))) (list r tr (after))))"]
cases = []
for e in ERR:
    for a in CTX:
        for w in W + WK:
            cases.append(w.replace('{b}', a.replace('{e}', e)))
for e in ERR:
    for a, b in itertools.product(CTX[1:], CTX[1:]):
        cases.append(W[0].replace('{b}', a.replace('{e}', b.replace('{e}', e))))
if D:
    for e in ERR[:2] + ERR[5:6]:
        for a, b, d in itertools.product(CTX[1:], repeat=3):
            cases.append(W[0].replace('{b}', a.replace('{e}', b.replace('{e}', d.replace('{e}', e)))))
add('in every position', cases)
KEYS = ["'k", "'other", '#t']
cases = []
for depth in range(1, 4):
    for ks in itertools.product(KEYS, repeat=depth):
        for th in ("(throw 'k 1 \"s\")", "(throw 'other)", "(throw 'third 'x)", "'none"):
            for how in range(3):
                x = th
                for i, k in enumerate(ks):
                    x = ["(catch %s (lambda () (t %d) %s) (lambda (k . a) (t (list 'h%d k a)) 'r%d))", "(list (catch %s (lambda () (t %d) (list %s)) (lambda (k . a) (list 'h%d k a (t 'x%d)))))",
                         "(catch %s (lambda () (t %d) (car (list %s))) (lambda (k . a) (t 'h%d) (throw 'other k a %d)))"][how] % (k, i, x, i, i)
                cases.append("(begin (set! l '()) (let* ((r (catch #t (lambda () %s) (lambda (k . a) (list 'outer k a)))) (tr (reverse l))) (list r tr (after))))" % x)
add('keys and handlers', cases)
R = diff.explore(c, G)
# 3. uncaught: the program ends there
P_IN = ''.join('(mes-use-module (%s))' % m for m in ('mes scm', 'mes catch', 'mes guile', 'srfi srfi-1', 'srfi srfi-43')) + PRE
POS = ['{e}', '(list (display 1) {e} (display 2))', '(define x {e})', '(let ((x {e})) (display 2))', '(if {e} (display 2) (display 3))', '(for-each (lambda (x) (display x) (if (= x 2) {e})) l3)', "(catch 'other (lambda () {e}) (lambda x (display 'wrong)))",
       "(catch 'q (lambda () (throw 'q)) (lambda (k) {e}))", '(display (with-output-to-string (lambda () (display 7) {e})))', '(define (g) {e} (display 4)) (display 8) (g)', '(begin (display 6) {e} (display 5))', '(deep 20 (lambda () {e}))', '(call/cc (lambda (k) {e}))', '(map (lambda (x) {e}) l3)', '(vector-for-each (lambda (i x) {e}) v3)']
SAID = ['', '12'[:1], '', '', '', '12', '', '', '', '8', '6', '', '', '', '']
EU = ERR + ['(error "message" 1)', "(catch 'k (lambda () (throw 'k)) (lambda (k) (throw 'new)))"]
jobs, info = [], []
for i, (p, said) in enumerate(zip(POS, SAID)):
    for j, e in enumerate(EU):
        if not D and i > 4 and (i + j) % 3:
            continue
        text = '(display "start") (catch \'z (lambda () (throw \'z)) (lambda (k) (display "!"))) %s (display "later")' % p.replace('{e}', e)
        said = SAID[i]
        if p.startswith('(list (display 1)'):
            said = '1'
        jobs.append((['-s', '@/t.scm'], b'', {}, {'t.scm': P_IN + text}))
        info.append((p, e, b'start!' + said.encode()))
        if i < 2:
            jobs.append((['-c', P_IN + text], b'', {}, {}))
            info.append((p, e + ' with -c', b'start!' + said.encode()))
got = procs.run_all(c, R.t, jobs)
bad = 0
for (argv, inp, env, files), (p, e, want), (rc, out, err, left) in zip(jobs, info, got):
    c.add('evaluations', 1)
    if out != want or rc == 0 or rc == 'timeout' or not err:
        bad += 1
        if bad < 20:
            c.fail('uncaught %s in %s' % (e, p), 'exit %r (must not be 0)\n stdout %r, expected %r\n stderr %r (must not be empty)' % (rc, out[:300], want, err[:300]), {'t.scm': files.get('t.scm') or argv[1]})
c.log('uncaught                 %6d programs, %d different' % (len(jobs), bad))
c.finish()
