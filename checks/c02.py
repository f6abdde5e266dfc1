"""C02: every expression of a grammar of core forms up to a depth, evaluated repeatedly, against Guile."""
import sys, itertools, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mesmc import core, build, scheme, diff
from mesmc.diff import Group

c = core.Check('C02', 'exploration')
# a form is text with holes e f g, replaced from left to right
FORMS = '''(if {e} {f} {g})
(or {e} {f})
(or {e} {f} {g})
(and {e} {f})
(and {e} {f} {g})
(begin {e} {f})
(let ((x {e})) {f})
(let ((x {e}) (y {f})) (list* x y))
(let* ((y {e}) (x (list y x))) {f})
(let* ((x {e}) (y {f})) (cons x y))
(letrec ((h (lambda (x) (if (eq? x 1) {e} (h 1))))) (h {f}))
(cond ({e} {f}) (else {g}))
(cond ({e} {f}) ({g} 8))
(cond ({e} => list) (else {f}))
(cond ({e}) ({f}) (else {g}))
(case {e} ((1) {f}) ((5 6 7) {g}) (else 'other))
(case {e} ((#f 2) {f}) ((x y z) {g}) (else 'none))
(when {e} {f} {g})
(unless {e} {f} {g})
(do ((i 0 (+ i 1)) (x {e})) ((= i 2) {f}) {g})
(do ((i 0 (+ i 1)) (x {e} i)) ((= i 2) {f} x))
((lambda (x . r) (list* x r {e})) {f} 2)
((lambda r {e}) {f} 3)
((lambda (x y) (set! x {e}) (cons x y)) {f} 8)
(let loop ((i 0) (x {e})) (if (< i 2) (loop (+ i 1) {f}) x))
(let () (define z {e}) (define (g y) (cons y z)) (g {f}))
(let () (define y {e}) {f} y)
(quasiquote (a (unquote {e}) (unquote-splicing (list {f})) b))
(quasiquote (1 (unquote {e}) . (unquote {f})))
(list->vector (list {e}))
(let ((g (lambda () {e}))) (begin (g) (g)))
(begin (set! x {e}) {f})
(let ((y {e})) (set! y (list y)) {f} y)
(apply (lambda (a . b) (cons a b)) {e} (list {f}))
(not {e})
((if {e} (lambda (x) {f}) (lambda (x) {g})) 3)
(let ((g (lambda (x) (lambda () (set! x (cons x x)) x)))) (let* ((h (g {e})) (a (h)) (b (h)) (i (g 2))) (list a b (i) {f})))'''.replace('list*', 'cons').split('\n')
def fill(form, *doms):
    names = re.findall(r'\{(\w)\}', form)
    names = list(dict.fromkeys(names))
    for v in itertools.product(*[doms[0]] * len(names)):
        t = form
        for n, x in zip(names, v):
            t = t.replace('{' + n + '}', x, 1)
        yield t
def label(t):
    "gives every trace call its own number"
    n = itertools.count(1)
    return re.sub(r'@', lambda m: str(next(n)), t)
A = ["#f", "x", "(t '@)", "(begin (set! x (cons x 1)) #f)", "1", "(set! x 7)"]
B = ["#f", "x", "(t '@)"]
B2 = ["#f", "(begin (set! x 1) x)", "(t '@)"]
d1 = [label(t) for f in FORMS for t in fill(f, A)]
def nested():
    "one hole of the outer form holds an inner form; the other holes of both hold atoms"
    for f in FORMS:
        names = list(dict.fromkeys(re.findall(r'\{(\w)\}', f)))
        for n in names:
            for g in FORMS:
                inner = [g2 for g2 in fill(g, B2)]
                outer = list(fill(f.replace('{' + n + '}', '!!'), ["x", "(t '@)"] if not c.thorough else ["x", "(t '@)", "#f"]))
                for o in outer:
                    for i in inner:
                        yield label(o.replace('!!', i))
d2 = list(dict.fromkeys(nested()))
WRAP = "(let ((f (lambda (x) {b}))) (set! %%l '()) (let* ((a (f 5)) (b (f 1)) (c (f 5))) (list a b c (reverse %%l))))"
PRE = "(define %%l '()) (define (t v) (set! %%l (cons v %%l)) v)"
# the value of a set! is unspecified
G = [Group('forms', [WRAP], dict(b=d1), prelude=PRE),
     Group('nested forms', [WRAP], dict(b=d2), prelude=PRE, timeout=200)]
c.log('%d forms of depth 1, %d of depth 2' % (len(d1), len(d2)))

# evaluation at top level: sequences of definitions, assignments and calls
OPS = ["(define g 1)", "(define g (list g))", "(set! g (cons 3 g))", "(define (h) g)", "(set! h (lambda () (list g)))",
       "(set! r (cons (h) r))", "(let ((g 9)) (set! r (cons (list g (h)) r)))", "(begin (define (k) (set! g (cons 'k g)) g) (set! r (cons (k) r)))",
       "(define h (let ((n 0)) (lambda () (set! n (+ n 1)) n)))", "(set! r (let ((h (lambda () 'local))) (cons (h) r)))",
       "((lambda (g) (set! g 8) (set! r (cons g r))) 4)", "(set! r (cons (map (lambda (g) (list g (h))) '(1 2)) r))"]
n = 4 if c.thorough else 3
seqs = [' '.join(x) for k in range(1, n + 1) for x in itertools.product(OPS, repeat=k)]
G.append(Group('top level', ["(define g 0) (define (h) g) (define r '()) {s} |=> (list g (h) r)"], dict(s=seqs), timeout=200))

# parameter lists and calls
shapes = []
for fixed in range(5):
    for rest in (0, 1):
        ps = ['p%d' % i for i in range(fixed)]
        lst = ('r' if not fixed else '(%s . r)' % ' '.join(ps)) if rest else '(%s)' % ' '.join(ps)
        body = '(list %s %s)' % (' '.join(ps), 'r' if rest else "'no")
        for nargs in range(fixed, 7 if rest else fixed + 1):
            args = ' '.join("'a%d" % i for i in range(nargs))
            for k in range(0, min(nargs, 2) + 1):
                shapes.append('(apply (lambda %s %s) %s (list %s))' % (lst, body, ' '.join("'a%d" % i for i in range(k)), ' '.join("'a%d" % i for i in range(k, nargs))))
            shapes.append('((lambda %s %s) %s)' % (lst, body, args))
            d = '(%s)' % ('f' + ''.join(' ' + p for p in ps) + (' . r' if rest else ''))
            shapes.append('(let () (define %s %s) (f %s))' % (d, body, args))
            shapes.append('(let ((f #f)) (set! f (lambda %s (set! %s 0) %s)) (list (f %s) (f %s)))' % (lst, 'r' if rest else (ps[0] if ps else 'f'), body, args, args))
            shapes.append('(let* ((l (list %s)) (m (apply (lambda r (if (pair? r) (set-car! r 0)) r) l))) (list (length l) m))' % args)
G.append(Group('parameter lists', list(dict.fromkeys(shapes))))

# scope: binders of names that macros of the implementation might use, around every form
NAMES = ['r', 't', 'test', 'f', 'rest', 'loop', 'key', 'x', 'val', 'h', 'else1', 'tmp', 'result', 'body', 'args', 'a', 'd']
SC = '''(let (({n} 5)) (or #f {n}))
(let (({n} 5)) (or {n} 1))
(let (({n} #f)) (or #f {n} 'last))
(let (({n} 5)) (and 1 {n}))
(let (({n} 5)) (cond (#f 1) ({n} => list) (else 2)))
(let (({n} 5)) (cond ({n} {n}) (else 2)))
(let (({n} 5)) (cond (#f 1) (else {n})))
(let (({n} 5)) (cond ('yes => (lambda (y) (list y {n}))) (else 2)))
(let (({n} 5)) (cond (#f => list) ({n})))
(let (({n} 5)) (case {n} ((5) {n}) (else 2)))
(let (({n} 5)) (case (+ {n} 1) ((5) 'no) ((6 7) {n}) (else 2)))
(let (({n} 5)) (case 9 ((5) 'no) (else {n})))
(let (({n} 5)) (when {n} {n}))
(let (({n} #f)) (unless {n} (list {n})))
(let (({n} 5)) (do ((i 0 (+ i 1))) ((= i 2) {n}) {n}))
(do (({n} 0 (+ {n} 1)) (j 5 (- j {n}))) ((= {n} 3) (list {n} j)))
(let (({n} 5)) (let lp ((i 0)) (if (< i 2) (lp (+ i 1)) {n})))
(let {n} ((i 0)) (if (< i 2) ({n} (+ i 1)) i))
(let* (({n} 5) (z {n})) (list z {n}))
(letrec (({n} (lambda (i) (if (= i 0) 'done ({n} (- i 1)))))) ({n} 3))
(let (({n} 5)) (quasiquote (1 (unquote {n}) (unquote-splicing (list {n})))))
(let () (define {n} 4) (define (z) {n}) (set! {n} 5) (z))
(let () (define ({n} y) (if (= y 0) 'end ({n} (- y 1)))) ({n} 2))
((lambda {n} {n}) 1 2)
((lambda ({n} . y) (list y {n})) 1 2)
(map (lambda ({n}) (list {n})) '(1 2))
(let (({n} 1)) (let (({n} (+ {n} 1))) (let (({n} (+ {n} 1))) {n})))
(let (({n} 1)) (list (let (({n} 2)) (set! {n} 3) {n}) {n}))
(let (({n} 1)) (define (g) {n}) (let (({n} 2)) (list (g) {n})))
(let* ((l '()) ({n} (lambda (y) (set! l (cons y l))))) (for-each {n} '(1 2)) l)'''
G.append(Group('scope', SC, dict(n=NAMES), guile_prelude=''))

# shadowing: every way to bind a name inside every way to bind it, three deep; the name read, assigned and captured at each level
BIND = """((lambda (x) {b}) {v})
((lambda (x y) {b}) {v} 'y)
((lambda (y x) {b}) 'y {v})
((lambda (y z x) {b}) 'y 'z {v})
((lambda x {b}) {v} 'x2)
((lambda (y . x) {b}) 'y {v} 'x2)
((lambda (y z . x) {b}) 'y 'z {v})
((lambda (x . y) {b}) {v} 'y)
(apply (lambda (y . x) {b}) 'y (list {v} 'x3))
(let ((x {v})) {b})
(let ((y 'y) (x {v})) {b})
(let* ((x 'x4) (x {v})) {b})
(letrec ((x (list 'rec {v}))) {b})
(let x ((y {v})) (if (pair? y) {b} (x (list y))))
(let lp ((i 0) (x {v})) (if (= i 1) {b} (lp (+ i 1) x)))
(let () (define x (list 'def)) {b})
(let () (define (f x) {b}) (f {v}))
(let () (define (f y . x) {b}) (f 'y {v} 'x6))
(do ((x 0 (+ x 1)) (r '() (cons {b} r))) ((= x 2) r))
(map (lambda (x) {b}) (list {v} 'x5))
(let ((f (lambda (g) {b}))) (f x))
(let ((f (lambda () {b}))) (let ((x 'dynamic)) (f)))""".split('\n')
INNER = ["(list x)", "(begin (set! x (list 'set x)) (list x))", "(begin (k) (list x))"]
def shadow(bs, body):
    t = body
    for i, x in enumerate(reversed(bs)):
        v = "'v%d" % (len(bs) - i)
        u = "(let ((k (lambda () (set! x (list 'k (if (procedure? x) 'proc x))))) (w (lambda () (if (procedure? x) 'proc x)))) (let* ((r1 %s) (r2 (if (procedure? x) 'proc x))) (list r1 r2 (w))))" % t
        t = x.replace('{b}', u).replace('{v}', v)
    return t
INNER = [b.replace('(list x)', "(list (if (procedure? x) 'proc x))").replace("'set x", "'set (if (procedure? x) 'proc x)") for b in INNER]
SH = [shadow(bs, b) for n in (1, 2) for bs in itertools.product(BIND, repeat=n) for b in INNER if not any('do ((x' in q or 'let x' in q for q in bs) or b == INNER[0]]
if c.thorough: SH += [shadow(bs, INNER[1]) for bs in itertools.product([q for q in BIND if 'do ((x' not in q and 'let x' not in q], repeat=3)]
G.append(Group('shadowing', ["(let ((x 'x0) (k (lambda () 'k0))) (let ((r {s})) (list r x)))"], dict(s=SH)))
# the same with the outermost variables at top level
G.append(Group('shadowing of top level', ["(define x 'x0) (define (k) 'k0) (define rr #f) (set! rr {s}) |=> (list rr x)",
  "(define x 'x0) (define (k) 'k0) (define (ff) {s}) (define rr (ff)) (set! x 'x7) |=> (list rr (ff) x)"], dict(s=SH)))

# literals, and quoted data that code must not share with its results
LIT = ['1', '-3', '"str"', '#\\a', '#t', '#f', "'sym", "'()", "'(1 2)", "'(1 . 2)", "'(a (b #(c)) . d)", "'#(1 2)", '#:kw', "'quote", "''a", "'(quote a)", "'(if 1 2)"]
LT = '''{v}
(let ((x {v})) x)
(list {v} {v})
((lambda () {v}))
(if #t {v} 0)
(let ((f (lambda () {v}))) (eq? (f) (f)))
(let ((f (lambda () (list 1 {v})))) (f) (f))
(quasiquote (a (unquote {v}) b))
(quasiquote ((unquote-splicing (list {v} {v})) . end))
(let ((f (lambda (y) (quasiquote (1 (unquote y) 2))))) (list (f {v}) (f 2)))
(begin 1 {v})
(and 1 {v})
(or {v} 2)
(cond (else {v}))
(let loop ((i 0)) (if (= i 3) {v} (loop (+ i 1))))'''
G.append(Group('literals', LT.replace("(let ((f (lambda () {v}))) (eq? (f) (f)))\n", ''), dict(v=LIT)))
SPEC = '''(let ((v '(1 2 3))) (quasiquote ((unquote-splicing v))))
(let ((v '(1 2 3))) (quasiquote ((unquote-splicing v) (unquote-splicing v) 4)))
(let ((v '(1 2 3))) (quasiquote (0 (unquote-splicing v) . 4)))
(let ((v '(1 2 3))) (quasiquote (0 . (unquote v))))
(let ((v '(1 2 3))) (quasiquote #(0 (unquote-splicing v) (unquote (car v)))))
(let ((v '())) (quasiquote (1 (unquote-splicing v) 2)))
(let ((v 5)) (quasiquote (((unquote v)) ((2 (unquote v)) . 3) "s" #\\c)))
(let ((v 5)) (quasiquote (unquote v)))
(quasiquote a)
(quasiquote ())
(quasiquote (1 "two" #\\3 four))
(let () (define a 1) (define b (lambda () a)) (set! a 2) (b))
(let () (define (ev? n) (if (= n 0) #t (od? (- n 1)))) (define (od? n) (if (= n 0) #f (ev? (- n 1)))) (list (ev? 10) (od? 7)))
(let ((x 1)) (set! x (+ x 1)) (let ((x x)) (set! x (+ x 1)) x))
(let ((x 1)) (define y x) (set! x 2) (list x y))
(letrec ((f (lambda () g)) (g 3)) (f))
(map (lambda (p) (p)) (let loop ((i 0) (acc '())) (if (= i 5) acc (loop (+ i 1) (cons (lambda () i) acc)))))
(do ((v (make-vector 5)) (i 0 (+ i 1))) ((= i 5) v) (vector-set! v i i))
(let ((c (let ((n 0)) (cons (lambda () (set! n (+ n 1)) n) (lambda () n))))) ((car c)) ((car c)) ((cdr c)))
(let ((mk (lambda (n) (cons (lambda (d) (set! n (+ n d)) n) (lambda () n))))) (let ((a (mk 1)) (b (mk 10))) ((car a) 5) ((car b) 7) (list ((cdr a)) ((cdr b)))))
((lambda (a b #!optional) a) 1 2)
(let ((f car)) (set! f cdr) (f '(1 2)))
(((lambda (x) (lambda (y) (list x y))) 1) 2)
((lambda () 1 2 3))
(let ((x 'outer)) ((lambda (f) (let ((x 'inner)) (f))) (lambda () x)))
(let ((x 'outer)) (define (f) x) (let ((x 'inner)) (set! x 'i2) (f)))
(let ((a 1)) (begin (set! a 2) (set! a (+ a 1))) a)
(let ((x 1)) (and (begin (set! x 2) #f) (set! x 3)) x)
(let ((x 1)) (or (begin (set! x 2) #t) (set! x 3)) x)
(let ((x 5)) (if (begin (set! x (+ x 1)) (= x 6)) (list 'y x) (list 'n x)))
(case (* 2 3) ((2 3 5 7) 'prime) ((1 4 6 8 9) 'composite))
(case (car '(c d)) ((a e i o u) 'vowel) ((w y) 'semivowel) (else 'consonant))
(case "a" (("a") 1) (else 2))
(case #\\a ((#\\a) 1) (else 2))
(let ((n 0)) (case (begin (set! n (+ n 1)) n) ((0) 'a) ((2 3) 'b) ((1) 'c)) n)
(let ((path '())) (let ((add (lambda (s) (set! path (cons s path)) s))) (cond ((begin (add 1) #f) (add 2)) ((add 3) (add 4)) ((add 5) (add 6)))) path)
(let-syntax () 5)'''
G.append(Group('further programs', SPEC.replace("(let-syntax () 5)", "5").replace("((lambda (a b #!optional) a) 1 2)\n", '').replace('(case "a" (("a") 1) (else 2))\n', '')))
# tail calls in constant space: a small stack and many iterations, every tail position
N = '60000' if not c.thorough else '400000'
TAIL = '''(let loop ((n {n})) (if (= n 0) 'done (loop (- n 1))))
(let loop ((n {n})) (if (not (= n 0)) (loop (- n 1)) 'done))
(let loop ((n {n})) (cond ((= n 0) 'done) (else (loop (- n 1)))))
(let loop ((n {n})) (cond ((= n 0) 'done) ((> n 0) (loop (- n 1))) (else 0)))
(let loop ((n {n})) (cond ((= n 0) 'done) ((- n 1) => loop)))
(let loop ((n {n})) (case n ((0) 'done) (else (loop (- n 1)))))
(let loop ((n {n})) (and #t (if (= n 0) 'done (loop (- n 1)))))
(let loop ((n {n})) (or (and (= n 0) 'done) (loop (- n 1))))
(let loop ((n {n})) (when #t (if (= n 0) 'done (loop (- n 1)))))
(let loop ((n {n})) (unless #f (if (= n 0) 'done (loop (- n 1)))))
(let loop ((n {n})) (let ((m (- n 1))) (if (< m 0) 'done (loop m))))
(let loop ((n {n})) (let* ((m (- n 1)) (k m)) (if (< m 0) 'done (loop k))))
(let loop ((n {n})) (letrec ((m (lambda () (- n 1)))) (if (= n 0) 'done (loop (m)))))
(let loop ((n {n})) (begin 1 2 (if (= n 0) 'done (loop (- n 1)))))
(let loop ((n {n})) (define m (- n 1)) (if (= n 0) 'done (loop m)))
(let loop ((n {n})) (if (= n 0) 'done (apply loop (list (- n 1)))))
(let loop ((n {n})) ((lambda () (if (= n 0) 'done (loop (- n 1))))))
(letrec ((ev? (lambda (n) (if (= n 0) #t (od? (- n 1))))) (od? (lambda (n) (if (= n 0) #f (ev? (- n 1)))))) (ev? {n}))
(let () (define (f n k) (if (= n 0) (k 'done) (g (- n 1) k))) (define (g n k) (if (= n 0) (k 'done) (f (- n 1) k))) (f {n} list))
(do ((i 0 (+ i 1))) ((= i {n}) 'done) i)
(let loop ((n {n}) (acc '())) (if (= n 0) (length acc) (loop (- n 1) (if (< n 9) (cons n acc) acc))))
(let loop ((n {n})) (if (= n 0) 'done ((if (even? n) loop loop) (- n 1))))
(call-with-values (lambda () (let loop ((n {n})) (if (= n 0) (values 1 2) (loop (- n 1))))) list)
(let loop ((n {n})) (call-with-values (lambda () (values n 1)) (lambda (a b) (if (= a 0) 'done (loop (- a b))))))'''
tail = TAIL.split('\n')
G.append(Group('tail calls', tail, dict(n=[N]), env=dict(MES_STACK='40000', MES_ARENA='2000000', MES_MAX_ARENA='2000000'), timeout=250))
diff.explore(c, G)
c.finish()
