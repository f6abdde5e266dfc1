"""C09: macros and pattern matching: every pattern of a grammar against every datum of a small domain,
and every call shape of the argument-passing forms, against Guile."""
import sys, itertools, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mesmc import core, build, scheme, diff
from mesmc.diff import Group

c = core.Check('C09', 'exploration')
T = c.thorough
def mods(*m):
    return ' '.join('(mes-use-module (%s))' % x for x in m)
G = []
# ---- define-syntax / syntax-rules: all patterns against all argument lists
ATOM = ['a', 'lit', '1', '"s"', '#t', '()']
ARGS = ['()', '(1)', '(lit)', '("s")', '(#t)', '(())', '(1 2)', '(1 lit)', '(lit 1)', '(lit lit)', '(1 2 3)', '((1))', '((1) (2))', '((1 2) (3 4))', '((1 2 3) (4) (5 6))',
        '(() (1))', '(() ())', '((lit 1) 2)', '(1 (lit 2))', '((1 . 2) 3)', '((lit) (lit))', '(x y)', '(x (y z) w)', '((a b) c)', '(1 1 1 1 1)', '(#\\a)', '(((1 2) (3)) ((4)))', '(((1) 2) ((3) 4))',
        '(lit (1 2) 3)', '(#(1 2))', '(#(1 2) 3)', '(#())', '(#((1 2) (3 4)))', '(#(1) #(2 3))', '(#(lit 1 2))', "((1 lit 2) (3 lit 4))"]
PATS = {'(_)': [], '(_ . r)': ['r'], '(_ a ...)': ['a ...'], '(_ a b ...)': ['a', 'b ...'], '(_ (a b) ...)': ['a ...', 'b ...'], '(_ (a b ...) ...)': ['a ...', '(b ...) ...'],
        '(_ (a ...) ...)': ['(a ...) ...'], '(_ (a ...) b ...)': ['a ...', 'b ...'], '(_ (a ...) (b ...))': ['a ...', 'b ...'], '(_ lit a ...)': ['a ...'],
        '(_ a lit b)': ['a', 'b'], '(_ (a lit b) ...)': ['a ...', 'b ...'], '(_ (lit a) b)': ['a', 'b'], '(_ (a . b) d)': ['a', 'b', 'd'], '(_ (a . b) ...)': ['a ...', 'b ...'],
        '(_ ((a ...) b) ...)': ['(a ...) ...', 'b ...'], '(_ ((a b ...) ...) ...)': ['(a ...) ...', '((b ...) ...) ...'], '(_ a b . r)': ['a', 'b', 'r'], '(_ (a (b ...)) ...)': ['a ...', '(b ...) ...'],
        '(_ lit ...)': [], '(_ (lit ...) a)': ['a'], '(_ 1 a ...)': ['a ...'], '(_ "s" . r)': ['r'], '(_ (1 a) ...)': ['a ...'], '(_ () a)': ['a'], '(_ (() a) ...)': ['a ...'], '(_ #\\a a ...)': ['a ...'],
        '(_ (a b ...) . r)': ['a', 'b ...', 'r'], '(_ #(a b))': ['a', 'b'], '(_ #(a ...) b)': ['#(a ...)', 'b'], '(_ #((a b) ...))': ['#(a ...)', 'b ...'], '(_ #(a ...) ...)': ['#(a ...) ...'], '(_ #())': [], '(_ #(lit 1 a))': ['a']}
for x, y in itertools.product(ATOM, ATOM):
    x2, y2 = ('a', 'b') if x == y == 'a' else (x, y)
    PATS.setdefault('(_ %s %s)' % (x2, y2), [v for v in (x2, y2) if v in 'ab' and v])
    PATS.setdefault('(_ (%s %s))' % (x2, y2), [v for v in (x2, y2) if v in 'ab' and v])
for x in ATOM:
    PATS.setdefault('(_ %s)' % x, [v for v in (x,) if v in 'ab' and v])
    PATS.setdefault('(_ (%s))' % x, [v for v in (x,) if v in 'ab' and v])
rules = ["(%s '(yes %s))" % (p, ' '.join('(%s)' % v for v in vs)) for p, vs in PATS.items()]
SR = dict(mes_prelude=mods('mes scm', 'mes syntax'), guile_prelude='(define-macro (syntax-error . x) 1)')
FALL = "(_ 'no) ((_ . r) 'none)"
G.append(Group('syntax-rules: one rule', ["{m}"], dict(m=["(define-syntax m (syntax-rules (lit) %s ((_ . r) 'none)))|=>(list %s)" % (
    r.replace('(_', '(m', 1) if False else r, ' '.join('(m . %s)' % a if a != '()' else '(m)' for a in ARGS)) for r in rules]), **SR))
two = ["(define-syntax m (syntax-rules (lit) %s %s ((_ . r) 'none)))|=>(list %s)" % (r, s, ' '.join('(m . %s)' % a if a != '()' else '(m)' for a in ARGS))
       for r, s in itertools.product(rules[:len(rules) if T else 40], rules[::1 if T else 3]) if r != s]
G.append(Group('syntax-rules: first of two', ["{m}"], dict(m=two), **SR))
# templates
TEMPL = ["(list a ...)", "(list (list a b ...) ...)", "(list b ... ... )", "'((a b ...) ...)", "'((b ...) ... a ...)", "'(a ... end)", "'(start a ... (b ... mid) ... . tail)", "(+ b ... ...)",
         "(let ((x (list a ...)) (y (list (list b ...) ...))) (list x y))", "'((a (b) ...) ...)", "'((a . (b ...)) ...)", "(list (quote a) ... 'k)", "'(#t 1 \"s\" a ... #\\c)", "(list (let ((t a)) t) ...)", "(let* ((t1 a) ...) (list 'n))",
         "'((a b ... z) ...)", "'(a ... a ...)", "'(((a a) ...) ((b ...) (b ...)) ...)", "'((a 'q b ...) ...)", "`(a ... ,(+ 1 1))", "((lambda (u) (list u a ...)) 0)", "(vector a ...)", "(if #t (list b ...) #f)"]
G.append(Group('syntax-rules: templates', ["{m}"], dict(m=["(define-syntax m (syntax-rules () ((_ (a b ...) ...) %s)))|=>(list %s)" % (t, x) for t in TEMPL if '... ...' not in t and t != "(if #t (list b ...) #f)"
    for x in ("(m)", "(m (1))", "(m (1 2))", "(m (1) (2))", "(m (1 2 3) (4 5))", "(m (1) (2 3) (4 5 6))")]), **SR))
MAC = '''(define-syntax swap! (syntax-rules () ((_ a b) (let ((tmp-swap a)) (set! a b) (set! b tmp-swap)))))
(define-syntax my-or (syntax-rules () ((_) #f) ((_ e) e) ((_ e r ...) (let ((t-or e)) (if t-or t-or (my-or r ...))))))
(define-syntax my-and (syntax-rules () ((_) #t) ((_ e) e) ((_ e r ...) (if e (my-and r ...) #f))))
(define-syntax my-let (syntax-rules () ((_ ((n v) ...) body ...) ((lambda (n ...) body ...) v ...)) ((_ tag ((n v) ...) body ...) ((letrec ((tag (lambda (n ...) body ...))) tag) v ...))))
(define-syntax my-let* (syntax-rules () ((_ () body ...) (let () body ...)) ((_ ((n v) rest ...) body ...) (let ((n v)) (my-let* (rest ...) body ...)))))
(define-syntax my-cond (syntax-rules (else =>) ((_ (else e ...)) (begin e ...)) ((_ (t => f) c ...) (let ((v-cond t)) (if v-cond (f v-cond) (my-cond c ...)))) ((_ (t e ...) c ...) (if t (begin e ...) (my-cond c ...))) ((_) #f)))
(define-syntax while2 (syntax-rules () ((_ t b ...) (let lp-while () (if t (begin b ... (lp-while)) #f)))))
(define-syntax for (syntax-rules (in from to) ((_ x in l b ...) (for-each (lambda (x) b ...) l)) ((_ x from a to z b ...) (do ((x a (+ x 1))) ((> x z) 'ok) b ...))))
(define-syntax my-list-of (syntax-rules () ((_ e for x in l) (map (lambda (x) e) l))))
(define-syntax def2 (syntax-rules () ((_ a b v) (begin (define a v) (define b v)))))
(define-macro (dm-unless t . b) `(if ,t #f (begin ,@b)))
(define-macro (dm-inc! v . d) `(begin (set! ,v (+ ,v ,(if (pair? d) (car d) 1))) ,v))
(define-macro (dm-list . l) (cons 'list (reverse l)))
(define-macro (dm-q x) `(quote ,x))
(define-macro (dm-let1 n v . b) `((lambda (,n) ,@b) ,v))
(define-macro dm-alt (lambda (a . r) `(list ',a ,@r)))
(define-macro (dm-def n v) `(define ,n ,v))
(define-macro (dm-nest x) `(dm-inc! ,x (dm-one)))
(define-macro (dm-one) 1)
(define-macro (dm-mac n k) `(define-macro (,n) ,k))'''.replace('\n', ' ')
USES = ['(my-or)', '(my-or {a})', '(my-or #f {a})', '(my-or {a} (set! n (+ n 1)))', '(my-or #f #f (begin (set! n (+ n 1)) {a}))', '(my-and)', '(my-and {a} {b})', '(my-and {a} (set! n 5) {b})',
        '(my-let ((p {a}) (q {b})) (list p q n))', '(my-let lp ((i 0) (acc (list {a}))) (if (= i 3) acc (lp (+ i 1) (cons {b} acc))))', '(my-let* ((p {a}) (q (list p {b})) (p q)) (list p q))',
        "(my-cond ({a} 'one) ({b} 'two) (else 'three))", "(my-cond (#f 1) ({a} => list) (else {b}))", '(let ((i 0)) (while2 (< i 3) (set! n (list n {a})) (set! i (+ i 1))) n)', '(for x in (list {a} {b}) (set! n (list x n)))',
        '(for i from 1 to 3 (set! n (list i {b} n)))', '(my-list-of (list x {a}) for x in (list 1 {b}))', '(let ((p {a}) (q {b})) (swap! p q) (list p q))', '(let ((l (list {a} {b}))) (let ((p (car l)) (q (cadr l))) (swap! p q) (swap! q p) (list p q)))',
        '(let () (def2 p q {a}) (list p q {b}))', '(dm-unless {a} (set! n 7) {b})', '(begin (set! n 5) (list (dm-inc! n) (dm-inc! n 10) n))', '(dm-list {a} {b} n)', '(list (dm-q a) (dm-q (b {a})) (dm-q ()))', '(dm-let1 v {a} (list v {b}))',
        '(dm-alt x {a} {b})', '(let () (dm-def v {a}) (list v v {b}))', '(begin (set! n 1) (list (dm-nest n) (dm-nest n)))', '(map (lambda (x) (my-or #f (my-and x {a}))) (list 1 #f {b}))', '(my-or (my-and #f 1) (my-and {a} (my-or #f {b})))',
        '(my-let ((f (lambda (x) (my-or x {a})))) (list (f #f) (f 1) (f {b})))', '(let loop ((i 0) (r (list))) (if (= i 3) r (loop (+ i 1) (cons (my-let ((z i)) (my-cond ((= z 1) {a}) (else {b}))) r))))']
PP = dict(mes_prelude=mods('mes scm', 'mes syntax') + MAC, guile_prelude=MAC)
G.append(Group('uses of macros', ['(let ((n 0)) (let ((r %s)) (list r n)))' % u for u in USES] +
               ['(let ((f (lambda (n) (let ((r %s)) (list r n))))) (list (f 0) (f 1) (f 0)))' % u for u in USES] +
               ["(define (fn n) (let ((r %s)) (list r n)))|=>(list (fn 0) (fn 1) (fn (car (fn 2))))" % u for u in USES], dict(a=['1', "'x", '#f', '(begin (set! n (list n)) 3)'], b=['2', '#f', '(list n)']), **PP))
G.append(Group('macros that define', '''(dm-mac m1 5)|=>(list (m1) (m1))
(define-macro (m x) `(list ,x))|=>(list (m 1) (m 2))
(define-macro (m x) `(list ,x)) (define (f y) (m y))|=>(list (f 1) (f 2) (m 3))
(define-macro (m x) `(list ,x)) (define (f y) (m y)) (define a (f 1)) (define-macro (m x) `(vector ,x)) (define (g y) (m y))|=>(list a (g 2) (m 3))
(define-syntax mk (syntax-rules () ((_ n v) (define-syntax n (syntax-rules () ((_) v)))))) (mk five 5)|=>(list (five) (five))
(define-macro (mk n) `(define-macro (,n x) (list 'list x x))) (mk dup)|=>(list (dup 1) (dup (+ 1 1)))
(define-macro (m . x) (list 'quote x))|=>(list (m) (m 1) (m 1 (2 . 3)) (m a . (b)))
(define-macro (m a b) `(,a ,b))|=>(list (m - 5) (m car '(1 2)) (m (lambda (x) (list x x)) 3))
(define-macro (m x) (if (pair? x) `(+ ,(length x) 0) 0))|=>(list (m (1 2 3)) (m ()) (m y))
(define cnt 0) (define-macro (m) (set! cnt (+ cnt 1)) 1) (define (f) (m))|=>(list (f) (f) (m))
(define-macro (m x) `(let ((y 1)) (list y ,x)))|=>(list (m 2) (let ((z 3)) (m z)))
(define-macro (my-if c a b) `(cond (,c ,a) (else ,b))) (define (fact n) (my-if (= n 0) 1 (* n (fact (- n 1)))))|=>(map fact '(0 1 2 5))
(define-macro (m f . args) `(,f ,@(map (lambda (a) `(quote ,a)) args)))|=>(list (m list a b) (m cons a (b)))
(define-syntax m (syntax-rules () ((_ (a b) ...) (list (cons a b) ...))))|=>(list (m) (m (1 2)) (m (1 2) (3 (+ 2 2))))
(define-syntax m (syntax-rules (x) ((_ x) 'lit) ((_ y) (list 'other y))))|=>(list (m x) (m 5) (let ((z 1)) (m z)))
(define-syntax-rule (m a b) (list b a))|=>(list (m 1 2) (m (+ 1 1) 'x))
(define-syntax-rule (m a . r) '(a r))|=>(list (m 1 2) (m 1))
(define-syntax-rule (m) 'none)|=>(list (m) (m))
(let-syntax ((foo (syntax-rules () ((_ a) (list a a))))) (list (foo 1) (foo (+ 1 2))))
(let-syntax ((foo (syntax-rules () ((_ a) (list a a)))) (bar (syntax-rules () ((_ a ...) (+ a ...))))) (list (foo (bar 1 2)) (bar) (bar 3 4 5)))
(let-syntax ((foo (syntax-rules (k) ((_ k a) 'kw) ((_ a b) (cons a b))))) (let ((f (lambda (x) (foo x 2)))) (list (f 1) (foo k 2) (f 3))))
(let ((x 'outer)) (let-syntax ((foo (syntax-rules () ((_ b) (list x b))))) (foo 1)))
(define (f x) (let-syntax ((foo (syntax-rules () ((_ b) (list x b))))) (foo (* x 2))))|=>(list (f 1) (f 2))''', **PP))
# ---- match
PM = ['1', "'s", '"str"', '#t', '#f', '#\\a', '()', '_', 'x', '(? number?)', '(? symbol? x)', '(and x (? pair?))', '(or 1 2)', "(not 1)", "(quote (1 2))", '(x)', '(x y)', '(x . y)', '(1 x)', '(x 1)', "('s x)", '(x ...)', '(1 x ...)', '(x y ...)', '(x ..1)',
      '((x y) ...)', '((x . y) ...)', '(x (y z))', '((x) y)', '((? number? x) ...)', '(or (1 x) (2 x))', '(and (x y) (_ 2))', '(not (1 . _))', '(x x)', '`(1 ,x)', '`(,x . ,y)', '`(a ,x b)', "`(1 2)", '`x', '(= car x)', '(x ... 1)', '(x ... y)', '((x ...) ...)', '(_ _ . x)', '((1 x) ...)', '((and x (? symbol?)) ...)', '((or 1 (? symbol?)) x ...)', '#(x y)', '#(1 x ...)', "(x 's y ...)", "(('s x) . y)", '(1 2 3)', '(x _ y)', '((x . y) . z)', '(and)', '(or)', '(and x y)', '(? pair? (x . y))', '(? (lambda (v) (equal? v 2)))', '(x ... y z)', '((x y ...) ...)', '((x ...) y ...)', '#((x y) ...)', '#(x y ...)', '(#(x y) ...)', '(and (x ... y) z)', '((or (x) (_ x)) ...)']
DATA = ['1', '2', "'s", "'t", '"str"', '"st"', '#t', '#f', '#\\a', '()', '(1)', '(1 2)', '(2 1)', '(1 2 3)', '(1 . 2)', '(s 1)', '(s s)', '(1 1)', '((1 2))', '((1 2) (3 4))', '((1 . 2) (3 . 4))', '((1) 2)', '(1 (2 3))', '((s 2) 3)', '(a 1 b)', '#(1 2)', '#(1)', '(() ())', '((1) (2 3) ())', '(1 s 2 3)', '(s t u)', '((1 a) (1 b))', '(1 2 . 3)', '((1 2) . 3)', '(s)', '(a b c 1)', '#((1 2) (3 4))', '#((1 2) 3)', '#()', '(#(1 2) #(3 4))', '((1 2 3) (4) (5 6))', '((1 2) 3 4)']
import re
def mvars(p):
    return [v for v in 'xyz' if re.search(r'(?<![a-z\-\'])%s(?![a-z0-9?\-])' % v, p.replace('(? symbol?', '(').replace('lambda (v)', ''))] if not p.startswith('(not') and p not in ('`x',) else []
def q(d):
    return d if d[0] in "'\"#" and not d.startswith('#(') or d.isdigit() else "'" + d
datal = '(list %s)' % ' '.join(q(d) for d in DATA)
MK = dict(mes_prelude=mods('mes match', 'srfi srfi-1'), guile_prelude='(use-modules (ice-9 match))')
PMs = [p for p in PM if p not in SKIPM] if 'SKIPM' in globals() else PM
G.append(Group('match: one pattern', ["(define (f d) (match d {p} (_ 'none)))|=>(map f %s)" % datal], dict(p=["(%s (list 'yes %s))" % (p, ' '.join(mvars(p))) for p in PMs]), **MK))
G.append(Group('match: first of two', ["(define (f d) (match d {p} {q} (_ 'none)))|=>(map f %s)" % datal], dict(p=["(%s (list 'p %s))" % (p, ' '.join(mvars(p))) for p in PMs], q=["(%s (list 'q %s))" % (p, ' '.join(mvars(p))) for p in PMs[::1 if T else 5]]), **MK))
G.append(Group('match: forms', '''(match {d} ((x y) (let ((z x)) (list z y))) ((x . y) (list 'dot x y)) (x (list 'any x)))
(match {d} ((x y) (=> next) (if (eqv? x y) 'same (next))) ((x . _) (list 'first x)) (_ 'other))
(let ((f (match-lambda ((a b) (list 'two a b)) ((a) (list 'one a)) (_ 'other)))) (list (f {d}) (f (list {d})) (f (list 1 {d}))))
(match-let* (((a . b) (cons {d} 1)) (c (list a b))) c)
(let loop ((l (list {d} 2 {d})) (n 0)) (match l (() n) ((h . t) (loop t (+ n 1)))))
(match (list {d} {d}) ((a b) (if (equal? a b) (list 'eq a) 'ne)))
(let ((x 'outer)) (list (match {d} (x x)) x))
(match {d} ((or (a 1) (1 a)) (list 'or a)) (_ 'none))
(let ((k 1)) (match {d} ((? (lambda (v) (eqv? v k))) 'k) ((a ...) (cons k a)) (_ 'none)))
(let ((v 5) (loop 6) (ls 7) (n 8) (w 9) (len 1)) (match {d} ((x ... y) (list v loop ls n w len x y)) ((x . y) (list v loop ls n w len x y)) (_ (list v loop ls n w len))))
(let loop ((l {d}) (r '())) (match l ((x ... y) (loop x (cons y r))) (_ r)))
(define (tree d) (match d (() 0) ((a . b) (+ (tree a) (tree b))) (_ 1)))|=>(tree {d})''', dict(d=[q(d) for d in DATA if '#(' not in d]), **MK))
# ---- pmatch
PP1 = ['1', 's', '"str"', '()', '(1)', '(1 2)', '(1 . ,x)', '(,x . ,y)', '(,x)', '(,x ,y)', '(s ,x)', ',x', '((,x ,y) . ,z)', '(,x (,y . ,z))', '(a ,x b)', '(1 ,_ 3)', '(,_ . ,x)', '((1) ,x)', '#t', '(,x s . ,y)', '((,x . ,y) (,z . ,_))', '(s . ,x)']
GU = ['', '(guard (pair? x))', '(guard #t)', '(guard (number? x) (< x 2))']
def pv(p):
    return [v for v in 'xyz' if ',' + v in p]
cl = ["(%s %s (list 'yes %s))" % (p, g, ' '.join(pv(p))) for p in PP1 for g in GU if not ('x' in g and ',x' not in p)]
datap = '(list %s)' % ' '.join(q(d) for d in DATA if '#(' not in d)
PK = dict(mes_prelude=mods('mes pmatch', 'srfi srfi-1'), guile_prelude='(use-modules (system base pmatch))')
G.append(Group('pmatch: one pattern', ["(define (f d) (pmatch d {p} (else 'none)))|=>(map f %s)" % datap], dict(p=cl), **PK))
G.append(Group('pmatch: first of two', ["(define (f d) (pmatch d {p} {q} (else (list 'none d))))|=>(map f %s)" % datap], dict(p=cl, q=[x.replace('yes', 'no') for x in (cl if T else cl[::4])]), **PK))
G.append(Group('pmatch: forms', '''(pmatch (begin (set! n (+ n 1)) {d}) ((,a . ,b) (list a b n)) (,a (list 'any a n)))
(let ((x 'outer)) (list (pmatch {d} ((,x . ,y) (list x y)) (else x)) x))
(pmatch {d} ((1 . ,t) (guard (pair? t)) (set! n 5) (list 'p t n)) ((1 . ,t) (list 'np t)) (else n))
(let loop ((l (list {d} {d}))) (pmatch l (() '(end)) ((,h . ,t) (cons h (loop t)))))
(define (walk d) (pmatch d ((s ,x) (list 'S (walk x))) ((,a . ,b) (cons (walk a) (walk b))) (,x (guard (number? x)) (+ x 1)) (,x x)))|=>(walk {d})''', dict(d=[q(d) for d in DATA if '#(' not in d]), prelude='(define n 0)', norm=diff.norm, mes_prelude=PK['mes_prelude'], guile_prelude=PK['guile_prelude']))
# ---- argument passing
CL = ["(() 'zero)", "((a) (list 'one a))", "((a b) (list 'two a b))", "((a b c) (list 'three a b c))", "((a . r) (list 'rest1 a r))", "((a b . r) (list 'rest2 a b r))", "(r (list 'rest r))"]
calls = ['(f)', '(f 1)', '(f 1 2)', '(f 1 2 3)', '(f 1 2 3 4)', "(apply f '(1 2))", "(apply f 1 '(2 3))"]
def tries(cs):
    return '(list %s)' % ' '.join("(catch #t (lambda () %s) (lambda x 'err))" % x for x in cs)
cls = [x for k in (1, 2, 3) for x in itertools.permutations(CL, k)]
if not T:
    cls = cls[:49] + cls[49::2]
# an arity error inside case-lambda has no clause: last clause catches all unless stated
G.append(Group('case-lambda', ["(define f (case-lambda {c} (r 'otherwise)))|=>(list %s)" % ' '.join(calls)], dict(c=[' '.join(x) for x in cls]), mes_prelude=mods('mes scm', 'srfi srfi-16'), guile_prelude=''))
SL = ['<>', "'k", '1']
cuts = []
for k in range(0, 4):
    for args in itertools.product(SL, repeat=k):
        for tail in ('', ' <...>'):
            n = args.count('<>')
            for fn, extra in (('list', 0), ('<>', 1)):
                for kind in ('cut', 'cute'):
                    m = n + extra
                    for more in ((0, 1, 2) if tail else (0,)):
                        vals = (['list'] if extra else []) + ["'v%d" % i for i in range(n + more)]
                        cuts.append('((%s %s %s%s) %s)' % (kind, fn, ' '.join(args), tail, ' '.join(vals)))
G.append(Group('cut and cute', ['{x}', "(let* ((n 0) (f (cut list (begin (set! n (+ n 1)) n) <>))) (list (f 'a) (f 'b) n))", "(let* ((n 0) (f (cute list (begin (set! n (+ n 1)) n) <>))) (list (f 'a) (f 'b) n))", "(map (cut + 1 <>) '(1 2 3))",
    "(map (cut cons <> '()) '(1 2))", "((cut list (+ 1 1) <> (cut list <>)) 5 )", "(let ((x 1)) (let ((f (cut list x <>))) (set! x 2) (f 0)))", "(let ((x 1)) (let ((f (cute list x <>))) (set! x 2) (f 0)))"][:7 if False else None], dict(x=cuts), mes_prelude=mods('srfi srfi-26'), guile_prelude='(use-modules (srfi srfi-26))',
    scope=lambda b: b'procedure' not in b))
FORM = ['x', '(x)', '(x y)', '(x . y)', '(x y . z)', '(x y z)']
RV = {'x': 'x', '(x)': 'x', '(x y)': 'x y', '(x . y)': 'x y', '(x y . z)': 'x y z', '(x y z)': 'x y z'}
G.append(Group('receive', ["{f}"], dict(f=["(receive %s (values %s) (list %s))" % (f, ' '.join("'%d" % i for i in range(n)), RV[f]) for f in FORM for n in range(5)] +
    ["(receive %s (values %s) (define a (list %s)) (set! a (cons 0 a)) a)" % (f, ' '.join("'%d" % i for i in range(n)), RV[f]) for f in FORM for n in range(1, 4)]), mes_prelude=mods('srfi srfi-8'), guile_prelude='(use-modules (srfi srfi-8))'))
FS = []
for req in ('', 'a', 'a b'):
    for opt in ('', '#:optional o', '#:optional (o 5)', '#:optional (o 5) (p o)', '#:optional o p'):
        for key in ('', '#:key k', '#:key (k 7)', '#:key (k 7) (l k)', '#:key k l'):
            for rest in ('', '#:rest r', '. r'):
                if rest and key:
                    if rest != '#:rest r':
                        continue
                    f = '%s %s %s %s' % (req, opt, rest, key) if False else '%s %s %s %s' % (req, opt, key, rest)
                else:
                    f = '%s %s %s %s' % (req, opt, key, rest)
                names = re.findall(r"(?<![#:a-z])[a-z](?![a-z])", f)
                names = list(dict.fromkeys(n for n in names))
                FS.append((' '.join(f.split()), ' '.join(names)))
KC = ["(f)", "(f 1)", "(f 1 2)", "(f 1 2 3)", "(f 1 2 3 4)", "(f #:k 9)", "(f 1 #:k 9)", "(f 1 2 #:k 9)", "(f 1 2 3 #:k 9)", "(f 1 2 3 4 #:k 9)", "(f 1 2 #:l 8 #:k 9)", "(f 1 2 #:l 8)", "(f 1 #:k 9 #:l 8)", "(f 1 2 3 4 #:l 8 #:k 9)", "(f 1 2 #:k #f)", "(f #:k 1 #:k 2)"]
OK = dict(mes_prelude=mods('mes optargs'), guile_prelude='(use-modules (ice-9 optargs))')
# a call with keywords gives every optional argument first: where optional arguments end at a keyword is not agreed
def fits(f, call):
    call = call[3:-1] if call != '(f)' else ''
    args = re.sub(r'(#:\w+) (\S+)', '', call).split()
    kw = re.findall(r'#:(\w+)', call)
    req = re.match(r'((?:[a-z] ?)*)', f).group(1).split()
    o = re.search(r'#:optional ((?:\([a-z] \w\) ?|[a-z] ?)*)', f)
    opt = re.findall(r'\([a-z] \w\)|[a-z]', o.group(1)) if o else []
    rest = '#:rest' in f or ' . ' in f or f.startswith('.')
    if '#:key' in f:
        if rest and len(args) != len(req) + len(opt):
            return len(args) < len(req) and not kw
        return (not kw and len(args) <= len(req) + len(opt)) or len(args) == len(req) + len(opt) and all(re.search(r'[ (]%s\b' % k, f[f.index('#:key'):]) for k in kw)
    return not kw
both = [(f, n, k) for f, n in FS for k in KC if fits(f, k)]
c.log('%d shapes of formals, %d calls that fit' % (len(FS), len(both)))
G.append(Group('lambda*', ["{x}"], dict(x=["(define f (lambda* (%s) (list %s)))|=>%s" % (f, n, k) for f, n, k in both if f] + ["(define* (f %s) (list %s))|=>%s" % (f, n, k) for f, n, k in both if f]), **OK))
G.append(Group('let-optional and let-keywords', '''((lambda (a . rest) (let-optional rest ((x 1) (y (list 'y a))) (list a x y))) {c})
((lambda (a . rest) (let-optional* rest ((x 1) (y (list x a))) (list a x y))) {c})
((lambda (a . rest) (let-keywords rest #f ((k 1) (l 2)) (list a k l))) {k})
((lambda (a . rest) (let-keywords* rest #f ((k 1) (l (list k))) (list a k l))) {k})
((lambda (a . rest) (let-keywords rest #t ((k 1)) (list a k))) {k})''', dict(c=['0', '0 7', "0 7 'z", "0 #f"], k=['0', '0 #:k 5', '0 #:l 6', '0 #:l 6 #:k 5', '0 #:k 5 #:l #f']), **OK))
only = os.environ.get('C09_ONLY')
R = diff.explore(c, G)
c.finish()
