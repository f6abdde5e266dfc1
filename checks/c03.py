"""C03: all small nestings of call/cc, catch, throw and multiple values, against Guile."""
import sys, itertools, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mesmc import core, build, scheme, diff, procs
from mesmc.diff import Group

c = core.Check('C03', 'exploration')
T = c.thorough
def label(t):
    n = itertools.count(1)
    return re.sub(r'@', lambda m: str(next(n)), t)

# 1. exceptions: bodies and handlers to a depth
def exc(d):
    "expressions of depth d"
    if d == 0:
        return ["(t '@)", "(throw 'a '@)", "(throw 'b '@ 2)", "(throw 'c)"]
    sub = exc(d - 1)
    out = list(sub)
    keys = ["'a", "'b", "#t"]
    if d == 1:
        for k in keys:
            for e in sub:
                for h in ["(list 'h k r)", "(throw 'b k)", "(throw 'a r)", "(apply throw k r)"]:
                    out.append("(catch %s (lambda () %s) (lambda (k . r) %s))" % (k, e, h))
        for e in sub:
            out.append("(list 1 %s)" % e)
            out.append("(begin %s (t '@))" % e)
            out.append("(let ((y %s)) (list y (t '@)))" % e)
    else:
        for k in keys:
            for e in sub:
                for h in ["(list 'h k r)", "(throw 'a k)", "(catch 'a (lambda () (throw k 'n)) (lambda x x))"] if not T else \
                         ["(list 'h k r)", "(throw 'a k)", "(throw 'b r)", "(catch 'a (lambda () (throw k 'n)) (lambda x x))"]:
                    out.append("(catch %s (lambda () %s) (lambda (k . r) %s))" % (k, e, h))
        for e in sub:
            out += ["(begin %s (throw 'a '@))" % e, "(cons (t '@) %s)" % e]
    return out
if T:
    bodies = exc(2)
    bodies3 = ["(catch %s (lambda () (cons %s 3)) (lambda x (list 'outer x)))" % (k, e) for k in ("'a", "'b") for e in bodies]
    seqs = ["(let* ((p %s) (q %s)) (list p q))" % p for p in itertools.product(exc(1), repeat=2)]
    bodies = bodies + bodies3 + seqs
else:
    bodies = exc(2)
    seqs = ["(let* ((p %s) (q %s)) (list p q))" % p for p in itertools.product(exc(1), repeat=2)]
    bodies += seqs + ["(catch %s (lambda () (cons %s 3)) (lambda x (list 'outer x)))" % (k, e) for k in ("'a", "'b") for e in exc(2)]
EXC = "(begin (set! %%l '()) (let ((v (catch #t (lambda () {b}) (lambda x (list 'top x))))) (list v (reverse %%l) (catch #t (lambda () (throw 'after 1)) list))))"
PRE = "(define %%l '()) (define (t v) (set! %%l (cons v %%l)) v)"
# deeper: the throw goes through procedures, loops and library procedures
DEEP = '''(let loop ((i 0)) (if (= i {n}) (throw 'a i) (begin (loop (+ i 1)) 'no)))
(let loop ((i 0)) (if (= i {n}) (throw 'a i) (loop (+ i 1))))
(let loop ((i 0)) (if (= i {n}) (throw 'a i) (catch 'b (lambda () (loop (+ i 1))) list)))
(let loop ((i 0)) (if (= i {n}) (throw 'a i) (catch 'a (lambda () (loop (+ i 1))) (lambda (k v) (throw 'a (+ v 1))))))
(let loop ((i 0)) (if (< i {n}) (cons (catch 'a (lambda () (throw 'a i)) list) (loop (+ i 1))) '()))
(map (lambda (x) (catch 'a (lambda () (if (even? x) (throw 'a x) x)) (lambda (k v) (list v)))) (iota {n}))
(let ((r '())) (for-each (lambda (x) (set! r (cons (catch #t (lambda () (throw 'k x)) (lambda (k . v) v)) r))) (iota {n})) r)
(map (lambda (x) (if (= x {n}) (throw 'a x) x)) (iota 9))
(catch 'a (lambda () (map (lambda (x) (if (= x {n}) (throw 'a x) x)) (iota 9))) list)
(catch 'a (lambda () (for-each (lambda (x) (if (= x {n}) (throw 'a x) x)) (iota 9)) 'none) list)
(catch 'a (lambda () (apply (lambda (x y) (throw 'a x y)) (list 1 {n}))) list)
(catch 'a (lambda () (let ((x (throw 'a {n}))) 1)) (lambda (k x) x))
(catch 'a (lambda () (if (throw 'a {n}) 1 2)) (lambda (k x) x))
(catch 'a (lambda () (cond ((throw 'a {n}) 1) (else 2))) (lambda (k x) x))
(catch 'a (lambda () ((throw 'a {n}) 1)) (lambda (k x) x))
(catch 'a (lambda () (car (throw 'a {n}))) (lambda (k x) x))
(let ((x 1)) (catch 'a (lambda () (set! x (throw 'a {n}))) (lambda (k v) v)) x)
(let ((x 1)) (catch 'a (lambda () (set! x 5) (throw 'a {n})) (lambda (k v) v)) x)
(catch #t (lambda () (catch 'zz (lambda () (car {n}) (throw 'zz)) (lambda x 'wrong))) (lambda (k . x) 'outer))
(catch #t (lambda () (car {n})) (lambda (k . x) 'err))
(catch #t (lambda () (catch 'nokey (lambda () (car {n})) (lambda x 'wrong))) (lambda (k . x) 'err))
(catch 'a (lambda () {n}) (lambda x 'handler))
(catch 'a (lambda () (values {n})) (lambda x 'handler))
(let ((h (lambda (k . r) (list 'h k r)))) (list (catch 'a (lambda () (throw 'a {n})) h) (catch 'b (lambda () (throw 'b {n})) h)))
(catch 'a (lambda () (throw 'a)) (lambda x x))
(catch 'a (lambda () (throw 'a 1 2 3 {n})) (lambda (k . x) x))
(catch 'a (lambda () (apply throw 'a (iota {n}))) (lambda (k . x) x))
(catch (if (even? {n}) 'a 'b) (lambda () (catch 'b (lambda () (throw 'a {n})) (lambda x 'inner))) (lambda x 'outer))'''
# 2. continuations
def kexp(d, ks, saved):
    if d == 0:
        out = ["(t '@)"]
        for k in ks:
            out += ["(%s '@)" % k, "(begin (set! s %s) (t '@))" % k]
        return out
    sub = kexp(d - 1, ks, saved)
    k = 'k%d' % len(ks)
    inner = kexp(d - 1, ks + [k], saved)
    out = ["(call/cc (lambda (%s) %s))" % (k, e) for e in inner]
    if d == 1:
        small = sub
    else:
        small = kexp(0, ks, saved)
    for e in sub:
        for f in small:
            out += ["(list %s %s)" % (e, f), "(begin %s %s)" % (e, f)]
            if f != e:
                out += ["(list %s %s)" % (f, e), "(begin %s %s)" % (f, e)]
    for e in sub:
        out += ["(let ((y %s)) (cons 'y y))" % e, "(map (lambda (i) %s) '(1 2))" % e, "(if %s (t '@) 0)" % e,
                "(apply (lambda r r) 0 (list %s))" % e, "(call-with-values (lambda () %s) list)" % e,
                "((lambda (u) (set! u (cons u u)) u) %s)" % e, "(vector %s)" % e, "(let () (define u %s) (list u u))" % e]
    return list(dict.fromkeys(out))
KW = "(let ((n 0) (s #f) (m 0)) (set! %%l '()) (let ((r (call/cc (lambda (k0) {b})))) (t 'r) (set! n (+ n 1)) (if (and s (< n 4)) (s (list 'again n)) (list r n (reverse %%l)))))"
k2 = ["(call/cc (lambda (k1) %s))" % e for e in kexp(1, ['k0', 'k1'], 0)] + kexp(3 if T else 2, ['k0'], 0)
k2 += ["(call/cc (lambda (k1) (list %s (t '@))))" % e for e in kexp(2, ['k1'], 0)]
k2 += ["(call/cc (lambda (k1) (list (t '@) %s)))" % e for e in kexp(2, ['k0', 'k1'], 0)]
k2 += ["(list %s %s)" % p for p in itertools.product(kexp(1, ['k0'], 0), repeat=2)]
k2 = list(dict.fromkeys(k2))
# 3. values
V = ["(values)", "(values 1)", "(values 1 2)", "(values 1 2 3)", "5", "'()", "(list 1 2)", "(call/cc (lambda (k) (k 1 2)))",
     "(call/cc (lambda (k) (k 1)))", "(call/cc (lambda (k) (k)))", "(apply values (list 1 2))", "(apply values '())",
     "(call/cc (lambda (k) (k 1 2) (t 'no)))", "(call/cc (lambda (k) (values 1 2)))", "(call/cc values)" ]
CTX = ["{v}", "(if #t {v} 0)", "(if #f 0 {v})", "(begin 7 {v})", "(let ((x 1)) {v})", "(let* ((x 1) (y 2)) {v})", "(cond (#f 1) (else {v}))",
       "(cond (#t {v}))", "(case 1 ((1) {v}) (else 0))", "(and 1 {v})", "(or #f {v})", "(when #t {v})", "(unless #f {v})",
       "((lambda () {v}))", "(apply (lambda () {v}) '())", "(let loop ((i 0)) (if (< i 2) (loop (+ i 1)) {v}))",
       "(letrec ((f (lambda () {v}))) (f))", "(let () (define (f) {v}) (f))", "(catch 'a (lambda () {v}) list)",
       "(catch 'a (lambda () (throw 'a 1)) (lambda (k x) {v}))", "(call-with-values (lambda () {v}) values)",
       "(call-with-values (lambda () (values 1 2)) (lambda (a b) {v}))", "(call/cc (lambda (k2) {v}))", "(receive a {v} (apply values a))",
       "(do ((i 0 (+ i 1))) ((= i 2) {v}))"]
REC = ["list", "(lambda r r)", "(lambda (a . r) (list a r))", "(lambda (a b) (list b a))", "(lambda () 'none)", "(lambda (a) (list a))", "cons", "vector", "+"]
VAL = '''(call-with-values (lambda () {x}) {r})
(let ((f (lambda () {x}))) (list (call-with-values f {r}) (call-with-values f {r})))
(begin {x} 'dropped)
(list (call-with-values (lambda () {x}) list) 'next)'''
RCV = '''(receive (a . b) {x} (list a b))
(receive a {x} a)
(receive (a b) {x} (list a b))
(receive (a) {x} (list a))
(receive () {x} 'none)
(receive (a b . c) {x} (list a b c))
(receive (a b c) {x} (list c b a))'''
X = [k.replace('{v}', v) for k in CTX for v in V if v != '(call/cc values)']
X1 = [x for x in X]
# Mes lets one result of several stand for itself where Scheme leaves it open: keep to receivers that accept
# 4. classic programs
PROG = '''(let ((k #f) (n 0)) (let ((v (call/cc (lambda (c) (set! k c) 1)))) (set! n (+ n v)) (if (< n {n}) (k v) (list n v))))
(let ((r '())) (for-each (lambda (i) (call/cc (lambda (k) (if (= i {n}) (k 1)) (set! r (cons i r))))) (iota 6)) r)
(call/cc (lambda (return) (for-each (lambda (x) (if (= x {n}) (return (list 'found x)))) (iota 6)) 'none))
(let ((g (let ((ret #f) (next #f)) (set! next (lambda () (for-each (lambda (x) (call/cc (lambda (k) (set! next (lambda () (k #f))) (ret x)))) (iota {n})) (ret 'done))) (lambda () (call/cc (lambda (r) (set! ret r) (next))))))) (let* ((a (g)) (b (g)) (d (g)) (e (g))) (list a b d e)))
(let ((ks '()) (out '())) (let ((x (call/cc (lambda (k) (set! ks (cons k ks)) 0)))) (set! out (cons x out)) (if (< x {n}) ((car ks) (+ x 1)) out)))
(let ((fail #f) (r '())) (define (amb l) (call/cc (lambda (k) (let ((old fail)) (for-each (lambda (x) (call/cc (lambda (next) (set! fail (lambda () (next #f))) (k x)))) l) (set! fail old) (fail))))) (call/cc (lambda (stop) (set! fail (lambda () (stop 'end))) (let* ((a (amb (iota {n}))) (b (amb (iota {n})))) (if (= (+ a b) 3) (set! r (cons (list a b) r))) (fail)))) (reverse r))
(let ((q '()) (out '())) (define (spawn th) (set! q (append q (list th)))) (define (yield) (call/cc (lambda (k) (spawn (lambda () (k #f))) (next)))) (define exit #f) (define (next) (if (null? q) (exit 'done) (let ((th (car q))) (set! q (cdr q)) (th)))) (define (worker name) (lambda () (let loop ((i 0)) (if (< i {n}) (begin (set! out (cons (list name i) out)) (yield) (loop (+ i 1))))) (next))) (spawn (worker 'a)) (spawn (worker 'b)) (call/cc (lambda (k) (set! exit k) (next))) (reverse out))
(let ((count 0)) (let ((k (call/cc (lambda (c) c)))) (set! count (+ count 1)) (if (< count {n}) (k k) count)))
((call/cc (lambda (k) k)) (lambda (x) {n}))
(+ {n} (call/cc (lambda (k) (* 5 (k 4)))))
(+ 1 (call/cc (lambda (k) (+ 10 (catch 'a (lambda () (throw 'a {n})) (lambda (key v) (k v)))))))
(let ((p (call/cc (lambda (k) (cons 1 k))))) (if (procedure? (cdr p)) ((cdr p) (cons {n} 0)) p))
(let ((r '()) (k2 #f) (n 0)) (catch #t (lambda () (call/cc (lambda (k) (set! k2 k))) (set! n (+ n 1)) (throw 'x n)) (lambda (key v) (if (< v {n}) (list 'again v) (list key v)))))
(procedure? (call/cc (lambda (k) k)))
(map (lambda (x) (call/cc (lambda (k) (if (even? x) (k 'even) x)))) (iota {n}))
(let loop ((i 0) (acc '())) (if (= i {n}) acc (loop (+ i 1) (cons (call/cc (lambda (k) (if (odd? i) (k (- i)) i))) acc))))
(let ((f (lambda (x) (call/cc (lambda (ret) (if (> x 2) (ret 'big)) (list 'small x)))))) (map f (iota {n})))
(call-with-values (lambda () (call/cc (lambda (k) (apply k (iota {n}))))) list)
(let ((path '())) (let ((x (dynamic-wind (lambda () (set! path (cons 'in path))) (lambda () (set! path (cons 'th path)) {n}) (lambda () (set! path (cons 'out path)))))) (list x path)))'''
kw = dict(mes_prelude='(mes-use-module (srfi srfi-8)) (mes-use-module (mes fluids))', guile_prelude='(use-modules (srfi srfi-8))', prelude=PRE)
G = [Group('exceptions', [EXC], dict(b=[label(b) for b in bodies]), timeout=200, **kw),
     Group('deep throws', ["(catch #t (lambda () %s) (lambda x (list 'top x)))" % t for t in DEEP.split('\n')], dict(n=['0', '1', '2', '5', '8']), **kw),
     Group('continuations', [KW], dict(b=[label(b) for b in k2]), timeout=200, **kw),
     Group('values to a receiver', VAL, dict(x=X, r=REC), scope=lambda r: r != b'', **kw),
     Group('receive', RCV, dict(x=X), **kw),
     Group('programs', PROG, dict(n=['2', '3', '4', '5']), **kw)]
c.log('%d bodies with catch and throw, %d with continuations' % (len(bodies), len(k2)))
# a body of catch left or entered again by a continuation: the handler in effect afterwards
STALE = '''(begin (set! %%l '()) (list (catch 'a (lambda () (call/cc (lambda (k) (catch {k} (lambda () (k 1)) (lambda x 'inner)))) (t 'once) (throw 'a 9)) (lambda (k v) (list 'outer v))) %%l))
(begin (set! %%l '()) (let ((x (call/cc (lambda (k) (catch {k} (lambda () (k 1)) (lambda x (t x) 2)))))) (t x) (list (catch 'a (lambda () (throw 'a x)) (lambda (k v) v)) %%l)))
(let ((n 0) (k2 #f)) (set! %%l '()) (catch {k} (lambda () (call/cc (lambda (k) (set! k2 k))) (set! n (+ n 1)) (throw 'a n)) (lambda (key v) (t v))) (if (< n 3) (k2 #f) (list n %%l)))'''
G.append(Group('catch left by a continuation', STALE, dict(k=["'a", "'b", '#t']), **kw))
# every context of capture against every context of entry, so that the stack is as deep, deeper and less deep than it was
WRAP = ["(list 'a {x})", "(list {x} 'a)", "(let ((y {x})) (cons 'l y))", "(begin {x} 'b)", "(if {x} 'c 'd)", "((lambda (u) (cons u 'e)) {x})", "(f {x})", "(vector {x})",
        "(apply list 1 (list {x}))", "(map (lambda (i) {x}) '(1 2))"] + (["(call-with-values (lambda () {x}) list)", "(catch 'a (lambda () {x}) list)", "(cond ({x} => list))"] if T else [])
def wraps(x):
    l1 = [w.replace('{x}', x) for w in WRAP]
    return [x] + l1 + [w.replace('{x}', y) for w in WRAP for y in l1]
G.append(Group('captured and entered in every context', ["(let ((k #f) (n 0) (f (lambda (x) (list 'f x)))) (set! %%l '()) (let ((r {p})) (t r) (set! n (+ n 1)) (if (< n 3) {q} (list r n %%l))))"],
               dict(p=wraps("(call/cc (lambda (c) (set! k c) 0))"), q=wraps("(k n)")), timeout=200, **kw))
R = diff.explore(c, G)
# 5. not handled: the program ends there, with a status that is not zero
P = []
for e in ["(throw 'a 1)", "(throw 'a)", "(error \"x\" 1)", "(error 'k \"x\")", "(car 1)", "(undefined-variable)", "(catch 'b (lambda () (throw 'a 1)) list)",
          "(catch 'a (lambda () (throw 'a 1)) (lambda (k . r) (throw 'b 2)))", "(catch 'a (lambda () (throw 'a 1)) (lambda (k . r) (apply throw k r)))",
          "(begin (catch 'a (lambda () (throw 'a 1)) list) (throw 'c))", "(map (lambda (x) (throw 'x x)) '(1 2))", "(call/cc (lambda (k) (throw 'a k)))",
          "((lambda (x) x))", "(vector-ref (vector 1) 9)"]:
    for ctx in ["{e}", "(begin {e})", "(display {e})", "(let ((x {e})) (display x))", "(if {e} (display 'y) (display 'n))", "(define x {e})",
                "(catch 'other (lambda () {e}) (lambda x (display 'wrong)))", "(for-each (lambda (i) {e}) '(1))", "(cons 1 {e})"]:
        P.append(ctx.replace('{e}', e))
jobs = [(['-s', '@/p.scm'], None, {}, {'p.scm': '(display "before")\n%s\n(display "after")\n' % p}) for p in P]
res = procs.run_all(c, build.Tree(), jobs) if not os.environ.get('MESMC_GROUP') else []
n = 0
for p, (rc, out, err, files) in zip(P, res):
    n += 1
    if not (isinstance(rc, int) and rc != 0 and out == b'before'):
        c.fail('uncaught: ' + p, 'status %s, standard output %r; expected a status that is not 0 and output "before"' % (rc, out[:200]),
               {'p.scm': jobs[n - 1][3]['p.scm']})
c.add('evaluations', n)
c.log('%d programs that end with an unhandled exception' % n)
c.finish()
