"""C07: mutable data. All operation sequences up to a depth over small worlds of aliased objects,
each followed by an observation of every place, against Guile."""
import sys, itertools, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mesmc import core, build, scheme, diff
from mesmc.diff import Group

c = core.Check('C07', 'exploration')
D = 1 if c.thorough else 0
LOAD = ' '.join('(mes-use-module (%s))' % m for m in ('mes scm', 'mes misc', 'mes fluids', 'srfi srfi-1', 'srfi srfi-9', 'srfi srfi-13', 'srfi srfi-43'))
FLATP = '(define (flat? x n) (cond ((zero? n) #f) ((pair? x) (and (flat? (car x) (- n 1)) (flat? (cdr x) (- n 1)))) (else #t)))\n'
KW = dict(mes_prelude=LOAD + FLATP + '(define (same? x) (eq? x *unspecified*))',
          guile_prelude=FLATP + '''(use-modules (srfi srfi-1) (srfi srfi-9) (srfi srfi-13) ((srfi srfi-43) #:select (vector-map vector-for-each)))
(define hashq-ref* hashq-ref) (define (alist-copy* l) l)''')
import re
CYCLE = re.compile(rb'#-?\d+#')    # circular data cannot be looked at by writing it
G = []
def world(name, bind, ops, look, depth, top='', between=True, look1=lambda l: l):
    """Every sequence of up to DEPTH operations; the state is looked at after every operation."""
    cases = []
    for k in range(depth + 1):
        for seq in itertools.product(ops, repeat=k):
            body = ' '.join(seq)
            cases.append('%s(let* (%s) %s %s)' % (top + '|=>' if top else '', bind, body, look1('(list %s)' % look)))
    c.log('%s: %d sequences' % (name, len(cases)))
    G.append(Group(name, ['{x}'], dict(x=cases), scope=lambda b: not CYCLE.search(b), **KW))
# pairs with aliases: q is the tail of p, r holds both
world('aliased pairs', '(p (list 1 2 3)) (q (cdr p)) (r (list p q (list \'x)))',
      ["(set-car! p 'a)", "(set-car! q (list 'b))", "(set-cdr! q (list 'c 'd))", "(set-cdr! p (cddr p))", "(set-cdr! p q)", "(set-car! (cdr (car r)) 'e)",
       "(set-car! r q)", "(set! p (cons 0 p))", "(if (flat? p 14) (set! q (map car (map list p))))", "(if (flat? q 14) (set! p (append q (caddr r))))", "(set-car! (caddr r) 'f)", "(set-cdr! (cddr r) (list p))",
       "(if (flat? r 14) (set! r (reverse r)))", "(if (flat? p 14) (set! p (reverse! p)))", "(if (flat? p 14) (list-set! p 1 'g))"][:15 if D else 15],
      'p q r (eq? (cdr p) q) (eq? (car r) p) (memq q r)', 4 if D else 3, look1=lambda l: "(let ((l %s)) (if (flat? l 14) l 'circular))" % l)
# vectors: w is v; u holds v; x a copy
world('aliased vectors', "(v (make-vector 3 0)) (w v) (u (vector v 'k (list 1 2))) (x (vector-copy v))",
      ["(vector-set! v 0 'a)", "(vector-set! w 2 (list 'b))", "(vector-set! x 0 \"s\")", "(vector-set! (vector-ref u 0) 1 #\\c)", "(vector-set! u 0 (vector 9 v))",
       "(set! w (vector-copy v))", "(set! x (list->vector (vector->list u)))", "(set-car! (vector-ref u 2) w)", "(vector-set! v 1 12345678901)", "(set! v (vector-map (lambda (i e) (list i e)) w))",
       "(vector-set! x 2 (vector-length v))", "(vector-for-each (lambda (i e) (vector-set! w i (cons i e))) w)", "(vector-set! v 2 (vector))"],
      "v w u x (eq? v w) (eq? v (vector-ref u 0)) (vector->list w)", 4 if D else 3)
# hash tables: few buckets make keys meet
for size, n in ((1, 3), (2, 2), (50, 2)):
    world('hash table by eq of size %d' % size, "(h (make-hash-table %d)) (g (make-hash-table %d)) (l (list 1))" % (size, size),
          ["(hashq-set! h 'a 1)", "(hashq-set! h 'a l)", "(hashq-set! h 'ab #f)", "(hashq-set! h 'b \"s\")", "(hashq-set! h 'abc (hashq-ref h 'a 'none))", "(hashq-set! g 'a 'other)",
           "(set-car! l 'x)", "(hashq-set! h 'a 0)", "(hashq-set! h (string->symbol \"ba\") (cons 'b (hashq-ref h 'b #f)))", "(set! h g)", "(hashq-set! h 'b 2)"],
          "(map (lambda (t) (map (lambda (k) (list (hashq-ref t k 'dflt) (hashq-ref t k #f) (hashq-ref t k '()) (hashq-ref t k '(1 2)))) '(a ab abc b ba zz))) (list h g)) l",
          n + D)
    world('hash table by equal of size %d' % size, "(h (make-hash-table %d)) (g (make-hash-table %d)) (s (string-append \"a\" \"b\"))" % (size, size),
          ['(hash-set! h "a" 1)', '(hash-set! h s 2)', '(hash-set! h "ab" (list 3))', '(hash-set! h "" #f)', '(hash-set! h "b" 4)', '(hash-set! g "a" 5)',
           '(hash-set! h "abc" (hash-ref h "ab" \'none))', '(hash-set! h (string-append s "c") 6)', '(set! g h)', '(set! s "b")', '(hash-set! h (substring "xabx" 1 3) 7)'],
          "(map (lambda (t) (map (lambda (k) (list (hash-ref t k 'dflt) (hash-ref t k #f) (hash-ref t k '(1 2)))) '(\"\" \"a\" \"ab\" \"abc\" \"b\" \"ba\" \"zz\"))) (list h g)) (hash-ref h s 'x)",
          n + D)
# association lists
world('association lists', "(a (list (cons 'x 1) (cons 'y (list 2)))) (b (cons (cons 'z 3) a)) (s (list (cons \"x\" 1)))",
      ["(set! a (assq-set! a 'x 10))", "(set! a (assq-set! a 'y (list 5)))", "(set! b (assq-set! b 'w 4))", "(set! b (assq-set! b 'y 6))", "(set! a (acons 'x 7 a))", "(set-cdr! (assq 'y b) 8)",
       "(set! s (assoc-set! s \"x\" 2))", "(set! s (assoc-set! s (string #\\y) a))", "(set-car! (assq 'z b) 'x)", "(set! a (acons 'q 9 a))", "(set! s (acons \"x\" 0 s))"],
      "a b s (assq-ref a 'x) (assq-ref b 'x) (assq-ref a 'nope) (assoc-ref s \"x\") (assoc-ref s \"y\") (assv-ref a 'y)", 3)
# records
REC = '''(define-record-type point (make-point y x) point? (x point-x set-point-x!) (y point-y) (z point-z set-point-z!))
(define-record-type <node> (make-node val next) node? (val node-val) (next node-next set-node-next!))
(define-record-type empty (make-empty) empty? (e empty-e set-empty-e!))
(define (show o) (cond ((point? o) (list 'P (show (point-x o)) (show (point-y o)))) ((node? o) (list 'N (show (node-val o)) (if (node? (node-next o)) 'node (show (node-next o))))) ((empty? o) 'E) (else o)))
(define (fin? k l) (or (null? l) (and (> k 0) (let ((o (car l))) (and (cond ((point? o) (fin? (- k 1) (list (point-x o) (point-z o)))) ((node? o) (fin? (- k 1) (list (node-val o) (node-next o)))) ((empty? o) (fin? (- k 1) (list (empty-e o)))) (else #t)) (fin? k (cdr l)))))))
(define (other f . l) (if (fin? 7 l) (catch #t (lambda () (f) (set! %refused 'accepted)) (lambda (k . a) #t))))
(define %refused #t)'''
world('records', "(p (make-point 1 2)) (q p) (n (make-node p 'end)) (e (make-empty))",
      ["(set-point-x! p 3)", "(set-point-x! q (list 4))", "(set-point-z! p 'z)", "(set-node-next! n (make-node q n))", "(set! q (make-point (point-x p) (point-y p)))", "(set-node-next! n p)",
       "(set-empty-e! e p)", "(set-point-z! q (point-x (node-val n)))", "(set! n (make-node n q))", "(set-point-x! (make-point 5 6) 7)", "(other (lambda () (set-point-x! n 8)) n)", "(other (lambda () (set-node-next! p 9)) p)",
       "(other (lambda () (set! q (point-x e))) e)", "(other (lambda () (set-point-x! (vector 1 2 3 4) 5)))", "(other (lambda () (set-empty-e! q 'e)) q)", "(other (lambda () (node-next (if (node? n) p n))) p)"],
      "(map show (list p q n)) (eq? p q) (map point? (list p n e 1 'point (vector 1 2) car)) (map node? (list p n e #f)) (map empty? (list p n e \"\")) %refused", 3,
      top=REC.replace('\n', ' '))
for name, t in (('fields in any order', "(define-record-type t (mk {p}) t? (a ta sa!) (b tb sb!) (c tc sc!))|=>(let ((r (mk {v}))) (list {g}))"),):
    cases = []
    for k in range(4):
        for ps in itertools.permutations('abc', k):
            v = ' '.join("'%s%s" % (x, i) for i, x in enumerate(ps))
            g = ' '.join('(t%s r)' % x for x in ps)
            unset = [x for x in 'abc' if x not in ps]
            cases.append("(define-record-type t (mk %s) t? (a ta sa!) (b tb sb!) (c tc sc!))|=>(let ((r (mk %s)) (r2 (mk %s))) (list %s (t? r) (t? 1)))" % (' '.join(ps), v, v, g))
            for f in 'abc':
                cases.append("(define-record-type t (mk %s) t? (a ta sa!) (b tb sb!) (c tc sc!))|=>(let ((r (mk %s)) (r2 (mk %s))) (s%s! r 'new) (list (t%s r) %s %s))"
                             % (' '.join(ps), v, v, f, f, ' '.join('(t%s r)' % x for x in ps), ' '.join('(t%s r2)' % x for x in ps)))
    G.append(Group('record ' + name, ['{x}'], dict(x=cases), **KW))
# variables: captured, global, shadowed, defined again
world('variables', "(x 1) (f (lambda () x)) (s (lambda (v) (set! x v))) (l (list f))",
      ["(set! x (+ x 1))", "(s 'set)", "(set! gx (cons 1 gx))", "(gset! 5)", "(let ((x 7)) (set! x 8) (s x))", "(let ((gx 9)) (set! gx 10) (gset! gx))",
       "(set! f (let ((x x)) (lambda () (set! x (list x)) x)))", "(set! gf (lambda () (list 'new gx)))", "(begin (set! x gx) (set! gx x))", "(set! s (lambda (v) (set! x (list v x))))"],
      "x gx (f) ((car l)) (gget) (gf) x gx (begin (s 'end) x)", 3 + D, top='(define gx 0) (define (gget) gx) (define (gset! v) (set! gx v)) (define (gf) (list gx (gget)))')
tops = ["(define va 1)", "(define va (list va))", "(define (vf) va)", "(set! va 'x)", "(define vb va)", "(define (vf) (list 'second va vb))", "(begin (define vb 'in-begin) (set! va vb))",
        "(define vg vf)", "(let () (define va 'local) (set! vb va))", "(if #t (set! vb (vf)))", "(define vc (let ((n 0)) (lambda () (set! n (+ n 1)) n)))", "(set! va (vc))"]
cases = []
for k in range(4 if not D else 5):
    for seq in itertools.product(tops, repeat=k):
        cases.append("(define va 0) (define vb 0) (define (vf) 'first) (define vg #f) (define (vc) 'c) %s|=>(list va vb (vf) (if vg (vg) 0) (vc) (vc))" % ' '.join(seq))
G.append(Group('definitions at top level', ['{x}'], dict(x=cases), **KW))
# symbols and keywords have one identity per name
names = ['', 'a', 'b', 'ab', 'ba', 'aa', 'A', 'a b', 'lambda', '1', 'a-very-long-symbol-name-of-more-than-thirty-characters', 'x' * 300, 'x' * 299 + 'y', '(', '"', 'ab|c', '\\\\', 'Aa', 'aB', 'abc', 'acb', 'bca', 'cba']
S = ['"%s"' % n.replace('"', '\\"') for n in names]
G.append(Group('identity of symbols', '''(let ((x (string->symbol {s})) (y (string->symbol {t}))) (list (eq? x y) (eqv? x y) (equal? x y) (string=? {s} {t}) (eq? (string->symbol (symbol->string x)) x) (eq? x (string->symbol (string-append {s}))) (and (memq x (list 'q y)) #t) (pair? (assq x (list (list y 1))))))
(let ((h (make-hash-table 7))) (hashq-set! h (string->symbol {s}) 1) (hashq-set! h (string->symbol {t}) 2) (list (hashq-ref h (string->symbol {s}) 0) (hashq-ref h (string->symbol {t}) 0)))
(let ((h (make-hash-table 7))) (hash-set! h {s} 1) (hash-set! h {t} 2) (list (hash-ref h {s} 0) (hash-ref h (string-append {t}) 0)))
(eq? (symbol-append (string->symbol {s}) (string->symbol {t})) (string->symbol (string-append {s} {t})))
(let ((x (symbol->keyword (string->symbol {s}))) (y (symbol->keyword (string->symbol {t})))) (list (eq? x y) (eq? (keyword->symbol x) (string->symbol {s}))))
(list (eq? 'a (string->symbol {s})) (eq? 'lambda (string->symbol {t})) (eq? 'ab (symbol-append 'a 'b)))''', dict(s=S, t=S), **KW))
G.append(Group('generated symbols', '''(let ((l (map (lambda (i) (gensym)) (iota {n})))) (length (delete-duplicates l eq?)))
(let ((l (map (lambda (i) (gensym "x")) (iota {n})))) (length (delete-duplicates (map symbol->string l) string=?)))
(length (delete-duplicates (map (lambda (i) (string->symbol (number->string i))) (iota {n})) eq?))
(length (delete-duplicates (append (map (lambda (i) (string->symbol (number->string i))) (iota {n})) (map (lambda (i) (string->symbol (number->string (+ i 1)))) (iota {n}))) eq?))
(let ((h (make-hash-table {n}))) (for-each (lambda (i) (hashq-set! h (string->symbol (number->string i)) i)) (iota {n})) (equal? (iota {n}) (map (lambda (i) (hashq-ref h (string->symbol (number->string i)) 'none)) (iota {n}))))
(let ((h (make-hash-table {n}))) (for-each (lambda (i) (hash-set! h (number->string i) (- i))) (iota {n})) (for-each (lambda (i) (hash-set! h (number->string i) i)) (iota {n})) (equal? (iota {n}) (map (lambda (i) (hash-ref h (number->string i) 'none)) (iota {n}))))''',
               dict(n=['1', '2', '10', '50'] + (['300'] if D else [])), **KW))
# copies do not share
G.append(Group('copies', '''(let* ((a (list {x} 2 3)) (b (append a '()))) (set-car! a 'z) (set-cdr! (cdr b) '()) (list a b))
(let* ((a (vector {x} 2 3)) (b (vector-copy a))) (vector-set! a 0 'z) (vector-set! b 2 'y) (list a b))
(let* ((a (vector {x} 2 3)) (b (vector->list a)) (d (list->vector b))) (set-car! b 'z) (vector-set! a 1 'y) (list a b d))
(let* ((a (list {x} 2)) (b (append a (list 3))) (d (append a a))) (set-car! b 'z) (set-cdr! d '()) (list a b d))
(let* ((a (list {x} 2)) (t (list 3)) (b (append a t))) (set-car! t 'z) (list a t b))
(let* ((a (list {x} 2)) (b (reverse a)) (m (map (lambda (e) e) a))) (set-car! b 'z) (set-car! m 'y) (list a b m))
(let* ((a (vector {x} {x})) (b (vector a a))) (vector-set! (vector-ref b 0) 0 'z) b)
(let* ((a (make-vector 3 {x}))) (vector-set! a 1 'z) a)
(let* ((x {x}) (a (cons x x)) (b (vector x x))) (list (eq? (car a) (cdr a)) (eqv? (vector-ref b 0) x) (equal? a (cons x x))))
(let ((k 'keep)) (define (f) (list {x} k)) (let ((a (f)) (b (f))) (set-car! a 'z) (list a b (f))))
(let* ((a (list {x} {x})) (f (lambda r (set-car! r 'z) r)) (b (apply f a))) (list (cadr a) b))
(let* ((s (string-append "ab" "c")) (l (string->list s)) (t (string-copy s))) (set-car! l #\\z) (list s l t (list->string l)))''',
               dict(x=['1', "'a", '"s"', '#\\c', '(list 1 2)', '(vector 3 4)', "'()", '#t', '(cons 5 6)', '123456789012']), **KW))
R = diff.explore(c, G)
c.finish()
