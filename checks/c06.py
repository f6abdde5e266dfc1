"""C06: list operations and equality, exhaustively over all small lists, against Guile."""
import sys, itertools, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mesmc import core, build, scheme, diff
from mesmc.diff import Group

c = core.Check('C06', 'exploration')
DEEP = 4 if c.thorough else 3
def lists(alpha, n):
    return ["(list %s)" % ' '.join(x) if x else "'()" for k in range(n + 1) for x in itertools.product(alpha, repeat=k)]
L = lists(['1', '2', "'a"], DEEP)
M = lists(['1', '2', "'a"], 3 if not c.thorough else 3)
M2 = lists(['1', "'a"], 2)
N5 = ['0', '1', '2', '3', '4']
A = lists(["(cons 1 'x)", "(cons 'b 'y)", '(cons "s" #f)'], DEEP)
K = ['1', "'b", '"s"', "'zz", '#f']
# equality: data of every type
D = ['1', '2', '-1', '0', '"a"', '"b"', '""', "'a", "'b", "#\\a", "#\\b", "#t", "#f", "'()", "(list 1)", "(list 1 2)",
     "(cons 1 2)", "(vector 1 2)", "(vector 1 3)", "(vector)", '(list "a" (vector 1 (list 2)))', '(list "a" (vector 1 (list 3)))',
     "(string->symbol \"a\")", "(list 1 (list 2 (list 3)))", "(list 1 (list 2 (list 3)) 4)", "(string #\\a)", "#:a", "(symbol->keyword 'a)",
     "(if #f #f)", "car", "cdr", "1000000000000", "(- 1000000000000 0)", "(vector (vector (vector 1)))", "(vector (vector (vector)))",
     "(cons '() '())", "(list '())", "(list #f)", "97", "(char->integer #\\a)"]
# nested lists
X = ["'()", "1", "(list 1)"]
for _ in range(2):
    X = list(dict.fromkeys(X + ["(cons %s %s)" % p for p in itertools.product(X[:5], repeat=2)]))
X = X[:24]

one = '''
(length {l})
(reverse {l})
(append {l})
(append {l} 3)
(append {l} '() {l})
(append '() {l})
(append {l} {l} {l})

(delete 1 {l})
(delete 'a {l})
(delq 'a {l})
(delete-duplicates {l})
(delete-duplicates {l} eq?)
(delete-duplicates {l} (lambda (x y) #t))
(filter number? {l})
(remove number? {l})
(filter (lambda (x) (eqv? x 2)) {l})
(find number? {l})
(find symbol? {l})
(any number? {l})
(any (lambda (x) (and (symbol? x) (list x))) {l})
(every number? {l})
(every (lambda (x) (and (number? x) (list x))) {l})
(filter-map (lambda (x) (and (number? x) (list x))) {l})
(append-map (lambda (x) (list x x)) {l})
(append-map (lambda (x) (if (number? x) (list) (list x))) {l})
(fold cons 0 {l})
(fold list 0 {l})
(fold-right cons 0 {l})
(fold-right list 0 {l})
(list-index number? {l})
(list-index symbol? {l})
(take-while number? {l})
(take-while (lambda (x) (not (eqv? x 2))) {l})
(map list {l})
(map1 list {l})
(let ((n 0)) (map (lambda (x) (set! n (+ n 1)) (list x)) {l}) n)
(let ((a '())) (for-each (lambda (x) (set! a (cons x a))) {l}) a)
(memq 'a {l})
(memq 1 {l})
(memv 2 {l})
(member 2 {l})
(member 2 {l} eq?)
(member 1 {l} (lambda (x y) (and (number? y) (< x y))))
(apply + 1 (filter number? {l}))
(apply max 0 (filter number? {l}))
(apply list {l})
(apply list 1 2 {l})
(apply cons* 1 {l})
(list? {l})
(pair? {l})
(null? {l})
(append-reverse {l} 7)
(append-reverse {l} '(8 9))
(last-pair (cons 0 {l}))
(last (cons 0 {l}))
(list->vector {l})
(vector->list (list->vector {l}))
(unfold null? car cdr {l})
(unfold null? car cdr {l} list)
(unfold null? list cdr {l} (lambda (x) 7))

(reverse! (append {l} '()))
(iota (length {l}) 3 2)
(iota (length {l}) 3)
(iota (length {l}))
(drop-right {l} 0)
(list-tail {l} 0)
(list-head {l} 0)
(let ((l {l})) (reverse l) (append l '(1)) (map list l) (filter number? l) (delete 1 l) (delete-duplicates l) (append-reverse l 1) (fold cons '() l) l)
(let* ((l {l}) (m (append l '(9)))) (if (pair? m) (set-car! m 'z)) (list l m))
(let* ((l {l}) (m)) (if (pair? m) (set-car! m 'z)) (list l m))
(let* ((l {l}) (m (reverse l))) (if (pair? m) (set-car! m 'z)) (list l m))
(let* ((t (list 9)) (m (append {l} t))) (set-car! t 'z) m)
(let* ((m (apply list {l}))) (if (pair? m) (set-car! m 'z)) m)
(let ((x {l})) (and (pair? x) (eq? (car (list x)) x)))
(map (lambda (x) (if (number? x) (+ x 1) x)) {l})
(map car (map list {l}))
(map cdr (map list {l}))
(equal? {l} (reverse (reverse {l})))
(let loop ((l {l}) (n 0)) (if (null? l) n (loop (cdr l) (+ n 1))))
'''
idx = '''
(let ((l {l})) (and (<= {n} (length l)) (list-tail l {n})))
(let ((l {l})) (and (<= {n} (length l)) (list-head l {n})))
(let ((l {l})) (and (<= {n} (length l)) (drop-right l {n})))
(let ((l {l})) (and (< {n} (length l)) (list-ref l {n})))
(let ((l {l})) (and (< {n} (length l)) (begin (list-set! l {n} 'z) l)))
(let ((l {l})) (and (< {n} (length l)) (begin (list-cdr-set! l {n} 'z) l)))
(let ((l {l})) (and (<= {n} (length l)) (eq? (list-tail l {n}) (list-tail l {n}))))
(make-list {n} {l})

(length (make-list {n} {l}))
(iota {n} (length {l}) {n})
(iota {n} (length {l}) -2)
(vector-ref (list->vector (cons 5 {l})) (min {n} (length {l})))
'''
two = '''
(append {l} {m})
(append {l} {m} 'tail)
(append-reverse {l} {m})
(lset-union eq? {l} {m})
(lset-union (lambda (x y) (eq? (number? x) (number? y))) {l} {m})
(lset-intersection (lambda (x y) (eq? (number? x) (number? y))) {l} {m})
(lset-difference (lambda (x y) (eq? (number? x) (number? y))) {l} {m})
(lset-union eq? {l} {m} '(1 2))
(lset-intersection eq? {l} {m} '(1 2))
(lset-difference eq? {l} {m} '(1))
(lset-union eq? '(2) {l} {m})
(lset-intersection eq? {l} '(1 2) {m})
(lset-difference eq? {l} '(2) {m})
(delete-duplicates (append {l} {m}) (lambda (x y) (eq? (number? x) (number? y))))
(lset-intersection eq? {l} {m})
(lset-difference eq? {l} {m})
(map cons {l} {m})
(map list {l} {m} {l})
(map list {l} {m} {l} {m})
(map list {l} {l} {l} {m})
(map list {l} {l} {m})
(map cons* {l} {l} {m} {l})
(fold list 0 {l} {l} {m})
(fold-right list 0 {l} {l} (list-head {l} (length {l})))
(any list {l} {l} {m})
(every list {l} {l} {m})
(append-map list {l} {l} {m})
(list-index (lambda (x y z) (eq? x z)) {l} {l} {m})
(let ((a 0)) (for-each (lambda (x y z) (set! a (list x y z a))) {l} {l} {m}) a)
(fold list 0 {l} {m})
(filter-map (lambda (x y) (and (eq? x y) (list x y))) {l} {m})
(append-map list {l} {m})
(any eq? {l} {m})
(any (lambda (x y) (and (not (eq? x y)) (list x y))) {l} {m})
(every eq? {l} {m})
(every (lambda (x y) (and (not (eq? x y)) (list x y))) {l} {m})
(list-index eq? {l} {m})
(equal? {l} {m})
(equal? (list {l} 1) (list {m} 1))
(equal? (list->vector {l}) (list->vector {m}))
(equal? (vector {l} 1) (vector {m} 1))
(let ((a 0)) (for-each (lambda (x y) (set! a (list x y a))) {l} {m}) a)
(let ((a 0)) (for-each (lambda (x y z) (set! a (list x y z a))) {l} {m} {l}) a)
(eq? {l} {m})
(assq 1 (map cons {l} {m}))
(assq 'a (map cons {l} {m}))
(assv 2 (map cons {l} {m}))
(assoc 1 (map cons {l} {m}))
(acons 1 {l} {m})
(apply map list (list {l} {m}))
(apply append (list {l} {m} {l}))
(member {l} (list {m} 1 {l}))
(assoc {l} (list (cons {m} 1) (cons {l} 2)))
(assoc-ref (list (cons {m} 1) (cons {l} 2)) {l})
(delete {l} (list {m} {l} 1))
(cons* {l} {m})
(cons* 1 {l} {m})
(list {l} {m})
(let ((l {l}) (m {m})) (append l m) (map list l m) (append-reverse l m) (lset-union eq? l m) (lset-difference eq? l m) (list l m))
(let* ((m {m}) (r (append {l} m))) (eq? m (list-tail r (length {l}))))
'''
foldright = '''
(fold-right list 0 {l} (reverse {l}))
(fold-right (lambda (x y acc) (cons* x y acc)) '() {l} {l})
(fold-right list 0 {l} {l} (reverse {l}))
(fold list 0 {l} (reverse {l}) {l})
(let ((l {l})) (define (want l r) (if (null? l) r (want (cdr l) (list (car l) (car l) (car l) (car l) r)))) (let ((r (catch #t (lambda () (fold list 0 l l l l)) (lambda k 'refused)))) (or (eq? r 'refused) (equal? r (want l 0)))))
(let ((l {l})) (define (want l) (if (null? l) 0 (list (car l) (car l) (car l) (car l) (want (cdr l))))) (let ((r (catch #t (lambda () (fold-right list 0 l l l l)) (lambda k 'refused)))) (or (eq? r 'refused) (equal? r (want l)))))
'''
alist = '''
(assq {k} {a})
(assv {k} {a})
(assoc {k} {a})
(assq-ref {a} {k})
(assv-ref {a} {k})
(assoc-ref {a} {k})
(let ((a {a})) (assq-set! a {k} 7))
(let ((a {a})) (assoc-set! a {k} 7))
(let* ((a {a}) (b (assq-set! a {k} 7))) (list (assq-ref b {k}) (length b)))
(let* ((a {a}) (b (assoc-set! a {k} 7))) (list (assoc-ref b {k}) (length b)))
(let* ((a {a}) (b (acons {k} 8 a))) (list (assoc-ref b {k}) a))
(map car {a})
(and=> (assoc {k} {a}) cdr)
(and=> (assq {k} {a}) (lambda (x) (list x)))
(eq? (assq {k} {a}) (assoc {k} {a}))
'''
nest = '''
(append-map (lambda (x) (if (pair? x) (list (car x)) (list x))) (list {x} {y}))
(equal? {x} {y})
(list? {x})
(equal? (list {x} {y}) (list {y} {x}))
(member {x} (list {y} {x}))
(cons {x} {y})
(let ((p (cons {x} {y}))) (list (car p) (cdr p) (caar (list p)) (cdar (list p)) (cadr (list 1 p)) (cddr (list 1 p p))))
'''
# c[ad]+r against the tree they walk
cxr_names = [''.join(p) for n in range(2, 5) for p in itertools.product('ad', repeat=n)]
cxr_t = '\n'.join('(c%sr {t})' % n for n in cxr_names)
def tree(d, p='n'):
    return "'" + p if d == 0 else '(cons %s %s)' % (tree(d - 1, p + 'a'), tree(d - 1, p + 'd'))
eqv = '''
(eq? {d} {d})
(let ((x {d})) (eq? x x))
(let ((x {d})) (eqv? x x))
(let ((x {d})) (equal? x x))
(let ((x {d})) (length (memq x (list 'no x 1))))
(let* ((x {d}) (v (vector x))) (equal? x (vector-ref v 0)))
(let* ((x {d}) (l (list x))) (eq? x (car l)))
(let ((x {d}) (y {e})) (eqv? x y))
(let ((x {d}) (y {e})) (equal? x y))
(let ((x {d}) (y {e})) (equal? (list x) (list y)))
(let ((x {d}) (y {e})) (equal? (vector 0 x) (vector 0 y)))
(let ((x {d}) (y {e})) (and (memv y (list 'q x)) #t))
(let ((x {d}) (y {e})) (and (member y (list 'q x)) #t))
(let ((x {d}) (y {e})) (and (assoc y (list (cons 'q 1) (cons x 2))) #t))
'''
calls = '''
(let ((a '())) (map (lambda (x) (set! a (cons x a)) x) {l}) (list (length a) (length {l})))
(let ((a '())) (filter (lambda (x) (set! a (cons x a)) #t) {l}) a)
(let ((a '())) (filter-map (lambda (x) (set! a (cons x a)) x) {l}) a)
(let ((a '())) (find (lambda (x) (set! a (cons x a)) (symbol? x)) {l}) a)
(let ((a '())) (any (lambda (x) (set! a (cons x a)) (symbol? x)) {l}) a)
(let ((a '())) (every (lambda (x) (set! a (cons x a)) (number? x)) {l}) a)
(let ((a '())) (list-index (lambda (x) (set! a (cons x a)) (symbol? x)) {l}) a)
(let ((a '())) (take-while (lambda (x) (set! a (cons x a)) (number? x)) {l}) a)
(let ((a '())) (fold (lambda (x acc) (set! a (cons x a)) acc) 0 {l}) a)
(let ((a '())) (fold-right (lambda (x acc) (set! a (cons x a)) acc) 0 {l}) a)
(let ((a '())) (remove (lambda (x) (set! a (cons x a)) #f) {l}) (length a))
(let ((a '())) (for-each (lambda (x y) (set! a (cons (list x y) a))) {l} {l}) a)
'''
big = '''
(length (iota {b}))
(apply + (iota {b}))
(let ((l (iota {b}))) (equal? l (reverse (reverse l))))
(fold + 0 (iota {b}))
(fold-right + 0 (iota {b}))
(length (append (iota {b}) (iota {b})))
(length (filter even? (iota {b})))
(apply max (iota {b}))
(list-tail (iota {b}) (- {b} 2))
(list-ref (iota {b}) (- {b} 1))
(length (map + (iota {b}) (iota {b})))
(vector-length (list->vector (iota {b})))
(length (vector->list (make-vector {b} 0)))
(member (- {b} 1) (iota {b}))
(assoc-ref (map (lambda (i) (cons i (* i i))) (iota {b})) (- {b} 1))
(equal? (iota {b}) (iota {b}))
(length (delete 5 (iota {b})))
'''
S1 = dict(mes_prelude='(mes-use-module (srfi srfi-1))(mes-use-module (srfi srfi-13))(mes-use-module (mes misc))',
          guile_prelude='(use-modules (srfi srfi-1))(define map1 map)(define (list-cdr-set! l n v) (set-cdr! (list-tail l n) v))')
CORE = dict(guile_prelude='(define map1 map)')
core_one = '\n'.join(t for t in one.split('\n') if not any(w in t for w in (
    'srfi', 'list-copy', 'unfold', 'fold', 'take-while', 'list-index', '(any ', '(every ', 'find', 'remove', 'append-map',
    'filter-map', 'delete-dup', 'drop-right', 'reverse!', '(last ', 'append-reverse', 'eq?)', 'map1', '(lambda (x y)')))
G = [Group('one list', one, dict(l=L), **S1),
     Group('one list, core only', core_one, dict(l=L), **CORE),
     Group('list and index', [t for t in idx.split('\n') if 'list-cdr-set' not in t], dict(l=L, n=N5), **S1),
     Group('two lists', two, dict(l=L if not c.thorough else M, m=M), **S1),
     Group('folds of several lists', foldright, dict(l=L), **S1),
     Group('association lists', alist, dict(a=A, k=K), **S1),
     Group('nested lists', nest, dict(x=X, y=X), **S1),
     Group('c[ad]+r', cxr_t, dict(t=[tree(4)]), **CORE),
     Group('equality', eqv, dict(d=D, e=D), **S1),
     Group('order of calls', calls, dict(l=L), **S1),
     Group('longer lists', big, dict(b=['7', '50', '300', '1000']), **S1)]
diff.explore(c, G)
c.finish()
