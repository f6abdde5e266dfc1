"""The programs of C01. Each prepares before the first (gc-stats) and is explored up to the second."""
PRELUDE = r'''
(cond-expand (guile (use-modules (srfi srfi-1) (srfi srfi-9) (srfi srfi-13) (ice-9 optargs)))
 (else (mes-use-module (srfi srfi-1)) (mes-use-module (srfi srfi-9)) (mes-use-module (srfi srfi-13)) (mes-use-module (mes optargs)) (mes-use-module (mes guile)) (mes-use-module (srfi srfi-26))))
(define %r '())
(define (p x) (set! %r (cons x %r)))
(define (%end) (for-each (lambda (x) (write x) (newline)) (reverse %r)))
'''
M = r'''
(define-record-type pt (make-pt x y) pt? (x pt-x set-pt-x!) (y pt-y))
(define %out #f)
(define (%churn) (let loop ((i 0)) (if (< i 1) (begin (list i (string-append "q" "r") (vector i)) (loop (+ i 1))))))
'''
KINDS = [   # name, an expression that makes it, a procedure that shows what it holds
 ('pair', "(list 1 (list 2 (cons 3 4)))", "(lambda (x) x)"),
 ('circular list', "(let ((l (list 1 2 3))) (set-cdr! (cddr l) l) l)", "(lambda (x) (list (car x) (list-ref x 4)))"),
 ('string', '(string-append "ab" "cd")', "(lambda (x) x)"),
 ('empty string', '(string-append "" "")', "(lambda (x) x)"),
 ('string with nul', "(list->string (list #\\a (integer->char 0) #\\b))", "(lambda (x) (map char->integer (string->list x)))"),
 ('long string', "(make-string 300 #\\q)", "(lambda (x) (list (string-length x) (string-ref x 0) (string-ref x 299) (equal? x %long)))"),
 ('symbol', '(string->symbol (string-append "sy" "m"))', "(lambda (x) (list x (eq? x 'sym)))"),
 ('new symbol', '(string->symbol (string-append "fresh-" (number->string 77)))', '(lambda (x) (list x (eq? x (string->symbol "fresh-77"))))'),
 ('number', "(* 1000000 1000003)", "(lambda (x) (+ x 1))"),
 ('char', "(integer->char 200)", "(lambda (x) (char->integer x))"),
 ('vector', '(vector 1 "s" (list (quote a)) (vector 2 #\\c))', "(lambda (x) x)"),
 ('empty vector', "(make-vector 0)", "(lambda (x) (list (vector-length x) x))"),
 ('vector in itself', "(let ((v (make-vector 3 'x))) (vector-set! v 1 v) v)", "(lambda (x) (vector-ref (vector-ref x 1) 2))"),
 ('closure', "(let ((n 41)) (lambda (y) (set! n (+ n 1)) (+ n y)))", "(lambda (x) (let* ((a (x 1)) (b (x 1))) (list a b)))"),
 ('builtin', "car", "(lambda (x) (x '(1 2)))"),
 ('continuation', "(call/cc (lambda (ret) (let ((v (call/cc (lambda (k) (ret k))))) (%out v))))", "(lambda (x) (call/cc (lambda (o) (set! %out o) (x (list 'v 1)))))"),
 ('multiple values', "(values 1 (list 2) 3)", "(lambda (x) (call-with-values (lambda () x) list))"),
 ('hash table', "(let ((h (make-hash-table 11))) (hashq-set! h 'a \"v\") (hash-set! h \"k\" 2) h)", "(lambda (x) (list (hashq-ref x 'a #f) (hash-ref x \"k\" #f) (hashq-ref x 'b 'none)))"),
 ('record', '(make-pt 1 (string-append "y" "z"))', "(lambda (x) (list (pt? x) (pt-x x) (pt-y x)))"),
 ('keyword', "(symbol->keyword (string->symbol \"kz\"))", "(lambda (x) (list x (keyword->symbol x)))"),
 ('string port', '(open-input-string (string-append "xyz" ""))', "(lambda (x) (let* ((o (set-current-input-port x)) (a (read-char)) (b (peek-char)) (c (read-char))) (set-current-input-port o) (list a b c)))"),
 ('fluid', "(make-fluid (list 5))", "(lambda (x) (fluid-ref x))"),
 ('quoted data', "'(a (b . \"c\") #(1 2))", "(lambda (x) x)"),
 ('procedure from eval', "(eval '(lambda (z) (list z 'e)) (current-module))", "(lambda (x) (x 3))"),
 ('shared structure', "(let ((s (list 'q))) (vector s s (list s)))", "(lambda (x) (set-car! (vector-ref x 0) 'w) (list x (eq? (vector-ref x 0) (vector-ref x 1)) (eq? (vector-ref x 0) (car (vector-ref x 2)))))"),
]
HOLDERS = [ # name, text: @M makes, (@S v) shows
 ('a top-level variable', "(set! %g @M) (%churn) (p (@S %g))"),
 ('a local variable', "(let ((x @M)) (%churn) (p (@S x)))"),
 ('an argument while the next is evaluated', "(p ((lambda (a b) (@S a)) @M (%churn)))"),
 ('an argument while an earlier is evaluated', "(p ((lambda (b a) (@S a)) (%churn) @M))"),
 ('a variable of a closure', "(let ((f (let ((y @M)) (lambda () y)))) (%churn) (p (@S (f))))"),
 ('a list', "(let ((l (list 0 @M))) (%churn) (p (@S (cadr l))))"),
 ('a vector', "(let ((v (vector 0 @M 1))) (%churn) (p (@S (vector-ref v 1))))"),
 ('a vector it is stored in later', "(let ((v (make-vector 3 0)) (x @M)) (%churn) (vector-set! v 2 x) (set! x 0) (%churn) (p (@S (vector-ref v 2))))"),
 ('a hash table', "(let ((h (make-hash-table 11))) (hashq-set! h 'key @M) (%churn) (p (@S (hashq-ref h 'key #f))))"),
 ('a list made of a vector', "(let ((l (vector->list (vector 0 @M 1)))) (%churn) (p (@S (cadr l))))"),
 ('a record', "(let ((r (make-pt @M 0))) (%churn) (p (@S (pt-x r))))"),
 ('the stack of a continuation', "(let ((k #f) (n 0)) (let ((x @M)) (call/cc (lambda (c) (set! k c))) (%churn) (p (@S x)) (set! n (+ n 1)) (if (< n 2) (k 0))))"),
 ('rest arguments', "((lambda l (%churn) (p (@S (car l)))) @M)"),
 ('an exception', "(catch 'k (lambda () (throw 'k @M)) (lambda (key v) (%churn) (p (@S v))))"),
 ('multiple values', "(call-with-values (lambda () (values @M 1)) (lambda (v w) (%churn) (p (@S v))))"),
 ('an assigned variable', "(let ((x 0)) (set! x @M) (%churn) (p (@S x)))"),
 ('a fluid', "(let ((f (make-fluid))) (fluid-set! f @M) (%churn) (p (@S (fluid-ref f))))"),
 ('an internal definition', "((lambda () (define x @M) (%churn) (p (@S x))))"),
 ('applied arguments', "(apply (lambda (v . r) (%churn) (p (@S v))) (list @M 2))"),
 ('a list set-cdr! extends', "(let ((l (list 0))) (set-cdr! l (list @M)) (%churn) (p (@S (cadr l))))"),
 ('the list map builds', "(p (@S (cadr (map (lambda (i) (%churn) @M) '(1 2)))))"),
 ('the body of a catch', "(p (@S (catch #t (lambda () (let ((x @M)) (%churn) x)) list)))"),
]
def product_program(holder, kinds):
    h = holder[1]
    body = '\n'.join('(set! %%r (cons "%s" %%r)) %s' % (n, h.replace('@M', m).replace('@S', s)) for n, m, s in kinds)
    return PRELUDE + M + '(define %%long (make-string 300 #\\q)) (define %%g 0)\n(gc-stats)\n%s\n(gc-stats)\n(%%end)\n(write (map (lambda (i) (* i i)) (iota 5)))\n' % body

P = []
def prog(name, text, pre='', guile=True, raw=False):
    P.append((name, PRELUDE + pre + '\n(gc-stats)\n' + text + '\n(gc-stats)\n(%end)\n(write (map (lambda (i) (list i (number->string i))) (iota 3)))\n', guile))

prog('fib and named let', "(define (fib n) (if (< n 2) n (+ (fib (- n 1)) (fib (- n 2))))) (p (fib 5)) (p (let loop ((i 0) (l '())) (if (= i 6) (reverse l) (loop (+ i 1) (cons (* i i) l)))))")
prog('tak, deep recursion', "(define (count n) (if (= n 0) 0 (+ 1 (count (- n 1))))) (p (count 40)) (define (build n) (if (= n 0) '() (cons n (build (- n 1))))) (p (build 12))")
prog('mutual recursion', "(define (ev? n) (if (= n 0) #t (od? (- n 1)))) (define (od? n) (if (= n 0) #f (ev? (- n 1)))) (p (list (ev? 9) (od? 9))) (letrec ((e (lambda (n) (if (= n 0) 'e (o (- n 1))))) (o (lambda (n) (if (= n 0) 'o (e (- n 1)))))) (p (e 7)))")
prog('strings', "(define s \"abc\") (p (string-append s (string-append \"d\" s) \"\")) (p (list->string (reverse (string->list s)))) (p (map string->symbol (list \"a\" \"b\" \"a\"))) (p (string-join (list \"x\" \"y\" \"z\") \"-\")) (p (substring \"hello\" 1 3)) (p (string->number \"-17\"))")
prog('symbols are interned once', "(define a (string->symbol \"new-one\")) (define l (map (lambda (i) (string->symbol (string-append \"g\" (number->string i)))) (iota 6))) (p l) (p (map (lambda (i s) (eq? s (string->symbol (string-append \"g\" (number->string i))))) (iota 6) l)) (p (eq? a (string->symbol \"new-one\"))) (p (eq? a 'new-one))")
prog('vectors', "(define v (make-vector 4 '())) (let loop ((i 0)) (if (< i 4) (begin (vector-set! v i (list i (make-vector i i))) (loop (+ i 1))))) (p v) (p (vector->list v)) (p (list->vector (list 1 v))) (p (vector-length v))")
prog('hash tables', "(define h (make-hash-table 11)) (for-each (lambda (i) (hashq-set! h (string->symbol (string-append \"k\" (number->string i))) (list i))) (iota 8)) (hashq-set! h 'k3 'three) (p (map (lambda (i) (hashq-ref h (string->symbol (string-append \"k\" (number->string i))) #f)) (iota 9)))")
prog('string hash tables', "(define h (make-hash-table 11)) (for-each (lambda (i) (hash-set! h (number->string i) (* i i))) (iota 8)) (hash-set! h \"3\" 'three) (p (map (lambda (i) (hash-ref h (number->string i) #f)) (iota 9)))")
prog('records', "(define-record-type node (make-node l v r) node? (l node-l set-l!) (v node-v) (r node-r set-r!)) (define (ins t x) (cond ((not t) (make-node #f x #f)) ((< x (node-v t)) (make-node (ins (node-l t) x) (node-v t) (node-r t))) (else (make-node (node-l t) (node-v t) (ins (node-r t) x))))) (define (walk t) (if t (append (walk (node-l t)) (list (node-v t)) (walk (node-r t))) '())) (p (walk (fold (lambda (x t) (ins t x)) #f '(4 2 6 1 3)))) (let ((n (make-node 1 2 3))) (set-l! n (list 'x)) (p (node-l n)))")
prog('continuations re-entered', "(let ((k #f) (n 0) (out '())) (let ((v (call/cc (lambda (c) (set! k c) 0)))) (set! out (cons v out)) (set! n (+ n 1)) (if (< n 4) (k (list n))) (p (list n out))))")
prog('generator of continuations', "(define (gen l) (define ret #f) (define (g) (call/cc (lambda (r) (set! ret r) (for-each (lambda (x) (call/cc (lambda (next) (set! g (lambda () (next #f))) (ret x)))) l) (ret 'done)))) (lambda () (call/cc (lambda (r) (set! ret r) (g))))) (define g (gen '(1 2 3))) (let* ((a (g)) (b (g)) (c (g)) (d (g))) (p (list a b c d)))")
prog('catch and throw', "(define (f n) (if (= n 0) (throw 'deep (list 1 2)) (+ 1 (f (- n 1))))) (p (catch 'deep (lambda () (f 5)) (lambda (k v) (list k v)))) (p (catch #t (lambda () (catch 'other (lambda () (f 2)) list)) (lambda (k . a) (cons k a)))) (p (catch 'x (lambda () (catch 'y (lambda () (throw 'x \"m\")) list)) (lambda (k m) (string-append m \"!\"))))")
prog('values', "(call-with-values (lambda () (values 1 (list 2) \"3\")) (lambda (a b c) (p (list a b c)))) (receive (a . r) (values 1 2 3) (p (list a r))) (p (call-with-values (lambda () (values)) list))", pre="(cond-expand (guile (use-modules (srfi srfi-8))) (else (mes-use-module (srfi srfi-8))))")
prog('string ports', "(p (with-output-to-string (lambda () (write '(a \"b\" #\\c)) (display 12)))) (p (with-input-from-string \"(x . y) 12 foo\" (lambda () (let* ((a (read)) (b (read)) (c (read))) (list a b c)))))")
prog('read', "(p (with-input-from-string \"(define (f x) `(,x ,@(list 1 2) #(1 #\\\\a \\\"s\\\" #t) . z)) ; comment\\n\" read))")
prog('quasiquote', "(define x (list 1 2)) (p `(a ,(car x) ,@x b)) (p `(,@x . c)) (p `#(1 ,(+ 1 1))) (p (quasiquote (q (unquote (map (lambda (i) `(i ,i)) x)))))")
prog('define-macro', "(define-macro (swap! a b) `(let ((tmp ,a)) (set! ,a ,b) (set! ,b tmp))) (define u 1) (define w (list 2)) (swap! u w) (p (list u w)) (define-macro (my-list . l) `(list ,@(map (lambda (x) `(cons ',x ,x)) l))) (define z 5) (p (my-list z u))")
prog('syntax-rules', pre="(cond-expand (guile #t) (else (mes-use-module (mes syntax))))", text="(define-syntax my-or (syntax-rules () ((_) #f) ((_ e) e) ((_ e r ...) (let ((t e)) (if t t (my-or r ...)))))) (define tt 5) (p (my-or #f (memq 'z '(a)) tt)) (define-syntax while (syntax-rules () ((_ c b ...) (let lp () (if c (begin b ... (lp)) 'done))))) (define i 0) (p (while (< i 3) (set! i (+ i 1)))) (p i)")
prog('apply, map, for-each', "(p (apply + 1 2 (list 3 4))) (p (map (lambda (x y) (list x y)) '(1 2 3) '(a b c))) (define acc '()) (for-each (lambda (x) (set! acc (cons x acc))) '(1 2 3)) (p acc) (p (apply map list '((1 2) (3 4))))")
prog('assigned captured variables', "(define (counter) (let ((n 0)) (list (lambda () (set! n (+ n 1)) n) (lambda () n)))) (define a (counter)) (define b (counter)) ((car a)) ((car a)) ((car b)) (p (list ((cadr a)) ((cadr b))))")
prog('many definitions', '\n'.join("(define v%d (list %d \"%d\"))" % (i, i, i) for i in range(12)) + "(p (list v0 v5 v11))")
prog('internal definitions', "(define (f x) (define a (list x)) (define (g y) (cons y a)) (define b (g 2)) (list a b (g 3))) (p (f 1)) (p (f 'z))")
prog('do loops', "(p (do ((i 0 (+ i 1)) (s '() (cons (list i) s))) ((= i 5) s))) (p (let ((v (make-vector 3))) (do ((i 0 (+ i 1))) ((= i 3) v) (vector-set! v i (* i 2)))))")
prog('case, cond, and, or', "(define (f x) (case x ((1 2) (list 'low x)) ((a) 'sym) (else (list 'other x)))) (p (map f (list 1 2 3 'a))) (p (cond ((assv 2 '((1 . a) (2 . b))) => cdr) (else 'no))) (p (list (and 1 (list 2) 3) (or #f (list 4))))")
prog('set-car! and set-cdr!', "(define l (list 1 2 3)) (set-car! (cdr l) (list 'x l)) (p (eq? l (cadr (cadr l)))) (set-cdr! (cddr l) (list 4)) (set-car! (cdr l) 0) (p l) (define q (cons 0 '())) (define e q) (for-each (lambda (i) (set-cdr! e (list i)) (set! e (cdr e))) (iota 5)) (p q)")
prog('association lists', "(define al '()) (for-each (lambda (i) (set! al (acons i (list i i) al))) (iota 5)) (p al) (p (assoc 3 al)) (set! al (assoc-set! al 2 'two)) (p al) (p (assq-ref '((a . 1)) 'a))")
prog('append and reverse', "(define a (list 1 2)) (define b (list 3)) (p (append a b (list 4 5) '())) (p (reverse (list 1 2 3))) (p (reverse! (list 1 2 3))) (p a)")
prog('srfi-1', "(p (fold cons '() '(1 2 3))) (p (filter odd? (iota 7))) (p (append-map (lambda (x) (list x x)) '(1 2))) (p (delete-duplicates '(1 2 1 3))) (p (find even? '(1 2 3))) (p (fold-right list 'z '(1 2)))")
prog('merge sort', "(define (merge a b) (cond ((null? a) b) ((null? b) a) ((< (car b) (car a)) (cons (car b) (merge a (cdr b)))) (else (cons (car a) (merge (cdr a) b))))) (define (msort l) (if (or (null? l) (null? (cdr l))) l (let ((h (quotient (length l) 2))) (merge (msort (list-head l h)) (msort (list-tail l h)))))) (p (msort (list 5 3 9 1 7)))")
prog('optional and keyword arguments', "(define* (f a #:optional (b (list a)) #:key (c 3)) (list a b c)) (p (f 1)) (p (f 1 2)) (p (f 1 2 #:c (list 9))) (define* (g #:key x y) (list x y)) (p (g #:y 1))")
prog('fluids', "(define f (make-fluid)) (fluid-set! f (list 1)) (p (fluid-ref f)) (with-fluids ((f (list 2))) (p (fluid-ref f))) (p (fluid-ref f))")
prog('dynamic-wind', "(define o '()) (define (t x) (set! o (cons x o))) (dynamic-wind (lambda () (t 'in)) (lambda () (t (list 'body))) (lambda () (t 'out))) (p o)")
prog('eval', "(p (eval '(let ((x 1)) (list x (+ x 1))) (current-module))) (define e (list 'lambda '(x) (list '* 'x 'x))) (p ((eval e (current-module)) 7)) (p (map (lambda (i) (eval (list '+ i 1) (current-module))) '(1 2 3)))")
prog('match', "(define (ev e) (match e ((? number? n) n) (('+ a b) (+ (ev a) (ev b))) (_ (list 'no e)))) (p (ev '(+ 1 (+ 2 3))))", pre="(cond-expand (guile (use-modules (ice-9 match))) (else (mes-use-module (mes match))))")
prog('pmatch', "(define (ev e) (pmatch e (,n (guard (number? n)) n) ((plus ,a ,b) (+ (ev a) (ev b))) ((neg . ,r) (- (ev (car r)))) (else (list 'no e)))) (p (ev '(plus 1 (neg (plus 2 3))))) (p (ev 'q))", pre="(cond-expand (guile (use-modules (system base pmatch))) (else (mes-use-module (mes pmatch))))")
prog('string building', "(define s (let loop ((i 0) (s \"\")) (if (= i 12) s (loop (+ i 1) (string-append s (make-string i (integer->char (+ 97 i)))))))) (p s) (p (string-length s)) (p (list (string-index s #\\d) (string-contains s \"ghh\")))")
prog('long strings', "(define a (let loop ((i 0) (s \"abcd\")) (if (= i 8) s (loop (+ i 1) (string-append s s))))) (define b (string-append a \"b\" a)) (p (string-length b)) (p (string-ref b 1024)) (p (string=? a (string-append a \"\"))) (p (eq? (string->symbol b) (string->symbol (string-append a \"b\" a))))")
prog('numbers', "(p (map (lambda (i) (expt 3 i)) (iota 20))) (p (number->string 255 16)) (p (list (quotient -7 2) (remainder -7 2) (modulo -7 2)))")
prog('files', "(with-output-to-file \"f.out\" (lambda () (write '(1 \"two\" three)) (newline) (display \"rest\"))) (p (with-input-from-file \"f.out\" (lambda () (let* ((a (read)) (b (read-char)) (c (read))) (list a b c)))))")
prog('load', "(load \"l.scm\") (p (list lx (lf 4)))", pre="(with-output-to-file \"l.scm\" (lambda () (write '(define lx (list 1 2 3))) (write '(define (lf x) (let ((y (* x x))) (list x y))))))")
prog('closures in data', "(define ops (map (lambda (n) (lambda (x) (+ x n))) (iota 5))) (p (map (lambda (f) (f 10)) ops)) (define (compose2 f g) (lambda (x) (f (g x)))) (p ((compose2 (car ops) (compose2 (list-ref ops 2) (list-ref ops 4))) 1))")
prog('delayed', "(define (str n) (cons n (lambda () (str (+ n 1))))) (define (take* s n) (if (= n 0) '() (cons (car s) (take* ((cdr s)) (- n 1))))) (p (take* (str 3) 6))")
prog('keywords', "(p (map keyword->symbol (list #:a #:bc))) (p (list #:x (eq? #:x #:x) (keyword? #:y) (symbol->keyword 'z)))")
prog('write of everything', "(p (list 1 -2 #\\a #\\space \"q\\\"\\\\\" 'sym #t #f '() (vector 1 (list 2)) (cons 1 2) '(quote x))) (p (let ((o (with-output-to-string (lambda () (display (list \"a\" #\\b 'c)))))) o))")
prog('an error caught', "(p (catch #t (lambda () (car 5)) (lambda (k . a) 'caught))) (p (catch #t (lambda () (undefined-variable-here)) (lambda (k . a) 'unbound))) (p (catch #t (lambda () (error \"boom\" 1 2)) (lambda (k . a) 'error)))")
prog('list-ref of shared tails', "(define t (list 7 8 9)) (define a (cons 1 t)) (define b (cons 2 t)) (set-car! t 'z) (p (list a b (eq? (cdr a) (cdr b)) (eq? t (cdr a))))")
# these allocate much more than they keep: for the interpreter's own choice of when to collect
W = "(define (mk n) (if (= n 0) '() (cons (list n (vector n)) (mk (- n 1)))))"
prog('work: lists', W + "(define keep (mk 50)) (define (work n) (if (> n 0) (begin (mk 30) (work (- n 1))))) (work 40) (p keep)")
prog('work: strings and symbols', "(define (w n acc) (if (= n 0) acc (w (- n 1) (cons (string->symbol (string-append \"s\" (number->string (remainder n 17)))) (if (> (length acc) 20) '() acc))))) (p (w 150 '()))")
prog('work: vectors and hash tables', "(define h (make-hash-table 11)) (define (w n) (if (> n 0) (begin (hashq-set! h (string->symbol (number->string (remainder n 13))) (make-vector 40 n)) (w (- n 1))))) (w 120) (p (map (lambda (i) (vector-ref (hashq-ref h (string->symbol (number->string i)) #f) 39)) (iota 13)))")
prog('work: continuations', "(define ks '()) (define (w n) (if (= n 0) 0 (+ 1 (begin (call/cc (lambda (k) (set! ks (if (> (length ks) 5) (list k) (cons k ks))))) (w (- n 1)))))) (p (w 40)) (define n 0) (let ((v (call/cc (lambda (k) k)))) (set! n (+ n 1)) (if (< n 5) (v v))) (p n)")
prog('work: long strings', "(define (w n s) (if (= n 0) s (w (- n 1) (let ((s (string (integer->char (+ 97 (remainder n 26)))))) (let loop ((i 0) (s s)) (if (= i 12) (string-append s \"x\") (loop (+ i 1) (string-append s s)))))))) (define a (w 30 \"\")) (p (list (string-length a) (string-ref a 0) (string-ref a 4095)))")
PROGRAMS = P
