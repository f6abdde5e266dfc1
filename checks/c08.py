"""C08: strings, characters, character sets, symbols and keywords, exhaustively over small strings, against Guile."""
import sys, itertools, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mesmc import core, build, scheme, diff
from mesmc.diff import Group

c = core.Check('C08', 'exploration')
DEEP = 4 if c.thorough else 3
def words(alpha, n):
    return ['"%s"' % ''.join(x) for k in range(n + 1) for x in itertools.product(alpha, repeat=k)]
S = words('ab ', DEEP)
S2 = words('ab', 3)
W = words('aB ', 2) + ['"A b"', '" a "', '"aBcXyZ09@[`{"', '"\\ta\\n"', '"\\n"', '"-"', '"a-b"']
N = ['0', '1', '2', '3', '4']
C = ['#\\a', '#\\b', '#\\space']
one = '''
(string-length {s})
(string->list {s})
(list->string (string->list {s}))
(string-append {s})
(string-null? {s})
(string-trim {s})
(string-trim-right {s})
(string-trim-both {s})
(string-upcase {s})
(string-downcase {s})
(string-map char-upcase {s})
(string-map (lambda (c) (if (eq? c #\\a) #\\z c)) {s})
(string-fold cons '() {s})
(string-fold-right cons '() {s})
(string-fold (lambda (c n) (+ n (if (eq? c #\\a) 1 10))) 0 {s})
(string-copy {s})
(symbol->string (string->symbol {s}))
(symbol->string (string->symbol {s}))
(symbol? (string->symbol {s}))
(string? (symbol->string (string->symbol {s})))
(eq? (string->symbol {s}) (string->symbol (string-append {s} "")))
(symbol->string (symbol-append (string->symbol {s}) 'x))
(symbol->string (symbol-append 'x (string->symbol {s}) 'y))
(symbol->string (keyword->symbol (symbol->keyword (string->symbol {s}))))
(eq? (symbol->keyword (string->symbol {s})) (symbol->keyword (string->symbol {s})))
(keyword? (symbol->keyword (string->symbol {s})))
(string? {s})
(symbol? {s})
(reverse-list->string (string->list {s}))
(string-tokenize {s} char-set:lower-case)
(string-tokenize {s} (char-set #\\a))
(string-tokenize {s} (char-set-complement (char-set #\\a)))
(string-tokenize {s} (char-set #\\a #\\b))
(string-delete (lambda (x) (eq? x #\\a)) {s})
(string-index {s} char-whitespace?)
(string-index {s} char-alphabetic?)
(string-rindex {s} char-whitespace?)
(string-split {s} #\\a)
(string-split {s} #\\space)
(string-join (string-split {s} #\\a))
(string-join (string-split {s} #\\a) "a")
(string-join (string-split {s} #\\space) "" )
(string-take {s} 0)
(string-drop {s} 0)
(string-drop-right {s} 0)
(string-take {s} (string-length {s}))
(string-drop {s} (string-length {s}))
(string-drop-right {s} (string-length {s}))
(let ((s {s})) (string-upcase s) (string-append s "x") (string-trim-both s) (string-split s #\\a) (string-map char-upcase s) (string->symbol s) (list s (string-length s)))
(let* ((s {s}) (l (string->list s))) (if (pair? l) (set-car! l #\\z)) (list s l))
(let* ((l (string->list {s})) (s (list->string l))) (if (pair? l) (set-car! l #\\z)) (list s l))
(length (string->list {s}))
(equal? {s} (string-copy {s}))
(string=? {s} (list->string (reverse (reverse (string->list {s})))))
(apply string (string->list {s}))
(map char->integer (string->list {s}))
(apply string-append (map string (string->list {s})))
(apply string-append (map (lambda (c) (string c c)) (string->list {s})))
(string->number {s})
(with-output-to-string (lambda () (write {s})))
(with-output-to-string (lambda () (display {s})))
(string->list (with-output-to-string (lambda () (display {s}))))
(string-append {s} {s} {s} {s})
'''
idx = '''
(and (<= {n} (string-length {s})) (string-take {s} {n}))
(and (<= {n} (string-length {s})) (string-drop {s} {n}))
(and (<= {n} (string-length {s})) (string-drop-right {s} {n}))
(and (< {n} (string-length {s})) (string-ref {s} {n}))
(and (<= {n} (string-length {s})) (substring {s} {n}))
(and (<= {n} (string-length {s})) (string-append (string-take {s} {n}) (string-drop {s} {n})))
(and (<= {n} (string-length {s})) (string-replace {s} "XY" {n}))
(and (<= {n} {m} (string-length {s})) (substring {s} {n} {m}))
(and (<= {n} {m} (string-length {s})) (substring/copy {s} {n} {m}))
(and (<= {n} {m} (string-length {s})) (substring/shared {s} {n} {m}))
(and (<= {n} {m} (string-length {s})) (string-replace {s} "XY" {n} {m}))
(and (<= {n} {m} (string-length {s})) (string-replace {s} "" {n} {m}))
(and (<= {n} {m} (string-length {s})) (string= {s} "ab" {n} {m}))
(and (<= {n} {m} (string-length {s})) (string= "ab" {s} 0 2 {n} {m}))
(and (<= {n} {m} (string-length {s})) (string-length (substring {s} {n} {m})))
(and (<= {n} (string-length {s})) (string= {s} "b" {n}))
(and (<= {n} (string-length {s})) (let ((s {s})) (substring s {n}) (string-take s {n}) (string-drop s {n}) (string-replace s "Q" {n}) s))
'''
two = '''
(string-append {s} {t})
(string=? {s} {t})
(string= {s} {t})
(equal? {s} {t})
(string-prefix? {s} {t})
(string-suffix? {s} {t})
(string-contains {s} {t})
(string-join (list {s} {t}))
(string-join (list {s} {t}) "-")
(string-join (list {s} {t}) "")
(string-join (list {s} {t} {s}) {t})
(string-join (list {s} {t}) "-" 'infix)
(string-join (list {s} {t}) "-" 'prefix)
(string-join (list {s} {t}) "-" 'suffix)
(string-replace {s} {t})
(eq? (string->symbol {s}) (string->symbol {t}))
(eq? (symbol->keyword (string->symbol {s})) (symbol->keyword (string->symbol {t})))
(string-append {s} {t} {s})
(apply string-append (list {s} {t} {s} {t}))
(symbol->string (symbol-append (string->symbol {s}) (string->symbol {t})))
(let ((s {s}) (t {t})) (string-append s t) (string-contains s t) (string-join (list s t)) (string-replace s t) (list s t))
(let ((a (string-append {s} {t}))) (list (string-length a) (string->list a)))
(string-contains (string-append {s} {t}) {t})
(string-prefix? {s} (string-append {s} {t}))
(string-suffix? {t} (string-append {s} {t}))
(list (string=? {s} {t}) (string=? {t} {s}))
'''
ch = '''
(string-index {s} {c})
(string-rindex {s} {c})
(string-split {s} {c})
(string-delete {c} {s})
(string-tokenize {s} (char-set {c}))
(string-tokenize {s} (char-set-complement (char-set {c})))
(string-join (string-split {s} {c}) "-")
(string-append {s} (string {c}))
(string-append (string {c}) {s})
(list->string (cons {c} (string->list {s})))
(make-string {n} {c})
(string-length (make-string {n} {c}))
(string {c} {c} {c})
(string-index {s} (lambda (x) (not (eq? x {c}))))
(string-rindex {s} (lambda (x) (not (eq? x {c}))))
(length (string-split {s} {c}))
(filter (lambda (x) (eq? x {c})) (string->list {s}))
(char-set-contains? (string->char-set {s}) {c})
(char-set-contains? (list->char-set (string->list {s})) {c})
(char-set-contains? (char-set-adjoin (string->char-set {s}) #\\b) {c})
(char-set-contains? (char-set-complement (string->char-set {s})) {c})
(char-set-contains? (char-set-copy (string->char-set {s})) {c})
(char-set-contains? (string->char-set {s} (char-set #\\a)) {c})
(char-set? (string->char-set {s}))
'''
cased = '''
(string-upcase {w})
(string-downcase {w})
(string-upcase (string-downcase {w}))
(string-trim {w})
(string-trim-right {w})
(string-trim-both {w})
(string=? {w} (string-upcase {w}))
(symbol->string (string->symbol {w}))
(string->list {w})
(string-index {w} char-numeric?)
(string-index {w} char-alphabetic?)
(string-index {w} char-whitespace?)
(string-tokenize {w} char-set:upper-case)
(string-tokenize {w} char-set:lower-case)
(map char-upcase (string->list {w}))
(map char-downcase (string->list {w}))
'''
# all byte values, as numbers
I = [str(i) for i in range(256)]
A = [str(i) for i in range(128)]
chars = '''
(char->integer (integer->char {i}))
(char? (integer->char {i}))
(eqv? (integer->char {i}) (integer->char {i}))
(char=? (integer->char {i}) (integer->char {i}))
(char->integer (string-ref (string (integer->char {i})) 0))
'''
asciis = '''
(char->integer (char-upcase (integer->char {i})))
(char->integer (char-downcase (integer->char {i})))
(char-alphabetic? (integer->char {i}))
(char-numeric? (integer->char {i}))
(and (char-whitespace? (integer->char {i})) #t)
(char-set-contains? char-set:whitespace (integer->char {i}))
(char-set-contains? char-set:digit (integer->char {i}))
(char-set-contains? char-set:lower-case (integer->char {i}))
(char-set-contains? char-set:upper-case (integer->char {i}))
(char-set-contains? (char-set-complement char-set:digit) (integer->char {i}))
(char-set-contains? (char-set-complement (char-set #\\a)) (integer->char {i}))
(map char->integer (string->list (string-upcase (string #\\a (integer->char {i})))))
'''
bytes_ = '''
(map char->integer (string->list (string (integer->char {i}))))
(map char->integer (string->list (make-string 3 (integer->char {i}))))
(map char->integer (string->list (string-append "a" (string (integer->char {i})) "b")))
(string-length (string (integer->char {i}) #\\a))
(string-index (string #\\a (integer->char {i}) #\\b) (integer->char {i}))
(string-rindex (string #\\a (integer->char {i}) #\\b) (integer->char {i}))
(map char->integer (string->list (substring (string #\\a (integer->char {i}) #\\b) 1 2)))
(string=? (string (integer->char {i})) (make-string 1 (integer->char {i})))
(string=? (string (integer->char {i})) "a")
(eq? (string->symbol (string (integer->char {i}))) (string->symbol (string (integer->char {i}))))
(eq? (string->symbol (string (integer->char {i}))) 'a)
(map char->integer (string->list (symbol->string (string->symbol (string #\\x (integer->char {i}) #\\y)))))
(map char->integer (string->list (symbol->string (symbol-append 'a (string->symbol (string (integer->char {i})))))))
(map char->integer (string->list (string-drop (string (integer->char {i}) #\\a (integer->char {i})) 1)))
(map char->integer (string->list (string-join (list "a" (string (integer->char {i})) "") "/")))
(length (string-split (string #\\a (integer->char {i}) #\\a) (integer->char {i})))
(string-contains (string #\\a (integer->char {i}) #\\b) (string (integer->char {i}) #\\b))
(string-prefix? (string #\\a (integer->char {i})) (string #\\a (integer->char {i}) #\\b))
(string-suffix? (string (integer->char {i}) #\\b) (string #\\a (integer->char {i}) #\\b))
(map char->integer (string->list (string-copy (string #\\a (integer->char {i})))))
(equal? (string #\\a (integer->char {i})) (string #\\a (integer->char {i})))
(map char->integer (string->list (with-output-to-string (lambda () (display (string #\\a (integer->char {i})))))))
'''
K = ['0', '7', '65', '97', '98', '127', '128', '200', '255']
charcmp = '''
(char=? (integer->char {k}) (integer->char {l}))
(char<? (integer->char {k}) (integer->char {l}))
(char>? (integer->char {k}) (integer->char {l}))
(char<=? (integer->char {k}) (integer->char {l}))
(char>=? (integer->char {k}) (integer->char {l}))
(string=? (string (integer->char {k}) (integer->char {l})) (string (integer->char {l}) (integer->char {k})))
(eqv? (integer->char {k}) (integer->char {l}))
'''
strs = '''
(string-join '())
(string-join '() "-")
(string-join '("a"))
(string-join '("a") "-")
(string-join '("a" "b" "c") ", ")
(string-join '("a" "b" "c") ", " 'suffix)
(string-join '("a" "b" "c") ", " 'prefix)
(string-join '("" "" "") "-")
(string)
(string-append)
(symbol->string 'abc)
(symbol->string 'ABC)
(symbol->string '->x)
(list->string '())
(string->list "")
(symbol->keyword 'foo)
(keyword->symbol #:foo)
(eq? #:foo (symbol->keyword 'foo))
(string-length (make-string 1000 #\\a))
(string-length (apply string-append (map (lambda (x) "abc") (iota 300))))
(string-index (string-append (make-string 500 #\\a) "b") #\\b)
(string-length (symbol->string (string->symbol (make-string 200 #\\x))))
(string=? (make-string 300 #\\a) (make-string 301 #\\a))
(string=? (make-string 300 #\\a) (make-string 300 #\\a))
(char->integer (string-ref (make-string 300 #\\a) 299))
(string-length (substring (make-string 300 #\\a) 10 290))
'''
MP = '(mes-use-module (srfi srfi-13)) (mes-use-module (srfi srfi-14)) (mes-use-module (mes guile))'
GP = '(use-modules (srfi srfi-13) (srfi srfi-14) (srfi srfi-1))'
kw = dict(mes_prelude=MP, guile_prelude=GP)
G = [Group('one string', one, dict(s=S), **kw),
     Group('string and indices', idx, dict(s=S, n=N, m=N), **kw),
     Group('two strings', two, dict(s=S, t=S2 if not c.thorough else S), **kw),
     Group('string and character', ch, dict(s=S, c=C, n=N), **kw),
     Group('upper and lower case', cased, dict(w=W), **kw),
     Group('characters', chars, dict(i=I), **kw),
     Group('ASCII characters', asciis, dict(i=A), **kw),
     Group('bytes in strings', bytes_, dict(i=I), **kw),
     Group('comparing characters', charcmp, dict(k=K, l=K), **kw),
     Group('edge cases', strs, {}, **kw)]
diff.explore(c, G)
c.finish()
