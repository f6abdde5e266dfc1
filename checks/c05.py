"""C05: integer arithmetic, exhaustively over all small operands and all pairs of boundary values, against
Guile's exact integers. A case is in scope when the exact result fits the machine word."""
import sys, itertools, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mesmc import core, build, scheme, diff
from mesmc.diff import Group

c = core.Check('C05', 'exploration')
MAX, MIN = 2 ** 63 - 1, -2 ** 63
B = sorted(set(v for k in (0, 1, 2, 3, 4, 7, 8, 15, 16, 24, 30, 31, 32, 33, 40, 47, 48, 52, 53, 61, 62, 63)
               for s in (1, -1) for d in (-1, 0, 1) for v in [s * 2 ** k + d] if MIN <= v <= MAX)
           | {10 ** k for k in range(0, 19)} | {-10 ** k for k in (1, 5, 9, 10, 11, 18)} | {99, 999, 1234567890123456789, -987654321987654321}
           | {2 ** 31 + 2 ** 30, 0x5555555555555555, -0x5555555555555555, 0x123456789abcdef})
if c.thorough:
    B = sorted(set(B) | set(v for k in range(63) for s in (1, -1) for d in (-1, 0, 1) for v in [s * 2 ** k + d]))
Bs = [str(b) for b in B]
R = 100 if c.thorough else 32
S = [str(i) for i in range(-R, R + 1)]
SH = [str(i) for i in range(0, 64)]
T3 = ['-9', '-2', '-1', '0', '1', '2', '7', '4294967296']
INT = re.compile(rb'-?\d+')
def scope(ref):
    return b'.' not in ref and all(MIN <= int(x) <= MAX for x in INT.findall(ref)) if len(ref) < 200 else True
unary = '''
{a}
(- {a})
(+ {a})
(* {a})
(abs {a})
(zero? {a})
(positive? {a})
(negative? {a})
(even? {a})
(odd? {a})
(1+ {a})
(1- {a})
(lognot {a})
(logand {a})
(logior {a})
(logxor {a})
(number? {a})
(integer? {a})
(= {a})
(< {a})
(> {a})
(<= {a})
(>= {a})
(min {a})
(max {a})
(list {a} '{a} (vector {a}) (cons {a} {a}))
(= {a} (string->number "{a}"))
(eqv? {a} (string->number (number->string {a})))
(number->string {a})
(string->number "{a}")
(string-append (number->string {a}) "!")
(object->string {a})
(with-output-to-string (lambda () (display {a})))
(with-output-to-string (lambda () (write (list {a} {a}))))
(inexact->exact {a})
(let ((v (vector {a} 0))) (list (vector-ref v 0) (eqv? {a} (vector-ref v 0))))
'''
numeral = '''
(number->string {a} {r})
'''
radix = '''
(string->number (number->string {a} {r}) {r})
(eqv? {a} (string->number (number->string {a} {r}) {r}))
'''
binary = '''
(+ {a} {b})
(- {a} {b})
(* {a} {b})
(and (not (= 0 {b})) (quotient {a} {b}))
(and (not (= 0 {b})) (remainder {a} {b}))
(and (not (= 0 {b})) (modulo {a} {b}))
(= {a} {b})
(< {a} {b})
(> {a} {b})
(<= {a} {b})
(>= {a} {b})
(min {a} {b})
(max {a} {b})
(logand {a} {b})
(logior {a} {b})
(logxor {a} {b})
(eqv? {a} {b})
(equal? {a} {b})
(and (not (= 0 {b})) (= {a} (+ (* {b} (quotient {a} {b})) (remainder {a} {b}))))
'''
ternary = '''
(+ {a} {b} {d})
(- {a} {b} {d})
(* {a} {b} {d})
(= {a} {b} {d})
(< {a} {b} {d})
(> {a} {b} {d})
(<= {a} {b} {d})
(>= {a} {b} {d})
(min {a} {b} {d})
(max {a} {b} {d})
(logand {a} {b} {d})
(logior {a} {b} {d})
(logxor {a} {b} {d})
(apply + {a} (list {b} {d}))
(+ {a} (* {b} {d}))
(+ {a} {b} {d} {a} {b})
(* {a} {b} {d} 1 {d})
(< {a} {b} {d} {a})
(<= {a} {b} {b} {d})
(- {a} {b} {d} {b})
'''
nullary = '''
(+)
(*)
(logand)
(logior)
(logxor)
(=)
(<)
(>)
(<=)
(>=)
'''
shift = '''
(ash {a} {s})
(ash {a} (- {s}))
'''
power = '''
(expt {a} {s})
'''
text = '''
(string->number "{t}")
(string->number "{t}" 16)
(string->number "{t}" 8)
(string->number "{t}" 2)
(string->number "{t}" 10)
'''
lit = '''
#x{h}
#x-{h}
#b{d}
#b-{d}
#o{o}
#o-{o}
'(#x{h} #b{d} #o{o})
'''
TX = [''.join(x) for n in range(5 if c.thorough else 4) for x in itertools.product('+-019afAg', repeat=n)]
HX = ['0', '1', '9', 'a', 'f', 'A', 'F', '10', 'ff', 'FF', 'aB', '1f', 'f1', 'deadbeef', 'DEADBEEF', '7fffffff', '80000000', 'ffffffff',
      '100000000', '123456789abcdef', 'fedcba987654321', '7fffffffffffffff', '00ff', '0a0b']
M = dict(mes_prelude='(mes-use-module (mes guile))')
G = [Group('unary, small', unary, dict(a=S), scope=scope, **M),
     Group('unary, boundary', unary, dict(a=Bs), scope=scope, **M),
     Group('numerals, small', numeral, dict(a=S, r=[str(i) for i in range(2, 37)])),
     Group('numerals, boundary', numeral, dict(a=Bs, r=['2', '8', '10', '16', '36'])),
     Group('radix, small', radix, dict(a=S, r=[str(i) for i in range(2, 11)] + ['16'])),
     Group('radix, boundary', radix, dict(a=Bs, r=['2', '3', '8', '10', '16'])),
     Group('binary, small', binary, dict(a=S, b=S)),
     Group('binary, boundary', binary, dict(a=Bs, b=Bs), scope=scope),
     Group('binary, mixed', binary, dict(a=Bs, b=['-7', '-3', '-2', '-1', '0', '1', '2', '3', '7', '10', '16']), scope=scope),
     Group('ternary', ternary, dict(a=T3, b=T3, d=T3), scope=scope),
     Group('nullary', nullary),
     Group('shifts', shift, dict(a=Bs, s=SH), scope=scope),
     Group('powers', power, dict(a=['-3', '-2', '-1', '0', '1', '2', '3', '7', '10'], s=SH), scope=scope),
     Group('strings', text, dict(t=TX), scope=scope),
     Group('literals', lit, dict(h=HX, d=['0', '1', '10', '1011', '00101', '1' * 31, '1' * 32, '1' + '0' * 32, '1' * 63],
                                 o=['0', '7', '17', '755', '0123', '37777777777', '40000000000', '777777777777777777777']))]
diff.explore(c, G)
c.finish()
