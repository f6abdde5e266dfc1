From 5d37750ea67e7f3c573950bfc80b220cce80e10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 001/133] fix: quotient with a negative divisor

* src/math.c (divide): Divide by the magnitude of the divisor.
---
 src/math.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/math.c b/src/math.c
index 2d0a502..880a197 100644
--- a/src/math.c
+++ b/src/math.c
@@ -171,6 +171,8 @@ divide (struct scm *x)                  /*:((name . "/") (arity . n)) */
       v = i->value;
       sign_p = sign_p && v > 0 || !sign_p && v < 0;
       w = v;
+      if (v < 0)
+        w = -v;
       if (v == 0)
         error (cstring_to_symbol ("divide-by-zero"), x);
       if (u == 0)
-- 
2.43.0


From 4546107abebe3c7ea75dbd8dd00e20aa2eaa7a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 002/133] fix: modulo with a negative divisor, and of a large
 negative number

* src/math.c (modulo): The result has the sign of the divisor.  Use a
single division instead of adding the divisor until positive.
---
 src/math.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/math.c b/src/math.c
index 880a197..232392c 100644
--- a/src/math.c
+++ b/src/math.c
@@ -203,14 +203,15 @@ modulo (struct scm *a, struct scm *b)
       sign_p = 1;
       w = -v;
     }
-  while (n < 0)
-    n = n + w;
   size_t u = n;
-  if (u != 0)
-    u = u % w;
+  if (n < 0)
+    u = -n;
+  u = u % w;
+  if (u != 0 && n < 0)
+    u = w - u;
   n = u;
-  if (sign_p)
-    n = -n;
+  if (sign_p && n != 0)
+    n = n + v;
   return make_number (n);
 }
 
-- 
2.43.0


From ff6bd364f06c7e36a25f9e7b20814725fc21827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 003/133] fix: odd? of negative numbers

* mes/module/mes/scm.mes (odd?): Handle remainder -1.
---
 mes/module/mes/scm.mes | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mes/module/mes/scm.mes b/mes/module/mes/scm.mes
index dadd358..6aebd40 100644
--- a/mes/module/mes/scm.mes
+++ b/mes/module/mes/scm.mes
@@ -330,7 +330,7 @@
   (= 0 (remainder x 2)))
 
 (define (odd? x)
-  (= 1 (remainder x 2)))
+  (not (even? x)))
 
 (define (negative? x)
   (< x 0))
-- 
2.43.0


From 84727c4aee52bf3062981c3244a99974c883658e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 004/133] fix: <= and >= of more than two arguments

* mes/module/mes/scm.mes (<=, >=): Compare each pair of neighbours.
---
 mes/module/mes/scm.mes | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mes/module/mes/scm.mes b/mes/module/mes/scm.mes
index 6aebd40..63b1afe 100644
--- a/mes/module/mes/scm.mes
+++ b/mes/module/mes/scm.mes
@@ -316,12 +316,16 @@
 (define quotient /)
 
 (define (<= . rest)
-  (or (apply < rest)
-      (apply = rest)))
+  (or (null? rest)
+      (null? (cdr rest))
+      (and (not (> (car rest) (cadr rest)))
+           (apply <= (cdr rest)))))
 
 (define (>= . rest)
-  (or (apply > rest)
-      (apply = rest)))
+  (or (null? rest)
+      (null? (cdr rest))
+      (and (not (< (car rest) (cadr rest)))
+           (apply >= (cdr rest)))))
 
 (define (remainder x y)
   (- x (* (quotient x y) y)))
-- 
2.43.0


From c67926a2f03729277124c014103429ae6fceccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 005/133] fix: string-take of zero characters

* mes/module/srfi/srfi-13.mes (string-take): Return the empty string for
N zero, instead of the whole string.  This also repairs string-replace at
the start of a string.
---
 mes/module/srfi/srfi-13.mes | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mes/module/srfi/srfi-13.mes b/mes/module/srfi/srfi-13.mes
index dfd1c54..3e50e04 100644
--- a/mes/module/srfi/srfi-13.mes
+++ b/mes/module/srfi/srfi-13.mes
@@ -62,7 +62,7 @@
                         (list (list->string (list-head lst (- (length lst) (length rest)))))))))))
 
 (define (string-take s n)
-  (cond ((zero? n) s)
+  (cond ((zero? n) "")
         ((> n 0) (list->string (list-head (string->list s) n)))
         (else (error "string-take: not supported: n=" n))))
 
-- 
2.43.0


From 6423e2a22ba56ac7016e6ca7bdec4d147c3ebe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 006/133] fix: string-delete with a predicate

* mes/module/srfi/srfi-13.mes (string-delete): Delete the characters that
satisfy PRED, instead of the others.
---
 mes/module/srfi/srfi-13.mes | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mes/module/srfi/srfi-13.mes b/mes/module/srfi/srfi-13.mes
index 3e50e04..00bc06a 100644
--- a/mes/module/srfi/srfi-13.mes
+++ b/mes/module/srfi/srfi-13.mes
@@ -81,8 +81,8 @@
 
 (define (string-delete pred s)
   (let ((p (if (procedure? pred) pred
-               (lambda (c) (not (eq? pred c))))))
-    (list->string (filter p (string->list s)))))
+               (lambda (c) (eq? pred c)))))
+    (list->string (filter (negate p) (string->list s)))))
 
 (define (string-index s pred . rest)
   (let* ((start (and (pair? rest) (car rest)))
-- 
2.43.0


From 40381ec19f8f4faa947a59e66d353aec00776632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 007/133] fix: string-contains of the empty string in the empty
 string

* mes/module/srfi/srfi-13.mes (string-contains): Find an empty NEEDLE in
an empty STRING.
---
 mes/module/srfi/srfi-13.mes | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mes/module/srfi/srfi-13.mes b/mes/module/srfi/srfi-13.mes
index 00bc06a..07e8745 100644
--- a/mes/module/srfi/srfi-13.mes
+++ b/mes/module/srfi/srfi-13.mes
@@ -134,7 +134,7 @@
 (define (string-contains string needle)
   (let ((needle (string->list needle)))
     (let loop ((string (string->list string)) (i 0))
-      (and (pair? string)
+      (and (or (pair? string) (null? needle))
            (let match ((start string) (needle needle) (n i))
              (if (null? needle) i
                  (and (pair? start)
-- 
2.43.0


From cda9ae855ab612c90384d75e4a01eb5f70574328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 008/133] fix: filter-map with a shorter second list

* mes/module/srfi/srfi-1.mes (filter-map): Stop at the end of the second
list.
---
 mes/module/srfi/srfi-1.mes | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mes/module/srfi/srfi-1.mes b/mes/module/srfi/srfi-1.mes
index 8a69b7b..baf4a61 100644
--- a/mes/module/srfi/srfi-1.mes
+++ b/mes/module/srfi/srfi-1.mes
@@ -47,9 +47,10 @@
             (if r (cons r (filter-map f (cdr h)))
                 (filter-map f (cdr h))))
           (if (null? (cdr t))
-              (let ((r (f (car h) (caar t))))
-                (if r (cons r (filter-map f (cdr h) (cdar t)))
-                    (filter-map f (cdr h) (cdar t))))
+              (if (null? (car t)) '()
+                  (let ((r (f (car h) (caar t))))
+                    (if r (cons r (filter-map f (cdr h) (cdar t)))
+                        (filter-map f (cdr h) (cdar t)))))
               (error 'unsupported (cons* "filter-map 3:" f h t))))))
 
 (define (fold proc init lst1 . rest)
-- 
2.43.0


From 7708c858b1488d0d88f74378c98133f2560e9405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 009/133] fix: delete-duplicates keeps the first of equal
 elements

* mes/module/srfi/srfi-1.mes (delete-duplicates): Keep the first, as SRFI-1
and Guile do, instead of the last.  This also makes the order in which MesCC
links libraries the same on Mes and on Guile.
---
 mes/module/srfi/srfi-1.mes | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mes/module/srfi/srfi-1.mes b/mes/module/srfi/srfi-1.mes
index baf4a61..e84d87c 100644
--- a/mes/module/srfi/srfi-1.mes
+++ b/mes/module/srfi/srfi-1.mes
@@ -134,13 +134,11 @@
 (define last (compose car last-pair))
 
 (define (delete-duplicates lst . equal)
-  (let ((equal (and (pair? equal) (car equal))))
+  (let ((equal (if (pair? equal) (car equal) equal?)))
     (let loop ((lst lst))
       (if (null? lst) '()
-          (if (if equal (member (car lst) (cdr lst) equal)
-                  (member (car lst) (cdr lst)))
-              (loop (cdr lst))
-                (cons (car lst) (loop (cdr lst))))))))
+          (let ((x (car lst)))
+            (cons x (loop (remove (lambda (y) (equal x y)) (cdr lst)))))))))
 
 (include-from-path "srfi/srfi-1.scm")
 
-- 
2.43.0


From 84d68d9bd98437f415d6d5f73809729e398e4255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 010/133] fix: or captures the variable r

* mes/module/mes/base.mes (or): Evaluate the remaining expressions in a
thunk outside the scope of the helper variable.
* mes/module/mes/boot-0.scm (or): Likewise.
* mes/module/mes/boot-02.scm (or): Likewise.
* mes/module/mes/boot-03.scm (or): Likewise.
---
 mes/module/mes/base.mes    | 8 ++++----
 mes/module/mes/boot-0.scm  | 8 ++++----
 mes/module/mes/boot-02.scm | 8 ++++----
 mes/module/mes/boot-03.scm | 8 ++++----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/mes/module/mes/base.mes b/mes/module/mes/base.mes
index 027a434..68eb557 100644
--- a/mes/module/mes/base.mes
+++ b/mes/module/mes/base.mes
@@ -83,10 +83,10 @@
 (define-macro (or . x)
   (if (null? x) #f
       (if (null? (cdr x)) (car x)
-          (list (list 'lambda (list 'r)
-                      (list 'if 'r 'r
-                            (cons 'or (cdr x))))
-                (car x)))))
+          (list (list 'lambda (list 'r 't)
+                      (list 'if 'r 'r (list 't)))
+                (car x)
+                (list 'lambda '() (cons 'or (cdr x)))))))
 
 (define (and=> value procedure) (and value (procedure value)))
 (define eqv? eq?)
diff --git a/mes/module/mes/boot-0.scm b/mes/module/mes/boot-0.scm
index 767a1f2..e5c19a9 100644
--- a/mes/module/mes/boot-0.scm
+++ b/mes/module/mes/boot-0.scm
@@ -89,10 +89,10 @@
 (define-macro (or . x)
   (if (null? x) #f
       (if (null? (cdr x)) (car x)
-          (list (list (quote lambda) (list (quote r))
-                      (list (quote if) (quote r) (quote r)
-                            (cons (quote or) (cdr x))))
-                (car x)))))
+          (list (list (quote lambda) (list (quote r) (quote t))
+                      (list (quote if) (quote r) (quote r) (list (quote t))))
+                (car x)
+                (list (quote lambda) (quote ()) (cons (quote or) (cdr x)))))))
 
 (define-macro (mes-use-module module)
   #t)
diff --git a/mes/module/mes/boot-02.scm b/mes/module/mes/boot-02.scm
index 4f09dae..74bb521 100644
--- a/mes/module/mes/boot-02.scm
+++ b/mes/module/mes/boot-02.scm
@@ -89,10 +89,10 @@
 (define-macro (or . x)
   (if (null? x) #f
       (if (null? (cdr x)) (car x)
-          (list (list (quote lambda) (list (quote r))
-                      (list (quote if) (quote r) (quote r)
-                            (cons (quote or) (cdr x))))
-                (car x)))))
+          (list (list (quote lambda) (list (quote r) (quote t))
+                      (list (quote if) (quote r) (quote r) (list (quote t))))
+                (car x)
+                (list (quote lambda) (quote ()) (cons (quote or) (cdr x)))))))
 
 (define-macro (mes-use-module module)
   #t)
diff --git a/mes/module/mes/boot-03.scm b/mes/module/mes/boot-03.scm
index c4e8b61..faee85f 100644
--- a/mes/module/mes/boot-03.scm
+++ b/mes/module/mes/boot-03.scm
@@ -89,10 +89,10 @@
 (define-macro (or . x)
   (if (null? x) #f
       (if (null? (cdr x)) (car x)
-          (list (list (quote lambda) (list (quote r))
-                      (list (quote if) (quote r) (quote r)
-                            (cons (quote or) (cdr x))))
-                (car x)))))
+          (list (list (quote lambda) (list (quote r) (quote t))
+                      (list (quote if) (quote r) (quote r) (list (quote t))))
+                (car x)
+                (list (quote lambda) (quote ()) (cons (quote or) (cdr x)))))))
 
 (define-macro (mes-use-module module)
   #t)
-- 
2.43.0


From d8ff68b979fe7f57cd050cebf545464919a0b8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 011/133] fix: cond captures the variable test

* mes/module/mes/base.mes (cond): Evaluate the clauses outside the scope of
the helper variable.
---
 mes/module/mes/base.mes | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/mes/module/mes/base.mes b/mes/module/mes/base.mes
index 68eb557..5274182 100644
--- a/mes/module/mes/base.mes
+++ b/mes/module/mes/base.mes
@@ -102,20 +102,24 @@
       (and (pair? x) (list? (cdr x)))))
 
 (define-macro (cond . clauses)
-  (list 'if (pair? clauses)
-        (list (cons
-               'lambda
-               (cons
-                '(test)
-                (list (list 'if 'test
-                            (if (pair? (cdr (car clauses)))
-                                (if (eq? (car (cdr (car clauses))) '=>)
-                                    (append2 (cdr (cdr (car clauses))) '(test))
-                                    (list (cons 'lambda (cons '() (cons 'test (cdr (car clauses)))))))
-                                (list (cons 'lambda (cons '() (cons 'test (cdr (car clauses)))))))
+  (if (pair? (cdr (car clauses)))
+      (if (eq? (car (cdr (car clauses))) '=>)
+          (list (list 'lambda '(test f rest)
+                      (list 'if 'test (list (list 'f) 'test) (list 'rest)))
+                (car (car clauses))
+                (cons 'lambda (cons '() (cdr (cdr (car clauses)))))
+                (list 'lambda '()
+                      (if (pair? (cdr clauses))
+                          (cons 'cond (cdr clauses)))))
+          (cons 'if
+                (cons (car (car clauses))
+                      (cons (list (cons 'lambda (cons '() (cdr (car clauses)))))
                             (if (pair? (cdr clauses))
-                                (cons 'cond (cdr clauses)))))))
-              (car (car clauses)))))
+                                (list (cons 'cond (cdr clauses)))
+                                '())))))
+      (if (pair? (cdr clauses))
+          (list 'or (car (car clauses)) (cons 'cond (cdr clauses)))
+          (car (car clauses)))))
 
 (define else #t)
 
-- 
2.43.0


From 9a99f2a31292ae8565eb473117f654916126d78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 012/133] fix: case evaluates its key only once

* mes/module/mes/scm.mes (case): Bind the value of a compound key.
---
 mes/module/mes/scm.mes | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/mes/module/mes/scm.mes b/mes/module/mes/scm.mes
index 63b1afe..bf25fac 100644
--- a/mes/module/mes/scm.mes
+++ b/mes/module/mes/scm.mes
@@ -32,15 +32,18 @@
 
 (define-macro (case val . args)
   (if (null? args) #f
-      (let ((clause (car args)))
-        (let ((pred (car clause)))
-          (let ((body (cdr clause)))
-           (if (pair? pred) `(if ,(if (null? (cdr pred))
-                                      `(eq? ,val ',(car pred))
-                                      `(member ,val ',pred))
-                                 (begin ,@body)
-                                 (case ,val ,@(cdr args)))
-               `(begin ,@body)))))))
+      (if (pair? val)
+          (let ((key (gensym)))
+            `((lambda (,key) (case ,key ,@args)) ,val))
+          (let ((clause (car args)))
+            (let ((pred (car clause)))
+              (let ((body (cdr clause)))
+                (if (pair? pred) `(if ,(if (null? (cdr pred))
+                                           `(eq? ,val ',(car pred))
+                                           `(member ,val ',pred))
+                                      (begin ,@body)
+                                      (case ,val ,@(cdr args)))
+                    `(begin ,@body))))))))
 
 (define-macro (when expr . body)
   `(if ,expr
-- 
2.43.0


From afcba3d0a1a97c3ebb4acf951a5d4c9569074b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 013/133] fix: do with result expressions, or several or
 unstepped variables

* mes/module/mes/scm.mes (do): Handle any number of variables, a variable
without a step and result expressions.
---
 mes/module/mes/scm.mes | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mes/module/mes/scm.mes b/mes/module/mes/scm.mes
index bf25fac..a9c8a4c 100644
--- a/mes/module/mes/scm.mes
+++ b/mes/module/mes/scm.mes
@@ -54,10 +54,13 @@
        ((lambda () ,@body))))
 
 (define-macro (do init test . body)
-  `(let loop ((,(caar init) ,(cadar init)))
-     (when (not ,@test)
-       ,@body
-       (loop ,@(cddar init)))))
+  (let ((loop (gensym)))
+    `(let ,loop ,(map (lambda (x) (list (car x) (cadr x))) init)
+          (if ,(car test) (begin *unspecified* ,@(cdr test))
+              (begin
+                ,@body
+                (,loop ,@(map (lambda (x) (if (pair? (cddr x)) (caddr x) (car x)))
+                              init)))))))
 
 (define (for-each f l . xr)
   (if (and (pair? l)
-- 
2.43.0


From 5ef3fbb355b8361e14be19791f5475a908f640d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 014/133] fix: escape through a continuation while call/cc is
 active

* src/eval-apply.c (eval_apply)[call-with-current-continuation]: Do not
push an extra frame before copying the stack: applying the continuation
restored the frame of call/cc's own evaluation and applied the value.
* mes/module/mes/catch.mes (catch): Have the continuation return a
thunk instead of relying on its value being applied.  Run the handler
with the previous handler in effect; allow multiple values.
---
 mes/module/mes/catch.mes | 28 +++++++++++++++-------------
 src/eval-apply.c         |  2 --
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/mes/module/mes/catch.mes b/mes/module/mes/catch.mes
index 45d8235..1e53e78 100644
--- a/mes/module/mes/catch.mes
+++ b/mes/module/mes/catch.mes
@@ -34,19 +34,21 @@
 
 (define (catch key thunk handler)
   (let ((previous-eh (fluid-ref %eh)))
-    (with-fluid*
-        %eh #f
-        (lambda ()
-          (call/cc
-           (lambda (cc)
-             (fluid-set! %eh
-                         (lambda (k . args)
-                           (let ((handler (if (or (eq? key #t) (eq? key k)) handler
-                                              previous-eh)))
-                             (cc
-                              (lambda (x)
-                                (apply handler (cons k args)))))))
-             (thunk)))))))
+    ((call/cc
+      (lambda (cc)
+        (fluid-set! %eh
+                    (lambda (k . args)
+                      (let ((handler (if (or (eq? key #t) (eq? key k)) handler
+                                         previous-eh)))
+                        (fluid-set! %eh previous-eh)
+                        (cc
+                         (lambda ()
+                           (apply handler (cons k args)))))))
+        (call-with-values thunk
+          (lambda results
+            (fluid-set! %eh previous-eh)
+            (lambda ()
+              (apply values results)))))))))
 
 (define (throw key . args)
   (let ((handler (fluid-ref %eh)))
diff --git a/src/eval-apply.c b/src/eval-apply.c
index bd09cb3..dbfc778 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -944,14 +944,12 @@ if_expr:
   goto vm_return;
 
 call_with_current_continuation:
-  gc_push_frame ();
   x = make_continuation (g_continuations);
   g_continuations = g_continuations + 1;
   v = make_vector_ (STACK_SIZE - g_stack, cell_unspecified);
   for (i = g_stack; i < STACK_SIZE; i = i + 1)
     vector_set_x_ (v, i - g_stack, g_stack_array[i]);
   x->continuation = v;
-  gc_pop_frame ();
   push_cc (cons (R1->car, cons (x, cell_nil)), x, R0, cell_vm_call_with_current_continuation2);
   goto apply;
 call_with_current_continuation2:
-- 
2.43.0


From 174ee96cc4d1cf501c6bcf13b38c0b5890be62c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 015/133] fix: call-with-values of a single value

* src/eval-apply.c (eval_apply)[call-with-values2]: A producer may return
a plain value; make it the consumer's one argument.
---
 src/eval-apply.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index dbfc778..4188016 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -965,6 +965,8 @@ call_with_values:
 call_with_values2:
   if (R1->type == TVALUES)
     R1 = R1->cdr;
+  else
+    R1 = cons (R1, cell_nil);
   R1 = cons (R2->cdr->car, R1);
   goto apply;
 
-- 
2.43.0


From 42f940a98d0eff2f9a7687df05325c7102040352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 016/133] fix: a single value, and passing several values to a
 continuation

* src/core.c (values): Return a single value itself.
* src/eval-apply.c (eval_apply)[TCONTINUATION]: Pass all arguments on.
---
 src/core.c       | 6 +++++-
 src/eval-apply.c | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core.c b/src/core.c
index 15585e4..6fbbf9c 100644
--- a/src/core.c
+++ b/src/core.c
@@ -114,7 +114,11 @@ eq_p (struct scm *x, struct scm *y)
 struct scm *
 values (struct scm *x)                  /*:((arity . n)) */
 {
-  struct scm *v = cons (0, x);
+  struct scm *v;
+  if (x != cell_nil)
+    if (x->cdr == cell_nil)
+      return x->car;
+  v = cons (0, x);
   v->type = TVALUES;
   return v;
 }
diff --git a/src/eval-apply.c b/src/eval-apply.c
index 4188016..0b595f0 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -475,7 +475,7 @@ apply:
         }
       x = R1;
       gc_pop_frame ();
-      R1 = x->cdr->car;
+      R1 = values (x->cdr);
       goto eval_apply;
     }
   else if (t == TSPECIAL)
-- 
2.43.0


From 287e821420372a9f74ce48d0649a0dd588249fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 017/133] fix: running to the end of a program after an error
 was caught

* src/core.c (error): When the handler has escaped to a continuation and
the program has finished, exit instead of returning into the primitive
that raised the error with an empty stack.
---
 src/core.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core.c b/src/core.c
index 6fbbf9c..a07e811 100644
--- a/src/core.c
+++ b/src/core.c
@@ -155,7 +155,13 @@ error (struct scm *key, struct scm *x)
 #if !__MESC_MES__ && !__M2_PLANET__
   struct scm *throw = module_ref (R0, cell_symbol_throw);
   if (throw != cell_undefined)
-    return apply (throw, cons (key, cons (x, cell_nil)), R0);
+    {
+      x = apply (throw, cons (key, cons (x, cell_nil)), R0);
+      if (g_stack >= STACK_SIZE)
+        /* Handled, and the program has run to its end from there. */
+        exit (0);
+      return x;
+    }
 #endif
   display_error_ (key);
   eputs (": ");
-- 
2.43.0


From f4105791209406e8a165530ca4e50d5748a2991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 018/133] fix: vector index out of range

* src/vector.c (vector_check_range): New function.
(vector_ref, vector_set_x): Use it to raise an error that can be caught,
also for a negative index, which was used to access memory before the
vector.
---
 src/vector.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/vector.c b/src/vector.c
index 0fc8404..0e39a2a 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -64,6 +64,15 @@ vector_length (struct scm *x)
   return make_number (x->length);
 }
 
+void
+vector_check_range (struct scm *x, struct scm *i)
+{
+  assert_msg (x->type == TVECTOR, "x->type == TVECTOR");
+  assert_msg (i->type == TNUMBER, "i->type == TNUMBER");
+  if (i->value < 0 || i->value >= x->length)
+    error (cell_symbol_system_error, cons (make_string0 ("value out of range"), i));
+}
+
 struct scm *
 vector_ref_ (struct scm *x, long i)
 {
@@ -82,6 +91,7 @@ vector_ref_ (struct scm *x, long i)
 struct scm *
 vector_ref (struct scm *x, struct scm *i)
 {
+  vector_check_range (x, i);
   return vector_ref_ (x, i->value);
 }
 
@@ -105,6 +115,7 @@ vector_set_x_ (struct scm *x, long i, struct scm *e)
 struct scm *
 vector_set_x (struct scm *x, struct scm *i, struct scm *e)
 {
+  vector_check_range (x, i);
   return vector_set_x_ (x, i->value, e);
 }
 
-- 
2.43.0


From fd129db7d65df15c6185801b822f0b729527f6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 019/133] fix: string-ref of the index one past the end

* src/string.c (string_ref): Raise an error.
---
 src/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string.c b/src/string.c
index 171cb7b..d30ba92 100644
--- a/src/string.c
+++ b/src/string.c
@@ -229,7 +229,7 @@ string_ref (struct scm *str, struct scm *k)
   assert_msg (k->type == TNUMBER, "k->type == TNUMBER");
   size_t size = str->length;
   size_t i = k->value;
-  if (i > size)
+  if (i >= size)
     error (cell_symbol_system_error, cons (make_string0 ("value out of range"), k));
   char const *p = cell_bytes (str->string);
   return make_char (p[i]);
-- 
2.43.0


From 24ec0317abede9019dede90b6f95d2756c4e554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 020/133] fix: procedure? of a continuation

* mes/module/mes/type-0.mes (procedure?): Include continuations.
---
 mes/module/mes/type-0.mes | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mes/module/mes/type-0.mes b/mes/module/mes/type-0.mes
index beefbf0..12a8bda 100644
--- a/mes/module/mes/type-0.mes
+++ b/mes/module/mes/type-0.mes
@@ -79,7 +79,8 @@
 (define (procedure? p)
   (and (or (builtin? p)
            (and (pair? p) (eq? (car p) 'lambda))
-           (closure? p))
+           (closure? p)
+           (continuation? p))
        #t))
 
 (define (special? x)
-- 
2.43.0


From 07ff6879609cc0a370cc2727bf28dfbe72292265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 021/133] fix: cond without a matching clause

* mes/module/mes/base.mes (cond): A last clause without expressions whose
test fails yields an unspecified value, not false.
---
 mes/module/mes/base.mes | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mes/module/mes/base.mes b/mes/module/mes/base.mes
index 5274182..5db5a0b 100644
--- a/mes/module/mes/base.mes
+++ b/mes/module/mes/base.mes
@@ -117,9 +117,10 @@
                             (if (pair? (cdr clauses))
                                 (list (cons 'cond (cdr clauses)))
                                 '())))))
-      (if (pair? (cdr clauses))
-          (list 'or (car (car clauses)) (cons 'cond (cdr clauses)))
-          (car (car clauses)))))
+      (list 'or (car (car clauses))
+            (if (pair? (cdr clauses))
+                (cons 'cond (cdr clauses))
+                '(if #f #f)))))
 
 (define else #t)
 
-- 
2.43.0


From 5dc35d649c6bda31bc6d9026111129ef36ec645d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 022/133] fix: operator of an application evaluated twice

* src/eval-apply.c (eval_apply)[eval-check-func]: Keep the evaluated
operator instead of evaluating its expression again.
---
 src/eval-apply.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index 0b595f0..fd2ac4f 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -686,10 +686,10 @@ eval:
           gc_check ();
           goto eval;
         eval_check_func:
-          push_cc (R2->cdr, R2, R0, cell_vm_eval2);
+          push_cc (R2->cdr, R1, R0, cell_vm_eval2);
           goto evlis;
         eval2:
-          R1 = cons (R2->car, R1);
+          R1 = cons (R2, R1);
           goto apply;
         }
     }
-- 
2.43.0


From d66062a315416e61e652c6143aa483846757a7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:03 +0000
Subject: [PATCH 023/133] fix: applying a vector, keyword, port or values

* src/eval-apply.c (check_apply): Raise an error for these too, instead
of evaluating them again and again until memory is exhausted.
---
 src/eval-apply.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index fd2ac4f..4037bc8 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -75,6 +75,14 @@ check_apply (struct scm *f, struct scm *e)      /*:((internal)) */
     type = "string";
   if (f->type == TSTRUCT && builtin_p (f) == cell_f)
     type = "#<...>";
+  if (f->type == TVECTOR)
+    type = "vector";
+  if (f->type == TKEYWORD)
+    type = "keyword";
+  if (f->type == TPORT)
+    type = "port";
+  if (f->type == TVALUES)
+    type = "values";
   if (f->type == TBROKEN_HEART)
     type = "<3";
 
-- 
2.43.0


From 5834c0e27f6bf1b9a0588f56e37868bdedfbef24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 024/133] fix: garbage collection overwriting the stack

* src/gc.c (gc_init): Allocate room for the collector's copy of the
arena.  A collection with more live cells than fit between the cells in
use and the stack overwrote the stack.
---
 src/gc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gc.c b/src/gc.c
index 62643bb..bc00308 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -91,11 +91,13 @@ gc_init ()
     MAX_STRING = atoi (p);
 
   long arena_bytes = (ARENA_SIZE + JAM_SIZE) * sizeof (struct scm);
-  long alloc_bytes = arena_bytes + (STACK_SIZE * sizeof (struct scm));
+  /* The collector copies what is live to after the cells in use. */
+  long copy_bytes = arena_bytes;
+  long alloc_bytes = arena_bytes + copy_bytes + (STACK_SIZE * sizeof (struct scm));
 
   g_arena = malloc (alloc_bytes);
   g_cells = cast_charp_to_scmp (g_arena);
-  g_stack_array = cast_charp_to_scmpp (g_arena + arena_bytes);
+  g_stack_array = cast_charp_to_scmpp (g_arena + arena_bytes + copy_bytes);
 
   /* The vector that holds the arenea. */
   cell_arena = g_cells;
-- 
2.43.0


From dce4ad90167698fe38bddb28fcfea1adf8981375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 025/133] fix: memq and assq of characters, numbers and
 keywords

* src/lib.c (memq): Compare the type too: a character is not a number.
* src/core.c (assq): Likewise.  Do not compare a keyword with keys of
another type.
---
 src/core.c | 10 ++++++----
 src/lib.c  |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/core.c b/src/core.c
index a07e811..79496e1 100644
--- a/src/core.c
+++ b/src/core.c
@@ -237,8 +237,9 @@ assq (struct scm *x, struct scm *a)
       long v = x->value;
       while (a != cell_nil)
         {
-          if (v == a->car->car->value)
-            return a->car;
+          if (a->car->car->type == t)
+            if (v == a->car->car->value)
+              return a->car;
           a = a->cdr;
         }
     }
@@ -246,8 +247,9 @@ assq (struct scm *x, struct scm *a)
     {
       while (a != cell_nil)
         {
-          if (string_equal_p (x, a->car->car) == cell_t)
-            return a->car;
+          if (a->car->car->type == TKEYWORD)
+            if (string_equal_p (x, a->car->car) == cell_t)
+              return a->car;
           a = a->cdr;
         }
     }
diff --git a/src/lib.c b/src/lib.c
index f892553..6050054 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -74,8 +74,9 @@ memq (struct scm *x, struct scm *a)
       long v = x->value;
       while (a != cell_nil)
         {
-          if (v == a->car->value)
-            return a;
+          if (a->car->type == t)
+            if (v == a->car->value)
+              return a;
           a = a->cdr;
         }
       return cell_f;
-- 
2.43.0


From e2ec0a15d563ddfa5758250e1048e35139126433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 026/133] fix: for-each of three lists

* mes/module/mes/scm.mes (for-each): Support three lists, refuse more.
More than two lists were silently ignored.
---
 mes/module/mes/scm.mes | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mes/module/mes/scm.mes b/mes/module/mes/scm.mes
index a9c8a4c..105c5fc 100644
--- a/mes/module/mes/scm.mes
+++ b/mes/module/mes/scm.mes
@@ -67,7 +67,11 @@
            (or (null? xr)
                (pair? (car xr))))
       (if (null? xr) (begin (f (car l)) (for-each f (cdr l)))
-          (if (null? (cdr xr)) (begin (f (car l) (caar xr)) (for-each f (cdr l) (cdar xr)))))))
+          (if (null? (cdr xr)) (begin (f (car l) (caar xr)) (for-each f (cdr l) (cdar xr)))
+              (if (pair? (cadr xr))
+                  (if (null? (cddr xr)) (begin (f (car l) (caar xr) (caadr xr))
+                                               (for-each f (cdr l) (cdar xr) (cdadr xr)))
+                      (error 'unsupported (cons* "for-each 4:" f l xr))))))))
 
 (define core:error error)
 
-- 
2.43.0


From 4cd5a62182a4e3066bbe683e9eb9e5bb4e618a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 027/133] fix: display of numbers that do not fit an int

* src/display.c (display_helper): Use ltoa.
---
 src/display.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/display.c b/src/display.c
index 0d6db3a..a40b96e 100644
--- a/src/display.c
+++ b/src/display.c
@@ -144,7 +144,7 @@ display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
     }
   else if (t == TNUMBER)
     {
-      fdputs (itoa (x->value), fd);
+      fdputs (ltoa (x->value), fd);
     }
   else if (t == TPAIR)
     {
-- 
2.43.0


From 31ead735a41f5c4afa40d1681cebabafb9d5802e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 028/133] fix: ntoab writing before its buffer

* lib/mes/ntoab.c (ntoab): Make room for all digits of a long, in any
base.  A number of more than ten digits overwrote what came before the
buffer.
---
 lib/mes/ntoab.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/mes/ntoab.c b/lib/mes/ntoab.c
index e75108b..b559a0e 100644
--- a/lib/mes/ntoab.c
+++ b/lib/mes/ntoab.c
@@ -38,8 +38,9 @@ char *
 ntoab (long x, unsigned base, int signed_p)
 {
   if (__itoa_buf == 0)
-    __itoa_buf = malloc (20);
-  char *p = __itoa_buf + 11;
+    __itoa_buf = malloc (72);
+  /* Room for a sign and 64 binary digits. */
+  char *p = __itoa_buf + 70;
 
   p[0] = 0;
   p = p - 1;
-- 
2.43.0


From f32d02d7101b79da59cd1891df084f0b9f847b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 029/133] fix: abtol of hexadecimal and of long numbers

* lib/mes/abtol.c (abtol): Use long.  Support upper case digits, decimal
digits after letters.  Accept one sign only.
---
 lib/mes/abtol.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/mes/abtol.c b/lib/mes/abtol.c
index 1f297b4..d705c39 100644
--- a/lib/mes/abtol.c
+++ b/lib/mes/abtol.c
@@ -25,7 +25,7 @@ long
 abtol (char const **p, int base)
 {
   char const *s = p[0];
-  int i = 0;
+  long i = 0;
   int sign_p = 0;
   int m = '0';
   if (base == 0)
@@ -34,7 +34,7 @@ abtol (char const **p, int base)
     s = s + 1;
   if (s[0] != 0 && s[0] == '+')
     s = s + 1;
-  if (s[0] != 0 && s[0] == '-')
+  else if (s[0] != 0 && s[0] == '-')
     {
       sign_p = 1;
       s = s + 1;
@@ -42,8 +42,11 @@ abtol (char const **p, int base)
   while (isnumber (s[0], base) != 0)
     {
       i = i * base;
-      if (s[0] > '9')
+      m = '0';
+      if (s[0] >= 'a')
         m = 'a' - 10;
+      else if (s[0] >= 'A')
+        m = 'A' - 10;
       i = i + s[0] - m;
       s = s + 1;
     }
-- 
2.43.0


From 96f36a940b9fae0d6a9aa4b2425507428379a143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 030/133] fix: strtol base and prefix handling

* lib/stdlib/strtol.c (strtol): Handle white space and a sign before a
prefix, a prefix only for bases 0 and 16, octal, and other bases; set the
tail to the start if there is no number.
---
 lib/stdlib/strtol.c | 52 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/lib/stdlib/strtol.c b/lib/stdlib/strtol.c
index ff937d9..74ea9bf 100644
--- a/lib/stdlib/strtol.c
+++ b/lib/stdlib/strtol.c
@@ -19,22 +19,58 @@
  */
 
 #include <mes/lib.h>
+#include <ctype.h>
 #include <stdlib.h>
 #include <string.h>
 
 long
 strtol (char const *string, char **tailptr, int base)
 {
-  if (!strncmp (string, "0x", 2))
+  char const *s = string;
+  char const *tail = string;
+  unsigned long i = 0;
+  int digit;
+  int sign_p = 0;
+  while (isspace (s[0]))
+    s = s + 1;
+  if (s[0] == '-')
     {
-      string += 2;
-      base = 16;
+      sign_p = 1;
+      s = s + 1;
     }
-  if (tailptr)
+  else if (s[0] == '+')
+    s = s + 1;
+  if (base == 0 || base == 16)
+    if (s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && isxdigit (s[2]))
+      {
+        s = s + 2;
+        base = 16;
+      }
+  if (base == 0)
+    {
+      base = 10;
+      if (s[0] == '0')
+        base = 8;
+    }
+  while (1)
     {
-      *tailptr = (char *) string;
-      return abtol ((char const **) tailptr, base);
+      if (isdigit (s[0]))
+        digit = s[0] - '0';
+      else if (s[0] >= 'a' && s[0] <= 'z')
+        digit = s[0] - 'a' + 10;
+      else if (s[0] >= 'A' && s[0] <= 'Z')
+        digit = s[0] - 'A' + 10;
+      else
+        break;
+      if (digit >= base)
+        break;
+      i = i * base + digit;
+      s = s + 1;
+      tail = s;
     }
-  char **p = (char **) &string;
-  return abtol ((char const **) p, base);
+  if (tailptr)
+    *tailptr = (char *) tail;
+  if (sign_p)
+    return -i;
+  return i;
 }
-- 
2.43.0


From 195afc65a858b5a9007b6a3b49ad30f0603a9f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 031/133] fix: string->number of a bare sign, a plus sign, and
 digits out of range

* mes/module/mes/scm.mes (string->number): A sign alone is not a number;
accept a plus sign; do not accept digits that the radix does not have.
---
 mes/module/mes/scm.mes | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mes/module/mes/scm.mes b/mes/module/mes/scm.mes
index 105c5fc..e3b3fa7 100644
--- a/mes/module/mes/scm.mes
+++ b/mes/module/mes/scm.mes
@@ -241,12 +241,13 @@
         (and (pair? lst)
              (let* ((radix (if (null? rest) 10 (car rest)))
                     (sign (if (and (pair? lst) (char=? (car lst) #\-)) -1 1))
-                    (lst (if (= sign -1) (cdr lst) lst)))
-               (let loop ((lst lst) (n 0))
-                 (if (null? lst) (* sign n)
+                    (lst (if (or (= sign -1) (char=? (car lst) #\+)) (cdr lst) lst)))
+               (let loop ((lst lst) (n (if (null? lst) #f 0)))
+                 (if (null? lst) (and n (* sign n))
                      (let ((i (char->integer (car lst))))
                        (cond ((and (>= i (char->integer #\0))
-                                   (<= i (char->integer #\9)))
+                                   (<= i (char->integer #\9))
+                                   (< (- i (char->integer #\0)) radix))
                               (let ((d (char->integer #\0)))
                                 (loop (cdr lst) (+ (* n radix) (- i d)))))
                              ((and (= radix 16)
-- 
2.43.0


From b7b294469aaf07204a6885da14cf34ec2c601a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:22 +0000
Subject: [PATCH 032/133] fix: string-ref of bytes above 127

---
 src/string.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/string.c b/src/string.c
index d30ba92..8f9a553 100644
--- a/src/string.c
+++ b/src/string.c
@@ -232,5 +232,6 @@ string_ref (struct scm *str, struct scm *k)
   if (i >= size)
     error (cell_symbol_system_error, cons (make_string0 ("value out of range"), k));
   char const *p = cell_bytes (str->string);
-  return make_char (p[i]);
+  int c = (0x100 + p[i]) % 0x100;
+  return make_char (c);
 }
-- 
2.43.0


From 5ce7d3d5bf13beff694f46341341221309be3b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:22 +0000
Subject: [PATCH 033/133] fix: symbols and hash keys with bytes above 127

---
 src/hash.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index ed1bb5d..1ed0737 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -26,10 +26,15 @@
 int
 hash_cstring (char const *s, long size)
 {
-  int hash = s[0] * 37;
+  /* Bytes count as 0..255: a negative hash is not an index. */
+  int c = (0x100 + s[0]) % 0x100;
+  int hash = c * 37;
   if (s[0] != 0)
     if (s[1] != 0)
-      hash = hash + (s[1] * 43);
+      {
+        c = (0x100 + s[1]) % 0x100;
+        hash = hash + (c * 43);
+      }
   assert_msg (size != 0, "size");
   hash = hash % size;
   return hash;
-- 
2.43.0


From fd5ccae93c438eadf49c03dc649eb092eb8ac715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 034/133] fix: apply in tail position grows the stack

---
 src/eval-apply.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index 4037bc8..a0665b8 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -491,7 +491,7 @@ apply:
       c = R1->car;
       if (c == cell_vm_apply)
         {
-          push_cc (cons (R1->cdr->car, R1->cdr->cdr->car), R1, R0, cell_vm_return);
+          R1 = cons (R1->cdr->car, R1->cdr->cdr->car);
           goto apply;
         }
       else if (c == cell_vm_eval)
-- 
2.43.0


From dbf3d47dac5cb4481b19c275e03bf8cb6830fef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:21 +0000
Subject: [PATCH 035/133] fix: redefining a variable by an expression that uses
 it

---
 src/eval-apply.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index a0665b8..e7a2c69 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -647,7 +647,13 @@ eval:
                 aa = R1->cdr->car;
                 if (aa->type != TPAIR)
                   {
-                    push_cc (R1->cdr->cdr->car, R2, cons (cons (R1->cdr->car, R1->cdr->car), R0), cell_vm_eval_define);
+                    /* The extra entry names a closure, a lambda does not see
+                       it; any other expression would find it as a variable. */
+                    p = R0;
+                    x = R1->cdr->cdr->car;
+                    if (x->type == TPAIR && x->car == cell_symbol_lambda)
+                      p = cons (cons (aa, aa), R0);
+                    push_cc (x, R2, p, cell_vm_eval_define);
                     goto eval;
                   }
                 else
-- 
2.43.0


From caa78914595b844b6c261b7087449c71a0f40d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 036/133] fix: newline ignores its port

---
 mes/module/mes/boot-0.scm | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mes/module/mes/boot-0.scm b/mes/module/mes/boot-0.scm
index e5c19a9..5e07ec8 100644
--- a/mes/module/mes/boot-0.scm
+++ b/mes/module/mes/boot-0.scm
@@ -53,7 +53,8 @@
       (core:write-port x (car rest))))
 
 (define (newline . rest)
-  (core:display "\n"))
+  (if (null? rest) (core:display "\n")
+      (core:display-port "\n" (car rest))))
 
 (define (cadr x) (car (cdr x)))
 
-- 
2.43.0


From 8c2a25f3316b09933ebdece1c40a5618138b3e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 037/133] fix: line comment at the end of the input

---
 src/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index 6b42178..facbda0 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -49,7 +49,7 @@ reader_read_line_comment (int c)
         return c;
       c = readchar ();
     }
-  error (cell_symbol_system_error, make_string0 ("reader_read_line_comment"));
+  return c;
 }
 
 struct scm *reader_read_block_comment (int s, int c);
-- 
2.43.0


From a1d7b522eb1bf247d57d35bb502bf211b0c43301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 038/133] fix: block comment that is long, or does not end

---
 src/reader.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index facbda0..329e408 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -199,13 +199,17 @@ read_env (struct scm *a)
 struct scm *
 reader_read_block_comment (int s, int c)
 {
-  if (c == s)
-    if (peekchar () == '#')
-      {
-        readchar ();
-        return cell_unspecified;
-      }
-  return reader_read_block_comment (s, readchar ());
+  while (c != EOF)
+    {
+      if (c == s)
+        if (peekchar () == '#')
+          {
+            readchar ();
+            return cell_unspecified;
+          }
+      c = readchar ();
+    }
+  error (cell_symbol_system_error, make_string0 ("EOF in block comment"));
 }
 
 struct scm *
-- 
2.43.0


From a92d83fa8dc97f6b65c487d4a3260ffdd5305069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 039/133] fix: datum comment at the end of a list

---
 src/reader.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/reader.c b/src/reader.c
index 329e408..828f5a0 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -55,6 +55,7 @@ reader_read_line_comment (int c)
 struct scm *reader_read_block_comment (int s, int c);
 struct scm *reader_read_hash (int c, struct scm *a);
 struct scm *reader_read_list (int c, struct scm *a);
+struct scm *reader_read_sexp_ (int c, struct scm *a);
 
 int
 reader_identifier_p (int c)
@@ -169,6 +170,12 @@ reader_eat_whitespace (int c)
           reader_read_block_comment (c, readchar ());
           return reader_eat_whitespace (readchar ());
         }
+      if (p == ';')
+        {
+          readchar ();
+          reader_read_sexp_ (readchar (), cell_nil);
+          return reader_eat_whitespace (readchar ());
+        }
     }
   return c;
 }
-- 
2.43.0


From 775cfc5221338f0fae6531c677ce28d8a0375da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 040/133] fix: carriage return between data

---
 src/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index 828f5a0..fc94ea8 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -122,7 +122,7 @@ reset_reader:
       c = reader_read_line_comment (c);
       goto reset_reader;
     }
-  if ((c == ' ') || (c == '\t') || (c == '\n') || (c == '\f'))
+  if (isspace (c) != 0)
     {
       c = readchar ();
       goto reset_reader;
-- 
2.43.0


From a8ab624f934a7ed65278db8e0f9458a320385a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 041/133] fix: hexadecimal characters with upper case digits

---
 src/reader.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index fc94ea8..7f70410 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -298,13 +298,10 @@ reader_read_character ()
           p = peekchar ();
         }
     }
-  else if (c == 'x' && ((p >= '0' && p <= '9') || (p >= 'a' && p <= 'f') || (p >= 'F' && p <= 'F')))
+  else if (c == 'x' && ((p >= '0' && p <= '9') || (p >= 'a' && p <= 'f') || (p >= 'A' && p <= 'F')))
     {
       struct scm *n = reader_read_hex ();
       c = n->value;
-      eputs ("reading hex c=");
-      eputs (itoa (c));
-      eputs ("\n");
     }
   else if (((c >= 'a' && c <= 'z') || c == '*') && ((p >= 'a' && p <= 'z') || p == '*'))
     {
-- 
2.43.0


From 6078a7b8a9bd0f6b4f8164a2c1ffe179a0ce0660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 042/133] fix: symbols that start with a sign and a digit

---
 src/reader.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index 7f70410..88f71e5 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -77,11 +77,17 @@ reader_read_identifier_or_number (int c)
   int negative_p = 0;
   if (c == '+')
     if (isdigit (peekchar ()) != 0)
-      c = readchar ();
+      {
+        g_buf[i] = c;
+        i = i + 1;
+        c = readchar ();
+      }
   if (c == '-')
     if (isdigit (peekchar ()) != 0)
       {
         negative_p = 1;
+        g_buf[i] = c;
+        i = i + 1;
         c = readchar ();
       }
   while (isdigit (c) != 0)
-- 
2.43.0


From 8c4e74a0ad13da1a3e13f05f51dd13ee3b430e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 043/133] fix: write of control characters and of bytes above
 127

---
 src/display.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/display.c b/src/display.c
index a40b96e..58dfaab 100644
--- a/src/display.c
+++ b/src/display.c
@@ -51,8 +51,7 @@ fdwrite_char (char v, int fd)
     fdputs ("\\space", fd);
   else
     {
-      if (v >= 32 && v <= 127)
-        fdputc ('\\', fd);
+      fdputc ('\\', fd);
       fdputc (v, fd);
     }
 }
-- 
2.43.0


From 222a3d15524f0df39b1bcc930e1b2eb2f7b6ff0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 044/133] fix: display of a string with a NUL

---
 src/display.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/display.c b/src/display.c
index 58dfaab..faa5d2c 100644
--- a/src/display.c
+++ b/src/display.c
@@ -97,6 +97,14 @@ fdwrite_string (char *s, int length, int fd)
     fdwrite_string_char (s[i], fd);
 }
 
+void
+fdputs_bytes (char *s, int length, int fd)
+{
+  int i;
+  for (i = 0; i < length; i = i + 1)
+    fdputc (s[i], fd);
+}
+
 struct scm *display_helper (struct scm *x, int cont, char *sep, int fd, int write_p);
 
 struct scm *
@@ -204,7 +212,7 @@ display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
           fdputc ('"', fd);
         }
       else
-        fdputs (cell_bytes (x->string), fd);
+        fdputs_bytes (cell_bytes (x->string), x->length, fd);
     }
   else if (t == TSPECIAL || t == TSYMBOL)
     fdwrite_string (cell_bytes (x->string), x->length, fd);
-- 
2.43.0


From 918e9fe21992c4db9981766b47e49f24b9a6f018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 045/133] fix: symbols are written without escapes

---
 mes/module/mes/display.mes | 2 +-
 src/display.c              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mes/module/mes/display.mes b/mes/module/mes/display.mes
index e3bbf58..190967b 100644
--- a/mes/module/mes/display.mes
+++ b/mes/module/mes/display.mes
@@ -146,7 +146,7 @@
        ((or (keyword? x) (special? x) (string? x) (symbol? x))
         (if (and (string? x) write?) (write-char #\" port))
         (if (keyword? x) (display "#:" port))
-        (for-each (display-cut2 display-char <> port write?) (string->list x))
+        (for-each (display-cut2 display-char <> port (and write? (string? x))) (string->list x))
         (if (and (string? x) write?) (write-char #\" port)))
        ((builtin? x)
         (display "#<procedure " port)
diff --git a/src/display.c b/src/display.c
index faa5d2c..686fd6c 100644
--- a/src/display.c
+++ b/src/display.c
@@ -201,7 +201,7 @@ display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
   else if (t == TKEYWORD)
     {
       fdputs ("#:", fd);
-      fdwrite_string (cell_bytes (x->string), x->length, fd);
+      fdputs_bytes (cell_bytes (x->string), x->length, fd);
     }
   else if (t == TSTRING)
     {
@@ -215,7 +215,7 @@ display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
         fdputs_bytes (cell_bytes (x->string), x->length, fd);
     }
   else if (t == TSPECIAL || t == TSYMBOL)
-    fdwrite_string (cell_bytes (x->string), x->length, fd);
+    fdputs_bytes (cell_bytes (x->string), x->length, fd);
   else if (t == TREF)
     fdisplay_ (x->ref, fd, write_p);
   else if (t == TSTRUCT)
-- 
2.43.0


From 2beb1d81bcaf7e16a727d6aad0551dce12549bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 046/133] fix: display of a pair with #f as its cdr

---
 mes/module/mes/display.mes | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mes/module/mes/display.mes b/mes/module/mes/display.mes
index 190967b..00369a6 100644
--- a/mes/module/mes/display.mes
+++ b/mes/module/mes/display.mes
@@ -138,7 +138,7 @@
               (#t
                (display (car x) port write?)
                (if (pair? (cdr x)) (d (cdr x) #t " ")
-                   (if (and (cdr x) (not (null? (cdr x))))
+                   (if (not (null? (cdr x)))
                        (begin
                          (display " . " port)
                          (display (cdr x) port write?))))))
-- 
2.43.0


From 1cf4ce31209d3c2e9fcc807d8ce862673c126bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 047/133] fix: write of a vector within a vector

---
 mes/module/mes/display.mes | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mes/module/mes/display.mes b/mes/module/mes/display.mes
index 00369a6..bc947a1 100644
--- a/mes/module/mes/display.mes
+++ b/mes/module/mes/display.mes
@@ -176,7 +176,7 @@
         (display "#(" port)
         (for-each (lambda (i)
                     (let ((x (vector-ref x i)))
-                      (if (vector? x)
+                      (if (and (vector? x) (not write?))
                           (begin
                             (display (if (= i 0) "" " ") port)
                             (display "#(...)" port))
-- 
2.43.0


From 317237f63c3646ec717495e0823b966682a8375d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:43 +0000
Subject: [PATCH 048/133] fix: strpbrk without a match returns NULL

---
 lib/string/strpbrk.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/string/strpbrk.c b/lib/string/strpbrk.c
index 57583ee..14000c4 100644
--- a/lib/string/strpbrk.c
+++ b/lib/string/strpbrk.c
@@ -26,8 +26,8 @@ strpbrk (char const *string, char const *stopset)
   char *p = (char *) string;
   while (*p)
     if (strchr (stopset, *p))
-      break;
+      return p;
     else
       p++;
-  return p;
+  return 0;
 }
-- 
2.43.0


From 0833e690c83310c8549671214e3ad9880e302bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:43 +0000
Subject: [PATCH 049/133] fix: strcmp, strncmp and memcmp compare bytes as
 unsigned

---
 lib/string/memcmp.c  | 2 +-
 lib/string/strcmp.c  | 2 +-
 lib/string/strncmp.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/string/memcmp.c b/lib/string/memcmp.c
index ca72f63..8fd0744 100644
--- a/lib/string/memcmp.c
+++ b/lib/string/memcmp.c
@@ -36,5 +36,5 @@ memcmp (void const *s1, void const *s2, size_t size)
       b = b + 1;
     }
 
-  return a[0] - b[0];
+  return (a[0] & 255) - (b[0] & 255);
 }
diff --git a/lib/string/strcmp.c b/lib/string/strcmp.c
index b0fee26..f5d2591 100644
--- a/lib/string/strcmp.c
+++ b/lib/string/strcmp.c
@@ -29,5 +29,5 @@ strcmp (char const *a, char const *b)
       b = b + 1;
     }
 
-  return a[0] - b[0];
+  return (a[0] & 255) - (b[0] & 255);
 }
diff --git a/lib/string/strncmp.c b/lib/string/strncmp.c
index 75c84b7..f0bf698 100644
--- a/lib/string/strncmp.c
+++ b/lib/string/strncmp.c
@@ -33,5 +33,5 @@ strncmp (char const *a, char const *b, size_t size)
       b = b + 1;
     }
 
-  return a[0] - b[0];
+  return (a[0] & 255) - (b[0] & 255);
 }
-- 
2.43.0


From 46b73dbfcf443feaf3db78441867199d17736fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:43 +0000
Subject: [PATCH 050/133] fix: searching for characters that are not ASCII, and
 for the end of an empty string

---
 lib/string/memchr.c  |  2 +-
 lib/string/strchr.c  |  8 +++++---
 lib/string/strrchr.c | 21 +++++++++------------
 3 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/lib/string/memchr.c b/lib/string/memchr.c
index 255fdf6..2180d63 100644
--- a/lib/string/memchr.c
+++ b/lib/string/memchr.c
@@ -28,7 +28,7 @@ memchr (void const *block, int c, size_t size)
   while (size != 0)
     {
       size = size - 1;
-      if (c == p[0])
+      if ((c & 255) == (p[0] & 255))
         return (void*) p;
       p = p + 1;
     }
diff --git a/lib/string/strchr.c b/lib/string/strchr.c
index da1a707..edd7382 100644
--- a/lib/string/strchr.c
+++ b/lib/string/strchr.c
@@ -24,11 +24,13 @@ char *
 strchr (char const *s, int c)
 {
   char const *p = s;
-  while (*p || !c)
+  char ch = c;
+  while (1)
     {
-      if (c == *p)
+      if (*p == ch)
         return (char *) p;
+      if (!*p)
+        return 0;
       p++;
     }
-  return 0;
 }
diff --git a/lib/string/strrchr.c b/lib/string/strrchr.c
index 08766fd..ab653d4 100644
--- a/lib/string/strrchr.c
+++ b/lib/string/strrchr.c
@@ -23,18 +23,15 @@
 char *
 strrchr (char const *s, int c)
 {
-  int n = strlen (s);
-  if (!n)
-    return 0;
-  char const *p = s + n;
-  if (!*p && !c)
-    return (char *) p;
-  p--;
-  while (n-- && (*p || !c))
+  char const *p = s;
+  char const *found = 0;
+  char ch = c;
+  while (1)
     {
-      if (c == *p)
-        return (char *) p;
-      p--;
+      if (*p == ch)
+        found = p;
+      if (!*p)
+        return (char *) found;
+      p++;
     }
-  return 0;
 }
-- 
2.43.0


From 0f1cb3d31eec020e7a9aaf68ffac28e236151118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:43 +0000
Subject: [PATCH 051/133] fix: strncpy and strncat read past an array that is
 not terminated

---
 lib/string/strncat.c |  2 +-
 lib/string/strncpy.c | 11 +++++------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/lib/string/strncat.c b/lib/string/strncat.c
index 9683f91..a604a20 100644
--- a/lib/string/strncat.c
+++ b/lib/string/strncat.c
@@ -26,7 +26,7 @@ strncat (char *to, char const *from, size_t size)
   if (size == 0)
     return to;
   char *p = strchr (to, '\0');
-  while (*from && size-- > 0)
+  while (size-- > 0 && *from)
     *p++ = *from++;
   *p = 0;
   return to;
diff --git a/lib/string/strncpy.c b/lib/string/strncpy.c
index 34ea0f8..1be42c0 100644
--- a/lib/string/strncpy.c
+++ b/lib/string/strncpy.c
@@ -23,13 +23,12 @@
 char *
 strncpy (char *to, char const *from, size_t size)
 {
-  if (size == 0)
-    return to;
   char *p = to;
-  while (*from && size--)
-    *p++ = *from++;
-  if (*from)
-    size++;
+  while (size && *from)
+    {
+      *p++ = *from++;
+      size--;
+    }
   while (size--)
     *p++ = 0;
   return to;
-- 
2.43.0


From d634da05b3090484d37519ad4b04149cca39225a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 052/133] fix: isxdigit of upper case digits

---
 lib/ctype/isxdigit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ctype/isxdigit.c b/lib/ctype/isxdigit.c
index 13f7a66..b15546e 100644
--- a/lib/ctype/isxdigit.c
+++ b/lib/ctype/isxdigit.c
@@ -24,5 +24,5 @@
 int
 isxdigit (int c)
 {
-  return isdigit (c) || (c >= 'a' && c <= 'f');
+  return isdigit (c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
 }
-- 
2.43.0


From b12baedbebc08c36f320487f898f6375ee506bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 053/133] fix: iscntrl of DEL

---
 lib/ctype/iscntrl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ctype/iscntrl.c b/lib/ctype/iscntrl.c
index 82d4c3d..73ad555 100644
--- a/lib/ctype/iscntrl.c
+++ b/lib/ctype/iscntrl.c
@@ -23,5 +23,5 @@
 int
 iscntrl (int c)
 {
-  return c >= 0 && c < 32;
+  return (c >= 0 && c < 32) || c == 127;
 }
-- 
2.43.0


From d9b957c011930a5383b98b0175c54037fdbd1341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 054/133] fix: division of and by LONG_MIN

---
 lib/mes/div.c | 56 +++++++++++++++------------------------------------
 1 file changed, 16 insertions(+), 40 deletions(-)

diff --git a/lib/mes/div.c b/lib/mes/div.c
index 4ea0ce3..3f68d33 100644
--- a/lib/mes/div.c
+++ b/lib/mes/div.c
@@ -231,46 +231,22 @@ __mesabi_uldiv (unsigned long a, unsigned long b, unsigned long *remainder)
 void
 __mesabi_ldiv (long a, long b, struct ldiv_t *result)
 {
-  int negate_result = (a < 0) ^ (b < 0);
-  if (b == LONG_MIN)
-    __mesabi_div0 ();
-  if (a != LONG_MIN)
-    {
-      int negative_a = (a < 0);
-      if (negative_a)
-        a = -a;
-      if (b < 0)
-        b = -b;
-      result->quot = __mesabi_uldiv (a, b, &result->rem);
-      if (negate_result)
-        result->quot = -result->quot;
-      if (negative_a)
-        result->rem = -result->rem;
-    }
-  else
-    {
-      result->rem = 0;
-      if (b < 0)
-        b = -b;
-      if (b == 1)
-        {
-          result->quot = a;
-          /* Since result->quot is already negative, don't negate it again. */
-          negate_result = !negate_result;
-        }
-      else if (b == 0)
-        __mesabi_div0 ();
-      else
-        {
-          long x;
-          for (x = 0; a <= -b; a += b)
-            ++x;
-          result->rem = a;      /* negative */
-          result->quot = x;
-        }
-      if (negate_result)
-        result->quot = -result->quot;
-    }
+  /* Unsigned, to include the magnitude of LONG_MIN.  */
+  unsigned long ua = a;
+  unsigned long ub = b;
+  unsigned long remainder;
+  unsigned long quotient;
+  if (a < 0)
+    ua = -ua;
+  if (b < 0)
+    ub = -ub;
+  quotient = __mesabi_uldiv (ua, ub, &remainder);
+  if ((a < 0) != (b < 0))
+    quotient = -quotient;
+  if (a < 0)
+    remainder = -remainder;
+  result->quot = quotient;
+  result->rem = remainder;
 }
 
 long
-- 
2.43.0


From ff2317ff46038e6aeabbd302f8a0386a9e58c02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:49 +0000
Subject: [PATCH 055/133] fix: ultoa of values above LONG_MAX

---
 lib/mes/ultoa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mes/ultoa.c b/lib/mes/ultoa.c
index 3319296..e769eb2 100644
--- a/lib/mes/ultoa.c
+++ b/lib/mes/ultoa.c
@@ -23,5 +23,5 @@
 char *
 ultoa (unsigned long x)
 {
-  return ntoab (x, 10, 1);
+  return ntoab (x, 10, 0);
 }
-- 
2.43.0


From 87a25a7c117465204558eedc54d33622faecdd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:00 +0000
Subject: [PATCH 056/133] fix: formatted output: sign, padding, precision, int
 arguments, counts and termination

---
 lib/stdio/vfprintf.c  | 152 +++++++++++++++++++---------------
 lib/stdio/vsnprintf.c | 184 ++++++++++++++++++++++++------------------
 2 files changed, 191 insertions(+), 145 deletions(-)

diff --git a/lib/stdio/vfprintf.c b/lib/stdio/vfprintf.c
index 0b2c30a..8581f73 100644
--- a/lib/stdio/vfprintf.c
+++ b/lib/stdio/vfprintf.c
@@ -42,21 +42,18 @@ vfprintf (FILE * f, char const *format, va_list ap)
         int left_p = 0;
         int precision = -1;
         int width = -1;
-        if (c == '-')
-          {
-            left_p = 1;
-            c = *++p;
-          }
         char pad = ' ';
-        if (c == ' ')
-          {
-            pad = c;
-            c = *p++;
-          }
-        if (c == '0')
+        char sign = 0;
+        int long_p = 0;
+        while (c == '-' || c == '0' || c == ' ')
           {
-            pad = c;
-            c = *p++;
+            if (c == '-')
+              left_p = 1;
+            else if (c == '0')
+              pad = c;
+            else
+              sign = c;
+            c = *++p;
           }
         if (c >= '0' && c <= '9')
           {
@@ -66,11 +63,17 @@ vfprintf (FILE * f, char const *format, va_list ap)
         else if (c == '*')
           {
             width = va_arg (ap, int);
+            if (width < 0)
+              {
+                left_p = 1;
+                width = -width;
+              }
             c = *++p;
           }
         if (c == '.')
           {
             c = *++p;
+            precision = 0;
             if (c >= '0' && c <= '9')
               {
                 precision = abtol (&p, 10);
@@ -83,7 +86,10 @@ vfprintf (FILE * f, char const *format, va_list ap)
               }
           }
         if (c == 'l')
-          c = *++p;
+          {
+            long_p = 1;
+            c = *++p;
+          }
         if (c == 'l')
           {
             eputs ("vfprintf: skipping second: l\n");
@@ -99,9 +105,21 @@ vfprintf (FILE * f, char const *format, va_list ap)
             }
           case 'c':
             {
-              char _c;
-              _c = va_arg (ap, long);
-              fputc (_c, f);
+              c = va_arg (ap, int);
+              width--;
+              if (!left_p)
+                while (width-- > 0)
+                  {
+                    fputc (' ', f);
+                    count++;
+                  }
+              fputc (c, f);
+              count++;
+              while (width-- > 0)
+                {
+                  fputc (' ', f);
+                  count++;
+                }
               break;
             }
           case 'd':
@@ -111,41 +129,57 @@ vfprintf (FILE * f, char const *format, va_list ap)
           case 'x':
           case 'X':
             {
-              long d = va_arg (ap, long);
+              long d;
+              if (long_p)
+                d = va_arg (ap, long);
+              else if (c == 'd' || c == 'i')
+                d = va_arg (ap, int);
+              else
+                d = va_arg (ap, unsigned);
               int base = c == 'o' ? 8 : c == 'x' || c == 'X' ? 16 : 10;
-              char *s = ntoab (d, base, c != 'u' && c != 'x' && c != 'X');
+              int signed_p = c == 'd' || c == 'i';
+              char *s = ntoab (d, base, signed_p);
               if (c == 'X')
                 strupr (s);
+              if (*s == '-')
+                sign = *s++;
+              else if (!signed_p)
+                sign = 0;
               int length = strlen (s);
-              if (precision == -1)
-                precision = length;
+              if (precision == 0 && d == 0)
+                length = 0;
+              if (sign)
+                width--;
+              if (precision < 0 && pad == '0' && !left_p)
+                precision = width;
+              precision = precision - length;
+              if (precision < 0)
+                precision = 0;
+              width = width - precision - length;
               if (!left_p)
+                while (width-- > 0)
+                  {
+                    fputc (' ', f);
+                    count++;
+                  }
+              if (sign)
                 {
-                  while (width-- > precision)
-                    {
-                      fputc (pad, f);
-                      count++;
-                    }
-                  while (precision > length)
-                    {
-                      fputc ('0', f);
-                      precision--;
-                      width--;
-                      count++;
-                    }
+                  fputc (sign, f);
+                  count++;
                 }
-              while (*s)
+              while (precision-- > 0)
+                {
+                  fputc ('0', f);
+                  count++;
+                }
+              while (length-- > 0)
                 {
-                  if (precision-- <= 0)
-                    break;
-                  width--;
                   fputc (*s++, f);
                   count++;
                 }
-              while (width > 0)
+              while (width-- > 0)
                 {
-                  width--;
-                  fputc (pad, f);
+                  fputc (' ', f);
                   count++;
                 }
               break;
@@ -153,36 +187,24 @@ vfprintf (FILE * f, char const *format, va_list ap)
           case 's':
             {
               char *s = va_arg (ap, char *);
-              int length = strlen (s);
-              if (precision == -1)
-                precision = length;
+              int length = 0;
+              while (s && (precision < 0 || length < precision) && s[length])
+                length++;
+              width = width - length;
               if (!left_p)
+                while (width-- > 0)
+                  {
+                    fputc (' ', f);
+                    count++;
+                  }
+              while (length-- > 0)
                 {
-                  while (width-- > precision)
-                    {
-                      fputc (pad, f);
-                      count++;
-                    }
-                  while (precision > length)
-                    {
-                      fputc (' ', f);
-                      precision--;
-                      width--;
-                      count++;
-                    }
-                }
-              while (*s)
-                {
-                  if (precision-- <= 0)
-                    break;
-                  width--;
                   fputc (*s++, f);
                   count++;
                 }
-              while (width > 0)
+              while (width-- > 0)
                 {
-                  width--;
-                  fputc (pad, f);
+                  fputc (' ', f);
                   count++;
                 }
               break;
@@ -248,5 +270,5 @@ vfprintf (FILE * f, char const *format, va_list ap)
         p++;
       }
   va_end (ap);
-  return 0;
+  return count;
 }
diff --git a/lib/stdio/vsnprintf.c b/lib/stdio/vsnprintf.c
index 9a8d796..b9ec241 100644
--- a/lib/stdio/vsnprintf.c
+++ b/lib/stdio/vsnprintf.c
@@ -33,7 +33,7 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
     if (*p != '%')
       {
         c = *p++;
-        if (count < size)
+        if (count + 1 < size)
           *str++ = c;
         count++;
       }
@@ -44,21 +44,18 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
         int left_p = 0;
         int precision = -1;
         int width = -1;
-        if (c == '-')
-          {
-            left_p = 1;
-            c = *++p;
-          }
         char pad = ' ';
-        if (c == ' ')
-          {
-            pad = c;
-            c = *p++;
-          }
-        if (c == '0')
+        char sign = 0;
+        int long_p = 0;
+        while (c == '-' || c == '0' || c == ' ')
           {
-            pad = c;
-            c = *p++;
+            if (c == '-')
+              left_p = 1;
+            else if (c == '0')
+              pad = c;
+            else
+              sign = c;
+            c = *++p;
           }
         if (c >= '0' && c <= '9')
           {
@@ -67,12 +64,18 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
           }
         else if (c == '*')
           {
-            width = va_arg (ap, long);
+            width = va_arg (ap, int);
+            if (width < 0)
+              {
+                left_p = 1;
+                width = -width;
+              }
             c = *++p;
           }
         if (c == '.')
           {
             c = *++p;
+            precision = 0;
             if (c >= '0' && c <= '9')
               {
                 precision = abtol (&p, 10);
@@ -80,12 +83,15 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
               }
             else if (c == '*')
               {
-                precision = va_arg (ap, long);
+                precision = va_arg (ap, int);
                 c = *++p;
               }
           }
         if (c == 'l')
-          c = *++p;
+          {
+            long_p = 1;
+            c = *++p;
+          }
         if (c == 'l')
           c = *++p;
         if (c == 'l')
@@ -97,17 +103,31 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
           {
           case '%':
             {
-              if (count < size)
+              if (count + 1 < size)
                 *str++ = *p;
               count++;
               break;
             }
           case 'c':
             {
-              c = va_arg (ap, long);
-              if (count < size)
+              c = va_arg (ap, int);
+              width--;
+              if (!left_p)
+                while (width-- > 0)
+                  {
+                    if (count + 1 < size)
+                      *str++ = ' ';
+                    count++;
+                  }
+              if (count + 1 < size)
                 *str++ = c;
               count++;
+              while (width-- > 0)
+                {
+                  if (count + 1 < size)
+                    *str++ = ' ';
+                  count++;
+                }
               break;
             }
           case 'd':
@@ -117,46 +137,63 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
           case 'x':
           case 'X':
             {
-              long d = va_arg (ap, long);
+              long d;
+              if (long_p)
+                d = va_arg (ap, long);
+              else if (c == 'd' || c == 'i')
+                d = va_arg (ap, int);
+              else
+                d = va_arg (ap, unsigned);
               int base = c == 'o' ? 8 : c == 'x' || c == 'X' ? 16 : 10;
-              char *s = ntoab (d, base, c != 'u' && c != 'x' && c != 'X');
+              int signed_p = c == 'd' || c == 'i';
+              char *s = ntoab (d, base, signed_p);
               if (c == 'X')
                 strupr (s);
+              if (*s == '-')
+                sign = *s++;
+              else if (!signed_p)
+                sign = 0;
               int length = strlen (s);
-              if (precision == -1)
-                precision = length;
+              if (precision == 0 && d == 0)
+                length = 0;
+              if (sign)
+                width--;
+              if (precision < 0 && pad == '0' && !left_p)
+                precision = width;
+              precision = precision - length;
+              if (precision < 0)
+                precision = 0;
+              width = width - precision - length;
               if (!left_p)
+                while (width-- > 0)
+                  {
+                    if (count + 1 < size)
+                      *str++ = ' ';
+                    count++;
+                  }
+              if (sign)
                 {
-                  while (width-- > precision)
-                    {
-                      if (count < size)
-                        *str++ = pad;
-                      count++;
-                    }
-                  while (precision > length)
-                    {
-                      if (count < size)
-                        *str++ = '0';
-                      precision--;
-                      width--;
-                      count++;
-                    }
+                  if (count + 1 < size)
+                    *str++ = sign;
+                  count++;
                 }
-              while (*s)
+              while (precision-- > 0)
+                {
+                  if (count + 1 < size)
+                    *str++ = '0';
+                  count++;
+                }
+              while (length-- > 0)
                 {
-                  if (precision-- <= 0)
-                    break;
-                  width--;
                   c = *s++;
-                  if (count < size)
+                  if (count + 1 < size)
                     *str++ = c;
                   count++;
                 }
-              while (width > 0)
+              while (width-- > 0)
                 {
-                  width--;
-                  if (count < size)
-                    *str++ = pad;
+                  if (count + 1 < size)
+                    *str++ = ' ';
                   count++;
                 }
               break;
@@ -164,41 +201,28 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
           case 's':
             {
               char *s = va_arg (ap, char *);
-              int length = s ? strlen (s) : 0;
-              if (precision == -1)
-                precision = length;
+              int length = 0;
+              while (s && (precision < 0 || length < precision) && s[length])
+                length++;
+              width = width - length;
               if (!left_p)
+                while (width-- > 0)
+                  {
+                    if (count + 1 < size)
+                      *str++ = ' ';
+                    count++;
+                  }
+              while (length-- > 0)
                 {
-                  while (width-- > precision)
-                    {
-                      if (count < size)
-                        *str++ = pad;
-                      count++;
-                    }
-                  while (width > length)
-                    {
-                      if (count < size)
-                        *str++ = ' ';
-                      precision--;
-                      width--;
-                      count++;
-                    }
-                }
-              while (s && *s)
-                {
-                  if (precision-- <= 0)
-                    break;
-                  width--;
                   c = *s++;
-                  if (count < size)
+                  if (count + 1 < size)
                     *str++ = c;
                   count++;
                 }
-              while (width > 0)
+              while (width-- > 0)
                 {
-                  width--;
-                  if (count < size)
-                    *str++ = pad;
+                  if (count + 1 < size)
+                    *str++ = ' ';
                   count++;
                 }
               break;
@@ -220,13 +244,13 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
                 {
                   while (width-- > precision)
                     {
-                      if (count < size)
+                      if (count + 1 < size)
                         *str++ = pad;
                       count++;
                     }
                   while (precision > length)
                     {
-                      if (count < size)
+                      if (count + 1 < size)
                         *str++ = ' ';
                       precision--;
                       width--;
@@ -239,14 +263,14 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
                     break;
                   width--;
                   c = *s++;
-                  if (count < size)
+                  if (count + 1 < size)
                     *str++ = c;
                   count++;
                 }
               while (width > 0)
                 {
                   width--;
-                  if (count < size)
+                  if (count + 1 < size)
                     *str++ = pad;
                   count++;
                 }
@@ -269,7 +293,7 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
         p++;
       }
   va_end (ap);
-  if (count < size)
+  if (size)
     *str = 0;
   return count;
 }
-- 
2.43.0


From 718daf86ced7d0526cd0b3b3677c47db503c2d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:09 +0000
Subject: [PATCH 057/133] fix: formatted input: texts, spaces, missing
 numerals, long and end of input

---
 lib/stdio/vfscanf.c | 188 ++++++++++++++++++++++++++------------------
 lib/stdio/vsscanf.c |  56 ++++++++++---
 2 files changed, 157 insertions(+), 87 deletions(-)

diff --git a/lib/stdio/vfscanf.c b/lib/stdio/vfscanf.c
index b1083a5..da0ca34 100644
--- a/lib/stdio/vfscanf.c
+++ b/lib/stdio/vfscanf.c
@@ -26,97 +26,133 @@
 int
 vfscanf (FILE * stream, char const *template, va_list ap)
 {
-  char p = fgetc (stream);
+  int p = fgetc (stream);
   char const *t = template;
   int count = 0;
-  while (*t && p != EOF)
-    if (*t != '%')
+  int long_p;
+  while (*t)
+    if (isspace (*t))
       {
+        while (isspace (p))
+          p = fgetc (stream);
+        t++;
+      }
+    else if (*t != '%')
+      {
+        if (p == EOF)
+          return count ? count : EOF;
+        if ((char) p != *t)
+          break;
         t++;
         p = fgetc (stream);
       }
     else
       {
         t++;
-        char c = *t;
-        if (c == 'l')
-          c = *++t;
-        switch (c)
+        long_p = 0;
+        while (*t == 'l')
           {
-          case '%':
-            {
-              p = fgetc (stream);
-              break;
-            }
-          case 'c':
-            {
-              char *c = va_arg (ap, char *);
-              *c = p;
-              p = fgetc (stream);
-              count++;
-              break;
-            }
-          case 'd':
-          case 'i':
-          case 'u':
-            {
-              int *d = va_arg (ap, int *);
-              char buf[20];
-              char *q = buf;
-              if (p == '+' || p == '-')
-                {
-                  *q++ = p;
-                  p = fgetc (stream);
-                }
-              while (isdigit (p))
-                {
-                  *q++ = p;
-                  p = fgetc (stream);
-                }
-              ungetc (p, stream);
-              *q = 0;
-              q = buf;
-              *d = abtol (&q, 10);
-              count++;
+            long_p = 1;
+            t++;
+          }
+        if (*t != 'c')
+          while (isspace (p))
+            p = fgetc (stream);
+        if (p == EOF)
+          return count ? count : EOF;
+        if (*t == '%')
+          {
+            if (p != '%')
               break;
-            }
-          case 'e':
-          case 'f':
-          case 'g':
-          case 'E':
-          case 'G':
-            {
-              float *f = va_arg (ap, float *);
-              char buf[20];
-              char *q = buf;
-              if (p == '+' || p == '-')
-                {
-                  *q++ = p;
-                  p = fgetc (stream);
-                }
-              while (isdigit (p))
-                {
-                  *q++ = p;
-                  p = fgetc (stream);
-                }
-              ungetc (p, stream);
-              *q = 0;
-              q = buf;
-              *f = strtod (q, &q);
-              count++;
+            p = fgetc (stream);
+          }
+        else if (*t == 'c')
+          {
+            char *c = va_arg (ap, char *);
+            *c = p;
+            p = fgetc (stream);
+            count++;
+          }
+        else if (*t == 'd' || *t == 'i' || *t == 'u')
+          {
+            unsigned long i = 0;
+            int sign_p = 0;
+            int digits = 0;
+            int base = 10;
+            if (p == '+' || p == '-')
+              {
+                sign_p = p == '-';
+                p = fgetc (stream);
+              }
+            if (*t == 'i' && p == '0')
+              {
+                base = 8;
+                digits = 1;
+                p = fgetc (stream);
+                if (p == 'x' || p == 'X')
+                  {
+                    base = 16;
+                    digits = 0;
+                    p = fgetc (stream);
+                  }
+              }
+            while (isnumber (p, base))
+              {
+                i = i * base;
+                if (isdigit (p))
+                  i = i + p - '0';
+                else
+                  i = i + tolower (p) - 'a' + 10;
+                digits = 1;
+                p = fgetc (stream);
+              }
+            if (!digits)
               break;
-            }
-          default:
-            {
-              eputs ("vsscanf: not supported: %:");
-              eputc (c);
-              eputs ("\n");
-              t++;
-              p = fgetc (stream);
-            }
+            if (sign_p)
+              i = -i;
+            if (long_p)
+              {
+                long *l = va_arg (ap, long *);
+                *l = i;
+              }
+            else
+              {
+                int *d = va_arg (ap, int *);
+                *d = i;
+              }
+            count++;
+          }
+        else if (*t == 'e' || *t == 'f' || *t == 'g' || *t == 'E' || *t == 'G')
+          {
+            float *f = va_arg (ap, float *);
+            char buf[20];
+            char *q = buf;
+            if (p == '+' || p == '-')
+              {
+                *q++ = p;
+                p = fgetc (stream);
+              }
+            while (isdigit (p) && q < buf + 19)
+              {
+                *q++ = p;
+                p = fgetc (stream);
+              }
+            *q = 0;
+            q = buf;
+            *f = strtod (q, &q);
+            count++;
+          }
+        else
+          {
+            eputs ("vfscanf: not supported: %:");
+            eputc (*t);
+            eputs ("\n");
+            break;
           }
         t++;
       }
   va_end (ap);
+  if (p != EOF)
+    ungetc (p, stream);
   return count;
 }
diff --git a/lib/stdio/vsscanf.c b/lib/stdio/vsscanf.c
index 4573bc0..ee6cc5e 100644
--- a/lib/stdio/vsscanf.c
+++ b/lib/stdio/vsscanf.c
@@ -29,24 +29,45 @@ int
 vsscanf (char const *s, char const *template, va_list ap)
 {
   char *p = (char *) s;
+  char *q;
   char const *t = template;
   int count = 0;
-  while (*t && *p)
-    if (*t != '%')
+  int long_p;
+  long i;
+  while (*t)
+    if (isspace (*t))
       {
+        while (isspace (*p))
+          p++;
+        t++;
+      }
+    else if (*t != '%')
+      {
+        if (*p != *t)
+          break;
         t++;
         p++;
       }
     else
       {
         t++;
-        char c = *t;
-        if (c == 'l')
-          c = *++t;
-        switch (c)
+        long_p = 0;
+        while (*t == 'l')
+          {
+            long_p = 1;
+            t++;
+          }
+        if (*t != 'c')
+          while (isspace (*p))
+            p++;
+        if (!*p)
+          break;
+        switch (*t)
           {
           case '%':
             {
+              if (*p != '%')
+                return count;
               p++;
               break;
             }
@@ -61,8 +82,20 @@ vsscanf (char const *s, char const *template, va_list ap)
           case 'i':
           case 'u':
             {
-              int *d = va_arg (ap, int *);
-              *d = abtol ((char const **)&p, 10);
+              i = strtol (p, &q, *t == 'i' ? 0 : 10);
+              if (q == p)
+                return count;
+              p = q;
+              if (long_p)
+                {
+                  long *l = va_arg (ap, long *);
+                  *l = i;
+                }
+              else
+                {
+                  int *d = va_arg (ap, int *);
+                  *d = i;
+                }
               count++;
               break;
             }
@@ -80,14 +113,15 @@ vsscanf (char const *s, char const *template, va_list ap)
           default:
             {
               eputs ("vsscanf: not supported: %:");
-              eputc (c);
+              eputc (*t);
               eputs ("\n");
-              t++;
-              p++;
+              return count;
             }
           }
         t++;
       }
   va_end (ap);
+  if (*t && !*p && !count)
+    return EOF;
   return count;
 }
-- 
2.43.0


From abaaa2922831d269afbf78dd3b65220a65bf9ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:38 +0000
Subject: [PATCH 058/133] fix: malloc and calloc when the system refuses or the
 size wraps

---
 lib/linux/malloc.c  | 13 ++++++++++---
 lib/stdlib/calloc.c |  9 ++++++++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/lib/linux/malloc.c b/lib/linux/malloc.c
index ea609d5..5d684a1 100644
--- a/lib/linux/malloc.c
+++ b/lib/linux/malloc.c
@@ -20,6 +20,7 @@
  */
 
 #include <mes/lib.h>
+#include <errno.h>
 #include <string.h>
 #include <stddef.h>
 #include <stdint.h>
@@ -34,9 +35,15 @@ malloc (size_t size)
   /* align what we give back. */
   __brk = (char*) (((uintptr_t) __brk
                     + sizeof (max_align_t) - 1) & -sizeof (max_align_t));
-  if (brk (__brk + size) == -1)
-    return 0;
   char *p = __brk;
-  __brk = __brk + size;
+  char *end = p + size;
+  /* The brk system call returns the old break when it fails. */
+  if ((uintptr_t) end < (uintptr_t) p
+      || brk (end) != cast_charp_to_long (end))
+    {
+      errno = ENOMEM;
+      return 0;
+    }
+  __brk = end;
   return p;
 }
diff --git a/lib/stdlib/calloc.c b/lib/stdlib/calloc.c
index 1a10618..13c24e1 100644
--- a/lib/stdlib/calloc.c
+++ b/lib/stdlib/calloc.c
@@ -18,6 +18,7 @@
  * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -25,7 +26,13 @@ void *
 calloc (size_t nmemb, size_t size)
 {
   size_t count = nmemb * size;
+  if (size != 0 && count / size != nmemb)
+    {
+      errno = ENOMEM;
+      return 0;
+    }
   void *p = malloc (count);
-  memset (p, 0, count);
+  if (p != 0)
+    memset (p, 0, count);
   return p;
 }
-- 
2.43.0


From 1b0abce16eeb77c63726849fc1f45083e8eb321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 059/133] fix: qsort of arrays with equal elements

---
 lib/stdlib/qsort.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/stdlib/qsort.c b/lib/stdlib/qsort.c
index 68352f5..e34e91c 100644
--- a/lib/stdlib/qsort.c
+++ b/lib/stdlib/qsort.c
@@ -54,8 +54,6 @@ qpart (void *base, size_t count, size_t size, int (*compare) (void const *, void
 #endif
           i++;
         }
-      else if (c == 0)
-        i++;
     }
   if (compare (base + count * size, base + i * size) < 0)
     qswap (base + i * size, base + count * size, size);
@@ -67,13 +65,13 @@ qsort (void *base, size_t count, size_t size, int (*compare) (void const *, void
 {
   if (count > 1)
     {
-      int p = qpart (base, count - 1, size, compare);
+      size_t p = qpart (base, count - 1, size, compare);
       qsort (base, p, size, compare);
 #if 1                           //__x86_64__
-      qsort (base + p * size, count - p, size, compare);
+      qsort (base + (p + 1) * size, count - p - 1, size, compare);
 #else
-      int p1 = base + p * size;
-      int p2 = count - p;
+      int p1 = base + (p + 1) * size;
+      int p2 = count - p - 1;
       qsort (p1, p2, size, compare);
 #endif
     }
-- 
2.43.0


From 842e73eab889db661994425babbc433e11d1e5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 060/133] fix: getopt and getopt_long: -- ends the options

---
 lib/posix/getopt.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/posix/getopt.c b/lib/posix/getopt.c
index 5ade18e..d44f442 100644
--- a/lib/posix/getopt.c
+++ b/lib/posix/getopt.c
@@ -158,6 +158,14 @@ _getopt_internal (int argc, char *const
           return EOF;
         }
 
+      /* The special argument "--" ends the options.  */
+      if (argv[optind][0] == '-' && argv[optind][1] == '-'
+          && argv[optind][2] == '\0')
+        {
+          optind++;
+          return EOF;
+        }
+
       /* If we have come to a non-option and did not permute it,
          either stop the scan or describe it to the caller and pass it by.  */
 
-- 
2.43.0


From 94974a45497096c1f71efcd4683f65748c501053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 061/133] fix: unsetenv of a name that occurs twice in a row

---
 lib/posix/unsetenv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/posix/unsetenv.c b/lib/posix/unsetenv.c
index 726f626..efc186f 100644
--- a/lib/posix/unsetenv.c
+++ b/lib/posix/unsetenv.c
@@ -36,6 +36,7 @@ unsetenv (char const *name)
           while (*q++)
             q[0] = q[1];
         }
-      p++;
+      else
+        p++;
     }
 }
-- 
2.43.0


From 9b0d41619407bf703ab41cb86b2a8f74a19dfc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:14 +0000
Subject: [PATCH 062/133] fix: setenv: overwrite, invalid names, room in the
 environment

---
 lib/posix/setenv.c | 48 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/lib/posix/setenv.c b/lib/posix/setenv.c
index 321a5ab..d20a896 100644
--- a/lib/posix/setenv.c
+++ b/lib/posix/setenv.c
@@ -19,18 +19,37 @@
  */
 
 #include <mes/lib.h>
+#include <errno.h>
 #include <string.h>
 #include <stdlib.h>
 
 // CONSTANT M2_PTR_SIZE 4
 #define M2_PTR_SIZE 1
+// CONSTANT EINVAL 22
 
 int
 setenv (char const *s, char const *v, int overwrite_p)
 {
   char **p = environ;
+  char **table;
   int length = strlen (s);
-  char* q;
+  int count = 0;
+  int i;
+  char *q;
+
+  if (length == 0)
+    {
+      errno = EINVAL;
+      return -1;
+    }
+  for (i = 0; i < length; i = i + 1)
+    {
+      if (s[i] == '=')
+        {
+          errno = EINVAL;
+          return -1;
+        }
+    }
 
   while (p[0] != 0)
     {
@@ -41,16 +60,33 @@ setenv (char const *s, char const *v, int overwrite_p)
             break;
         }
       p = p + M2_PTR_SIZE;
+      count = count + 1;
+    }
+  if (p[0] != 0)
+    {
+      if (overwrite_p == 0)
+        return 0;
     }
   char *entry = malloc (length + strlen (v) + 2);
-  int end_p = p[0] == 0;
-  p[0] = entry;
+  if (entry == 0)
+    return -1;
   strcpy (entry, s);
   strcpy (entry + length, "=");
   strcpy (entry + length + 1, v);
-  entry[length + strlen (v) + 2] = 0;
-  if (end_p != 0)
-    p[1] = 0;
+  if (p[0] == 0)
+    {
+      /* There is no room for another entry: use a table of our own. */
+      table = malloc ((count + 2) * sizeof (char *));
+      if (table == 0)
+        return -1;
+      for (i = 0; i < count; i = i + 1)
+        table[i] = environ[i];
+      table[count] = entry;
+      table[count + 1] = 0;
+      environ = table;
+    }
+  else
+    p[0] = entry;
 
   return 0;
 }
-- 
2.43.0


From e3d49461168f366523ac32d252c245cb50d8696c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:39 +0000
Subject: [PATCH 063/133] fix: search_path: missing PATH, empty, last and long
 entries, directories

---
 lib/mes/search-path.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/lib/mes/search-path.c b/lib/mes/search-path.c
index afedf13..c5da655 100644
--- a/lib/mes/search-path.c
+++ b/lib/mes/search-path.c
@@ -21,12 +21,14 @@
 #include <mes/lib.h>
 #include <string.h>
 #include <stdlib.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 char *
 search_path (char const *file_name)
 {
-  static char buf[256];
+  static char buf[4096];
+  struct stat st;
   char *path = getenv ("PATH");
   if (__mes_debug ())
     {
@@ -34,23 +36,34 @@ search_path (char const *file_name)
       eputs (file_name);
       eputs ("\n");
     }
-  while (*path)
+  if (!path || !*file_name)
+    return 0;
+  while (path)
     {
       char *end = strchr (path, ':');
       if (!end)
         end = strchr (path, '\0');
-      strncpy (buf, path, end - path);
-      buf[end - path] = 0;
+      size_t length = end - path;
+      if (length + strlen (file_name) + 2 > sizeof (buf))
+        {
+          path = *end ? end + 1 : 0;
+          continue;
+        }
+      memcpy (buf, path, length);
+      buf[length] = 0;
       if (__mes_debug ())
         {
           eputs (" dir: ");
           eputs (buf);
           eputs ("\n");
         }
-      if (buf[end - path] != '/')
+      /* An empty entry is the current directory.  */
+      if (length == 0)
+        strcpy (buf, ".");
+      if (length == 0 || buf[length - 1] != '/')
         strcat (buf, "/");
       strcat (buf, file_name);
-      if (!access (buf, X_OK))
+      if (!access (buf, X_OK) && !stat (buf, &st) && !S_ISDIR (st.st_mode))
         {
           if (__mes_debug ())
             {
@@ -60,7 +73,7 @@ search_path (char const *file_name)
             }
           return buf;
         }
-      path = end + 1;
+      path = *end ? end + 1 : 0;
     }
   return 0;
 }
-- 
2.43.0


From 2f82c53adb6e25d5e4b8900d94e6408a7ee00add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:39 +0000
Subject: [PATCH 064/133] fix: layout of struct stat on x86_64

---
 include/sys/stat.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sys/stat.h b/include/sys/stat.h
index 0aefa28..f77e2cd 100644
--- a/include/sys/stat.h
+++ b/include/sys/stat.h
@@ -63,10 +63,11 @@ struct stat
 {
   unsigned long  st_dev;
   unsigned long  st_ino;
+  unsigned long  st_nlink;
   unsigned int   st_mode;
-  unsigned int   st_nlink;
   unsigned int   st_uid;
   unsigned int   st_gid;
+  unsigned int   __pad0;
   unsigned long  st_rdev;
   long           st_size;
   unsigned long  st_blksize;
@@ -79,6 +80,7 @@ struct stat
   unsigned long  st_ctime_usec;
   unsigned long  __foo0;
   unsigned long  __foo1;
+  unsigned long  __foo2;
 };
 #endif
 // *INDENT-ON*
-- 
2.43.0


From 326c00d54cf6d131af7e0680fac810d08e74b11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 065/133] fix: file descriptors outside the push-back and read
 buffers

---
 include/mes/lib.h         |  1 +
 lib/mes/__buffered_read.c | 13 +++++++++++++
 lib/mes/fdgetc.c          | 21 ++++++++++++++++++---
 lib/mes/fdungetc.c        |  4 ++++
 4 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/include/mes/lib.h b/include/mes/lib.h
index 549cca1..9f21e9c 100644
--- a/include/mes/lib.h
+++ b/include/mes/lib.h
@@ -70,6 +70,7 @@ extern void (*__call_at_exit) (void);
 void __assert_fail (char *s);
 ssize_t __buffered_read (int filedes, void *buffer, size_t size);
 size_t __buffered_read_clear (int filedes);
+size_t __buffered_read_size (int filedes);
 void _exit (int code);
 long brk (void *addr);
 #endif // !SYSTEM_LIBC
diff --git a/lib/mes/__buffered_read.c b/lib/mes/__buffered_read.c
index bac1f30..db0d5dd 100644
--- a/lib/mes/__buffered_read.c
+++ b/lib/mes/__buffered_read.c
@@ -59,9 +59,20 @@ __buffered_read_init (int filedes)
     }
 }
 
+size_t
+__buffered_read_size (int filedes)
+{
+  if (filedes < 0 || filedes >= __FILEDES_MAX)
+    return 0;
+  __buffered_read_init (filedes);
+  return __read_cache[filedes].size;
+}
+
 size_t
 __buffered_read_clear (int filedes)
 {
+  if (filedes < 0 || filedes >= __FILEDES_MAX)
+    return 0;
   __buffered_read_init (filedes);
   size_t size = __read_cache[filedes].size;
   __read_cache[filedes].size = 0;
@@ -72,6 +83,8 @@ ssize_t
 __buffered_read (int filedes, void *buffer, size_t size)
 {
   size_t todo = size;
+  if (filedes < 0 || filedes >= __FILEDES_MAX)
+    return _read (filedes, buffer, size);
   __buffered_read_init (filedes);
   struct __read_buffer *cache = &__read_cache[filedes];
   char *p = buffer;
diff --git a/lib/mes/fdgetc.c b/lib/mes/fdgetc.c
index e5c63a7..24154a1 100644
--- a/lib/mes/fdgetc.c
+++ b/lib/mes/fdgetc.c
@@ -31,6 +31,10 @@ int *__ungetc_buf;
 int
 __ungetc_p (int filedes)
 {
+  if (filedes < 0)
+    return 0;
+  if (filedes >= __FILEDES_MAX)
+    return 0;
   if (__ungetc_buf == 0)
     __ungetc_init ();
   return __ungetc_buf[filedes] >= 0;
@@ -51,6 +55,10 @@ __ungetc_init ()
 void
 __ungetc_clear (int filedes)
 {
+  if (filedes < 0)
+    return;
+  if (filedes >= __FILEDES_MAX)
+    return;
   if (__ungetc_buf == 0)
     __ungetc_init ();
   __ungetc_buf[filedes] = -1;
@@ -59,6 +67,10 @@ __ungetc_clear (int filedes)
 void
 __ungetc_set (int filedes, int c)
 {
+  if (filedes < 0)
+    return;
+  if (filedes >= __FILEDES_MAX)
+    return;
   if (__ungetc_buf == 0)
     __ungetc_init ();
   __ungetc_buf[filedes] = c;
@@ -71,9 +83,12 @@ fdgetc (int fd)
     __ungetc_init ();
 
   char c;
-  int i = __ungetc_buf[fd];
-  if (i >= 0)
-    __ungetc_buf[fd] = -1;
+  int i = -1;
+  if (__ungetc_p (fd))
+    {
+      i = __ungetc_buf[fd];
+      __ungetc_buf[fd] = -1;
+    }
   else
     {
       int r = read (fd, &c, 1);
diff --git a/lib/mes/fdungetc.c b/lib/mes/fdungetc.c
index 8376c61..3df1258 100644
--- a/lib/mes/fdungetc.c
+++ b/lib/mes/fdungetc.c
@@ -32,6 +32,10 @@ fdungetc (int c, int fd)
       eputs ("\n");
       assert_msg (0, "0");
     }
+  if (fd < 0)
+    return -1;
+  if (fd >= __FILEDES_MAX)
+    return -1;
   __ungetc_set (fd, c);
   return c;
 }
-- 
2.43.0


From f73ec297ec13ba1918b5dc916eb8e9417dac8d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 066/133] fix: read: bytes lost when a later part fails,
 waiting for more than there is

---
 lib/mes/__buffered_read.c | 48 ++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/lib/mes/__buffered_read.c b/lib/mes/__buffered_read.c
index db0d5dd..0be2832 100644
--- a/lib/mes/__buffered_read.c
+++ b/lib/mes/__buffered_read.c
@@ -90,32 +90,38 @@ __buffered_read (int filedes, void *buffer, size_t size)
   char *p = buffer;
   if (!cache->size && size > __read_buffer_max)
     return _read (filedes, buffer, size);
-  while (cache->size > 0 && todo)
+  while (todo)
     {
-      todo--;
-      *p++ = cache->string[__read_buffer_max - cache->size--];
-    }
-  if (todo)
-    {
-#if !__MESC__
-      if (todo > __read_buffer_max)
-        return size - todo + _read (filedes, p, todo);
-      if (__mes_debug () > 4)
-        {
-          eputs ("__buffered_read: ");
-          eputs (itoa (__read_buffer_max));
-          eputs ("\n");
-        }
-#endif
-      ssize_t bytes = _read (filedes, cache->string, __read_buffer_max);
-      if (bytes < 0)
-        return -1;
-      if (bytes)
+      if (!cache->size)
         {
+          /* With something to return, wait for more only if this is a
+             file: a pipe or terminal may not have any more now.  */
+          if (todo < size && lseek (filedes, 0, SEEK_CUR) == -1)
+            break;
+          ssize_t bytes;
+          if (todo > __read_buffer_max)
+            bytes = _read (filedes, p, todo);
+          else
+            bytes = _read (filedes, cache->string, __read_buffer_max);
+          if (bytes <= 0)
+            {
+              if (todo == size)
+                return bytes;
+              break;
+            }
+          if (todo > __read_buffer_max)
+            {
+              todo = todo - bytes;
+              break;
+            }
           cache->size = bytes;
           if (bytes < __read_buffer_max)
             memmove (cache->string + __read_buffer_max - bytes, cache->string, bytes);
-          return size - todo + __buffered_read (filedes, p, todo);
+        }
+      while (cache->size > 0 && todo)
+        {
+          todo--;
+          *p++ = cache->string[__read_buffer_max - cache->size--];
         }
     }
   return size - todo;
-- 
2.43.0


From 2133bbd04976fb54d830b908d975b2afcd9cca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 067/133] fix: bytes read ahead are lost when a seek fails or
 upon write to what cannot seek

---
 lib/linux/lseek.c | 11 +++++------
 lib/posix/write.c |  5 ++---
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/lib/linux/lseek.c b/lib/linux/lseek.c
index f71af59..9a0acfc 100644
--- a/lib/linux/lseek.c
+++ b/lib/linux/lseek.c
@@ -35,12 +35,11 @@ _lseek (int filedes, off_t offset, int whence)
 off_t
 lseek (int filedes, off_t offset, int whence)
 {
-#if !__MESC__ /* FIXME: We want bin/mes-mescc's x86-linux sha256sum to stay the same. */
-  if (_lseek (filedes, 0, SEEK_CUR) == -1)
-    return -1;
-#endif
-  size_t skip = __buffered_read_clear (filedes);
+  size_t skip = __buffered_read_size (filedes);
   if (whence == SEEK_CUR)
     offset -= skip;
-  return _sys_call3 (SYS_lseek, (int) filedes, (long) offset, (int) whence);
+  off_t pos = _sys_call3 (SYS_lseek, (int) filedes, (long) offset, (int) whence);
+  if (pos >= 0)
+    __buffered_read_clear (filedes);
+  return pos;
 }
diff --git a/lib/posix/write.c b/lib/posix/write.c
index c36b2a1..d587b2a 100644
--- a/lib/posix/write.c
+++ b/lib/posix/write.c
@@ -26,9 +26,8 @@
 ssize_t
 write (int filedes, void const *buffer, size_t size)
 {
-  size_t skip = __buffered_read_clear (filedes);
-  if (skip)
-    lseek (filedes, -skip, SEEK_CUR);
+  if (__buffered_read_size (filedes))
+    lseek (filedes, 0, SEEK_CUR);
   int r = _write (filedes, buffer, size);
   if (r < 0)
     {
-- 
2.43.0


From 713967809aa26c30cacbf1631eea91a781c209ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 068/133] fix: bytes read ahead are lost or invented upon dup,
 dup2 and close

---
 kaem.run          |  4 ++--
 lib/linux/close.c |  3 +++
 lib/linux/dup.c   | 13 ++++++++++++-
 lib/linux/dup2.c  | 15 ++++++++++++++-
 lib/m2/dup.c      | 29 +++++++++++++++++++++++++++++
 lib/m2/dup2.c     | 30 ++++++++++++++++++++++++++++++
 6 files changed, 90 insertions(+), 4 deletions(-)
 create mode 100644 lib/m2/dup.c
 create mode 100644 lib/m2/dup2.c

diff --git a/kaem.run b/kaem.run
index 3c78e39..b65b304 100644
--- a/kaem.run
+++ b/kaem.run
@@ -93,8 +93,8 @@ M2-Planet                                       \
     -f lib/m2/time.c                            \
     -f lib/linux/_getcwd.c                      \
     -f lib/m2/getcwd.c                          \
-    -f lib/linux/dup.c                          \
-    -f lib/linux/dup2.c                         \
+    -f lib/m2/dup.c                             \
+    -f lib/m2/dup2.c                            \
     -f lib/string/strcmp.c                      \
     -f lib/string/memcmp.c                      \
     -f lib/linux/unlink.c                       \
diff --git a/lib/linux/close.c b/lib/linux/close.c
index e25e831..dedcc68 100644
--- a/lib/linux/close.c
+++ b/lib/linux/close.c
@@ -25,6 +25,9 @@
 int
 close (int filedes)
 {
+  /* Others may share the file offset: give back what was read ahead.  */
+  if (__buffered_read_size (filedes))
+    lseek (filedes, 0, SEEK_CUR);
   __ungetc_clear (filedes);
   __buffered_read_clear (filedes);
   return _sys_call1 (SYS_close, (int) filedes);
diff --git a/lib/linux/dup.c b/lib/linux/dup.c
index 9237ef9..57c3290 100644
--- a/lib/linux/dup.c
+++ b/lib/linux/dup.c
@@ -18,12 +18,23 @@
  * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <mes/lib.h>
 #include <linux/syscall.h>
 #include <syscall.h>
+#include <unistd.h>
 
 int
 dup (int old)
 {
   long long_old = old;
-  return _sys_call1 (SYS_dup, long_old);
+  /* The copy shares the file offset: give back what was read ahead.  */
+  if (__buffered_read_size (old))
+    lseek (old, 0, SEEK_CUR);
+  int r = _sys_call1 (SYS_dup, long_old);
+  if (r >= 0)
+    {
+      __ungetc_clear (r);
+      __buffered_read_clear (r);
+    }
+  return r;
 }
diff --git a/lib/linux/dup2.c b/lib/linux/dup2.c
index ef99627..cd56989 100644
--- a/lib/linux/dup2.c
+++ b/lib/linux/dup2.c
@@ -18,13 +18,26 @@
  * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <mes/lib.h>
 #include <linux/syscall.h>
 #include <syscall.h>
+#include <unistd.h>
 
 int
 dup2 (int old, int new)
 {
   long long_old = old;
   long long_new = new;
-  return _sys_call2 (SYS_dup2, long_old, long_new);
+  /* The copy shares the file offset: give back what was read ahead.  */
+  if (__buffered_read_size (old))
+    lseek (old, 0, SEEK_CUR);
+  if (new != old && __buffered_read_size (new))
+    lseek (new, 0, SEEK_CUR);
+  int r = _sys_call2 (SYS_dup2, long_old, long_new);
+  if (r >= 0 && new != old)
+    {
+      __ungetc_clear (r);
+      __buffered_read_clear (r);
+    }
+  return r;
 }
diff --git a/lib/m2/dup.c b/lib/m2/dup.c
new file mode 100644
index 0000000..9237ef9
--- /dev/null
+++ b/lib/m2/dup.c
@@ -0,0 +1,29 @@
+/* -*-comment-start: "//";comment-end:""-*-
+ * GNU Mes --- Maxwell Equations of Software
+ * Copyright © 2016,2017,2018,2019 Jan (janneke) Nieuwenhuizen <janneke@gnu.org>
+ *
+ * This file is part of GNU Mes.
+ *
+ * GNU Mes is free software; you can redistribute it and/or modify it
+ * under the terms of the GNU General Public License as published by
+ * the Free Software Foundation; either version 3 of the License, or (at
+ * your option) any later version.
+ *
+ * GNU Mes is distributed in the hope that it will be useful, but
+ * WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ * GNU General Public License for more details.
+ *
+ * You should have received a copy of the GNU General Public License
+ * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
+ */
+
+#include <linux/syscall.h>
+#include <syscall.h>
+
+int
+dup (int old)
+{
+  long long_old = old;
+  return _sys_call1 (SYS_dup, long_old);
+}
diff --git a/lib/m2/dup2.c b/lib/m2/dup2.c
new file mode 100644
index 0000000..ef99627
--- /dev/null
+++ b/lib/m2/dup2.c
@@ -0,0 +1,30 @@
+/* -*-comment-start: "//";comment-end:""-*-
+ * GNU Mes --- Maxwell Equations of Software
+ * Copyright © 2016,2017,2018,2019 Jan (janneke) Nieuwenhuizen <janneke@gnu.org>
+ *
+ * This file is part of GNU Mes.
+ *
+ * GNU Mes is free software; you can redistribute it and/or modify it
+ * under the terms of the GNU General Public License as published by
+ * the Free Software Foundation; either version 3 of the License, or (at
+ * your option) any later version.
+ *
+ * GNU Mes is distributed in the hope that it will be useful, but
+ * WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ * GNU General Public License for more details.
+ *
+ * You should have received a copy of the GNU General Public License
+ * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
+ */
+
+#include <linux/syscall.h>
+#include <syscall.h>
+
+int
+dup2 (int old, int new)
+{
+  long long_old = old;
+  long long_new = new;
+  return _sys_call2 (SYS_dup2, long_old, long_new);
+}
-- 
2.43.0


From ac41d2d8b36c54e33dddd2f3084201d9fdd6f250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 069/133] fix: fopen modes: truncation, append, update and
 creation

---
 lib/stdio/fopen.c | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/lib/stdio/fopen.c b/lib/stdio/fopen.c
index 3164c11..e918ba1 100644
--- a/lib/stdio/fopen.c
+++ b/lib/stdio/fopen.c
@@ -40,22 +40,18 @@ fopen (char const *file_name, char const *opentype)
 
   int fd;
   int mode = 0600;
-  if ((opentype[0] == 'a' || !strcmp (opentype, "r+")) && !access (file_name, O_RDONLY))
-    {
-      int flags = O_RDWR;
-      if (opentype[0] == 'a')
-        flags |= O_APPEND;
-      fd = _open3 (file_name, flags, mode);
-    }
-  else if (opentype[0] == 'w' || opentype[0] == 'a' || !strcmp (opentype, "r+"))
-    {
-      char *plus_p = strchr (opentype, '+');
-      int flags = plus_p ? O_RDWR | O_CREAT : O_WRONLY | O_CREAT | O_TRUNC;
-      fd = _open3 (file_name, flags, mode);
-    }
+  int flags;
+  if (strchr (opentype, '+'))
+    flags = O_RDWR;
+  else if (opentype[0] == 'w' || opentype[0] == 'a')
+    flags = O_WRONLY;
   else
-    fd = _open3 (file_name, O_RDONLY, 0);
-
+    flags = O_RDONLY;
+  if (opentype[0] == 'w')
+    flags |= O_CREAT | O_TRUNC;
+  else if (opentype[0] == 'a')
+    flags |= O_CREAT | O_APPEND;
+  fd = _open3 (file_name, flags, mode);
   if (__mes_debug ())
     {
       eputs (" => fd=");
-- 
2.43.0


From 3ab88c2545a66b62fa9d206f89c74cb1a499b40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 070/133] fix: freopen opens the stream at its own descriptor

---
 lib/stdio/freopen.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/lib/stdio/freopen.c b/lib/stdio/freopen.c
index f9447a0..264cee4 100644
--- a/lib/stdio/freopen.c
+++ b/lib/stdio/freopen.c
@@ -23,6 +23,23 @@
 FILE *
 freopen (char const *file_name, char const *opentype, FILE * stream)
 {
-  fclose (stream);
-  return fopen (file_name, opentype);
+  int filedes = (int) (long) stream;
+  FILE *f;
+  /* Take any descriptor but that of the standard input. */
+  if (filedes != 0)
+    fclose (stream);
+  f = fopen (file_name, opentype);
+  if (!f)
+    {
+      if (filedes == 0)
+        fclose (stream);
+      return 0;
+    }
+  if ((int) (long) f == filedes)
+    return stream;
+  int r = dup2 ((int) (long) f, filedes);
+  fclose (f);
+  if (r < 0)
+    return 0;
+  return stream;
 }
-- 
2.43.0


From 059de804918af7b22e7611463980fd684624735d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 071/133] fix: output functions: values, short writes and
 failures; fread: short reads

---
 lib/mes/eputs.c      | 10 ++++++++-
 lib/mes/fdputc.c     |  5 +++--
 lib/mes/fdputs.c     | 10 ++++++++-
 lib/mes/oputs.c      | 10 ++++++++-
 lib/stdio/fread.c    | 19 +++++++++--------
 lib/stdio/fwrite.c   | 13 ++++++++++-
 lib/stdio/putchar.c  |  5 +++--
 lib/stdio/vfprintf.c | 51 +++++++++++++++++++++++++++++---------------
 lib/stdlib/puts.c    |  3 ++-
 9 files changed, 91 insertions(+), 35 deletions(-)

diff --git a/lib/mes/eputs.c b/lib/mes/eputs.c
index 26bb3e0..85518b6 100644
--- a/lib/mes/eputs.c
+++ b/lib/mes/eputs.c
@@ -25,6 +25,14 @@ int
 eputs (char const *s)
 {
   int i = strlen (s);
-  write (__stderr, s, i);
+  int r;
+  while (i > 0)
+    {
+      r = write (__stderr, s, i);
+      if (r <= 0)
+        return -1;
+      s = s + r;
+      i = i - r;
+    }
   return 0;
 }
diff --git a/lib/mes/fdputc.c b/lib/mes/fdputc.c
index 87c1b80..c13b4f1 100644
--- a/lib/mes/fdputc.c
+++ b/lib/mes/fdputc.c
@@ -24,6 +24,7 @@ int
 fdputc (int c, int fd)
 {
   char *p = cast_intp_to_charp (&c);
-  write (fd, p, 1);
-  return 0;
+  if (write (fd, p, 1) != 1)
+    return -1;
+  return c & 255;
 }
diff --git a/lib/mes/fdputs.c b/lib/mes/fdputs.c
index 7c6d4ab..0f9b2e2 100644
--- a/lib/mes/fdputs.c
+++ b/lib/mes/fdputs.c
@@ -25,6 +25,14 @@ int
 fdputs (char const *s, int fd)
 {
   int i = strlen (s);
-  write (fd, s, i);
+  int r;
+  while (i > 0)
+    {
+      r = write (fd, s, i);
+      if (r <= 0)
+        return -1;
+      s = s + r;
+      i = i - r;
+    }
   return 0;
 }
diff --git a/lib/mes/oputs.c b/lib/mes/oputs.c
index cc00528..6350a5a 100644
--- a/lib/mes/oputs.c
+++ b/lib/mes/oputs.c
@@ -25,6 +25,14 @@ int
 oputs (char const *s)
 {
   int i = strlen (s);
-  write (__stdout, s, i);
+  int r;
+  while (i > 0)
+    {
+      r = write (__stdout, s, i);
+      if (r <= 0)
+        return -1;
+      s = s + r;
+      i = i - r;
+    }
   return 0;
 }
diff --git a/lib/stdio/fread.c b/lib/stdio/fread.c
index 505700c..bd32304 100644
--- a/lib/stdio/fread.c
+++ b/lib/stdio/fread.c
@@ -38,17 +38,18 @@ fread (void *data, size_t size, size_t count, FILE * stream)
   size_t todo = size * count;
   char *buf = (char *) data;
 
-  int bytes = 0;
+  ssize_t bytes = 0;
   while (__fungetc_p (stream) && todo-- && ++bytes)
     *buf++ = fgetc (stream);
   int filedes = (long) stream;
-  if (todo)
+  while (todo)
     {
-      int r = read (filedes, buf, todo);
-      if (r < 0 && !bytes)
-        bytes = r;
-      else
-        bytes += r;
+      ssize_t r = read (filedes, buf, todo);
+      if (r <= 0)
+        break;
+      buf += r;
+      todo -= r;
+      bytes += r;
     }
 
   if (__mes_debug ())
@@ -61,8 +62,8 @@ fread (void *data, size_t size, size_t count, FILE * stream)
       eputs ("\n");
       if (bytes > 0 && bytes < sizeof (debug_buf))
         {
-          strncpy (debug_buf, data, bytes);
-          buf[bytes] = 0;
+          memcpy (debug_buf, data, bytes);
+          debug_buf[bytes] = 0;
           eputs ("fread buf=");
           eputs (debug_buf);
           eputs ("\n");
diff --git a/lib/stdio/fwrite.c b/lib/stdio/fwrite.c
index 2e2030b..a704884 100644
--- a/lib/stdio/fwrite.c
+++ b/lib/stdio/fwrite.c
@@ -37,7 +37,18 @@ fwrite (void const *data, size_t size, size_t count, FILE * stream)
   if (!size || !count)
     return 0;
   int filedes = (long) stream;
-  int bytes = write (filedes, data, size * count);
+  char const *p = data;
+  size_t todo = size * count;
+  ssize_t bytes = 0;
+  while (todo)
+    {
+      ssize_t r = write (filedes, p, todo);
+      if (r <= 0)
+        break;
+      p += r;
+      todo -= r;
+      bytes += r;
+    }
 
   if (__mes_debug () > 2)
     {
diff --git a/lib/stdio/putchar.c b/lib/stdio/putchar.c
index 2ca347f..fdce24c 100644
--- a/lib/stdio/putchar.c
+++ b/lib/stdio/putchar.c
@@ -25,6 +25,7 @@ int
 putchar (int c)
 {
   char *p = cast_intp_to_charp (&c);
-  write (__stdout, p, 1);
-  return 0;
+  if (write (__stdout, p, 1) != 1)
+    return -1;
+  return c & 255;
 }
diff --git a/lib/stdio/vfprintf.c b/lib/stdio/vfprintf.c
index 8581f73..f17333f 100644
--- a/lib/stdio/vfprintf.c
+++ b/lib/stdio/vfprintf.c
@@ -33,7 +33,8 @@ vfprintf (FILE * f, char const *format, va_list ap)
     if (*p != '%')
       {
         count++;
-        fputc (*p++, f);
+        if (fputc (*p++, f) == EOF)
+          return -1;
       }
     else
       {
@@ -99,7 +100,8 @@ vfprintf (FILE * f, char const *format, va_list ap)
           {
           case '%':
             {
-              fputc (*p, f);
+              if (fputc (*p, f) == EOF)
+                return -1;
               count++;
               break;
             }
@@ -110,14 +112,17 @@ vfprintf (FILE * f, char const *format, va_list ap)
               if (!left_p)
                 while (width-- > 0)
                   {
-                    fputc (' ', f);
+                    if (fputc (' ', f) == EOF)
+                      return -1;
                     count++;
                   }
-              fputc (c, f);
+              if (fputc (c, f) == EOF)
+                return -1;
               count++;
               while (width-- > 0)
                 {
-                  fputc (' ', f);
+                  if (fputc (' ', f) == EOF)
+                    return -1;
                   count++;
                 }
               break;
@@ -159,27 +164,32 @@ vfprintf (FILE * f, char const *format, va_list ap)
               if (!left_p)
                 while (width-- > 0)
                   {
-                    fputc (' ', f);
+                    if (fputc (' ', f) == EOF)
+                      return -1;
                     count++;
                   }
               if (sign)
                 {
-                  fputc (sign, f);
+                  if (fputc (sign, f) == EOF)
+                    return -1;
                   count++;
                 }
               while (precision-- > 0)
                 {
-                  fputc ('0', f);
+                  if (fputc ('0', f) == EOF)
+                    return -1;
                   count++;
                 }
               while (length-- > 0)
                 {
-                  fputc (*s++, f);
+                  if (fputc (*s++, f) == EOF)
+                    return -1;
                   count++;
                 }
               while (width-- > 0)
                 {
-                  fputc (' ', f);
+                  if (fputc (' ', f) == EOF)
+                    return -1;
                   count++;
                 }
               break;
@@ -194,17 +204,20 @@ vfprintf (FILE * f, char const *format, va_list ap)
               if (!left_p)
                 while (width-- > 0)
                   {
-                    fputc (' ', f);
+                    if (fputc (' ', f) == EOF)
+                      return -1;
                     count++;
                   }
               while (length-- > 0)
                 {
-                  fputc (*s++, f);
+                  if (fputc (*s++, f) == EOF)
+                    return -1;
                   count++;
                 }
               while (width-- > 0)
                 {
-                  fputc (' ', f);
+                  if (fputc (' ', f) == EOF)
+                    return -1;
                   count++;
                 }
               break;
@@ -226,12 +239,14 @@ vfprintf (FILE * f, char const *format, va_list ap)
                 {
                   while (width-- > precision)
                     {
-                      fputc (pad, f);
+                      if (fputc (pad, f) == EOF)
+                        return -1;
                       count++;
                     }
                   while (precision > length)
                     {
-                      fputc (' ', f);
+                      if (fputc (' ', f) == EOF)
+                        return -1;
                       precision--;
                       width--;
                       count++;
@@ -242,13 +257,15 @@ vfprintf (FILE * f, char const *format, va_list ap)
                   if (precision-- <= 0)
                     break;
                   width--;
-                  fputc (*s++, f);
+                  if (fputc (*s++, f) == EOF)
+                    return -1;
                   count++;
                 }
               while (width > 0)
                 {
                   width--;
-                  fputc (pad, f);
+                  if (fputc (pad, f) == EOF)
+                    return -1;
                   count++;
                 }
               break;
diff --git a/lib/stdlib/puts.c b/lib/stdlib/puts.c
index fea5dff..a6ed1ed 100644
--- a/lib/stdlib/puts.c
+++ b/lib/stdlib/puts.c
@@ -23,6 +23,7 @@
 int
 puts (char const *s)
 {
-  oputs (s);
+  if (oputs (s) < 0)
+    return -1;
   return oputs ("\n");
 }
-- 
2.43.0


From e083a04f91d9e79750ec0e933bef0474542983b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 072/133] fix: ungetc of a negative char, fseek and ftell after
 ungetc

---
 lib/mes/fdungetc.c | 1 +
 lib/stdio/fseek.c  | 4 ++++
 lib/stdio/ftell.c  | 6 +++++-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/mes/fdungetc.c b/lib/mes/fdungetc.c
index 3df1258..0d1141b 100644
--- a/lib/mes/fdungetc.c
+++ b/lib/mes/fdungetc.c
@@ -36,6 +36,7 @@ fdungetc (int c, int fd)
     return -1;
   if (fd >= __FILEDES_MAX)
     return -1;
+  c = c & 255;
   __ungetc_set (fd, c);
   return c;
 }
diff --git a/lib/stdio/fseek.c b/lib/stdio/fseek.c
index ce468ab..a136d80 100644
--- a/lib/stdio/fseek.c
+++ b/lib/stdio/fseek.c
@@ -26,7 +26,11 @@ int
 fseek (FILE * stream, long offset, int whence)
 {
   int filedes = (long) stream;
+  if (whence == SEEK_CUR && __ungetc_p (filedes))
+    offset--;
   off_t pos = lseek (filedes, offset, whence);
+  if (pos >= 0)
+    __ungetc_clear (filedes);
   if (__mes_debug ())
     {
       eputs ("fread fd=");
diff --git a/lib/stdio/ftell.c b/lib/stdio/ftell.c
index aa8ddd3..d3f70e8 100644
--- a/lib/stdio/ftell.c
+++ b/lib/stdio/ftell.c
@@ -25,5 +25,9 @@
 long
 ftell (FILE * stream)
 {
-  return lseek ((int) (long) stream, 0, SEEK_CUR);
+  int filedes = (int) (long) stream;
+  long pos = lseek (filedes, 0, SEEK_CUR);
+  if (pos > 0 && __ungetc_p (filedes))
+    pos--;
+  return pos;
 }
-- 
2.43.0


From 52d34d196c39bc14de9124d6c67d5185b9ea9410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 073/133] fix: feof tells whether the end of file was met

---
 include/m2/lib.h     |  1 +
 include/mes/lib.h    |  1 +
 lib/mes/fdgetc.c     | 17 +++++++++++++++++
 lib/stdio/clearerr.c |  3 +++
 lib/stdio/feof.c     |  6 ++----
 lib/stdio/fread.c    |  1 +
 lib/stdio/ftell.c    |  1 +
 7 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/m2/lib.h b/include/m2/lib.h
index 9376293..28d2412 100644
--- a/include/m2/lib.h
+++ b/include/m2/lib.h
@@ -39,6 +39,7 @@ long cast_voidp_to_long (void const *);
 char *itoa (int number);
 char *ltoa (long number);
 int __ungetc_p (int filedes);
+int __ungetc_eof_p (int filedes);
 int eputs (char *s);
 int oputs (char *s);
 int puts (char *s);
diff --git a/include/mes/lib.h b/include/mes/lib.h
index 9f21e9c..8627414 100644
--- a/include/mes/lib.h
+++ b/include/mes/lib.h
@@ -34,6 +34,7 @@ void __ungetc_init ();
 void __ungetc_clear (int filedes);
 void __ungetc_set (int filedes, int c);
 int __ungetc_p (int filedes);
+int __ungetc_eof_p (int filedes);
 double abtod (char const **p, int base);
 long abtol (char const **p, int base);
 char *dtoab (double number, int base, int signed_p);
diff --git a/lib/mes/fdgetc.c b/lib/mes/fdgetc.c
index 24154a1..1a40e3a 100644
--- a/lib/mes/fdgetc.c
+++ b/lib/mes/fdgetc.c
@@ -40,6 +40,18 @@ __ungetc_p (int filedes)
   return __ungetc_buf[filedes] >= 0;
 }
 
+int
+__ungetc_eof_p (int filedes)
+{
+  if (filedes < 0)
+    return 0;
+  if (filedes >= __FILEDES_MAX)
+    return 0;
+  if (__ungetc_buf == 0)
+    __ungetc_init ();
+  return __ungetc_buf[filedes] == -2;
+}
+
 void
 __ungetc_init ()
 {
@@ -92,6 +104,11 @@ fdgetc (int fd)
   else
     {
       int r = read (fd, &c, 1);
+      /* Remember the end of the file for feof.  */
+      if (r == 0)
+        __ungetc_set (fd, -2);
+      else
+        __ungetc_clear (fd);
       if (r < 1)
         return -1;
       i = c;
diff --git a/lib/stdio/clearerr.c b/lib/stdio/clearerr.c
index f43ec71..a45a81a 100644
--- a/lib/stdio/clearerr.c
+++ b/lib/stdio/clearerr.c
@@ -25,5 +25,8 @@
 void
 clearerr (FILE * stream)
 {
+  int filedes = (int) (long) stream;
+  if (__ungetc_eof_p (filedes))
+    __ungetc_clear (filedes);
   errno = 0;
 }
diff --git a/lib/stdio/feof.c b/lib/stdio/feof.c
index 5d11388..0ef25bc 100644
--- a/lib/stdio/feof.c
+++ b/lib/stdio/feof.c
@@ -18,13 +18,11 @@
  * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <mes/lib.h>
 #include <stdio.h>
 
 int
 feof (FILE * stream)
 {
-  int c = fgetc (stream);
-  if (c != EOF)
-    ungetc (c, stream);
-  return c == EOF;
+  return __ungetc_eof_p ((int) (long) stream);
 }
diff --git a/lib/stdio/fread.c b/lib/stdio/fread.c
index bd32304..f6a4371 100644
--- a/lib/stdio/fread.c
+++ b/lib/stdio/fread.c
@@ -45,6 +45,7 @@ fread (void *data, size_t size, size_t count, FILE * stream)
   while (todo)
     {
       ssize_t r = read (filedes, buf, todo);
+      __ungetc_set (filedes, r == 0 ? -2 : -1);
       if (r <= 0)
         break;
       buf += r;
diff --git a/lib/stdio/ftell.c b/lib/stdio/ftell.c
index d3f70e8..1e0ef37 100644
--- a/lib/stdio/ftell.c
+++ b/lib/stdio/ftell.c
@@ -18,6 +18,7 @@
  * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <mes/lib.h>
 #include <fcntl.h>
 #include <stdio.h>
 #include <unistd.h>
-- 
2.43.0


From a3318524199fb56fe5eec3ea9c5c274f6bf25c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 074/133] fix: fflush of pipes, perror, remove of symbolic
 links

---
 lib/stdio/fflush.c | 7 ++++++-
 lib/stdio/perror.c | 2 +-
 lib/stdio/remove.c | 9 ++++-----
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/lib/stdio/fflush.c b/lib/stdio/fflush.c
index 0993089..f161435 100644
--- a/lib/stdio/fflush.c
+++ b/lib/stdio/fflush.c
@@ -18,6 +18,7 @@
  * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <errno.h>
 #include <stdio.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -28,5 +29,9 @@ fflush (FILE * stream)
   int filedes = (long) stream;
   if (filedes < 3)
     return 0;
-  return fsync (filedes);
+  int r = fsync (filedes);
+  /* There is nothing to synchronize for a pipe or terminal.  */
+  if (r < 0 && (errno == EINVAL || errno == EROFS))
+    return 0;
+  return r;
 }
diff --git a/lib/stdio/perror.c b/lib/stdio/perror.c
index 3db9bb2..4f3444e 100644
--- a/lib/stdio/perror.c
+++ b/lib/stdio/perror.c
@@ -26,5 +26,5 @@
 void
 perror (char const *message)
 {
-  fprintf (stderr, "%s: %s\n", strerror (errno), message);
+  fprintf (stderr, "%s: %s\n", message, strerror (errno));
 }
diff --git a/lib/stdio/remove.c b/lib/stdio/remove.c
index ebc7c93..f939aad 100644
--- a/lib/stdio/remove.c
+++ b/lib/stdio/remove.c
@@ -18,6 +18,7 @@
  * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <errno.h>
 #include <stdio.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -25,10 +26,8 @@
 int
 remove (char const *file_name)
 {
-  struct stat buf;
-  if (stat (file_name, &buf) < 0)
-    return -1;
-  if (S_ISDIR (buf.st_mode))
+  int r = unlink (file_name);
+  if (r < 0 && errno == EISDIR)
     return rmdir (file_name);
-  return unlink (file_name);
+  return r;
 }
-- 
2.43.0


From 20abe89ef196622fa12e41d4cedc7d803e57d382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:36 +0000
Subject: [PATCH 075/133] fix: descriptors that share a file offset

---
 include/mes/lib.h         |  1 +
 lib/linux/_open3.c        |  2 +-
 lib/linux/close.c         |  3 ++-
 lib/linux/dup.c           |  4 +++-
 lib/linux/dup2.c          |  4 +++-
 lib/mes/__buffered_read.c | 22 +++++++++++++++++++++-
 lib/posix/write.c         |  5 ++++-
 lib/stdio/fflush.c        |  2 +-
 8 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/include/mes/lib.h b/include/mes/lib.h
index 8627414..977cbd4 100644
--- a/include/mes/lib.h
+++ b/include/mes/lib.h
@@ -72,6 +72,7 @@ void __assert_fail (char *s);
 ssize_t __buffered_read (int filedes, void *buffer, size_t size);
 size_t __buffered_read_clear (int filedes);
 size_t __buffered_read_size (int filedes);
+void __buffered_read_share (int filedes, int share_p);
 void _exit (int code);
 long brk (void *addr);
 #endif // !SYSTEM_LIBC
diff --git a/lib/linux/_open3.c b/lib/linux/_open3.c
index 3072f9b..1e6c4c5 100644
--- a/lib/linux/_open3.c
+++ b/lib/linux/_open3.c
@@ -30,7 +30,7 @@ _open3 (char const *file_name, int flags, int mask)
   if (r > 2)
     {
       __ungetc_clear (r);
-      __buffered_read_clear (r);
+      __buffered_read_share (r, 0);
     }
   return r;
 }
diff --git a/lib/linux/close.c b/lib/linux/close.c
index dedcc68..ddb7c78 100644
--- a/lib/linux/close.c
+++ b/lib/linux/close.c
@@ -20,6 +20,7 @@
 
 #include <linux/syscall.h>
 #include <syscall.h>
+#include <stdio.h>
 #include <mes/lib.h>
 
 int
@@ -29,6 +30,6 @@ close (int filedes)
   if (__buffered_read_size (filedes))
     lseek (filedes, 0, SEEK_CUR);
   __ungetc_clear (filedes);
-  __buffered_read_clear (filedes);
+  __buffered_read_share (filedes, 0);
   return _sys_call1 (SYS_close, (int) filedes);
 }
diff --git a/lib/linux/dup.c b/lib/linux/dup.c
index 57c3290..8e08e04 100644
--- a/lib/linux/dup.c
+++ b/lib/linux/dup.c
@@ -21,6 +21,7 @@
 #include <mes/lib.h>
 #include <linux/syscall.h>
 #include <syscall.h>
+#include <stdio.h>
 #include <unistd.h>
 
 int
@@ -34,7 +35,8 @@ dup (int old)
   if (r >= 0)
     {
       __ungetc_clear (r);
-      __buffered_read_clear (r);
+      __buffered_read_share (old, 1);
+      __buffered_read_share (r, 1);
     }
   return r;
 }
diff --git a/lib/linux/dup2.c b/lib/linux/dup2.c
index cd56989..1861eae 100644
--- a/lib/linux/dup2.c
+++ b/lib/linux/dup2.c
@@ -21,6 +21,7 @@
 #include <mes/lib.h>
 #include <linux/syscall.h>
 #include <syscall.h>
+#include <stdio.h>
 #include <unistd.h>
 
 int
@@ -37,7 +38,8 @@ dup2 (int old, int new)
   if (r >= 0 && new != old)
     {
       __ungetc_clear (r);
-      __buffered_read_clear (r);
+      __buffered_read_share (old, 1);
+      __buffered_read_share (r, 1);
     }
   return r;
 }
diff --git a/lib/mes/__buffered_read.c b/lib/mes/__buffered_read.c
index 0be2832..071fa44 100644
--- a/lib/mes/__buffered_read.c
+++ b/lib/mes/__buffered_read.c
@@ -21,6 +21,7 @@
 #include <mes/lib.h>
 #include <stdlib.h>
 #include <string.h>
+#include <stdio.h>
 
 #if !__MESC__
 #define __READ_BUFFER_MAX 128
@@ -65,16 +66,33 @@ __buffered_read_size (int filedes)
   if (filedes < 0 || filedes >= __FILEDES_MAX)
     return 0;
   __buffered_read_init (filedes);
+  if (__read_cache[filedes].size < 0)
+    return 0;
   return __read_cache[filedes].size;
 }
 
+/* Descriptors that share a file offset cannot each read ahead.  */
+void
+__buffered_read_share (int filedes, int share_p)
+{
+  if (filedes < 0 || filedes >= __FILEDES_MAX)
+    return;
+  __buffered_read_init (filedes);
+  if (share_p)
+    __read_cache[filedes].size = -1;
+  else
+    __read_cache[filedes].size = 0;
+}
+
 size_t
 __buffered_read_clear (int filedes)
 {
   if (filedes < 0 || filedes >= __FILEDES_MAX)
     return 0;
   __buffered_read_init (filedes);
-  size_t size = __read_cache[filedes].size;
+  ssize_t size = __read_cache[filedes].size;
+  if (size < 0)
+    return 0;
   __read_cache[filedes].size = 0;
   return size;
 }
@@ -88,6 +106,8 @@ __buffered_read (int filedes, void *buffer, size_t size)
   __buffered_read_init (filedes);
   struct __read_buffer *cache = &__read_cache[filedes];
   char *p = buffer;
+  if (cache->size < 0)
+    return _read (filedes, buffer, size);
   if (!cache->size && size > __read_buffer_max)
     return _read (filedes, buffer, size);
   while (todo)
diff --git a/lib/posix/write.c b/lib/posix/write.c
index d587b2a..0e8f1b8 100644
--- a/lib/posix/write.c
+++ b/lib/posix/write.c
@@ -26,8 +26,11 @@
 ssize_t
 write (int filedes, void const *buffer, size_t size)
 {
+  /* Write at the position of the reader, not at the end of what was
+     read ahead; a pipe or terminal has no position.  */
   if (__buffered_read_size (filedes))
-    lseek (filedes, 0, SEEK_CUR);
+    if (lseek (filedes, 0, SEEK_CUR) == -1 && errno != ESPIPE)
+      return -1;
   int r = _write (filedes, buffer, size);
   if (r < 0)
     {
diff --git a/lib/stdio/fflush.c b/lib/stdio/fflush.c
index f161435..0a256a8 100644
--- a/lib/stdio/fflush.c
+++ b/lib/stdio/fflush.c
@@ -31,7 +31,7 @@ fflush (FILE * stream)
     return 0;
   int r = fsync (filedes);
   /* There is nothing to synchronize for a pipe or terminal.  */
-  if (r < 0 && (errno == EINVAL || errno == EROFS))
+  if (r < 0 && errno == EINVAL)
     return 0;
   return r;
 }
-- 
2.43.0


From e140d6f3cc17fe95e2c7365c22e7bf7ad5fed033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:54 +0000
Subject: [PATCH 076/133] fix: copies of a descriptor share what was read ahead

---
 include/mes/lib.h         |   4 +-
 lib/linux/_open3.c        |   2 +-
 lib/linux/close.c         |   7 +--
 lib/linux/dup.c           |   8 +--
 lib/linux/dup2.c          |  12 +---
 lib/mes/__buffered_read.c | 116 +++++++++++++++++++++++++++++---------
 6 files changed, 98 insertions(+), 51 deletions(-)

diff --git a/include/mes/lib.h b/include/mes/lib.h
index 977cbd4..e4b4fbd 100644
--- a/include/mes/lib.h
+++ b/include/mes/lib.h
@@ -72,7 +72,9 @@ void __assert_fail (char *s);
 ssize_t __buffered_read (int filedes, void *buffer, size_t size);
 size_t __buffered_read_clear (int filedes);
 size_t __buffered_read_size (int filedes);
-void __buffered_read_share (int filedes, int share_p);
+void __buffered_read_release (int filedes);
+void __buffered_read_share (int filedes, int new);
+void __buffered_read_sync (int filedes);
 void _exit (int code);
 long brk (void *addr);
 #endif // !SYSTEM_LIBC
diff --git a/lib/linux/_open3.c b/lib/linux/_open3.c
index 1e6c4c5..027e789 100644
--- a/lib/linux/_open3.c
+++ b/lib/linux/_open3.c
@@ -30,7 +30,7 @@ _open3 (char const *file_name, int flags, int mask)
   if (r > 2)
     {
       __ungetc_clear (r);
-      __buffered_read_share (r, 0);
+      __buffered_read_release (r);
     }
   return r;
 }
diff --git a/lib/linux/close.c b/lib/linux/close.c
index ddb7c78..392473e 100644
--- a/lib/linux/close.c
+++ b/lib/linux/close.c
@@ -20,16 +20,13 @@
 
 #include <linux/syscall.h>
 #include <syscall.h>
-#include <stdio.h>
 #include <mes/lib.h>
 
 int
 close (int filedes)
 {
-  /* Others may share the file offset: give back what was read ahead.  */
-  if (__buffered_read_size (filedes))
-    lseek (filedes, 0, SEEK_CUR);
+  __buffered_read_sync (filedes);
   __ungetc_clear (filedes);
-  __buffered_read_share (filedes, 0);
+  __buffered_read_release (filedes);
   return _sys_call1 (SYS_close, (int) filedes);
 }
diff --git a/lib/linux/dup.c b/lib/linux/dup.c
index 8e08e04..b08726a 100644
--- a/lib/linux/dup.c
+++ b/lib/linux/dup.c
@@ -21,22 +21,16 @@
 #include <mes/lib.h>
 #include <linux/syscall.h>
 #include <syscall.h>
-#include <stdio.h>
-#include <unistd.h>
 
 int
 dup (int old)
 {
   long long_old = old;
-  /* The copy shares the file offset: give back what was read ahead.  */
-  if (__buffered_read_size (old))
-    lseek (old, 0, SEEK_CUR);
   int r = _sys_call1 (SYS_dup, long_old);
   if (r >= 0)
     {
       __ungetc_clear (r);
-      __buffered_read_share (old, 1);
-      __buffered_read_share (r, 1);
+      __buffered_read_share (old, r);
     }
   return r;
 }
diff --git a/lib/linux/dup2.c b/lib/linux/dup2.c
index 1861eae..a8ab031 100644
--- a/lib/linux/dup2.c
+++ b/lib/linux/dup2.c
@@ -21,25 +21,19 @@
 #include <mes/lib.h>
 #include <linux/syscall.h>
 #include <syscall.h>
-#include <stdio.h>
-#include <unistd.h>
 
 int
 dup2 (int old, int new)
 {
   long long_old = old;
   long long_new = new;
-  /* The copy shares the file offset: give back what was read ahead.  */
-  if (__buffered_read_size (old))
-    lseek (old, 0, SEEK_CUR);
-  if (new != old && __buffered_read_size (new))
-    lseek (new, 0, SEEK_CUR);
+  if (new != old)
+    __buffered_read_sync (new);
   int r = _sys_call2 (SYS_dup2, long_old, long_new);
   if (r >= 0 && new != old)
     {
       __ungetc_clear (r);
-      __buffered_read_share (old, 1);
-      __buffered_read_share (r, 1);
+      __buffered_read_share (old, r);
     }
   return r;
 }
diff --git a/lib/mes/__buffered_read.c b/lib/mes/__buffered_read.c
index 071fa44..1e31f6d 100644
--- a/lib/mes/__buffered_read.c
+++ b/lib/mes/__buffered_read.c
@@ -31,20 +31,28 @@ int __read_buffer_max;
 #define __read_buffer_max 100
 #endif
 
+/* What was read ahead; descriptors that are copies of one another share
+   the file offset, and so they share this. */
 struct __read_buffer
 {
   ssize_t size;
+  int users;
+  struct __read_buffer *next;
   char string[__READ_BUFFER_MAX];
 };
 
-struct __read_buffer *__read_cache = 0;
+struct __read_buffer **__read_cache = 0;
+struct __read_buffer *__read_unused = 0;
 
 void
-__buffered_read_init (int filedes)
+__buffered_read_init ()
 {
   if (!__read_cache)
     {
-      __read_cache = (struct __read_buffer *) malloc (sizeof (struct __read_buffer) * __FILEDES_MAX);
+      size_t size = __FILEDES_MAX * sizeof (struct __read_buffer *);
+      __read_cache = (struct __read_buffer **) malloc (size);
+      if (__read_cache)
+        memset (__read_cache, 0, size);
 #if !__MESC__
       __read_buffer_max = __READ_BUFFER_MAX;
       char *p = getenv ("MES_READ_BUFFER");
@@ -60,53 +68,105 @@ __buffered_read_init (int filedes)
     }
 }
 
-size_t
-__buffered_read_size (int filedes)
+/* The buffer of FILEDES, or 0 if it has none. */
+struct __read_buffer *
+__buffered_read_find (int filedes)
 {
   if (filedes < 0 || filedes >= __FILEDES_MAX)
     return 0;
-  __buffered_read_init (filedes);
-  if (__read_cache[filedes].size < 0)
+  __buffered_read_init ();
+  if (!__read_cache)
     return 0;
-  return __read_cache[filedes].size;
+  return __read_cache[filedes];
 }
 
-/* Descriptors that share a file offset cannot each read ahead.  */
-void
-__buffered_read_share (int filedes, int share_p)
+/* The buffer of FILEDES, a new one if it has none; 0 if it cannot have any. */
+struct __read_buffer *
+__buffered_read_get (int filedes)
 {
-  if (filedes < 0 || filedes >= __FILEDES_MAX)
-    return;
-  __buffered_read_init (filedes);
-  if (share_p)
-    __read_cache[filedes].size = -1;
+  struct __read_buffer *cache = __buffered_read_find (filedes);
+  if (cache || filedes < 0 || filedes >= __FILEDES_MAX || !__read_cache)
+    return cache;
+  cache = __read_unused;
+  if (cache)
+    __read_unused = cache->next;
   else
-    __read_cache[filedes].size = 0;
+    cache = (struct __read_buffer *) malloc (sizeof (struct __read_buffer));
+  if (cache)
+    {
+      cache->size = 0;
+      cache->users = 1;
+      __read_cache[filedes] = cache;
+    }
+  return cache;
 }
 
 size_t
-__buffered_read_clear (int filedes)
+__buffered_read_size (int filedes)
 {
-  if (filedes < 0 || filedes >= __FILEDES_MAX)
+  struct __read_buffer *cache = __buffered_read_find (filedes);
+  if (!cache)
     return 0;
-  __buffered_read_init (filedes);
-  ssize_t size = __read_cache[filedes].size;
-  if (size < 0)
+  return cache->size;
+}
+
+size_t
+__buffered_read_clear (int filedes)
+{
+  struct __read_buffer *cache = __buffered_read_find (filedes);
+  if (!cache)
     return 0;
-  __read_cache[filedes].size = 0;
+  size_t size = cache->size;
+  cache->size = 0;
   return size;
 }
 
+/* FILEDES is a new descriptor, or no longer one. */
+void
+__buffered_read_release (int filedes)
+{
+  struct __read_buffer *cache = __buffered_read_find (filedes);
+  if (!cache)
+    return;
+  __read_cache[filedes] = 0;
+  cache->users--;
+  if (!cache->users)
+    {
+      cache->next = __read_unused;
+      __read_unused = cache;
+    }
+}
+
+/* Before closing FILEDES: give back what was read ahead, for whoever else
+   shares the file offset. */
+void
+__buffered_read_sync (int filedes)
+{
+  struct __read_buffer *cache = __buffered_read_find (filedes);
+  if (cache && cache->size && cache->users == 1)
+    lseek (filedes, 0, SEEK_CUR);
+}
+
+/* NEW is a copy of FILEDES. */
+void
+__buffered_read_share (int filedes, int new)
+{
+  struct __read_buffer *cache = __buffered_read_get (filedes);
+  __buffered_read_release (new);
+  if (cache && new >= 0 && new < __FILEDES_MAX)
+    {
+      cache->users++;
+      __read_cache[new] = cache;
+    }
+}
+
 ssize_t
 __buffered_read (int filedes, void *buffer, size_t size)
 {
   size_t todo = size;
-  if (filedes < 0 || filedes >= __FILEDES_MAX)
-    return _read (filedes, buffer, size);
-  __buffered_read_init (filedes);
-  struct __read_buffer *cache = &__read_cache[filedes];
+  struct __read_buffer *cache = __buffered_read_get (filedes);
   char *p = buffer;
-  if (cache->size < 0)
+  if (!cache)
     return _read (filedes, buffer, size);
   if (!cache->size && size > __read_buffer_max)
     return _read (filedes, buffer, size);
-- 
2.43.0


From b028cf38ca46276262c1d6d4f56f5b9181484fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 077/133] fix: nanosleep on x86_64 calls getsockname

---
 include/linux/x86_64/syscall.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linux/x86_64/syscall.h b/include/linux/x86_64/syscall.h
index 36ef06b..734b250 100644
--- a/include/linux/x86_64/syscall.h
+++ b/include/linux/x86_64/syscall.h
@@ -66,7 +66,7 @@
 #define SYS_lstat     0x06
 #define SYS_setitimer 0x26
 #define SYS_fstat     0x05
-#define SYS_nanosleep 0x33
+#define SYS_nanosleep 0x23
 #define SYS_getdents  0x4e
 #define SYS_clock_gettime 0xe4
 
-- 
2.43.0


From a5b2cf6a4f895ce15de1e794656382803bd521ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 078/133] fix: setgid on x86 calls ustat

---
 include/linux/x86/syscall.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linux/x86/syscall.h b/include/linux/x86/syscall.h
index 01c46a3..081661a 100644
--- a/include/linux/x86/syscall.h
+++ b/include/linux/x86/syscall.h
@@ -101,7 +101,7 @@
 #define SYS_setuid    0x17
 #define SYS_geteuid   0x31
 #define SYS_getegid   0x32
-#define SYS_setgid    0x3e
+#define SYS_setgid 0x2e
 #define SYS_getppid   0x40
 
 /* make+POSIX */
-- 
2.43.0


From 44701aa34c8f8e10588664c1b9f3138bd81a4a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 079/133] fix: sigprocmask passes no size to rt_sigprocmask

---
 lib/linux/sigprogmask.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/linux/sigprogmask.c b/lib/linux/sigprogmask.c
index c0326a2..10936de 100644
--- a/lib/linux/sigprogmask.c
+++ b/lib/linux/sigprogmask.c
@@ -29,6 +29,6 @@ sigprocmask (int how, sigset_t const *set, sigset_t * oldset)
 #if __i386__
   return _sys_call3 (SYS_sigprocmask, (long) how, (long) set, (long) oldset);
 #else
-  return _sys_call3 (SYS_rt_sigprocmask, (long) how, (long) set, (long) oldset);
+  return _sys_call4 (SYS_rt_sigprocmask, (long) how, (long) set, (long) oldset, sizeof (sigset_t));
 #endif
 }
-- 
2.43.0


From 9fc717fb95e5babd488d35d827a1b3a46cf1fb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 080/133] fix: raise returns no value

---
 lib/posix/raise.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/posix/raise.c b/lib/posix/raise.c
index f693719..701be6a 100644
--- a/lib/posix/raise.c
+++ b/lib/posix/raise.c
@@ -24,5 +24,5 @@
 int
 raise (int signum)
 {
-  kill (getpid (), signum);
+  return kill (getpid (), signum);
 }
-- 
2.43.0


From 13ffd3ceea0c07762252b5d291b75347ea0893ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 081/133] fix: sleep returns -1 when interrupted

---
 lib/posix/sleep.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/posix/sleep.c b/lib/posix/sleep.c
index 9fafdd8..89c0103 100644
--- a/lib/posix/sleep.c
+++ b/lib/posix/sleep.c
@@ -29,5 +29,8 @@ sleep (unsigned int seconds)
   struct timespec remaining;
   requested_time.tv_sec = seconds;
   requested_time.tv_nsec = 0;
-  return nanosleep (&requested_time, &remaining);
+  remaining.tv_sec = seconds;
+  if (nanosleep (&requested_time, &remaining) < 0)
+    return remaining.tv_sec;
+  return 0;
 }
-- 
2.43.0


From c77369b2d7782bd39e7248a7c7f49186ceec6c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 082/133] fix: alarm reports an alarm pending within a second
 as none

---
 lib/posix/alarm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/posix/alarm.c b/lib/posix/alarm.c
index c425203..e22c39a 100644
--- a/lib/posix/alarm.c
+++ b/lib/posix/alarm.c
@@ -33,6 +33,10 @@ alarm (unsigned int seconds)
   new.it_value.tv_sec = (long int) seconds;
   if (setitimer (ITIMER_REAL, &new, &old) < 0)
     return 0;
+  /* Round, but never report a pending alarm as none.  */
+  if (old.it_value.tv_usec >= 500000
+      || (old.it_value.tv_sec == 0 && old.it_value.tv_usec > 0))
+    return old.it_value.tv_sec + 1;
   return old.it_value.tv_sec;
 #endif
 }
-- 
2.43.0


From 792bcf01d63644699f2b4b62c4bbc0cf71b39b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 083/133] fix: signal returns SIG_DFL on failure

---
 lib/linux/signal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/linux/signal.c b/lib/linux/signal.c
index 11174be..1973dcc 100644
--- a/lib/linux/signal.c
+++ b/lib/linux/signal.c
@@ -66,7 +66,7 @@ signal (int signum, sighandler_t action)
 #endif
   int r = _sys_call4 (SYS_rt_sigaction, signum, (long) &setup_action, (long) &old, sizeof (sigset_t));
   if (r)
-    return 0;
+    return SIG_ERR;
   return old.sa_handler;
 #endif
 }
-- 
2.43.0


From 3460504832d6d73ebc5f08146dd0081675b6db0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:12 +0000
Subject: [PATCH 084/133] fix: returning from a signal handler crashes on
 x86_64

---
 lib/linux/signal.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/linux/signal.c b/lib/linux/signal.c
index 1973dcc..0d669ac 100644
--- a/lib/linux/signal.c
+++ b/lib/linux/signal.c
@@ -32,6 +32,15 @@ _restorer_for_siginfo (void)
 }
 #endif
 
+#if __x86_64__ && __GNUC__
+/* Where a handler returns to: it must leave the stack alone.  */
+void _signal_return (void);
+asm (".text\n"
+     "_signal_return:\n\t"
+     "mov     $0xf,%rax\n\t"
+     "syscall \n\t");
+#endif
+
 sighandler_t
 signal (int signum, sighandler_t action)
 {
@@ -63,6 +72,10 @@ signal (int signum, sighandler_t action)
 #if __x86_64__
   /* Tell kernel that we use a restorer, on penalty of segfault.  */
   setup_action.sa_flags |= SA_RESTORER;
+#if __GNUC__
+  /* Where the kernel has sa_restorer.  */
+  setup_action._foo0 = (long) &_signal_return;
+#endif
 #endif
   int r = _sys_call4 (SYS_rt_sigaction, signum, (long) &setup_action, (long) &old, sizeof (sigset_t));
   if (r)
-- 
2.43.0


From 512cef4f4da78b46f11c881968c43014544b4276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:39 +0000
Subject: [PATCH 085/133] fix: arguments of variadic functions built by gcc for
 x86_64

---
 include/stdarg.h     | 18 ++++++++++++++++++
 lib/linux/fcntl.c    |  2 +-
 lib/linux/ioctl.c    |  2 +-
 lib/posix/execl.c    |  2 +-
 lib/posix/execlp.c   |  2 +-
 lib/posix/open.c     |  2 +-
 lib/stdio/fprintf.c  |  2 +-
 lib/stdio/fscanf.c   |  2 +-
 lib/stdio/printf.c   |  7 +------
 lib/stdio/snprintf.c |  7 +------
 lib/stdio/sprintf.c  |  7 +------
 lib/stdio/sscanf.c   |  2 +-
 12 files changed, 29 insertions(+), 26 deletions(-)

diff --git a/include/stdarg.h b/include/stdarg.h
index 6a8fee6..4864274 100644
--- a/include/stdarg.h
+++ b/include/stdarg.h
@@ -25,6 +25,7 @@
 #include_next <stdarg.h>
 
 #define va_arg8(ap, type) va_arg(ap, type)
+#define __va_start(ap, last) va_start (ap, last)
 
 #else // ! SYSTEM_LIBC
 
@@ -36,6 +37,23 @@
 
 typedef char *va_list;
 #define va_start(ap, last) (void)((ap) = (char*)(&(last) + 1))
+#if __GNUC__ && __x86_64__
+/* The first arguments are in registers: have them all in memory.  */
+#define __VA_ARGS_MAX 48
+#define __va_start(ap, last) \
+  long ap ## _args[__VA_ARGS_MAX]; \
+  { \
+    __builtin_va_list __ap; \
+    int __i; \
+    __builtin_va_start (__ap, last); \
+    for (__i = 0; __i < __VA_ARGS_MAX; __i++) \
+      ap ## _args[__i] = __builtin_va_arg (__ap, long); \
+    __builtin_va_end (__ap); \
+  } \
+  (void)((ap) = (char*)ap ## _args)
+#else
+#define __va_start(ap, last) va_start (ap, last)
+#endif
 #define va_arg(ap, type) (type)(((long*)((ap) = ((ap) + sizeof (void*))))[-1])
 #define va_align(ap, alignment) ((char*)((((unsigned long) (ap)) + (alignment) - 1) &~ ((alignment) - 1)))
 #define va_arg8(ap, type) (type)(((double*)((ap) = (va_align((ap), 8) + sizeof(double))))[-1])
diff --git a/lib/linux/fcntl.c b/lib/linux/fcntl.c
index e10e734..974d56f 100644
--- a/lib/linux/fcntl.c
+++ b/lib/linux/fcntl.c
@@ -26,7 +26,7 @@ int
 fcntl (int filedes, int command, ...)
 {
   va_list ap;
-  va_start (ap, command);
+  __va_start (ap, command);
   int data = va_arg (ap, int);
   int r = _sys_call3 (SYS_fcntl, (int) filedes, (int) command, (int) data);
   va_end (ap);
diff --git a/lib/linux/ioctl.c b/lib/linux/ioctl.c
index 0e6e14a..2ff6a0c 100644
--- a/lib/linux/ioctl.c
+++ b/lib/linux/ioctl.c
@@ -27,7 +27,7 @@ int
 ioctl (int filedes, unsigned long command, ...)
 {
   va_list ap;
-  va_start (ap, command);
+  __va_start (ap, command);
   int data = va_arg (ap, int);
   int r = _sys_call3 (SYS_ioctl, (int) filedes, (long) command, (int) data);
   va_end (ap);
diff --git a/lib/posix/execl.c b/lib/posix/execl.c
index 4513586..9c28f84 100644
--- a/lib/posix/execl.c
+++ b/lib/posix/execl.c
@@ -54,7 +54,7 @@ execl (char const *file_name, char const *arg, ...)
 {
   va_list ap;
   int r;
-  va_start (ap, arg);
+  __va_start (ap, arg);
   if (__mes_debug () > 2)
     {
       eputs ("execl ");
diff --git a/lib/posix/execlp.c b/lib/posix/execlp.c
index 904b586..018bceb 100644
--- a/lib/posix/execlp.c
+++ b/lib/posix/execlp.c
@@ -28,7 +28,7 @@ execlp (char const *file_name, char const *arg, ...)
 {
   va_list ap;
   int r;
-  va_start (ap, arg);
+  __va_start (ap, arg);
   if (!strchr (file_name, '/'))
     file_name = search_path (file_name);
   if (__mes_debug () > 2)
diff --git a/lib/posix/open.c b/lib/posix/open.c
index 490c3ec..81ac450 100644
--- a/lib/posix/open.c
+++ b/lib/posix/open.c
@@ -35,7 +35,7 @@ open (char const *file_name, int flags, ...)
   if (flags & O_CREAT)
     {
       va_list ap;
-      va_start (ap, flags);
+      __va_start (ap, flags);
       int mask = va_arg (ap, int);
       int r = _open3 (file_name, flags, mask);
       va_end (ap);
diff --git a/lib/stdio/fprintf.c b/lib/stdio/fprintf.c
index 7e4a904..1aa7b11 100644
--- a/lib/stdio/fprintf.c
+++ b/lib/stdio/fprintf.c
@@ -26,7 +26,7 @@ int
 fprintf (FILE * stream, char const *format, ...)
 {
   va_list ap;
-  va_start (ap, format);
+  __va_start (ap, format);
   int r = vfprintf (stream, format, ap);
   va_end (ap);
   return r;
diff --git a/lib/stdio/fscanf.c b/lib/stdio/fscanf.c
index ee2ae67..8e24680 100644
--- a/lib/stdio/fscanf.c
+++ b/lib/stdio/fscanf.c
@@ -26,7 +26,7 @@ int
 fscanf (FILE * stream, char const *template, ...)
 {
   va_list ap;
-  va_start (ap, template);
+  __va_start (ap, template);
   int r = vfscanf (stream, template, ap);
   va_end (ap);
   return r;
diff --git a/lib/stdio/printf.c b/lib/stdio/printf.c
index dd90347..b1b266d 100644
--- a/lib/stdio/printf.c
+++ b/lib/stdio/printf.c
@@ -27,12 +27,7 @@ printf (char const *format, ...)
 {
   va_list ap;
   int r;
-#if __GNUC__ && __x86_64__ && !SYSTEM_LIBC
-#define __FUNCTION_ARGS 1
-  ap += (__FOO_VARARGS + (__FUNCTION_ARGS << 1)) << 3;
-#undef __FUNCTION_ARGS
-#endif
-  va_start (ap, format);
+  __va_start (ap, format);
   r = vprintf (format, ap);
   va_end (ap);
   return r;
diff --git a/lib/stdio/snprintf.c b/lib/stdio/snprintf.c
index b0c2bd5..9895c62 100644
--- a/lib/stdio/snprintf.c
+++ b/lib/stdio/snprintf.c
@@ -27,12 +27,7 @@ snprintf (char *str, size_t size, char const *format, ...)
 {
   va_list ap;
   int r;
-#if __GNUC__ && __x86_64__ && !SYSTEM_LIBC
-#define __FUNCTION_ARGS 3
-  ap += (__FOO_VARARGS + (__FUNCTION_ARGS << 1)) << 3;
-#undef __FUNCTION_ARGS
-#endif
-  va_start (ap, format);
+  __va_start (ap, format);
   r = vsnprintf (str, size, format, ap);
   va_end (ap);
   return r;
diff --git a/lib/stdio/sprintf.c b/lib/stdio/sprintf.c
index 38147d8..e6c45c3 100644
--- a/lib/stdio/sprintf.c
+++ b/lib/stdio/sprintf.c
@@ -27,12 +27,7 @@ sprintf (char *str, char const *format, ...)
 {
   va_list ap;
   int r;
-#if __GNUC__ && __x86_64__ && !SYSTEM_LIBC
-#define __FUNCTION_ARGS 2
-  ap += (__FOO_VARARGS + (__FUNCTION_ARGS << 1)) << 3;
-#undef __FUNCTION_ARGS
-#endif
-  va_start (ap, format);
+  __va_start (ap, format);
   r = vsprintf (str, format, ap);
   va_end (ap);
   return r;
diff --git a/lib/stdio/sscanf.c b/lib/stdio/sscanf.c
index d5459df..c698588 100644
--- a/lib/stdio/sscanf.c
+++ b/lib/stdio/sscanf.c
@@ -26,7 +26,7 @@ int
 sscanf (char const *str, char const *template, ...)
 {
   va_list ap;
-  va_start (ap, template);
+  __va_start (ap, template);
   int r = vsscanf (str, template, ap);
   va_end (ap);
   return r;
-- 
2.43.0


From 584918c20737751afc39b3d803f679140536e291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:39 +0000
Subject: [PATCH 086/133] fix: fcntl and ioctl cut pointers to an int

---
 lib/linux/fcntl.c | 4 ++--
 lib/linux/ioctl.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/linux/fcntl.c b/lib/linux/fcntl.c
index 974d56f..25fe779 100644
--- a/lib/linux/fcntl.c
+++ b/lib/linux/fcntl.c
@@ -27,8 +27,8 @@ fcntl (int filedes, int command, ...)
 {
   va_list ap;
   __va_start (ap, command);
-  int data = va_arg (ap, int);
-  int r = _sys_call3 (SYS_fcntl, (int) filedes, (int) command, (int) data);
+  long data = va_arg (ap, long);
+  int r = _sys_call3 (SYS_fcntl, (int) filedes, (int) command, data);
   va_end (ap);
   return r;
 }
diff --git a/lib/linux/ioctl.c b/lib/linux/ioctl.c
index 2ff6a0c..927635f 100644
--- a/lib/linux/ioctl.c
+++ b/lib/linux/ioctl.c
@@ -28,8 +28,8 @@ ioctl (int filedes, unsigned long command, ...)
 {
   va_list ap;
   __va_start (ap, command);
-  int data = va_arg (ap, int);
-  int r = _sys_call3 (SYS_ioctl, (int) filedes, (long) command, (int) data);
+  long data = va_arg (ap, long);
+  int r = _sys_call3 (SYS_ioctl, (int) filedes, (long) command, data);
   va_end (ap);
   return r;
 }
-- 
2.43.0


From 05e487d1d6c2063c2c350af8cd9559a10ee83373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:39 +0000
Subject: [PATCH 087/133] fix: execl and execlp replace the first argument by
 the file name

---
 include/stdarg.h   | 2 +-
 lib/posix/execl.c  | 8 +++-----
 lib/posix/execlp.c | 2 +-
 3 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/stdarg.h b/include/stdarg.h
index 4864274..3c57d3d 100644
--- a/include/stdarg.h
+++ b/include/stdarg.h
@@ -60,7 +60,7 @@ typedef char *va_list;
 #define va_end(ap) (void)((ap) = 0)
 #define va_copy(dest, src) dest = src
 
-int vexec (char const *file_name, va_list ap);
+int vexec (char const *file_name, char const *arg, va_list ap);
 int vfprintf (FILE * stream, char const *template, va_list ap);
 int vfscanf (FILE * stream, char const *template, va_list ap);
 int vprintf (char const *format, va_list ap);
diff --git a/lib/posix/execl.c b/lib/posix/execl.c
index 9c28f84..5646f33 100644
--- a/lib/posix/execl.c
+++ b/lib/posix/execl.c
@@ -23,16 +23,14 @@
 #include <unistd.h>
 
 int
-vexec (char const *file_name, va_list ap)
+vexec (char const *file_name, char const *arg, va_list ap)
 {
-  char *arg = va_arg (ap, char *);
   char *argv[1000];             // POSIX minimum 4096
   int i = 0;
 
-  argv[i++] = (char *) file_name;
   while (arg)
     {
-      argv[i++] = arg;
+      argv[i++] = (char *) arg;
       arg = va_arg (ap, char *);
       if (__mes_debug () > 2)
         {
@@ -61,7 +59,7 @@ execl (char const *file_name, char const *arg, ...)
       eputs (file_name);
       eputs ("\n");
     }
-  r = vexec (file_name, ap);
+  r = vexec (file_name, arg, ap);
   va_end (ap);
   return r;
 }
diff --git a/lib/posix/execlp.c b/lib/posix/execlp.c
index 018bceb..6c5f52b 100644
--- a/lib/posix/execlp.c
+++ b/lib/posix/execlp.c
@@ -42,7 +42,7 @@ execlp (char const *file_name, char const *arg, ...)
       errno = ENOENT;
       return -1;
     }
-  r = vexec (file_name, ap);
+  r = vexec (file_name, arg, ap);
   va_end (ap);
   return r;
 }
-- 
2.43.0


From 68454e85128ff651e383da8ce864f09db6e8fb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 088/133] fix: vector->list gives pointers into the vector,
 which the collector does not follow

---
 src/vector.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 0e39a2a..000a0a5 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -141,9 +141,7 @@ vector_to_list (struct scm *v)
   struct scm *e;
   for (i = v->length; i; i = i - 1)
     {
-      e = cell_ref (v->vector, i - 1);
-      if (e->type == TREF)
-        e = e->ref;
+      e = vector_ref_ (v, i - 1);
       x = cons (e, x);
     }
   return x;
-- 
2.43.0


From b7662f376e65b3c196d95a2ba1713f302efbd32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 089/133] fix: MesCC x86_64 lacks the M1 definition it needs to
 store to a char variable

---
 lib/x86_64-mes/x86_64.M1 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/x86_64-mes/x86_64.M1 b/lib/x86_64-mes/x86_64.M1
index 9ffbbf1..cb99543 100644
--- a/lib/x86_64-mes/x86_64.M1
+++ b/lib/x86_64-mes/x86_64.M1
@@ -147,6 +147,8 @@ DEFINE mov____0x8(%rbp),%rsp 488b65
 DEFINE mov____0x8(%rdi),%rax 488b47
 DEFINE mov____0x8(%rdi),%rbp 488b6f
 DEFINE mov____0x8(%rdi),%rsp 488b67
+DEFINE movb___%al,0x32 880425
+DEFINE movb___%dil,0x32 40883c25
 DEFINE movl___%eax,0x32 890425
 DEFINE movl___%edi,0x32 893c25
 DEFINE movl___%esi,(%rdi) 8937
-- 
2.43.0


From a13570e624956524abdad9ae0ade7d1eb2c044f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:44 +0000
Subject: [PATCH 090/133] fix: MesCC: compile time doubled with every enum,
 enumerators could not use earlier ones

---
 module/mescc/compile.scm | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 65c16b3..32dc19a 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -2386,8 +2386,8 @@
            (global->info storage type name o init info))))
     (_ (error "init-declr->info: not supported: " o))))
 
-(define (enum-def-list->constants constants fields)
-  (let loop ((fields fields) (i 0) (constants constants))
+(define (enum-def-list->constants info fields)
+  (let loop ((fields fields) (i 0) (constants (.constants info)))
     (if (pair? fields)
         (let ((field (car fields)))
           (mescc:trace (cadr (cadr field)) " <e>")))
@@ -2397,11 +2397,12 @@
                        ((enum-defn (ident ,name) . _) name)))
                (i (pmatch field
                     ((enum-defn ,name) i)
-                    ((enum-defn ,name ,exp) (expr->number #f exp))
+                    ((enum-defn ,name ,exp)
+                     (expr->number (clone info #:constants constants) exp))
                     (_ (error "not supported enum field=~s\n" field)))))
           (loop (cdr fields)
                 (1+ i)
-                (append constants (list (ident->constant name i))))))))
+                (cons (ident->constant name i) constants))))))
 
 (define (init->data type o info)
   (pmatch o
@@ -2488,18 +2489,18 @@
     ((enum-def (ident ,name) (enum-def-list . ,fields))
      (mescc:trace name " <t>")
      (let* ((type-entry (enum->type-entry name fields))
-            (constants (enum-def-list->constants (.constants info) fields)))
+            (constants (enum-def-list->constants info fields)))
        (clone info
               #:types (cons type-entry (.types info))
-              #:constants (append constants (.constants info)))))
+              #:constants constants)))
 
     ((enum-def (enum-def-list . ,fields))
      (mescc:trace name " <t>")
      (let* ((type-entry (enum->type-entry name fields))
-            (constants (enum-def-list->constants (.constants info) fields)))
+            (constants (enum-def-list->constants info fields)))
        (clone info
               #:types (cons type-entry (.types info))
-              #:constants (append constants (.constants info)))))
+              #:constants constants)))
 
     ((struct-def (field-list . ,fields))
      (mescc:trace name " <t>")
@@ -2546,15 +2547,15 @@
             (union (make-type 'union (apply + (map (cut field:size <> info) fields)) fields)))
        (clone info #:types (acons `(tag ,name) union (.types info))) ))
     ((comp-decl (decl-spec-list (type-spec (enum-def (enum-def-list . ,fields)))) . _)
-     (let ((constants (enum-def-list->constants (.constants info) fields)))
+     (let ((constants (enum-def-list->constants info fields)))
        (clone info
-              #:constants (append constants (.constants info)))))
+              #:constants constants)))
     ((comp-decl (decl-spec-list (type-spec (enum-def (ident ,name) (enum-def-list . ,fields)))) . _)
-     (let ((constants (enum-def-list->constants (.constants info) fields))
+     (let ((constants (enum-def-list->constants info fields))
            (type-entry (enum->type-entry name fields)))
        (clone info
               #:types (cons type-entry (.types info))
-              #:constants (append constants (.constants info)))))
+              #:constants constants)))
     (_ info)))
 
 ;;; fctn-defn
-- 
2.43.0


From a947d084fe53b923c12bb28083d3a3312b44a715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:44 +0000
Subject: [PATCH 091/133] fix: MesCC x86_64: constants of more than 31 bits,
 additions to 64-bit memory

---
 lib/x86_64-mes/x86_64.M1   | 13 ++++++++-----
 module/mescc/M1.scm        |  9 +++++----
 module/mescc/x86_64/as.scm | 10 +++++-----
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/lib/x86_64-mes/x86_64.M1 b/lib/x86_64-mes/x86_64.M1
index cb99543..5fd3a58 100644
--- a/lib/x86_64-mes/x86_64.M1
+++ b/lib/x86_64-mes/x86_64.M1
@@ -24,14 +24,17 @@
 DEFINE add____$i32,%rax 4805
 DEFINE add____$i32,%rbp 4881c5
 DEFINE add____$i32,%rdi 4881c7
-DEFINE add____$i32,(%rax) 8100
-DEFINE add____$i32,0x32(%rbp) 8185
+DEFINE add____$i32,(%rax) 488100
+DEFINE add____$i32,(%rdi) 488107
+DEFINE add____$i32,0x32(%rbp) 488185
 DEFINE add____$i8,%rax 4883c0
 DEFINE add____$i8,%rdi 4883c7
 DEFINE add____$i8,%rsp 4883c4
-DEFINE add____$i8,(%rax) 8300
-DEFINE add____$i8,(%rdi) 8307
-DEFINE add____$i8,0x8(%rbp) 8345
+DEFINE add____$i8,(%rax) 488300
+DEFINE add____$i8,(%rdi) 488307
+DEFINE add____$i8,0x8(%rbp) 488345
+DEFINE add____%r15,%rax 4c01f8
+DEFINE add____%r15,%rdi 4c01ff
 DEFINE add____%r15,(%rax) 4c0138
 DEFINE add____%r15,(%rdi) 4c013f
 DEFINE add____%rax,%rax 4801c0
diff --git a/module/mescc/M1.scm b/module/mescc/M1.scm
index 790ef88..b5ebb26 100644
--- a/module/mescc/M1.scm
+++ b/module/mescc/M1.scm
@@ -90,14 +90,15 @@
 
 (define mesc? (string=? %compiler "mesc"))
 
+(define (high-32 o)
+  (quotient (- o (modulo o #x100000000)) #x100000000))
+
 (define (hex2:immediate8 o)
   ;; FIXME: #x100000000 => 0 divide-by-zero when compiled with 64 bit mesc
   (if hex? (string-append "%0x" (dec->hex (if mesc? 0 (modulo o #x100000000)))
-                          " %0x" (if (< o 0) "-1"
-                                     (dec->hex (if mesc? o (quotient o #x100000000)))))
+                          " %0x" (dec->hex (if mesc? o (high-32 o))))
       (string-append "%" (number->string (dec->hex (if mesc? 0 (modulo o #x100000000))))
-                     " %" (if (< o 0) "-1"
-                              (number->string (dec->hex (if mesc? o (quotient o #x100000000))))))))
+                     " %" (number->string (dec->hex (if mesc? o (high-32 o)))))))
 
 (define* (display-join o #:optional (sep ""))
   (let loop ((o o))
diff --git a/module/mescc/x86_64/as.scm b/module/mescc/x86_64/as.scm
index 7e438c6..660e2ac 100644
--- a/module/mescc/x86_64/as.scm
+++ b/module/mescc/x86_64/as.scm
@@ -82,7 +82,7 @@
   (or v (error "invalid value: x86_64:value->r: " v))
   (let ((r (get-r info)))
     (if (and (>= v 0)
-             (< v #xffffffff))
+             (< v #x80000000))
      `((,(string-append "mov____$i32,%" r) (#:immediate ,v)))
      `((,(string-append "mov____$i64,%" r) (#:immediate8 ,v))))))
 
@@ -520,11 +520,11 @@
     (cond ((< (abs v) #x80)
            `((,(string-append "cmp____$i8,%" r) (#:immediate1 ,v))))
           ((and (>= v 0)
-                (< v #xffffffff))
+                (< v #x80000000))
            `((,(string-append "cmp____$i32,%" r) (#:immediate ,v))))
           (else
-           `(,(string-append "mov____$i64,%r15") (#:immediate8 ,v)
-             ,(string-append "cmp____%r15,%" r))))))
+           `((,(string-append "mov____$i64,%r15") (#:immediate8 ,v))
+             (,(string-append "cmp____%r15,%" r)))))))
 
 (define (x86_64:push-register info r)
   `((,(string-append "push___%" r))))
@@ -608,7 +608,7 @@
     (cond  ((< (abs v) #x80)
             `((,(string-append "addl___$i8,(%" r ")") (#:immediate1 ,v))))
            ((and (>= v 0)
-                 (< v #xffffffff))
+                 (< v #x80000000))
             `((,(string-append "addl___$i32,(%" r ")") (#:immediate ,v))))
            (else
             `((,(string-append "mov____$i64,%r15") (#:immediate8 ,v))
-- 
2.43.0


From a7490cc45e74ffcd4033f8f6bf88c963c077d934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:44 +0000
Subject: [PATCH 092/133] fix: MesCC: labels of a conditional expression in a
 test, tests of char values

---
 module/mescc/compile.scm | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 32dc19a..ceae07b 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -1071,8 +1071,12 @@
          (let* ((info (append-text info (ast->comment `(cond-expr ,test (ellipsis) (ellipsis)))))
                 (here (number->string (length text)))
                 (label (string-append "_" (.function info) "_" here "_"))
-                (else-label (string-append label "else"))
-                (break-label (string-append label "break"))
+                (cond-label (string-append label "cond"))
+                (else-label (string-append cond-label "_else"))
+                (break-label (string-append cond-label "_break"))
+                (type (ast->type o info))
+                ;; keeps the labels of TEST different
+                (info (append-text info (wrap-as `((#:label ,cond-label)))))
                 (info ((test-jump-label->info info else-label) test))
                 (info (expr->register then info))
                 (info (free-register info))
@@ -1533,22 +1537,6 @@
               (info (append-text info (wrap-as `((#:label ,skip-b-label))))))
          info))
 
-      ((array-ref ,index ,expr) (let* ((rank (expr->rank info expr))
-                                       (reg-size (->size "*" info))
-                                       (size (if (= rank 1) (ast-type->size info expr)
-                                                 reg-size)))
-                                  ((jump (if (= size 1) 'jump-byte-z
-                                             'jump-z)
-                                         (lambda (info) (wrap-as (as info 'r-zero?)))) o)))
-
-      ((de-ref ,expr) (let* ((rank (expr->rank info expr))
-                             (r-size (->size "*" info))
-                             (size (if (= rank 1) (ast-type->size info expr)
-                                       r-size)))
-                        ((jump (if (= size 1) 'jump-byte-z
-                                   'jump-z)
-                               (lambda (info) (wrap-as (as info 'r-zero?)))) o)))
-
       ((assn-expr (p-expr (ident ,name)) ,op ,expr)
        ((jump 'jump-z
               (lambda (info)
-- 
2.43.0


From 14f361eef0f9a6b08a3fd7674fc213adb1e2df2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:44 +0000
Subject: [PATCH 093/133] fix: MesCC: usual arithmetic conversions, signed
 shifts, values of logical operators and assignments

---
 lib/stdio/vfprintf.c       |   4 +
 lib/stdio/vsnprintf.c      |   4 +
 lib/x86-mes/x86.M1         |   1 +
 lib/x86_64-mes/x86_64.M1   |   1 +
 module/mescc/armv4/as.scm  |   5 +-
 module/mescc/compile.scm   | 283 ++++++++++++++++++++++++-------------
 module/mescc/i386/as.scm   |   4 +-
 module/mescc/x86_64/as.scm |   4 +-
 8 files changed, 201 insertions(+), 105 deletions(-)

diff --git a/lib/stdio/vfprintf.c b/lib/stdio/vfprintf.c
index f17333f..897b790 100644
--- a/lib/stdio/vfprintf.c
+++ b/lib/stdio/vfprintf.c
@@ -140,7 +140,11 @@ vfprintf (FILE * f, char const *format, va_list ap)
               else if (c == 'd' || c == 'i')
                 d = va_arg (ap, int);
               else
+#if __MESC__
+                d = va_arg (ap, long); // MesCC: int arguments are passed as long
+#else
                 d = va_arg (ap, unsigned);
+#endif
               int base = c == 'o' ? 8 : c == 'x' || c == 'X' ? 16 : 10;
               int signed_p = c == 'd' || c == 'i';
               char *s = ntoab (d, base, signed_p);
diff --git a/lib/stdio/vsnprintf.c b/lib/stdio/vsnprintf.c
index b9ec241..0bea528 100644
--- a/lib/stdio/vsnprintf.c
+++ b/lib/stdio/vsnprintf.c
@@ -143,7 +143,11 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
               else if (c == 'd' || c == 'i')
                 d = va_arg (ap, int);
               else
+#if __MESC__
+                d = va_arg (ap, long); // MesCC: int arguments are passed as long
+#else
                 d = va_arg (ap, unsigned);
+#endif
               int base = c == 'o' ? 8 : c == 'x' || c == 'X' ? 16 : 10;
               int signed_p = c == 'd' || c == 'i';
               char *s = ntoab (d, base, signed_p);
diff --git a/lib/x86-mes/x86.M1 b/lib/x86-mes/x86.M1
index ede7979..772d3c0 100644
--- a/lib/x86-mes/x86.M1
+++ b/lib/x86-mes/x86.M1
@@ -194,6 +194,7 @@ DEFINE setle__%al 0f9ec0
 DEFINE setle__%bl 0f9ec3
 DEFINE setne__%al 0f95c0
 DEFINE setne__%bl 0f95c3
+DEFINE sar____%cl,%eax d3f8
 DEFINE shl____$i8,%eax c1e0
 DEFINE shl____$i8,%ebx c1e3
 DEFINE shl____%cl,%eax d3e0
diff --git a/lib/x86_64-mes/x86_64.M1 b/lib/x86_64-mes/x86_64.M1
index 5fd3a58..5dd67a0 100644
--- a/lib/x86_64-mes/x86_64.M1
+++ b/lib/x86_64-mes/x86_64.M1
@@ -219,6 +219,7 @@ DEFINE setl___%dil 400f9cc7
 DEFINE setle__%al 0f9ec0
 DEFINE setle__%dil 400f9ec7
 DEFINE setne__%al 0f95c0
+DEFINE sar____%cl,%rax 48d3f8
 DEFINE shl____$i8,%rax 48c1e0
 DEFINE shl____$i8,%rdi 48c1e7
 DEFINE shl____%cl,%rax 48d3e0
diff --git a/module/mescc/armv4/as.scm b/module/mescc/armv4/as.scm
index e30338d..157f513 100644
--- a/module/mescc/armv4/as.scm
+++ b/module/mescc/armv4/as.scm
@@ -349,11 +349,10 @@
         (r1 (get-r1 info)))
     `((,(string-append "lsl____%" r0 ",%" r0 ",%" r1)))))
 
-;; FIXME: lsr??! Signed or unsigned r0?
-(define (armv4:r0>>r1 info)
+(define (armv4:r0>>r1 info signed?)
   (let ((r0 (get-r0 info))
         (r1 (get-r1 info)))
-    `((,(string-append "lsr____%" r0 ",%" r0 ",%" r1)))))
+    `((,(string-append (if signed? "asr____%" "lsr____%") r0 ",%" r0 ",%" r1)))))
 
 (define (armv4:r0-and-r1 info)
   (let ((r0 (get-r0 info))
diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index ceae07b..5505a91 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -91,6 +91,46 @@
     (cond ((type? type) (eq? (type:type type) 'unsigned))
           (else #t))))
 
+(define (integer-type? o)
+  (and (type? o) (or (signed? o) (unsigned? o))))
+
+;; C99 6.3.1.1: integer promotions
+(define (promoted-type o info)
+  (let ((int (get-type "default" info)))
+    (cond ((bit-field? o) int)
+          ((not (integer-type? o)) o)
+          ((< (->size o info) (->size int info)) int)
+          (else o))))
+
+;; C99 6.3.1.8: usual arithmetic conversions
+(define (arithmetic-type a b info)
+  (let ((a (promoted-type a info))
+        (b (promoted-type b info)))
+    (cond ((not (integer-type? a)) a)
+          ((not (integer-type? b)) b)
+          ((> (->size a info) (->size b info)) a)
+          ((> (->size b info) (->size a info)) b)
+          ((unsigned? a) a)
+          (else b))))
+
+;; C99 6.4.4.1: the first of these types that can represent the constant
+(define (constant-type value info)
+  (let* ((unsigned-suffix? (string-index value #\U))
+         (long-suffix? (string-index value #\L))
+         (decimal? (not (string-prefix? "0" value)))
+         (n (cstring->int value)))
+    (let loop ((types '("default" "unsigned" "long" "unsigned long")))
+      (let* ((type (get-type (car types) info))
+             (bits (* 8 (->size type info)))
+             (bits (if (signed? type) (1- bits) bits)))
+        (if (or (null? (cdr types))
+                (and (or (not long-suffix?) (member (car types) '("long" "unsigned long")))
+                     (or (not unsigned-suffix?) (unsigned? type))
+                     (or (not decimal?) unsigned-suffix? (signed? type))
+                     (zero? (ash n (- bits)))))
+            type
+            (loop (cdr types)))))))
+
 (define (->size o info)
   (cond ((and (type? o) (eq? (type:type o) 'union))
          (apply max (map (compose (cut ->size <> info) cdr) (struct->fields o))))
@@ -114,16 +154,9 @@
       (,a (guard (c-array? a)) a)
       (,b (guard (bit-field? b)) b)
 
-      ((char ,value) (get-type "char" info))
+      ((char ,value) (get-type "default" info))
       ((enum-ref . _) (get-type "default" info))
-      ((fixed ,value)
-       (let ((type (cond ((string-suffix? "ULL"value) "unsigned long long")
-                         ((string-suffix? "UL" value) "unsigned long")
-                         ((string-suffix? "U" value) "unsigned")
-                         ((string-suffix? "LL" value) "long long")
-                         ((string-suffix? "L" value) "long")
-                         (else "default"))))
-         (get-type type info)))
+      ((fixed ,value) (constant-type value info))
       ((float ,float) (get-type "float" info))
       ((void) (get-type "void" info))
 
@@ -143,8 +176,8 @@
       ((type-name ,type) (ast->type type info))
       ((type-spec ,type) (ast->type type info))
 
-      ((sizeof-expr ,expr) (get-type "unsigned" info))
-      ((sizeof-type ,type) (get-type "unsigned" info))
+      ((sizeof-expr ,expr) (get-type "unsigned long" info))
+      ((sizeof-type ,type) (get-type "unsigned long" info))
 
       ((string ,string) (make-c-array (get-type "char" info) (1+ (string-length string))))
 
@@ -207,30 +240,34 @@
       ((pre-dec ,a) (ast->type a info))
       ((post-inc ,a) (ast->type a info))
       ((post-dec ,a) (ast->type a info))
-      ((add ,a ,b) (ast->type a info))
-      ((sub ,a ,b) (ast->type a info))
-      ((bitwise-and ,a ,b) (ast->type a info))
-      ((bitwise-not ,a) (ast->type a info))
-      ((bitwise-or ,a ,b) (ast->type a info))
-      ((bitwise-xor ,a ,b) (ast->type a info))
-      ((lshift ,a ,b) (ast->type a info))
-      ((rshift ,a ,b) (ast->type a info))
-      ((div ,a ,b) (ast->type a info))
-      ((mod ,a ,b) (ast->type a info))
-      ((mul ,a ,b) (ast->type a info))
-      ((not ,a) (ast->type a info))
-      ((pos ,a) (ast->type a info))
-      ((neg ,a) (ast->type a info))
-      ((eq ,a ,b) (ast->type a info))
-      ((ge ,a ,b) (ast->type a info))
-      ((gt ,a ,b) (ast->type a info))
-      ((ne ,a ,b) (ast->type a info))
-      ((le ,a ,b) (ast->type a info))
-      ((lt ,a ,b) (ast->type a info))
+      ((add ,a ,b) (expr->arithmetic-type a b info))
+      ((sub ,a ,b)
+       (if (and (not (zero? (expr->rank info a)))
+                (not (zero? (expr->rank info b))))
+           (get-type "long" info)
+           (expr->arithmetic-type a b info)))
+      ((bitwise-and ,a ,b) (expr->arithmetic-type a b info))
+      ((bitwise-not ,a) (promoted-type (ast->type a info) info))
+      ((bitwise-or ,a ,b) (expr->arithmetic-type a b info))
+      ((bitwise-xor ,a ,b) (expr->arithmetic-type a b info))
+      ((lshift ,a ,b) (promoted-type (ast->type a info) info))
+      ((rshift ,a ,b) (promoted-type (ast->type a info) info))
+      ((div ,a ,b) (expr->arithmetic-type a b info))
+      ((mod ,a ,b) (expr->arithmetic-type a b info))
+      ((mul ,a ,b) (expr->arithmetic-type a b info))
+      ((not ,a) (get-type "default" info))
+      ((pos ,a) (promoted-type (ast->type a info) info))
+      ((neg ,a) (promoted-type (ast->type a info) info))
+      ((eq ,a ,b) (get-type "default" info))
+      ((ge ,a ,b) (get-type "default" info))
+      ((gt ,a ,b) (get-type "default" info))
+      ((ne ,a ,b) (get-type "default" info))
+      ((le ,a ,b) (get-type "default" info))
+      ((lt ,a ,b) (get-type "default" info))
 
       ;; logical
-      ((or ,a ,b) (ast->type a info))
-      ((and ,a ,b) (ast->type a info))
+      ((or ,a ,b) (get-type "default" info))
+      ((and ,a ,b) (get-type "default" info))
 
       ((cast (type-name ,type) ,expr) (ast->type type info))
 
@@ -246,7 +283,9 @@
 
       ((assn-expr ,a ,op ,b) (ast->type a info))
 
-      ((cond-expr _ ,a ,b) (ast->type a info))
+      ((cond-expr ,test ,a ,b) (expr->arithmetic-type a b info))
+
+      ((comma-expr . ,exprs) (ast->type (last exprs) info))
 
       (_ (get-type o info))))
 
@@ -259,6 +298,14 @@
            (error "ast->type: not supported: " o))
           (else (ast->type type info)))))
 
+;; The type of arithmetic on A and B; for a pointer and a number, the pointer.
+(define (expr->arithmetic-type a b info)
+  (let ((type-a (ast->type a info))
+        (type-b (ast->type b info)))
+    (cond ((not (zero? (->rank type-a))) type-a)
+          ((not (zero? (->rank type-b))) type-b)
+          (else (arithmetic-type type-a type-b info)))))
+
 (define (ast->basic-type o info)
   (let ((type (->type (ast->type o info))))
     (cond ((type? type) type)
@@ -1079,10 +1126,12 @@
                 (info (append-text info (wrap-as `((#:label ,cond-label)))))
                 (info ((test-jump-label->info info else-label) test))
                 (info (expr->register then info))
+                (info (convert-operand info then type))
                 (info (free-register info))
                 (info (append-text info (wrap-as (as info 'jump break-label))))
                 (info (append-text info (wrap-as `((#:label ,else-label)))))
                 (info (expr->register else info))
+                (info (convert-operand info else type))
                 (info (free-register info))
                 (info (append-text info (wrap-as `((#:label ,break-label)))))
                 (info (allocate-register info)))
@@ -1141,8 +1190,14 @@
                             (else 1)))
                 (info (expr->register a info))
                 (value (cstring->int value))
-                (value (* size value)))
-           (append-text info (wrap-as (as info 'r+value value)))))
+                (value (* size value))
+                (info (append-text info (wrap-as (as info 'r+value value)))))
+           (wrap-result info (ast->type o info))))
+
+        ((add ,a ,b)
+         (guard (and (zero? (expr->rank info a))
+                     (not (zero? (expr->rank info b)))))
+         (expr->register `(add ,b ,a) info))
 
         ((add ,a ,b)
          (let* ((rank (expr->rank info a))
@@ -1154,7 +1209,7 @@
                             ((> rank 1) reg-size)
                             ((and struct? (= rank 2)) reg-size)
                             (else 1))))
-           (if (or (= size 1)) ((binop->r info) a b 'r0+r1)
+           (if (or (= size 1)) (wrap-result ((binop->r info) a b 'r0+r1) (ast->type o info))
                (let* ((info (expr->register b info))
                       (info (allocate-register info))
                       (info (append-text info (wrap-as (append (as info 'value->r size)
@@ -1177,8 +1232,9 @@
                             (else 1)))
                 (info (expr->register a info))
                 (value (cstring->int value))
-                (value (* size value)))
-           (append-text info (wrap-as (as info 'r+value (- value))))))
+                (value (* size value))
+                (info (append-text info (wrap-as (as info 'r+value (- value))))))
+           (wrap-result info (ast->type o info))))
 
         ((sub ,a ,b)
          (let* ((rank (expr->rank info a))
@@ -1194,11 +1250,11 @@
 
            (if (or (= size 1) (or (= rank-b 2) (= rank-b 1)))
                (let ((info ((binop->r info) a b 'r0-r1)))
-                 (if (and (not (= rank-b 2)) (not (= rank-b 1))) info
+                 (if (and (not (= rank-b 2)) (not (= rank-b 1))) (wrap-result info (ast->type o info))
                      ;; FIXME: c&p 792
                      (let* ((info (allocate-register info))
                             (info (append-text info (wrap-as (append (as info 'value->r size)
-                                                                     (as info 'r0/r1 #f)))))
+                                                                     (as info 'r0/r1 #t)))))
                             (info (free-register info)))
                        info)))
                (let* ((info (expr->register b info))
@@ -1212,20 +1268,26 @@
                       (info (free-register info)))
                  info))))
 
-        ((bitwise-and ,a ,b) ((binop->r info) a b 'r0-and-r1))
+        ((bitwise-and ,a ,b)
+         (wrap-result ((binop->r info) a b 'r0-and-r1) (ast->type o info)))
         ((bitwise-not ,expr)
-         (let ((info (expr->register expr info)))
-           (append-text info (wrap-as (as info 'not-r)))))
-        ((bitwise-or ,a ,b) ((binop->r info) a b 'r0-or-r1))
-        ((bitwise-xor ,a ,b) ((binop->r info) a b 'r0-xor-r1))
-        ((lshift ,a ,b) ((binop->r info) a b 'r0<<r1))
-        ((rshift ,a ,b) ((binop->r info) a b 'r0>>r1))
+         (let* ((info (expr->register expr info))
+                (info (append-text info (wrap-as (as info 'not-r)))))
+           (wrap-result info (ast->type o info))))
+        ((bitwise-or ,a ,b)
+         (wrap-result ((binop->r info) a b 'r0-or-r1) (ast->type o info)))
+        ((bitwise-xor ,a ,b)
+         (wrap-result ((binop->r info) a b 'r0-xor-r1) (ast->type o info)))
+        ((lshift ,a ,b)
+         (wrap-result ((binop->r info) a b 'r0<<r1) (ast->type o info)))
+        ((rshift ,a ,b)
+         ((binop->r info) a b 'r0>>r1 (signed? (ast->type o info))))
         ((div ,a ,b)
-         ((binop->r info) a b 'r0/r1
-          (signed? (ast->type a info))))
-        ((mod ,a ,b) ((binop->r info) a b 'r0%r1
-                      (signed? (ast->type a info))))
-        ((mul ,a ,b) ((binop->r info) a b 'r0*r1))
+         ((arithmetic->r info) a b 'r0/r1 (signed? (ast->type o info))))
+        ((mod ,a ,b)
+         ((arithmetic->r info) a b 'r0%r1 (signed? (ast->type o info))))
+        ((mul ,a ,b)
+         (wrap-result ((binop->r info) a b 'r0*r1) (ast->type o info)))
 
         ((not ,expr)
          (let* ((info (expr->register expr info))
@@ -1243,52 +1305,28 @@
                                                 (wrap-as (as info 'swap-r0-r1))
                                                 (wrap-as (as info 'r0-r1)))))
                 (info (free-register info)))
-           info))
+           (wrap-result info (ast->type o info))))
 
-        ((eq ,a ,b) (let ((info ((binop->r info) a b 'r0-r1)))
+        ((eq ,a ,b) (let ((info ((arithmetic->r info) a b 'r0-r1)))
                       (append-text info (wrap-as (as info 'zf->r)))))
 
         ((ge ,a ,b)
-         (let* ((type-a (ast->type a info))
-                (type-b (ast->type b info))
-                (info ((binop->r info) a b 'r0-r1))
-                (test->r (if (or (unsigned? type-a) (unsigned? type-b)) 'ae?->r 'ge?->r))
-                (info (append-text info (wrap-as (as info test->r))))
-                (info (append-text info (wrap-as (as info 'test-r)))))
-           info))
+         ((compare->r info) a b 'ge?->r 'ae?->r))
 
         ((gt ,a ,b)
-         (let* ((type-a (ast->type a info))
-                (type-b (ast->type b info))
-                (info ((binop->r info) a b 'r0-r1))
-                (test->r (if (or (unsigned? type-a) (unsigned? type-b)) 'a?->r 'g?->r))
-                (info (append-text info (wrap-as (as info test->r))))
-                (info (append-text info (wrap-as (as info 'test-r)))))
-           info))
+         ((compare->r info) a b 'g?->r 'a?->r))
 
-        ((ne ,a ,b) (let* ((info ((binop->r info) a b 'r0-r1))
+        ((ne ,a ,b) (let* ((info ((arithmetic->r info) a b 'r0-r1))
+                           (info (append-text info (wrap-as (as info 'zf->r))))
                            (info (append-text info (wrap-as (as info 'test-r))))
-                           (info (append-text info (wrap-as (as info 'xor-zf))))
                            (info (append-text info (wrap-as (as info 'zf->r)))))
                       info))
 
         ((le ,a ,b)
-         (let* ((type-a (ast->type a info))
-                (type-b (ast->type b info))
-                (info ((binop->r info) a b 'r0-r1))
-                (test->r (if (or (unsigned? type-a) (unsigned? type-b)) 'be?->r 'le?->r))
-                (info (append-text info (wrap-as (as info test->r))))
-                (info (append-text info (wrap-as (as info 'test-r)))))
-           info))
+         ((compare->r info) a b 'le?->r 'be?->r))
 
         ((lt ,a ,b)
-         (let* ((type-a (ast->type a info))
-                (type-b (ast->type b info))
-                (info ((binop->r info) a b 'r0-r1))
-                (test->r (if (or (unsigned? type-a) (unsigned? type-b)) 'b?->r 'l?->r))
-                (info (append-text info (wrap-as (as info test->r))))
-                (info (append-text info (wrap-as (as info 'test-r)))))
-           info))
+         ((compare->r info) a b 'l?->r 'b?->r))
 
         ((or ,a ,b)
          (let* ((info (expr->register a info))
@@ -1300,8 +1338,13 @@
                 (info (free-register info))
                 (info (expr->register b info))
                 (info (append-text info (wrap-as (as info 'test-r))))
-                (info (append-text info (wrap-as `((#:label ,skip-b-label))))))
-           info))
+                (info (append-text info (wrap-as `((#:label ,skip-b-label)))))
+                ;; the value is 0 or 1
+                (info (append-text info (wrap-as (append (as info 'test-r)
+                                                         (as info 'r-negate)
+                                                         (as info 'test-r)
+                                                         (as info 'r-negate))))))
+           (append-text info (wrap-as (as info 'test-r)))))
 
         ((and ,a ,b)
          (let* ((info (expr->register a info))
@@ -1313,8 +1356,13 @@
                 (info (free-register info))
                 (info (expr->register b info))
                 (info (append-text info (wrap-as (as info 'test-r))))
-                (info (append-text info (wrap-as `((#:label ,skip-b-label))))))
-           info))
+                (info (append-text info (wrap-as `((#:label ,skip-b-label)))))
+                ;; the value is 0 or 1
+                (info (append-text info (wrap-as (append (as info 'test-r)
+                                                         (as info 'r-negate)
+                                                         (as info 'test-r)
+                                                         (as info 'r-negate))))))
+           (append-text info (wrap-as (as info 'test-r)))))
 
         ((cast ,type ,expr)
          (let ((info (expr->register expr info))
@@ -1365,7 +1413,7 @@
                                              info)))
                                  (info (expr->register a info))
                                  (info (append-text info (wrap-as (as info 'swap-r0-r1))))
-                                 (signed? (signed? type))
+                                 (signed? (signed? op-type))
                                  (info (append-text info (cond ((equal? op "+=") (wrap-as (as info 'r0+r1)))
                                                                ((equal? op "-=") (wrap-as (as info 'r0-r1)))
                                                                ((equal? op "*=") (wrap-as (as info 'r0*r1)))
@@ -1374,7 +1422,7 @@
                                                                ((equal? op "&=") (wrap-as (as info 'r0-and-r1)))
                                                                ((equal? op "|=") (wrap-as (as info 'r0-or-r1)))
                                                                ((equal? op "^=") (wrap-as (as info 'r0-xor-r1)))
-                                                               ((equal? op ">>=") (wrap-as (as info 'r0>>r1)))
+                                                               ((equal? op ">>=") (wrap-as (as info 'r0>>r1 signed?)))
                                                                ((equal? op "<<=") (wrap-as (as info 'r0<<r1)))
                                                                (else (error (format #f "mescc: op ~a not supported: ~a\n" op o))))))
                                  (info (free-register info)))
@@ -1400,7 +1448,8 @@
            (pmatch a
              ((p-expr (ident ,name))
               (if (or (<= size r-size)
-                      (<= size-b r-size)) (append-text info ((r->ident info) name))
+                      (<= size-b r-size)) (append-text info (append ((r->ident info) name)
+                                                                    (convert-assigned info type)))
                       (let* ((info (expr->register* a info))
                              (info (r0->r1-mem*n info size size-b)))
                         (free-register info))))
@@ -1434,7 +1483,7 @@
                                            (min size (max reg-size size-b))
                                            (min size (max reg-size size-b))))
                        (info (free-register info)))
-                  info)))))
+                  (append-text info (convert-assigned info type)))))))
         (_ (error "expr->register: not supported: " o))))
 
     (let ((info (helper)))
@@ -1472,13 +1521,29 @@
               ((and (> reg-size 4) (= size 4) sign)
                (wrap-as (as info 'long-signed-r)))
               ((and (> reg-size 4) (= size 4))
-               ;; for 17-unsigned-le
-               (wrap-as (as info 'long-signed-r))  ; huh, why not long-r?
-               ;; for a0-call-trunc-int
-               ;;(wrap-as (as info 'long-r))
-               )
+               (wrap-as (as info 'long-r)))
               (else '())))))
 
+;; The value of an assignment is that of the object after it.
+(define (convert-assigned info type)
+  (if (integer-type? type) (convert-r0 info type)
+      '()))
+
+;; Convert the value of O in the register to arithmetic type TYPE.
+(define (convert-operand info o type)
+  (let ((type-o (ast->type o info)))
+    (if (or (not (integer-type? type))
+            (signed? type)
+            (not (integer-type? type-o))
+            (unsigned? type-o)) info
+            (append-text info (convert-r0 info type)))))
+
+;; The result of arithmetic that does not fit TYPE wraps.
+(define (wrap-result info type)
+  (if (or (not (integer-type? type))
+          (signed? type)) info
+          (append-text info (convert-r0 info type))))
+
 (define (binop->r info)
   (lambda (a b c . rest)
     (let* ((info (expr->register a info))
@@ -1486,6 +1551,25 @@
            (info (append-text info (wrap-as (apply as info (cons c rest))))))
       (free-register info))))
 
+(define (arithmetic->r info)
+  (lambda (a b c . rest)
+    (let* ((type (expr->arithmetic-type a b info))
+           (info (expr->register a info))
+           (info (convert-operand info a type))
+           (info (expr->register b info))
+           (info (convert-operand info b type))
+           (info (append-text info (wrap-as (apply as info (cons c rest)))))
+           (info (free-register info)))
+      info)))
+
+(define (compare->r info)
+  (lambda (a b signed-test unsigned-test)
+    (let* ((type (expr->arithmetic-type a b info))
+           (info ((arithmetic->r info) a b 'r0-r1))
+           (test->r (if (signed? type) signed-test unsigned-test))
+           (info (append-text info (wrap-as (as info test->r)))))
+      (append-text info (wrap-as (as info 'test-r))))))
+
 (define (binop->r* info)
   (lambda (a b c)
     (let* ((info (expr->register* a info))
@@ -1867,6 +1951,9 @@
       ((return ,expr)
        (let* ((info (fold (lambda (x info) (free-register info)) info (.allocated info)))
               (info (expr->register expr info))
+              (type (function:type (assoc-ref (.functions info) (.function info))))
+              (info (append-text info (if (integer-type? type) (convert-r0 info type)
+                                          '())))
               (info (free-register info)))
          (append-text info (append (wrap-as (as info 'ret))))))
 
diff --git a/module/mescc/i386/as.scm b/module/mescc/i386/as.scm
index 0b786e5..d8cce84 100644
--- a/module/mescc/i386/as.scm
+++ b/module/mescc/i386/as.scm
@@ -343,11 +343,11 @@
     `((,(string-append "mov____%" r1 ",%ecx"))
       (,(string-append "shl____%cl,%" r0)))))
 
-(define (i386:r0>>r1 info)
+(define (i386:r0>>r1 info signed?)
   (let ((r0 (get-r0 info))
         (r1 (get-r1 info)))
     `((,(string-append "mov____%" r1 ",%ecx"))
-      (,(string-append "shr____%cl,%" r0)))))
+      (,(string-append (if signed? "sar____%cl,%" "shr____%cl,%") r0)))))
 
 (define (i386:r0-and-r1 info)
   (let ((r0 (get-r0 info))
diff --git a/module/mescc/x86_64/as.scm b/module/mescc/x86_64/as.scm
index 660e2ac..31ce4de 100644
--- a/module/mescc/x86_64/as.scm
+++ b/module/mescc/x86_64/as.scm
@@ -423,11 +423,11 @@
     `((,(string-append "mov____%" r1 ",%rcx"))
       (,(string-append "shl____%cl,%" r0)))))
 
-(define (x86_64:r0>>r1 info)
+(define (x86_64:r0>>r1 info signed?)
   (let ((r0 (get-r0 info))
         (r1 (get-r1 info)))
     `((,(string-append "mov____%" r1 ",%rcx"))
-      (,(string-append "shr____%cl,%" r0)))))
+      (,(string-append (if signed? "sar____%cl,%" "shr____%cl,%") r0)))))
 
 (define (x86_64:r0-and-r1 info)
   (let ((r0 (get-r0 info))
-- 
2.43.0


From 3769551f7af81c4f64810d48aa9a8b05adf877ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:44 +0000
Subject: [PATCH 094/133] fix: MesCC: number + pointer and index[pointer]

---
 module/mescc/compile.scm | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 5505a91..e5cad25 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -196,7 +196,9 @@
       ((type-spec ,type) (ast->type type info))
       ((typename ,type) (ast->type type info))
 
-      ((array-ref ,index ,array) (rank-- (ast->type array info)))
+      ((array-ref ,index ,array)
+       (let ((type (ast->type array info)))
+         (rank-- (if (zero? (->rank type)) (ast->type index info) type))))
 
       ((de-ref ,expr) (rank-- (ast->type expr info)))
       ((ref-to ,expr) (rank++ (ast->type expr info)))
@@ -804,6 +806,11 @@
                                      (wrap-as (as info 'mem->r)))
                                  (wrap-as (as info 'r+value offset))))))
 
+    ((array-ref ,index ,array)
+     (guard (and (zero? (expr->rank info array))
+                 (not (zero? (expr->rank info index)))))
+     (expr->register* `(array-ref ,array ,index) info))
+
     ((array-ref ,index ,array)
      (let* ((info (expr->register index info))
             (size (ast->size o info))
@@ -816,6 +823,11 @@
     ((cast ,type ,expr)
      (expr->register `(ref-to ,expr) info))
 
+    ((add ,a ,b)
+     (guard (and (zero? (expr->rank info a))
+                 (not (zero? (expr->rank info b)))))
+     (expr->register* `(add ,b ,a) info))
+
     ((add ,a ,b)
      (let* ((rank (expr->rank info a))
             (rank-b (expr->rank info b))
-- 
2.43.0


From d6f66db49da7c751c56027464b681c76692aba27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:44 +0000
Subject: [PATCH 095/133] fix: MesCC: compound assignment, ++ and -- evaluate
 their operand once

---
 module/mescc/compile.scm | 87 ++++++++++++++++++++++++++++------------
 1 file changed, 61 insertions(+), 26 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index e5cad25..649e6d1 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -931,18 +931,21 @@
 
     (_ (error "expr->register*: not supported: " o))))
 
+(define (mem-add o n info)
+  (let* ((size (ast->size o info))
+         (reg-size (->size "*" info))
+         (size (if (= size reg-size) 0 size)))
+    (wrap-as (as info
+                 (case size
+                   ((0) 'r-mem-add)
+                   ((1) 'r-byte-mem-add)
+                   ((2) 'r-word-mem-add)
+                   ((4) 'r-long-mem-add)) n))))
+
 (define (expr-add info)
   (lambda (o n)
     (let* ((info (expr->register* o info))
-           (size (ast->size o info))
-           (reg-size (->size "*" info))
-           (size (if (= size reg-size) 0 size))
-           (info (append-text info (wrap-as (append (as info
-                                                        (case size
-                                                          ((0) 'r-mem-add)
-                                                          ((1) 'r-byte-mem-add)
-                                                          ((2) 'r-word-mem-add)
-                                                          ((4) 'r-long-mem-add)) n))))))
+           (info (append-text info (mem-add o n info))))
       (free-register info))))
 
 (define (expr->register o info)
@@ -1150,24 +1153,36 @@
            info))
 
         ((post-inc ,expr)
-         (let* ((info (append (expr->register expr info)))
-                (rank (expr->rank info expr))
+         (let* ((rank (expr->rank info expr))
                 (reg-size (->size "*" info))
                 (size (cond ((= rank 1) (ast-type->size info expr))
                             ((> rank 1) reg-size)
                             (else 1)))
-                (info ((expr-add info) expr size)))
-           info))
+                (type (ast->type expr info))
+                ;; evaluate EXPR once
+                (info (expr->register* expr info))
+                (info (allocate-register info))
+                (info (append-text info (wrap-as (as info 'r0->r1))))
+                (info (append-text info (mem->r type info)))
+                (info (append-text info (wrap-as (as info 'swap-r0-r1))))
+                (info (append-text info (mem-add expr size info))))
+           (free-register info)))
 
         ((post-dec ,expr)
-         (let* ((info (append (expr->register expr info)))
-                (rank (expr->rank info expr))
+         (let* ((rank (expr->rank info expr))
                 (reg-size (->size "*" info))
                 (size (cond ((= rank 1) (ast-type->size info expr))
                             ((> rank 1) reg-size)
                             (else 1)))
-                (info ((expr-add info) expr (- size))))
-           info))
+                (type (ast->type expr info))
+                ;; evaluate EXPR once
+                (info (expr->register* expr info))
+                (info (allocate-register info))
+                (info (append-text info (wrap-as (as info 'r0->r1))))
+                (info (append-text info (mem->r type info)))
+                (info (append-text info (wrap-as (as info 'swap-r0-r1))))
+                (info (append-text info (mem-add expr (- size) info))))
+           (free-register info)))
 
         ((pre-inc ,expr)
          (let* ((rank (expr->rank info expr))
@@ -1175,9 +1190,11 @@
                 (size (cond ((= rank 1) (ast-type->size info expr))
                             ((> rank 1) reg-size)
                             (else 1)))
-                (info ((expr-add info) expr size))
-                (info (append (expr->register expr info))))
-           info))
+                (type (ast->type expr info))
+                ;; evaluate EXPR once
+                (info (expr->register* expr info))
+                (info (append-text info (mem-add expr size info))))
+           (append-text info (mem->r type info))))
 
         ((pre-dec ,expr)
          (let* ((rank (expr->rank info expr))
@@ -1185,9 +1202,11 @@
                 (size (cond ((= rank 1) (ast-type->size info expr))
                             ((> rank 1) reg-size)
                             (else 1)))
-                (info ((expr-add info) expr (- size)))
-                (info (append (expr->register expr info))))
-           info))
+                (type (ast->type expr info))
+                ;; evaluate EXPR once
+                (info (expr->register* expr info))
+                (info (append-text info (mem-add expr (- size) info))))
+           (append-text info (mem->r type info))))
 
 
 
@@ -1410,6 +1429,12 @@
                 (reg-size (->size "*" info))
                 (size (if (zero? rank) (->size type info) reg-size))
                 (size-b (if (zero? rank-b) (->size type-b info) reg-size))
+                ;; a compound assignment evaluates A once
+                (once? (and (not (equal? op "="))
+                            (not (bit-field? type))
+                            (pmatch a
+                              ((p-expr (ident ,name)) #f)
+                              (_ #t))))
                 (info (expr->register b info))
                 (info (if (equal? op "=") info
                           (let* ((struct? (structured-type? type))
@@ -1423,7 +1448,15 @@
                                                   (info (append-text info (wrap-as (as info 'r0*r1))))
                                                   (info (free-register info)))
                                              info)))
-                                 (info (expr->register a info))
+                                 (op-type (if (member op '("<<=" ">>=")) (promoted-type type info)
+                                              (expr->arithmetic-type a b info)))
+                                 (info (convert-operand info b op-type))
+                                 (info (if once?
+                                           (let* ((info (expr->register* a info))
+                                                  (info (push-register (car (.allocated info)) info)))
+                                             (append-text info (mem->r type info)))
+                                           (expr->register a info)))
+                                 (info (convert-operand info a op-type))
                                  (info (append-text info (wrap-as (as info 'swap-r0-r1))))
                                  (signed? (signed? op-type))
                                  (info (append-text info (cond ((equal? op "+=") (wrap-as (as info 'r0+r1)))
@@ -1437,7 +1470,8 @@
                                                                ((equal? op ">>=") (wrap-as (as info 'r0>>r1 signed?)))
                                                                ((equal? op "<<=") (wrap-as (as info 'r0<<r1)))
                                                                (else (error (format #f "mescc: op ~a not supported: ~a\n" op o))))))
-                                 (info (free-register info)))
+                                 (info (if once? (pop-register (car (.allocated info)) info)
+                                           (free-register info))))
                             (cond ((not (and (= rank 1) (= rank-b 1))) info)
                                   ((equal? op "-=") (let* ((info (allocate-register info))
                                                            (info (append-text info (wrap-as (append (as info 'value->r size)
@@ -1466,7 +1500,8 @@
                              (info (r0->r1-mem*n info size size-b)))
                         (free-register info))))
 
-             (_ (let* ((info (expr->register* a info))
+             (_ (let* ((info (if once? info
+                                 (expr->register* a info)))
                        (reg-size (->size "*" info))
                        (info (if (not (bit-field? type)) info
                                  (let* ((bit (bit-field:bit type))
-- 
2.43.0


From e9003ea4337ee83128f143d78eb406a337e9a981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:44 +0000
Subject: [PATCH 096/133] fix: MesCC: constant expressions: types, logical
 operators, characters, case labels

---
 module/mescc/compile.scm | 91 ++++++++++++++++++++++++++++++----------
 1 file changed, 68 insertions(+), 23 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 649e6d1..1d4080c 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -993,7 +993,7 @@
            (append-text info (wrap-as (as info 'value->r value)))))
 
         ((neg (p-expr (fixed ,value)))
-         (let* ((value (- (cstring->int value)))
+         (let* ((value (expr->number info o))
                 (info (allocate-register info))
                 (info (append-text info (append (wrap-as (as info 'value->r value)))))
                 (reg-size (->size "*" info)))
@@ -1001,7 +1001,7 @@
                (append-text info (wrap-as (as info 'long-signed-r))))))
 
         ((p-expr (char ,char))
-         (let ((char (char->integer (car (string->list char))))
+         (let ((char (cchar->int char))
                (info (allocate-register info)))
            (append-text info (wrap-as (as info 'value->r char)))))
 
@@ -1676,9 +1676,15 @@
 
       (_ ((jump 'jump-z (lambda (info) (wrap-as (as info 'r-zero?)))) o)))))
 
+(define (cchar->int o)
+  (let ((n (char->integer (string-ref o 0))))
+    (if (and (> n #x7f) (< n #x100)) (- n #x100)
+        n)))
+
 (define (cstring->int o)
   (let ((o (cond ((string-suffix? "ULL" o) (string-drop-right o 3))
                  ((string-suffix? "UL" o) (string-drop-right o 2))
+                 ((string-suffix? "LU" o) (string-drop-right o 2))
                  ((string-suffix? "U" o) (string-drop-right o 1))
                  ((string-suffix? "LL" o) (string-drop-right o 2))
                  ((string-suffix? "L" o) (string-drop-right o 1))
@@ -1694,42 +1700,70 @@
       (error "cstring->float: not supported:" o)))
 
 (define (try-expr->number info o)
+  (define (unary proc a)
+    (let ((type (promoted-type (ast->type a info) info)))
+      (number->type (proc (expr->number info a)) type info)))
+  (define (operands proc a b)
+    (let ((type (expr->arithmetic-type a b info)))
+      (proc (number->type (expr->number info a) type info)
+            (number->type (expr->number info b) type info))))
+  (define (binary proc a b)
+    (number->type (operands proc a b) (expr->arithmetic-type a b info) info))
+  (define (compare proc a b)
+    (bool->number (operands proc a b)))
   (pmatch o
     ((fixed ,a) (cstring->int a))
+    ((char ,a) (cchar->int a))
     ((p-expr ,expr) (expr->number info expr))
     ((pos ,a)
      (expr->number info a))
     ((neg ,a)
-     (- (expr->number info a)))
+     (unary - a))
     ((add ,a ,b)
-     (+ (expr->number info a) (expr->number info b)))
+     (binary + a b))
     ((bitwise-and ,a ,b)
-     (logand (expr->number info a) (expr->number info b)))
+     (binary logand a b))
     ((bitwise-not ,a)
-     (lognot (expr->number info a)))
+     (unary lognot a))
     ((bitwise-or ,a ,b)
-     (logior (expr->number info a) (expr->number info b)))
+     (binary logior a b))
+    ((bitwise-xor ,a ,b)
+     (binary logxor a b))
     ((div ,a ,b)
-     (quotient (expr->number info a) (expr->number info b)))
+     (binary quotient a b))
+    ((mod ,a ,b)
+     (binary remainder a b))
     ((mul ,a ,b)
-     (* (expr->number info a) (expr->number info b)))
+     (binary * a b))
     ((sub ,a ,b)
-     (- (expr->number info a) (expr->number info b)))
+     (binary - a b))
     ((sizeof-type ,type)
      (->size (ast->type type info) info))
     ((sizeof-expr ,expr)
      (->size (ast->type expr info) info))
     ((lshift ,x ,y)
-     (ash (expr->number info x) (expr->number info y)))
+     (unary (cut ash <> (expr->number info y)) x))
     ((rshift ,x ,y)
-     (ash (expr->number info x) (- (expr->number info y))))
+     (unary (cut ash <> (- (expr->number info y))) x))
     ((p-expr (ident ,name))
      (let ((value (assoc-ref (.constants info) name)))
        (or value
            (error (format #f "expr->number: undeclared identifier: ~s\n" o)))))
-    ((cast ,type ,expr) (expr->number info expr))
+    ((cast ,type ,expr)
+     (number->type (expr->number info expr) (ast->type type info) info))
     ((cond-expr ,test ,then ,else)
-     (if (p-expr->bool info test) (expr->number info then) (expr->number info else)))
+     (if (zero? (expr->number info test)) (expr->number info else) (expr->number info then)))
+    ((not ,a) (bool->number (zero? (expr->number info a))))
+    ((eq ,a ,b) (compare = a b))
+    ((ne ,a ,b) (- 1 (compare = a b)))
+    ((lt ,a ,b) (compare < a b))
+    ((le ,a ,b) (compare <= a b))
+    ((gt ,a ,b) (compare > a b))
+    ((ge ,a ,b) (compare >= a b))
+    ((and ,a ,b) (bool->number (not (or (zero? (expr->number info a))
+                                        (zero? (expr->number info b))))))
+    ((or ,a ,b) (bool->number (not (and (zero? (expr->number info a))
+                                        (zero? (expr->number info b))))))
     (,string (guard (string? string)) (cstring->int string))
     ((ident ,name) (assoc-ref (.constants info) name))
     (_  #f)))
@@ -1738,9 +1772,18 @@
   (or (try-expr->number info o)
       (error (format #f "expr->number: not supported: ~s\n" o))))
 
-(define (p-expr->bool info o)
-  (pmatch o
-    ((eq ,a ,b) (eq? (expr->number info a) (expr->number info b)))))
+;; Convert constant O to integer type TYPE.
+(define (number->type o type info)
+  (if (not (integer-type? type)) o
+      (let* ((size (->size type info))
+             (mask (case size ((1) #xff) ((2) #xffff) ((4) #xffffffff) (else -1)))
+             (o (logand o mask)))
+        (if (or (unsigned? type)
+                (zero? (ash o (- 1 (* 8 size))))) o
+            (logior o (lognot mask))))))
+
+(define (bool->number o)
+  (if o 1 0))
 
 (define (struct-field info)
   (lambda (o)
@@ -2050,11 +2093,9 @@
        (define (test->text test)
          (let ((value (pmatch test
                         (0 0)
-                        ((p-expr (char ,value)) (char->integer (car (string->list value))))
-                        ((p-expr (ident ,constant)) (assoc-ref (.constants info) constant))
-                        ((p-expr (fixed ,value)) (cstring->int value))
-                        ((neg (p-expr (fixed ,value))) (- (cstring->int value)))
-                        (_ (error "case test: not supported: " test)))))
+                        ((p-expr (char ,value)) (cchar->int value))
+                        (_ (or (try-expr->number info test)
+                               (error "case test: not supported: " test))))))
            (append (wrap-as (as info 'r-cmp-value value))
                    (jump-z body-label))))
        (let ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
@@ -2530,7 +2571,7 @@
   (pmatch o
     ((p-expr ,expr) (init->data type expr info))
     ((fixed ,fixed) (int->bv type (expr->number info o) info))
-    ((char ,char) (int->bv type (char->integer (string-ref char 0)) info))
+    ((char ,char) (int->bv type (cchar->int char) info))
     ((string ,string)
      (let ((reg-size (->size "*" info)))
        (if (= reg-size 8) `((#:string ,string) "%0")
@@ -2568,6 +2609,10 @@
      (append (map (cut int->bv <> <> info) type o)))
     ((initzer ,init) (init->data type init info))
     (((initzer ,init)) (init->data type init info))
+    ((cast (type-name (decl-spec-list (type-spec _))) ,expr)
+     (let ((number (try-expr->number info expr)))
+       (if number (int->bv type (expr->number info o) info)
+           (init->data type expr info))))
     ((cast _ ,expr) (init->data type expr info))
     (() '())
     (_ (let ((number (try-expr->number info o)))
-- 
2.43.0


From a4599de831279c31dee906b8fedbf91c9afae2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:32 +0000
Subject: [PATCH 097/133] fix: pmatch: a pattern variable could hide the value
 being matched

---
 mes/module/system/base/pmatch.scm | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mes/module/system/base/pmatch.scm b/mes/module/system/base/pmatch.scm
index 30e5103..ab0cf82 100644
--- a/mes/module/system/base/pmatch.scm
+++ b/mes/module/system/base/pmatch.scm
@@ -58,16 +58,23 @@
   #:export-syntax (pmatch))
 
 (define-syntax pmatch
+  (syntax-rules ()
+    ((_ v cs ...)
+     (let ((pmatch-v v))
+       (pmatch-clauses pmatch-v cs ...)))))
+
+;; V is a variable that no pattern binds
+(define-syntax pmatch-clauses
   (syntax-rules (else guard)
     ((_ v) (if #f #f))
     ((_ v (else e0 e ...)) (let () e0 e ...))
     ((_ v (pat (guard g ...) e0 e ...) cs ...)
-     (let ((fk (lambda () (pmatch v cs ...))))
+     (let ((fk (lambda () (pmatch-clauses v cs ...))))
        (ppat v pat
              (if (and g ...) (let () e0 e ...) (fk))
              (fk))))
     ((_ v (pat e0 e ...) cs ...)
-     (let ((fk (lambda () (pmatch v cs ...))))
+     (let ((fk (lambda () (pmatch-clauses v cs ...))))
        (ppat v pat (let () e0 e ...) (fk))))))
 
 (define-syntax ppat
-- 
2.43.0


From cda5a8bb3d82634b93e40a0c06f9b0c50baec67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:32 +0000
Subject: [PATCH 098/133] fix: M1 x86: stores of bytes and words through %ebx;
 high half of negative data

---
 lib/x86-mes/x86.M1  | 4 ++--
 module/mescc/M1.scm | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/x86-mes/x86.M1 b/lib/x86-mes/x86.M1
index 772d3c0..f352037 100644
--- a/lib/x86-mes/x86.M1
+++ b/lib/x86-mes/x86.M1
@@ -89,8 +89,8 @@ DEFINE mov____%al,0x8(%ebp) 8845
 DEFINE mov____%ax,(%ebx) 668903
 DEFINE mov____%ax,0x8(%ebp) 668945
 DEFINE mov____%bx,%bx 6689db
-DEFINE mov____%cl,(%ebx) 8a08
-DEFINE mov____%cx,(%ebx) 668b08
+DEFINE mov____%cl,(%ebx) 880b
+DEFINE mov____%cx,(%ebx) 66890b
 DEFINE mov____%dl,(%eax) 8810
 DEFINE mov____%dl,0x8(%eax) 8850
 DEFINE mov____%eax,%ebx 89c3
diff --git a/module/mescc/M1.scm b/module/mescc/M1.scm
index b5ebb26..756caf3 100644
--- a/module/mescc/M1.scm
+++ b/module/mescc/M1.scm
@@ -91,7 +91,7 @@
 (define mesc? (string=? %compiler "mesc"))
 
 (define (high-32 o)
-  (quotient (- o (modulo o #x100000000)) #x100000000))
+  (modulo (quotient (- o (modulo o #x100000000)) #x100000000) #x100000000))
 
 (define (hex2:immediate8 o)
   ;; FIXME: #x100000000 => 0 divide-by-zero when compiled with 64 bit mesc
-- 
2.43.0


From 3ddaf0b7aa0183f0f2d942f694c48caf966e7362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:32 +0000
Subject: [PATCH 099/133] fix: MesCC: calls through pointers to functions and
 their types, anonymous structures

---
 module/mescc/compile.scm | 58 +++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 1d4080c..6fda49c 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -183,13 +183,16 @@
 
       ((decl-spec-list (type-spec ,type)) (ast->type type info))
 
+      ((fctn-call (de-ref ,function) . ,rest)
+       (ast->type `(fctn-call ,function ,@rest) info))
+
       ((fctn-call (p-expr (ident ,name)) . _)
-       (or (and=> (assoc-ref (.functions info) name) function:type)
-           (get-type "default" info)))
+       (if (ident->pointer-variable info name) (called-type (ident->type info name) info)
+           (or (and=> (assoc-ref (.functions info) name) function:type)
+               (get-type "default" info))))
 
-      ((fctn-call (de-ref (p-expr (ident ,name))) . _)
-       (or (and=> (assoc-ref (.functions info) name) function:type)
-           (get-type "default" info)))
+      ((fctn-call ,function . _)
+       (called-type (ast->type function info) info))
 
       ((fixed-type ,type) (ast->type type info))
       ((float-type ,type) (ast->type type info))
@@ -308,6 +311,12 @@
           ((not (zero? (->rank type-b))) type-b)
           (else (arithmetic-type type-a type-b info)))))
 
+;; The type of a call through a pointer to a function: that has the type
+;; of the value with one pointer.
+(define (called-type type info)
+  (if (zero? (->rank type)) (get-type "long" info)
+      (rank-- type)))
+
 (define (ast->basic-type o info)
   (let ((type (->type (ast->type o info))))
     (cond ((type? type) type)
@@ -355,7 +364,7 @@
             (cond ((equal? (car f) field) f)
                   ((and (memq (car f) '(struct union)) (type? (cdr f))
                         (find (lambda (x) (equal? (car x) field)) (struct->fields (cdr f)))))
-                  ((eq? (car f) 'bits) (assoc field (cdr f)))
+                  ((and (eq? (car f) 'bits) (assoc field (cdr f))))
                   (else (loop (cdr fields)))))))))
 
 (define (field-offset info struct field)
@@ -365,14 +374,9 @@
           (if (null? fields) (error (format #f "no such field: ~a in ~s" field struct))
               (let ((f (car fields)))
                 (cond ((equal? (car f) field) offset)
-                      ((and (eq? (car f) 'struct) (type? (cdr f)))
-                       (let ((fields (type:description (cdr f))))
-                         (find (lambda (x) (equal? (car x) field)) fields)
-                         (apply + (cons offset
-                                        (map (cut field:size <> info)
-                                             (member field (reverse fields)
-                                                     (lambda (a b)
-                                                       (equal? a (car b) field))))))))
+                      ((and (eq? (car f) 'struct) (type? (cdr f))
+                            (assoc field (type:description (cdr f))))
+                       (+ offset (field-offset info (cdr f) field)))
                       ((and (eq? (car f) 'union) (type? (cdr f))
                             (let ((fields (struct->fields (cdr f))))
                               (and (find (lambda (x) (equal? (car x) field)) fields)
@@ -438,6 +442,15 @@
   (and (pair? (car o))
        (eq? (caar o) #:string)))
 
+;; The variable that the function in a call of O is in, or #f when O is a
+;; function.
+(define (ident->pointer-variable info o)
+  (or (assoc-ref (.locals info) o)
+      (assoc-ref (.statics info) o)
+      (and (not (assoc-ref (.functions info) o))
+           (not (equal? o (.function info)))
+           (assoc-ref (filter (negate static-global?) (.globals info)) o))))
+
 (define (ident->type info o)
   (let ((var (ident->variable info o)))
     (cond ((global? var) (global:type var))
@@ -1089,7 +1102,7 @@
                               (fold-right expr->arg info expr-list (reverse (iota (length expr-list))))))
                     (info (clone info #:allocated '() #:pushed 0 #:registers (append (reverse allocated) registers)))
                     (n (length expr-list))
-                    (info (if (not (assoc-ref locals name))
+                    (info (if (not (ident->pointer-variable info name))
                               (begin
                                 (when (and (not (assoc name (.functions info)))
                                            (not (assoc name globals))
@@ -1506,7 +1519,7 @@
                        (info (if (not (bit-field? type)) info
                                  (let* ((bit (bit-field:bit type))
                                         (bits (bit-field:bits type))
-                                        (set-mask (- (ash bits 1) 1))
+                                        (set-mask (1- (ash 1 bits)))
                                         (shifted-set-mask (ash set-mask bit))
                                         (clear-mask (logxor shifted-set-mask
                                                             (if (= reg-size 4)
@@ -1824,7 +1837,11 @@
                                         (cons (cons name (make-bit-field type bit bits))
                                               (loop (cdr o) (+ bit bits)))))
                                      (_ (error "struct-field: not supported:" field o))))))))))
-      ((comp-decl (decl-spec-list ,type) (comp-declr-list . ,decls))
+      ((comp-decl (decl-spec-list (type-spec ,type)) (comp-declr-list (comp-declr (ptr-declr ,pointer ,declr))))
+       (let ((rank (pointer->rank pointer)))
+         ((struct-field info)
+          `(comp-decl (decl-spec-list (type-spec ,(rank+= (ast->type type info) rank))) (comp-declr-list (comp-declr ,declr))))))
+      ((comp-decl (decl-spec-list ,type) (comp-declr-list . ,decls)) (guard (pair? (cdr decls)))
        (append-map (lambda (o)
                      ((struct-field info) `(comp-decl (decl-spec-list ,type) (comp-declr-list ,o))))
                    decls))
@@ -2747,9 +2764,14 @@
     ((param-decl (decl-spec-list (type-spec ,type)) (param-declr (ptr-declr ,pointer (ident ,name))))
      (let ((rank (pointer->rank pointer)))
        (rank+= (ast->type type info) rank)))
-    ((param-decl (decl-spec-list ,type) (param-declr (ptr-declr ,pointer (array-of _))))
+    ((param-decl (decl-spec-list ,type) (param-declr (ptr-declr ,pointer (array-of (ident ,name) . _))))
      (let ((rank (pointer->rank pointer)))
        (rank+= (ast->type type info) (1+ rank))))
+    ((param-decl (decl-spec-list ,type) (param-declr (array-of (ident ,name) . _)))
+     (rank+= (ast->type type info) 1))
+    ((param-decl (decl-spec-list ,type) (param-declr (ftn-declr (scope (ptr-declr ,pointer (ident ,name))) . _)))
+     (let ((rank (pointer->rank pointer)))
+       (rank+= (ast->type type info) rank)))
     ((param-decl ,type _) (ast->type type info))
     (_ (error "param-decl:get-type not supported:" o))))
 
-- 
2.43.0


From 118636c58f19d98fc2b42f1ba34177364dc66ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:32 +0000
Subject: [PATCH 100/133] fix: MesCC: copies of structures, arrays of arrays,
 fields of pointer expressions

---
 lib/x86_64-mes/x86_64.M1 |  4 +++
 module/mescc/compile.scm | 64 +++++++++++++++++++++++++++-------------
 2 files changed, 48 insertions(+), 20 deletions(-)

diff --git a/lib/x86_64-mes/x86_64.M1 b/lib/x86_64-mes/x86_64.M1
index 5dd67a0..3d08dcc 100644
--- a/lib/x86_64-mes/x86_64.M1
+++ b/lib/x86_64-mes/x86_64.M1
@@ -343,3 +343,7 @@ DEFINE xor____%rdx,%rdx 4831d2
 
 DEFINE SYS_write 01000000
 DEFINE SYS_exit  3c000000
+DEFINE mov____(%rax),%si 668b30
+DEFINE mov____%si,(%rdi) 668937
+DEFINE mov____(%rax),%sil 408a30
+DEFINE mov____%sil,(%rdi) 408837
diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 6fda49c..1391d0a 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -771,20 +771,37 @@
                                  (as info 'long-r0->r1-mem)))
              ((and (= size 8) (= reg-size 8)) (as info 'quad-r0->r1-mem))
              (else (error "r0->r1-mem*n-: not supported"))))
-      (else (let loop ((i 0))
-              (if (>= i n) '()
-                  (case (- n i)
-                    ((1) (as info 'byte-r0-mem->r1-mem))
-                    ((2) (as info 'word-r0-mem->r1-mem))
-                    ((3) (append (as info 'word-r0-mem->r1-mem)
-                                 (as info 'r+value 2)
-                                 (as info 'r0+value 2)
-                                 (loop (+ i 2))))
-                    ((4) (append (as info 'long-r0-mem->r1-mem)))
-                    (else (append (as info 'r0-mem->r1-mem)
-                                  (as info 'r+value reg-size)
-                                  (as info 'r0+value reg-size)
-                                  (loop (+ i reg-size))))))))))))
+      (else (error "r0->r1-mem*n-: not supported"))))))
+
+;; Copy SIZE bytes from where r0 points to where r1 points; r0 stays.
+(define (copy-structure size info)
+  (let ((reg-size (->size "*" info)))
+    (let loop ((i 0) (info info))
+      (let* ((rest (- size i))
+             (n (cond ((>= rest reg-size) reg-size)
+                      ((>= rest 4) 4)
+                      ((>= rest 2) 2)
+                      (else rest)))
+             (info (if (zero? n) info
+                       (append-text info (wrap-as (cond ((= n reg-size) (as info 'r0-mem->r1-mem))
+                                                        ((= n 4) (as info 'long-r0-mem->r1-mem))
+                                                        ((= n 2) (as info 'word-r0-mem->r1-mem))
+                                                        (else (as info 'byte-r0-mem->r1-mem))))))))
+        (if (< n rest) (loop (+ i n)
+                             (append-text info (wrap-as (append (as info 'r+value n)
+                                                                (as info 'r0+value n)))))
+            (if (zero? i) info
+                (append-text info (wrap-as (as info 'r0+value (- i))))))))))
+
+;; The address of the structure O
+(define (structure->register o info)
+  (pmatch o
+    ((p-expr (ident ,name)) (expr->register* o info))
+    ((de-ref ,expr) (expr->register* o info))
+    ((array-ref ,index ,array) (expr->register* o info))
+    ((d-sel (ident ,field) ,struct) (expr->register* o info))
+    ((i-sel (ident ,field) ,struct) (expr->register* o info))
+    (_ (expr->register o info))))
 
 (define (r0->r1-mem*n info n size)
   (append-text info (r0->r1-mem*n- info n size)))
@@ -813,11 +830,8 @@
     ((i-sel (ident ,field) ,struct)
      (let* ((type (ast->basic-type struct info))
             (offset (field-offset info type field))
-            (info (expr->register* struct info))
-            (type (ast->type struct info)))
-       (append-text info (append (if (c-array? type) '()
-                                     (wrap-as (as info 'mem->r)))
-                                 (wrap-as (as info 'r+value offset))))))
+            (info (expr->register struct info)))
+       (append-text info (wrap-as (as info 'r+value offset)))))
 
     ((array-ref ,index ,array)
      (guard (and (zero? (expr->rank info array))
@@ -1063,7 +1077,8 @@
         ((array-ref ,index ,array)
          (let* ((info (expr->register* o info))
                 (type (ast->type o info)))
-           (append-text info (mem->r type info))))
+           (if (c-array? type) info
+               (append-text info (mem->r type info)))))
 
         ((d-sel ,field ,struct)
          (let* ((info (expr->register* o info))
@@ -1433,6 +1448,15 @@
                             (else 1))))
            (append-text info ((ident-add info) name (- size)))))
 
+        ((assn-expr ,a (op ,op) ,b)
+         (guard (and (equal? op "=") (structured-type? (ast->type a info))))
+         (let* ((info (append-text info (ast->comment o)))
+                (size (->size (ast->type a info) info))
+                (info (structure->register b info))
+                (info (expr->register* a info))
+                (info (copy-structure size info)))
+           (free-register info)))
+
         ((assn-expr ,a (op ,op) ,b)
          (let* ((info (append-text info (ast->comment o)))
                 (type (ast->type a info))
-- 
2.43.0


From 0cbfe0cb5a1bf2426beb27452e40dcd239fdcc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:32 +0000
Subject: [PATCH 101/133] fix: MesCC: registers of conditional and comma
 expressions

---
 module/mescc/compile.scm | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 1391d0a..283298c 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -985,8 +985,8 @@
       (pmatch o
         ((expr) info)
 
-        ((comma-expr)
-         (allocate-register info))
+        ((comma-expr ,a)
+         (expr->register a info))
 
         ((comma-expr ,a . ,rest)
          (let* ((info (expr->register a info))
@@ -1143,14 +1143,13 @@
                 (reg-size (->size "*" info))
                 (info (if (cc-amd? info) (fold expr->arg info expr-list (iota (length expr-list)))
                           (fold-right expr->arg info expr-list (reverse (iota (length expr-list))))))
-                (info (fold (lambda (x info) (free-register info)) info (.allocated info)))
+                (info (clone info #:allocated '() #:pushed 0 #:registers (append (reverse allocated) registers)))
                 (n (length expr-list))
                 (function (pmatch function
                             ((de-ref ,function) function)
                             (_ function)))
                 (info (expr->register function info))
                 (info (append-text info (wrap-as (as info 'call-r n))))
-                (info (free-register info))
                 (info (clone info #:allocated allocated #:pushed pushed #:registers registers))
                 (info (if (null? (cdr allocated)) info
                           (append-text info (wrap-as (as info 'return->r)))))
@@ -1168,16 +1167,19 @@
                 ;; keeps the labels of TEST different
                 (info (append-text info (wrap-as `((#:label ,cond-label)))))
                 (info ((test-jump-label->info info else-label) test))
+                (allocated (.allocated info))
+                (pushed (.pushed info))
+                (registers (.registers info))
                 (info (expr->register then info))
                 (info (convert-operand info then type))
-                (info (free-register info))
                 (info (append-text info (wrap-as (as info 'jump break-label))))
                 (info (append-text info (wrap-as `((#:label ,else-label)))))
+                ;; ELSE starts with the registers THEN started with, and
+                ;; leaves its value in the same register
+                (info (clone info #:allocated allocated #:pushed pushed #:registers registers))
                 (info (expr->register else info))
                 (info (convert-operand info else type))
-                (info (free-register info))
-                (info (append-text info (wrap-as `((#:label ,break-label)))))
-                (info (allocate-register info)))
+                (info (append-text info (wrap-as `((#:label ,break-label))))))
            info))
 
         ((post-inc ,expr)
@@ -1673,9 +1675,10 @@
       (let* ((info (expr->register o info))
              (info (append-text info (make-comment "jmp test LABEL")))
              (jump-text (wrap-as (as info type label)))
-             (info (append-text info (append (if (null? test) '() ((car test) info))
-                                             jump-text)))
-             (info (free-register info)))
+             (info (append-text info (if (null? test) '() ((car test) info))))
+             ;; may pop: free before the jump, so that both ways do
+             (info (free-register info))
+             (info (append-text info jump-text)))
         info)))
   (lambda (o)
     (pmatch o
-- 
2.43.0


From f49a587f4d4dfab5734d8004422ed5512068edb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:32 +0000
Subject: [PATCH 102/133] fix: MesCC: switch: any statement as body, labels
 anywhere in it, default anywhere

---
 module/mescc/compile.scm | 179 ++++++++++++++-------------------------
 1 file changed, 63 insertions(+), 116 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 283298c..cde6697 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -1967,37 +1967,23 @@
        (let ((info (expr->register `(cond-expr ,test ,then ,else) info)))
          (free-register info)))
 
-      ((switch ,expr (compd-stmt (block-item-list . ,statements)))
-       (define (clause? o)
-         (pmatch o
-           ((case . _) 'case)
-           ((default . _) 'default)
-           ((labeled-stmt _ ,statement) (clause? statement))
-           (_ #f)))
-       (define clause-number
-         (let ((i 0))
-           (lambda (o)
-             (let ((n i))
-               (when (clause? (car o))
-                 (set! i (1+ i)))
-               n))))
+      ((switch ,expr ,body)
        (let* ((info (append-text info (ast->comment `(switch ,expr (compd-stmt (block-item-list (ellipsis)))))))
               (here (number->string (length text)))
               (label (string-append "_" (.function info) "_" here "_"))
               (break-label (string-append label "break"))
+              (body (switch-labels here body))
+              (cases (car body))
+              (default? (assq 'default cases))
+              (cases (filter (negate (compose (cut eq? <> 'default) car)) cases))
+              (type (promoted-type (ast->type expr info) info))
               (info (expr->register expr info))
+              (info (fold (cut switch-case->info type <> <>) info cases))
+              (info (free-register info))
+              (info (append-text info (wrap-as (as info 'jump (if (not default?) break-label
+                                                                  (goto-label->label (cdr default?) info))))))
               (info (clone info #:break (cons break-label (.break info))))
-              (count (length (filter clause? statements)))
-              (default? (find (cut eq? <> 'default) (map clause? statements)))
-              (info (fold (cut switch->info #t label (1- count) <> <> <>) info statements
-                          (unfold null? clause-number cdr statements)))
-              (last-clause-label (string-append label "clause" (number->string count)))
-              (default-label (string-append label "default"))
-              (info (if (not default?) info
-                        (append-text info (wrap-as (as info 'jump break-label)))))
-              (info (append-text info (wrap-as `((#:label ,last-clause-label)))))
-              (info (if (not default?) info
-                        (append-text info (wrap-as (as info 'jump default-label)))))
+              (info (ast->info (cdr body) info))
               (info (append-text info (wrap-as `((#:label ,break-label))))))
          (clone info
                 #:locals locals
@@ -2116,97 +2102,58 @@
 (define (ast-list->info o info)
   (fold ast->info info o))
 
-(define (switch->info clause? label count o i info)
-  (let* ((i-string (number->string i))
-         (i+1-string (number->string (1+ i)))
-         (body-label (string-append label "body" i-string))
-         (next-body-label (string-append label "body" i+1-string))
-         (clause-label (string-append label "clause" i-string))
-         (last? (= i count))
-         (break-label (string-append label "break"))
-         (next-clause-label (string-append label "clause" i+1-string))
-         (default-label (string-append label "default")))
-    (define (jump label)
-      (wrap-as (as info 'jump label)))
-    (pmatch o
-      ((case ,test)
-       (define (jump-nz label)
-         (wrap-as (as info 'jump-nz label)))
-       (define (jump-z label)
-         (wrap-as (as info 'jump-z label)))
-       (define (test->text test)
-         (let ((value (pmatch test
-                        (0 0)
-                        ((p-expr (char ,value)) (cchar->int value))
-                        (_ (or (try-expr->number info test)
-                               (error "case test: not supported: " test))))))
-           (append (wrap-as (as info 'r-cmp-value value))
-                   (jump-z body-label))))
-       (let ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                       info)))
-         (append-text info (test->text test))))
-      ((case ,test (case . ,case1))
-       (let ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                       info)))
-         (fold (cut switch->info #f label count <> i <>) info (cons `(case ,test) `((case ,@case1))))))
-      ((case ,test (default . ,rest))
-       (let ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                       info)))
-         (fold (cut switch->info #f label count <> i <>) info (cons `(case ,test) `(default ,@rest)))))
-      ((case ,test ,statement)
-       (let* ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                        info))
-              (info (switch->info #f label count `(case ,test) i info))
-              (info (append-text info (jump next-clause-label)))
-              (info (append-text info (wrap-as `((#:label ,body-label)))))
-              (info (ast->info statement info))
-              ;; 66-local-char-array -- fallthrough FIXME
-              ;; (info (if last? info
-              ;;           (append-text info (jump next-body-label))))
-              )
-         info))
-      ((case ,test (case . ,case1) . ,rest)
-       (let ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                       info)))
-         (fold (cut switch->info #f label count <> i <>) info (cons `(case ,test) `((case ,@case1) ,@rest)))))
-      ((default (case . ,case1) . ,rest)
-       (let* ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                        info))
-              (info (if last? info
-                         (append-text info (jump next-clause-label))))
-              (info (append-text info (wrap-as `((#:label ,default-label)))))
-              (info (append-text info (jump body-label)))
-              (info (append-text info (wrap-as `((#:label ,body-label))))))
-         (fold (cut switch->info #f label count <> i <>) info `((case ,@case1) ,@rest))))
-      (default
-        (let* ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                         info))
-               (info (if last? info
-                         (append-text info (jump next-clause-label))))
-               (info (append-text info (wrap-as `((#:label ,default-label)))))
-               (info (append-text info (jump body-label)))
-               (info (append-text info (wrap-as `((#:label ,body-label))))))
-          info))
-      ((default ,statement)
-       (let* ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                        info))
-              (info (if last? info
-                        (append-text info (jump next-clause-label))))
-              (info (append-text info (wrap-as `((#:label ,default-label)))))
-              (info (append-text info (wrap-as `((#:label ,body-label))))))
-         (ast->info statement info)))
-      ((default ,statement ,rest)
-       (let* ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                        info))
-              (info (if last? info
-                        (append-text info (jump next-clause-label))))
-              (info (append-text info (wrap-as `((#:label ,default-label)))))
-              (info (append-text info (wrap-as `((#:label ,body-label))))))
-         (fold ast->info (ast->info statement info) rest)))
-      ((labeled-stmt (ident ,goto-label) ,statement)
-       (let ((info (append-text info `(((#:label ,(string-append "_" (.function info) "_label_" goto-label)))))))
-         (switch->info clause? label count statement i info)))
-      (_ (ast->info o info)))))
+(define (goto-label->label goto-label info)
+  (string-append "_" (.function info) "_label_" goto-label))
+
+;; Returns a pair: the list of cases in the order of O, the body of a
+;; switch, as pairs of test and goto-label; and O, with a labeled
+;; statement for every case and default.
+(define (switch-labels prefix o)
+  (let ((cases '()))
+    (define (label! test)
+      (let ((label (string-append prefix "_case" (number->string (length cases)))))
+        (set! cases (cons (cons test label) cases))
+        label))
+    (define (statement o)
+      (cond ((null? o) '(expr-stmt))
+            ((null? (cdr o)) (walk (car o)))
+            (else (walk `(compd-stmt (block-item-list ,@o))))))
+    (define (walk-list o)
+      (if (null? o) '()
+          (let ((x (walk (car o))))
+            (cons x (walk-list (cdr o))))))
+    (define (walk o)
+      (pmatch o
+        ((case ,test . ,rest)
+         (let ((label (label! test)))
+           `(labeled-stmt (ident ,label) ,(statement rest))))
+        ((default . ,rest)
+         (let ((label (label! 'default)))
+           `(labeled-stmt (ident ,label) ,(statement rest))))
+        (default
+          (let ((label (label! 'default)))
+            `(labeled-stmt (ident ,label) (expr-stmt))))
+        ((compd-stmt . ,rest) `(compd-stmt ,@(walk-list rest)))
+        ((block-item-list . ,rest) `(block-item-list ,@(walk-list rest)))
+        ((if . ,rest) `(if ,@(walk-list rest)))
+        ((while . ,rest) `(while ,@(walk-list rest)))
+        ((do-while . ,rest) `(do-while ,@(walk-list rest)))
+        ((for . ,rest) `(for ,@(walk-list rest)))
+        ((labeled-stmt . ,rest) `(labeled-stmt ,@(walk-list rest)))
+        (_ o)))
+    (let ((o (walk o)))
+      (cons (reverse cases) o))))
+
+(define (switch-case->info type o info)
+  (let* ((test (car o))
+         (value (pmatch test
+                  (0 0)
+                  ((p-expr (char ,value)) (cchar->int value))
+                  (_ (or (try-expr->number info test)
+                         (error "case test: not supported: " test)))))
+         (value (number->type value type info)))
+    (append-text info (append (wrap-as (as info 'r-cmp-value value))
+                              (wrap-as (as info 'jump-z (goto-label->label (cdr o) info)))))))
 
 (define (global->static function)
   (lambda (o)
-- 
2.43.0


From 20f16c34b26b0d34decc4a31f366f4deb9c2583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:32 +0000
Subject: [PATCH 103/133] fix: MesCC: initializers of arrays, structures and
 unions

---
 module/mescc/compile.scm | 420 +++++++++++++++------------------------
 1 file changed, 159 insertions(+), 261 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index cde6697..4ab7071 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -179,7 +179,7 @@
       ((sizeof-expr ,expr) (get-type "unsigned long" info))
       ((sizeof-type ,type) (get-type "unsigned long" info))
 
-      ((string ,string) (make-c-array (get-type "char" info) (1+ (string-length string))))
+      ((string . ,strings) (make-c-array (get-type "char" info) (1+ (apply + (map string-length strings)))))
 
       ((decl-spec-list (type-spec ,type)) (ast->type type info))
 
@@ -2216,127 +2216,138 @@
     ((array-of (ident ,name) ,count) (expr->number info count))
     (_ #f)))
 
-(define (init->r o info)
+;; The elements of the initializer O of an object of TYPE, each (OFFSET
+;; TYPE EXPR); all else in the object is zero.
+(define (initializer->elements type o info)
+  (define (aggregate? type)
+    (or (c-array? type) (structured-type? type)))
+  (define (char-array? type)
+    (and (c-array? type)
+         (type? (c-array:type type))
+         (not (structured-type? (c-array:type type)))
+         (= (->size type info) (c-array:count type))))
+  ;; An object takes what it needs from INITS: (ELEMENTS . REST)
+  (define (object type offset inits)
+    (let ((string (and (char-array? type) (array-init->string (car inits)))))
+      (pmatch (car inits)
+        (,init (guard string)
+               (let* ((element (c-array:type type))
+                      (chars (string->list string))
+                      (count (min (length chars) (c-array:count type))))
+                 (cons (map (lambda (i c)
+                              (list (+ offset i) element
+                                    `(p-expr (fixed ,(number->string (char->integer c))))))
+                            (iota count) (list-head chars count))
+                       (cdr inits))))
+        ((initzer (initzer-list . ,list)) (guard (aggregate? type))
+         (cons (car (members type offset list)) (cdr inits)))
+        ((initzer (initzer-list ,init . ,list))
+         (cons (car (object type offset (cons init list))) (cdr inits)))
+        ((initzer ,expr)
+         (if (or (not (aggregate? type))
+                 (and (structured-type? type)
+                      (structured-type? (ast->type expr info))))
+             (cons (list (list offset type expr)) (cdr inits))
+             (members type offset inits)))
+        (_ (error "initializer: not supported: " o)))))
+  (define (sequence objects inits)
+    (let loop ((objects objects) (inits inits) (elements '()))
+      (if (or (null? objects) (null? inits))
+          (cons (apply append (reverse elements)) inits)
+          (let ((result ((car objects) inits)))
+            (loop (cdr objects) (cdr result) (cons (car result) elements))))))
+  (define (members type offset inits)
+    (cond ((c-array? type)
+           (let* ((element (c-array:type type))
+                  (size (->size element info))
+                  (count (min (c-array:count type) (length inits))))
+             (sequence (map (lambda (i)
+                              (lambda (inits) (object element (+ offset (* i size)) inits)))
+                            (iota count))
+                       inits)))
+          ((eq? (type:type type) 'union)
+           (sequence (list (field-object (car (type:description type)) offset)) inits))
+          (else
+           (let loop ((fields (type:description type)) (offset offset) (objects '()))
+             (if (null? fields) (sequence (reverse objects) inits)
+                 (loop (cdr fields)
+                       (+ offset (field:size (car fields) info))
+                       (cons (field-object (car fields) offset) objects)))))))
+  (define (field-object field offset)
+    (lambda (inits)
+      (if (eq? (car field) 'bits) (bit-fields (cdr field) offset inits)
+          (object (ast->type (cdr field) info) offset inits))))
+  (define (bit-fields fields offset inits)
+    (define type (bit-field:type (cdar fields)))
+    (let loop ((fields fields) (inits inits) (expr #f))
+      (if (or (null? fields) (null? inits))
+          (cons (list (list offset type expr)) inits)
+          (let* ((bits (cdar fields))
+                 (mask (number->string (1- (ash 1 (bit-field:bits bits)))))
+                 (bit (number->string (bit-field:bit bits)))
+                 (value (pmatch (car inits)
+                          ((initzer (initzer-list (initzer ,value))) value)
+                          ((initzer ,value) value)))
+                 (value `(lshift (bitwise-and ,value (p-expr (fixed ,mask)))
+                                 (p-expr (fixed ,bit)))))
+            (loop (cdr fields) (cdr inits)
+                  (if expr `(bitwise-or ,expr ,value) value))))))
   (pmatch o
-    ((initzer-list (initzer ,expr))
-     (expr->register expr info))
-    (((#:string ,string))
-     (expr->register `(p-expr (string ,string)) info))
-    ((,number . _) (guard (number? number))
-     (expr->register `(p-expr (fixed 0)) info))
-    ((,c . ,_) (guard (char? c))
-     info)
-    (_
-     (expr->register o info))))
-
-(define (init-struct-field local field n init info)
-  (let* ((offset (field-offset info (local:type local) (car field)))
-         (size (field:size field info))
-         (offset (+ offset (* n size)))
-         (info (expr->register init info))
+    ((initzer ,init) (initializer->elements type init info))
+    (((initzer ,init)) (initializer->elements type init info))
+    (_ (car (object type 0 `((initzer ,o)))))))
+
+;; The elements with the gaps between them: (OFFSET SIZE ELEMENT)
+(define (elements->data elements size info)
+  (define (zeros n)
+    (string->list (make-string n #\nul)))
+  (let loop ((elements elements) (offset 0))
+    (if (null? elements) (zeros (- size offset))
+        (let* ((element (car elements))
+               (type (cadr element)))
+          (append (zeros (- (car element) offset))
+                  (init->data type (caddr element) info)
+                  (loop (cdr elements) (+ (car element) (->size type info))))))))
+
+;; Store r0 in LOCAL at OFFSET
+(define (r->local-offset local offset type info)
+  (let* ((size (->size type info))
          (info (allocate-register info))
-         (info (append-text info (local->r local info)))
+         (info (append-text info (wrap-as (as info 'local-ptr->r (local:id local)))))
          (info (append-text info (wrap-as (as info 'r+value offset))))
-         (reg-size (->size "*" info))
-         (size (min size reg-size))
-         (info (r0->r1-mem*n info size size))
-         (info (free-register info))
-         (info (free-register info)))
-    info))
+         (info (if (structured-type? type) (copy-structure size info)
+                   (r0->r1-mem*n info size size))))
+    (free-register info)))
 
-(define (init-struct-struct-field local type offset field init info)
-  (let* ((offset (+ offset (field-offset info type (car field))))
-         (size (field:size field info))
-         (info (expr->register init info))
+(define (init-local local type init info)
+  (let* ((size (->size type info))
+         (elements (initializer->elements type init info))
+         (info (if (= (apply + (map (compose (cut ->size <> info) cadr) elements)) size) info
+                   (zero-local local size info))))
+    (fold (lambda (element info)
+            (let* ((type (cadr element))
+                   (info (if (structured-type? type) (structure->register (caddr element) info)
+                             (expr->register (caddr element) info)))
+                   (info (r->local-offset local (car element) type info)))
+              (free-register info)))
+          info elements)))
+
+(define (zero-local local size info)
+  (let* ((reg-size (->size "*" info))
+         (info (expr->register '(p-expr (fixed "0")) info))
          (info (allocate-register info))
-         (info (append-text info (local->r local info)))
-         (info (append-text info (wrap-as (as info 'r+value offset))))
-         (reg-size (->size "*" info))
-         (size (min size reg-size))
-         (info (r0->r1-mem*n info size size))
-         (info (free-register info))
+         (info (append-text info (wrap-as (as info 'local-ptr->r (local:id local)))))
+         (info (let loop ((size size) (info info))
+                 (if (<= size 0) info
+                     (let* ((n (cond ((>= size reg-size) reg-size)
+                                     ((>= size 4) 4)
+                                     ((>= size 2) 2)
+                                     (else 1)))
+                            (info (r0->r1-mem*n info n n))
+                            (info (append-text info (wrap-as (as info 'r+value n)))))
+                       (loop (- size n) info)))))
          (info (free-register info)))
-    info))
-
-(define (init-array-entry local index init info)
-  (let* ((type (local:type local))
-         (size (cond ((pointer? type) (->size "*" info))
-                     ((and (c-array? type) ((compose pointer? c-array:type) type)) (->size "*" info))
-                     ((c-array? type) ((compose type:size c-array:type) type))
-                     (else (type:size type))))
-         (offset (* index size))
-         (info (expr->register init info))
-         (info (allocate-register info))
-         (info (append-text info (local->r local info)))
-         (info (append-text info (wrap-as (as info 'r+value offset))))
-         (reg-size (->size "*" info))
-         (size (min size reg-size))
-         (info (r0->r1-mem*n info size size))
-         (info (fold (lambda (x info) (free-register info)) info (.allocated info))))
-    info))
-
-(define (init-local local o n info)
-  (pmatch o
-    (#f info)
-    ((initzer ,init)
-     (init-local local init n info))
-    ((initzer-list . ,inits)
-     (let ((local-type (local:type local)))
-       (cond ((structured-type? local)
-              (let* ((fields (struct->init-fields local-type))
-                     (field+counts (let loop ((fields fields))
-                                     (if (null? fields) '()
-                                         (let* ((field (car fields))
-                                                (type (cdr field)))
-                                           (cond ((c-array? type)
-                                                  (append (map
-                                                           (lambda (i)
-                                                             (let ((field (cons (car field) (c-array:type type))))
-                                                               (cons field i)))
-                                                           (iota (c-array:count type)))
-                                                          (loop (cdr fields))))
-                                                 (else
-                                                  (cons (cons field 0) (loop (cdr fields))))))))))
-                (let loop ((field+counts field+counts) (inits inits) (info info))
-                  (if (null? field+counts) info
-                      (let* ((field (caaar field+counts))
-                             (type (cdaar field+counts)))
-                        (if (and (type? type)
-                                 (eq? (type:type type) 'struct))
-                            (let* ((field-fields (type:description type))
-                                   (field-inits (list-head inits (max (length inits) (length field-fields))))
-                                   (missing (max 0 (- (length field-fields) (length field-inits))))
-                                   (field-inits+ (append field-inits (map (const '(p-expr (fixed "0"))) (iota missing))))
-                                   (offset (field-offset info local-type field))
-                                   ;; (info (init-local local `(initzer-list ,field-inits) n info))
-                                   ;; crap, howto recurse? -- would need new local for TYPE
-                                   ;; just do two deep for now
-                                   (info (fold (cut init-struct-struct-field local type offset <> <> <>) info field-fields field-inits+)))
-                              (loop (list-tail field+counts (min (length field+counts) (length field-fields)))
-                                    (list-tail inits (min (length field-inits) (length field-inits))) info))
-                            (let* ((missing (max 0 (- (length field+counts) (length inits))))
-                                   (counts (map cdr field+counts))
-                                   (fields (map car field+counts))
-                                   (info (fold (cut init-struct-field local <> <> <> <>) info fields counts (append inits (map (const '(p-expr (fixed "22"))) (iota missing))))))
-                              ;; bah, loopme!
-                              ;;(loop (list-tail field+counts (length field-fields)) (list-tail inits (length field-inits)) info)
-                              info)))))))
-             (else
-              (let* ((type (local:type local))
-                     (type (if (c-array? type) (c-array:type type) type))
-                     (size (->size type info)))
-                (fold (cut init-local local <> <> <>) info inits (iota (length inits) 0 size)))))))
-    (,string (guard (string? string))
-             (let ((inits (string->list string)))
-               (fold (cut init-array-entry local <> <> <>) info (iota (length inits)) inits)))
-
-    (((initzer (initzer-list . ,inits)))
-     (init-local local (car o) n info))
-
-    (() info)
-    (_ (let* ((info (init->r o info))
-              (info (append-text info (r->local+n-text info local n))))
-         (free-register info)))))
+    (free-register info)))
 
 (define (local->info type name o init info)
   (let* ((locals (.locals info))
@@ -2354,134 +2365,47 @@
                           (pointer:type (pointer:type type)))))
          (struct? (structured-type? type))
          (size (->size type info))
-         (string (and array? (array-init->string init)))
-         (init (or string init))
          (reg-size (->size "*" info))
          (local (if (not array?) local
-                    (let ((size (or (and string (max size (1+ (string-length string))))
-                                    size)))
-                      (make-local-entry name type (+ (local:id (cdr local)) -1 (quotient (+ size (1- reg-size)) reg-size))))))
+                    (make-local-entry name type (+ (local:id (cdr local)) -1 (quotient (+ size (1- reg-size)) reg-size)))))
          (local (if struct? (make-local-entry name type (+ (local:id (cdr local)) (quotient (+ size (1- reg-size)) reg-size)))
                     local))
          (locals (cons local locals))
          (info (clone info #:locals locals))
          (local (cdr local)))
-    (init-local local init 0 info)))
+    (if (or (not init) (null? init)) info
+        (init-local local type init info))))
 
 (define (global->info storage type name o init info)
-  (let* ((rank (->rank type))
-         (size (->size type info))
-         (data (cond ((not init) (string->list (make-string size #\nul)))
-                     ((c-array? type)
-                      (let* ((string (array-init->string init))
-                             (size (or (and string (max size (1+ (string-length string))))
-                                       size))
-                             (data (or (and=> string string->list)
-                                       (array-init->data type size init info))))
-                        (append data (string->list (make-string (max 0 (- size (length data))) #\nul)))))
-                     ((structured-type? type)
-                      (let ((data (init->data type init info)))
-                        (append data (string->list (make-string (max 0 (- size (length data))) #\nul)))))
-                     (else
-                      (let ((data (init->data type init info)))
-                        (append data (string->list (make-string (max 0 (- size (length data))) #\nul)))))))
+  (let* ((size (->size type info))
+         (data (if (or (not init) (null? init)) (string->list (make-string size #\nul))
+                   (elements->data (initializer->elements type init info) size info)))
+         (string (and (c-array? type) (array-init->string init)))
+         ;; a string that fills its array keeps its terminator
+         (data (if (and string (= (string-length string) size)) (append data '(#\nul))
+                   data))
          (global (make-global-entry name storage type data)))
     (clone info #:globals (append (.globals info) (list global)))))
 
-(define (array-init-element->data type o info)
-  (pmatch o
-    ((initzer (p-expr (string ,string)))
-     (let ((reg-size (->size "*" info)))
-       (if (= reg-size 8) `((#:string ,string) "%0")
-           `((#:string ,string)))))
-    ((initzer (p-expr (fixed ,fixed)))
-     (if (structured-type? type)
-         (let ((fields (map cdr (struct->init-fields type))))
-           (int->bv type (expr->number info fixed) info))
-         (int->bv type (expr->number info fixed) info)))
-    ((initzer (initzer-list . ,inits))
-     (cond ((structured-type? type)
-            (let* ((fields (map cdr (struct->init-fields type)))
-                   (missing (max 0 (- (length fields) (length inits))))
-                   (inits (append inits
-                                  (map (const '(fixed "0")) (iota missing)))))
-              (map (cut array-init-element->data <> <> info) fields inits)))
-           ((c-array? type)
-            (let* ((missing (max 0 (- (c-array:count type) (length inits))))
-                   (inits (append inits
-                                  (map (const '(fixed "0")) (iota missing)))))
-              (map (cut array-init-element->data (c-array:type type) <> info) inits)))
-         (else
-          (format (current-error-port) "array-init-element->data: oops:~s\n" o)
-          (format (current-error-port) "type:~s\n" type)
-          (error "array-init-element->data: not supported: " o))))
-    (_ (init->data type o info))
-    (_ (error "array-init-element->data: not supported: " o))))
-
-(define (array-init->data type size o info)
-  (pmatch o
-    ((initzer (initzer-list . ,inits))
-     (let ((type (c-array:type type)))
-       (if (structured-type? type)
-           (let* ((init-fields (struct->init-fields type)) ;; FIXME
-                  (count (length init-fields)))
-             (let loop ((inits inits))
-               (if (null? inits) '()
-                   (let ((init (car inits)))
-                     (pmatch init
-                       ((initzer (initzer-list . ,car-inits))
-                        (append (array-init-element->data type init info)
-                                (loop (cdr inits))))
-                       (_
-                        (let* ((count (min (length inits) (length init-fields)))
-                                 (field-inits (list-head inits count)))
-                          (append (array-init-element->data type `(initzer-list ,@field-inits) info)
-                           (loop (list-tail inits count))))))))))
-           (map (cut array-init-element->data type <> info) inits))))
-
-    (((initzer (initzer-list . ,inits)))
-     (array-init->data type size (car o) info))
-
-    ((initzer (p-expr (string ,string)))
-     (let ((data (string->list string)))
-       (if (not size) data
-           (append data (string->list (make-string (max 0 (- size (length data))) #\nul))))))
-
-    (((initzer (p-expr (string ,string))))
-     (array-init->data type size (car o) info))
-
-    ((initzer (p-expr (string . ,strings)))
-     (let ((data (string->list (apply string-append strings))))
-       (if (not size) data
-           (append data (string->list (make-string (max 0 (- size (length data))) #\nul))))))
-
-    (((initzer (p-expr (string . ,strings))))
-     (array-init->data type size (car o) info))
-
-    ((initzer (p-expr (fixed ,fixed)))
-     (int->bv type (expr->number info fixed) info))
-
-    (() (string->list (make-string size #\nul)))
-    (_ (error "array-init->data: not supported: " o))))
-
 (define (array-init->string o)
   (pmatch o
-    ((p-expr (string ,string)) string)
     ((p-expr (string . ,strings)) (apply string-append strings))
+    ((initzer-list (initzer (p-expr (string . ,strings)))) (apply string-append strings))
     ((initzer ,init) (array-init->string init))
-    (((initzer ,init)) (array-init->string init))
-    ((initzer-list (initzer (p-expr (char ,c))) . ,inits)
-     (list->string (map (lambda (i) (pmatch i
-                                      ((initzer (p-expr (char ,c))) ((compose car string->list) c))
-                                      ((initzer (p-expr (fixed ,fixed)))
-                                       (let ((value (cstring->int fixed)))
-                                         (if (and (>= value 0) (<= value 255))
-                                             (integer->char value)
-                                             (error "array-init->string: not supported:" i o))))
-                                      (_ (error "array-init->string: not supported:" i o))))
-                        (cdr o))))
     (_ #f)))
 
+;; The number of elements of TYPE in the initializer of an array
+(define (array-init->count type init info)
+  (pmatch init
+    (() 0)
+    (((initzer ,init))
+     (let ((string (array-init->string init)))
+       (if (and string (= (->size type info) 1)) (1+ (string-length string))
+           (let* ((array (make-c-array type #x100000))
+                  (elements (initializer->elements array init info)))
+             (if (null? elements) 0
+                 (1+ (quotient (car (last elements)) (->size type info))))))))))
+
 (define (init-declr->info type storage o info)
   (pmatch o
     (((ident ,name))
@@ -2512,32 +2436,14 @@
      (let* ((rank (pointer->rank pointer))
             (type (rank+= type rank)))
        (init-declr->info type storage (append _ init) info)))
-    (((array-of (ident ,name) ,count) . ,init)
-     (let* ((strings (init->strings init info))
-            (info (if (null? strings) info
-                      (clone info #:globals (append (.globals info) strings))))
-            (count (expr->number info count))
+    (((array-of ,declr ,count) . ,init)
+     (let* ((count (expr->number info count))
             (type (make-c-array type count)))
-       (if (.function info) (local->info type name o init info)
-           (global->info storage type name o init info))))
-    (((array-of (ident ,name)) . ,init)
-     (let* ((strings (init->strings init info))
-            (info (if (null? strings) info
-                      (clone info #:globals (append (.globals info) strings))))
-            (count (length (cadar init)))
+       (init-declr->info type storage (cons declr init) info)))
+    (((array-of ,declr) . ,init)
+     (let* ((count (array-init->count type init info))
             (type (make-c-array type count)))
-       (if (.function info) (local->info type name o init info)
-           (global->info storage type name o init info))))
-    ;; FIXME: recursion
-    (((array-of (array-of (ident ,name) ,count1) ,count) . ,init)
-     (let* ((strings (init->strings init info))
-            (info (if (null? strings) info
-                      (clone info #:globals (append (.globals info) strings))))
-            (count (expr->number info count))
-            (count1 (expr->number info count1))
-            (type (make-c-array (make-c-array type count1) count)))
-       (if (.function info) (local->info type name o init info)
-           (global->info storage type name o init info))))
+       (init-declr->info type storage (cons declr init) info)))
     (_ (error "init-declr->info: not supported: " o))))
 
 (define (enum-def-list->constants info fields)
@@ -2573,17 +2479,9 @@
            `((#:string ,(string-join strings ""))))))
     ((ident ,name) (let ((var (ident->variable info name)))
                      (if (number? var) (int->bv type var info)
-                         `((#:address ,var)))))
-    ((initzer-list . ,inits)
-     (cond ((structured-type? type)
-            (map (cut init->data <> <> info) (map cdr (struct->init-fields type)) inits))
-           ((c-array? type)
-            (let ((size (->size type info)))
-              (array-init->data type size `(initzer ,o) info)))
-           (else
-            (append-map (cut init->data type <> info) inits))))
-    (((initzer (initzer-list . ,inits)))
-     (init->data type `(initzer-list . ,inits) info))
+                         `((#:address ,var)
+                           ,@(if (= (->size "*" info) 8) '((#:address 0))
+                                 '())))))
     ((ref-to (p-expr (ident ,name)))
      (let ((var (ident->variable info name))
            (reg-size (->size "*" info)))
-- 
2.43.0


From 8bb8363b39b118a56351238e5f24f45aa02598bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:34 +0000
Subject: [PATCH 104/133] fix: mescc -E: a syntax error is an error

---
 module/mescc/preprocess.scm | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/module/mescc/preprocess.scm b/module/mescc/preprocess.scm
index 375ac3b..40b6eeb 100644
--- a/module/mescc/preprocess.scm
+++ b/module/mescc/preprocess.scm
@@ -94,10 +94,11 @@
     (when (and verbose? (> verbose? 1))
       (format (current-error-port) "includes: ~s\n" includes)
       (format (current-error-port) "defines: ~s\n" defines))
-    (parse-c99
-     #:inc-dirs includes
-     #:cpp-defs defines
-     #:mode 'code)))
+    (or (parse-c99
+         #:inc-dirs includes
+         #:cpp-defs defines
+         #:mode 'code)
+        (exit 1))))
 
 (define* (c99-input->ast #:key (prefix "") (defines '()) (includes '()) (arch "") verbose?)
   (when verbose?
-- 
2.43.0


From cd14ff8b8e4f20a0d06f6d3671ebe41143b05c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:34 +0000
Subject: [PATCH 105/133] fix: status:exit-val: no exit value after a signal;
 system* waits for its own child

---
 mes/module/mes/posix.mes | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mes/module/mes/posix.mes b/mes/module/mes/posix.mes
index fc1b157..2d35f7a 100644
--- a/mes/module/mes/posix.mes
+++ b/mes/module/mes/posix.mes
@@ -62,7 +62,7 @@
                (dup2 err 2))
              (exit (apply execlp file-name (list args)))))
           ((= -1 pid) (error "fork failed:" file-name))
-          (else (let ((pid+status (waitpid 0)))
+          (else (let ((pid+status (waitpid pid)))
                   (cdr pid+status))))))
 
 (define (waitpid pid . options)
@@ -70,4 +70,5 @@
     (core:waitpid pid options)))
 
 (define (status:exit-val status)
-  (ash status -8))
+  (and (zero? (logand status #x7f))
+       (logand (ash status -8) #xff)))
-- 
2.43.0


From 68afa2cfc504fb2ef46a852b299850b0553261e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:45 +0000
Subject: [PATCH 106/133] fix: mescc -L: directories in their order

---
 module/mescc/mescc.scm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/module/mescc/mescc.scm b/module/mescc/mescc.scm
index ce79a3c..4cf35c3 100644
--- a/module/mescc/mescc.scm
+++ b/module/mescc/mescc.scm
@@ -295,7 +295,7 @@
                        (list libdir)
                        (or (and=> (getenv "LIBRARY_PATH")
                                   (cut string-split <> #\:)) '())
-                       (filter-map (multi-opt 'library-dir) options)))
+                       (reverse (filter-map (multi-opt 'library-dir) options))))
          (arch-file-name (string-append arch "/" file-name))
          (arch-file-name (if kernel (string-append kernel "/" arch-file-name)
                              arch-file-name))
-- 
2.43.0


From 109afc1caeca01c899a37a3a7d420f8ee36ddccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:45 +0000
Subject: [PATCH 107/133] fix: mescc: a tool ended by a signal is a failure

---
 module/mescc/mescc.scm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/module/mescc/mescc.scm b/module/mescc/mescc.scm
index 4cf35c3..64f08d1 100644
--- a/module/mescc/mescc.scm
+++ b/module/mescc/mescc.scm
@@ -317,7 +317,7 @@
   (let ((status (apply system* args)))
     (when (not (zero? status))
       (format (current-error-port) "mescc: failed: ~a\n" (string-join args))
-      (exit (status:exit-val status)))
+      (exit (or (status:exit-val status) 1)))
     status))
 
 (define (arch-get options)
-- 
2.43.0


From f23f3cfecfe6c0fbb2a4d9e2601c952b33be0d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:45 +0000
Subject: [PATCH 108/133] fix: mescc: compiling a source after an object or
 assembly overwrote that

---
 module/mescc/mescc.scm | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/module/mescc/mescc.scm b/module/mescc/mescc.scm
index 64f08d1..ffeaa7a 100644
--- a/module/mescc/mescc.scm
+++ b/module/mescc/mescc.scm
@@ -140,9 +140,10 @@
          (s-files (filter .s? files))
          (o-files (filter .o? files))
          (input-file-name (car files))
-         (hex2-file-name (if (or (string-suffix? ".hex2" input-file-name)
-                                 (string-suffix? ".o" input-file-name)) input-file-name
-                                 (replace-suffix input-file-name ".o")))
+         ;; named after a source: it must not replace another input
+         (hex2-file-name (replace-suffix (if (null? source-files) input-file-name
+                                             (car source-files))
+                                         ".o"))
          (infos (map (cut file->info options <>) source-files))
          (s-files (filter .s? files))
          (hex2-files (filter .o? files))
-- 
2.43.0


From a6113b1941d82074fcbe99678fbf82fd590c1aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:45 +0000
Subject: [PATCH 109/133] fix: mescc -D NAME: defines NAME as 1

---
 module/mescc/mescc.scm | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/module/mescc/mescc.scm b/module/mescc/mescc.scm
index ffeaa7a..f9e8785 100644
--- a/module/mescc/mescc.scm
+++ b/module/mescc/mescc.scm
@@ -55,7 +55,7 @@
                                     (option-ref options 'output #f)))
                               (else (replace-suffix input-base ".E"))))
          (dir (dirname input-file-name))
-         (defines (reverse (filter-map (multi-opt 'define) options)))
+         (defines (options->defines options))
          (includes (reverse (filter-map (multi-opt 'include) options)))
          (includes (cons (option-ref options 'includedir #f) includes))
          (includes (cons dir includes))
@@ -99,7 +99,7 @@
 
 (define (c->info options file-name)
   (let* ((dir (dirname file-name))
-         (defines (reverse (filter-map (multi-opt 'define) options)))
+         (defines (options->defines options))
          (includes (reverse (filter-map (multi-opt 'include) options)))
          (includes (cons (option-ref options 'includedir #f) includes))
          (includes (cons dir includes))
@@ -384,6 +384,12 @@
                 ((equal? arch "x86") (if numbered-arch? "1" "x86"))
                 ((equal? arch "x86_64") (if numbered-arch? "2" "amd64"))))))
 
+(define (options->defines options)
+  (map (lambda (o)
+         (if (string-index o #\=) o
+             (string-append o "=1")))
+       (reverse (filter-map (multi-opt 'define) options))))
+
 (define (multi-opt option-name) (lambda (o) (and (eq? (car o) option-name) (cdr o))))
 (define (count-opt options option-name)
   (let ((lst (filter-map (multi-opt option-name) options)))
-- 
2.43.0


From b8d9be628192cd433e3793a1c62510033969871a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:22 +0000
Subject: [PATCH 110/133] fix: hash tables: return the default for a missing
 key, take the size

---
 src/eval-apply.c |  2 +-
 src/hash.c       | 31 ++++++++++++-------------------
 2 files changed, 13 insertions(+), 20 deletions(-)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index e7a2c69..4f0e7db 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -166,7 +166,7 @@ struct scm *
 macro_get_handle (struct scm *name)     /*:((internal)) */
 {
   if (name->type == TSYMBOL)
-    return hashq_get_handle (g_macros, name, cell_nil);
+    return hashq_get_handle (g_macros, name, cell_f);
   return cell_f;
 }
 
diff --git a/src/hash.c b/src/hash.c
index 1ed0737..b885c13 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -83,20 +83,20 @@ hashq_get_handle (struct scm *table, struct scm *key, struct scm *dflt)
   struct scm *buckets = struct_ref_ (table, 4);
   struct scm *bucket = vector_ref_ (buckets, hash);
   struct scm *x = cell_f;
-  if (dflt->type == TPAIR)
-    x = dflt->car;
   if (bucket->type == TPAIR)
     x = assq (key, bucket);
+  if (x == cell_f)
+    return dflt;
   return x;
 }
 
 struct scm *
 hashq_ref (struct scm *table, struct scm *key, struct scm *dflt)
 {
-  struct scm *x = hashq_get_handle (table, key, dflt);
-  if (x != cell_f)
-    x = x->cdr;
-  return x;
+  struct scm *x = hashq_get_handle (table, key, cell_f);
+  if (x == cell_f)
+    return dflt;
+  return x->cdr;
 }
 
 struct scm *
@@ -108,15 +108,11 @@ hash_ref (struct scm *table, struct scm *key, struct scm *dflt)
   struct scm *buckets = struct_ref_ (table, 4);
   struct scm *bucket = vector_ref_ (buckets, hash);
   struct scm *x = cell_f;
-  if (dflt->type == TPAIR)
-    x = dflt->car;
   if (bucket->type == TPAIR)
-    {
-      x = assoc (key, bucket);
-      if (x != cell_f)
-        x = x->cdr;
-    }
-  return x;
+    x = assoc (key, bucket);
+  if (x == cell_f)
+    return dflt;
+  return x->cdr;
 }
 
 struct scm *
@@ -213,10 +209,7 @@ struct scm *
 make_hash_table (struct scm *x)
 {
   long size = 0;
-  if (x->type == TPAIR)
-    {
-      assert_msg (x->type == TNUMBER, "x->type == TNUMBER");
-      size = x->value;
-    }
+  if (x->type == TNUMBER)
+    size = x->value;
   return make_hash_table_ (size);
 }
-- 
2.43.0


From 1d0a7bda20e028360978dea6e95d33d035118bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:22 +0000
Subject: [PATCH 111/133] fix: SRFI-9: constructor arguments initialise the
 fields they name

---
 mes/module/srfi/srfi-9-struct.mes | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mes/module/srfi/srfi-9-struct.mes b/mes/module/srfi/srfi-9-struct.mes
index 0f50920..0773864 100644
--- a/mes/module/srfi/srfi-9-struct.mes
+++ b/mes/module/srfi/srfi-9-struct.mes
@@ -53,12 +53,13 @@
        (record-type? (struct-vtable o))))
 
 (define (record-constructor type name params)
-  (let ((fields (record-fields type))
-        (record-type (record-type type)))
+  (let ((indices (map (lambda (field) (lst-index params field))
+                      (record-fields type))))
     (lambda (. o)
       (if (not (= (length o) (length params))) (error "wrong number of arguments for record-constructor")
-          (let ((rest (make-list (- (length fields) (length params)))))
-            (make-struct type (cons name (append o rest)) record-printer))))))
+          (make-struct type
+                       (cons name (map (lambda (i) (if i (list-ref o i))) indices))
+                       record-printer)))))
 
 (define record-printer *unspecified*)   ; TODO
 (define (record-printer o)
-- 
2.43.0


From 73fa1e41e3fa7e05911954942f5d286b68f3d169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:29 +0000
Subject: [PATCH 112/133] fix: syntax-rules: vector patterns and templates

---
 mes/module/mes/syntax.scm | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mes/module/mes/syntax.scm b/mes/module/mes/syntax.scm
index 2769dbf..fdd8e1c 100644
--- a/mes/module/mes/syntax.scm
+++ b/mes/module/mes/syntax.scm
@@ -139,6 +139,11 @@
                    (and (pair? ,%temp)
                         ,@(process-match `(car ,%temp) (car pattern))
                         ,@(process-match `(cdr ,%temp) (cdr pattern))))))
+              ((vector? pattern)
+               `((let ((,%temp ,input))
+                   (and (vector? ,%temp)
+                        ,@(process-match `(vector->list ,%temp)
+                                         (vector->list pattern))))))
               ((or (null? pattern) (boolean? pattern) (char? pattern))
                `((eq? ,input ',pattern)))
               (else
@@ -173,6 +178,8 @@
               ((pair? pattern)
                (append (process-pattern (car pattern) `(car ,path) mapit)
                        (process-pattern (cdr pattern) `(cdr ,path) mapit)))
+              ((vector? pattern)
+               (process-pattern (vector->list pattern) `(vector->list ,path) mapit))
               (else '())))
 
       ;; Generate code to compose the output expression according to template
@@ -205,6 +212,8 @@
               ((pair? template)
                `(cons ,(process-template (car template) rank env)
                       ,(process-template (cdr template) rank env)))
+              ((vector? template)
+               `(list->vector ,(process-template (vector->list template) rank env)))
               (else `(quote ,template))))
 
       ;; Return an association list of (var . rank)
@@ -219,6 +228,8 @@
               ((pair? pattern)
                (meta-variables (car pattern) rank
                                (meta-variables (cdr pattern) rank vars)))
+              ((vector? pattern)
+               (meta-variables (vector->list pattern) rank vars))
               (else vars)))
 
       ;; Return a list of meta-variables of given higher rank
@@ -240,6 +251,8 @@
                                     rank env
                                     (free-meta-variables (cdr template)
                                                          rank env free)))
+              ((vector? template)
+               (free-meta-variables (vector->list template) rank env free))
               (else free)))
 
       c                                 ;ignored
-- 
2.43.0


From 7ad7f8c9b618b0cc5cf6927a3a15498581cd516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:29 +0000
Subject: [PATCH 113/133] fix: match: nested patterns and user variables were
 captured

---
 mes/module/mes/match.scm | 114 ++++++++++++++++++++-------------------
 1 file changed, 58 insertions(+), 56 deletions(-)

diff --git a/mes/module/mes/match.scm b/mes/module/mes/match.scm
index a89cb9a..8eefb90 100644
--- a/mes/module/mes/match.scm
+++ b/mes/module/mes/match.scm
@@ -265,14 +265,14 @@
     ((match atom)
      (match-syntax-error "no match clauses"))
     ((match (app ...) (pat . body) ...)
-     (let ((v (app ...)))
-       (match-next v ((app ...) (set! (app ...))) (pat . body) ...)))
+     (let ((match:v (app ...)))
+       (match-next match:v ((app ...) (set! (app ...))) (pat . body) ...)))
     ((match #(vec ...) (pat . body) ...)
-     (let ((v #(vec ...)))
-       (match-next v (v (set! v)) (pat . body) ...)))
+     (let ((match:v #(vec ...)))
+       (match-next match:v (match:v (set! match:v)) (pat . body) ...)))
     ((match atom (pat . body) ...)
-     (let ((v atom))
-       (match-next v (atom (set! atom)) (pat . body) ...)))
+     (let ((match:v atom))
+       (match-next match:v (atom (set! atom)) (pat . body) ...)))
     ))
 
 ;; MATCH-NEXT passes each clause to MATCH-ONE in turn with its failure
@@ -364,11 +364,7 @@
      (match-extract-vars p (match-gen-ellipses v p r g+s sk fk i) i ()))
     ((match-two v (p) g+s sk fk i)
      (if (and (pair? v) (null? (cdr v)))
-         (let ;;((w (car v)))
-             ((W (car v)))
-           ;;(match-one w p ((car v) (set-car! v)) sk fk i)
-           (match-one W p ((car v) (set-car! v)) sk fk i)
-           )
+         (match-one (car v) p ((car v) (set-car! v)) sk fk i)
          fk))
     ((match-two v (p *** q) g+s sk fk i)
      (match-extract-vars p (match-gen-search v p q g+s sk fk i) i ()))
@@ -384,14 +380,11 @@
          fk))
     ((match-two v (p . q) g+s sk fk i)
      (if (pair? v)
-         (let ;;((w (car v)) (x (cdr v)))
-             ((W (car v)) (X (cdr v)))
-           (match-one ;;w p ((car v) (set-car! v))
-                      W p ((car v) (set-car! v))
-                      ;;(match-one x q ((cdr v) (set-cdr! v)) sk fk)
-                      (match-one X q ((cdr v) (set-cdr! v)) sk fk)
-                      fk
-                      i))
+         ;; XXX No hygiene: do not use LET here, nested patterns would capture.
+         (match-one (car v) p ((car v) (set-car! v))
+                    (match-one (cdr v) q ((cdr v) (set-cdr! v)) sk fk)
+                    fk
+                    i)
          fk))
     ((match-two v #(p ...) g+s . x)
      (match-vector v 0 () (p ...) . x))
@@ -406,8 +399,8 @@
          ((new-sym?
            (syntax-rules (id ...)
              ;;((new-sym? x sk2 fk2) sk2)
-             ((new-sym? X sk2 fk2) sk2)
-             ((new-sym? y sk2 fk2) fk2))))
+             ((new-sym? X match:sk match:fk) match:sk)
+             ((new-sym? match:any match:sk match:fk) match:fk))))
        (new-sym? random-sym-to-match
                  ;;(let ((x v)) (sk ... (id ... x)))
                  (let ((X V)) (sk ... (id ... X)))
@@ -438,14 +431,10 @@
      (match-quasiquote v p g+s sk fk i . depth))
     ((_ v (p . q) g+s sk fk i . depth)
      (if (pair? v)
-         (let ;;((w (car v)) (x (cdr v)))
-             ((W (car v)) (X (cdr v)))
          (match-quasiquote
-          ;;w p g+s
-          W p g+s
-          ;;(match-quasiquote-step x q g+s sk fk depth)
-          (match-quasiquote-step X q g+s sk fk depth)
-          fk i . depth))
+          (car v) p g+s
+          (match-quasiquote-step (cdr v) q g+s sk fk depth)
+          fk i . depth)
        fk))
     ((_ v #(elt ...) g+s sk fk i . depth)
      (if (vector? v)
@@ -515,6 +504,15 @@
 ;; expects to see in the success body) to the reversed accumulated
 ;; list IDs.
 
+;; Without hygiene, the variables a template binds would capture those of
+;; the clauses and of nested patterns: give NAMES a fresh name in BODY.
+(define-macro (match-fresh names body)
+  (let ((fresh (map (lambda (name) (cons name (gensym))) names)))
+    (let rename ((x body))
+      (cond ((pair? x) (cons (rename (car x)) (rename (cdr x))))
+            ((and (symbol? x) (assq x fresh)) => cdr)
+            (else x)))))
+
 (define-syntax match-gen-ellipses
   (syntax-rules ()
     (;;(_ v p () g+s (sk ...) fk i ((id id-ls) ...))
@@ -530,43 +528,43 @@
              (sk ... i)
              fk))
        ;; simple case, match all elements of the list
-       (let loop ((ls v) (id-ls '()) ...)
-         (cond
-           ((null? ls)
-            (let ((id (reverse id-ls)) ...) (sk ... i)))
-           ((pair? ls)
-            (let ;;((w (car ls)))
-                ((W (car ls)))
-              (match-one ;;w p ((car ls) (set-car! ls))
-                         W p ((car ls) (set-car! ls))
-                         (match-drop-ids (loop (cdr ls) (cons id id-ls) ...))
-                         fk i)))
-           (else
-            fk)))))
+       (match-fresh (match:loop match:ls match:w)
+        (let match:loop ((match:ls v) (id-ls '()) ...)
+          (cond
+            ((null? match:ls)
+             (let ((id (reverse id-ls)) ...) (sk ... i)))
+            ((pair? match:ls)
+             (let ((match:w (car match:ls)))
+               (match-one match:w P ((car match:ls) (set-car! match:ls))
+                          (match-drop-ids (match:loop (cdr match:ls) (cons id id-ls) ...))
+                          fk i)))
+            (else
+             fk))))))
     ((_ v p r g+s (sk ...) fk i ((id id-ls) ...))
      ;; general case, trailing patterns to match, keep track of the
      ;; remaining list length so we don't need any backtracking
      (match-verify-no-ellipses
       r
-      (let* ((tail-len (length 'r))
-             (ls v)
-             (len (and (list? ls) (length ls))))
-        (if (or (not len) (< len tail-len))
+      (match-fresh (match:tail-len match:ls match:len match:loop match:n match:w)
+      (let* ((match:tail-len (length 'r))
+             (match:ls v)
+             (match:len (and (list? match:ls) (length match:ls))))
+        (if (or (not match:len) (< match:len match:tail-len))
             fk
-            (let loop ((ls ls) (n len) (id-ls '()) ...)
+            (let match:loop ((match:ls match:ls) (match:n match:len) (id-ls '()) ...)
               (cond
-                ((= n tail-len)
+                ((= match:n match:tail-len)
                  (let ((id (reverse id-ls)) ...)
-                   (match-one ls r (#f #f) (sk ...) fk i)))
-                ((pair? ls)
-                 (let ((w (car ls)))
-                   (match-one w p ((car ls) (set-car! ls))
+                   (match-one match:ls r (#f #f) (sk ...) fk i)))
+                ((pair? match:ls)
+                 (let ((match:w (car match:ls)))
+                   (match-one match:w p ((car match:ls) (set-car! match:ls))
                               (match-drop-ids
-                               (loop (cdr ls) (- n 1) (cons id id-ls) ...))
+                               (match:loop (cdr match:ls) (- match:n 1) (cons id id-ls) ...))
                               fk
                               i)))
                 (else
-                 fk)))))))))
+                 fk))))))))))
 
 ;; This is just a safety check.  Although unlike syntax-rules we allow
 ;; trailing patterns after an ellipses, we explicitly disable multiple
@@ -762,13 +760,17 @@
      (let-syntax
          ((new-sym?
            (syntax-rules (i ...)
-             ((new-sym? p sk fk) sk)
-             ((new-sym? any sk fk) fk))))
+             ((new-sym? p match:sk match:fk) match:sk)
+             ((new-sym? match:any match:sk match:fk) match:fk))))
        (new-sym? random-sym-to-match
-                 (k ... ((p p-ls) . v))
+                 (match-add-var p (k ...) v)
                  (k ... v))))
     ))
 
+;; Without hygiene, an inserted p-ls would be the same for every variable.
+(define-macro (match-add-var p k v)
+  `(,@k ((,p ,(symbol-append p '-ls)) ,@v)))
+
 ;; Stepper used in the above so it can expand the CAR and CDR
 ;; separately.
 
-- 
2.43.0


From 45323b9296c5432a7ac7d9977f8baad1fe539dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:30 +0000
Subject: [PATCH 114/133] fix: cut with <...> and cute: define append! and
 delq!

---
 mes/module/mes/scm.mes     | 2 ++
 mes/module/srfi/srfi-1.mes | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mes/module/mes/scm.mes b/mes/module/mes/scm.mes
index e3b3fa7..3dd7086 100644
--- a/mes/module/mes/scm.mes
+++ b/mes/module/mes/scm.mes
@@ -195,6 +195,8 @@
 (define (delq x lst)
   (filter (lambda (e) (not (eq? e x))) lst))
 
+(define delq! delq)
+
 (define (compose proc . rest)
   (if (null? rest) proc
       (lambda args
diff --git a/mes/module/srfi/srfi-1.mes b/mes/module/srfi/srfi-1.mes
index e84d87c..28fff6b 100644
--- a/mes/module/srfi/srfi-1.mes
+++ b/mes/module/srfi/srfi-1.mes
@@ -107,6 +107,8 @@
   (if (null? term) (core:reverse! lst term)
       (core:reverse! lst (car term))))
 
+(define append! append)
+
 (define (srfi-1:member x lst eq)
   (if (null? lst) #f
       (if (eq x (car lst)) lst
-- 
2.43.0


From 5c33b4a4f0b6313572287c13ed29774698542628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:16 +0000
Subject: [PATCH 115/133] fix: last-pair of an improper list

---
 src/lib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.c b/src/lib.c
index 6050054..749e85a 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -148,7 +148,7 @@ last_pair (struct scm *x)
 {
   while (x != cell_nil)
     {
-      if (x->cdr == cell_nil)
+      if (x->cdr->type != TPAIR)
         return x;
       x = x->cdr;
     }
-- 
2.43.0


From 778dfd667c0dc9b91700a9baf81c3fe258fcc9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:42 +0000
Subject: [PATCH 116/133] fix: string ports: byte 255 is not the end; read-char
 and read-string of a string port

---
 src/posix.c  | 26 +++++++++++++++-----------
 src/string.c |  2 ++
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/posix.c b/src/posix.c
index bfb1bcd..c7a5da9 100644
--- a/src/posix.c
+++ b/src/posix.c
@@ -74,7 +74,8 @@ peekchar ()
   if (length == 0)
     return -1;
   char const *p = cell_bytes (string->string);
-  return p[0];
+  int c = p[0];
+  return c & 255; /* byte 255 is not EOF */
 }
 
 int
@@ -91,7 +92,7 @@ readchar ()
   int c = p[0];
   p = p + 1;
   port->string = make_string (p, length - 1);
-  return c;
+  return c & 255; /* byte 255 is not EOF */
 }
 
 int
@@ -143,8 +144,13 @@ read_char (struct scm *port)            /*:((arity . n)) */
 {
   int fd = __stdin;
   if (port->type == TPAIR)
-    if (port->car->type == TNUMBER)
-      __stdin = port->car->value;
+    {
+      struct scm *p = port->car;
+      if (p->type == TNUMBER)
+        __stdin = p->value;
+      else if (p->type == TPORT)
+        __stdin = p->port;
+    }
   struct scm *c = make_char (readchar ());
   __stdin = fd;
   return c;
@@ -175,11 +181,7 @@ write_byte (struct scm *x)              /*:((arity . n)) */
       struct scm *f = p->car;
       if (f->type == TNUMBER)
         {
-          long v = f->value;
-          if (v != 1)
-            fd = v;
-          if (v == 2)
-            fd = __stderr;
+          fd = f->value;
         }
     }
   char cc = c->value;
@@ -299,21 +301,23 @@ open_output_file (struct scm *x)        /*:((arity . n)) */
 struct scm *
 set_current_output_port (struct scm *port)
 {
+  struct scm *prev = current_output_port ();
   if (port->value != 0)
     __stdout = port->value;
   else
     __stdout = STDOUT;
-  return current_output_port ();
+  return prev;
 }
 
 struct scm *
 set_current_error_port (struct scm *port)
 {
+  struct scm *prev = current_error_port ();
   if (port->value != 0)
     __stderr = port->value;
   else
     __stderr = STDERR;
-  return current_error_port ();
+  return prev;
 }
 
 struct scm *
diff --git a/src/string.c b/src/string.c
index 8f9a553..e7378b4 100644
--- a/src/string.c
+++ b/src/string.c
@@ -178,6 +178,8 @@ read_string (struct scm *port)          /*:((arity . n)) */
       struct scm *p = car (port);
       if (p->type == TNUMBER)
         __stdin = p->value;
+      else if (p->type == TPORT)
+        __stdin = p->port;
     }
   int c = readchar ();
   size_t i = 0;
-- 
2.43.0


From 5693804d7e3bd03739981f8f570d40c075835dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:59 +0000
Subject: [PATCH 117/133] fix: load leaves the current input port as it was

---
 mes/module/mes/boot-0.scm  | 1 -
 mes/module/mes/boot-03.scm | 1 -
 src/eval-apply.c           | 5 +++--
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/mes/module/mes/boot-0.scm b/mes/module/mes/boot-0.scm
index 5e07ec8..9eef63b 100644
--- a/mes/module/mes/boot-0.scm
+++ b/mes/module/mes/boot-0.scm
@@ -206,7 +206,6 @@
 (mes-use-module (mes getopt-long))
 
 (define %main #f)
-(primitive-load 0)
 (let ((tty? (isatty? 0)))
   (define (parse-opts args)
     (let* ((option-spec
diff --git a/mes/module/mes/boot-03.scm b/mes/module/mes/boot-03.scm
index faee85f..2eea312 100644
--- a/mes/module/mes/boot-03.scm
+++ b/mes/module/mes/boot-03.scm
@@ -172,4 +172,3 @@
 (define-macro (use-modules . rest) #t)
 ;; end boot-03.scm
 (primitive-load 0)
-(primitive-load 0)
diff --git a/src/eval-apply.c b/src/eval-apply.c
index 4f0e7db..5c773d5 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -889,7 +889,7 @@ begin_expand:
               goto eval;
             begin_expand_primitive_load:
               if ((R1->type == TNUMBER) && R1->value == 0)
-                0;
+                input = R1;
               else if (R1->type == TSTRING)
                 input = set_current_input_port (open_input_file (R1));
               else if (R1->type == TPORT)
@@ -901,7 +901,8 @@ begin_expand:
                   assert_msg (0, "begin-expand-boom 0");
                 }
 
-              push_cc (input, R2, R0, cell_vm_return);
+              R1 = input;
+              push_cc (R1, R2, R0, cell_vm_return);
               x = read_input_file_env (R0);
               if (g_debug > 5)
                 module_printer (M0);
-- 
2.43.0


From ececc17f2f2fc04badaaddb66fc4d4682a57a548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:59 +0000
Subject: [PATCH 118/133] fix: mes -c: the program reads standard input, not
 its own text

---
 mes/module/mes/boot-0.scm | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mes/module/mes/boot-0.scm b/mes/module/mes/boot-0.scm
index 9eef63b..22f8527 100644
--- a/mes/module/mes/boot-0.scm
+++ b/mes/module/mes/boot-0.scm
@@ -270,8 +270,8 @@ General help using GNU software: <http://gnu.org/gethelp/>
              (setenv "GUILE_LOAD_PATH" (string-append dir ":" (getenv "GUILE_LOAD_PATH")))))
     (when command
       (let* ((prev (set-current-input-port (open-input-string command)))
-             (expr (cons 'begin (read-input-file-env (current-module))))
-             (set-current-input-port prev))
+             (expr (cons 'begin (read-input-file-env (current-module)))))
+        (set-current-input-port prev)
         (primitive-eval expr)
         (exit 0)))
     (when main (set! %main main))
-- 
2.43.0


From 30a4644d449833340c51f2c8bf3edee7c36ba98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:59 +0000
Subject: [PATCH 119/133] fix: define-macro in a body or with mes -c

---
 src/eval-apply.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index 5c773d5..bfa9023 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -624,7 +624,7 @@ eval:
                 macro_p = 0;
                 if (R1->car == cell_symbol_define_macro)
                   macro_p = 1;
-                if (global_p != 0)
+                if (global_p != 0 || macro_p != 0)
                   {
                     name = R1->cdr->car;
                     aa = R1->cdr->car;
-- 
2.43.0


From c3db422308d1c436ec6a58928acc4596cf1df4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:00 +0000
Subject: [PATCH 120/133] fix: with-input-from-*, with-output-to-*: end when
 left by an exception; read PORT restores

---
 mes/module/mes/catch.mes         | 14 +++++++++++++
 mes/module/mes/guile.mes         | 36 ++++++++++----------------------
 mes/module/mes/scm.mes           |  1 +
 mes/module/mes/simple-format.mes | 13 +++++++-----
 4 files changed, 34 insertions(+), 30 deletions(-)

diff --git a/mes/module/mes/catch.mes b/mes/module/mes/catch.mes
index 1e53e78..0308e53 100644
--- a/mes/module/mes/catch.mes
+++ b/mes/module/mes/catch.mes
@@ -54,6 +54,20 @@
   (let ((handler (fluid-ref %eh)))
     (apply handler (cons key args))))
 
+;; Call THUNK, and CLEANUP when THUNK returns or throws.
+(define (call-with-cleanup thunk cleanup)
+  (let ((previous-eh (fluid-ref %eh)))
+    (fluid-set! %eh
+                (lambda args
+                  (fluid-set! %eh previous-eh)
+                  (cleanup)
+                  (apply previous-eh args)))
+    (call-with-values thunk
+      (lambda results
+        (fluid-set! %eh previous-eh)
+        (cleanup)
+        (apply values results)))))
+
 (define with-throw-handler catch) ; FIXME: hack for Nyacc 0.75
 
 (define (frame-procedure frame)
diff --git a/mes/module/mes/guile.mes b/mes/module/mes/guile.mes
index 42ac445..3466a3b 100644
--- a/mes/module/mes/guile.mes
+++ b/mes/module/mes/guile.mes
@@ -34,7 +34,7 @@
 
 (define %load-path (or (and=> (getenv "GUILE_LOAD_PATH") (lambda (x) (string-split x #\:))) '()))
 
-(define (drain-input port) (read-string))
+(define (drain-input port) (read-string port))
 
 (define (read-line . rest)
   (let* ((port (if (pair? rest) (car rest) (current-input-port)))
@@ -57,47 +57,33 @@
 (define (port-line p) 0)
 
 (define (with-input-from-string string thunk)
-  (let ((prev (set-current-input-port (open-input-string string)))
-        (r (thunk)))
-    (set-current-input-port prev)
-    r))
+  (let ((prev (set-current-input-port (open-input-string string))))
+    (call-with-cleanup thunk (lambda () (set-current-input-port prev)))))
 
 (define (with-input-from-file file thunk)
   (let ((port (open-input-file file)))
     (if (= port -1)
         (error 'no-such-file file)
-        (let* ((save (current-input-port))
-               (foo (set-current-input-port port))
-               (r (thunk)))
-          (set-current-input-port save)
-          r))))
+        (let ((save (set-current-input-port port)))
+          (call-with-cleanup thunk (lambda () (set-current-input-port save)))))))
 
 (define (with-output-to-file file thunk)
   (let ((port (open-output-file file)))
     (if (= port -1)
         (error 'cannot-open file)
-        (let* ((save (current-output-port))
-               (foo (set-current-output-port port))
-               (r (thunk)))
-          (set-current-output-port save)
-          r))))
+        (let ((save (set-current-output-port port)))
+          (call-with-cleanup thunk (lambda () (set-current-output-port save)))))))
 
 (define (with-error-to-file file thunk)
   (let ((port (open-output-file file)))
     (if (= port -1)
         (error 'cannot-open file)
-        (let* ((save (current-error-port))
-               (foo (set-current-error-port port))
-               (r (thunk)))
-          (set-current-error-port save)
-          r))))
+        (let ((save (set-current-error-port port)))
+          (call-with-cleanup thunk (lambda () (set-current-error-port save)))))))
 
 (define (with-output-to-port port thunk)
-  (let* ((save (current-output-port))
-         (foo (set-current-output-port port))
-         (r (thunk)))
-    (set-current-output-port save)
-    r))
+  (let ((save (set-current-output-port port)))
+    (call-with-cleanup thunk (lambda () (set-current-output-port save)))))
 
 (define core:open-input-file open-input-file)
 (define (open-input-file file)
diff --git a/mes/module/mes/scm.mes b/mes/module/mes/scm.mes
index 3dd7086..cffefbb 100644
--- a/mes/module/mes/scm.mes
+++ b/mes/module/mes/scm.mes
@@ -99,6 +99,7 @@
   (if (null? port) (read-env (current-module))
       (let* ((prev (set-current-input-port (car port)))
              (result (read-env (current-module))))
+        (set-current-input-port prev)
         result)))
 
 (if (not (defined? 'peek-char))
diff --git a/mes/module/mes/simple-format.mes b/mes/module/mes/simple-format.mes
index 8b57e15..de6dabb 100644
--- a/mes/module/mes/simple-format.mes
+++ b/mes/module/mes/simple-format.mes
@@ -22,6 +22,8 @@
 
 ;;; Code:
 
+(mes-use-module (mes catch))
+
 (define (with-output-to-string thunk)
   (define save-write-byte write-byte)
   (let ((stdout '()))
@@ -32,10 +34,8 @@
                   (begin
                     (set! stdout (append stdout (list (integer->char x))))
                     x)))))
-    (thunk)
-    (let ((r (apply string stdout)))
-      (set! write-byte save-write-byte)
-      r)))
+    (call-with-cleanup thunk (lambda () (set! write-byte save-write-byte)))
+    (apply string stdout)))
 
 (define (simple-format destination format . rest)
   (let ((port (if (boolean? destination) (current-output-port) destination))
@@ -47,12 +47,15 @@
                                          (simple-format (cdr lst) args))
                 (let ((c (cadr lst)))
                   (case c
+                    ((#\%) (newline port))
+                    ((#\~) (write-char #\~ port))
                     ((#\A) (display (car args) port))
                     ((#\a) (display (car args) port))
                     ((#\S) (write (car args) port))
                     ((#\s) (write (car args) port))
                     (else (display (car args) port)))
-                  (simple-format (cddr lst) (cdr args)))))))
+                  (simple-format (cddr lst) (if (memq c '(#\% #\~)) args
+                                                (cdr args))))))))
 
     (if destination (simple-format lst rest)
         (with-output-to-string
-- 
2.43.0


From dfecb53786ab2dde0ab0ca128521329ac5a57769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:00 +0000
Subject: [PATCH 121/133] fix: read-line with concat at the end of file

---
 mes/module/mes/guile.mes | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mes/module/mes/guile.mes b/mes/module/mes/guile.mes
index 3466a3b..703b170 100644
--- a/mes/module/mes/guile.mes
+++ b/mes/module/mes/guile.mes
@@ -45,7 +45,8 @@
          (let loop ((c c))
            (if (or (eof-object? c) (eq? c #\newline)) (case handle-delim
                                                         ((trim) '())
-                                                        ((concat) '(#\newline))
+                                                        ((concat) (if (eof-object? c) '()
+                                                                      '(#\newline)))
                                                         (else (error (format #f "not supported: handle-delim=~a" handle-delim))))
                (cons c (loop (read-char port)))))))))
 
-- 
2.43.0


From 380a14389dc8f4f6a541d3ab30e032a28d91a2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:53 +0000
Subject: [PATCH 122/133] fix: an empty program or an empty (begin) is not a
 crash

---
 src/eval-apply.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index bfa9023..3adc6a3 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -855,6 +855,11 @@ begin:
                 R1 = append2 (a->cdr, R1->cdr);
             }
         }
+      if (R1 == cell_nil)
+        {
+          R1 = x;
+          goto vm_return;
+        }
       if (R1->cdr == cell_nil)
         {
           R1 = R1->car;
@@ -883,6 +888,11 @@ begin_expand:
           if (a->type == TPAIR)
             if (R1->car->car == cell_symbol_begin)
               R1 = append2 (R1->car->cdr, R1->cdr);
+          if (R1 == cell_nil)
+            {
+              R1 = x;
+              goto vm_return;
+            }
           if (R1->car->car == cell_symbol_primitive_load)
             {
               push_cc (R1->car->cdr->car, R1, R0, cell_vm_begin_expand_primitive_load);
-- 
2.43.0


From 9b98a44c4bb5fa4cb3cfe4fde155f111586cdce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:53 +0000
Subject: [PATCH 123/133] fix: mes: arguments after the script belong to the
 script; -c, -e and -- follow the documentation

---
 mes/module/mes/boot-0.scm | 40 ++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/mes/module/mes/boot-0.scm b/mes/module/mes/boot-0.scm
index 22f8527..1bcd4bd 100644
--- a/mes/module/mes/boot-0.scm
+++ b/mes/module/mes/boot-0.scm
@@ -205,11 +205,13 @@
 
 (mes-use-module (mes getopt-long))
 
-(define %main #f)
+(define %main "")
 (let ((tty? (isatty? 0)))
   (define (parse-opts args)
     (let* ((option-spec
-            '((no-auto-compile)
+            '((auto-compile)
+              (fresh-auto-compile)
+              (no-auto-compile)
               (command (single-char #\c) (value #t))
               (compiled-path (single-char #\C) (value #t))
               (help (single-char #\h))
@@ -219,16 +221,31 @@
               (version (single-char #\v))
               (version (single-char #\V)))))
       (getopt-long args option-spec #:stop-at-first-non-option #t)))
-  (define (source-arg? o)
-    (equal? "-s" o))
-  (let* ((s-index (list-index source-arg? %argv))
-         (args (if s-index (list-head %argv (+ s-index 2)) %argv))
+  ;; Index of the first -c, -s, -- or FILE: it ends argument processing.
+  (define (stop-index args i)
+    (cond ((null? args) #f)
+          ((member (car args) '("-c" "--command" "-s" "--source" "--" "-")) i)
+          ((and (member (car args) '("-C" "--compiled-path" "-e" "--main"
+                                     "-L" "--load-path"))
+                (pair? (cdr args)))
+           (stop-index (cddr args) (+ i 2)))
+          ((string-prefix? "-" (car args)) (stop-index (cdr args) (+ i 1)))
+          (else i)))
+  (let* ((index (or (stop-index (cdr %argv) 1) (length %argv)))
+         (rest (list-tail %argv index))
+         (stop (and (pair? rest) (car rest)))
+         (switch? (member stop '("-c" "--command" "-s" "--source")))
+         (args (append (list-head %argv index)
+                       (cond ((not switch?) '())
+                             ((null? (cdr rest)) rest)
+                             (else (list (car rest) (cadr rest))))))
          (options (parse-opts args))
          (command (option-ref options 'command #f))
          (main (option-ref options 'main #f))
          (source (option-ref options 'source #f))
-         (files (if s-index (list-tail %argv (+ s-index 1))
-                    (option-ref options '() '())))
+         (files (cond ((equal? stop "--") '())
+                      (switch? (cdr rest))
+                      (else rest)))
          (help? (option-ref options 'help #f))
          (usage? #f)
          (version? (option-ref options 'version #f)))
@@ -272,9 +289,14 @@ General help using GNU software: <http://gnu.org/gethelp/>
       (let* ((prev (set-current-input-port (open-input-string command)))
              (expr (cons 'begin (read-input-file-env (current-module)))))
         (set-current-input-port prev)
+        (set! %argv (cons (car %argv) (if switch? (cdr files) files)))
         (primitive-eval expr)
         (exit 0)))
-    (when main (set! %main main))
+    (when main
+      (set! %main (if (string-prefix? "(" main) main
+                      (string-append "(" main " (command-line))"))))
+    (when (equal? stop "--")
+      (set! %argv (cons (car %argv) (cdr rest))))
     (cond ((pair? files)
            (let* ((file (car files))
                   (port (if (equal? file "-") 0
-- 
2.43.0


From 1bb2792ee014ef3416c26dddb122e6f9a64f7f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:02 +0000
Subject: [PATCH 124/133] fix: mes: every -L adds to the load path, also when
 GUILE_LOAD_PATH is not set

---
 mes/module/mes/boot-0.scm | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mes/module/mes/boot-0.scm b/mes/module/mes/boot-0.scm
index 1bcd4bd..8afbb3e 100644
--- a/mes/module/mes/boot-0.scm
+++ b/mes/module/mes/boot-0.scm
@@ -282,9 +282,11 @@ General help using GNU software: <http://gnu.org/gethelp/>
 " (or (and usage? (current-error-port)) (current-output-port)))
           (exit (or (and usage? 2) 0)))
      options)
-    (and=> (option-ref options 'load-path #f)
-           (lambda (dir)
-             (setenv "GUILE_LOAD_PATH" (string-append dir ":" (getenv "GUILE_LOAD_PATH")))))
+    (let ((dirs (map cdr (filter (lambda (o) (eq? (car o) 'load-path)) options))))
+      (when (pair? dirs)
+        (setenv "GUILE_LOAD_PATH"
+                (string-append (string-join (reverse dirs) ":")
+                               ":" (or (getenv "GUILE_LOAD_PATH") "")))))
     (when command
       (let* ((prev (set-current-input-port (open-input-string command)))
              (expr (cons 'begin (read-input-file-env (current-module)))))
-- 
2.43.0


From 9c1208330dcd85f1f9070c32f82d83a4393da373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:19 +0000
Subject: [PATCH 125/133] fix: setenv of a long name

---
 include/mes/mes.h | 1 -
 src/mes.c         | 1 -
 src/posix.c       | 4 +---
 3 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/mes/mes.h b/include/mes/mes.h
index 9ef6491..eecebed 100644
--- a/include/mes/mes.h
+++ b/include/mes/mes.h
@@ -102,7 +102,6 @@ extern size_t gc_time;
 extern char **__execl_c_argv;
 extern char *__open_boot_buf;
 extern char *__open_boot_file_name;
-extern char *__setenv_buf;
 extern char *__reader_read_char_buf;
 extern struct timespec *g_start_time;
 extern struct timeval *__gettimeofday_time;
diff --git a/src/mes.c b/src/mes.c
index 86699ba..e6b2432 100644
--- a/src/mes.c
+++ b/src/mes.c
@@ -166,7 +166,6 @@ init (char **envp)
   __open_boot_buf = malloc (PATH_MAX);
   __open_boot_file_name = malloc (PATH_MAX);
   __reader_read_char_buf = malloc (10);
-  __setenv_buf = malloc (1024);
   g_datadir = malloc (1024);
   g_start_time = malloc (sizeof (struct timespec));
   memset (g_start_time, 0, sizeof (struct timespec));
diff --git a/src/posix.c b/src/posix.c
index c7a5da9..43a308b 100644
--- a/src/posix.c
+++ b/src/posix.c
@@ -205,9 +205,7 @@ getenv_ (struct scm *s)                 /*:((name . "getenv")) */
 struct scm *
 setenv_ (struct scm *s, struct scm *v)          /*:((name . "setenv")) */
 {
-  char *buf = __setenv_buf;
-  strcpy (buf, cell_bytes (s->string));
-  setenv (buf, cell_bytes (v->string), 1);
+  setenv (cell_bytes (s->string), cell_bytes (v->string), 1);
   return cell_unspecified;
 }
 
-- 
2.43.0


From efd0079e1b4a9c46f0327727f29a5e7018bb2d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:03 +0000
Subject: [PATCH 126/133] fix: getopt-long: an empty argument

---
 module/mes/getopt-long.scm | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/module/mes/getopt-long.scm b/module/mes/getopt-long.scm
index 65355d9..0ff5a91 100644
--- a/module/mes/getopt-long.scm
+++ b/module/mes/getopt-long.scm
@@ -226,8 +226,8 @@
     (cond ((null? opt-ls)
            (reverse ret-ls))                                    ;;; retval
           ((let ((opt (car opt-ls)))
-             (and (eq? (string-ref opt 0) #\-)
-                  (> (string-length opt) 1)
+             (and (> (string-length opt) 1)
+                  (eq? (string-ref opt 0) #\-)
                   (char-alphabetic? (string-ref opt 1))))
            (let* ((opt (car opt-ls))
                   (n (char->integer (string-ref opt 1)))
@@ -249,7 +249,13 @@
                       (cons (car opt-ls) ret-ls))))))
 
 (define (looks-like-an-option string)
-  (eq? (string-ref string 0) #\-))
+  (string-prefix? "-" string))
+
+(define (letter-at? string i)
+  (and (> (string-length string) i)
+       (let ((n (char->integer (string-ref string i))))
+         (or (and (>= n (char->integer #\A)) (<= n (char->integer #\Z)))
+             (and (>= n (char->integer #\a)) (<= n (char->integer #\z)))))))
 
 (define (process-options specs argument-ls stop-at-first-non-option)
   ;; Use SPECS to scan ARGUMENT-LS; return (FOUND . ETC).
@@ -309,20 +315,15 @@
         (if (null? argument-ls)
             (cons found (reverse etc))                          ;;; retval
             (cond ((let ((opt (car argument-ls)))
-                     (and (eq? (string-ref opt 0) #\-)
-                          (> (string-length opt) 1)
-                          (let ((n (char->integer (string-ref opt 1))))
-                            (or (and (>= n (char->integer #\A)) (<= n (char->integer #\Z)))
-                                (and (>= n (char->integer #\a)) (<= n (char->integer #\z)))))))
+                     (and (looks-like-an-option opt)
+                          (letter-at? opt 1)))
                    (let* ((c (substring (car argument-ls) 1 2))
                           (spec (or (assoc-ref sc-idx c)
                                     (error "no such option:" (car argument-ls)))))
                      (eat! spec argument-ls)))
                   ((let ((opt (car argument-ls)))
                      (and (string-prefix? "--" opt)
-                          (let ((n (char->integer (string-ref opt 2))))
-                            (or (and (>= n (char->integer #\A)) (<= n (char->integer #\Z)))
-                                (and (>= n (char->integer #\a)) (<= n (char->integer #\z)))))
+                          (letter-at? opt 2)
                           (not (string-index opt #\space))
                           (not (string-index opt #\=))))
                    (let* ((opt (substring (car argument-ls) 2))
@@ -331,9 +332,7 @@
                      (eat! spec argument-ls)))
                   ((let ((opt (car argument-ls)))
                      (and (string-prefix? "--" opt)
-                          (let ((n (char->integer (string-ref opt 2))))
-                            (or (and (>= n (char->integer #\A)) (<= n (char->integer #\Z)))
-                                (and (>= n (char->integer #\a)) (<= n (char->integer #\z)))))
+                          (letter-at? opt 2)
                           (or (string-index opt #\=)
                               (string-index opt #\space))))
                    (let* ((is (or (string-index (car argument-ls) #\=)
-- 
2.43.0


From fbfebe26981dbc3ff692b1077583e16b4bc26865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:03 +0000
Subject: [PATCH 127/133] fix: mes -c evaluates the expressions at top level,
 -e applies to them too

---
 mes/module/mes/boot-0.scm | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/mes/module/mes/boot-0.scm b/mes/module/mes/boot-0.scm
index 8afbb3e..1c211a0 100644
--- a/mes/module/mes/boot-0.scm
+++ b/mes/module/mes/boot-0.scm
@@ -206,6 +206,7 @@
 (mes-use-module (mes getopt-long))
 
 (define %main "")
+(define %program 0)
 (let ((tty? (isatty? 0)))
   (define (parse-opts args)
     (let* ((option-spec
@@ -287,19 +288,15 @@ General help using GNU software: <http://gnu.org/gethelp/>
         (setenv "GUILE_LOAD_PATH"
                 (string-append (string-join (reverse dirs) ":")
                                ":" (or (getenv "GUILE_LOAD_PATH") "")))))
-    (when command
-      (let* ((prev (set-current-input-port (open-input-string command)))
-             (expr (cons 'begin (read-input-file-env (current-module)))))
-        (set-current-input-port prev)
-        (set! %argv (cons (car %argv) (if switch? (cdr files) files)))
-        (primitive-eval expr)
-        (exit 0)))
     (when main
       (set! %main (if (string-prefix? "(" main) main
                       (string-append "(" main " (command-line))"))))
     (when (equal? stop "--")
       (set! %argv (cons (car %argv) (cdr rest))))
-    (cond ((pair? files)
+    (cond (command
+           (set! %argv (cons (car %argv) (if switch? (cdr files) files)))
+           (set! %program (open-input-string command)))
+          ((pair? files)
            (let* ((file (car files))
                   (port (if (equal? file "-") 0
                             (open-input-file file))))
@@ -311,5 +308,5 @@ General help using GNU software: <http://gnu.org/gethelp/>
            (set-current-input-port 0)
            (repl))
           (else #t))))
-(primitive-load 0)
+(primitive-load %program)
 (primitive-load (open-input-string %main))
-- 
2.43.0


From 2fed4d75ba899d0b6becd5ed1b308e4398d911ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:37 +0000
Subject: [PATCH 128/133] fix: mes: a -- directly after FILE separates it from
 its arguments

---
 mes/module/mes/boot-0.scm | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mes/module/mes/boot-0.scm b/mes/module/mes/boot-0.scm
index 1c211a0..1c6ab65 100644
--- a/mes/module/mes/boot-0.scm
+++ b/mes/module/mes/boot-0.scm
@@ -246,6 +246,10 @@
          (source (option-ref options 'source #f))
          (files (cond ((equal? stop "--") '())
                       (switch? (cdr rest))
+                      ;; FILE -- ARG...: as scripts/mescc has it
+                      ((and (pair? rest) (pair? (cdr rest))
+                            (equal? (cadr rest) "--"))
+                       (cons (car rest) (cddr rest)))
                       (else rest)))
          (help? (option-ref options 'help #f))
          (usage? #f)
-- 
2.43.0


From 4059cf254bc946bfb9b64428e23455cb1bacb24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:20 +0000
Subject: [PATCH 129/133] fix: display a record or hash table to the given port

---
 mes/module/mes/display.mes | 7 +++++--
 src/display.c              | 8 +++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/mes/module/mes/display.mes b/mes/module/mes/display.mes
index bc947a1..7d7aa04 100644
--- a/mes/module/mes/display.mes
+++ b/mes/module/mes/display.mes
@@ -120,7 +120,7 @@
        ((port? x)
         (display "#<port " port)
         (display (core:cdr x) port)
-        (display " ")
+        (display " " port)
         (display (core:car x) port)
         (display ">" port))
        ((variable? x)
@@ -164,7 +164,10 @@
        ((struct? x)
         (let* ((printer (struct-ref x 1)))
           (if (or (builtin? printer) (closure? printer))
-              (printer x)
+              ;; the printer writes to the current output port
+              (let ((out (set-current-output-port port)))
+                (printer x)
+                (set-current-output-port out))
               (begin
                 (display "#<" port)
                 (for-each (lambda (i)
diff --git a/src/display.c b/src/display.c
index 686fd6c..353d26d 100644
--- a/src/display.c
+++ b/src/display.c
@@ -224,7 +224,13 @@ display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
       if (printer->type == TREF)
         printer = printer->ref;
       if (printer->type == TCLOSURE || builtin_p (printer) == cell_t)
-        apply (printer, cons (x, cell_nil), R0);
+        {
+          /* The printer writes to the current output port. */
+          int out = __stdout;
+          __stdout = fd;
+          apply (printer, cons (x, cell_nil), R0);
+          __stdout = out;
+        }
       else
         {
           fdputs ("#<", fd);
-- 
2.43.0


From b203667045fc1af747e48645010499c30acd3493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:45 +0000
Subject: [PATCH 130/133] fix: with-output-to-string leaves what is written to
 another port alone

---
 mes/module/mes/simple-format.mes | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mes/module/mes/simple-format.mes b/mes/module/mes/simple-format.mes
index de6dabb..055dc88 100644
--- a/mes/module/mes/simple-format.mes
+++ b/mes/module/mes/simple-format.mes
@@ -26,10 +26,12 @@
 
 (define (with-output-to-string thunk)
   (define save-write-byte write-byte)
-  (let ((stdout '()))
+  (let ((stdout '())
+        (port (current-output-port)))
     (set! write-byte
           (lambda (x . rest)
-            (let ((out? (or (null? rest) (eq? (car rest) (current-output-port)))))
+            (let ((out? (eq? (if (null? rest) (current-output-port) (car rest))
+                             port)))
               (if (not out?) (apply save-write-byte (cons x rest))
                   (begin
                     (set! stdout (append stdout (list (integer->char x))))
-- 
2.43.0


From bb9663a6a5509e1d759461bc4336fefe784f3809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:10 +0000
Subject: [PATCH 131/133] fix: system* keeps an error port that is file
 descriptor 1

---
 mes/module/mes/posix.mes | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mes/module/mes/posix.mes b/mes/module/mes/posix.mes
index 2d35f7a..c352cad 100644
--- a/mes/module/mes/posix.mes
+++ b/mes/module/mes/posix.mes
@@ -52,8 +52,10 @@
 (define (system* file-name . args)
   (let ((pid (primitive-fork)))
     (cond ((zero? pid)
-           (let ((out (current-output-port))
-                 (err (current-error-port)))
+           (let* ((out (current-output-port))
+                  (err (current-error-port))
+                  ;; OUT takes the place of file descriptor 1 first
+                  (err (if (= err 1) (dup err) err)))
              (when (and (> out 0)
                         (not (= out 1)))
                (dup2 out 1))
-- 
2.43.0


From 6dde9cd99dc8d9ffdfc06906f25e87dbc88c4156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:59 +0000
Subject: [PATCH 132/133] fix: a record accessor given something that is not a
 record raises an error

---
 mes/module/srfi/srfi-9-struct.mes | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mes/module/srfi/srfi-9-struct.mes b/mes/module/srfi/srfi-9-struct.mes
index 0773864..98b75f8 100644
--- a/mes/module/srfi/srfi-9-struct.mes
+++ b/mes/module/srfi/srfi-9-struct.mes
@@ -41,7 +41,8 @@
   (struct-ref o 0))
 
 (define (record-type o)
-  (struct-ref o 2))
+  (if (struct? o) (struct-ref o 2)
+      (error "record expected" o)))
 
 (define (record-predicate type)
   (lambda (o)
-- 
2.43.0


From 49b9965b2601ae021f859573b28c6ef86bb4d97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:47 +0000
Subject: [PATCH 133/133] fix: map stops with its fourth list, and folds of
 four lists are refused

---
 mes/module/mes/base.mes    |  3 ++-
 mes/module/srfi/srfi-1.mes | 26 ++++++++++++++------------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/mes/module/mes/base.mes b/mes/module/mes/base.mes
index 5db5a0b..0f34c5e 100644
--- a/mes/module/mes/base.mes
+++ b/mes/module/mes/base.mes
@@ -127,7 +127,8 @@
 (define (map f h . t)
   (if (or (null? h)
           (and (pair? t) (null? (car t)))
-          (and (pair? t) (pair? (cdr t)) (null? (cadr t)))) '()
+          (and (pair? t) (pair? (cdr t)) (null? (cadr t)))
+          (and (pair? t) (pair? (cdr t)) (pair? (cddr t)) (null? (caddr t)))) '()
       (if (null? t) (cons (f (car h)) (map f (cdr h)))
           (if (null? (cdr t))
               (cons (f (car h) (caar t)) (map f (cdr h) (cdar t)))
diff --git a/mes/module/srfi/srfi-1.mes b/mes/module/srfi/srfi-1.mes
index 28fff6b..d62ee40 100644
--- a/mes/module/srfi/srfi-1.mes
+++ b/mes/module/srfi/srfi-1.mes
@@ -63,12 +63,13 @@
             (if (or (null? lst1)
                     (null? lst2)) result
                     (loop (cdr lst1) (cdr lst2) (proc (car lst1) (car lst2) result))))
-          (let loop ((lst1 lst1) (lst2 (car rest)) (lst3 (cadr rest)) (result init))
-            (if (or (null? lst1)
-                    (null? lst2)
-                    (null? lst3)) result
-                    (loop (cdr lst1) (cdr lst2) (cdr lst3) (proc (car lst1) (car lst2) (car lst3) result))))
-          (error "FOLD-4-NOT-SUPPORTED"))))
+          (if (null? (cddr rest))
+              (let loop ((lst1 lst1) (lst2 (car rest)) (lst3 (cadr rest)) (result init))
+                (if (or (null? lst1)
+                        (null? lst2)
+                        (null? lst3)) result
+                        (loop (cdr lst1) (cdr lst2) (cdr lst3) (proc (car lst1) (car lst2) (car lst3) result))))
+              (error "FOLD-4-NOT-SUPPORTED")))))
 
 (define (fold-right proc init lst1 . rest)
   (if (null? rest)
@@ -80,12 +81,13 @@
             (if (or (null? lst1)
                     (null? lst2)) init
                     (proc (car lst1) (car lst2) (loop (cdr lst1) (cdr lst2)))))
-          (let loop ((lst1 lst1) (lst2 (car rest)) (lst3 (cadr rest)))
-            (if (or (null? lst1)
-                    (null? lst2)
-                    (null? lst3)) init
-                    (proc (car lst1) (car lst2) (car lst3) (loop (cdr lst1) (cdr lst2) (cdr lst3)))))
-          (error "FOLD-RIGHT-4-NOT-SUPPORTED"))))
+          (if (null? (cddr rest))
+              (let loop ((lst1 lst1) (lst2 (car rest)) (lst3 (cadr rest)))
+                (if (or (null? lst1)
+                        (null? lst2)
+                        (null? lst3)) init
+                        (proc (car lst1) (car lst2) (car lst3) (loop (cdr lst1) (cdr lst2) (cdr lst3)))))
+              (error "FOLD-RIGHT-4-NOT-SUPPORTED")))))
 
 (define (unfold p f g seed . rest)
   (let ((tail-gen (if (null? rest) (const '())
-- 
2.43.0

