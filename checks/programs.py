"""Concrete programs for replaying a failed obligation of the machine, the code generator, the
expander and the Scheme library on the real interpreter, with the values the specification gives."""
import re
from vf import data
from vf.oblig import Ob

CONTROL = '''
(+ 1 2) => 3
(if #f 1 2) => 2
(if #t 1 2) => 1
(if 0 1 2) => 1
(if '() 1 2) => 1
(if "" 1 2) => 1
(let ((x 1)) (if (if #f #f #t) x 2)) => 1
(+ 1 (if #t 2 3)) => 3
(+ 1 (if #f 2 3)) => 4
(list (if #t 1 2) (if #f 1 2)) => (1 2)
((lambda (x) x) 5) => 5
((lambda (x y) (list y x)) 1 2) => (2 1)
((lambda x x) 1 2 3) => (1 2 3)
((lambda (x . y) (list x y)) 1 2 3) => (1 (2 3))
((lambda (x . y) (list x y)) 1) => (1 ())
((lambda (a b . c) (set! c (cons a c)) c) 1 2 3) => (1 3)
((lambda c (set! c 7) c) 1 2) => 7
(let ((x 1)) (let ((y 2)) (let ((z 3)) (list x y z)))) => (1 2 3)
(let ((x 1) (y 2)) (let ((z 3)) (set! y 10) (set! x 20) (list x y z))) => (20 10 3)
(let ((a 1) (b 2) (c 3)) (let ((d 4) (e 5)) (let ((f 6)) (list a b c d e f)))) => (1 2 3 4 5 6)
(let ((a 1) (b 2) (c 3)) (let ((d 4) (e 5)) (let ((f 6)) (set! b 0) (set! e 9) (set! c 8) (list a b c d e f)))) => (1 0 8 4 9 6)
(let ((x 1)) (let ((x 2)) x)) => 2
(let ((x 1)) (let ((x 2)) (set! x 3)) x) => 1
(let loop ((i 0) (acc '())) (if (= i 5) acc (loop (+ i 1) (cons i acc)))) => (4 3 2 1 0)
(let loop ((i 0)) (if (< i 300000) (loop (+ i 1)) i)) => 300000
(letrec ((even? (lambda (n) (if (= n 0) #t (odd? (- n 1))))) (odd? (lambda (n) (if (= n 0) #f (even? (- n 1)))))) (even? 100001)) => #f
(letrec ((f (lambda (n) (if (= n 0) 1 (* n (f (- n 1))))))) (f 10)) => 3628800
(let () (define (f n) (if (= n 0) 0 (+ n (f (- n 1))))) (f 100)) => 5050
(let () (define a 1) (define (g) a) (define b 2) (list (g) b)) => (1 2)
(let () (define a 1) (set! a 5) (define (h) (set! a (+ a 1)) a) (let* ((x (h)) (y (h))) (list x y))) => (6 7)
(let ((n 0)) (define (inc!) (set! n (+ n 1)) n) (inc!) (inc!) (inc!)) => 3
(let ((mk (lambda () (let ((n 0)) (lambda () (set! n (+ n 1)) n))))) (let ((a (mk)) (b (mk))) (a) (a) (list (a) (b)))) => (3 1)
(let ((x '())) (begin (set! x (cons 1 x)) (set! x (cons 2 x))) x) => (2 1)
(begin 1 2 3) => 3
(let ((f (lambda (x) (set! x 2) x)) (y 1)) (list (f y) y)) => (2 1)
(quote (a b)) => (a b)
'() => ()
(call-with-current-continuation (lambda (k) 1)) => 1
(call-with-current-continuation (lambda (k) (k 2) 3)) => 2
(+ 1 (call-with-current-continuation (lambda (k) (+ 10 (k 2))))) => 3
(list 1 (call-with-current-continuation (lambda (k) (list 2 (k 3)))) 4) => (1 3 4)
(let ((k #f) (n 0)) (let ((v (call-with-current-continuation (lambda (c) (set! k c) 0)))) (set! n (+ n 1)) (if (< v 3) (k (+ v 1)) (list v n)))) => (3 4)
(let ((k #f) (n 0)) (let ((v (+ 100 (call-with-current-continuation (lambda (c) (set! k c) 0))))) (set! n (+ n 1)) (if (< n 3) (k n) (list v n)))) => (102 3)
(let ((k #f) (n 0) (r '())) (set! r (cons (list 1 2 (call-with-current-continuation (lambda (c) (set! k c) 3)) 4) r)) (set! n (+ n 1)) (if (< n 3) (k (* 10 n)) (length r))) => 1
(let ((r '())) (let ((v (list (begin (set! r (cons 'a r)) 1) 2))) v)) => (1 2)
(let ((f (lambda (return) (for-each (lambda (x) (if (negative? x) (return x) #f)) '(1 2 -3 4)) 'none))) (call-with-current-continuation f)) => -3
(let ((path '())) (dynamic-wind (lambda () (set! path (cons 'in path))) (lambda () (set! path (cons 'during path))) (lambda () (set! path (cons 'out path)))) (reverse path)) => (in during out)
(let ((path '())) (call-with-current-continuation (lambda (k) (dynamic-wind (lambda () (set! path (cons 'in path))) (lambda () (k 1)) (lambda () (set! path (cons 'out path)))))) (reverse path)) => (in out)
(let ((path '()) (c #f)) (let ((add (lambda (s) (set! path (cons s path))))) (dynamic-wind (lambda () (add 'connect)) (lambda () (add (call-with-current-continuation (lambda (c0) (set! c c0) 'talk1)))) (lambda () (add 'disconnect))) (if (< (length path) 4) (c 'talk2) (reverse path)))) => (connect talk1 disconnect connect talk2 disconnect)
(let ((p (make-parameter 10))) (list (p) (parameterize ((p 20)) (p)) (p))) => (10 20 10)
(let ((p (make-parameter 10 (lambda (x) (* x x))))) (list (p) (parameterize ((p 3)) (p)) (p))) => (100 9 100)
(with-exception-handler (lambda (e) 42) (lambda () (+ 1 (raise-continuable 'c)))) => 43
(call-with-current-continuation (lambda (k) (with-exception-handler (lambda (e) (k (list 'caught e))) (lambda () (raise 'oops))))) => (caught oops)
(guard (e (#t (list 'g e))) (raise 'x)) => (g x)
(guard (e ((symbol? e) (list 'sym e)) ((string? e) 'str)) (raise "s")) => str
(guard (e ((string? e) 'str)) (guard (e2 ((number? e2) 'num)) (raise "s"))) => str
(guard (e ((error-object? e) (list (error-object-message e) (error-object-irritants e)))) (error "msg" 1 2)) => ("msg" (1 2))
(guard (e ((error-object? e) 'error)) (5 5)) => error
(guard (e ((error-object? e) 'error)) (vector-ref (vector 1) 9)) => error
(guard (e ((error-object? e) 'error)) ("f" 1)) => error
(guard (e (#f 'never) (else 'else)) (raise 1)) => else
(let ((r '())) (guard (e (#t (set! r (cons 'h r)))) (dynamic-wind (lambda () (set! r (cons 'i r))) (lambda () (raise 1)) (lambda () (set! r (cons 'o r))))) (reverse r)) => (i o h)
(call-with-values (lambda () (values 1 2 3)) list) => (1 2 3)
(let-values (((a b) (values 1 2)) ((c) (values 3))) (list a b c)) => (1 2 3)
(apply + 1 2 '(3 4)) => 10
(apply (lambda x x) '()) => ()
(map (lambda (x) (* x x)) '(1 2 3)) => (1 4 9)
(case 3 ((1 2) 'low) ((3 4) 'mid) (else 'high)) => mid
(case 9 ((1 2) 'low) (else 'high)) => high
(cond ((assv 2 '((1 . a) (2 . b))) => cdr) (else 'none)) => b
(and 1 2 #f 3) => #f
(and) => #t
(or #f 2) => 2
(or) => #f
(let* ((x 1) (y (+ x 1))) (list x y)) => (1 2)
(do ((i 0 (+ i 1)) (s 0 (+ s i))) ((= i 5) s)) => 10
(when #t 1 2) => 2
(unless #f 1 2) => 2
(let ((x 5)) `(1 ,x ,@(list 6 7))) => (1 5 6 7)
(force (delay (+ 1 2))) => 3
(let ((x 0)) (let ((p (delay (begin (set! x (+ x 1)) x)))) (force p) (list (force p) x))) => (1 1)
(let-syntax ((swap! (syntax-rules () ((_ a b) (let ((tmp a)) (set! a b) (set! b tmp)))))) (let ((tmp 1) (other 2)) (swap! tmp other) (list tmp other))) => (2 1)
(let-syntax ((my-or (syntax-rules () ((_) #f) ((_ e) e) ((_ e r ...) (let ((t e)) (if t t (my-or r ...))))))) (let ((t 5)) (or #f t))) => 5
(let ((if list)) (let-syntax ((m (syntax-rules () ((_ a b c) (cond (a b) (else c)))))) (m #t 1 2))) => 1
(let () (define-syntax m (syntax-rules () ((_ x) (* x 2)))) (m 4)) => 8
(let ((=> #f)) (cond (#t => 'ok))) => ok
(let () (define-record-type point (make-point x y) point? (x px set-px!) (y py)) (let ((p (make-point 1 2))) (set-px! p 9) (list (point? p) (px p) (py p) (point? 5)))) => (#t 9 2 #f)
(let loop ((i 0)) (cond ((= i 200000) 'done) (else (loop (+ i 1))))) => done
(let loop ((i 0)) (and #t (or #f (if (= i 200000) 'done (begin 1 (loop (+ i 1))))))) => done
(letrec ((a (lambda () b)) (b 2)) (a)) => 2
(letrec* ((a 1) (b (+ a 1))) (list a b)) => (1 2)
(let ((x 1)) (define y 2) (define (f z) (+ x y z)) (f 3)) => 6
'''


def read(t):
    toks = re.findall(r'[()]|"[^"]*"|[^\s()]+', t)
    pos = [0]

    def rd():
        k = toks[pos[0]]
        pos[0] += 1
        if k == '(':
            xs, tail = [], data.Nil
            while toks[pos[0]] != ')':
                if toks[pos[0]] == '.':
                    pos[0] += 1
                    tail = rd()
                else:
                    xs.append(rd())
            pos[0] += 1
            for x in reversed(xs):
                tail = data.Pair(x, tail)
            return tail
        if k[0] == '"':
            return data.Str(k[1:-1])
        if k in ('#t', '#f'):
            return k == '#t'
        if re.fullmatch(r'[+-]?[0-9]+', k):
            return int(k)
        if k.startswith('#\\'):
            return data.Char(ord(k[2:]))
        return data.Sym(k)
    return rd()


def progs(text=CONTROL):
    out = []
    for ln in text.strip().split('\n'):
        e, _, v = ln.rpartition(' => ')
        out.append((e, read(v)))
    return out


def attach(obs, key, text=CONTROL):
    """let failed obligations be replayed with the given programs"""
    for o in obs:
        o.oracle = lambda e, v: v
        o.expr = lambda xs: xs[0]
        o.grid_ = lambda: progs(text)
        o.kinds = []
        o.replay_key = key
        from vf import replay
        o.imports = replay.IMPORTS
    return obs
