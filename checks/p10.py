from vlib.hist import Hist, WRONG
from vlib.histcheck import HistCheck


class H(Hist):
    pool0 = {'v': 3}
    OPS = [
        (5, None, '(vector-set! {v} {i} {x})'), (3, None, '(vector-ref {v} {i})'), (1.5, None, '(vector-length {v})'), (1, None, '(vector->list {v})'),
        (1.5, 'v', '(list->vector {l})'), (1, 'v', '(list->vector (vector->list {v}))'), (1.5, 'v', '(make-vector {n} {x})'), (1.5, 'v', '(vector {x} {x} {x})'),
        (0.5, 'v', '(vector)'), (0.5, 'v', '(vector {x})'), (0.5, 'v', '(make-vector 0 {x})'), (0.4, None, '(vector-length (make-vector {n}))'),
        (0.5, None, '(vector? {any})'), (0.5, None, '(eq? {v} {v})'), (0.5, None, '(equal? {v} {v})'),
        (1, None, '(let ((a {v})) (let ((l (vector->list a))) (if (pair? l) (set-car! l {x})) (list a l)))'),
        (1, None, '(let ((l {l})) (let ((a (list->vector l))) (if (> (vector-length a) 0) (vector-set! a 0 {x})) (list a l)))'),
        (1, None, '(let ((a {v}) (f (lambda (w i e) (vector-set! w i e)))) (f a {i} {x}) a)'),
        (0.7, 'v', '(let ((a (make-vector {n} (list 1 2)))) (if (> (vector-length a) 1) (set-car! (vector-ref a 0) {x})) a)'),
        (0.7, None, '(let ((a {v})) (let loop ((i 0)) (if (< i (vector-length a)) (begin (vector-set! a i (list i (vector-ref a i))) (loop (+ i 1))))) (vector-length a))'),
        (0.6, None, '(let ((a {v}) (b {v})) (vector-set! a 0 {x}) (list (eq? a b) a b))'),
        (0.6, None, '(do ((i 0 (+ i 1)) (s 0 (+ s 1))) ((= i (vector-length {v})) s))'),
        (0.4, 'v', '(let ((a (make-vector {big} {x}))) (vector-set! a (- (vector-length a) 1) {x}) a)'),
        (0.4, None, '(map vector-length (list {v} {v}))'), (0.3, None, '(apply vector {l})'), (0.4, 'v', '(list->vector (append (vector->list {v}) (vector->list {v})))'),
        (0.4, 'v', '(list->vector (reverse (vector->list {v})))'), (0.3, None, '(for-each (lambda (i) (vector-set! {v} i {x})) (list {i} {i}))'),
        (0.3, None, '(write {v})'), (0.3, None, '(display {v})'), (0.4, 'v', '`#(a ,{x} ,@{l} b)'),
        (0.5, None, '(let ((a {v})) (vector-set! a {i} a) 1)'),
        # long ones
        (0.3, None, '(let ((a (make-vector {big} 0))) (do ((i 0 (+ i 1))) ((= i (vector-length a)) (list (equal? (vector->list a) (vector->list (list->vector (vector->list a)))) a)) (vector-set! a i (* i i))))'),
        (0.3, None, '(let ((a (make-vector {big} {x}))) (vector-set! a {j} {x}) (vector-set! a {j} {x}) (list (vector-ref a {j}) (length (vector->list a)) a))'),
        (0.2, None, '(let* ((l (vector->list (make-vector {big} {x}))) (a (list->vector l))) (set-car! l 5) (vector-set! a {j} 7) (list (car l) (vector-ref a 0) a))'),
        (0.2, None, '(let ((a (apply vector (vector->list (make-vector {big} {x}))))) (vector-set! a {j} 7) a)'),
    ]

    def __init__(self, rng):
        Hist.__init__(self, rng)
        self.pool = {'v': []}

    def lit_n(self):
        return str(self.r.choice([0, 1, 1, 2, 3, 4, 5, 8]))

    def lit_j(self):
        return str(int(1100 ** self.r.random()))

    def lit_big(self):
        return str(self.r.choice([16, 31, 32, 33, 64, 65, 100, 128, 200, 257, 400, 1000]))

    def lit_any(self):
        c = self.r.random()
        if c < 0.5 and self.pool['v']:
            return self.pick(self.pool['v'])
        return self.pick(WRONG)

    def lit_x(self):
        c = self.r.random()
        if c < 0.1:
            return '(list %s %s)' % (self.lit_n(), self.lit_y())
        return Hist.lit_x(self)


class P10(HistCheck):
    ID = 'P10'
    HIST = H
    RULE = ('random histories of vector operations on a pool of aliased and nested vectors of many lengths, with indices at, below and beyond the bounds and '
            'wrong-type arguments, all vectors dumped repeatedly; non-trivial: at least six operations succeed')


CHECK = P10()
