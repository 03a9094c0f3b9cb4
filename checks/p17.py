from vlib.hist import Hist
from vlib.histcheck import HistCheck
from vlib.gen import weighted, large

PRELUDE = {
    'cs': "(define-macro (cons-stream a b) `(cons ,a (delay ,b)))",
    'tail': '(define (tail s) (force (cdr s)))',
    'take': "(define (take s n) (if (or (= n 0) (null? s)) '() (cons (car s) (take (tail s) (- n 1)))))",
    'from': '(define (from n) (begin (display "<") (display n) (display ">") (cons n (delay (from (+ n 1))))))',
    'smap': "(define (smap f s) (if (null? s) '() (cons (f (car s)) (delay (smap f (tail s))))))",
    'sfilter': "(define (sfilter p s) (cond ((null? s) '()) ((p (car s)) (cons (car s) (delay (sfilter p (tail s))))) (else (sfilter p (tail s)))))",
    'szip': "(define (szip f a b) (cons (f (car a) (car b)) (delay (szip f (tail a) (tail b)))))",
    'nth': '(define (nth s n) (if (= n 0) (car s) (nth (tail s) (- n 1))))',
    'lst': "(define (lst l) (if (null? l) '() (cons (car l) (delay (lst (cdr l))))))",
}


class H(Hist):
    DUMP = False

    def __init__(self, rng):
        Hist.__init__(self, rng)
        self.ps = []          # promise expressions valid at top level
        self.streams = []
        self.later = ['q0', 'q1', 'q2']   # names of promises that may be defined later
        self.np = 0

    def expr(self, d, inside=True):
        """an expression of any kind; inside a promise body it may misbehave"""
        r = self.r
        c = r.random()
        if d <= 0 or c < 0.2:
            return self.pick(['n', 'm', '(tick)', "'s", '1', '2', '(list n m)', '"t"', "'()", '#f', 'x' if inside else 'n'])
        P = (self.ps or ['(delay 7)']) + self.later[:1] + self.later[1:2]
        t = weighted(r, [
            (3, lambda: '(begin (display "%s") %s)' % (self.pick('abcdefg'), self.expr(d - 1, inside))),
            (2, lambda: '(+ %s (tick))' % self.pick(['n', 'm', '1', '2'])),
            (3, lambda: '(force %s)' % self.pick(P)),
            (1.5, lambda: '(list (force %s) (force %s))' % (self.pick(P), self.pick(P))),
            (1, lambda: '(let ((n (tick))) %s)' % self.expr(d - 1, inside)),
            (1, lambda: '(begin (set! n (+ n 1)) %s)' % self.expr(d - 1, inside)),
            (1, lambda: '(if (> n %d) %s %s)' % (r.randint(0, 8), self.expr(d - 1, inside), self.expr(d - 1, inside))),
            (0.7, lambda: '(force (delay %s))' % self.expr(d - 1, inside)),
            (0.5, lambda: '(catch #t (lambda () %s) (lambda (k . a) (list k n)))' % self.expr(d - 1, inside)),
            (0.6, lambda: self.pick(["(throw 'oops n)", '(car n)', '(undefined-proc n)', '(k0 n)', '(if (< n 6) (begin (set! n (+ n 1)) (car 5)) n)', "(if (odd? (tick)) (throw 'odd) 'even)"]) if inside else 'n'),
            (0.5, lambda: '(call/cc (lambda (k) %s))' % self.pick(['(k (tick))', '(set! kk k) (tick)', '(begin (set! k0 k) %s)' % self.expr(d - 1, inside)])),
            (0.4, lambda: '(dynamic-wind (lambda () (display "[")) (lambda () %s) (lambda () (display "]")))' % self.expr(d - 1, inside)),
            (0.5, lambda: '(map (lambda (x) %s) (list 1 2))' % self.expr(d - 1, inside)),
            (0.4, lambda: '(vector %s)' % self.expr(d - 1, inside)),
        ])
        return t()

    def promise(self):
        r = self.r
        e = self.expr(r.randint(0, 3))
        c = r.random()
        if c < 0.5:
            return '(delay (begin (display "%s") %s))' % (self.pick('pqrs'), e)
        if c < 0.65:
            return '(let ((n (tick)) (x %s)) (delay (list n m x %s)))' % (self.pick(['n', '5', "'in"]), e)
        if c < 0.75:
            return '((lambda (x . m) (delay (list x m %s))) %s)' % (e, self.pick(['1 2', 'n', "'a 'b"]))
        if c < 0.85:
            return '(let ((x 0)) (delay (begin (set! x (+ x 1)) (list x %s))))' % e
        if c < 0.93:
            # forces itself
            v, w = self.pick([('n', '(+ 1 (force p))'), ('n', '(+ 1 (force p))'), None, None, None]) or (self.pick(['#f', "'()", '0', '""', "'s", '(list n)', '(if #f #f)', '(delay 1)', self.expr(1)]),
                                                                                                self.pick(['(begin (force p) %s)', '(cons (force p) %s)', '(let ((v (force p))) (if v v %s))', '(catch #t (lambda () (force p) (throw (quote in))) (lambda (k . a) %s))']) % self.pick(['5', 'n', '#f', "'outer"]))
            return '(letrec ((p (delay (begin (set! n (+ n 1)) (if (> n %d) %s %s))))) p)' % (r.randint(3, 9), v, w)
        return '(delay (delay %s))' % e

    def define(self):
        name = self.later.pop(0) if self.later and self.chance(0.4) else 'p%d' % self.np
        self.np += 1
        if self.add('(define %s %s)' % (name, self.promise())) is not None:
            self.ps.append(name)

    def family(self):
        """a procedure making promises, or promises kept in data"""
        r = self.r
        c = r.random()
        self.np += 1
        n = 'p%d' % self.np
        if c < 0.4:
            e = self.expr(2)
            if self.add('(define (%s x) (delay (list x %s)))' % (n, e)) is not None:
                k = []
                for i in range(r.randint(1, 3)):
                    if self.add('(define %s-%d (%s %s))' % (n, i, n, self.pick(['1', 'n', "'z", '(tick)']))) is not None:
                        k.append('%s-%d' % (n, i))
                self.ps += k
        elif c < 0.7:
            es = [self.promise() for _ in range(r.randint(2, 3))]
            if self.add('(define %s (list %s))' % (n, ' '.join(es))) is not None:
                self.ps += ['(car %s)' % n, '(cadr %s)' % n]
        elif c < 0.85:
            if self.add('(define %s (vector %s))' % (n, ' '.join(self.promise() for _ in range(2)))) is not None:
                self.ps += ['(vector-ref %s 0)' % n, '(vector-ref %s 1)' % n]
        else:
            if self.add('(define %s (map (lambda (x) (delay (begin (display x) (list x n %s)))) (list 1 2 3)))' % (n, self.expr(1))) is not None:
                self.ps += ['(car %s)' % n, '(list-ref %s 2)' % n]

    def use(self):
        r = self.r
        p = self.pick(self.ps or ['(delay (tick))'])
        q = self.pick(self.ps or ['(delay (tick))'])
        return self.pick(['(force %s)', '(force %s)', '(list (force %s) n)', '(catch #t (lambda () (force %s)) (lambda (k . a) (list k n)))', '(begin (force %s) n)', '(let ((n 100) (m 200) (x 300)) (list (force %s) n))',
                          '(apply force (list %s))', '(map force (list %s ' + q + '))', '(eq? (force %s) (force ' + p + '))', '(call/cc (lambda (k) (set! k0 k) (force %s)))', '(let ((v (force %s))) (set! m (+ m 1)) (list v (force ' + q + ')))',
                          "(begin (set! n (+ n 1)) (force %s))", '(length (list (force %s) (force ' + q + ')))', '(let ((k #f) (i 0)) (force %s) (call/cc (lambda (c) (set! k c))) (set! i (+ i 1)) (if (< i 3) (k 0)) (list i (force ' + q + ')))',
                          '(for-each (lambda (p) (display (force p))) (list %s ' + q + '))']) % p

    def stream(self):
        r = self.r
        S = self.streams
        self.np += 1
        n = 's%d' % self.np
        src = weighted(r, [(2, '(from %d)' % r.randint(-2, 3)), (1, "(lst '(%s))" % ' '.join(str(r.randint(0, 9)) for _ in range(r.randint(0, 6)))),
                           (2 if S else 0, '(smap (lambda (x) (begin (display ".") %s)) %s)' % (self.pick(['(+ x n)', '(list x n)', '(* x x)', '(list x (tick))']), self.pick(S or ['-']))),
                           (2 if S else 0, '(sfilter (lambda (x) (begin (display "?") %s)) %s)' % (self.pick(['(not (equal? x 2))', '(pair? (list x))', '(if (number? x) (odd? x) #t)']), self.pick(S or ['-']))),
                           (1.5 if S else 0, '(szip list %s %s)' % (self.pick(S or ['-']), self.pick(S or ['-']))),
                           (1, '(letrec ((s (cons %d (delay (smap (lambda (x) (+ x %d)) s))))) s)' % (r.randint(0, 3), r.randint(1, 3))),
                           (0.7, '(letrec ((f (cons 1 (delay (cons 1 (delay (szip + f (tail f)))))))) f)')])
        if self.add('(define %s %s)' % (n, src)) is not None:
            S.append(n)

    def suse(self):
        s = self.pick(self.streams or ['(from 0)'])
        k = self.r.randint(0, 7) if self.chance(0.96) else large(self.r, 60)
        return self.pick(['(take %s %d)' % (s, k), '(nth %s %d)' % (s, k), '(list (take %s %d) (take %s 2))' % (s, k, s), '(let loop ((s %s) (i 0) (acc 0)) (if (or (null? s) (= i %d)) acc (loop (tail s) (+ i 1) (if (number? (car s)) (+ acc (car s)) acc))))' % (s, k),
                          "(take (sfilter (lambda (x) (and (number? x) (even? x))) %s) %d)" % (s, self.r.randint(0, 3))])

    def program(self, n):
        r = self.r
        for t in ['(define cnt 0)', '(define (tick) (set! cnt (+ cnt 1)) cnt)', '(define n 3)', '(define m 10)', '(define x 1)', '(define kk #f)', '(define k0 (lambda (v) v))']:
            self.add(t)
        st = r.random()
        if st < 0.55:
            for t in PRELUDE.values():
                self.add(t)
        if self.chance(0.04):
            # a long chain of promises, each forcing the next
            k = large(r, 80)
            self.add(self.pick(['(define ps (let loop ((i %d) (p (delay (begin (display "b") (tick))))) (if (= i 0) (list p) (loop (- i 1) (delay (begin (display "c") (+ 1 (force p))))))))',
                                '(define ps (let loop ((i %d) (l (list (delay (tick))))) (if (= i 0) l (loop (- i 1) (cons (let ((p (car l))) (delay (begin (display "c") (set! n (+ n 1)) (+ n (force p))))) l)))))',
                                '(define ps (map (lambda (x) (delay (begin (display x) (list x (tick))))) (let loop ((i %d) (l (quote ()))) (if (= i 0) l (loop (- i 1) (cons i l))))))']) % k)
            self.ps += ['(car ps)', '(list-ref ps (- (length ps) 1))']
            for t in ['(force (car ps))', '(map force ps)', '(list (force (car ps)) n cnt)', '(map force (reverse ps))']:
                if self.chance(0.5):
                    self.add(t)
        for _ in range(n):
            c = r.random()
            if st < 0.55 and c < 0.5 or st < 0.2:
                self.stream() if r.random() < 0.4 or not self.streams else self.add(self.suse())
            elif c < 0.3:
                self.define()
            elif c < 0.4:
                self.family()
            elif c < 0.44 and self.later and self.ps:
                self.add("(force '%s)" % self.pick(['1', 'a', '(1)']))
            elif c < 0.48:
                self.add(self.pick(['(if (procedure? k0) (k0 9))', '(if (and (procedure? kk) (< n 30)) (begin (set! n (+ n 5)) (kk 1)))']))
            else:
                self.add(self.use())
        self.add('(list n m x cnt)')
        return self.forms


class P17(HistCheck):
    ID = 'P17'
    HIST = H
    TECH = 'model-based property testing: random promise networks and streams against a reference interpreter'
    RULE = ('random networks of promises (nested, self-forcing, mutually dependent, in closures, lists and vectors, created in loops and procedures) with counted side effects, errors, escapes and re-entry in their bodies, '
            'forced in random order through several contexts, and derived streams consumed in random order; non-trivial: some promise is forced again after its value was stored')
    LEN = (5, 30)
    N = {'quick': 16000, 'thorough': 300000}

    def nontrivial(self, case, m):
        return m.stats.get('force-again', 0) > 0


CHECK = P17()
