from vlib.hist import Hist, WRONG
from vlib.histcheck import HistCheck
from vlib.gen import large, weighted


class H(Hist):
    """objects built in many ways, some the same object and some merely alike"""
    pool0 = {'o': 0}
    DUMP = False

    def __init__(self, rng):
        Hist.__init__(self, rng)
        self.pool = {'o': []}
        self.simple = rng.random() < 0.5

    def num(self):
        r = self.r
        return weighted(r, [(4, lambda: str(r.randint(-3, 3))), (1, lambda: str(r.choice([2 ** 31, -2 ** 31, 2 ** 32, 2 ** 53, 2 ** 62, -2 ** 62, 2 ** 63 - 1, 1000000, 255, 256]))),
                            (1, lambda: r.choice(['1/2', '2/3', '-1/2', '3/2'])), (1, lambda: r.choice(['0.5', '1.5', '-0.5', '2.25', '1e10']))])()

    def base(self):
        r = self.r
        return weighted(r, [(3, self.num), (3, lambda: "'" + self.pick(['a', 'b', 'ab', 'A', 'foo', 'list'])), (1, lambda: self.pick(['#t', '#f'])), (1, lambda: "'()"),
                            (1.5, lambda: '#\\' + self.pick(['a', 'b', 'A', 'space', 'newline', '0'])), (1.5, lambda: '"%s"' % self.pick(['', 'a', 'b', 'ab', 'A'])),
                            (1, lambda: self.pick(['car', 'cdr', 'list', 'map']))])()

    def mk(self, d=2):
        r = self.r
        ns = self.pool['o']
        c = r.random()
        if ns and c < 0.3:
            return self.pick(ns)
        if d <= 0 or c < 0.5:
            return self.base()
        k = lambda: self.mk(d - 1)
        return weighted(r, [(2, lambda: '(list %s)' % ' '.join(k() for _ in range(r.randint(0, 3)))), (2, lambda: '(cons %s %s)' % (k(), k())), (2, lambda: "'" + self.small(d)),
                            (1.5, lambda: '(vector %s)' % ' '.join(k() for _ in range(r.randint(0, 3)))), (0.5, lambda: '(make-vector %d %s)' % (r.randint(0, 3), k())),
                            (0.7, lambda: '(string-append "%s" "%s")' % (self.pick(['', 'a']), self.pick(['', 'b']))), (0.5, lambda: '(string->symbol "%s")' % self.pick(['a', 'ab', 'A', 'foo'])),
                            (0.7, lambda: '(+ %s %s)' % (self.num(), self.num())), (0.3, lambda: '(* %s %s)' % (self.num(), self.pick(['1', '2', '1/2']))),
                            (0.4, lambda: '(lambda (x) x)'), (0.4, lambda: '(append %s %s)' % (self.lst(), self.lst())), (0.4, lambda: '(reverse %s)' % self.lst()),
                            (0.4, lambda: '(list->vector %s)' % self.lst()), (0.4, lambda: '(vector->list (vector %s))' % k()), (0.4, lambda: '(integer->char %d)' % r.choice([97, 65, 98, 32])),
                            (0.3, lambda: '(string-ref "abA" %d)' % r.randint(0, 2)), (0.3, lambda: '(car (list %s))' % k()), (0.3, lambda: '(cdr (cons 1 %s))' % k()),
                            (0.3, lambda: '(vector-ref (vector %s) 0)' % k()), (0.3, lambda: '(let ((x %s)) x)' % k()), (0.3, lambda: '((lambda (x) x) %s)' % k()), (0.2, lambda: '(symbol->string \'a)'),
                            (0.3, lambda: '`(a ,%s)' % k()), (0.2, lambda: '(number->string %s)' % self.num()), (0.3, lambda: '(string #\\a)'), (0.2, lambda: '(make-hash-table)'), (0.3, lambda: '(list-copy-free)' if False else '(cdr %s)' % self.lst())])()

    def small(self, d):
        r = self.r
        c = r.random()
        if d <= 0 or c < 0.3:
            return self.base().lstrip("'")
        xs = [self.small(d - 1) for _ in range(r.randint(0, 3))]
        if c < 0.7:
            return '(%s)' % ' '.join(xs)
        if c < 0.85:
            return '#(%s)' % ' '.join(xs)
        return '(%s . %s)' % (' '.join(xs or ['a']), self.pick(['1', 'b', '"a"', '#(1)', '#\\a']))

    def lst(self):
        return self.pick(["'(1 2)", "'(a)", "'()", "(list 1 2)", '(list (list 1))'])

    def alike(self):
        """two large objects built alike, except perhaps in one place"""
        r = self.r
        c = r.random()
        if c < 0.3:
            # deep
            n = large(r, 120)
            kinds = [self.pick(['(%s)', '(a %s)', '#(%s)', '(%s . b)', '(b . %s)', '#(1 %s 2)', '("a" #\\b %s)']) for _ in range(n)]

            def build(x, ks):
                for k in reversed(ks):
                    x = k % x
                return x
            a, b = self.pick(['1', 'a', '"a"', '()', '#()', '#\\a', '1/2']), self.pick(['1', '2', 'a', '"a"', '"b"', '()', '#()', '#\\a', '1/2'])
            other = list(kinds)
            if self.chance(0.3):
                other[r.randrange(n)] = self.pick(['(%s)', '(a %s)', '#(%s)', '(%s . b)', '(b . %s)'])
                b = a
            texts = [build(a, kinds), build(b if self.chance(0.5) else a, other)]
        else:
            n = large(r, 400)
            xs = [self.pick(['a', 'b', '1', '2', '"a"', '"b"', '#\\a', '(1)', '(a . b)', '#(1)', '()', '1/2', '#t']) if c < 0.6 else str(i) for i in range(n)]
            ys = list(xs)
            d = r.random()
            if d < 0.4:
                ys[self.pick([r.randrange(n), n - 1, n - 1 - r.randrange(min(n, 4))])] = self.pick(['a', '3', '"a"', '(1)', '(2)', '#(1)', '#(2)', '()', '#\\b', '(a . c)'])
            elif d < 0.5:
                ys.pop(self.pick([n - 1, r.randrange(n)]))
            elif d < 0.55:
                ys.insert(r.randrange(n), 'a')
            t = self.pick(['(%s)', '#(%s)', '(%s)', '#(%s)', '(%s . z)'])
            texts = [t % ' '.join(xs), (t if self.chance(0.9) else '(%s)') % ' '.join(ys)]
            if c > 0.85:
                texts = ['"%s"' % ''.join(chr(97 + i % 26) for i in range(n)), '"%s"' % ''.join(chr(97 + i % 26) if i != n - 1 - k else self.pick('abXZ') for k in [self.pick([n, 0, r.randrange(n)])] for i in range(n))]
        x, y = ("'" + t for t in texts)
        if self.chance(0.3):
            return self.add('(%s %s (list %s %s))' % (self.pick(['member', 'memv', 'memq']), x, self.base(), y))
        if self.chance(0.3):
            m = r.randint(0, 60)
            self.add('(let* ((x %s) (l (list %s x)) (al (list %s))) (list (length (%s x l)) (%s x al)))' % (
                x, ' '.join([self.base() for _ in range(m)] + [y]), ' '.join(['(cons %s %d)' % (self.base(), i) for i in range(m)] + ['(cons %s 0)' % y, '(cons x 1)']), self.pick(['member', 'memv', 'memq']), self.pick(['assoc', 'assv', 'assq'])))
        self.add('(let ((x %s) (y %s)) (list (eq? x y) (eqv? x y) (equal? x y) (equal? y x) (equal? x x)))' % (x, y))

    def wide_case(self):
        ks = [self.base().lstrip("'") for _ in range(large(self.r, 60))]
        k = self.r.randrange(len(ks))
        q = self.pick(ks)
        return self.add('(case %s ((%s) 1) ((%s) 2) (else 3))' % (q if q[0] in '"#' or q[0].isdigit() else "'" + q, ' '.join(ks[:k] or ['zz']), ' '.join(ks[k:])))

    def program(self, n):
        r = self.r
        k = r.randint(3, 9)
        for i in range(k):
            nm = 'o%d' % i
            text = self.mk(r.randint(0, 3))
            if self.add('(define %s %s)' % (nm, text)) and self.val(nm) is not None:
                self.pool['o'].append(nm)
                # a second object built in the same way
                if self.chance(0.35) and i < k - 1:
                    if self.add('(define %sc %s)' % (nm, text)):
                        self.pool['o'].append(nm + 'c')
        ns = self.pool['o']
        big = self.chance(0.2)
        for i in range(n):
            a, b = self.pick(ns), self.pick(ns)
            if big and self.chance(0.4):
                self.alike() if self.chance(0.8) else self.wide_case()
                continue
            c = r.random()
            if c < 0.2:
                a = self.mk(1)
            if c < 0.1:
                b = self.mk(1)
            if c < 0.6:
                self.add('(eq? %s %s)' % (a, b))
                self.add('(eqv? %s %s)' % (a, b))
                self.add('(equal? %s %s)' % (a, b))
            elif c < 0.65:
                self.add('(list (eq? %s %s) (eqv? %s %s) (equal? %s %s))' % ((a,) * 6))
            elif c < 0.8:
                f = self.pick(['memq', 'memv', 'member'])
                self.add('(%s %s (list %s))' % (f, a, ' '.join(self.pick(ns) if self.chance(0.8) else self.mk(1) for _ in range(r.randint(0, 4)))))
            elif c < 0.92:
                f = self.pick(['assq', 'assv', 'assoc'])
                self.add('(%s %s (list %s))' % (f, a, ' '.join('(cons %s %d)' % (self.pick(ns) if self.chance(0.8) else self.mk(1), j) for j in range(r.randint(0, 4)))))
            elif c < 0.96:
                ks = [self.pick(['a', 'b', 'ab', 'foo', '1', '2', '-1', '0', '#\\a', '#\\b', '#t', '#f', '()']) for _ in range(4)]
                self.add('(case %s ((%s) 1) ((%s %s) 2) ((%s) 3) (else 4))' % (a, *ks))
            else:
                # after a mutation the relations follow the contents
                self.add('(if (pair? %s) (set-car! %s %s) (if (vector? %s) (if (> (vector-length %s) 0) (vector-set! %s 0 %s) 0) 0))' % (a, a, self.base(), a, a, a, self.base()))
        return self.forms


class P13(HistCheck):
    ID = 'P13'
    HIST = H
    RULE = ('pools of objects of every type, built twice in the same way, shared, nested and mutated; every pair compared with eq?, eqv? and equal?, large ones alike except in one place; and searched for with '
            'memq, memv, member, assq, assv, assoc and case; non-trivial: at least six comparisons are decided')
    LEN = (4, 25)


CHECK = P13()
