from vlib.runner import Check
from vlib.gen import large, weighted


class QQ:
    def __init__(self, rng, budget):
        self.r = rng
        self.b = budget
        self.maxlv = rng.choice([4, 4, 4, 12])
        self.vars = ['n', 'l', 's', 'y', 'v', 'p', 'e']

    def pick(self, s):
        return s[int(self.r.random() * len(s))]

    def atom(self):
        return self.pick(['a', 'b', 'x', 'n', 'l', 'foo', 'quote', 'list', 'if', '1', '2', '-3', '0', '"s"', '"a b"', '#t', '#f', '#\\a', '()', '1.5', 'else', '...', '1/2'])

    # expressions
    def e(self, d):
        self.b -= 1
        if d <= 0 or self.b <= 0:
            return self.pick(['n', 'l', 's', 'y', 'v', 'e', '(tick)', '(+ n 1)', "'sym", "'(q r)", '(f n)', '(list)'])
        k = self.r.random
        return weighted(self.r, [(3, lambda: self.pick(['n', 'l', 's', 'y', 'v', '(tick)', 'p'])), (1, lambda: '(list %s %s)' % (self.e(d - 1), self.e(d - 1))),
                                 (1, lambda: '(cons %s %s)' % (self.e(d - 1), self.le(d - 1))), (1.5, lambda: self.qq(d - 1)), (0.7, lambda: "'" + self.t(d - 1, 0)),
                                 (0.6, lambda: '(if %s %s %s)' % (self.pick(['#t', '#f', '(odd? (tick))']), self.e(d - 1), self.e(d - 1))),
                                 (0.6, lambda: '(let ((n %s)) %s)' % (self.e(d - 1), self.e(d - 1))), (0.5, lambda: '(f %s)' % self.e(d - 1)),
                                 (0.4, lambda: '((lambda (l) %s) %s)' % (self.qq(d - 1), self.le(d - 1))), (0.3, lambda: '(vector %s)' % self.e(d - 1)),
                                 (0.3, lambda: '(begin (display "%d") %s)' % (self.r.randint(0, 9), self.e(d - 1)))])()

    def le(self, d):
        """list valued"""
        self.b -= 1
        if d <= 0 or self.b <= 0:
            return self.pick(['l', 'l', 'e', "'(1 2)", "'()", '(list (tick))', '(list n y)', "'(a)"])
        return weighted(self.r, [(3, lambda: self.pick(['l', 'e', "'(x y z)", '(cdr l)'])), (1, lambda: '(list %s)' % ' '.join(self.e(d - 1) for _ in range(self.r.randint(0, 3)))),
                                 (1, lambda: '(map (lambda (x) %s) %s)' % (self.pick(['x', '`(x ,x)', '(list x n)', '(tick)']), self.le(d - 1))),
                                 (1, lambda: '`(%s)' % ' '.join(self.item(d - 1, 1) for _ in range(self.r.randint(0, 3)))), (0.5, lambda: '(append %s %s)' % (self.le(d - 1), self.le(d - 1))),
                                 (0.3, lambda: '(vector->list v)')])()

    def wide(self):
        """a long or deep template"""
        r = self.r
        n = large(r, 80)
        if r.random() < 0.5:
            self.b = max(self.b, 10)
            xs = [self.pick([',n', ',@l', ',(tick)', ',@(list (tick) n)', 'a', '1', '(b ,n)', ',s', '"x"', '#(,n)', '(a . ,y)', '()', ',@e', "'n"]) for _ in range(n)]
            return self.pick(['`(%s)', '`(%s)', '`#(%s)', '`(%s . ,n)', '`(%s . z)', '`(x (%s) ,n)', '``(%s ,,n)', '`(%s . ,l)']) % ' '.join(xs)
        t = self.pick([',(tick)', '(,n ,@l)', 'a', ',@l', '(,@l . ,n)'])
        for _ in range(min(n, 30)):
            k = self.pick(['(%s)', '(a %s)', '#(%s)', '(,n %s)', '(%s . ,n)', '(%s ,@l)', '(quote %s)'] + ['(%s (unquote n))'])
            t = k % t
        # levels up and down again
        for _ in range(self.pick([0, 0, 1, 2, 5])):
            t = '`(x ,%s)' % t
        return '`(%s)' % t

    def qq(self, d):
        if self.r.random() < 0.03:
            return self.wide()
        return ('`%s' if self.r.random() < 0.9 else '(quasiquote %s)') % self.t(d, 1)

    def item(self, d, lv):
        """an element of a list or vector"""
        if lv >= 1 and self.r.random() < 0.22:
            x = self.le(d - 1) if lv == 1 else self.t(d - 1, lv - 1)
            return (',@%s' if self.r.random() < 0.9 else '(unquote-splicing %s)') % x
        return self.t(d, lv)

    def t(self, d, lv):
        self.b -= 1
        r = self.r.random()
        if d <= 0 or self.b <= 0:
            if lv == 1 and r < 0.4:
                return ',' + self.e(0)
            return self.atom()
        if lv >= 1 and r < 0.25:
            x = self.e(d - 1) if lv == 1 else self.t(d - 1, lv - 1)
            return (',%s' if self.r.random() < 0.9 else '(unquote %s)') % x
        if r < 0.35:
            return self.atom()
        if r < 0.42 and lv < self.maxlv:
            return ('`%s' if self.r.random() < 0.9 else '(quasiquote %s)') % self.t(d - 1, lv + 1)
        if r < 0.47:
            return "'" + self.t(d - 1, lv)
        xs = ' '.join(self.item(d - 1, lv) for _ in range(weighted(self.r, [(1, 0), (2, 1), (3, 2), (3, 3), (1, 5)])))
        if r < 0.57:
            return '#(%s)' % xs
        if r < 0.66 and xs:
            tail = self.t(d - 1, lv)
            return '(%s . %s)' % (xs, tail)
        return '(%s)' % xs

    def program(self):
        r = self.r
        forms = ['(define cnt 0)', '(define (tick) (set! cnt (+ cnt 1)) cnt)', '(define (f x) `(f ,x))']
        forms += ["(define n %s)" % self.pick(['5', "'nn", '"str"', '-1', '(list 1 2)']), "(define l %s)" % self.pick(["'(1 2 3)", '(list 4)', "'(a (b c))", "(list 'x 'y)", "'((1 . 2))"]),
                  '(define s "t")', "(define y 'sy)", "(define v %s)" % self.pick(['(vector 1 2)', "'#(a)", '(vector)']), "(define p '(1 . 2))", "(define e '())"]
        for _ in range(r.randint(1, 5)):
            d = r.choice([2, 3, 4, 5])
            c = r.random()
            q = self.qq(d)
            if c < 0.5:
                forms.append(q)
            elif c < 0.65:
                forms.append('(let ((n %s) (l %s)) %s)' % (self.e(1), self.le(1), q))
            elif c < 0.75:
                forms.append('((lambda (n . l) %s) %s)' % (q, ' '.join(self.e(0) for _ in range(r.randint(1, 3)))))
            elif c < 0.85:
                # the same template evaluated several times
                forms += ['(define (g n l) %s)' % q, '(list (g 1 (list 2)) (g (quote a) (quote ())) (g "x" (list (list 1) 2)))']
            elif c < 0.9:
                forms.append('(map (lambda (n) %s) (list 1 2 3))' % q)
            elif c < 0.95:
                forms.append('(let loop ((n 0) (acc (quote ()))) (if (= n 3) acc (loop (+ n 1) `(,acc ,@%s . ,n))))' % self.le(1))
            else:
                forms.append('(equal? %s %s)' % (q, q))
            if self.b < 0:
                break
        forms.append('(list n l s y v p e cnt)')
        return forms


class P14(Check):
    ID = 'P14'
    RULE = ('random quasiquote templates over lists, dotted lists and vectors with nested levels, abbreviated and long forms, evaluated at top level, in procedures, loops and map, '
            'with side-effecting unquoted expressions; non-trivial: at least one unquote or splice is evaluated')
    N = {'quick': 120000, 'thorough': 1500000}

    def gen(self, rng):
        return {'forms': QQ(rng, rng.choice([10, 20, 40, 80])).program(), 'steps': 20000}

    def nontrivial(self, case, m):
        return m.stats.get('unquote', 0) + m.stats.get('splice', 0) > 0


CHECK = P14()
