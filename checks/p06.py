from fractions import Fraction
from vlib.hist import Hist
from vlib.gen import large
from vlib.histcheck import HistCheck
from vlib.numgen import Num, M

BAD = ["'a", '"1"', '#\\1', "'()", '#t', "'(1)", 'car', '(vector 1)']


class H(Hist):
    DUMP = False
    pool0 = {}

    def __init__(self, rng):
        Hist.__init__(self, rng)
        self.n = Num(rng)

    def ratio_p(self):
        return self.r.choice([0, 0.2, 0.5])

    def near(self, x, op):
        """an operand that takes the running result x near a boundary or back into range"""
        r = self.r
        if op == '+':
            t = r.choice([M - 1, -M, 0, M - 1 - r.randint(0, 5), -M + r.randint(0, 5), r.randint(-M, M - 1)])
            return t - x
        if op == '-':
            t = r.choice([M - 1, -M, 0, M - 1 - r.randint(0, 5), r.randint(-M, M - 1)])
            return x - t
        t = r.choice([M - 1, -M, 2 ** 62, r.randint(-M, M - 1)])
        return int(t / x) if x else r.randint(-M, M - 1)

    def fold(self):
        r = self.r
        op = self.pick('++-**/')
        k = r.choice([0, 1, 2, 2, 2, 3, 3, 4, 6]) if r.random() < 0.97 else large(r, 200)
        if op in '-/' and k == 0:
            k = 1
        p = self.ratio_p()
        xs = []
        acc = Fraction(1 if op in '*/' else 0)
        for i in range(k):
            if r.random() < 0.3 and acc.denominator == 1 and op != '/' and i:
                v = self.near(int(acc), op)
                if not -M <= v < M:
                    v = self.n.exact(p)
            else:
                v = self.n.exact(p) if op in '+-' or r.random() < 0.5 else r.randint(-30, 30) if r.random() < 0.6 else self.n.ratio()
            if op == '/' and v == 0 and i + (k == 1) and r.random() < 0.8:
                v = 1
            v = Fraction(v)
            try:
                new = v if i == 0 else acc + v if op == '+' else acc - v if op == '-' else acc * v if op == '*' else acc / v
            except ZeroDivisionError:
                new = acc
            if not (-M <= new.numerator < M and new.denominator < M):
                v = Fraction(r.randint(-3, 3) or 1)
                new = v if i == 0 else acc + v if op == '+' else acc - v if op == '-' else acc * v if op == '*' else acc / v
            acc = new
            xs.append(self.n.ex(v))
        if self.chance(0.04):
            xs.insert(r.randint(0, len(xs)), self.pick(BAD))
        return op, xs

    def division(self):
        r = self.r
        a, b = self.n.int(), self.n.int()
        if r.random() < 0.4 and b:
            a = b * r.randint(-9, 9) + r.choice([0, 0, 1, -1, b - 1, 1 - b])
            a = max(-M, min(M - 1, a))
        if self.chance(0.06):
            b = 0
        x, y = str(a), str(b)
        if self.chance(0.03):
            y = self.pick(BAD + ['1/2', '0.5'])
        elif self.chance(0.02):
            x = self.pick(BAD + ['7/2', '0.5'])
        c = r.random()
        if c < 0.6:
            return self.pick(['quotient', 'remainder', 'modulo']), [x, y]
        return None, "(let ((a %s) (b %s)) (let ((q (quotient a b)) (r (remainder a b)) (m (modulo a b))) (list q r m %s)))" % (
            x, y, '(= a (+ (* b q) r)) (< (abs r) (abs b))' if abs(a) < 2 ** 62 and abs(b) < 2 ** 62 else '(- a r)')

    def gl(self):
        r = self.r
        k = r.choice([0, 1, 2, 2, 3, 4]) if r.random() < 0.95 else large(r, 100)
        f = self.pick(['gcd', 'lcm'])
        g = r.choice([1, 2, 6, 35, 2 ** r.randint(0, 20), 10 ** r.randint(0, 6)])
        xs = []
        for _ in range(k):
            v = g * r.choice([1, -2, 3, 4, 6, 12]) if k > 4 else g * r.randint(-60, 60) if r.random() < 0.7 else self.n.int()
            xs.append(str(v if -M <= v < M else g))
        if self.chance(0.04):
            xs.append(self.pick(BAD + ['1/2', '0.5']))
        return f, xs

    def misc(self):
        r = self.r
        c = r.random()
        if c < 0.3:
            return 'abs', [self.n.ex(self.n.exact(0.3)) if not self.chance(0.04) else self.pick(BAD)]
        if c < 0.65:
            b = self.n.exact(0.4)
            e = r.randint(0, 8)
            if r.random() < 0.5:
                b = r.randint(-12, 12)
            if type(b) is Fraction:
                b, e = Fraction(r.randint(-12, 12), r.randint(1, 12)), r.randint(0, 6)
            elif abs(b) > 1:
                while abs(b) ** e >= M and e:
                    e -= 1
                if r.random() < 0.2:
                    b = r.choice([2, -2, 3, 10, 7])
                    while abs(b) ** (e + 1) < M:
                        e += 1
            elif r.random() < 0.4:
                e = r.choice([63, 64, 65, 1000, 10 ** 9 + r.randint(0, 1), M - 1, M - 2])
            if b and r.random() < 0.2:
                e = -e
            return 'expt', [self.n.ex(b), str(e)]
        f = self.pick(['max', 'min'])
        xs = [self.n.ex(self.n.exact(0.35)) for _ in range(r.randint(1, 5) if r.random() < 0.93 else large(r, 100))]
        if self.chance(0.03):
            xs.append(self.pick(BAD))
        return f, xs

    def call(self):
        c = self.r.random()
        f, xs = self.fold() if c < 0.5 else self.division() if c < 0.7 else self.gl() if c < 0.8 else self.misc()
        if f is None:
            return xs
        c = self.r.random()
        if c < 0.75 or not xs:
            return '(%s %s)' % (f, ' '.join(xs))
        if c < 0.85:
            k = self.r.randint(0, len(xs))
            return '(apply %s %s (list %s))' % (f, ' '.join(xs[:k]), ' '.join(xs[k:]))
        if c < 0.93:
            return '((lambda (%s) (%s %s)) %s)' % (' '.join('v%d' % i for i in range(len(xs))), f, ' '.join('v%d' % i for i in range(len(xs))), ' '.join(xs))
        return '(map (lambda (f) (f %s)) (list %s))' % (' '.join(xs), f)

    def nested(self, d):
        """expression tree over small operands, exact result"""
        r = self.r
        if d <= 0 or r.random() < 0.2:
            return self.n.ex(self.n.exact(0.3) if r.random() < 0.1 else Fraction(r.randint(-30, 30), r.choice([1, 1, 1, 2, 3, 4, 6])))
        c = r.random()
        if c < 0.65:
            op = self.pick('++-**/')
            return '(%s %s)' % (op, ' '.join(self.nested(d - 1) for _ in range(r.choice([1, 2, 2, 3]))))
        if c < 0.75:
            return '(%s %s %s)' % (self.pick(['max', 'min']), self.nested(d - 1), self.nested(d - 1))
        if c < 0.85:
            return '(abs %s)' % self.nested(d - 1)
        if c < 0.93:
            return '(%s (* 12 %s) %d)' % (self.pick(['quotient', 'remainder', 'modulo']), self.nested(d - 1), r.choice([1, -1]) * r.randint(1, 9))
        return '(expt %s %d)' % (self.nested(d - 1), r.randint(-2, 3))

    def program(self, n):
        for _ in range(n):
            self.add(self.call() if self.chance(0.8) else self.nested(self.r.randint(1, 4)))
        if self.chance(0.3):
            # accumulation in a loop
            p = self.n
            self.add('(let loop ((i %d) (acc %s)) (if (= i 0) acc (loop (- i 1) (%s acc %s))))' % (
                self.r.randint(1, 30) if self.chance(0.9) else large(self.r, 400), p.ex(Fraction(self.r.randint(-9, 9), self.r.randint(1, 5))), self.pick(['+', '-', '*']), p.ex(Fraction(self.r.randint(-3, 3), self.r.randint(1, 3)))))
        return self.forms


class P06(HistCheck):
    ID = 'P06'
    TECH = 'property-based testing: random exact arithmetic against unbounded rational arithmetic'
    HIST = H
    RULE = ('random applications and nested expressions of the exact procedures over integers and ratios, biased to sign combinations, common factors, range boundaries, zero divisors and wrong types; '
            'expected results from unbounded rational arithmetic (cases outside the 64-bit range are not generated); non-trivial: at least six results')
    LEN = (10, 40)
    N = {'quick': 20000, 'thorough': 400000}


CHECK = P06()
