from fractions import Fraction
from vlib.hist import Hist
from vlib.gen import large
from vlib.histcheck import HistCheck
from vlib.numgen import Num, M

BAD = ["'a", '"1"', '#\\1', "'()", '#t', "'(1)", 'car', '(vector 1)']
DIG = '0123456789abcdefghijklmnopqrstuvwxyz'


def digits(x, b):
    n = abs(x)
    out = ''
    while n or not out:
        out = DIG[n % b] + out
        n //= b
    return ('-' if x < 0 else '') + out


class H(Hist):
    DUMP = False
    pool0 = {}

    def __init__(self, rng):
        Hist.__init__(self, rng)
        self.n = Num(rng)

    def fl(self, x=None):
        x = self.n.float() if x is None else x
        s = repr(x)
        if 'e' in s or '.' in s:
            return s
        return s + '.0'

    def num(self, pf, pr):
        r = self.r
        c = r.random()
        if c < pf:
            return self.fl()
        return self.n.ex(self.n.exact(pr))

    def close(self, v):
        """a number equal or near to the exact number v, of any kind"""
        r = self.r
        c = r.random()
        if c < 0.4:
            return self.n.ex(v)
        if c < 0.65:
            w = v + r.choice([1, -1, Fraction(1, 2), Fraction(-1, 3)])
            return self.n.ex(w) if -M <= w.numerator < M and w.denominator < M else self.n.ex(v)
        return self.fl(float(v))

    def compare(self):
        r = self.r
        op = self.pick(['=', '<', '>', '<=', '>='])
        k = r.choice([1, 2, 2, 2, 3, 3, 4, 5, 7]) if r.random() < 0.95 else large(r, 80)
        c = r.random()
        if c < 0.3:
            v = Fraction(self.n.exact(0.4))
            xs = [self.close(v) for _ in range(k)]
        elif c < 0.7:
            # (nearly) sorted with repetitions
            vs = sorted([Fraction(x) for x in r.sample(range(-3000, 3000), k)] if k > 7 and r.random() < 0.7 else (Fraction(self.n.exact(0.3)) if r.random() < 0.3 else Fraction(r.randint(-20, 20), r.choice([1, 1, 2, 4])) for _ in range(k)), reverse=op in ('>', '>='))
            if k > 1 and r.random() < 0.4:
                i = r.choice([r.randrange(k - 1), k - 2])
                vs[i] = vs[i + 1]
            if k > 1 and r.random() < 0.3:
                i = r.choice([r.randrange(k - 1), k - 2])
                vs[i], vs[i + 1] = vs[i + 1], vs[i]
            xs = [(self.n.ex(v) if k < 8 or r.random() < 0.2 else str(v)) if r.random() < 0.7 else self.fl(float(v)) for v in vs]
        else:
            pf, pr = r.choice([(0, 0.3), (0.4, 0.2), (1, 0)])
            xs = [self.num(pf, pr) for _ in range(k)]
        if self.chance(0.04):
            xs.insert(r.randint(0, len(xs)), self.pick(BAD))
        return op, xs

    def pred(self):
        f = self.pick(['zero?', 'positive?', 'negative?', 'odd?', 'even?', 'number?', 'integer?', 'rational?', 'real?', 'complex?', 'exact?', 'inexact?', 'abs'])
        c = self.r.random()
        x = self.pick(BAD) if c < 0.08 else self.pick(['0', '-0', '0.0', '-0.5', '1/2', '-1/3', '1', '-1', '2', '-3.0', '4.0', '-7', '0/5', '1e-300']) if c < 0.35 else self.num(0.35, 0.2)
        return f, [x]

    def inexact(self):
        r = self.r
        op = self.pick('++-**/')
        k = r.choice([1, 2, 2, 2, 3, 4]) if r.random() < 0.96 else large(r, 60)
        xs = [self.num(r.choice([0.5, 0.8, 1]), 0.3) for _ in range(k)]
        xs[r.randrange(k)] = self.fl()
        if self.chance(0.02):
            xs.append(self.pick(BAD))
        return op, xs

    def text(self):
        """(form, ...) on conversions between numbers and text"""
        r = self.r
        c = r.random()
        b = r.choice([2, 8, 10, 10, 16, 36, r.randint(2, 36)])
        v = self.n.int()
        if c < 0.2:
            return '(number->string %d%s)' % (v, ' %d' % b if b != 10 or r.random() < 0.5 else '')
        if c < 0.35:
            return '(= %d (string->number (number->string %d %d) %d))' % (v, v, b, b)
        if c < 0.42:
            return '(number->string %s)' % self.num(0.6, 0.5)
        if c < 0.5:
            f = self.n.ratio()
            return '(list (number->string %d/%d %d) (string->number "%s/%s" %d))' % (f.numerator, f.denominator, b, digits(f.numerator, b), digits(f.denominator, b), b)
        if c < 0.65:
            s = digits(v, b)
            if r.random() < 0.3:
                s = s.upper()
            if r.random() < 0.2 and s[0] != '-':
                s = '+' + s
            if r.random() < 0.2:
                s = s.replace('-', '-00') if '-' in s else '0' + s
            return '(string->number "%s"%s)' % (s, ' %d' % b if b != 10 or r.random() < 0.5 else '')
        if c < 0.75:
            return '(string->number "%s")' % self.num(0.7, 0.5)
        if c < 0.93:
            # text that may or may not be a number
            s = self.pick(['', '-', '+', '.', '1.', '.5', '-.5', '+.', '1e', '1e5', '1E-2', 'e5', '1e+', '1e5.0', '--1', '+-1', '1-', '1+', '1/2', '1/0', '/2', '1/', '1/-2', '1//2', '0x10', '1a', 'a1', '12z', ' 1', '1 ', '1 2', '1.2.3', 'abc',
                           'ff', 'FF', 'g', '1_0', '1,0', '#x10', 'inf', 'nan', '+inf', 'NaN', 'infinity', '0b1', '1.5', '-0', '00', '1e400x', '1.5/2', '1/2.5', '-1/2', '+3/6', '\\t1', '1\\n', '1f', '1.0f', '1L', '0.', '-.', '5e-1', '123456789012345678'])
            if r.random() < 0.2:
                s = s[:r.randint(0, len(s))] if '\\' not in s else s
            return '(string->number "%s"%s)' % (s, '' if r.random() < 0.6 else ' %d' % b)
        return '(%s %s %s)' % (self.pick(['string->number', 'number->string']), self.pick(['"12"', '12', "'a", '1.5', '-1']), self.pick(['0', '1', '37', '-10', "'a", '10', '2', '1.5', '16']))

    def call(self):
        r = self.r
        c = r.random()
        if c < 0.3:
            return self.text()
        f, xs = self.compare() if c < 0.6 else self.pred() if c < 0.75 else self.inexact() if c < 0.93 else (self.pick(['max', 'min']), [self.num(0.5, 0.2) for _ in range(r.randint(1, 4) if r.random() < 0.93 else large(r, 80))])
        t = '(%s %s)' % (f, ' '.join(xs))
        if r.random() < 0.2 and xs:
            k = r.randint(0, len(xs))
            t = self.pick(['(apply %s %s (list %s))' % (f, ' '.join(xs[:k]), ' '.join(xs[k:])), '(let ((x %s)) (%s x %s))' % (xs[0], f, ' '.join(xs[1:])), '((lambda x (apply %s x)) %s)' % (f, ' '.join(xs))])
        if f in '+-*/' and r.random() < 0.6:
            # exact value of the double
            o = self.fl()
            return self.pick(['(let ((x %s)) (list x (- x %s) (= x %s)))' % (t, o, o), '(let ((x %s)) (list (inexact? x) x (- x (* 1.0 %s))))' % (t, xs[0]), '(let ((x %s)) (= x %s))' % (t, t), '(* 1e15 (- %s %s))' % (t, xs[-1])])
        return t

    def program(self, n):
        for _ in range(n):
            self.add(self.call())
        return self.forms


class P07(HistCheck):
    ID = 'P07'
    TECH = 'property-based testing: random numeric predicates, inexact arithmetic and conversions against rational and IEEE double arithmetic'
    HIST = H
    RULE = ('random comparisons of 1 to 8 integers, ratios and inexact numbers (equal, adjacent, sorted, nearly sorted), predicates, inexact folds with differences that expose the last bits, '
            'number/string conversions in all radices, valid and malformed number text, wrong types; expected results from exact rational and IEEE double arithmetic; non-trivial: at least six results')
    LEN = (10, 40)
    N = {'quick': 20000, 'thorough': 400000}


CHECK = P07()
