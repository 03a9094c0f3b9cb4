"""Histories of operations on a pool of aliased, mutable objects; the generator follows the reference
interpreter's state, so that operations are mostly valid and structures stay acyclic."""
from . import model, sx
from .gen import weighted
from .model import Machine, Env, Unsupported, from_datum

WRONG = ["'sym", '5', '"str"', "#\\a", "'()", "'(1 2)", '#t', "(vector 1 2)", '-1', '100', 'car', "'(1 . 2)", '(make-hash-table)']
SYMS = ['a', 'b', 'c', 'foo', 'bar', 'x1', 'hello', 'set!', 'if', 'list', '+']
TEXT = ['', 'a', 'b', 'ab', 'abc', 'ABC', 'Abc', 'hello world', 'zz', 'a b', 'foo', '12', '-7', 'x\\"y', 'a\\\\b', 'l\\nm', "it's", '(a . b)', 'Zebra', '_~{}[]@`^']
CHARS = ['a', 'b', 'z', 'A', 'B', 'Z', '0', '9', 'space', 'newline', '-', '(', '"', ';', '@', '[', '`', '{', '~', '_', '\\', "'"]


class Hist:
    """ops: list of (weight, result type, template); a template is a format string whose {t} fields are argument
    types.  A result type of None means that the value is not kept."""

    OPS = []
    DUMP = True
    BAD = 0.05

    def __init__(self, rng, steps=40000):
        self.r = rng
        self.pool = {}
        self.forms = []
        self.steps = steps
        self.nid = 0
        self.fail = 0
        self.reset()

    # ---- reference state ----
    def reset(self):
        self.m = Machine(self.steps)
        self.m.globals = Env({}, self.m.base)
        self.m.forms = []

    def add(self, text):
        """append a form when the reference has an opinion about it"""
        m = self.m
        nrec = len(m.recs)
        try:
            d = from_datum(sx.read_one(text))
            m.forms.append(d)
            self.check(d)
            m.runfrom(len(m.forms) - 1)
            for v in self.names():
                pass
        except (Unsupported, RecursionError, AttributeError, IndexError, TypeError, KeyError):
            self.fail += 1
            if self.fail > 60:
                raise Unsupported('generator')
            self.reset()
            for f in self.forms:
                self.m.forms.append(from_datum(sx.read_one(f)))
            self.m.runfrom(0)
            return None
        self.forms.append(text)
        return m.recs[nrec:]

    def check(self, d):
        pass

    def val(self, name):
        return self.m.globals.v.get(sx.Sym(name))

    def names(self):
        return [n for l in self.pool.values() for n in l]

    # ---- choice ----
    def pick(self, s):
        return s[int(self.r.random() * len(s))]

    def chance(self, p):
        return self.r.random() < p

    def fresh(self, t):
        self.nid += 1
        return '%s%d' % (t[0], self.nid)

    def lit(self, t):
        return getattr(self, 'lit_' + t)()

    def lit_i(self):
        return str(weighted(self.r, [(8, self.r.randint(0, 4)), (2, self.r.randint(-3, 10)), (0.7, self.r.choice([-1, 100, 2 ** 31, -2 ** 62, 2 ** 62]))]))

    def lit_n(self):
        return str(self.r.randint(0, 9))

    def lit_k(self):
        return str(self.r.randint(0, 3))

    def lit_y(self):
        return "'" + self.pick(SYMS)

    def lit_s(self):
        t = self.pick(TEXT)
        return self.pick(['"%s"', '(string-append "%s" "")', '(string-append "" "%s")']) % t if self.chance(0.8) else '(make-string %d #\\%s)' % (self.r.randint(0, 5), self.pick(CHARS))

    def lit_c(self):
        return '#\\' + self.pick(CHARS)

    def lit_b(self):
        return self.pick(['#t', '#f'])

    def datum(self, d):
        c = self.r.random()
        if d <= 0 or c < 0.55:
            return self.pick([self.lit_n(), self.pick(SYMS), '"' + self.pick(TEXT) + '"', '#t', '#f', '()', self.lit_c(), self.lit_i()])
        n = self.r.randint(0, 3)
        items = ' '.join(self.datum(d - 1) for _ in range(n))
        if c < 0.65:
            return '#(' + items + ')'
        if c < 0.75 and n:
            return '(' + items + ' . ' + self.pick([self.lit_n(), self.pick(SYMS)]) + ')'
        return '(' + items + ')'

    def lit_x(self):
        c = self.r.random()
        if c < 0.35:
            return self.lit_n()
        if c < 0.5:
            return self.lit_y()
        ns = self.names()
        if c < 0.75 and ns:
            return self.pick(ns)
        return "'" + self.datum(2)

    def lit_l(self):
        n = self.pick([0, 1, 2, 3, 3, 4, 6])
        if self.chance(0.5):
            return '(list ' + ' '.join(self.arg('x', 0) for _ in range(n)) + ')'
        return "'(" + ' '.join(self.datum(1) for _ in range(n)) + ')'

    def lit_p(self):
        c = self.r.random()
        if c < 0.4:
            return '(cons %s %s)' % (self.arg('x', 0), self.arg('x', 0))
        if c < 0.6:
            return "'(%s . %s)" % (' '.join(self.datum(1) for _ in range(self.r.randint(1, 3))), self.pick(['5', 'z', '"t"', '#(1)']))
        return '(list ' + ' '.join(self.arg('x', 0) for _ in range(self.r.randint(1, 4))) + ')'

    def lit_v(self):
        n = self.pick([0, 1, 2, 3, 4, 7])
        c = self.r.random()
        if c < 0.3:
            return "'#(" + ' '.join(self.datum(1) for _ in range(n)) + ')'
        if c < 0.4:
            return "#(" + ' '.join(self.datum(1) for _ in range(n)) + ')'
        if c < 0.6:
            return '(make-vector %d %s)' % (n, self.arg('x', 0))
        return '(vector ' + ' '.join(self.arg('x', 0) for _ in range(n)) + ')'

    def arg(self, t, d=2):
        if self.chance(self.BAD):
            return self.pick(WRONG)
        ns = self.pool.get(t)
        c = self.r.random()
        if ns and c < 0.7:
            return self.pick(ns)
        if d > 0 and c < 0.82:
            ops = [(w, tpl) for w, rt, tpl in self.OPS if rt == t]
            if ops:
                return self.fill(weighted(self.r, ops), d - 1)
        return self.lit(t)

    def fill(self, tpl, d=2):
        if callable(tpl):
            return tpl(self, d)
        out = []
        i = 0
        while i < len(tpl):
            if tpl[i] == '{':
                j = tpl.index('}', i)
                out.append(self.arg(tpl[i + 1:j], d))
                i = j + 1
            else:
                out.append(tpl[i])
                i += 1
        return ''.join(out)

    KEEP = 0.35

    def step(self):
        w, rt, tpl = weighted(self.r, [(o[0], o) for o in self.OPS])
        text = self.fill(tpl)
        if rt in self.pool and self.chance(self.KEEP):
            if self.chance(0.25) and self.pool[rt]:
                n = self.pick(self.pool[rt])
                self.add('(set! %s %s)' % (n, text))
                return
            n = self.fresh(rt)
            r = self.add('(define %s %s)' % (n, text))
            if r and r[-1][0] != 'E' and self.keep(rt, self.val(n)):
                self.pool[rt].append(n)
            return
        c = self.r.random()
        if c < 0.06:
            text = "(catch #t (lambda () %s) (lambda (k . a) (list 'caught k)))" % text
        elif c < 0.1:
            text = '(let ((f (lambda () %s))) (f))' % text
        self.add(text)

    def keep(self, t, v):
        return v is not model.NONE and v is not None

    def dump(self):
        ns = self.names()
        if ns:
            self.add('(list %s)' % ' '.join(ns))

    def program(self, n):
        for t in list(self.pool):
            for _ in range(self.pool0.get(t, 2)):
                v = self.fresh(t)
                if self.add('(define %s %s)' % (v, self.lit(t))):
                    self.pool[t].append(v)
        for i in range(n):
            self.step()
            if self.DUMP and self.chance(0.15):
                self.dump()
        if self.DUMP:
            self.dump()
        return self.forms

    pool0 = {}
