from vlib.gen import large
from vlib.hist import Hist, WRONG
from vlib.histcheck import HistCheck


class H(Hist):
    """an association list is owned by one variable, which is set to the result of each update"""
    pool0 = {'a': 2}
    BAD = 0.02
    KEYS = ["'a", "'b", "'c", "'d", '0', '1', '2', '-1', '3', '100', '"x"', '"y"', '""', '"a"', "'(1)", "'(1 2)", "'(a)", "'()", '#\\a', '#\\b', '#t', '#f', "'#(1)", '(list 1 2)', '(string #\\x)', "(string-append \"x\" \"\")", "'(1 . 2)"]

    def __init__(self, rng):
        Hist.__init__(self, rng)
        self.pool = {'a': []}
        self.keys = rng.sample(self.KEYS, rng.randint(2, 8))
        self.qkeys = ["'a", "'b", "'c", "'d", '0', '1', '2', '#\\a', '#t', '#f', "'()"]
        self.long = rng.random() < 0.15

    def key(self):
        return self.pick(self.keys) if self.chance(0.92) else self.pick(self.KEYS)

    def qkey(self):
        """keys on which eq? is defined"""
        return self.pick(self.qkeys)

    def v(self):
        return self.pick([str(self.r.randint(0, 99)), "'x", '"s"', "'(1 2)", "'()", '#f', '(list 1)', "'(p . q)", '(vector 1)', '#t'])

    def lit_a(self):
        n = self.r.randint(0, 6)
        c = self.r.random()
        if c < 0.1:
            return "'()"
        if self.long and self.chance(0.5):
            # many entries, few of them wanted
            ks = ["'k%d" % i if i % 3 else str(i + 4) for i in range(large(self.r, 150))]
            for _ in range(self.r.randint(1, 4)):
                ks.insert(self.pick([len(ks), self.r.randrange(len(ks) + 1)]), self.key())
            for k in self.r.sample(ks, 3):
                self.keys.append(k)
                if k[0] == "'":
                    self.qkeys.append(k)
            return '(list %s)' % ' '.join('(cons %s %s)' % (k, self.v()) for k in ks)
        odd = 0.25 if self.chance(0.15) else 0
        return '(list %s)' % ' '.join(self.v() if self.chance(odd) else self.pick(['(cons %s %s)', '(cons %s %s)', '(list %s %s)']) % (self.key(), self.v()) for _ in range(n))

    def step(self):
        r = self.r
        a = self.pick(self.pool['a'])
        c = r.random()
        if c < 0.12:
            self.add('(set! %s (acons %s %s %s))' % (a, self.key(), self.v(), a))
        elif c < 0.32:
            self.add('(set! %s (assoc-set! %s %s %s))' % (a, a, self.key(), self.v()))
        elif c < 0.42:
            self.add('(set! %s (assq-set! %s %s %s))' % (a, a, self.qkey(), self.v()))
        elif c < 0.56:
            self.add('(set! %s (assoc-remove! %s %s))' % (a, a, self.key()))
        elif c < 0.63:
            self.add('(assoc %s %s)' % (self.key(), a))
        elif c < 0.69:
            self.add('(assq %s %s)' % (self.qkey(), a))
        elif c < 0.75:
            self.add('(assv %s %s)' % (self.qkey(), a))
        elif c < 0.84:
            self.add('(assoc-ref %s %s)' % (a, self.key()))
        elif c < 0.87:
            self.add('(let ((e (%s %s %s))) (if e (begin (set-cdr! e %s) (assoc-ref %s %s)) e))' % ('assoc', (k := self.key()), a, self.v(), a, k))
        elif c < 0.89:
            self.add('(eq? (assoc %s %s) (car (member (assoc %s %s) %s)))' % ((k := self.key()), a, k, a, a) if self.chance(0.3) else '(length %s)' % a)
        elif c < 0.91:
            # the object itself is found, not merely an equal one
            self.add('(let* ((k (list 1 2)) (l (list (cons (list 1 2) 1) (cons k 2)))) (list (assq k l) (assv k l) (assoc k l)))')
        elif c < 0.93:
            self.add('(set! %s (append %s))' % (a, ' '.join([a, self.lit_a()])))
        elif c < 0.95:
            self.add('(set! %s %s)' % (a, self.lit_a()))
        elif c < 0.97:
            f = self.pick(['(assq %s %s)', '(assv %s %s)', '(assoc %s %s)', '(assoc-ref %s %s)', '(assoc-remove! %s %s)'])
            self.add(f % ((self.pick(['5', "'sym", '"s"', '#t', '(vector)']), self.qkey()) if 'assoc-r' in f else (self.qkey(), self.pick(['5', "'sym", '"s"', '#t', '(vector)']))))
        elif c < 0.98:
            self.add("(let ((old (map (lambda (p) p) %s))) (set! %s (acons %s %s %s)) (equal? old (cdr %s)))" % (a, a, self.key(), self.v(), a, a))
        else:
            self.add('(map car %s)' % a)
        if self.chance(0.4):
            self.add(a)


class P12(HistCheck):
    ID = 'P12'
    HIST = H
    RULE = ('random histories of acons, assoc-set!, assq-set!, assoc-remove! on association lists with repeated and equal-but-distinct keys, some of them long, each result replacing the list, '
            'interleaved with lookups by every relation; non-trivial: at least six operations succeed')
    LEN = (5, 50)


CHECK = P12()
