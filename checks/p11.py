from vlib.hist import Hist, WRONG
from vlib.histcheck import HistCheck
from vlib.gen import large, weighted
from vlib.model import Hash

FAMS = ('hash', 'hashq', 'hashv')


class H(Hist):
    """every table is used with one family only (h equal?, q eq?, v eqv?)"""
    pool0 = {'h': 1, 'q': 1, 'v': 1}
    BAD = 0.03
    KEEP = 0.5

    def __init__(self, rng):
        Hist.__init__(self, rng)
        self.pool = {'h': [], 'q': [], 'v': []}
        self.small = rng.choice([True, True, False])     # few keys: many hits
        self.seen = {'h': [], 'q': [], 'v': []}
        self.nobj = self.bulks = 0
        self.objs = []
        self.longs = rng.random() < 0.2

    def fam(self, t):
        return {'h': 'hash', 'q': 'hashq', 'v': 'hashv'}[t]

    def lit_h(self):
        c = self.r.random()
        return '(make-hash-table)' if c < 0.5 else '(make-hash-table %d)' % self.r.choice([1, 1, 2, 3, 7, 31, 100, 1000])
    lit_q = lit_v = lit_h

    def atom(self):
        r = self.r
        return weighted(r, [(3, lambda: str(r.randint(0, 8) if self.small else r.randint(-2000, 2000))), (2.5, lambda: "'" + (self.pick('abcdefg') if self.small else self.pick('abcxyz') + str(r.randint(0, 300)))),
                            (0.4, lambda: '#\\' + self.pick('abcAB')), (0.3, lambda: self.pick(['#t', '#f', "'()"])),
                            (0.3, lambda: str(r.choice([31, 62, 93, 124, 2 ** 31, 2 ** 32, -1, -31, 2 ** 62, -2 ** 62, 961, 1 << 40]))),
                            (0.2, lambda: self.pick(['1/2', '2/3', '-1/2']))])()

    def key(self, t):
        s = self.seen[t]
        if self.longs and self.chance(0.15):
            # keys that differ late, if at all
            n = large(self.r, 200)
            d = self.pick(['a', 'b', 'c', '1', '2'])
            x = self.pick('xyz')
            if t != 'h':
                s.append("'" + x * n + 'a' + d)
                return s[-1]
            k = self.pick(['"%s"' % (x * n + d), '"%s"' % (d + x * n), "'(%s %s)" % (' '.join([x] * n), d), "'(%s . %s)" % (' '.join([x] * n), d), "'#(%s %s)" % (' '.join([x] * n), d),
                           "'" + '(%s ' % x * n + d + ')' * n, "'" + '(' * n + d + ')' * n, '(make-string %d #\\%s)' % (n, x)])
            s.append(k)
            return k
        if s and self.chance(0.6):
            return self.pick(s)
        c = self.r.random()
        if t == 'h' and c < 0.45:
            k = weighted(self.r, [(2, lambda: '"' + (self.pick(['', 'a', 'b', 'ab', 'ba', 'Aa', 'BB', 'AaAa', 'BBBB', 'AaBB']) if self.small else 'k%d' % self.r.randint(0, 500)) + '"'),
                                  (2, lambda: "'" + self.datum(2)), (1, lambda: '(list %s %s)' % (self.atom(), self.atom())), (0.5, lambda: '(vector %s)' % self.atom()),
                                  (0.5, lambda: '(string-append "a" "%s")' % self.pick(['', 'b', 'a'])), (0.5, lambda: '(cons %s %s)' % (self.atom(), self.atom())),
                                  (0.7, self.mixed)])()
        elif c < 0.15 and self.objs:
            k = self.pick(self.objs)
        else:
            k = self.atom()
        s.append(k)
        return k

    def mixed(self):
        """data with strings and vectors in every place, improper lists among them"""
        def d(n):
            c = self.r.random()
            if n == 0 or c < 0.3:
                return self.pick(['"a"', '"b"', '"ab"', '""', 'a', '1', '-1', '#\\a', '1/2', '#(1 "a")', '()', '#t'])
            if c < 0.5:
                return '#(%s)' % ' '.join(d(n - 1) for _ in range(self.r.randint(0, 2)))
            l = ' '.join(d(n - 1) for _ in range(self.r.randint(1, 2)))
            return '(%s)' % l if c < 0.7 else '(%s . %s)' % (l, d(n - 1 if self.chance(0.4) else 0))
        return "'" + d(2)

    def update(self, h, f, t):
        """a new value made from the old one"""
        k = self.key(t)
        v = '(%s-ref %s %s)' % (f, h, k)
        x = self.r.randint(0, 9)
        self.add('(%s-set! %s %s %s)' % (f, h, k, self.pick(['(cons %d %s)' % (x, v), '(cons %d %s)' % (x, v), '(let ((o %s)) (if (number? o) (+ o %d) %d))' % (v, x, x), '(let ((o %s)) (if (pair? o) (cdr o) (list o %d)))' % (v, x), '(list %s)' % v, v,
            '(let ((o %s)) (if (pair? o) (cons %d (cdr o)) (list %d o)))' % (v, x, x), '(let ((o %s)) (if (pair? o) (begin (set-car! o %d) o) (vector o)))' % (v, x), '(append (list %d) (let ((o %s)) (if (list? o) o (list o))))' % (x, v)])))
        if self.chance(0.5):
            self.add(v)

    def obj(self):
        self.nobj += 1
        n = 'o%d' % self.nobj
        if self.add('(define %s %s)' % (n, self.pick(['(list 1 2)', '(cons 1 2)', '(vector 1)', '(lambda (x) x)', "(list 'a)", '(make-hash-table)', 'car', '(string #\\a)']))):
            self.objs.append(n)

    def val_(self):
        c = self.r.random()
        if c < 0.6:
            return str(self.r.randint(0, 99))
        if c < 0.7:
            return '(list %d %d)' % (self.r.randint(0, 9), self.r.randint(0, 9))
        return self.pick(["'()", '#f', "'x", '"s"', '(vector 1 2)', "'(1 . 2)", '#t'])

    def step(self):
        r = self.r
        t = self.pick('hhqv')
        if not self.pool[t]:
            return
        h = self.pick(self.pool[t])
        f = self.fam(t)
        c = r.random()
        if c < 0.03:
            self.obj()
        elif c < 0.06 and len(self.names()) < 6:
            n = self.fresh(t)
            if self.add('(define %s %s)' % (n, self.lit(t))):
                self.pool[t].append(n)
        elif c < 0.08:
            # wrong arguments
            self.add(self.pick(['(%s-ref 5 1)', "(%s-set! 'x 1 2)", "(%s-remove! '() 1)", '(%s-get-handle "s" 1)', '(%s-create-handle! (vector) 1 2)', "(%s-ref)", "(%s-set! (make-hash-table) 1)"]) % f)
        elif c < 0.13 and self.bulks < 5:
            self.bulk(t, h, f)
        elif c < 0.18:
            self.update(h, f, t)
        elif c < 0.5:
            self.add('(%s-set! %s %s %s)' % (f, h, self.key(t), self.val_()))
        elif c < 0.62:
            self.add('(%s-remove! %s %s)' % (f, h, self.key(t)))
        elif c < 0.74:
            self.add('(%s-ref %s %s)' % (f, h, self.key(t)))
        elif c < 0.8:
            self.add('(%s-get-handle %s %s)' % (f, h, self.key(t)))
        elif c < 0.86:
            self.add('(%s-create-handle! %s %s %s)' % (f, h, self.key(t), self.val_()))
        elif c < 0.89:
            self.add('(let ((e (%s-create-handle! %s %s 0))) (set-cdr! e %s) e)' % (f, h, self.key(t), r.choice([self.val_(), "(list (cdr e) 1)", '(if (number? (cdr e)) (+ 1 (cdr e)) 7)'])))
        elif c < 0.91:
            k = self.key(t)
            self.add('(let ((e (%s-get-handle %s %s))) (%s-remove! %s %s) (list e (%s-get-handle %s %s)))' % (f, h, k, f, h, k, f, h, k))
        elif c < 0.93:
            self.add('(list %s)' % ' '.join('(%s-ref %s %s)' % (f, h, k) for k in dict.fromkeys([self.key(t) for _ in range(4)])))
        elif c < 0.96:
            self.count(h)
        elif c < 0.98 and self.objs:
            # the key is the object, not its contents
            self.add('(%s-ref %s (list 1 2))' % (f, h))
        else:
            self.add('(list (%s-set! %s %s %s) (hash-table? %s))' % (f, h, self.key(t), self.val_(), h) if self.chance(0) else '(%s-set! %s %s (list %s))' % (f, h, self.key(t), self.val_()))

    def count(self, h):
        n = len(self.val(h).items) if type(self.val(h)) is Hash else 0
        if self.chance(0.6) and n > 40:
            return
        folds = ['(+ a 1)', '(+ a (if (number? v) v 1))', '(+ a (if (number? k) k 1))', '(if (and (number? v) (> v a)) v a)']
        if n <= 12 and self.chance(0.3):
            self.add("(hash-fold (lambda (k v a) (let ins ((x (if (and (integer? k) (exact? k)) k -7)) (l a)) (if (or (null? l) (<= x (car l))) (cons x l) (cons (car l) (ins x (cdr l)))))) '() %s)" % h)
        else:
            self.add('(hash-fold (lambda (k v a) %s) 0 %s)' % (self.pick(folds), h))

    def bulk(self, t, h, f):
        """growth: many keys at once, then look at all of them"""
        r = self.r
        n = r.choice([5, 10, 20, 40, 40, 60] + ([200] if self.bulks < 2 else []))
        self.bulks += 1
        a = r.randint(-50, 300)
        kf = self.pick(['i', 'i', '(* i 31)', '(* i 7)', "(string->symbol (string-append \"s\" (number->string i)))", '(- 0 i)', '(* i 100003)'] + (
            ['(number->string i)', '(list i)', '(list (quote k) i)', '(cons i i)', '(vector i)', '(string-append "key" (number->string i))'] if t == 'h' else []))
        lo, hi = a, a + n
        c = r.random()
        if c < 0.55:
            self.add('(do ((i %d (+ i 1))) ((= i %d)) (%s-set! %s %s %s))' % (lo, hi, f, h, kf, self.pick(['i', '(* i i)', '(list i)', "'v"])))
        elif c < 0.7:
            self.add('(do ((i %d (+ i 1))) ((= i %d)) (%s-remove! %s %s))' % (lo, hi, f, h, kf))
        else:
            self.add('(do ((i %d (+ i 2))) ((>= i %d)) (set-cdr! (%s-create-handle! %s %s 0) i))' % (lo, hi, f, h, kf))
        self.add("(let loop ((i %d) (n 0) (s 0)) (if (= i %d) (list n s) (let ((e (%s-get-handle %s %s))) (loop (+ i 1) (if e (+ n 1) n) (if (and e (number? (cdr e))) (+ s (* (- i %d) (cdr e))) s)))))" % (
            lo - 2, hi + 2, f, h, kf, lo))
        if self.chance(0.5):
            self.count(h)

    def dump(self):
        for t in 'hqv':
            for h in self.pool[t]:
                if self.seen[t]:
                    f = self.fam(t)
                    self.add('(list %s)' % ' '.join('(%s-ref %s %s)' % (f, h, k) for k in dict.fromkeys(self.seen[t][-12:])))
                    if self.chance(0.4):
                        self.count(h)


class P11(HistCheck):
    ID = 'P11'
    HIST = H
    LEN = (5, 60)
    RULE = ('random histories of set, ref, get-handle, create-handle!, remove! and hash-fold on several tables (each used with one of the three families), '
            'with colliding and equal-but-distinct keys of many types, bulk insertions and deletions that force growth, handles mutated in place; '
            'hash-fold through order-independent folds; non-trivial: at least six operations succeed')
    N = {'quick': 6000, 'thorough': 200000}


CHECK = P11()
