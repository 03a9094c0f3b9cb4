from vlib import drv
from vlib.runner import Res, drv_status, judge_model
from vlib.hist import Hist, WRONG
from vlib.histcheck import HistCheck


class H(Hist):
    pool0 = {'l': 3, 'p': 2}
    OPS = [
        (4, None, '(set-car! {l} {x})'), (3.5, None, '(set-cdr! {l} {t})'), (1.5, None, '(set-car! (list-tail {l} {k}) {x})'), (1, None, '(set-cdr! (last-pair {l}) {t})'),
        (2, 'l', '(cons {x} {t})'), (1, 'p', '(cons {x} {x})'), (1.5, 'l', '(cdr {l})'), (1, None, '(car {l})'), (0.7, 'x', '(car {p})'), (0.7, 'x', '(cdr {p})'),
        (0.6, None, '(cadr {l})'), (0.6, 'l', '(cddr {l})'), (0.4, None, '(caddr {l})'),
        (0.5, None, '(caar {l})'), (0.5, None, '(cdar {l})'), (0.4, None, '(cdddr {l})'), (0.4, None, '(cadddr {l})'),
        (1.5, 'l', '(list {x} {x} {x})'), (0.7, 'l', '(list {x})'), (0.3, 'l', '(list)'),
        (2.5, 'l', '(append {l} {l})'), (1.5, 'l', '(append {l} {l} {l})'), (0.6, 'l', '(append {l} {t})'), (0.4, 'l', '(append {l})'), (0.3, None, '(append {l} {x})'), (0.4, 'l', "(append {l} '())"), (0.4, 'l', "(append '() {l})"),
        (0.3, None, '(append {x} {l})'), (0.3, None, '(append)'),
        (1.5, 'l', '(list-head {l} {k})'), (1.5, 'l', '(list-tail {l} {k})'), (1.2, None, '(list-ref {l} {k})'), (1, 'p', '(last-pair {l})'),
        (2, 'l', '(reverse {l})'), (1.5, None, '(length {l})'), (0.6, None, '(list? {any})'), (0.5, None, '(pair? {any})'), (0.5, None, '(null? {any})'),
        (1, None, '(memq {y} {ml})'), (1, None, '(memv {n} {ml})'), (1.2, None, '(member {x} {ml})'), (0.6, None, '(member {x} {l})'),
        (0.6, 'l', '(let ((m (member {x} {l}))) (if m (begin (set-car! m {x}) m) \'()))'),
        (0.7, None, '(eq? (cdr {l}) {l})'), (0.7, None, '(eq? (list-tail {l} {k}) {l})'), (0.5, None, '(eq? (last-pair {l}) {p})'),
        (0.6, None, '(let ((a {l}) (b {l})) (eq? (append a b) b))'), (0.5, None, '(let ((a {l})) (let ((c (append a {l}))) (if (pair? c) (set-car! c {x})) (list a c)))'),
        (0.5, None, '(let ((a {l})) (let ((c (reverse a))) (if (pair? c) (begin (set-car! c {x}) (set-cdr! c {t}))) (list a c)))'),
        (0.5, None, '(let ((a {l})) (let ((c (list-head a {k}))) (if (pair? c) (begin (set-car! c {x}) (set-cdr! (last-pair c) {t}))) (list a c)))'),
        (0.5, None, '(let ((a {l})) (let ((c (list-tail a {k}))) (if (pair? c) (set-car! c {x})) (list a c)))'),
        (0.5, None, '(apply list {l})'), (0.4, None, '(let ((a {l})) (let ((c (apply list a))) (if (pair? c) (set-car! c {x})) (list a c)))'),
        (0.5, None, '(let ((f (lambda r r)) (a {l})) (let ((c (apply f a))) (if (pair? c) (set-car! c {x})) (list a c)))'),
        (0.5, 'l', '(map (lambda (e) e) {l})'), (0.4, None, "`(a ,@{l} b)"), (0.4, None, "`(a ,{x} ,@{l})"), (0.4, None, '(equal? {l} {l})'), (0.4, None, '(vector->list (list->vector {l}))'),
        (0.3, None, "(let loop ((l {l}) (n 0)) (if (pair? l) (loop (cdr l) (+ n 1)) (list n l)))"),
    ]

    def __init__(self, rng):
        Hist.__init__(self, rng)
        self.pool = {'l': [], 'p': []}

    def lit_t(self):
        c = self.r.random()
        if c < 0.5 and self.pool['l']:
            return self.pick(self.pool['l'])
        if c < 0.75:
            return "'()"
        if c < 0.9:
            return self.lit_l()
        return self.lit_x()

    def lit_ml(self):
        return self.pick([lambda: "'(%s)" % ' '.join(self.datum(1) for _ in range(self.r.randint(0, 6))), lambda: '(list %s)' % ' '.join(self.lit_x() for _ in range(4))])()

    def lit_any(self):
        c = self.r.random()
        if c < 0.5 and self.pool['l']:
            return self.pick(self.pool['l'])
        if c < 0.7 and self.pool['p']:
            return self.pick(self.pool['p'])
        return self.pick(WRONG)

    def lit_l(self):
        if self.chance(0.04):
            n = self.r.choice([40, 200])
            return "(let loop ((i 0) (l '())) (if (= i %d) l (loop (+ i 1) (cons i l))))" % n
        return Hist.lit_l(self)


def large(r):
    """a long list, or a circular one: what the procedures give is known from the construction"""
    n = int(round(10 ** r.uniform(2, 4.6))) if r.random() < 0.8 else r.choice([255, 256, 1000, 1023, 1024, 4096, 9999, 10000, 10001, 10002, 16384, 32768, 40000])
    k = r.randint(0, n - 1)
    j = r.randint(0, n - 1)
    build = r.choice(['(vector->list (make-vector %d 7))' % n, "(let loop ((i 0) (l '())) (if (= i %d) l (loop (+ i 1) (cons 7 l))))" % n if n <= 3000 else '(vector->list (make-vector %d 7))' % n,
                      '(do ((i 0 (+ i 1)) (l (quote ()) (cons 7 l))) ((= i %d) l))' % n, '(string->list (make-string %d #\\7))' % n])
    seven = '#\\7' if 'string' in build else '7'
    dotted = r.random() < 0.2
    fs = [('(define l %s)' % build, None), ("(set-car! (list-tail l %d) 'mark)" % k, None)]
    q = [('(list? l)', '#t'), ('(length l)', n), ('(list-ref l %d)' % k, 'mark'), ('(list-ref l %d)' % j, 'mark' if j == k else seven), ('(length (append l l))', 2 * n), ('(length (reverse l))', n),
         ("(length (memq 'mark l))", n - k), ("(length (memq 'mark (reverse l)))", k + 1), ('(length (list-tail l %d))' % j, n - j), ('(length (list-head l %d))' % j, j), ('(list? (list-tail l %d))' % j, '#t'),
         ('(length (map (lambda (x) x) l))', n), ('(equal? l (append l (quote ())))', '#t'), ('(equal? l (append l (list 1)))', '#f'), ('(equal? l (map (lambda (x) x) l))', '#t'), ('(vector-length (list->vector l))', n), ('(list? (append l 5))', '#f'),
         ('(list? (append l l))', '#t'), ('(length (apply list l))', n), ('(length `(a ,@l b))', n + 2), ('(vector-ref (list->vector l) %d)' % k, 'mark'), ("(length (member 'mark l))", n - k), ('(list? (cons 1 l))', '#t'), ('(list? (list l))', '#t'),
         ('(let ((m (list-tail l %d))) (eq? (append (list 1) m) m))' % j, '#f'), ('(let ((m (list-tail l %d))) (eq? (cdr (append (list 1) m)) m))' % j, '#t'), ('(length (vector->list (list->vector l)))', n), ('(let ((c 0)) (for-each (lambda (x) (set! c (+ c 1))) l) c)', n),
         ("(length (assq 'mark (list (cons 'x 1) (cons 'mark l))))", n + 1)]
    r.shuffle(q)
    return fs + q[:r.randint(3, 8)]


def circular(r):
    n = r.randint(1, 9)
    j = r.randint(0, n - 1)
    items = r.sample(range(-50, 100), n)

    def at(i):
        return items[i] if i < n else items[j + (i - j) % (n - j)]
    i = r.choice([r.randint(0, 30), r.randint(0, 30), r.randint(0, 3000)])
    fs = [('(define c (list %s))' % ' '.join(map(str, items)), None), ('(set-cdr! (list-tail c %d) (list-tail c %d))' % (n - 1, j), None)]
    x = r.choice(items)
    h = r.randint(0, 14)
    q = [('(list? c)', '#f'), ('(list? (cons 0 c))', '#f'), ('(list? (cons 0 (cons 1 c)))', '#f'), ('(list-ref c %d)' % i, at(i)), ('(car (list-tail c %d))' % i, at(i)), ('(list-ref (cons 0 c) %d)' % (i + 1), at(i)), ('(pair? c)', '#t'), ('(null? c)', '#f'),
         ('(list-head c %d)' % h, '(' + ' '.join(str(at(a)) for a in range(h)) + ')'), ('(eq? (list-tail c %d) (list-tail c %d))' % (n, j), '#t'), ('(car (memv %d c))' % x, x), ('(car (member %d c))' % x, x), ('(cadr (memv %d c))' % x, at(items.index(x) + 1)),
         ('(list? (list-tail c %d))' % i, '#f'), ('(list? (list c))', '#t'), ("(map + c '(1 2 3))", '(%d %d %d)' % (at(0) + 1, at(1) + 2, at(2) + 3)), ("(map (lambda (a b) (list b a)) '(x y z w) c)", '(%s)' % ' '.join('(%d %s)' % (at(a), 'xyzw'[a]) for a in range(4))),
         ("(begin (set-cdr! (list-tail c %d) '()) (let ((r (list (list? c) (append c '())))) (set-cdr! (list-tail c %d) (list-tail c %d)) r))" % (n - 1, n - 1, j), '(#t (%s))' % ' '.join(map(str, items))),
         ('(caddr c)', at(2)), ('(list? (vector-ref (vector c 1) 0))', '#f'), ('(eq? c (car (list c)))', '#t'), ("(eq? (cdr (assq 'k (list (cons 'k c)))) c)", '#t'), ('(list? (append (list 1 2) c))', '#f'), ('(list-ref (append (list 1 2) c) %d)' % (i + 2), at(i))]
    r.shuffle(q)
    return fs + q[:r.randint(3, 10)]


class P09(HistCheck):
    ID = 'P09'
    HIST = H
    RULE = ('random histories of list operations on a pool of lists and pairs that share structure (selectors, constructors, append, list-head/-tail, reverse, '
            'mem*, set-car!/set-cdr! through every alias), with out-of-range and wrong-type arguments, all objects dumped repeatedly; '
            'non-trivial: at least six operations succeed; one case in 30 is a long list (up to 40000 elements) or a circular one, with the answers known from its construction')

    def gen(self, rng):
        c = rng.random()
        if c > 0.03:
            return HistCheck.gen(self, rng)
        fs = large(rng) if c < 0.01 else circular(rng)
        return {'kind': 'known', 'forms': [f for f, _ in fs], 'expect': [None if e is None else str(e) for _, e in fs]}

    def judge(self, ctx, case):
        if case.get('kind') != 'known':
            return judge_model(ctx, case, self)
        st, out = ctx.run(case['forms'], 'p', timeout=6000)
        recs = [x for x in drv.parse(out)[0] if x[0] in 'VNE']
        labels = ('long or circular list',)
        for i, (f, e) in enumerate(zip(case['forms'], case['expect'])):
            got = recs[i] if i < len(recs) else None
            want = ('N',) if e is None else ('V', e)
            if got is None:
                return Res('fail', '%s: the interpreter ended with %s' % (f, drv_status(st)), labels, True)
            if got[:len(want)] != want:
                return Res('fail', '%s: expected %s, got %s' % (f, drv.show(want), drv.show(got)), labels, True)
        return Res('ok', '', labels, True)

    def shrink(self, ctx, case):
        if case.get('kind') != 'known':
            return HistCheck.shrink(self, ctx, case)
        c = dict(case)
        for i in range(len(c['forms']) - 1, 1, -1):
            d = dict(c, forms=c['forms'][:i] + c['forms'][i + 1:], expect=c['expect'][:i] + c['expect'][i + 1:])
            if self.judge(ctx, d).kind == 'fail':
                c = d
        return c


CHECK = P09()
