from vlib.hist import Hist
from vlib.histcheck import HistCheck
from vlib.gen import large, weighted

# name -> argument types (one list per accepted shape); '*' marks a repeatable last type
FIXED = {'car': 'p', 'cdr': 'p', 'cons': 'xx', 'length': 'l', 'reverse': 'l', 'list-tail': 'ln', 'list-ref': 'qn', 'eq?': 'yy', 'eqv?': 'yy', 'equal?': 'xx', 'not': 'x', 'null?': 'x', 'pair?': 'x',
         'symbol?': 'x', 'list?': 'x', 'string?': 'x', 'vector?': 'x', 'number?': 'x', 'procedure?': 'x', 'boolean?': 'x', 'char?': 'x', 'memq': 'yl', 'member': 'xl', 'vector-length': 'v', 'vector-ref': 'wn', 'vector->list': 'v', 'list->vector': 'l',
         'string-length': 's', 'string->symbol': 's', 'symbol->string': 'y', 'quotient': 'id', 'remainder': 'id', 'modulo': 'id', 'abs': 'i', 'zero?': 'i', 'even?': 'i', 'negative?': 'i', 'cadr': 'q', 'cddr': 'q',
         'acons': 'xxA', 'assoc-ref': 'Ax', 'set-car!': 'px', 'string=?': 'ss', 'char->integer': 'c', 'list->string': 'C', 'expt': 'nn', 'append': 'll', 'last-pair': 'p', 'list-head': 'qn', 'number->string': 'i', 'string->number': 's'}
VAR = {'list': 'x', '+': 'i', '*': 'i', 'append': 'l', 'string-append': 's', 'vector': 'x', 'max': 'i', 'min': 'i', '<': 'i', '=': 'i', '>': 'i', '-': 'i', 'gcd': 'i', 'string': 'c', 'lcm': 'n'}


class H(Hist):
    DUMP = False
    pool0 = {}

    def __init__(self, rng):
        Hist.__init__(self, rng)
        self.user = {}       # name -> (nreq, rest)

    def value(self, t):
        """text of a datum of the type (to be quoted)"""
        r = self.r
        p = self.pick
        if t == 'x':
            t = p('iysclvpbqqx')
        if t == 'x':
            return p(['(quote x)', '(undefined-thing 1)', '(car 5)', 'undefined-var', '(lambda (x) x)', '(if)', '`(a ,b)', '((a . 1))', 'a', 'x', '(define x 1)', '(set! n 9)', '(display 1)', '((1) (2))', '#((a))', "('a 'b)"])
        if t == 'i':
            return str(r.randint(-9, 20))
        if t == 'n':
            return str(r.randint(0, 3))
        if t == 'd':
            return str(p([1, 2, 3, -2, 7]))
        if t == 'y':
            return p(['a', 'b', 'x', 'car', 'undefined-var', 'if', 'list', 'quote', 'n'])
        if t == 's':
            return p(['"a"', '""', '"12"', '"x y"', '"car"'])
        if t == 'c':
            return p(['#\\a', '#\\Z', '#\\space', '#\\('])
        if t == 'C':
            return '(%s)' % ' '.join(self.value('c') for _ in range(r.randint(0, 3)))
        if t == 'b':
            return p(['#t', '#f'])
        if t == 'v':
            return '#(%s)' % ' '.join(self.value(p('iys')) for _ in range(r.randint(0, 3)))
        if t == 'w':
            return '#(1 b (c) "d")'
        if t == 'A':
            return p(['((a . 1) (b . 2))', '()', '((x y) ("a" . 3))'])
        if t == 'p':
            return p(['(1 . 2)', '(a b)', '(car x)', '((1) 2)', '(if)'])
        if t == 'q':
            return p(['(1 2 3)', '(a b c d)', '(quote x y)', '(car cdr list)'])
        return p(['()', '(1 2 3)', '(a b)', '(car x)', '("s" #\\c)', '((1) (2))', '(quote x)', '(undefined-fn)'])

    def quoted(self, v):
        if self.chance(0.15) or v[0] not in '(#abcdefghijklmnopqrstuvwxyz`\'' or v in ('#t', '#f') or v.startswith('#\\'):
            return v if v[0] not in "(#abcdefghijklmnopqrstuvwxyz`'" or v in ('#t', '#f') or v.startswith('#\\') else "(quote %s)" % v
        return "'" + v

    def defproc(self):
        r = self.r
        n = r.randint(0, 4)
        rest = self.chance(0.4)
        name = 'p%d' % len(self.user)
        ps = ['a', 'b', 'c', 'd'][:n]
        body = self.pick(['(list %s)' % ' '.join(ps + (['r'] if rest else [])), "(cons '%s (list %s))" % (name, ' '.join(ps + (['r'] if rest else []))), '(begin (display "%s") (list %s))' % (name, ' '.join(reversed(ps))),
                          '(vector %s)' % ' '.join(ps + (['r'] if rest else [])), '(begin (set! calls (+ calls 1)) %s)' % (ps[-1] if ps else 'calls')])
        if rest:
            sig = 'r' if n == 0 else '(%s . r)' % ' '.join(ps)
        else:
            sig = '(%s)' % ' '.join(ps)
        form = self.pick(['(define %s (lambda %s %s))' % (name, sig, body), '(define (%s . r) %s)' % (name, body) if rest and n == 0 else '(define (%s %s) %s)' % (name, ' '.join(ps) + (' . r' if rest else ''), body),
                          '(define %s (let ((k 1)) (lambda %s %s)))' % (name, sig, body)])
        if self.add(form) is not None:
            self.user[name] = (n, rest)

    def proc(self):
        """-> (text, argument type list)"""
        r = self.r
        c = r.random()
        if c < 0.45 and self.user:
            n = self.pick(sorted(self.user))
            k, rest = self.user[n]
            return n, ['x'] * (k + (r.randint(0, 4) if rest else 0))
        if c < 0.75:
            n = self.pick(sorted(FIXED))
            return n, list(FIXED[n])
        if c < 0.93:
            n = self.pick(sorted(VAR))
            return n, [VAR[n]] * r.randint(1 if n in ('-', 'max', 'min', '<', '=', '>') else 0, 5)
        n = r.randint(0, 3)
        return self.pick(['(lambda %s (list %s))' % ('(%s)' % ' '.join('abc'[:n]), ' '.join('abc'[:n])), '(if #t %s 0)' % ('list'), '(let ((f list)) f)']), ['x'] * n

    def args(self, ts):
        r = self.r
        vs = [self.value(t) for t in ts]
        if self.chance(0.12):
            # wrong count or type
            c = r.random()
            if c < 0.4 and vs:
                vs.pop()
            elif c < 0.8:
                vs.append(self.value('x'))
            elif vs:
                vs[r.randrange(len(vs))] = self.value('x')
        return vs

    def nonproc(self):
        # a value that is not a procedure is called by no mechanism, whatever it would mean as an expression
        f = self.pick(["'list", "'car", "'(lambda x 1)", "'(lambda (k) 1)", '5', '"car"', "(quote if)", "'()", '#f', '#\\a', "'(list)", "(list 'quote list)", "'quote", '(list list)', '(vector car)'])
        return self.pick(['(%s 1)', '(%s)', '(apply %s (list 1))', '(apply %s 1 (list))', '(map %s (list 1 2))', '(map-in-order %s (list 1))', '(for-each %s (list 1))', '(call-with-values (lambda () 1) %s)', '(call-with-values %s list)', '(call/cc %s)', '(let ((f call/cc)) (f %s))',
                          '(let ((f %s)) (f 1))', '((lambda (g . z) (apply g z)) %s 1)', '(dynamic-wind list %s list)', "(catch 'a %s list)", '(let ((f apply)) (f %s (list 1)))', '(call-with-output-string %s)', '(call-with-current-continuation %s)', '(dynamic-wind %s list list)']) % f

    def higher(self):
        # the procedures that call procedures, and continuations, called by every mechanism
        ld = lambda: '(%s)' % ' '.join(self.value('i') for _ in range(self.r.randint(0, 3)))
        f, vs = self.pick([
            ('apply', lambda: ['+', ld()]), ('apply', lambda: ['list', self.value('x'), ld()]), ('map', lambda: ['list', ld()]), ('map', lambda: ['(lambda (x) (cons x x))', '((a) (b))']), ('map-in-order', lambda: ['car', '((1) ((2)))']),
            ('call/cc', lambda: ['(lambda (k) (cons 1 (k (list 2))))']), ('call-with-current-continuation', lambda: ['procedure?']), ('call/cc', lambda: ['(lambda (k) (list 3))']), ('values', lambda: [self.value('i')]),
            ('catch', lambda: ['#t', '(lambda () (throw (quote a) 1))', 'list']), ('catch', lambda: ['#t', 'list', 'list']), ('hash-fold', lambda: ['cons', '5', '(make-hash-table 3)']), ('eval', lambda: ["(list '+ 1 2)"]),
            ('force', lambda: ['(delay (+ 1 2))']), ('call-with-output-string', lambda: ['(lambda (p) (display 1 p))']), ('apply', lambda: ['apply', 'list', '1', "(list (list 2 3))"]), ('apply', lambda: ['map', 'list', '((1 2) (3 4))']),
            ('map', lambda: ['apply', '(list + list)', '((1 2) (3))']), ('map', lambda: ['call/cc', '(list procedure? (lambda (k) (k 4)))']), ('k', lambda: ['7']), ('k', lambda: [self.value('x'), '8']), ('apply', lambda: ['call/cc', '(list (lambda (k) (k 5)))']),
            ('map', lambda: ['map', '(list car list)', '(((1) (2)) (3 4))']), ('map', lambda: ['k', '(1 2)']), ('call/cc', lambda: ['k']), ('catch', lambda: ['#t', '(lambda () (throw (quote b)))', 'k'])])
        vs = [v if v in ('+', 'list', 'car', 'cons', 'apply', 'map', 'k', 'call/cc', 'procedure?') or v.startswith(('(lambda', '(list', '(delay', '(make')) else self.quoted(v) for v in vs()]
        a = ' '.join(vs)
        c = self.pick(['(%s %s)', '(apply %s (list %s))', '(let ((f %s)) (f %s))', '((car (list %s)) %s)', '(call-with-values (lambda () (values %s)) (lambda (g . r) (apply g r)))', '((lambda (g . r) (apply apply g (list r))) %s %s)',
                       'map', 'cwv', 'dw', 'catch', 'for-each', 'handler', '((if #t %s car) %s)', 'proc'])
        if c == 'map':
            e = '(%s %s %s)' % (self.pick(['map', 'map-in-order', '(lambda z (apply map z))']), f, ' '.join('(list %s)' % v for v in vs))
        elif c == 'for-each':
            e = '(for-each %s %s)' % (f, ' '.join('(list %s)' % v for v in vs))
        elif c == 'cwv':
            e = '(call-with-values (lambda () (values %s)) %s)' % (a, f)
        elif c == 'dw':
            e = '(dynamic-wind (lambda () (display "i")) (lambda () (%s %s)) (lambda () (display "o")))' % (f, a)
        elif c == 'catch':
            e = "(catch #t (lambda () (apply %s (list %s))) (lambda (k . a) (list 'caught k)))" % (f, a)
        elif c == 'handler':
            e = "(catch 'zz (lambda () (throw 'zz %s)) (lambda (key . r) (apply %s r)))" % (a, f)
        elif c == 'proc':
            e = '(list (procedure? %s) (call-with-values list %s))' % (f, f) if self.chance(0.3) else '(begin (define g %s) (g %s))' % (f, a)
        elif c.startswith('(call-with-values'):
            e = c % ' '.join([f] + vs)
        else:
            e = c % (f, a)
        if f == 'k' or 'k' in vs or self.chance(0.2):
            e = self.pick(['(call/cc (lambda (k) (list 0 %s)))', "(let ((n 0)) (let ((v (call/cc (lambda (k) %s)))) (set! n (+ n 1)) (list n v)))", '(let ((cc call/cc)) (cc (lambda (k) (cons 0 %s))))', '(dynamic-wind list (lambda () (call/cc (lambda (k) (list %s)))) (lambda () (display "d")))']) % e
        return e

    def effects(self, f, vs):
        """operands that write and assign: evaluated once each, from left to right, before the call"""
        self.mark = getattr(self, 'mark', 0)

        def e(x):
            self.mark += 1
            return self.pick(['(begin (display "<%d>") %s)', '(begin (display "<%d>") %s)', '(begin (set! calls (+ calls 1)) (display "<%d>") %s)', '(let ((v (list calls))) (display "<%d>") (display v) %s)',
                              '(call/cc (lambda (c) (display "<%d>") (c %s)))', '(if (begin (display "<%d>") calls) %s 0)']) % (self.mark, x)
        q = [self.quoted(v) for v in vs]
        c = self.pick(['call', 'apply', 'cwv', 'map', 'for-each', 'op', 'values', 'dw', 'eval', 'cc'])
        if c == 'call':
            return '(%s %s)' % (e(f), ' '.join(map(e, q)))
        if c == 'apply':
            return '(apply %s)' % ' '.join(e(x) for x in [f] + q + ['(list)'])
        if c == 'cwv':
            return '(call-with-values %s %s)' % (e('(lambda () (display "p%d") (set! calls (+ calls 10)) (values %s))' % (self.mark, ' '.join(map(e, q)))), e(f))
        if c in ('map', 'for-each') and vs:
            return '(%s %s)' % (self.pick(['map', 'map-in-order']) if c == 'map' else c, ' '.join(e(x) for x in [f] + ['(list %s)' % x for x in q]))
        if c == 'values':
            return '(values %s)' % ' '.join(map(e, q))
        if c == 'dw':
            return '(dynamic-wind %s %s %s)' % tuple(e('(lambda () (display "%s") %s)' % (m, x)) for m, x in (('i', '0'), ('t', '(%s %s)' % (f, ' '.join(map(e, q)))), ('o', '0')))
        if c == 'eval':
            return '(eval %s)' % e("(list '+ %s)" % ' '.join(e(str(i)) for i in range(self.r.randint(0, 3))))
        if c == 'cc':
            return '(call/cc %s)' % e('(lambda (k) (%s %s))' % (self.pick(['k', '(begin (display "k") k)']), e(self.pick(q or ['1']))))
        return '((%s %s %s) %s)' % (self.pick(['if']), e('#t'), e(f), ' '.join(map(e, q)))

    def route(self, f, vs):
        r = self.r
        c = r.random()
        if self.chance(0.07):
            return self.effects(f, vs)
        if self.chance(0.04):
            return self.nonproc()
        if self.chance(0.08):
            return self.higher()
        q = [self.quoted(v) for v in vs]
        if c < 0.2:
            return '(%s)' % ' '.join([f] + q)
        if c < 0.5:
            k = r.randint(0, len(vs))
            tail = "'(%s)" % ' '.join(vs[k:]) if self.chance(0.6) else '(list %s)' % ' '.join(q[k:])
            return '(%s %s)' % (self.pick(['apply', 'apply', '(lambda z (apply apply z))']), ' '.join([f] + q[:k] + [tail]))
        if c < 0.6:
            return '(%s (lambda () (values %s)) %s)' % ('call-with-values', ' '.join(q), f)
        if c < 0.7 and vs:
            return '(%s %s %s)' % (self.pick(['map', 'map-in-order']), f, ' '.join('(list %s)' % x for x in q))
        if c < 0.75 and vs:
            return '(for-each (lambda r (display (apply %s r))) %s)' % (f, ' '.join("'(%s)" % v for v in vs))
        if c < 0.8:
            return '(let ((f %s)) (%s))' % (f, ' '.join(['f'] + q))
        if c < 0.84:
            return '((if #t %s car) %s)' % (f, ' '.join(q))
        if c < 0.88:
            return '((lambda (g . z) (apply g z)) %s)' % ' '.join([f] + q)
        if c < 0.92:
            return '(apply (lambda (g . z) (apply g z)) %s (list %s))' % (f, ' '.join(q))
        if c < 0.95:
            return "(eval (list %s))" % ' '.join([("'" + f if f[0] != '(' else "'" + f)] + ["(list 'quote %s)" % x for x in q])
        return "(catch #t (lambda () (%s)) (lambda (k . a) (list 'caught k)))" % ' '.join([f] + q)

    def lists(self):
        """map and for-each over longer lists"""
        r = self.r
        k = r.randint(4, 10) if self.chance(0.1) else r.randint(1, 3)
        n = r.randint(0, 6)
        ls = [' '.join(self.value(self.pick('xiy')) for _ in range(n)) for _ in range(k)]
        ps = 'abcdefghij'[:k]
        ql = ' '.join("'(%s)" % l for l in ls)
        us = [u for u, (a, rest) in self.user.items() if a == k or (rest and a <= k)]
        f = self.pick(['(lambda (%s) (display %s) (list %s))' % (' '.join(ps), ps[0], ' '.join(ps)), 'list', '(lambda r (cons (length r) r))', 'cons' if k == 2 else 'vector'] + us * 2)
        return self.pick(['(map %s %s)', '(map-in-order %s %s)', '(for-each %s %s)', '(apply map %s (list %s))', '(let ((m map)) (m %s %s))', '(apply for-each %s (list %s))', '(length (map %s %s))']) % (f, ql)

    def many(self):
        """long lists and many arguments"""
        r = self.r
        n = large(r, 200)
        c = r.random()
        if c < 0.5:
            k = r.randint(1, 3)
            ls = ' '.join("'(%s)" % ' '.join(self.value(self.pick('iiiyx')) if self.chance(0.3) else str(i * (j + 1)) for i in range(n)) for j in range(k))
            ps = 'abc'[:k]
            f = self.pick(['(lambda (%s) (display a) (list %s))' % (' '.join(ps), ' '.join(ps)), 'list', '(lambda r (set! calls (+ calls 1)) (cons calls r))', '(lambda r (car r))', 'vector',
                           '(lambda (%s) (call/cc (lambda (k) (k a))))' % ' '.join(ps), "(lambda (%s) (if (equal? a %d) (throw 'stop a calls) a))" % (' '.join(ps), r.randrange(n))])
            return self.pick(['(map %s %s)', '(map-in-order %s %s)', '(for-each %s %s)', '(apply map %s (list %s))', '(let ((m map)) (m %s %s))', '(length (map %s %s))', '(reverse (map %s %s))',
                              "(catch #t (lambda () (map %s %s)) (lambda (k . r) (list k r)))", "(let ((acc '())) (for-each (lambda z (set! acc (cons (apply %s z) acc))) %s) acc)"]) % (f, ls)
        xs = [self.value(self.pick('iiyx')) if self.chance(0.3) else str(i) for i in range(n)]
        q = [self.quoted(x) for x in xs]
        if c < 0.75:
            f = self.pick(['list', 'vector', '(lambda r (length r))', '(lambda (a b c . r) (list c r a))', '(lambda r (reverse r))', '(lambda (a . r) (apply list r))', '(lambda (a b . r) (map list r))'])
            if self.chance(0.4):
                f = self.pick(['+', 'max', 'min', '<', '=', 'list', '(lambda r (apply + r))', 'append', 'string-append', 'string'])
                xs = [{'append': "(%d)", 'string-append': '"%d"', 'string': '#\\%d'}.get(f, '%d') % (i % 10 if f == 'string' else i) for i in range(n)]
                q = [self.quoted(x) for x in xs]
        else:
            # many parameters
            n = min(n, 60)
            ps = ['v%d' % i for i in range(n)]
            rest = self.chance(0.3)
            f = '(lambda (%s%s) (list %s))' % (' '.join(ps), ' . r' if rest else '', ' '.join((['r'] if rest else []) + [self.pick(ps) for _ in range(4)] + ps[-1:]))
            xs = xs[:n] + ['extra', '7'] * (rest and self.chance(0.5))
            if self.chance(0.1):
                xs.pop()
            elif self.chance(0.1):
                xs.append('9')
            q = [self.quoted(x) for x in xs]
        k = self.pick([0, len(xs), r.randint(0, len(xs))])
        return self.pick([lambda: '(%s %s)' % (f, ' '.join(q)), lambda: "(apply %s '(%s))" % (f, ' '.join(xs)), lambda: "(apply %s '(%s))" % (' '.join([f] + q[:k]), ' '.join(xs[k:])),
                          lambda: '(call-with-values (lambda () (values %s)) %s)' % (' '.join(q), f), lambda: '(map %s %s)' % (f, ' '.join('(list %s)' % x for x in q)),
                          lambda: "(let ((f %s)) (apply (lambda (g . z) (apply g z)) f '(%s)))" % (f, ' '.join(xs)), lambda: "(eval (cons '%s '(%s)))" % (f, ' '.join(q))])()

    def program(self, n):
        self.add('(define calls 0)')
        self.add('(define n 5)')
        for _ in range(self.r.randint(1, 4)):
            self.defproc()
        for _ in range(n):
            c = self.r.random()
            if c < 0.25 and self.chance(0.12):
                self.add(self.many())
            elif c < 0.25:
                self.add(self.lists())
            elif c < 0.5:
                # one call by several routes
                f, ts = self.proc()
                vs = self.args(ts)
                for _ in range(3):
                    self.add(self.route(f, vs))
            else:
                f, ts = self.proc()
                self.add(self.route(f, self.args(ts)))
        self.add('(list calls n)')
        return self.forms


class P16(HistCheck):
    ID = 'P16'
    HIST = H
    RULE = ('random procedures (builtin fixed and variadic, user-defined with and without rest parameters, closures) called with data that would fail or act if evaluated again, '
            'directly, through apply with every split, map, map-in-order, for-each, call-with-values, eval and as values of expressions, with right and wrong argument counts; '
            'non-trivial: at least six calls succeed')
    LEN = (6, 25)


CHECK = P16()
