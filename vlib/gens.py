"""Extensions of the program generator: continuations, dynamic-wind, catch/throw."""
from .gen import G, V, weighted

USER_KEYS = ['oops', 'my-error', 'stop', 'k1']

PRE_K = ['(define ks (make-vector 8 #f))',
         '(define (jump i v) (if (and (> fuel 0) (procedure? (vector-ref ks i))) '
         '(begin (set! fuel (- fuel 1)) ((vector-ref ks i) v)) v))']
PRE_C = ["(define (show-exn key args) (display key) (if (memq key '(oops my-error stop k1)) (display args)))"]

SLOT = {'i': (0, 1, 2, 3), 'l': (4, 5), 'b': (6, 7)}


class Ctl(G):
    """features: mark jump esc wind catch throw err"""

    def __init__(self, rng, budget, features, **w):
        G.__init__(self, rng, budget)
        self.features = set(features)
        self.w = w
        self.wid = 0
        self.types = 'iiiilb'

    def prelude(self):
        out = []
        if 'jump' in self.features:
            out += ['(define fuel %d)' % self.int(2, 12)] + PRE_K
        if 'catch' in self.features:
            out += PRE_C
        return out

    def control(self):
        t = G.control(self)
        w = self.w
        f = self.features
        if 'mark' in f:
            t = t + [(w.get('mark', 2), self.p_mark), (w.get('jump', 1), self.p_jump)]
        if 'esc' in f:
            t = t + [(w.get('esc', 2), self.p_esc), (w.get('esc', 2) * 1.2, self.p_usek)]
        if 'wind' in f:
            t = t + [(w.get('wind', 2), self.p_wind)]
        if 'catch' in f:
            t = t + [(w.get('catch', 2), self.p_catch)]
        if 'throw' in f:
            t = t + [(w.get('throw', 1), self.p_throw)]
        if 'err' in f:
            t = t + [(w.get('err', 0.6), self.p_err)]
        return t

    def slot(self, t):
        return self.pick(SLOT[t])

    def p_mark(self, t, d, env):
        if t not in SLOT:
            return None
        k = self.pick(['k', 'kk', 'c'])
        env2 = [v for v in env if v.name != k] + [V(k, 'K' + t)]
        cc = self.pick(['call/cc', 'call-with-current-continuation'])
        return '(%s (lambda (%s) (vector-set! ks %d %s) %s))' % (cc, k, self.slot(t), k, self.bodytext(t, d, env2))

    def p_jump(self, t, d, env):
        if t in SLOT and self.chance(0.6):
            return '(jump %d %s)' % (self.slot(t), self.e(t, d, env))
        t2 = self.pick('iilb')
        return '(begin (jump %d %s) %s)' % (self.slot(t2), self.e(t2, d, env), self.e(t, d - 1, env))

    def p_esc(self, t, d, env):
        k = self.pick(['k', 'return', 'exit', 'esc'])
        env2 = [v for v in env if v.name != k] + [V(k, 'K' + t)] if type(t) is str else env
        cc = self.pick(['call/cc', 'call-with-current-continuation'])
        return '(%s (lambda (%s) %s))' % (cc, k, self.lbody(t, d, env2))

    def p_usek(self, t, d, env):
        seen = set()
        ks = []
        for v in reversed(env):
            if v.name not in seen:
                seen.add(v.name)
                if type(v.type) is str and v.type[0] == 'K':
                    ks.append(v)
        if not ks:
            return None
        v = self.pick(ks)
        return '(%s %s)' % (v.name, self.e(v.type[1:], d, env))

    def p_wind(self, t, d, env):
        self.wid += 1
        n = self.wid
        pre = post = ''
        if self.chance(0.15):
            pre = ' ' + self.stmt(1, env)
        if self.chance(0.15):
            post = ' ' + self.stmt(1, env)
        if 'jump' in self.features and self.chance(self.w.get('windjump', 0.04)):
            t2 = self.pick('ilb')
            post += ' (jump %d %s)' % (self.slot(t2), self.leaf(t2, env))
        if 'jump' in self.features and self.chance(self.w.get('windjump', 0.04)):
            t2 = self.pick('ilb')
            pre += ' (jump %d %s)' % (self.slot(t2), self.leaf(t2, env))
        if 'mark' in self.features and self.chance(0.05):
            post += ' (display %s)' % self.p_mark('i', 1, env)
        if 'throw' in self.features and self.chance(0.08):
            post += ' ' + self.p_throw('i', 1, env)
        if not pre and not post and self.chance(0.1):
            g = self.pick(['g1', 'g1', 'g2'])
            return '(let ((%s (lambda () (display "%s ")))) (dynamic-wind %s (lambda () (dynamic-wind %s (lambda () %s) %s)) %s))' % (g, g, g, g, self.lbody(t, d, env), *self.pick([(g, g), ('(lambda () (display "o1"))', g), (g, '(lambda () (display "o2"))')]))
        return '(dynamic-wind (lambda () (display "<%d")%s) (lambda () %s) (lambda () (display "%d>")%s))' % (
            n, pre, self.lbody(t, d, env), n, post)

    def p_catch(self, t, d, env):
        tag = '#t' if self.chance(0.3) else "'" + self.pick(USER_KEYS + ['error', 'wrong-number-of-args'])
        h = self.r.random()
        if h < 0.15:
            handler = '(lambda args %s)' % self.e(t, d - 1, env)
        elif h < 0.22:
            env2 = [v for v in env if v.name not in ('key', 'a1', 'a2')]
            handler = '(lambda (key%s) %s)' % (self.pick(['', ' a1', ' a1 a2', ' a1 . a2']), self.e(t, d - 1, env2))
        elif h < 0.25:
            handler = self.pick(['list', 'vector', 'cons', 'list-copy', 'not', '(lambda () 1)'])
        else:
            env2 = [v for v in env if v.name not in ('key', 'args')]
            handler = '(lambda (key . args) (show-exn key args) %s)' % self.e(t, d - 1, env2)
        thunk = '(lambda () %s)' % self.lbody(t, d, env)
        return '(catch %s %s %s)' % (tag, thunk, handler)

    def p_throw(self, t, d, env):
        args = ' '.join(self.e(self.pick('ilbs'), d - 1, env) for _ in range(self.int(0, 3)))
        return "(throw '%s %s)" % (self.pick(USER_KEYS), args)

    def p_err(self, t, d, env):
        i = self.e('i', d - 1, env)
        return self.pick([
            '(car %s)' % i, '(vector-ref (vector 1 2) %d)' % self.int(2, 5), '(no-such-variable)', 'no-such-variable', '("str" %s)' % i,
            '((lambda (x) x))', "(+ %s 'a)" % i, '(car 1 2)', '(list-ref (list 1 2) %d)' % self.int(2, 9), "(string-ref \"ab\" %d)" % self.int(2, 5),
            '(quotient %s 0)' % i, '(cdr (quote ()))', "(apply car '(1 2))", '((lambda (x y . z) x) %s)' % i, '(vector-set! (vector) 0 %s)' % i,
            '(length (cons 1 2))', "(symbol->string %s)" % i, "(set-car! '() %s)" % i, '(%s 1)' % self.intlit(), '(let ((u)) u)', '(if)'])


def tree(g, d):
    if d <= 0 or g.chance(0.3):
        return g.pick([g.intlit(), 'a', 'b', 'x'])
    return '(' + ' '.join(tree(g, d - 1) for _ in range(g.int(0, 3))) + ')'


def generator_program(g):
    """a tree walker turned into a generator by re-entering continuations"""
    body = g.pick(['(set! n (+ n 1))', '(display (list n t))', '#f'])
    return ['(define n 0)',
            '(define (make-gen tree) (define return #f) (define resume #f) '
            '(define (walk t) (if (null? t) #f (if (pair? t) (begin (walk (car t)) (walk (cdr t))) '
            '(begin %s (call/cc (lambda (k) (set! resume k) (return t))))))) '
            "(lambda () (call/cc (lambda (r) (set! return r) (if resume (resume 'go) (begin (walk tree) (set! resume (lambda (x) (return 'eof))) (return 'eof)))))))" % body,
            "(define g1 (make-gen '%s))" % tree(g, 4), "(define g2 (make-gen '%s))" % tree(g, 3)] + [
            '(%s)' % g.pick(['g1', 'g1', 'g2', 'list (g1) (g2)', 'begin (g2) (g1)', 'let* ((a (g1)) (b (g1))) (list a b)']).replace('list (g1) (g2)', 'list (g1) (g2)')
            for _ in range(g.int(3, 10))] + ['n']


def binding_program(g):
    """re-entered operands, initialisers and steps: every pass has variables of its own, seen through closures kept from it"""
    names = ['a', 'b', 'c', 'd', 'e']
    cnt = [0]

    def val(vis, d):
        c = g.int(0, 99)
        cnt[0] += 1
        if c < 30:
            return '(save %s)' % (val(vis, d - 1) if d > 0 and g.chance(0.3) else cnt[0])
        if c < 50 and vis:
            return g.pick(vis)
        if c < 60:
            return str(cnt[0])
        if c < 75 and d > 0:
            return '(list %s %s)' % (val(vis, d - 1), val(vis, d - 1))
        if c < 82 and vis and d > 0:
            return '(begin (set! %s %s) %s)' % (g.pick(vis), val(vis, d - 1), val(vis, d - 1))
        if d > 0:
            return expr(vis, d - 1)
        return '(save %d)' % cnt[0]

    def probe(vis):
        c = g.int(0, 9)
        if not vis or c < 1:
            return '(keep (lambda () %d))' % g.int(0, 9)
        if c < 8:
            return '(keep (lambda () (list %s)))' % ' '.join(vis[-3:])
        return '(keep (lambda () (set! %s (list %s)) %s))' % (vis[-1], vis[-1], vis[-1])

    def body(vis, d):
        return '%s %s %s' % (probe(vis), g.pick(['', '', probe(vis)]), val(vis, d))

    def two(vis):
        x = g.pick(names)
        y = g.pick([n for n in names if n != x])
        return x, y, [v for v in vis if v not in (x, y)] + [x, y]

    def expr(vis, d):
        x, y, v2 = two(vis)
        c = g.int(0, 15)
        e = lambda: val(vis, d)
        if c < 3:
            return '(let ((%s %s) (%s %s)) %s)' % (x, e(), y, e(), body(v2, d))
        if c == 3:
            return '(let* ((%s %s) (%s %s)) %s)' % (x, e(), y, val([v for v in vis if v != x] + [x], d), body(v2, d))
        if c == 4:
            return '((lambda (%s . %s) %s) %s %s %s)' % (x, y, body(v2, d), e(), e(), e())
        if c == 5:
            return '((lambda %s %s) %s %s)' % (x, body([v for v in vis if v != x] + [x], d), e(), e())
        if c == 6:
            return '(apply (lambda (%s %s) %s) (list %s %s))' % (x, y, body(v2, d), e(), e())
        if c == 7:
            return '(let loop ((%s 0) (%s %s)) %s (if (> %s 1) %s (loop (+ %s 1) %s)))' % (x, y, e(), probe(v2), x, g.pick([x, y]), x, val(v2, 0))
        if c == 8:
            return '(do ((%s 0 (+ %s 1)) (%s %s %s)) ((> %s 1) %s) %s)' % (x, x, y, e(), val(v2, 0), x, g.pick([x, y]), probe(v2))
        if c == 9:
            return '(letrec ((%s (lambda () %s)) (%s %s)) %s (list (%s) %s))' % (x, y, y, e(), probe([v for v in v2 if v != x]), x, y)
        if c == 10:
            return '((lambda (%s) (define %s %s) %s) %s)' % (x, y, val([v for v in vis if v not in (x, y)] + [x], d), body(v2, d), e())
        if c == 11:
            return '(map (lambda (%s) %s) (list %s %s))' % (x, body([v for v in vis if v != x] + [x], d), e(), e())
        if c == 12:
            return '(map (lambda (%s %s) %s) (list %s 1) (list %s 2))' % (x, y, body(v2, d), e(), e())
        if c == 13:
            return '(call-with-values (lambda () (values %s %s)) (lambda (%s %s) %s))' % (e(), e(), x, y, body(v2, d))
        if c == 14:
            return '(begin (for-each (lambda (%s) %s) (list %s %s)) %s)' % (x, body([v for v in vis if v != x] + [x], d), e(), e(), g.int(0, 9))
        return '(mk%d %s %s)' % (g.int(1, 2), e(), e())
    d = g.int(1, 3)
    step = g.pick([1, 2, 3, 5])
    return ["(define ks '())", "(define ps '())", '(define n 0)',
            '(define (save v) (call/cc (lambda (k) (if (< (length ks) 12) (set! ks (cons k ks))) v)))',
            '(define (keep p) (if (< (length ps) 20) (set! ps (append ps (list p)))))',
            '(define (mk1 a b) %s)' % body(['a', 'b'], 1), '(define (mk2 b . c) %s)' % body(['b', 'c'], 1),
            "(let ((r %s)) (set! n (+ n 1)) (if (if (< n %d) (pair? ks) #f) ((list-ref ks (remainder (* n %d) (length ks))) (list 'again n))) (list r (map (lambda (p) (p)) ps)))"
            % (expr([], d), g.int(2, 7), step),
            '(map (lambda (p) (p)) ps)']


def amb_program(g):
    k = g.int(2, 4)
    vs = ['a', 'b', 'c', 'd'][:k]
    lists = ["'(" + ' '.join(str(g.int(0, 6)) for _ in range(g.int(1, 5))) + ')' for _ in vs]
    binds = ' '.join('(%s (amb %s))' % (v, l) for v, l in zip(vs, lists))
    cons = ' '.join('(assert-that %s)' % g.pick(['(< a b)', '(= (+ a b) %d)' % g.int(3, 9), '(odd? a)', '(not (= a b))', '(> (* a b) %d)' % g.int(2, 9),
                                               '(even? (+ %s))' % ' '.join(vs)]) for _ in range(g.int(1, 3)))
    pr = '(display (list %s)) ' % ' '.join(vs) if g.chance(0.5) else ''
    more = ["(let ((r (all-of))) r)"] if False else []
    return ["(define fails '())", '(define tries 0)',
            "(define (fail) (if (null? fails) 'none (let ((k (car fails))) (set! fails (cdr fails)) (k k))))",
            '(define (assert-that x) (set! tries (+ tries 1)) (if (not x) (fail) #t))',
            '(define (amb choices) (let ((cc (call/cc (lambda (k) k)))) (if (null? choices) (fail) (let ((c (car choices))) '
            '(set! choices (cdr choices)) (set! fails (cons cc fails)) c))))',
            '(define found 0)',
            "(let* (%s) (if (< tries 400) (begin %s %s(set! found (+ found 1)) (if (< found %d) (fail) #f) (list found %s)) 'stop))" % (binds, cons, pr, g.int(1, 4), ' '.join(vs)),
            'tries', 'found'] + more


def coroutine_program(g):
    nt = g.int(1, 4)
    bodies = []
    for i in range(nt):
        parts = []
        for _ in range(g.int(1, 3)):
            parts.append(g.pick(['(emit %d)', "(begin (emit %d) (yield))", '(do ((i 0 (+ i 1))) ((= i 2)) (emit (+ %d i)) (yield))',
                                 '(for-each (lambda (x) (emit (+ %d x)) (yield)) (list 1 2 3))', '(emit (+ 1 (begin (yield) %d)))',
                                 '(emit (apply + (map (lambda (x) (yield) (* x %d)) (list 1 2))))',
                                 '(let lp ((i 0)) (if (< i 3) (begin (emit (* i %d)) (yield) (lp (+ i 1)))))']) % (10 * (i + 1)))
        bodies.append('(spawn (lambda () %s))' % ' '.join(parts))
    return ["(define q '())", "(define trace '())", '(define (emit x) (set! trace (cons x trace)))',
            '(define (enq! k) (set! q (append q (list k))))', '(define (deq!) (let ((k (car q))) (set! q (cdr q)) k))',
            "(define (yield) (call/cc (lambda (k) (enq! (lambda () (k 'resumed))) ((deq!)))))",
            '(define done-k #f)', '(define (spawn thunk) (enq! (lambda () (thunk) (finish))))',
            "(define (finish) (if (null? q) (done-k 'all-done) ((deq!))))"] + bodies + [
            '(call/cc (lambda (k) (set! done-k k) (finish)))', '(reverse trace)']


class Stm:
    """statement-oriented programs dense in control transfers; every step writes a mark"""

    def __init__(self, rng, budget, wind=3, mark=2, jump=2, esc=2, catch=0, throw=0, err=0, lit=1):
        self.r = rng
        self.n = 0
        self.b = budget
        self.t = [(3 * lit, self.s_disp), (wind, self.s_wind), (mark, self.s_mark), (jump, self.s_jump), (esc, self.s_esc), (esc * 1.6, self.s_usek),
                  (catch, self.s_catch), (throw, self.s_throw), (err, self.s_err), (0.8, self.s_if), (0.6, self.s_loop), (0.7, self.s_call), (0.6, self.s_let),
                  (0.3, self.s_delay), (0.4, self.s_set),
                  (wind * min(catch, throw, 1), self.s_cw), (wind * 0.3 * min(catch, throw, 1), self.s_after), (wind * min(esc, 0.7), self.s_ew), (wind * min(mark, jump, 0.7), self.s_rw)]
        self.slots = self.r.choice([1, 2, 4])
        self.t = [x for x in self.t if x[0] > 0]
        self.ks = []
        self.fns = []

    def id(self):
        self.n += 1
        return self.n

    def stmts(self, d, lo=1, hi=4):
        return ' '.join(self.stmt(d) for _ in range(self.r.randint(lo, hi)))

    def stmt(self, d):
        self.b -= 1
        if d <= 0 or self.b <= 0:
            return self.r.choice([self.s_disp, self.s_disp, self.s_jump if any(x[1] == self.s_jump for x in self.t) else self.s_disp,
                                  self.s_usek if self.ks else self.s_disp])(0)
        return weighted(self.r, self.t)(d - 1)

    def val(self):
        return self.r.choice([str(self.id()), 'cnt', "'v%d" % self.id(), '(tick)'])

    def s_disp(self, d):
        return self.r.choice(['(display "%d ")' % self.id(), '(begin (display "%d ") %s)' % (self.id(), self.val()), '(tick)'])

    def s_wind(self, d):
        n = self.id()

        def guard(mark):
            x = ''
            if self.r.random() < 0.12:
                x = ' ' + self.stmt(min(d, 1))
            return '(lambda () (display "%s")%s)' % (mark, x)
        a, b = guard('<%d ' % n), guard('%d> ' % n)
        c = self.r.random()
        if c < 0.12:
            a = 'g-in'              # extents that share their thunks
        if c < 0.06 or c > 0.94:
            b = 'g-out'
        return '(dynamic-wind %s (lambda () %s) %s)' % (a, self.stmts(d), b)

    def s_mark(self, d):
        n = self.r.randrange(self.slots)
        return self.r.choice(['(call/cc (lambda (k) (vector-set! ks %d k) %s))', '(see (call/cc (lambda (k) (vector-set! ks %d k) %s)))',
                              '(see (list (tick) (call-with-current-continuation (lambda (k) (vector-set! ks %d k) %s)) (tick)))']) % (n, self.val())

    def s_jump(self, d):
        return '(jump %d %s)' % (self.r.randrange(self.slots), self.val())

    def s_esc(self, d):
        k = 'k%d' % self.id()
        self.ks.append(k)
        x = self.stmts(d)
        self.ks.pop()
        return self.r.choice(['(call/cc (lambda (%s) %s))', '(see (call/cc (lambda (%s) %s)))']) % (k, x)

    def s_usek(self, d):
        if not self.ks:
            return self.s_disp(d)
        k = self.r.choice(self.ks)
        return self.r.choice(['(%s %s)' % (k, self.val()), '(if (odd? (tick)) (%s %s) 0)' % (k, self.val()), '(see (%s (see %s)))' % (k, self.val())])

    def s_catch(self, d):
        tag = self.r.choice(["'a", "'b", "'c", '#t', "'error"])
        h = self.r.choice(['(lambda (key . args) (display key) %s)' % self.stmts(min(d, 2), 1, 2), '(lambda x (display "h%d ") %s)' % (self.id(), self.val()),
                           '(lambda (key . args) (display key) %s)' % self.val()])
        if self.r.random() < 0.2:
            h = self.r.choice(['list', 'list', 'vector', 'cons', '(lambda (key) %s)' % self.val(), '(lambda (key a1) (display a1) %s)' % self.val(), '(lambda (key a1 . r) (display r) %s)' % self.val(), 'car', 'symbol?'] + self.ks[:2] * 2)
        return self.r.choice(['%s', '(see %s)']) % ('(catch %s (lambda () %s) %s)' % (tag, self.stmts(d), h))

    def s_throw(self, d):
        t = "(throw '%s %s)" % (self.r.choice('aabbcd'), ' '.join(self.val() for _ in range(self.r.randint(0, 2))))
        return self.r.choice(['%s', '(if (odd? (tick)) %s 0)', '(if (< (tick) 4) %s 0)']) % t

    def s_err(self, d):
        return self.r.choice(["(car 'x)", '(undefined-function 1)', '(vector-ref (vector) 1)', '((lambda (x) x))', "(+ 'a 1)", '(if (even? (tick)) (car 5) 0)'])

    def s_if(self, d):
        return '(if (%s (tick)) %s %s)' % (self.r.choice(['odd?', 'even?']), self.stmt(d), self.stmt(d))

    def around(self, d, inner):
        n = self.id()
        x = '%s %s %s' % (self.stmts(d, 0, 2), inner, self.stmts(d, 1, 2))
        if self.r.random() < 0.3:
            m = self.id()
            if self.r.random() < 0.3:
                return '(dynamic-wind g-in (lambda () (dynamic-wind g-in (lambda () %s) g-out)) %s)' % (x, self.r.choice(['g-out', '(lambda () (display "%d> "))' % m]))
            x = '(dynamic-wind (lambda () (display "<%d ")) (lambda () %s) (lambda () (display "%d> ")))' % (m, x, m)
        elif self.r.random() < 0.2:
            x = "(catch '%s (lambda () %s) (lambda (key . args) (display key) %s))" % (self.r.choice('abc'), x, self.val())
        return '(dynamic-wind (lambda () (display "<%d ")) (lambda () %s) (lambda () (display "%d> ")))' % (n, x, n)

    def s_cw(self, d):
        t = self.r.choice('abc')
        x = self.around(d, self.r.choice(["(throw '%s %s)", "(if (odd? (tick)) (throw '%s %s) 0)", "(f-throw '%s %s)"]) % (t, self.val()))
        return "(see (catch %s (lambda () %s %s) (lambda (key . args) (display (cons key args)) %s)))" % (
            self.r.choice(["'" + t, "'" + t, '#t']), self.stmts(d, 0, 1), x, self.val())

    def s_after(self, d):
        """a guard that itself throws, with handlers on both sides of the extent"""
        t, u = self.r.choice('ab'), self.r.choice('abc')
        leave = "(throw '%s %s)" % (u, self.val())
        if self.ks and self.r.random() < 0.4:
            leave = '(%s %s)' % (self.r.choice(self.ks), self.val())
        elif self.r.random() < 0.2:
            leave = self.s_jump(0) if any(x[1] == self.s_jump for x in self.t) else '0'
        inner = "(catch '%s (lambda () %s %s) (lambda z (display \"in%d \") %s))" % (t, self.stmts(d, 0, 1), leave, self.id(), self.val())
        a, b = '(display "<<%d ")' % self.id(), "(display \">>\") (throw '%s 'guard)" % t
        if self.r.random() < 0.3:
            b = "(display \">>\") (if (odd? (tick)) (throw '%s 'guard))" % t
        if self.r.random() < 0.15:
            a, b = b.replace('throw', 'begin') if self.r.random() < 0.5 else b, a
        w = '(dynamic-wind (lambda () %s) (lambda () %s) (lambda () %s))' % (a, inner, b)
        return "(see (catch %s (lambda () %s %s) (lambda (key . args) (display (cons key args)) %s)))" % (
            self.r.choice(["'" + t, "'" + t, '#t']), w, self.stmts(d, 0, 1), self.val())

    def s_ew(self, d):
        k = 'k%d' % self.id()
        self.ks.append(k)
        x = self.around(d, self.r.choice(['(%s %s)', '(if (odd? (tick)) (%s %s) 0)', "(for-each (lambda (x) (if (> x 1) (%s %s) 0)) '(1 2 3))"]) % (k, self.val()))
        self.ks.pop()
        return '(see (call/cc (lambda (%s) %s %s)))' % (k, self.stmts(d, 0, 1), x)

    def s_rw(self, d):
        i = self.r.randrange(self.slots)
        x = self.around(d, '(see (call/cc (lambda (k) (vector-set! ks %d k) %s)))' % (i, self.val()))
        return '(begin %s %s (jump %d %s))' % (x, self.stmts(d, 0, 1), i, self.val())

    def s_loop(self, d):
        k = self.r.randint(1, 3)
        if self.r.random() < 0.3:
            return '(do ((i 0 (+ i 1))) ((= i %d) i) %s)' % (k, self.stmts(d, 1, 2))
        return self.r.choice(['(begin (for-each (lambda (x) %s) (list %s)) 0)', '(see (map (lambda (x) %s) (list %s)))']) % (
            self.stmts(d, 1, 2) + ' x', ' '.join(str(self.id()) for _ in range(k)))

    def s_call(self, d):
        if self.fns and self.r.random() < 0.6:
            return '(%s %s)' % (self.r.choice(self.fns), self.val())
        return '(see ((lambda (a . r) %s) %s %s))' % (self.stmts(d, 1, 3), self.val(), self.val())

    def s_let(self, d):
        return '(let ((u %s)) %s (see u))' % (self.stmt(d).replace('(display "', '(out "'), self.stmts(d, 1, 2))

    def s_delay(self, d):
        return '(see (force (delay (begin %s %s))))' % (self.stmts(d, 1, 2), self.val())

    def s_set(self, d):
        return '(begin (set! acc (cons %s acc)) 0)' % self.val()

    def program(self, nf=None, depth=4):
        out = ['(define fuel %d)' % self.r.randint(2, 14), '(define ks (make-vector 4 #f))', '(define cnt 0)', "(define acc '())",
               '(define (tick) (set! cnt (+ cnt 1)) cnt)', '(define (see x) (display x) (display " ") x)', '(define (out x) (display x) 0)', '(define (g-in) (display "<g "))', '(define (g-out) (display "g> "))', '(define (f-throw . a) (see (apply1 a)))', '(define (apply1 a) (throw (car a) (cdr a)))',
               '(define (jump i v) (if (> fuel 0) (if (procedure? (vector-ref ks i)) (begin (set! fuel (- fuel 1)) ((vector-ref ks i) v)) 0) 0))']
        for i in range(self.r.randint(0, 2)):
            b = self.b
            self.b = 8
            x = self.stmts(2, 1, 3)
            self.b = b
            out.append('(define (f%d a) %s a)' % (i, x))
            self.fns.append('f%d' % i)
        n = nf or self.r.randint(1, 4)
        tot = self.b
        for i in range(n):
            self.b = max(5, tot // n)
            out.append('(begin (set! fuel %d) 0)' % self.r.randint(2, 8) if self.r.random() < 0.3 else self.stmt(depth))
            out.append(self.stmt(depth))
        return out + ['(list cnt acc)']


def deep_program(rng, winds=True, catches=True, conts=True):
    """long chains of nested extents, handlers and escape points, left and entered in one go"""
    from .gen import large
    pick = lambda q: q[int(rng.random() * len(q))]
    cnt = [0]
    shared = rng.random() < 0.3
    kinds = ['plain'] + ['wind'] * 4 * winds + ['catch'] * 3 * catches + ['esc', 'mark'] * conts
    if rng.random() < 0.4:
        kinds = [pick(kinds[1:] or kinds)] * 6 + ['plain']

    def chain(n, scope, core):
        """scope: tags and escape points visible; core(scope) makes the innermost expression"""
        fs = []
        scope = {'tags': list(scope['tags']), 'esc': list(scope['esc'])}
        for _ in range(n):
            cnt[0] += 1
            i = cnt[0]
            k = pick(kinds)
            if k == 'wind':
                extra = pick([''] * 8 + [' (set! n (+ n 1))', ' (call/cc (lambda (q) (q 1)))'] + [" (catch 't%d (lambda () (throw 't%d)) (lambda z (display \"!\")))" % (i, i)] * catches)
                fs.append('(dynamic-wind (lambda () (display "<%d ")%s) (lambda () %%s) (lambda () (display ">%d ")))' % (i, extra, i) if not shared or rng.random() < 0.4 else
                          '(dynamic-wind %s (lambda () %%s) %s)' % pick([('gi', 'go'), ('gi', '(lambda () (display ">%d "))' % i), ('(lambda () (display "<%d "))' % i, 'go')]))
            elif k == 'catch':
                t = pick(['t%d' % i] * 6 + [pick(scope['tags'] or ['t0']), '#t'])
                if t != '#t':
                    scope['tags'].append(t)
                h = pick(['(list %d k r)' % i] * 4 + ["(begin (display %d) (cons k r))" % i, "(throw 'h%d k)" % i, '(apply throw k r)' if scope['tags'] else '0'])
                fs.append("(catch %s (lambda () %%s) (lambda (k . r) %s))" % (t if t == '#t' else "'" + t, h))
            elif k == 'esc':
                scope['esc'].append('e%d' % i)
                fs.append('(call/cc (lambda (e%d) %%s))' % i)
            elif k == 'mark':
                fs.append('(begin (display (call/cc (lambda (k) (set! k%d k) "m%d "))) %%s)' % (rng.randrange(3), i))
            else:
                fs.append(pick(['(list %d %%s)' % i, '(let ((v %d)) (cons v %%s))' % i, "(car (map (lambda (x) %s) '(1)))", '(begin (display "p") %s)', '((lambda (x) (list x %%s)) %d)' % i, '(apply list (list %s))', '(if #t %s 0)']))
        e = core(scope)
        for f in reversed(fs):
            e = f % e
        return e

    def core(scope):
        c = rng.random()
        cnt[0] += 1
        if catches and c < 0.35:
            args = ' '.join(str(i) for i in range(large(rng, 30, 1) - 1))
            t = pick(scope['tags']) if scope['tags'] and rng.random() < 0.9 else 'nobody'
            return pick(["(throw '%s %s)" % (t, args), "(throw '%s %s)" % (t, args), "(car '())", "(apply throw '%s '(%s))" % (t, args)])
        if conts and c < 0.6 and scope['esc']:
            return '(%s (list %d n))' % (pick(scope['esc']), cnt[0])
        if conts and c < 0.8:
            return '(begin (if (< n %d) (begin (set! n (+ n 1)) (if k%d (k%d (list "j" n))))) n)' % (rng.randint(2, 8), *([rng.randrange(3)] * 2))
        if conts:
            return '(call/cc (lambda (k) (set! k%d k) %d))' % (rng.randrange(3), cnt[0])
        return '(begin (display "core ") %d)' % cnt[0]

    def tree(scope, d):
        n = large(rng, 30, 1)
        if d == 0 or rng.random() < 0.3:
            return chain(n, scope, core)
        return chain(n, scope, lambda sc: pick(['(list %s)', '(begin %s)']) % ' '.join(tree(sc, d - 1) for _ in range(rng.randint(2, 3))) if rng.random() < 0.8 else core(sc))
    forms = ['(define n 0)', '(define (gi) (display "<g "))', '(define (go) (display "g> "))', '(define k0 #f)', '(define k1 #f)', '(define k2 #f)']
    for _ in range(rng.randint(1, 3)):
        e = tree({'tags': [], 'esc': []}, rng.choice([0, 1, 1, 2]))
        forms.append(e)
        if conts and rng.random() < 0.6:
            forms.append('(begin (if (< n %d) (begin (set! n (+ n 1)) (if k%d (k%d (list "t" n))))) n)' % (rng.randint(3, 10), *([rng.randrange(3)] * 2)))
    forms.append("(list n (catch 'last (lambda () (throw 'last n)) list))")
    if rng.random() < 0.3:
        import re
        long = pick(['a-key-with-a-long-name-', 'error', 'error-', 'key', 'T', 'quite-a-long-name-for-a-key-is-no-reason-to-confuse-it-with-another-of-the-same-length-'])
        forms = [re.sub(r"'t(\d+)", r"'%s\1" % long, f) for f in forms]
    return forms
