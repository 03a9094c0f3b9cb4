from vlib.runner import Check
from vlib.gens import Ctl
from vlib.gen import V, large


class M(Ctl):
    """programs whose expressions are largely macro uses; the macros are chosen and written at random"""

    def __init__(self, rng, budget):
        feats = set()
        if rng.random() < 0.2:
            feats |= {'esc'}
        if rng.random() < 0.15:
            feats |= {'catch', 'throw'}
        Ctl.__init__(self, rng, budget, feats)
        self.types = 'iiilbu'
        self.have = {}
        self.order = []

    def prelude(self):
        return Ctl.prelude(self) + ['(define log-count 0)', '(define (note! x) (set! log-count (+ log-count 1)) (display x) x)',
                                    "(define (wrap-list x n) (if (= n 0) x (list 'list (wrap-list x (- n 1)))))"]

    # each entry: name -> (definition texts, {type: fn})
    def lib(self):
        E = self.e
        dm = lambda sig, body: ('(define-macro %s %s)' % (sig, body)) if self.chance(0.8) or ' . ' in sig and False else '(define-macro %s (lambda (%s) %s))' % (
            sig[1:-1].split(' ', 1)[0], sig[1:-1].split(' ', 1)[1] if ' ' in sig else '', body)
        ident = lambda t, d, env: self.pick([v.name for v in self.lookup(env, t) if v.mut and v.name not in ('tmp', 'tmpm')] or [None])
        L = {}
        L['my-if'] = (dm('(my-if c a b)', self.pick(['`(cond (,c ,a) (else ,b))', "(list 'if c a b)", '`(if (not ,c) ,b ,a)'])), {
            '*': lambda t, d, env: '(my-if %s %s %s)' % (E('b', d, env), E(t, d, env), E(t, d, env))})
        L['my-unless'] = (dm('(my-unless c . body)', self.pick(['`(if ,c #f (begin ,@body))', "(cons 'cond (list (list c #f) (cons 'else body)))"])), {
            '*': lambda t, d, env: '(begin (my-unless %s %s) %s)' % (E('b', d, env), self.bodytext('i', d, env), E(t, d, env))})
        L['my-let1'] = (dm('(my-let1 name val . body)', self.pick(['`(let ((,name ,val)) ,@body)', '`((lambda (,name) ,@body) ,val)', "(append (list 'let (list (list name val))) body)"])), {
            '*': self.u_let1})
        L['inc!'] = (dm('(inc! v)', self.pick(['`(set! ,v (+ ,v 1))', "(list 'set! v (list '+ v 1))"])), {
            'i': lambda t, d, env: (lambda n: n and '(begin (inc! %s) %s)' % (n, n))(ident('i', d, env))})
        L['my-or2'] = (dm('(my-or2 a b)', '`(let ((tmpm ,a)) (if tmpm tmpm ,b))'), {
            'b': lambda t, d, env: '(my-or2 %s %s)' % (E('b', d, env), E('b', d, env))})
        L['my-and'] = (dm('(my-and . l)', "(if (null? l) #t (if (null? (cdr l)) (car l) `(if ,(car l) (my-and ,@(cdr l)) #f)))"), {
            'b': lambda t, d, env: '(my-and %s)' % ' '.join(E('b', d, env) for _ in range(self.int(0, 4)))})
        L['twice'] = (dm('(twice x)', self.pick(['`(begin ,x ,x)', "(list 'begin x x)"])), {
            '*': lambda t, d, env: '(twice %s)' % E(t, d, env)})
        L['quoted'] = (dm('(quoted x)', self.pick(["`(quote ,x)", "(list 'quote x)", "`',x"])), {
            'u': lambda t, d, env: '(quoted %s)' % self.pick([self.datum(2), self.e('i', 2, env), '(twice 1)', '(quoted (quoted a))', '(my-if a b c)'])})
        L['sum-of'] = (dm('(sum-of . xs)', self.pick(['`(+ ,@xs)', "(if (null? xs) 0 (list '+ (car xs) (cons 'sum-of (cdr xs))))"])), {
            'i': lambda t, d, env: '(sum-of %s)' % ' '.join(E('i', d, env) for _ in range(self.int(0, 4)))})
        L['nargs'] = (dm('(nargs . xs)', '(length xs)'), {
            'i': lambda t, d, env: '(nargs %s)' % ' '.join(self.pick(['undefined-var', '(undefined-fn 1)', '(car 5)', 'x', '1', "'a", '(note! 1)']) for _ in range(self.int(0, 4)))})
        L['my-list'] = (dm('(my-list a . more)', self.pick(['`(cons ,a (list ,@more))', '`(list ,a ,@more)'])), {
            'l': lambda t, d, env: '(my-list %s)' % ' '.join(E('i', d, env) for _ in range(self.int(1, 4)))})
        L['for'] = (dm('(for v from to body)', self.pick(['`(let floop ((,v ,from)) (if (< ,v ,to) (begin ,body (floop (+ ,v 1))) 0))', '`(do ((,v ,from (+ ,v 1))) ((>= ,v ,to) 0) ,body)'])), {
            'i': self.u_for})
        L['nest'] = (dm('(nest n x)', "(wrap-list x n)"), {'u': lambda t, d, env: '(nest %d %s)' % (self.int(0, 4), E('i', d, env))})
        L['rev-args'] = (dm('(rev-args f . xs)', '(cons f (reverse xs))'), {
            'l': lambda t, d, env: '(rev-args list %s)' % ' '.join(E('i', d, env) for _ in range(self.int(0, 4))),
            'i': lambda t, d, env: '(rev-args - %s %s)' % (E('i', d, env), E('i', d, env))})
        L['five'] = (dm('(five)', self.pick(['5', '(+ 2 3)', "'(+ 2 3)", "(list '+ 4 1)"])), {'i': lambda t, d, env: '(five)'})
        L['here'] = (dm('(here)', "'hvar"), {'i': lambda t, d, env: '(let ((hvar %s)) %s)' % (E('i', d, env), self.pick(['(here)', '(+ (here) 1)', '(let ((hvar (+ (here) 1))) (here))', '((lambda (x) (+ x (here))) 1)']))})
        L['my-case'] = (dm('(my-case e . cls)', "`(let ((key% ,e)) (cond ,@(map (lambda (c) (if (eq? (car c) 'else) c (cons (list 'memv 'key% (list 'quote (car c))) (cdr c)))) cls)))"), {
            '*': lambda t, d, env: '(my-case (modulo %s 4) ((0 1) %s) ((2) %s) (else %s))' % (E('i', d, env), E(t, d, env), E(t, d, env), E(t, d, env))})
        L['def-const'] = (dm('(def-const n v)', '`(define ,n ,v)'), {
            '*': lambda t, d, env: '((lambda () (def-const dc %s) %s))' % (E('i', d, env), self.bodytext(t, d, [v for v in env if v.name != 'dc'] + [V('dc', 'i')]))})
        L['def-fn'] = (dm('(def-fn n args . body)', '`(define (,n ,@args) ,@body)'), {
            '*': lambda t, d, env: '((lambda () (def-fn df (q) %s) %s))' % (E('i', d, env + [V('q', 'i')]), self.bodytext(t, d, [v for v in env if v.name != 'df'] + [V('df', ('f', ('i',), None, 'i'), False)]))})
        L['my-let*'] = (dm('(my-let* bs . body)', "(if (null? bs) `(let () ,@body) `(let (,(car bs)) (my-let* ,(cdr bs) ,@body)))"), {'*': self.u_letstar})
        L['delay-it'] = (dm('(delay-it x)', '`(lambda () ,x)'), {'*': lambda t, d, env: '((delay-it %s))' % E(t, d, env)})
        L['swap!'] = (dm('(swap! a b)', '`(let ((tmpm ,a)) (set! ,a ,b) (set! ,b tmpm))'), {'i': self.u_swap})
        L['with-vec'] = (dm('(with-vec a b)', '`(vector-ref (vector ,a ,b) 1)'), {'*': lambda t, d, env: '(with-vec %s %s)' % (E('i', d, env), E(t, d, env))})
        L['mut-rest'] = (dm('(mut-rest . xs)', self.pick(["(begin (if (pair? xs) (set-car! xs (list 'list (car xs) 1))) (cons 'list xs))", "(begin (if (pair? xs) (set-cdr! xs (list 7))) (cons 'list xs))", "(begin (set-car! (list-tail xs (- (length xs) 1)) ''last) (cons 'list (reverse xs)))", "(let ((e (list-tail xs (- (length xs) 1)))) (set-car! e (list '+ (car e) 1)) (set-cdr! e (list 8)) (cons 'list xs))"])), {
            'l': lambda t, d, env: '(mut-rest %s)' % ' '.join(E('i', d, env) for _ in range(self.int(1, 4))),
            'i': lambda t, d, env: '((lambda () (define (mr a) (mut-rest a %s)) (length (list %s))))' % (E('i', d, env), ' '.join('(mr %d)' % self.int(0, 9) for _ in range(self.int(2, 3))))})
        L['mut-copy'] = (dm('(mut-copy a . xs)', "(let ((ys (append xs (list a)))) (set-car! ys 0) `(list ,@ys))"), {
            'l': lambda t, d, env: '(mut-copy %s)' % ' '.join(E('i', d, env) for _ in range(self.int(2, 4)))})
        L['qv'] = (dm('(qv a)', "`'#(,a (x ,a))"), {'u': lambda t, d, env: '(qv %s)' % self.datum(1)})
        return L

    def u_let1(self, t, d, env):
        ty = self.vt()
        n = self.name()
        return '(my-let1 %s %s %s)' % (n, self.e(ty, d, env), self.lbody(t, d, env + [V(n, ty)]))

    def u_letstar(self, t, d, env):
        bs = []
        env2 = list(env)
        for _ in range(self.int(0, 3)):
            n = self.name()
            bs.append('(%s %s)' % (n, self.e('i', d, env2)))
            env2.append(V(n, 'i'))
        return '(my-let* (%s) %s)' % (' '.join(bs), self.bodytext(t, d, env2))

    def u_for(self, t, d, env):
        return '(for fv %d %d %s)' % (self.int(0, 2), self.int(0, 4), self.stmt(d, [v for v in env if v.name != 'fv'] + [V('fv', 'i', False)]))

    def u_swap(self, t, d, env):
        vs = [v.name for v in self.lookup(env, 'i') if v.mut]
        if len(vs) < 2:
            return None
        a, b = self.pick(vs), self.pick(vs)
        return '(begin (swap! %s %s) (- %s %s))' % (a, b, a, b)

    def control(self):
        return Ctl.control(self) + [(12 if self.have else 0, self.p_macro)]

    def p_macro(self, t, d, env):
        seen = set()
        ms = []
        for v in reversed(env):
            if v.name not in seen:
                seen.add(v.name)
                if type(v.type) is dict:
                    ms.append((v.name, v.type))
        ms += [(n, u) for n, u in self.have.items() if n not in seen]
        ms = [(n, u) for n, u in ms if t in u or '*' in u]
        if not ms or type(t) is not str:
            return None
        n, u = self.pick(ms)
        self.budget -= 1
        return (u[t] if t in u else u['*'])(t, d, env)

    def definition(self, d, env, local=False):
        if local and self.chance(0.2):
            lib = self.lib()
            n = self.pick(sorted(lib))
            if not self.shadowed(env, n) and not (n in self.have and n in ('my-and', 'sum-of', 'my-let*')):
                return lib[n][0], V(n, lib[n][1], False)
        return Ctl.definition(self, d, env, local)

    def defmacro(self):
        lib = self.lib()
        n = self.pick(sorted(lib))
        text, uses = lib[n]
        if n == 'my-let*':
            pass
        self.have[n] = uses
        return text

    def wide(self):
        """a macro with many parameters, many operands or a long chain of expansions"""
        r = self.r
        n = large(r, 150)
        c = r.randrange(6)
        ops = ['(+ %d 1)' % i if r.random() < 0.3 else str(i) for i in range(n)]
        if c == 0:
            ps = ['p%d' % i for i in range(n)]
            return ['(define-macro (wide %s) %s)' % (' '.join(ps), self.pick(['`(list %s)' % ' '.join(',' + p for p in ps), '(list (quote -) %s)' % ' '.join(reversed(ps)), '`(list ,%s ,%s)' % (ps[-1], r.choice(ps))])), '(wide %s)' % ' '.join(ops)]
        if c == 1:
            k = r.randint(0, min(n, 20))
            ps = ['p%d' % i for i in range(k)]
            return ['(define-macro (wide %s. rest) (list (quote list) (length rest) (cons (quote +) rest)%s))' % (''.join(p + ' ' for p in ps), ''.join(' ' + p for p in ps)), '(wide %s)' % ' '.join(ops)]
        if c == 2:
            return ["(define-macro (count-down n . acc) (if (= n 0) (cons 'list acc) (cons 'count-down (cons (- n 1) (cons n acc)))))", '(count-down %d)' % n]
        if c == 3:
            k = min(n, 60)
            return ['(define-macro (m%d x) %s)' % (i, ('(list (quote m%d) (list (quote +) x 1))' % (i - 1)) if i else 'x') for i in range(k)] + ['(m%d 0)' % (k - 1), '(+ %s)' % ' '.join('(m%d %d)' % (r.randrange(k), i) for i in range(5))]
        if c == 4:
            t = '1'
            for i in range(min(n, 60)):
                t = '(wrap1 %s)' % t
            return [self.pick(["(define-macro (wrap1 x) `(+ 1 ,x))", "(define-macro (wrap1 x) (list 'let (list (list 'v x)) '(+ v 1)))", "(define-macro (wrap1 x) `((lambda (v) (* v 1)) ,x))"]), t]
        name = self.pick(['a-macro-with-quite-a-long-name-', 'm' * r.randint(30, 300)])
        return ["(define-macro (%s%d x) `(list %d ,x))" % (name, i, i) for i in range(3)] + ['(list %s)' % ' '.join('(%s%d %d)' % (name, i, i) for i in (0, 2, 1, 0))]

    def program(self, nforms, depth):
        env = []
        forms = []
        for _ in range(self.int(1, 4)):
            forms.append(self.defmacro())
        for _ in range(nforms):
            c = self.r.random()
            if c < 0.2:
                forms.append(self.defmacro())
            elif c < 0.5:
                s, v = self.definition(depth, env)
                env = [w for w in env if w.name != v.name] + [v]
                forms.append(s)
            elif c < 0.57:
                # the body refers to a macro defined only afterwards
                forms += ['(define (late x) (late-macro x (+ x 1)))', self.pick(['(define-macro (late-macro a b) `(list ,b ,a))', '(define-macro (late-macro . l) `(+ ,@l))']), '(late %d)' % self.int(0, 5)]
                if self.chance(0.5):
                    forms += ["(define-macro (late-macro a b) `(- ,a ,b))"]
            elif c < 0.62:
                forms += ['(define-macro (def-mac name val) `(define-macro (,name) ,val))', '(def-mac mm%d %d)' % ((k := self.int(0, 3)), self.int(0, 9)), '(+ (mm%d) 1)' % k]
            elif c < 0.67 and self.have:
                n = self.pick(sorted(self.have))
                forms.append(self.pick(["'(%s a b)", "(car '(%s 1 2))", "(list '%s 1)", "`(%s ,(+ 1 2) x)", "(let ((%s list)) (%s 1 2 3))" % (n, '%s'), "'((%s) #(%s 1))" % (n, '%s'),
                                                "((lambda (%s) (%s 4 5)) +)" % (n, '%s'), "(eval '(%s 1))"]) % n)
            elif c < 0.68:
                forms += self.wide()
            elif c < 0.72 and self.have:
                n = self.pick(sorted(self.have))
                forms.append("(catch #t (lambda () %s) (lambda (k . a) 'caught))" % self.pick(['(%s)', '(%s 1)', '(%s 1 2)', '(%s 1 2 3 4)', '(%s 1 2 3)']) % n)
            else:
                forms.append(self.e(self.vt(), depth, env))
        forms.append('log-count')
        return forms


class P15(Check):
    ID = 'P15'
    RULE = ('random programs over macros written at random in several styles (fixed, rest, recursive, expanding to definitions, to other macros and to macro definitions), used in every '
            'position, shadowed, quoted, redefined and defined after the procedures that use them; non-trivial: at least two macro uses are expanded')
    N = {'quick': 40000, 'thorough': 600000}

    def gen(self, rng):
        g = M(rng, rng.choice([30, 60, 100]))
        pre = g.prelude()
        return {'forms': pre + g.program(rng.randint(2, 7), rng.choice([3, 4, 5])), 'steps': 30000}

    def nontrivial(self, case, m):
        return m.stats.get('macro-use', 0) >= 2


CHECK = P15()
