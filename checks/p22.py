import re
from vlib import drv, model, sx
from vlib.apimodel import ApiMachine
from vlib.gen import V, large, weighted
from vlib.gens import Ctl
from vlib.model import Pair, MStr, Vec, Sym, Char, Prim, Closure, Cont, Variable, Hash, NIL, Unsupported, is_num
from vlib.modmodel import Mod
from vlib.runner import Check, Res, drv_status, brief, errors_of
from vlib import shrink as sh

BAD = (model.SchemeError, Unsupported, sx.ReadError, RecursionError, AttributeError, IndexError, TypeError, KeyError, ValueError)
KEYS = ['oops', 'my-error', 'stop', 'k1', 'error', 'wrong-number-of-args']
VARS = ['v0', 'v1', 'v2', 'v3', 'v-4!']
MODS = ['(m1)', '(m2)', '(app util)']


class T22(Ctl):
    """program text that calls the registered C functions"""

    def __init__(self, rng, budget, feats):
        Ctl.__init__(self, rng, budget, feats, mark=2, jump=1.5, wind=2, catch=1.5, throw=1, err=0.7)
        for t in 'ilbs':
            self.extra[t] = [(1.2, lambda d, env, t=t: self.c_any(t, d, env))]
        self.extra['i'].append((1, lambda d, env: '(csum %s)' % self.e('l', d, env)))
        self.extra['y'] = [(2, self.c_sym)]
        self.extra['u'] = [(3, self.c_u)]
        self.eff = 0.08

    def c_any(self, t, d, env):
        p = self.pick
        c = self.r.random()
        a = p('ilb')
        if c < 0.25:
            return '(ccall %s %s)' % (self.lam(('f', (a,), None, t), d - 1, env), self.e(a, d - 1, env))
        if c < 0.4:
            b = p('ib')
            return '(ccall2 %s %s %s)' % (self.lam(('f', (a, b), None, t), d - 1, env), self.e(a, d - 1, env), self.e(b, d - 1, env))
        if c < 0.6:
            return '(capply %s (list %s))' % (self.lam(('f', (a,), 'i', t), d - 1, env), ' '.join([self.e(a, d - 1, env)] + [self.e('i', d - 2, env) for _ in range(self.int(0, 2))]))
        if c < 0.75:
            return '(cdepth %d (lambda () %s))' % (self.int(0, 12), self.bodytext(t, d, env))
        if c < 0.85:
            return '(cset %d %s)' % (self.int(0, 5), self.e(t, d, env))
        if c < 0.93:
            return "(clazy %s (lambda () %s))" % (p(['#t', "'oops", "'error", "'k1"]), self.bodytext(t, d, env))
        return "(cthrow '%s (list %s))" % (p(KEYS[:4]), ' '.join(self.e(p('isb'), d - 1, env) for _ in range(self.int(0, 2)))) if self.chance(0.4) else \
            "(capply (lambda () %s) '())" % self.e(t, d, env)

    def c_sym(self, d, env):
        p = self.pick
        c = self.r.random()
        if c < 0.5:
            return "(ccatch %s (lambda () %s))" % (p(['#t', '#t', "'oops", "'error"]), p([self.e('y', d, env), self.p_throw('i', d, env), self.p_err('i', d, env),
                           "(cthrow '%s (list 1 \"m\"))" % p(KEYS[:4]), '(begin (display (car 5)) (quote no))']))
        if c < 0.6:
            return "(cmsg %s (lambda () %s))" % (p(['#t', '#t', "'oops", "'k1"]), p([self.e('y', d, env), self.p_throw('i', d, env), "(throw '%s \"%s\" 1)" % (p(KEYS[:4]), 'long message ' * large(self.r, 300, 1)), "(cthrow '%s (list (make-string %d #\\x)))" % (p(KEYS[:4]), large(self.r, 3000))]))
        if c < 0.7:
            return p(["(ceval '(car 5))", "(ceval '(throw 'oops 1))", "(ceval ''fine)", "(ceval '(car '(y)))"]) if self.chance(0.5) else "(ceval '%s)" % p([self.p_throw('i', 1, []), self.p_err('i', 1, [])])
        return p(['(cevals "(car 5)")', '(cevals "(quote good)")', '(cevals "(throw (quote stop) 1)")', '(cevals "(car)")', '(cevals "(no-such-fn)")'])

    def c_u(self, d, env):
        p = self.pick
        return p(['(c0)', '(c1 %s)' % self.e(p('ilsy'), d, env), '(c2 %s %s)' % (self.e(p('is'), d, env), self.e(p('yu'), d, env)),
                  '(c3 %s)' % ' '.join(self.e(p('isb'), d, env) for _ in range(3)), '(crest %s)' % ' '.join(self.e(p('isb'), d, env) for _ in range(self.int(0, 4))),
                  '(map c1 %s)' % self.e('l', d, env), '(apply c2 (list 1 %s))' % self.e('i', d, env), '(cget %d)' % self.int(0, 9), '(c1)', '(c2 1)', '(c3 1 2 3 4)', '(apply c0 (list 1))',
                  '(ccall c1 %s)' % self.e('u', d, env), '(ccall2 c2 1 2)', '(capply c3 (list 1 2 3))', '(capply crest %s)' % self.e('l', d, env), "(ccall 'c1 1)", '(ccall car %s)' % self.e(p('li'), d, env),
                  "(capply apply (list + '(1 2)))", '(map (lambda (x) (ccall c1 x)) %s)' % self.e('l', d, env), '(map csum (list %s))' % self.e('l', d, env),
                  '(list %s)' % ' '.join(self.pick(VARS) for _ in range(2))])


class H22:
    def __init__(self, rng, big=False):
        self.r = rng
        self.cmds = []
        self.fail = 0
        self.reset()
        self.names = []
        self.used = set()
        self.nfile = 0
        feats = set()
        c = rng.random()
        for f, w in (('mark', 0.35), ('esc', 0.3), ('wind', 0.3), ('catch', 0.4), ('throw', 0.5), ('err', 0.4)):
            if rng.random() < w:
                feats.add(f)
        if 'mark' in feats:
            feats.add('jump')
        self.t = T22(rng, 1, feats)
        self.env = []
        self.deep = rng.random() < 0.4

    def reset(self):
        self.m = ApiMachine(15000)

    def pick(self, s):
        return s[int(self.r.random() * len(s))]

    def chance(self, p):
        return self.r.random() < p

    def add(self, *c):
        c = [str(x) for x in c]
        try:
            recs = self.m.command(c)
        except BAD:
            self.fail += 1
            if self.fail > 25:
                raise Unsupported('generator')
            self.reset()
            for d in self.cmds:
                self.m.command(d)
            return None
        self.cmds.append(c)
        return recs

    def depth(self):
        return self.pick([0, 0, 0, 1, 2, 5, 40, 250]) if self.deep else 0

    def dst(self):
        return self.r.randint(0, 9)

    def slots(self, f=lambda v: True):
        return [i for i, v in enumerate(self.m.slots[:12]) if f(v)]

    def slot(self, f):
        s = self.slots(f)
        return self.pick(s) if s else None

    def any(self):
        return self.r.randint(0, 9)

    # ---- commands ----
    def text(self):
        t = self.t
        t.budget = self.pick([8, 15, 30])
        c = self.r.random()
        if c < 0.3:
            s, v = t.definition(3, self.env)
            return s, v
        if c < 0.45:
            return t.c_u(2, self.env), None
        if c < 0.55:
            return t.c_sym(2, self.env), None
        if c < 0.62:
            return self.pick(['(list %s %s)' % (self.pick(VARS), self.pick(VARS)), '(set! %s (list 1 2))' % self.pick(VARS), '(%s 1)' % self.pick(VARS), '(cset %d car)' % self.any(), '(cset %d (lambda (x) (list x x)))' % self.any(),
                              "(cset %d '(1 2 3))" % self.any(), '(cset %d (lambda args (display args) (apply + args)))' % self.any(), "(cset %d (list 'quote (list 1 2)))" % self.any(),
                              "(cset %d (list '+ 1 2))" % self.any(), '(cset %d "text")' % self.any(), "(cset %d (list 'car 5))" % self.any(), '(cset %d (lambda () (throw (quote oops) 1 "m")))' % self.any(),
                              '(cset %d (lambda () (car 5)))' % self.any(), '(cset %d (lambda () (display "in") 5))' % self.any(), '(cset %d (make-hash-table 7))' % self.any(), '(cset %d 1.5)' % self.any(),
                              '(cset %d (vector 1 2))' % self.any(), '(cset %d #\\x)' % self.any(), '(cset %d (call/cc (lambda (k) k)))' % self.any(), "(throw 'k1 %s)" % self.pick(['"message"', '1 "second"', "'a 'b", '']),
                              '(dynamic-wind (lambda () (display "in")) (lambda () (car 5)) (lambda () (display "out")))', '(cset %d (call/cc (lambda (k) (lambda (x) (k x)))))' % self.any()]), None
        ty = t.vt()
        return t.e(ty, 3, self.env), None

    def note(self, v):
        if v is not None:
            self.env = [w for w in self.env if w.name != v.name] + [v]

    def evaluation(self):
        r = self.r
        s, v = self.text()
        c = r.random()
        dst = self.pick([-1, self.dst()])
        if c < 0.45:
            ok = self.add('eval', dst, self.depth(), s)
        elif c < 0.7:
            ok = self.add('evala', dst, self.depth(), s)
        elif c < 0.78:
            ok = self.add('evalc', dst, self.depth(), s if self.chance(0.5) else s + self.pick(['\n', ' ; note\n']) + self.text()[0])
        elif c < 0.93 or v:
            ts = [s] + [self.text()[0] for _ in range(r.randint(0, 2))]
            if self.chance(0.02):
                ts = [s] + ['(set! %s (+ 1 %d))' % (self.pick(VARS), i) for i in range(large(r, 400))]
            self.nfile += 1
            ok = self.add(self.pick(['evalfile', 'parsefile']), dst, self.depth(), 'f%d.scm' % self.nfile, self.pick(['\n', ' ', '\n\n; c\n']).join(ts) + self.pick(['', '\n']))
        else:
            d = self.dst()
            if self.add('eval', d, self.depth(), '(lambda () %s)' % s) is None:
                return
            for _ in range(r.randint(1, 2)):
                self.add('call', self.dst(), self.depth(), d)
            return
        if ok is not None and v is not None and not any(x[0] == 'E' for x in ok):
            self.note(v)

    def construct(self):
        r = self.r
        d = self.dst()
        big = lambda: self.pick([r.randint(-9, 9), r.randint(-1000, 1000), 2 ** 31 - 1, -2 ** 31, r.randint(-2 ** 31, 2 ** 31 - 1)])
        weighted(r, [
            (2, lambda: self.add('int', d, 0, big())),
            (1, lambda: self.add('long', d, 0, self.pick([big(), 2 ** 62, -2 ** 63, 2 ** 63 - 1, r.randint(-2 ** 63, 2 ** 63 - 1)]))),
            (1, lambda: self.add('double', d, 0, repr(self.pick([0.0, 1.5, -2.25, 1e10, 1 / 3.0, r.uniform(-100, 100), 1e-9, 123456.75])), r.randint(0, 1))),
            (1, lambda: self.add('char', d, 0, self.pick([97, 32, 10, 65, 48, 40, 126, r.randint(33, 126)]))),
            (0.6, lambda: self.add('bool', d, 0, r.randint(0, 1))), (0.6, lambda: self.add('nil', d, 0)),
            (2, lambda: self.add('str', d, 0, self.pick(['', 'a', 'hello', 'two words', 'q"uote\\', 'line\n', '\xe4\xff', 'x' * 300, '(1 2)', 'tab\t', ''.join(r.choice('abc "\\\n\xe9') for _ in range(large(r, 3000)))]), r.randint(0, 2))),
            (2, lambda: self.add('sym', d, 0, self.pick(['a', 'foo', 'car', 'v0', 'list', 'x1', 'two-words!', 'k1', 'quote', 'if', 'lambda', '+', 'define', self.pick(['long-symbol-', 'k']) * large(r, 200)]), r.randint(0, 3))),
            (2, lambda: self.add('cons', d, 0, self.any(), self.any())),
            (3, lambda: self.add(*(lambda n: ['list%d' % n, d, 0] + [self.any() for _ in range(n)])(r.randint(1, 3)))),
        ])()

    def form(self):
        """code assembled from C: (op args ...) in slot 10"""
        op = self.pick(['+', 'list', 'car', 'quote', 'c2', 'if', 'cons', 'c1', 'crest', 'length', 'display', 'begin', 'vector', 'throw', 'define'])
        self.add('sym', 10, 0, op, 0)
        n = self.r.randint(1, 2) if op != 'define' else 2
        a = [self.any() for _ in range(n)]
        if op == 'define':
            self.add('sym', 11, 0, self.pick(VARS), 0)
            a[0] = 11
        if self.chance(0.4):
            self.add('sym', 11, 0, self.pick(['x', 'a', 'quote', 'v1']), 0)
            if self.chance(0.5):
                self.add('sym', 10, 0, 'quote', 0)
                self.add('list2', 11, 0, 10, self.any())
                self.add('sym', 10, 0, op, 0)
            a[-1] = 11
        self.add('list%d' % (n + 1), 10, 0, 10, *a)
        self.add('evalslot', self.dst(), self.depth(), 10)

    def calls(self):
        r = self.r
        isp = lambda v: type(v) in (Closure, Prim, Cont)
        f = self.slot(isp)
        if f is None or self.chance(0.06):
            f = self.any()
        v = self.m.slots[f]
        if type(v) is Closure:
            n = len(v.req) + (r.randint(0, 2) if v.rest else 0)
        elif type(v) is Prim:
            n = v.lo if v.hi is not None else v.lo + r.randint(0, 2)
        else:
            n = 1
        if self.chance(0.1):
            n = r.randint(0, 3)
        d = self.pick([-1, self.dst(), self.dst()])
        if n > 3 or self.chance(0.25):
            l = self.slot(lambda x: x is NIL or type(x) is Pair)
            if l is not None:
                self.add('apply', d, self.depth(), f, l)
            return
        c = r.random()
        args = [self.any() for _ in range(n)]
        if c < 0.7 or n:
            self.add('call', d, self.depth(), f, *args)
        elif c < 0.87:
            self.add('catch', d, self.depth(), self.pick(['#t', '#t'] + KEYS), f, self.pick('kam'))
        else:
            self.add('lazy', d, self.depth(), self.pick(['#t', '#t'] + KEYS), f, self.pick('lw'))

    def konts(self):
        # a continuation kept by the host and entered again in a later call, from the same or another place
        r = self.r
        i = r.randint(12, 14)
        x = self.t.e('i', 2, self.env) if self.chance(0.5) else str(r.randint(0, 9))
        cap = '(call/cc (lambda (k) (cset %d k) %s))' % (i, x)
        for _ in range(r.randint(1, 3)):
            cap = self.pick(['(+ 1 %s)', '(list %s 2)', '(ccall (lambda (x) (list x x)) %s)', '(cdepth 4 (lambda () %s))', '(ccall2 (lambda (a b) (cons a b)) 1 %s)', '(dynamic-wind (lambda () (display "[")) (lambda () %s) (lambda () (display "]")))',
                             "(ccatch 'oops (lambda () %s))", "(clazy 'oops (lambda () %s))", '(let ((a 1)) (display %s) a)', '(map (lambda (x) (cons x %s)) (list 1 2))', '(capply list (list 1 %s))', "(catch #t (lambda () %s) (lambda a (car a)))",
                             "(begin (display %s) (car 5))", "(begin (throw 'oops %s 1))", '(ceval (list (quote quote) %s))', "(vector %s)"]) % cap
        site = self.pick(['eval', 'evala', 'evalfile', 'parsefile', 'call', 'catch', 'lazy', 'evalc'])
        dep = self.pick([0, 0, 2, 9])
        dst = self.pick([-1, self.dst()])

        def run(text, dep):
            if site in ('eval', 'evala', 'evalc'):
                return self.add(site, dst, dep, text)
            if site in ('evalfile', 'parsefile'):
                self.nfile += 1
                return self.add(site, dst, dep, 'f%d.scm' % self.nfile, self.pick(['%s', '(display "a") %s', '%s (display "z")']) % text)
            if self.add('eval', 11, 0, '(lambda () %s)' % text) is None:
                return None
            if site == 'call':
                return self.add('call', dst, dep, 11)
            return self.add(site, dst, dep, self.pick(['#t', 'oops']), 11, 'k' if site == 'catch' else 'w')
        if run(cap, dep) is None:
            return
        for _ in range(r.randint(1, 3)):
            for _ in range(r.randint(0, 2)):
                self.pick([self.construct, self.evaluation, self.prims, self.define])()
            d2 = dep if self.chance(0.8) else self.pick([0, 1, 3, 30])
            if site in ('call', 'catch', 'lazy', 'evalc') and self.chance(0.4):
                self.add('call', dst, d2, i, self.any())
            else:
                t = '((cget %d) %s)' % (i, self.pick([str(r.randint(10, 99)), "'(x)", '"s"', '(quote k)']))
                run(self.pick(['%s', '(list %s)', '(begin (display "-") %s)', '(ccall (cget %d) 7)' % i, '(capply (cget %d) (list 1))' % i, '(dynamic-wind (lambda () (display "<")) (lambda () %s) (lambda () (display ">")))',
                               "(catch #t (lambda () %s) (lambda a (car a)))", '(cdepth 2 (lambda () %s))', "(ccatch #t (lambda () %s))"]).replace('%s', t), d2)

    def catches(self):
        # a thunk that may throw, called under tagged catches
        d = self.dst()
        s = self.pick(["(lambda () (throw '%s 1 \"m\"))" % self.pick(KEYS[:4]), '(lambda () (car 5))', '(lambda () (display "in") 5)', "(lambda () (dynamic-wind (lambda () (display 1)) (lambda () (throw 'oops)) (lambda () (display 2))))",
                       "(lambda () (clazy 'oops (lambda () (cthrow 'oops '(1)))))", "(lambda () (ccatch 'k1 (lambda () (throw 'stop))))", '(lambda () (c1))', "(lambda () (catch 'stop (lambda () (throw 'oops 2)) (lambda a a)))",
                       "(lambda () (ceval '(throw 'oops)))", '(lambda () %s)' % self.text()[0]])
        if self.add('eval', d, 0, s) is None:
            return
        for _ in range(self.r.randint(1, 2)):
            e = self.pick([-1, self.dst()])
            if self.chance(0.65):
                self.add('catch', e, self.depth(), self.pick(['#t'] + KEYS[:5]), d, self.pick('kam'))
            else:
                self.add('lazy', e, self.depth(), self.pick(['#t'] + KEYS[:5]), d, self.pick('lw'))

    def inspect(self):
        r = self.r
        ty = lambda *ts: lambda v: type(v) in ts
        c = r.random()
        if c < 0.15:
            return self.add('show', -1, 0, self.any())
        s = self.slot(lambda v: type(v) is Pair)
        if c < 0.45 and s is not None:
            v = self.m.slots[s]
            n = 0
            while type(v) is Pair and n < 50:
                v, n = v.cdr, n + 1
            if v is NIL and self.chance(0.6):
                return self.add('nth', self.dst(), 0, s, r.randint(0, n - 1))
            return self.add('walk', -1, 0, s)
        op, f = self.pick([('toint', ty(int)), ('todouble', is_num), ('tochar', ty(Char)), ('tobool', ty(bool)), ('tostr', ty(MStr)), ('symname', ty(Sym)), ('sym->str', ty(Sym)),
                           ('tostr', ty(MStr)), ('symname', ty(Sym))])
        s = self.slot(f)
        if s is not None:
            self.add(op, self.dst() if op == 'sym->str' else -1, 0, s, r.randint(0, 1))if op == 'tostr' else self.add(op, self.dst() if op == 'sym->str' else -1, 0, s)

    def prims(self):
        p = self.pick(['eq?', 'eqv?', 'equal?', 'procedure?', 'pair?', 'null?', 'boolean?', 'not', 'append', 'setcar', 'setcdr', 'table', 'table', 'table', 'var', 'var', 'sym->str'])
        if p in ('eq?', 'eqv?', 'equal?'):
            return self.add(p, self.dst(), 0, self.any(), self.any())
        if p == 'append':
            a = self.slot(lambda v: v is NIL or type(v) is Pair)
            return self.add(p, self.dst(), 0, a if a is not None else self.any(), self.any())
        if p in ('setcar', 'setcdr'):
            a = self.slot(lambda v: type(v) is Pair)
            return self.add(p, -1, 0, a if a is not None and self.chance(0.95) else self.any(), self.any())
        if p == 'table':
            a = self.slot(lambda v: type(v) is Hash)
            if a is None:
                return self.add('make-hash-table', self.dst(), 0, self.pick([1, 3, 11, 31]))
            # a table is used with one kind of comparison
            o = {1: 'hashq', 3: 'hashv', 11: 'hash', 31: 'hashq'}.get(self.m.slots[a].n)
            if o is None:
                return
            for _ in range(self.r.randint(1, 3)):
                k = self.any()
                self.add(*self.pick([(o + '-set!', -1, 0, a, k, self.any()), (o + '-ref', self.dst(), 0, a, k), (o + '-set!', -1, 0, a, k, self.any()), (o + '-get-handle', self.dst(), 0, a, k)]))
            return
        if p == 'var':
            a = self.slot(lambda v: type(v) is Variable)
            if a is None:
                return self.add('mkvar', self.dst(), 0, self.any()) if self.chance(0.5) else self.add('mkundef', self.dst(), 0)
            return self.add(*self.pick([('vref', self.dst(), 0, a), ('vset', -1, 0, a, self.any()), ('vbound', self.dst(), 0, a), ('vref', self.dst(), 0, a)]))
        if p == 'sym->str':
            a = self.slot(lambda v: type(v) is Sym)
            return self.add(p, self.dst(), 0, a if a is not None else self.any())
        return self.add(p, self.dst(), 0, self.any())

    def define(self):
        n = self.pick(VARS)
        c = self.r.random()
        if c < 0.6:
            if self.add('def', -1, 0, n, self.any()) is not None:
                self.used.add(n)
        elif c < 0.85:
            self.add('lookup', self.dst(), self.depth(), self.pick(VARS + ['car', 'no-such-name', 'c1'] + [v.name for v in self.env[-3:]]))
        else:
            self.add('eval', self.dst(), 0, self.pick(['%s', '(list %s)', '(define %s 5)', '(set! %s "new")', "(defined? '%s)", '(begin (set! %s (quote s)) %s)']).replace('%s', n))

    def modules(self):
        r = self.r
        m = self.slot(lambda v: type(v) is Mod)
        if m is None or self.chance(0.15):
            d = self.dst()
            name = self.pick(MODS)
            init = self.pick(['', '', '(define u 1)', '(define (mf x) (list x u)) (define u 2)', '(define w 5) (car w)', '(display "init") (define w 6)', '(define-public pub 7)', "(define u 1) (throw 'oops 3)"])
            return self.pick([lambda: self.add('defmod', d, 0, name, init), lambda: self.add('defmod', d, 0, name, init), lambda: self.add('resmod', d, 0, name), lambda: self.add('curmod', d, 0)])()
        name = self.pick(['u', 'w', 'mf', 'pub', 'v0', 'v1', 'nothing', 'car'])
        return weighted(r, [
            (3, lambda: self.add('moddef', -1, 0, m, name if name != 'car' else 'u', self.any())),
            (3, lambda: self.add(self.pick(['modref', 'modref2']), self.dst(), 0, m, name)),
            (3, lambda: self.add('inmod', self.dst(), self.depth(), m, self.pick(['%s', '(define %s 3)', '(list %s 1)', '(car %s)', '(set! %s 4) %s', '(begin (display 1) (throw (quote k1) 2))', '(call/cc (lambda (k) (k %s)))', '(current-module)',
                                                                     '(define (g%s) %s)', "(export %s)", '(lambda () %s)', '(cset 3 (lambda (x) (list x %s)))']).replace('%s', name))),
            (1, lambda: self.add('usemod', -1, 0, self.pick(MODS))),
            (0.7, lambda: self.add('setmod', -1, 0, m)),
            (1, lambda: self.add('curmod', self.dst(), 0)),
            (2, lambda: self.add('eval', self.dst(), 0, name)),
            (1, lambda: self.add('lookup', self.dst(), 0, name)),
        ])()

    def program(self, n):
        for f in self.t.prelude():
            self.add('eval', -1, 0, f)
        mods = self.chance(0.25)
        for v in VARS:
            if self.chance(0.5):
                self.construct()
                self.define()
        while len(self.cmds) < n:
            weighted(self.r, [(6, self.evaluation), (4, self.construct), (4, self.calls), (2, self.catches), (1.2, self.konts), (2.5, self.inspect), (2.5, self.prims), (2, self.define), (1.5, self.form),
                              (4 if mods else 0, self.modules),
                              (0.7, lambda: self.add('parse', self.dst(), 0, self.pick(['(1 . 2)', "'(a b)", '(+ 1 2)', '#(1 2)', '"s"', 'sym', '(lambda (x) x)', '(car 5)']))),
                              (0.5, lambda: self.add('churn', -1, 0, self.r.randint(1, 300))),
                              (0.5, lambda: self.add(self.pick(['throw', 'ithrow']), -1, self.depth(), self.pick(KEYS), self.slot(lambda v: v is NIL or type(v) is Pair) or 0))])()
            self.fail += 0.05
            if self.fail > 40:
                raise Unsupported('generator')
        for i in range(10):
            if self.chance(0.3):
                self.add('show', -1, 0, i)
        return self.cmds


def run_model(cmds):
    m = ApiMachine(20000)
    m.run(cmds)
    return m


class P22(Check):
    ID = 'P22'
    TECH = 'model-based stateful property testing: random histories of C API calls made by a host program against the reference interpreter driven through the same commands'
    RULE = ('random histories of 8-40 API calls on values kept in C variables: construction and inspection of values, evaluation of strings, parsed and C-built expressions and files, '
            'calls of procedures and continuations with 0-3 arguments and argument lists, nested catches and throw handlers, definitions, variables, hash tables, modules, at different depths of the C stack, '
            'with program text that calls back registered C functions; a part runs with a collection at every few allocations and freed blocks poisoned; '
            'non-trivial: at least three commands evaluated or called something and one error or callback from C into Scheme or back occurred')
    N = {'quick': 16000, 'thorough': 300000}
    ASSUME = ['optional and rest parameters of registered functions are passed as one list of all arguments, as the sources say']

    def gen(self, rng):
        for _ in range(20):
            try:
                h = H22(rng)
                case = {'cmds': h.program(rng.choice([8, 14, 20, 30, 40]))}
            except BAD:
                continue
            if rng.random() < 0.12:
                case['gc'] = 'g%dP' % rng.choice([3, 7, 13])
            return case
        return {'cmds': [['int', '0', '0', '1']]}

    def judge(self, ctx, case):
        try:
            m = run_model(case['cmds'])
        except BAD as e:
            return Res('skip', 'model: %s' % (e,), ('skip: %s' % (e if isinstance(e, Unsupported) else 'malformed'),))
        gc = case.get('gc')
        st, out = ctx.run(['\x01'.join(c) for c in case['cmds']], 'c' + (gc or ''), variant='gc' if gc else 'plain', timeout=20000 if gc else 3000)
        recs, done = drv.parse(out)
        labels = sorted(m.stats) + (['gc stress'] if gc else [])
        s = m.stats
        nt = sum(s.get('op-' + o, 0) for o in ('eval', 'evala', 'evalc', 'evalfile', 'parsefile', 'evalslot', 'call', 'apply', 'catch', 'lazy', 'inmod')) >= 3 and \
            any(s.get(x) for x in ('throw', 'C calls Scheme', 'C catch', 'nested evaluation', 'arity-error')) or any(r[0] == 'E' for r in m.recs)
        if st != '0':
            return Res('fail', 'the host ended with %s after %d records; expected %s' % (drv_status(st), len(recs), brief(m.recs)), labels, nt)
        msg = drv.agree(m.recs, recs)
        return Res('fail' if msg else 'ok', msg or '', labels, bool(nt))

    def shrink(self, ctx, case):
        def errs(cs):
            try:
                return sum(1 for r in run_model(cs).recs if r[0] == 'E')
            except BAD:
                return 10 ** 6

        def fails(cs):
            return bool(cs) and self.judge(ctx, dict(case, cmds=cs)).kind == 'fail' and errs(cs) <= limit
        cs = list(case['cmds'])
        limit = errs(cs)
        for c in (dict(case),):
            if 'gc' in c:
                c.pop('gc')
                if self.judge(ctx, c).kind == 'fail':
                    case = c
        k = max(1, len(cs) // 2)
        while True:
            i, any_ = 0, False
            while i < len(cs):
                t = cs[:i] + cs[i + k:]
                if fails(t):
                    cs, any_ = t, True
                else:
                    i += k
            if k == 1 and not any_:
                break
            if not any_:
                k = max(1, k // 2)
        for i, c in enumerate(cs):
            if c[2] != '0' and fails(cs[:i] + [c[:2] + ['0'] + c[3:]] + cs[i + 1:]):
                cs[i] = c[:2] + ['0'] + c[3:]
            if c[0] in ('eval', 'evala', 'evalc'):
                def ff(fs):
                    return len(fs) == 1 and fails(cs[:i] + [cs[i][:3] + fs] + cs[i + 1:])
                try:
                    r = sh.shrink_forms([c[3]], ff)
                    if len(r) == 1 and ff(r):
                        cs[i] = cs[i][:3] + r
                except Exception:
                    pass
        return dict(case, cmds=cs)

    def show(self, case):
        return '\n'.join(' '.join(c[:1] + ['->' + c[1]] + (['depth ' + c[2]] if c[2] != '0' else []) + c[3:]) for c in case['cmds']) + ('\n' + case['gc'] if case.get('gc') else '')


CHECK = P22()
