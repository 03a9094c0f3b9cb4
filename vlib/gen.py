"""Typed random generator of terminating Scheme programs (source text)."""


def large(rng, hi, lo=4):
    """a size, all magnitudes alike"""
    return int(lo * (hi / lo) ** rng.random())


def weighted(rng, table):
    """table: [(weight, value)]"""
    t = sum(w for w, _ in table)
    r = rng.random() * t
    for w, v in table:
        r -= w
        if r < 0:
            return v
    return table[-1][1]


NAMES = ['a', 'b', 'c', 'd', 'x', 'y', 'z', 'n', 'm', 'k', 'acc', 'lst', 'val', 'tmp', 'i', 'j', 'foo', 'p1', 'q?', 'x->y', 'set-it!', '*g*', 'A', 'Foo']
FNAMES = ['f', 'g', 'h', 'fn', 'add1', 'go', 'do-it', 'f2', 'k!', 'p?']
SHADOW = ['list', 'length', 'max', 'reverse', 'vector', 'string', 'abs', 'cons', 'second', 'rest', 'first', 'number', 'symbol', 'temp', '__temp_0']
SYMS = ['a', 'b', 'foo', 'bar', 'x', 'hello-world', 'set!', 'if', 'lambda', 'quote', 'define', '+', '...', 'a1', '<=?', '!x', 'list', 'else', 'car', '=>', 'unquote']
STRS = ['', 'a', 'abc', 'hello world', 'A', 'foo', '(1 2)', 'x\\"y', 'a\\\\b', 'line\\nbreak', ';no comment', "it's"]


class V:
    """a variable in scope"""
    __slots__ = ('name', 'type', 'mut')

    def __init__(self, name, type, mut=True):
        self.name, self.type, self.mut = name, type, mut


class G:
    """types: i int, b boolean, l list of ints, s string, y symbol, v vector of ints, u nested data,
    ('f', (argtypes), rest?, ret) procedures"""

    def __init__(self, rng, budget=60, features=()):
        self.r = rng
        self.budget = budget
        self.features = set(features)
        self.uid = 0
        self.eff = 0.12      # probability of a visible effect around an expression
        self.types = 'iiiiblsyu'
        self.extra = {}      # type -> [(weight, fn(depth, env) -> text)]
        self.macros = []

    # ---- helpers ----
    def pick(self, seq):
        return seq[int(self.r.random() * len(seq))]

    def chance(self, p):
        return self.r.random() < p

    def int(self, a, b):
        return self.r.randint(a, b)

    def lookup(self, env, t):
        seen = set()
        out = []
        for v in reversed(env):
            if v.name in seen:
                continue
            seen.add(v.name)
            if v.type == t:
                out.append(v)
        return out

    def fns(self, env, ret):
        seen = set()
        out = []
        for v in reversed(env):
            if v.name in seen:
                continue
            seen.add(v.name)
            if type(v.type) is tuple and v.type[3] == ret:
                out.append(v)
        return out

    def shadowed(self, env, name):
        return any(v.name == name for v in env)

    def name(self, env=(), avoid=()):
        while True:
            n = self.pick(SHADOW) if self.chance(0.06) else self.pick(NAMES)
            if n not in avoid:
                return n

    def names(self, k):
        out = []
        while len(out) < k:
            n = self.name((), out)
            if n not in out:
                out.append(n)
        return out

    def intlit(self):
        return str(weighted(self.r, [(6, self.int(-3, 10)), (2, self.int(-100, 1000)), (0.3, self.int(-2 ** 31, 2 ** 31))]))

    # ---- expressions ----
    def e(self, t, d, env):
        self.budget -= 1
        if d <= 0 or self.budget <= 0:
            return self.leaf(t, env)
        if self.chance(self.eff):
            return self.effect(t, d, env)
        table = self.prods(t)
        for _ in range(4):
            r = weighted(self.r, table)(t, d - 1, env)
            if r is not None:
                return r
        return self.leaf(t, env)

    def effect(self, t, d, env):
        c = self.r.random()
        if c < 0.45:
            return '(begin (display %s) %s)' % (self.e(self.pick('isyb'), d - 2, env), self.e(t, d - 1, env))
        vs = [v for v in self.lookup(env, t) if v.mut]
        if vs and c < 0.9:
            v = self.pick(vs)
            return '(begin (set! %s %s) %s)' % (v.name, self.e(t, d - 1, env), self.e(t, d - 1, env))
        return '(begin %s %s)' % (self.e(self.pick('isyb'), d - 2, env), self.e(t, d - 1, env))

    def leaf(self, t, env):
        vs = self.lookup(env, t)
        if vs and self.chance(0.7):
            return self.pick(vs).name
        if t == 'i':
            return self.intlit()
        if t == 'b':
            return self.pick(['#t', '#f'])
        if t == 'l':
            return "'(" + ' '.join(self.intlit() for _ in range(self.int(0, 4))) + ')'
        if t == 's':
            return '"' + self.pick(STRS) + '"'
        if t == 'y':
            return "'" + self.pick(SYMS)
        if t == 'v':
            return "'#(" + ' '.join(self.intlit() for _ in range(self.int(0, 4))) + ')'
        if t == 'c':
            return '#\\' + self.pick('abzAZ019 ').replace(' ', 'space')
        if t == 'u':
            return "'" + self.datum(2)
        if type(t) is tuple:
            return self.lam(t, 1, env)
        raise AssertionError(t)

    def datum(self, d, syms=True):
        c = self.r.random()
        if d <= 0 or c < 0.5:
            return weighted(self.r, [(3, self.intlit), (2, lambda: self.pick(SYMS)), (1, lambda: '"' + self.pick(STRS) + '"'),
                                     (1, lambda: self.pick(['#t', '#f'])), (0.6, lambda: '()'),
                                     (0.5, lambda: '#\\' + self.pick('abzAZ09'))])()
        items = [self.datum(d - 1) for _ in range(self.int(0, 4))]
        if c < 0.9 or not items:
            return '(' + ' '.join(items) + ')'
        if c < 0.95:
            return '#(' + ' '.join(items) + ')'
        return '(' + ' '.join(items) + ' . ' + self.atomdatum() + ')'

    def atomdatum(self):
        return self.pick(['1', 'x', '"s"', '#t', '5'])

    def prods(self, t):
        p = self.control()
        if type(t) is tuple:
            return [(6, self.p_lam), (1, self.p_if), (1, self.p_let)]
        p = p + self.special_prods(t)
        if t in self.extra:
            p = p + [(w, lambda t, d, env, f=f: f(d, env)) for w, f in self.extra[t]]
        return p

    def control(self):
        return [(3, self.p_leaf), (2.5, self.p_if), (1.2, self.p_cond), (0.7, self.p_case), (2.5, self.p_let), (1, self.p_letstar),
                (0.8, self.p_letrec), (1.2, self.p_nlet), (0.8, self.p_do), (0.8, self.p_body), (2.5, self.p_call), (1, self.p_lamcall),
                (0.6, self.p_and), (0.6, self.p_or), (0.6, self.p_begin)]

    def special_prods(self, t):
        if t == 'i':
            return [(5, self.i_arith), (1, self.i_list), (0.5, self.i_misc)]
        if t == 'b':
            return [(4, self.b_cmp), (2, self.b_pred)]
        if t == 'l':
            return [(4, self.l_cons), (2, self.l_map), (1, self.l_misc)]
        if t == 's':
            return [(2, self.s_ops)]
        if t == 'y':
            return [(1, self.p_leaf)]
        if t == 'u':
            return [(3, self.u_ops)]
        if t == 'v':
            return [(2, lambda t, d, env: self.call(env, 'vector', ['i'] * self.int(0, 3), d))]
        return []

    def p_leaf(self, t, d, env):
        return self.leaf(t, env)

    def p_if(self, t, d, env):
        return '(if %s %s %s)' % (self.test(d, env), self.e(t, d, env), self.e(t, d, env))

    def test(self, d, env):
        # any value but #f counts as true
        return self.e(weighted(self.r, [(6, 'b'), (1, 'i'), (0.5, 'l'), (0.3, 's')]), d, env)

    def p_cond(self, t, d, env):
        cl = []
        for _ in range(self.int(1, 3)):
            c = self.r.random()
            if c < 0.12 and t in 'ibl':
                u = weighted(self.r, [(2, t), (1, 'y'), (1, 'l'), (0.5, 's'), (0.5, 'i')])
                cl.append('(%s => %s)' % (self.e(u, d, env), self.lam(('f', (u,), None, t), d - 1, env)))
            elif c < 0.2:
                cl.append('(%s)' % (self.e(t, d - 1, env) if t != 'b' else '(and %s %s)' % (self.e('b', d - 1, env), self.e('b', d - 1, env))))
            else:
                cl.append('(%s %s)' % (self.test(d, env), self.bodytext(t, d, env)))
        return '(cond %s (else %s))' % (' '.join(cl), self.bodytext(t, d, env))

    def bodytext(self, t, d, env):
        n = weighted(self.r, [(5, 0), (1, 1), (0.5, 2)])
        return ' '.join([self.stmt(d - 1, env) for _ in range(n)] + [self.e(t, d, env)])

    def stmt(self, d, env):
        c = self.r.random()
        if c < 0.5:
            return '(display %s)' % self.e(self.pick('isyblu'), d - 1, env)
        t = self.pick('ilbs')
        vs = [v for v in self.lookup(env, t) if v.mut]
        if vs and c < 0.85:
            return '(set! %s %s)' % (self.pick(vs).name, self.e(t, d, env))
        if c < 0.92:
            return '(if %s %s)' % (self.e('b', d - 1, env), '(display %s)' % self.e('i', d - 1, env))
        return self.e(self.pick('ibs'), d - 1, env)

    def p_case(self, t, d, env):
        kt = self.pick('iyc')
        seen = set()
        cl = []
        for _ in range(self.int(1, 3)):
            ds = []
            for _ in range(self.int(1, 3)):
                x = {'i': lambda: str(self.int(-2, 5)), 'y': lambda: self.pick(SYMS), 'c': lambda: '#\\' + self.pick('abzAZ019')}[kt]()
                if x not in seen:
                    seen.add(x)
                    ds.append(x)
            if ds:
                cl.append('((%s) %s)' % (' '.join(ds), self.bodytext(t, d, env)))
        key = self.e(kt, d, env) if kt != 'i' or self.chance(0.5) else '(modulo %s 6)' % self.e('i', d, env)
        return '(case %s %s (else %s))' % (key, ' '.join(cl), self.bodytext(t, d, env))

    def vt(self):
        return self.pick(self.types)

    def p_let(self, t, d, env):
        k = self.int(0, 3) if self.chance(0.9) else 0
        ns = self.names(k)
        ts = [self.vt() if not self.chance(0.15) else self.ftype() for _ in ns]
        bs = ['(%s %s)' % (n, self.e(ty, d, env)) for n, ty in zip(ns, ts)]
        env2 = env + [V(n, ty) for n, ty in zip(ns, ts)]
        return '(let (%s) %s)' % (' '.join(bs), self.lbody(t, d, env2))

    def lbody(self, t, d, env):
        """body with possible internal definitions"""
        out = []
        if self.chance(0.12):
            env = list(env)
            for _ in range(self.int(1, 2)):
                s, v = self.definition(d - 1, env, local=True)
                out.append(s)
                env.append(v)
        return ' '.join(out + [self.bodytext(t, d, env)])

    def p_letstar(self, t, d, env):
        bs = []
        env2 = list(env)
        for _ in range(self.int(0, 3)):
            n = self.name()
            ty = self.vt()
            bs.append('(%s %s)' % (n, self.e(ty, d, env2)))
            env2.append(V(n, ty))
        return '(let* (%s) %s)' % (' '.join(bs), self.lbody(t, d, env2))

    def p_letrec(self, t, d, env):
        c = self.r.random()
        if c < 0.5:
            a, b = self.pick(['ev?', 'even1?']), self.pick(['od?', 'odd1?'])
            ft = ('f', ('small',), None, 'b')
            return ('(letrec ((%s (lambda (n) (if (<= n 0) #t (%s (- n 1))))) (%s (lambda (n) (if (<= n 0) #f (%s (- n 1)))))) %s)' % (
                a, b, b, a, self.lbody(t, d, env + [V(a, ft, False), V(b, ft, False)])))
        f, v = self.recfn(d, env)
        return '(letrec ((%s %s)) %s)' % (v.name, f, self.lbody(t, d, env + [v]))

    def recfn(self, d, env):
        """a terminating recursive lambda; its first argument counts down"""
        name = self.pick(FNAMES)
        t = self.pick('iilb')
        x = self.name()
        v = V(name, ('f', ('small', t), None, t), False)
        env2 = [w for w in env if w.name not in ('cnt', name)] + [V('cnt', 'i', False), V(x, t)]
        base = self.e(t, d - 1, env2)
        if self.chance(0.5):
            step = '(%s (- cnt 1) %s)' % (name, self.e(t, d - 1, env2))
        else:
            env3 = [w for w in env2 if w.name != 'sub'] + [V('sub', t)]
            step = '(let ((sub (%s (- cnt 1) %s))) %s)' % (name, self.e(t, d - 1, env2), self.e(t, d - 1, env3))
        return '(lambda (cnt %s) (if (<= cnt 0) %s %s))' % (x, base, step), v

    def small(self, d, env):
        return str(self.int(0, 4)) if self.chance(0.7) else '(modulo %s 4)' % self.e('i', d - 1, env)

    def p_nlet(self, t, d, env):
        name = self.pick(['loop', 'lp', 'iter', 'again'])
        x = self.name()
        env2 = [w for w in env if w.name not in ('cnt', name)] + [V('cnt', 'i', False), V(x, t)]
        n = self.int(0, 4)
        pre = (self.stmt(d - 1, env2) + ' ') if self.chance(0.3) else ''
        return '(let %s ((cnt %d) (%s %s)) %s(if (<= cnt 0) %s (%s (- cnt 1) %s)))' % (
            name, n, x, self.e(t, d, env), pre, self.e(t, d - 1, env2), name, self.e(t, d - 1, env2))

    def p_do(self, t, d, env):
        x = self.name()
        n = self.int(0, 4)
        env2 = [w for w in env if w.name != 'ix'] + [V('ix', 'i', False), V(x, t)]
        body = ' '.join(self.stmt(d - 1, env2) for _ in range(self.int(0, 2)))
        extra = ''
        if self.chance(0.25):
            y = self.name((), (x,))
            ty = self.vt()
            extra = ' (%s %s)' % (y, self.e(ty, d - 1, env))
            env2 = env2 + [V(y, ty)]
        start, test, step = self.pick([('0', '(= ix %d)' % n, '(+ ix 1)'), (str(n), '(zero? ix)', '(- ix 1)'), ('0', '(>= ix %d)' % n, '(+ ix 2)')])
        return '(do ((ix %s %s) (%s %s %s)%s) (%s %s) %s)' % (
            start, step, x, self.e(t, d, env), self.e(t, d - 1, env2), extra, test, self.bodytext(t, d - 1, env2), body)

    def p_body(self, t, d, env):
        out = []
        env2 = list(env)
        for _ in range(self.int(1, 2)):
            s, v = self.definition(d - 1, env2, local=True)
            out.append(s)
            env2.append(v)
        return '((lambda () %s %s))' % (' '.join(out), self.bodytext(t, d, env2))

    def ftype(self):
        args = tuple(self.pick('iilb') for _ in range(self.int(0, 3)))
        rest = 'i' if self.chance(0.2) else None
        return ('f', args, rest, self.pick('iilb'))

    def lam(self, ft, d, env):
        _, args, rest, ret = ft
        ns = self.names(len(args) + (1 if rest else 0))
        env2 = env + [V(n, 'i' if a == 'small' else a) for n, a in zip(ns, args)]
        if rest:
            env2.append(V(ns[-1], 'l'))
            params = ns[-1] if len(ns) == 1 else '(%s . %s)' % (' '.join(ns[:-1]), ns[-1])
        else:
            params = '(' + ' '.join(ns) + ')'
        return '(lambda %s %s)' % (params, self.lbody(ret, d, env2))

    def p_lam(self, t, d, env):
        return self.lam(t, d, env)

    def p_call(self, t, d, env):
        fs = self.fns(env, t)
        if not fs:
            return None
        f = self.pick(fs)
        return self.usefn(f.name, f.type, d, env)

    def usefn(self, head, ft, d, env):
        args = [self.small(d, env) if a == 'small' else self.e(a, d, env) for a in ft[1]]
        if ft[2]:
            args += [self.e(ft[2], d - 1, env) for _ in range(self.int(0, 3))]
        return '(%s)' % ' '.join([head] + args)

    def p_lamcall(self, t, d, env):
        ft = self.ftype()
        ft = ft[:3] + (t,)
        return self.usefn(self.lam(ft, d, env), ft, d, env)

    def p_and(self, t, d, env):
        if t == 'b':
            return '(and %s)' % ' '.join(self.e('b', d, env) for _ in range(self.int(0, 3)))
        return '(and %s %s)' % (self.e('i', d - 1, env), self.e(t, d, env))

    def p_or(self, t, d, env):
        if t == 'b':
            return '(or %s)' % ' '.join(self.e('b', d, env) for _ in range(self.int(0, 3)))
        return '(or %s %s)' % ('(and %s %s)' % (self.e('b', d - 1, env), '#f'), self.e(t, d, env))

    def p_begin(self, t, d, env):
        return '(begin %s)' % self.bodytext(t, d, env)

    def call(self, env, fn, ts, d):
        if self.shadowed(env, fn):
            return None
        return '(%s)' % ' '.join([fn] + [self.e(t, d, env) for t in ts])

    def i_arith(self, t, d, env):
        op = weighted(self.r, [(4, '+'), (3, '-'), (2, '*'), (1, 'max'), (0.7, 'min'), (0.8, 'abs'), (0.8, 'quotient'), (0.8, 'modulo'), (0.5, 'remainder')])
        if op == 'abs':
            return self.call(env, 'abs', 'i', d)
        if op in ('quotient', 'modulo', 'remainder'):
            return '(%s %s %d)' % (op, self.e('i', d, env), self.pick([1, 2, 3, 7, -2, -5, 10]))
        if op == '*':
            return '(* %s %d)' % (self.e('i', d, env), self.int(-3, 5)) if self.chance(0.6) else self.call(env, '*', 'ii', d)
        n = weighted(self.r, [(6, 2), (1, 1), (1, 3)])
        return self.call(env, op, 'i' * n, d)

    def i_list(self, t, d, env):
        c = self.r.random()
        if c < 0.5:
            return self.call(env, 'length', 'l', d)
        if c < 0.8:
            return '(let ((tmpl %s)) (if (null? tmpl) %s (car tmpl)))' % (self.e('l', d, env), self.e('i', d, env))
        return '(apply + %s)' % self.e('l', d, env)

    def i_misc(self, t, d, env):
        return self.call(env, 'string-length', 's', d)

    def b_cmp(self, t, d, env):
        op = self.pick(['=', '<', '>', '<=', '>='])
        return '(%s %s)' % (op, ' '.join(self.e('i', d, env) for _ in range(2 if self.chance(0.8) else 3)))

    def b_pred(self, t, d, env):
        c = self.r.random()
        if c < 0.2:
            return '(not %s)' % self.e(self.pick('bi'), d, env)
        if c < 0.5:
            return '(%s %s)' % (self.pick(['zero?', 'even?', 'odd?', 'positive?', 'negative?']), self.e('i', d, env))
        if c < 0.7:
            return '(null? %s)' % self.e('l', d, env)
        if c < 0.85:
            ty = self.pick('iyub')
            return '(equal? %s %s)' % (self.e(ty, d, env), self.e(ty, d, env))
        return '(%s %s)' % (self.pick(['pair?', 'symbol?', 'string?', 'number?', 'procedure?', 'boolean?', 'list?', 'vector?']), self.e(self.pick('ilsybu'), d, env))

    def l_cons(self, t, d, env):
        c = self.r.random()
        if c < 0.45:
            return self.call(env, 'cons', 'il', d)
        if c < 0.75:
            return self.call(env, 'list', 'i' * self.int(0, 3), d)
        if c < 0.9:
            return self.call(env, 'append', 'l' * self.int(1, 3), d)
        return self.call(env, 'reverse', 'l', d)

    def l_map(self, t, d, env):
        if self.chance(0.5):
            return '(map %s %s)' % (self.lam(('f', ('i',), None, 'i'), d - 1, env), self.e('l', d, env))
        fs = [v for v in self.fns(env, 'i') if v.type[1] == ('i',) and not v.type[2]]
        if not fs:
            return None
        return '(map %s %s)' % (self.pick(fs).name, self.e('l', d, env))

    def l_misc(self, t, d, env):
        return '(let ((tmpl %s)) (if (null? tmpl) tmpl (cdr tmpl)))' % self.e('l', d, env)

    def s_ops(self, t, d, env):
        c = self.r.random()
        if c < 0.6:
            return '(string-append %s)' % ' '.join(self.e('s', d, env) for _ in range(self.int(0, 3)))
        if c < 0.8:
            return '(number->string %s)' % self.e('i', d, env)
        return '(symbol->string %s)' % self.e('y', d, env)

    def u_ops(self, t, d, env):
        c = self.r.random()
        if c < 0.5:
            return self.call(env, 'list', [self.pick('ilsybu') for _ in range(self.int(0, 3))], d)
        if c < 0.8:
            return self.call(env, 'cons', [self.pick('isybu'), self.pick('ulis')], d)
        return self.call(env, 'vector', [self.pick('isybu') for _ in range(self.int(0, 3))], d)

    # ---- definitions ----
    def definition(self, d, env, local=False):
        c = self.r.random()
        if c < 0.35:
            n = self.name()
            while local and n in SHADOW:
                n = self.name()
            if n in SHADOW:
                n = 'sh'
            t = self.vt()
            return '(define %s %s)' % (n, self.e(t, d, [v for v in env if v.name != n] if local else env)), V(n, t)
        if c < 0.55:
            f, v = self.recfn(d, env)
            return '(define %s %s)' % (v.name, f), V(v.name, v.type, False)
        if c < 0.62:
            # curried
            f = self.pick(FNAMES)
            n1, n2 = self.names(2)
            env2 = [w for w in env if w.name != f] + [V(n1, 'i'), V(n2, 'i')]
            return '(define ((%s %s) %s) %s)' % (f, n1, n2, self.e('i', d, env2)), V(f, ('f', ('i',), None, ('f', ('i',), None, 'i')), False)
        if c < 0.75:
            # closure with private state
            f = self.pick(FNAMES)
            s = self.name()
            return '(define %s (let ((%s %s)) (lambda (delta) (set! %s (+ %s delta)) %s)))' % (
                f, s, self.intlit(), s, s, s), V(f, ('f', ('i',), None, 'i'), False)
        f = self.pick(FNAMES)
        ft = self.ftype()
        _, args, rest, ret = ft
        ns = self.names(len(args) + (1 if rest else 0))
        env2 = [w for w in env if w.name != f] + [V(n, a) for n, a in zip(ns, args)]
        sig = ' '.join([f] + ns[:len(args)])
        if rest:
            sig += ' . ' + ns[-1]
            env2.append(V(ns[-1], 'l'))
        return '(define (%s) %s)' % (sig, self.lbody(ret, d, env2)), V(f, ft, False)

    # ---- programs ----
    def program(self, nforms=None, depth=4):
        env = []
        forms = []
        for _ in range(nforms or self.int(2, 6)):
            c = self.r.random()
            if c < 0.5:
                s, v = self.definition(depth, env)
                env = [w for w in env if w.name != v.name] + [v]
            elif c < 0.6 and env:
                s = self.stmt(depth, env)
            else:
                s = self.e(self.vt(), depth, env)
            forms.append(s)
        forms.append(self.e(self.vt(), depth, env))
        return forms
