from vlib import sx
from vlib.gen import G, weighted
from vlib.runner import Check
from vlib.sx import Sym, Dot, VecLit

BUILTIN = ['car', 'map', 'vector-ref', 'string-append', '+', 'force', 'eval', 'apply', 'list', 'symbol->string', 'max']
ABSENT = ['no-such-name', 'zzz', 'undefined-1', 'caar-not', 'p?q', 'temp9']
LOCALS = ['x', 'n', 'a', 'lst', 'acc', 'f', 'foo', 'list', 'car', '+', 'zzz']


class E24(G):
    def quote(self, f):
        return self.pick(["'%s", "'%s", '(quote %s)']) % f

    def build(self, d, depth):
        """text of an expression whose value is the datum d"""
        r = self.r.random()
        t = type(d)
        if depth > 0 and t is list and d and not (len(d) == 2 and type(d[0]) is Sym and d[0].startswith(('qua', 'unq'))):
            if r < 0.5:
                return '(list %s)' % ' '.join(self.build(x, depth - 1) for x in d)
            if r < 0.7:
                return '(cons %s %s)' % (self.build(d[0], depth - 1), self.build(d[1:], depth - 1))
            if r < 0.8:
                k = self.int(0, len(d))
                return '(append %s %s)' % (self.build(d[:k], depth - 1), self.build(d[k:], depth - 1))
            if r < 0.9 and not has(d, ('unquote', 'unquote-splicing', 'quasiquote')):
                parts = [(',' + self.build(x, depth - 1)) if self.chance(0.4) else sx.text(x) for x in d]
                return '`(%s)' % ' '.join(parts)
            if r < 0.95:
                return '(vector->list (vector %s))' % ' '.join(self.build(x, depth - 1) for x in d)
        if t is Sym and r < 0.3 and all(c.isalnum() or c in '-+*!?<>=/' for c in d):
            return '(string->symbol "%s")' % d
        if t is Dot and depth > 0 and len(d.items) == 1:
            return '(cons %s %s)' % (self.build(d.items[0], depth - 1), self.build(d.tail, depth - 1))
        if t in (int, float, bool, sx.Str, sx.Char) and r < 0.7:
            return sx.text(d)
        return "'" + sx.text(d)

    def wrap(self, f):
        """(form, may be evaluated twice)"""
        d = sx.read_one(f)
        isdef = type(d) is list and d and d[0] in ('define', 'set!', 'define-macro')
        q = self.quote(f)
        loc = self.pick(LOCALS)
        return weighted(self.r, [
            (2, f), (3, '(eval %s)' % q), (3, '(eval %s)' % self.build(d, self.int(1, 4))),
            (2, "(let ((%s 'local)) (eval %s))" % (loc, q)), (1, '((lambda (%s) (eval %s)) 0)' % (loc, q)), (0.7, "(let loop ((%s 1)) (eval %s))" % (loc if loc != 'f' else 'n', q)),
            (1, '((lambda (form) (eval form)) %s)' % q), (1, "(eval '(eval %s))" % q), (1, "(eval (list 'eval (list 'quote %s)))" % q),
            (1, '(apply eval (list %s))' % q), (1, '(map eval (list %s))' % q if not isdef else '(for-each eval (list %s))' % q), (0.7, '((eval \'(lambda () %s)))' % f if not isdef else '(eval %s)' % q),
            (1, '(catch #t (lambda () (eval %s)) (lambda (k . a) (list (quote caught) k)))' % q), (0.7, '(begin (eval %s))' % q), (0.6, '(let ((e eval)) (e %s))' % q),
            (0.7, "(eval '(begin %s))" % f), (0.5, '(if #t (eval %s) 0)' % q), (0.5, "(eval (list (quote if) #t %s %s))" % (q, q)), (0.5 if not isdef else 0, '(list (eval %s))' % q),
            (0.5 if not isdef else 0, '(eval (list (lambda (x) x) %s))' % q)])

    def extra_form(self):
        r = self.r
        return weighted(r, [
            (2, "(list %s)" % ' '.join("(defined? '%s)" % self.pick(BUILTIN + ABSENT + self.defd + LOCALS[:6]) for _ in range(3))),
            (1, "(let ((%s 1) (zzz 2)) (list (defined? 'zzz) (defined? '%s)))" % (self.pick(['x', 'n']), self.pick(ABSENT))),
            (1, self.pick(["(defined? 5)", '(defined? "car")', "(eval)", "(eval 'a 'b 'c)", "(eval '(no-such-name 1))", "(eval 'zzz)", "(eval '(car 5))", "(eval '(throw 'k 1 2))", "(catch 'k (lambda () (eval '(throw 'k 1 2))) (lambda (k . a) a))"])),
            (1, self.pick(['(eval 5)', '(eval "s")', '(eval #\\a)', '(eval #t)', "(eval ''sym)", "(eval '(quote (a b)))", "(eval ''())", '(eval (list + 1 2))', '(eval (list car (list (quote quote) (list 1 2))))', "(eval (list 'let (list (list 'x 1)) 'x))",
                           "((eval (list 'lambda '(x . r) '(list x r))) 1 2 3)", "(eval (cons 'list '(1 2 3)))", "(eval `(map (lambda (x) (* x x)) '(1 2 3)))", "(eval '(let loop ((i 0)) (if (< i 3) (loop (+ i 1)) i)))",
                           "(eval (list 'cond (list '(= 1 2) ''a) (list 'else ''b)))", "(eval '(call/cc (lambda (k) (+ 1 (k 5)))))"])),
            (2, self.varop()),
            (1, self.newdef()),
        ])

    def varop(self):
        r = self.r
        if not self.vars or r.random() < 0.25:
            n = 'var%d' % len(self.vars)
            self.vars.append(n)
            return '(define %s %s)' % (n, self.pick(['(make-variable 1)', "(make-variable '(a b))", '(make-undefined-variable)', '(make-variable "s")', '(make-undefined-variable)', "(make-variable '())", '(make-variable #f)', '(make-variable 0)', '(make-variable "")', '(make-variable (vector))', self.pick(self.vars)]))
        v = self.pick(self.vars)
        return self.pick(['(variable-ref %s)', '(variable-ref %s)', "(variable-set! %s 'new)", '(variable-set! %s (list 1 2))', self.pick(["(variable-set! %s '())", "(variable-set! %s #f)", '(variable-set! %s 0)', '(variable-set! %s "")', '(variable-set! %s (vector))', "(begin (variable-set! %s '()) (list (variable-bound? %s) (variable-ref %s)))", "(begin (variable-set! %s #f) (variable-bound? %s))"]), '(variable-bound? %s)', '(variable? %s)', '(list (variable-bound? %s) (variable? 5))',
                          '(begin (variable-set! %s 7) 1)', "(variable-set! %s car)", '(catch #t (lambda () (variable-ref %s)) (lambda (k . a) (quote unbound)))', "(variable-set! %s (if #f #f 0))", '(variable-ref (if #t %s 1))',
                          "(variable-bound? 'x) %s"[:20], '(variable-ref "%s")', "(eq? %s " + self.pick(self.vars) + ")", '(let ((v %s)) (variable-set! v #f) (variable-ref v))']) .replace('%s', v)

    def newdef(self):
        n = self.pick(['d1', 'd2', 'd3', 'mac1', 'x', 'n'])
        if n not in self.defd:
            self.defd.append(n)
        if n == 'mac1':
            return self.pick(["(eval '(define-macro (mac1 a) (list '+ a a)))", "(define-macro (mac1 a) (list 'quote a))", "(eval '(mac1 4))"])
        return self.pick(["(eval '(define %s 5))", "(eval (list 'define '%s (list 'quote '(1 2))))", "(let ((y 3)) (eval '(define %s 'g)) y)", '(define %s "direct")', "(eval '(set! %s 9))", "(eval '(begin (define %s 1) (set! %s (+ %s 1)) %s))"]).replace('%s', n)

    def program24(self, depth):
        self.defd = []
        self.vars = []
        out = []
        for f in self.program(depth=depth):
            d = sx.read_one(f)
            if type(d) is list and len(d) > 1 and d[0] == 'define':
                h = d[1]
                while type(h) is not Sym:
                    h = h[0] if type(h) is list else h.items[0]
                self.defd.append(str(h))
            out.append(self.wrap(f))
            for _ in range(self.int(0, 2)):
                x = self.extra_form()
                out.append(self.wrap(x) if self.chance(0.3) else x)
            if self.chance(0.3) and out:
                out.append(self.wrap(self.pick(["(list %s)" % ' '.join("(defined? '%s)" % n for n in (self.defd or ['car'])[-3:])])))
        return out


def has(d, names):
    if type(d) is Sym:
        return d in names
    if type(d) is Dot:
        return any(has(x, names) for x in d.items + [d.tail])
    if type(d) is list:
        return any(has(x, names) for x in d)
    if type(d) is VecLit:
        return any(has(x, names) for x in d.items)
    return False


class P24(Check):
    ID = 'P24'
    RULE = ('random programs whose top-level forms are passed to eval quoted, built from parts with list, cons, append, quasiquote and string->symbol, from inside local scopes that shadow the free names, nested, mapped and caught, '
            'interleaved with defined? queries, definitions made by eval and operations on variable objects, compared with the reference interpreter; non-trivial: eval ran at least three times')
    N = {'quick': 40000, 'thorough': 600000}

    def gen(self, rng):
        g = E24(rng, budget=rng.choice([20, 50, 90]))
        return {'forms': g.program24(rng.choice([2, 3, 4]))}

    def nontrivial(self, case, m):
        return m.stats.get('eval', 0) >= 3


CHECK = P24()
