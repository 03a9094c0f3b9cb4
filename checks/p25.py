from vlib.hist import Hist
from vlib.gen import large
from vlib.histcheck import HistCheck

BASE = ['a', 'b', 'ab', 'abc', 'abcd', 'Abc', 'ABC', 'foo', 'Foo', 'foo-bar', 'foo_bar', 'list', 'car', 'if', 'define', 'quote', '+', '-', '...', '->x', 'x!', 'x?', 'set-car!', 'g0', 'g1', 'nil', 't', 'else', 'a.b', 'a:b', '<=', 'lambda', '1+', 'a1', 'a11']
ODD = ['', ' ', 'A b', '12', '(x)', '#t', 'a;b', "a'b", 'a"b', 'a\\b', '1.5', '#f', ',x', '`', 'a b c', '[x]', 'a|b', '{', 'é', 'a\tb', '-1', '()', '.', '"', '#\\a']


def s_(x):
    return '"%s"' % x.replace('\\', '\\\\').replace('"', '\\"').replace('\t', '\\t').replace('\0', '\\000')


class H(Hist):
    DUMP = False

    def __init__(self, rng):
        Hist.__init__(self, rng)
        self.syms = []
        self.strs = []
        self.gs = []
        k = rng.randint(2, 5)
        pool = BASE + ODD if rng.random() < 0.6 else BASE
        self.nm = [rng.choice(pool) for _ in range(k)]
        for n in list(self.nm):
            c = rng.random()
            if n not in BASE and c < 0.2:
                self.nm += [n + '\0' + rng.choice('ab'), n + '\0a', n + '\0']
                continue
            if c < 0.3:
                self.nm.append(n + rng.choice('ab1-'))
            elif c < 0.5:
                self.nm.append(n[:-1])
            elif c < 0.6:
                self.nm.append(n.swapcase())
            elif c < 0.65:
                self.nm.append(n * rng.choice([2, 10, 50, large(rng, 1000)]))
        self.nn = 0

    def text(self):
        """a string expression and its name"""
        n = self.pick(self.nm)
        r = self.r
        c = r.random()
        k = r.randint(0, len(n))
        if c < 0.4:
            return s_(n)
        if c < 0.6:
            return '(string-append %s %s)' % (s_(n[:k]), s_(n[k:]))
        if c < 0.7:
            return '(substring %s %d %d)' % (s_('x' + n + 'yz'), 1, 1 + len(n))
        if c < 0.8:
            return '(list->string (string->list %s))' % s_(n)
        if c < 0.9 and n:
            i = r.randrange(len(n))
            if n[i] not in ' \t"\\é\0':
                return '(let ((s (string-append %s ""))) (string-set! s %d #\\%s) s)' % (s_(n[:i] + 'Q' + n[i + 1:]), i, n[i])
        return '(symbol->string (string->symbol %s))' % s_(n)

    def sym(self):
        r = self.r
        c = r.random()
        if c < 0.25 and self.syms:
            return self.pick(self.syms)
        plain = [n for n in self.nm if n in BASE]
        if c < 0.55 and plain:
            n = self.pick(plain)
            return self.pick(["'%s", '(quote %s)', "(car '(%s x))", "(vector-ref '#(%s) 0)", "(car `(%s ,1))", "(let ((l '(y %s))) (cadr l))", '(name-of %s)', '(name-of2 %s)', "(cadr ''%s)", "(read (open-input-string \" %s \"))"]) % n
        if self.gs and c < 0.62:
            return self.pick(self.gs)
        return '(string->symbol %s)' % self.text()

    def defsym(self):
        self.nn += 1
        n = 'y%d' % self.nn
        if self.add('(define %s %s)' % (n, self.sym())) is not None:
            self.syms.append(n)

    def defstr(self):
        self.nn += 1
        n = 's%d' % self.nn
        if self.add('(define %s (string-append %s ""))' % (n, self.text())) is not None:
            self.strs.append(n)

    def step(self):
        r = self.r
        c = r.random()
        if c < 0.12:
            self.defsym()
        elif c < 0.2:
            self.defstr()
        elif c < 0.28 and self.strs:
            # a symbol made from a string that changes later
            s = self.pick(self.strs)
            self.nn += 1
            n = 'y%d' % self.nn
            if self.add('(define %s (string->symbol %s))' % (n, s)) is not None:
                self.syms.append(n)
                self.add('(if (> (string-length %s) 0) (begin (string-set! %s 0 #\\%s) (list (symbol->string %s) %s)))' % (s, s, self.pick('aZ9'), n, s))
        elif c < 0.36:
            # the string got from a symbol changes later
            y = self.sym()
            self.add('(let ((y %s)) (let ((s (symbol->string y))) (if (> (string-length s) 0) (string-set! s 0 #\\%s)) (list (symbol->string y) s (eq? y (string->symbol s)))))' % (y, self.pick('aZ9')))
        elif c < 0.42:
            self.nn += 1
            n = 'z%d' % self.nn
            if self.add('(define %s (gensym))' % n) is not None:
                self.gs.append(n)
        elif c < 0.5 and self.gs:
            g = self.pick(self.gs)
            self.add(self.pick(['(symbol? %s)', '(list (eq? %s (gensym)) (eq? (gensym) (gensym)))', '(eq? %s (string->symbol (symbol->string %s)))', "(memq %s (list 'a 'b (gensym) (gensym)))", '(list %s)' % ' '.join('(eq? %s %s)' % (self.pick(self.gs), self.pick(self.gs)) for _ in range(3)),
                                '(let ((a %%s)) (do ((i 0 (+ i 1)) (n 0 (if (eq? a (gensym)) (+ n 1) n))) ((= i %d) n)))' % large(r, 3000) if r.random() < 0.05 else '(eq? %s 5)',
                                '(let loop ((i 0) (l (list %s))) (if (< i %d) (loop (+ i 1) (if (memq (car l) (cdr l)) (list 1) (cons (gensym) l))) (length l)))' % ('%s', r.randint(1, 30))]).replace('%s', g))
        elif c < 0.7:
            f = self.pick(['eq?', 'eq?', 'eqv?', 'equal?'])
            self.add('(%s %s %s)' % (f, self.sym(), self.sym()))
        elif c < 0.76:
            self.add('(let ((a %s) (b %s)) (list (eq? a b) (string=? (symbol->string a) (symbol->string b)) (eq? (eq? a b) (eqv? a b))))' % (self.sym(), self.sym()))
        elif c < 0.82:
            self.add(self.pick(['(let ((r (memq %s (list %s)))) (if r (length r) r))' % (self.sym(), ' '.join(self.sym() for _ in range(3))), '(let ((r (assq %s (list %s)))) (if r (cdr r) r))' % (self.sym(), ' '.join('(cons %s %d)' % (self.sym(), i) for i in range(3))),
                                '(case %s ((%s) 1) ((%s) 2) (else 3))' % (self.sym(), ' '.join(n for n in self.nm if n in BASE) or 'zz', 'a list')]))
        elif c < 0.88:
            self.add('(begin (hashq-set! h %s %d) (list %s))' % (self.sym(), r.randint(0, 9), ' '.join('(hashq-ref h %s)' % self.sym() for _ in range(3))))
        elif c < 0.94:
            self.add(self.pick(['(symbol->string %s)', '(string-length (symbol->string %s))', '(begin (display %s) (newline))', '(symbol? %s)', '(string? %s)', '(eq? %s (string->symbol (symbol->string %s)))']).replace('%s', self.sym()))
        else:
            self.add(self.pick(['(symbol->string "a")', '(string->symbol (quote a))', '(symbol->string 5)', "(string->symbol '())", '(symbol? "a")', '(symbol? 1)', "(symbol? '())", '(symbol? #\\a)', '(symbol->string (list (quote a)))', '(gensym 5 6)']))

    def program(self, n):
        self.add('(define h (make-hash-table 7))')
        self.add("(define-macro (name-of x) (list 'quote x))")
        self.add("(define-macro (name-of2 x) `(car (list ',x 2)))")
        for _ in range(n):
            self.step()
        return self.forms


class P25(HistCheck):
    ID = 'P25'
    HIST = H
    RULE = ('random histories creating symbols with related names (prefixes, case variants, empty, long, with spaces and punctuation) by quoting, reading, macros and string->symbol of literal, appended, cut and mutated strings, '
            'comparing them directly and as keys, mutating the strings before and after, and generating fresh symbols; non-trivial: at least six results')
    LEN = (8, 40)
    N = {'quick': 24000, 'thorough': 400000}


CHECK = P25()
