from vlib.hist import Hist, WRONG
from vlib.gen import large
from vlib.histcheck import HistCheck

PIECES = ['a', 'b', 'xyz', ' ', '  ', '\\n', '(', ')', "'", '\\"', '\\\\', ';', ';c\\n', '#t', '#f', '12', '-3', '1.5', '2/3', 'foo', '()', '(1 2)', '(a . b)', '(a (b) "s t")', '#(1 2)', '\\"str\\"', '\\"q\\\\\\"r\\"', '#\\\\a', '#\\\\space', "'x", '`(1 ,y ,@z)', '\\t', '...', 'A', '.']
DATA = ['a', '12', '-3', '1.5', '2/3', '(1 2)', '(a . b)', '()', '#(1 (2) #\\\\a)', '\\"s t\\"', '\\"\\"', '#t', '#f', "'x", '(quote x)', '`(a ,b ,@c)', '#\\\\a', '#\\\\space', '#\\\\(', '#\\\\;', '(a (b (c)) \\"d)\\" ;c\\n e)', 'foo-bar', '-', '((1) (2))', '(a . (b c))']


class H(Hist):
    DUMP = False

    def __init__(self, rng):
        Hist.__init__(self, rng)
        self.pool = {'in': [], 'out': [], 'si': [], 'so': []}
        self.files = []
        self.nf = 0

    # ---- texts and objects ----
    def text(self):
        r = self.r
        c = r.random()
        if c > 0.99:
            return ''.join(self.pick(DATA) + self.pick([' ', ' ', '\\n']) for _ in range(large(r, 300)))
        if c < 0.35:
            return ''.join(self.pick(DATA) + self.pick([' ', ' ', '\\n', '  ', ' ;x\\n', '\\t']) for _ in range(r.randint(0, 5)))
        if c < 0.42:
            return ''.join(self.pick(DATA) for _ in range(r.randint(1, 3)) )
        if c < 0.5:
            return self.pick(['(1 2', '"abc', "'", '#\\\\', '(a "b', '(a . ', '#(1', '`(a ,']).replace('"', '\\"')
        return ''.join(self.pick(PIECES) for _ in range(self.pick([0, 1, 2, 4, 6, 10])))

    def lit_s(self):
        r = self.r
        c = r.random()
        if c < 0.85:
            return '"%s"' % self.text()
        if c < 0.92:
            return '(string %s)' % ' '.join(self.lit_c() for _ in range(self.r.randint(0, 6)))
        if c < 0.96:
            return '(make-string %d #\\%s)' % (self.pick([3, 100, 254, 255, 256, 257, 511, 513, 1500, large(r, 80000)]), self.pick('abz'))
        return '(string-append "%s" "%s")' % (self.text(), self.text())

    def lit_c(self):
        c = self.r.random()
        if c < 0.15:
            return '(integer->char %d)' % self.pick([1, 7, 13, 127, 128, 200, 255, 10, 9, 40, 59])
        return Hist.lit_c(self)

    def obj(self):
        c = self.r.random()
        if c < 0.3:
            return self.lit_s()
        if c < 0.4:
            return self.lit_c()
        if c < 0.6:
            return "'" + self.datum(2)
        return self.pick(["'(1 2 3)", "''a", "'`(a ,b)", '(vector 1 "a" #\\b)', '(list "a" #\\b 1.5 2/3)', '(cons 1 2)', '#f', "'()", '12', '-7', '2.5', "'sym", 'car', '(lambda (x) x)', '(list (list "x") \'(y . z))', '(string->symbol "a")'])

    def p(self, t):
        """a port expression of the given direction, sometimes the wrong one"""
        c = self.r.random()
        if c < 0.04:
            return self.pick(["'sym", '5', '"str"', '#t', '(list 1)', '#\\a'])
        if c < 0.07:
            t = {'in': 'out', 'out': 'in', 'si': 'so', 'so': 'si'}[t]
        if t == 'in' and self.pool['si'] and self.chance(0.15):
            t = 'si'
        if t == 'out' and self.pool['so'] and self.chance(0.2):
            t = 'so'
        return self.pick(self.pool[t]) if self.pool[t] else ('(open-input-string "%s")' % self.text() if t in ('in', 'si') else '(open-output-string)')

    def get(self, p=None):
        p = p or self.p('in')
        return self.pick(['(read-char %s)', '(read-char %s)', '(peek-char %s)', '(peek-char %s)', '(read %s)', '(read %s)', '(char-ready? %s)']) % p

    def put(self, p=None):
        p = p or self.p('out')
        c = self.r.random()
        if c < 0.35:
            return '(display %s %s)' % (self.obj(), p)
        if c < 0.65:
            return '(write %s %s)' % (self.obj(), p)
        if c < 0.85:
            return '(write-char %s %s)' % (self.lit_c(), p)
        return '(newline %s)' % p

    def current(self):
        """the ports used by procedures called without one"""
        r = self.r
        if self.chance(0.5):
            ops = ['(display %s)' % self.obj() for _ in range(r.randint(0, 2))] + [self.pick(['(write %s)' % self.obj(), '(newline)', '(write-char %s)' % self.lit_c(), '(force-output)', self.put()]) for _ in range(r.randint(0, 2))]
            r.shuffle(ops)
            self.add(self.pick(['(let ((old (set-current-output-port %s))) %s (set-current-output-port old) %d)', '(catch #t (lambda () (set-current-output-port %s) %s (throw (quote e) %d)) (lambda (k . a) (display "in") (set-current-output-port std) k))',
                                '(begin (set-current-output-port %s) %s (let ((p (current-output-port))) (set-current-output-port std) (list %d (output-port? p) (eq? p std))))',
                                '(begin (set-current-output-port %s) %s (for-each display (list 1 "b")) (write "s" std) %d)']) % (self.p('out'), ' '.join(ops), r.randint(0, 9)))
            if self.chance(0.3):
                self.step()
            self.add('(begin (set-current-output-port std) (display "back"))')
        else:
            x = self.p('in')
            self.add(self.pick(['(set! oldin (set-current-input-port %s))', '(eq? (current-input-port) (set-current-input-port %s))', '(input-port? (set-current-input-port %s))']) % x)
            for _ in range(r.randint(0, 3)):
                self.add(self.show(self.pick(['(read-char)', '(peek-char)', '(read)', '(char-ready?)', self.get(), '(list (peek-char) (read-char))', '(eof-object? (read-char))'])))
            if self.chance(0.3):
                self.add('(list (eq? (current-input-port) %s) (set-current-input-port %s))' % (x, self.pick(['5', self.p('out'), 'std', '"s"'])))

    def puts(self, p, n=None):
        return ' '.join(self.put(p) for _ in range(self.r.randint(0, 4) if n is None else n))

    def show(self, x):
        return '(let ((v %s)) (if (eof-object? v) (quote end) (list v)))' % x

    def fname(self):
        """a name that no open port uses"""
        c = [f for f in self.files if f not in self.m.openp]
        if c and self.chance(0.4):
            return self.pick(c)
        self.nf += 1
        f = 'f%d' % self.nf
        self.files.append(f)
        return f

    def define(self, t, text):
        n = self.fresh({'in': 'i', 'out': 'o', 'si': 'j', 'so': 'q'}[t] + t)
        self.nid += 1
        if self.add('(define %s %s)' % (n, text)) is not None:
            self.pool[t].append(n)
        return n

    SLURP = ["(define (slurp p) (let loop ((c (read-char p)) (l '())) (if (eof-object? c) (list->string (reverse l)) (loop (read-char p) (cons c l)))))",
             "(define (slurp p) (let loop ((l '())) (let ((k (peek-char p))) (let ((c (read-char p))) (if (eof-object? c) (list->string (reverse l)) (if (eq? k c) (loop (cons c l)) 'bad))))))",
             "(define (data p) (let loop ((d (read p)) (l '())) (if (eof-object? d) (reverse l) (loop (read p) (cons d l)))))"]

    def soft(self):
        """a soft port over a string or a log"""
        r = self.r
        mode = self.pick(['r', 'w', 'rw', 'w', 'r', 'r0', 'wr'])
        t = self.text()
        wr = ['(lambda (c) (set! log (cons c log)))', '(lambda (c) (display c) (display "|"))', '#f', 'lg', '(let ((n 0)) (lambda (c) (set! n (+ n 1)) (lg (list n c))))', '(lambda (c) (throw (quote sp) c))', '(lambda (s) (lg (string-append "<" s ">")))', '(lambda (c) (call/cc (lambda (k) (set! sk k))) (lg c))', '(lambda (c) (if (procedure? sk) (sk c) (lg c)))']
        rd = ['(let ((s "%s") (i 0)) (lambda () (if (< i (string-length s)) (begin (set! i (+ i 1)) (string-ref s (- i 1))) #f)))' % t] * 3 + [
            '(let ((p (open-input-string "%s"))) (lambda () (read-char p)))' % t, '(lambda () #\\x)', '(lambda () #f)', '#f', '(let ((n 0)) (lambda () (set! n (+ n 1)) (lg n) (if (< n 5) #\\a #f)))', '(lambda () 5)', '(lambda () (throw (quote sp) 1))', '(let ((n 0)) (lambda () (set! n (+ n 1)) (if (> n 4) #f (call/cc (lambda (k) (set! sk k) #\\r)))))']
        pv = [self.pick(wr[:6] + wr[7:]), self.pick([wr[0], wr[1], wr[3], wr[4], wr[5], wr[6], wr[7], wr[7], wr[8]]), self.pick(['(lambda () (lg \'flush))', '#f']), self.pick(rd) if 'r' in mode else '#f', self.pick(['(lambda () (lg \'close))', '#f'])]
        text = '(make-soft-port (vector %s) "%s")' % (' '.join(pv), mode)
        if self.chance(0.05):
            text = self.pick(['(make-soft-port (vector #f #f) "w")', '(make-soft-port (list #f #f #f #f #f) "r")', '(make-soft-port (vector #f #f #f #f #f) "x")', '(make-soft-port (vector #f #f #f #f #f) \'r)', '(make-soft-port (vector #f #f #f #f #f #f) "r")'])
        ts = (['si'] if 'r' in mode else []) + (['so'] if 'w' in mode else [])
        n = self.fresh('softport')
        if self.add('(define %s %s)' % (n, text)) and self.val(n) is not None:
            for t in ts:
                self.pool[t].append(n)

    def reenter(self):
        """a procedure of a port that is left by a continuation or entered again"""
        op = self.put(self.p('so')) if self.chance(0.6) else self.get(self.p('si'))
        self.add(self.pick(['(let ((n 0)) (set! sk #f) (let ((v %s)) (set! n (+ n 1)) (if (and (procedure? sk) (< n 3)) (sk #\\z)) (set! sk #f) (list n (length log))))',
                            '(begin (set! sk #f) (let ((v (call/cc (lambda (k) (set! sk k) %s 0)))) (set! sk #f) (list v)))',
                            '(let ((l (quote ()))) (set! sk #f) (let ((v %s)) (set! l (cons (list v) l)) (if (and (procedure? sk) (< (length l) 3)) (let ((k sk)) (set! sk #f) (k #\\y))) (set! sk #f) l))']) % op)

    def bulk(self):
        """a lot through one port"""
        r = self.r
        n = large(r, 3000, 20)
        o = self.p('out')
        unit = self.pick(['(write-char #\\%s p)' % self.pick('ab('), '(display i p)', '(write (list i "a") p) (newline p)', '(display (quote %s) p) (write-char #\\space p)' % self.pick(['sym', '(a "b" . c)', '#(1 (2))']), '(write-char (integer->char (+ 32 (remainder i 90))) p)'])
        if r.random() < 0.1:
            unit, n = '(display s p) (write i p)', large(r, 100)
        loop = '(do ((i 0 (+ i 1))) ((= i %d)) %s)' % (n, unit)
        c = r.random()
        if c < 0.3:
            self.add('(let ((p %s) (s (make-string 777 #\\())) %s 1)' % (o, loop))
            self.add('(get-output-string %s)' % o)
        elif c < 0.5:
            self.add('(let ((s (make-string 777 #\\a))) (string-length (call-with-output-string (lambda (p) %s))))' % loop)
        elif c < 0.7:
            f = self.fname()
            self.add('(let ((s (make-string 777 #\\;))) (call-with-output-file "%s" (lambda (p) %s 1)))' % (f, loop))
            self.add('(call-with-input-file "%s" %s)' % (f, self.pick(['slurp', 'slurp', 'data'])))
        elif c < 0.85:
            self.add('(let ((s (make-string 777 #\\b))) (call-with-input-string (call-with-output-string (lambda (p) %s)) %s))' % (loop, self.pick(['slurp', 'data'])))
        elif c < 0.93:
            x = self.pick(['(make-string %d #\\%s)' % (n * 5, self.pick('x(;')), '(string->symbol (make-string %d #\\x))' % n, '(make-vector %d (quote (a "b")))' % (n // 4), '(do ((i 0 (+ i 1)) (l (quote ()) (cons i l))) ((= i %d) l))' % (n // 4), '(do ((i 0 (+ i 1)) (l (quote ()) (list l))) ((= i %d) l))' % (n // 40 + 5)])
            self.add('(let* ((x %s) (s (call-with-output-string (lambda (p) (write x p) (display " " p) (write x p)))) (i (open-input-string s)) (a (read i)) (b (read i))) (list (string-length s) (equal? a x) (equal? b x) (eof-object? (read i))))' % x)
        else:
            # many ports open at the same time
            k = large(r, 60)
            self.add('(let* ((l (do ((i 0 (+ i 1)) (l (quote ()) (cons (open-output-string) l))) ((= i %d) l))) (n 0)) (for-each (lambda (p) (set! n (+ n 1)) (display n p)) l) (for-each (lambda (p) (write n p)) l) (map get-output-string l))' % k)
            self.add('(let* ((l (do ((i 0 (+ i 1)) (l (quote ()) (cons (open-input-string "ab(c %s") l))) ((= i %d) l)))) (map (lambda (p) (read-char p)) l) (map (lambda (p) (peek-char p)) l) (map slurp l))' % ('d)', k))
            self.add('(let* ((l (do ((i 0 (+ i 1)) (l (quote ()) (cons (open-output-file (string-append "m" (number->string i))) l))) ((= i %d) l)))) (for-each (lambda (p) (write (quote (m "x")) p)) l) (for-each close-output-port l) (call-with-input-file "m%d" slurp))' % (k, r.randrange(k)))

    def step(self):
        r = self.r
        if r.random() < 0.004:
            return self.bulk()
        c = r.random()
        if c < 0.07:
            self.define('in', '(open-input-string %s)' % self.lit_s())
        elif c < 0.12:
            self.define('out', '(open-output-string)')
        elif c < 0.17:
            self.define('out', '(open-output-file "%s")' % self.fname())
        elif c < 0.23 and self.files:
            f = self.pick(self.files)
            if f in self.m.openp and self.chance(0.9):
                o = [o for o in self.pool['out'] if getattr(self.val(o), 'path', None) == f]
                if o:
                    self.add('(close-output-port %s)' % o[-1])
            if self.chance(0.5):
                self.define('in', '(open-input-file "%s")' % f)
            else:
                self.add('(call-with-input-file "%s" %s)' % (f, self.pick(['slurp', 'data', '(lambda (p) (list (slurp p) (eof-object? (read-char p))))', '(lambda (p) %s)' % self.show(self.get('p')), '(lambda (p) (list (read-char p) (slurp p)))'])))
        elif c < 0.245:
            self.current()
        elif c < 0.28:
            self.soft()
            if self.chance(0.4):
                self.reenter()
        elif c < 0.47:
            self.add(self.show(self.get()))
        elif c < 0.62:
            self.add(self.put())
        elif c < 0.7:
            self.add('(get-output-string %s)' % self.p('out'))
        elif c < 0.73:
            self.add(self.pick(['(slurp %s)', '(data %s)', '(eof-object? (peek-char %s))']) % self.p('in'))
        elif c < 0.77:
            self.add('(close-%s-port %s)' % (('input', self.p('in')) if self.chance(0.5) else ('output', self.p('out'))))
        elif c < 0.79:
            self.add('(force-output %s)' % self.p('out'))
        elif c < 0.81:
            self.add('(list (input-port? %s) (output-port? %s) (eof-object? %s))' % (self.pick([self.p('in'), self.p('out'), '5']), self.pick([self.p('in'), self.p('out'), '"s"']), self.pick(['5', "'()", '(read-char (open-input-string ""))', '#f'])))
        elif c < 0.87:
            body = self.pick([self.puts('p'), self.puts('p') + ' ' + self.put() + ' ' + self.put('p'), '(display "x") %s (write (call-with-output-string (lambda (q) %s)) p)' % (self.put('p'), self.puts('q')),
                              '%s (catch #t (lambda () %s (throw (quote e) 1)) (lambda (k . a) %s))' % (self.put('p'), self.put('p'), self.put('p')), '(for-each (lambda (x) (write x p)) (list %s %s))' % (self.obj(), self.obj())])
            self.add('(call-with-output-string (lambda (p) %s 1))' % body)
        elif c < 0.9:
            self.add('(call-with-input-string %s %s)' % (self.lit_s(), self.pick(['slurp', 'data', 'read', 'read-char', '(lambda (p) (list (read-char p) (read p) (slurp p)))', '(lambda (p) %s)' % self.show(self.get('p')), '(lambda (p) (list (peek-char p) (slurp p)))'])))
        elif c < 0.94:
            f = self.fname()
            self.add('(call-with-output-file "%s" (lambda (p) %s %d))' % (f, self.puts('p'), r.randint(0, 9)))
            if self.chance(0.7):
                self.add('(call-with-input-file "%s" %s)' % (f, self.pick(['slurp', 'data'])))
        elif c < 0.96:
            # two ports interleaved
            a, b = self.p('out'), self.p('out')
            self.add('(begin %s)' % ' '.join(self.put(self.pick([a, b])) for _ in range(r.randint(2, 6))))
            self.add('(list log)')
        elif c < 0.975:
            self.add(self.pick(['(open-input-file "missing%d")' % r.randint(0, 9), '(open-input-file 5)', '(open-output-file (quote f))', '(call-with-input-file "missing" slurp)', '(call-with-input-string 5 slurp)', '(get-output-string (open-input-string "a"))', '(open-input-string 5)', "(write-char \"a\" (open-output-string))", '(call-with-output-string 5)', '(read-char 5)', '(peek-char "s")', '(close-input-port 5)', '(call-with-input-string "a" 5)']))
        else:
            # what was written with write is read back by read
            x = self.pick(["'" + self.datum(2), self.lit_s(), self.lit_c()])
            self.add('(let* ((x %s) (s (call-with-output-string (lambda (p) (write x p) %s (write x p)))) (i (open-input-string s)) (a (read i)) (b (read i))) (list (equal? a x) (equal? b x) a (eof-object? (read i))))' % (x, self.pick(['(newline p)', '(display " " p)', '(write-char #\\space p)'])))

    def program(self, n):
        self.add("(define log '())")
        self.add('(define sk #f)')
        self.add('(define std (current-output-port))')
        self.add('(define oldin (current-input-port))')
        self.add("(define (lg x) (set! log (cons x log)))")
        self.add(self.SLURP[0] if self.chance(0.5) else self.SLURP[1])
        self.add(self.SLURP[2])
        self.define('in', '(open-input-string %s)' % self.lit_s())
        self.define('out', '(open-output-string)')
        for _ in range(n):
            self.step()
        self.add('(list log)')
        for o in self.pool['out']:
            v = self.val(o)
            if v is not None and v.kind == 'string':
                self.add('(get-output-string %s)' % o)
            elif v is not None and v.kind == 'file':
                self.add('(begin (close-output-port %s) (call-with-input-file "%s" slurp))' % (o, v.path))
        for i in self.pool['in']:
            self.add('(slurp %s)' % i)
        return self.forms


class P19(HistCheck):
    ID = 'P19'
    HIST = H
    LEN = (8, 40)
    N = {'quick': 8000, 'thorough': 200000}
    TECH = 'model-based property testing: random histories of operations on string, file and soft ports against a reference model'
    RULE = ('random interleavings of reading, peeking and writing characters and data on several string, file and soft ports opened and closed in random order, '
            'written files read back in full at the end; non-trivial: at least six operations succeed')


CHECK = P19()
