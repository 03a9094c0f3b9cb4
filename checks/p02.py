from vlib.runner import Check
from vlib.gen import G, large


class W(G):
    """programs with long or deep instances of each core form"""

    def x(self, vs=(), d=1):
        """a small expression over integer variables"""
        v = lambda: self.pick(vs) if vs and self.chance(0.8) else str(self.int(-9, 30))
        c = self.r.random()
        if d <= 0 or c < 0.4:
            return v()
        if c < 0.7:
            return '(%s %s %s)' % (self.pick('+-'), v(), self.x(vs, d - 1))
        if c < 0.8:
            return '(begin (display %s) %s)' % (v(), v())
        if c < 0.9:
            return '(if (< %s %s) %s %s)' % (v(), v(), v(), v())
        return '((lambda (q) (+ q %s)) %s)' % (v(), v())

    def wide(self):
        r = self.r
        n = large(r, 60)
        ns = ['v%d' % i for i in range(n)]
        k = self.pick([n - 1, r.randrange(n), r.randrange(n), n])
        p = self.pick
        c = p(['cond', 'case', 'case', 'and', 'or', 'begin', 'body', 'let', 'let*', 'letrec', 'nlet', 'do', 'call', 'curry', 'deep', 'nest', 'seq', 'loop', 'loop', 'defs', 'clos', 'pal'])
        if c == 'cond':
            def clause(i):
                t = '#t' if i == k else p(['#f', '(= %d z)' % (i + 2 ** 20), '(begin (display %d) #f)' % i, '(not 1)', "(memq 'u '(a b))"])
                return p(['(%s %d)', '(%s %d)', '(%s (display "c") %d)', '(%s => (lambda (q) (list q %d)))'] + ['((and %s) %d)']) % (t, i)
            return '(let ((z %d)) (cond %s%s))' % (self.int(0, 9), ' '.join(clause(i) for i in range(n)), ' (else (list z 0))' if k == n or self.chance(0.5) else '')
        if c == 'case':
            m = large(r, 30, 1)
            ks = list(range(n * m))
            r.shuffle(ks)
            f = p(['%d', 'k%d', '%d', '%d/2' if n * m < 3 else '%d'])
            return "(case '%s %s %s)" % (f % r.randrange(n * m + 1), ' '.join('((%s) %s%d)' % (' '.join(f % q for q in ks[i * m:(i + 1) * m]), p(['', '', '(display "x") ']), i) for i in range(n)), p(['(else 0)', "(else (display 1) 'no)", '(else)' if False else '(else 1 2)']))
        if c == 'and':
            return '(and %s)' % ' '.join(('#f' if i == k else '(begin (display %d) %d)' % (i, i)) for i in range(n))
        if c == 'or':
            return '(or %s)' % ' '.join(('%d' % i if i == k else '(begin (display %d) #f)' % i) for i in range(n))
        if c == 'begin':
            return '(begin %s)' % ' '.join('(display %d)' % i for i in range(n)) if self.chance(0.3) else '(begin %s %d)' % (' '.join(p(['(display %d)', '%d']) % i for i in range(n)), n)
        if c == 'body':
            return '((lambda (a) %s (list a %s)) 5)' % (' '.join('(define %s %s)' % (v, self.x(ns[:i] + ['a'])) for i, v in enumerate(ns)), ' '.join(p(ns) for _ in range(4)))
        if c in ('let', 'let*', 'letrec'):
            if c == 'letrec' and self.chance(0.6):
                bs = ' '.join('(%s (lambda (n) (if (<= n 0) %d (%s (- n 1)))))' % (v, i, p([p(ns), ns[(i + 1) % n], ns[0]])) for i, v in enumerate(ns))
                return '(letrec (%s) (list (%s 9) (%s %d) (%s 0)))' % (bs, p(ns), p(ns), self.int(0, 60), ns[-1])
            vs = lambda i: ns[:i] if c == 'let*' else ['a', 'b']
            if c == 'let*' and self.chance(0.3):
                ns = [p(['a', 'b', 'c', 'd', 'e']) for _ in ns]
            return '(let ((a 1) (b 2)) (%s (%s) %s (list %s)))' % (c, ' '.join('(%s %s)' % (v, self.x(vs(i), 1)) for i, v in enumerate(ns)), p(['', '(set! %s (+ %s 100))' % (ns[k % n], ns[0]), '(define a %s)' % ns[-1]]), ' '.join([p(ns + ['a']) for _ in range(5)] + ns[-1:]))
        if c == 'nlet':
            ns = ns[:25]
            return '(let loop ((i 0) %s) (if (= i %d) (list %s) (loop (+ i 1) %s)))' % (' '.join('(%s %s)' % (v, self.x()) for v in ns), self.int(0, 9), ' '.join(ns), ' '.join(self.x(ns + ['i']) for v in ns))
        if c == 'do':
            ns = ns[:25]
            return '(do ((i 0 (+ i 1)) %s) ((= i %d) %s (list %s)) %s)' % (' '.join(p(['(%s %s %s)', '(%s %s %s)', '(%s %s)%.0s']) % (v, self.x(), self.x(ns + ['i'])) if False else
                                                                                  ('(%s %s %s)' % (v, self.x(), self.x(ns + ['i'])) if self.chance(0.75) else '(%s %s)' % (v, self.x())) for v in ns), self.int(0, 9),
                                                                         p(['', '(display i)']), ' '.join(ns), p(['', '(display i)', '(set! %s (+ %s 1))' % (p(ns), p(ns)), '(display "a") (display %s) 0' % p(ns)]))
        if c == 'call':
            rest = self.chance(0.4)
            m = p([n, 2, n // 2]) if rest else n
            return '((lambda (%s%s) (list %s)) %s)' % (' '.join(ns[:m]), ' . r' if rest else '', ' '.join([p(ns[:m] + ['r'] * rest) for _ in range(5)] + ['r'] * rest), ' '.join(self.x() for _ in range(n)))
        if c == 'curry':
            m = min(n, 12)
            sig = 'f'
            for v in ns[:m]:
                sig = p(['(%s %s)', '(%s %s)', '(%s %s . r)', '(%s)%.0s']) % (sig, v) if False else p(['(%s %s)', '(%s . %s)'] if self.chance(0.3) else ['(%s %s)']) % (sig, v)
            e = 'f'
            for i in range(m):
                e = '(%s %d)' % (e, i)
            return '(begin (define %s (list %s)) %s)' % (sig, ' '.join(ns[:m]), e)
        if c == 'deep':
            e = '(list %s)' % ' '.join(p(ns) for _ in range(6))
            m = min(n, 40)
            for i in reversed(range(m)):
                e = p(['(let ((%s %s)) %s)', '((lambda (%s) (display %s) %s) 3)' if False else '(let* ((%s %s)) %s)', '(letrec ((%s %s)) %s)', '(let ((%s %s)) (set! %s 1) %%s)' % ('%s', '%s', ns[i])]) % (ns[i], self.x(ns[:i]), e)
            return '(let (%s) %s)' % (' '.join('(%s 0)' % v for v in ns), e)
        if c == 'nest':
            e = '1'
            for i in range(large(r, 100)):
                e = p(['(+ %d %%s)' % i, '(if #t %s 0)', '(begin %s)', '(car (list %s 2))', '(let ((q %s)) q)', '(and 1 %s)', '(or #f %s)', '(cond (#f 0) (else %s))', '((lambda (q) q) %s)', '(case 1 ((1) %s))', '(do () (#t %s))', "(cdr (cons 'a %s))", '((lambda () %s))']) % e
            return e
        if c == 'seq':
            return '(begin (define x 0) %s x)' % ' '.join(p(['(set! x (+ x %d))', '(set! x (- %d x))', '(define x (+ x %d))', '(if (< x %d) (set! x (+ x 1)))']) % i for i in range(n))
        if c == 'loop':
            m = large(r, 3000)
            return p(['(do ((i 0 (+ i 1)) (s 0 (+ s i))) ((= i %d) s))', "(let ((l '())) (do ((i 0 (+ i 1))) ((= i %d) (list (length l) (car l))) (set! l (cons i l))))",
                      "(let loop ((i 0) (s 0)) (if (< i %d) (loop (+ i 1) (+ s i)) s))", "(let loop ((i 0)) (cond ((= i %d) 'end) (else (loop (+ i 1)))))", '(begin (define (f n) (if (= n 0) 0 (+ 1 (f (- n 1))))) (f (quotient %d 12)))',
                      '(letrec ((e? (lambda (n) (if (= n 0) #t (o? (- n 1))))) (o? (lambda (n) (if (= n 0) #f (e? (- n 1)))))) (e? (quotient %d 10)))', "(let ((fs '())) (do ((i 0 (+ i 1))) ((= i (quotient %d 10))) (set! fs (cons (lambda () i) fs))) (map (lambda (f) (f)) fs))"]) % m
        if c == 'defs':
            return '(begin %s (list %s))' % (' '.join(p(['(define (g%d x) (+ x %d))', '(define g%d (lambda (x) (- x %d)))']) % (i, self.int(0, 50)) for i in range(n)), ' '.join('(g%d %d)' % (r.randrange(n), i) for i in range(5)))
        if c == 'clos':
            m = large(r, 60)
            return "(let* ((mk (lambda (i) (lambda (d) (set! i (+ i d)) i))) (fs (map mk '(%s)))) (list (map (lambda (f) (f 1)) fs) ((list-ref fs %d) 5) (map (lambda (f) (f 0)) fs)))" % (' '.join(map(str, range(m))), r.randrange(m))
        return '((lambda (%s) (let ((%s %s)) (set! %s (+ %s 1)) (list %s))) %s)' % (' '.join(ns), ns[k % n], self.x(ns), ns[k % n], ns[k % n], ' '.join(ns), ' '.join(map(str, range(n))))


class P02(Check):
    ID = 'P02'
    RULE = ('random typed programs of 3-7 top-level forms over all core forms, and programs of long and deep instances of each form (up to 60 clauses, bindings, operands or levels, 3000 iterations), compared form by form with the reference interpreter; '
            'non-trivial: at least three procedure calls and one binding or control construct were executed by the reference')

    def gen(self, rng):
        if rng.random() < 0.1:
            g = W(rng)
            return {'forms': [g.wide() for _ in range(rng.randint(1, 4))], 'steps': 120000}
        g = G(rng, budget=rng.choice([20, 50, 90, 140]))
        return {'forms': g.program(depth=rng.choice([3, 4, 5]))}

    def nontrivial(self, case, m):
        return m.stats.get('call', 0) >= 3


CHECK = P02()
