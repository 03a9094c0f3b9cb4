"""Collection never shows: the same program with no collection, and with one at every N-th allocation, reclaimed memory overwritten."""
import os
import random
import re
import shutil
from vlib import drv, sx, shrink
from vlib.runner import Check, Res, load, drv_status

SOURCES = ['P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P14', 'P15', 'P16', 'P17', 'P18', 'P19', 'P24', 'P25', 'P27']


LITTER = ['(list i (list i) "x")', '(vector i (vector i))', '(let ((h (make-hash-table 5))) (hash-set! h i (list i)) h)', '(lambda (x) (+ x i))', '(string-append "abc" (number->string i))',
          '(force (delay (list i)))', "(catch 'a (lambda () (throw 'a i)) (lambda x x))", '(call/cc (lambda (k) (k i)))', '(map (lambda (x) (cons x i)) (list 1 2))', '(call-with-output-string (lambda (p) (write i p)))',
          '(/ (+ i 1) 7)', "(string->symbol (string-append \"s\" (number->string i)))", '(make-variable i)', "(apply list (list i i))", '(let lp ((j 0)) (if (< j 3) (lp (+ j 1)) j))', "`(a ,i ,@(list i))",
          "(catch #t (lambda () (car i)) (lambda x i))", '(dynamic-wind (lambda () i) (lambda () (list i)) (lambda () i))', "(eval (list '+ i 1))", '(read (open-input-string "(a (b . c) #(1 2))"))',
          '(make-vector 40 i)', '(make-string 30 #\\a)', '(let () (define-macro (m x) (list (quote list) x x)) (m i))']

# (make, get): make builds an object from which get takes the value of X back
HOLD = [
    ('(list 1 X)', '(cadr V)'), ('(cons X 2)', '(car V)'), ('(vector 1 2 X)', '(vector-ref V 2)'), ("(let ((h (make-hash-table 3))) (hash-set! h 'k X) h)", "(hash-ref V 'k)"),
    ('(let ((h (make-hash-table 1))) (hash-set! h 1 0) (hash-set! h X 1) (hash-set! h 2 0) h)', '(hash-fold (lambda (k v a) (if (= v 1) k a)) 0 V)'),
    ('(let ((h (make-hash-table 2))) (hashq-set! h (quote a) 1) (hash-create-handle! h "k" X) h)', '(cdr (hash-get-handle V "k"))'),
    ('(let ((x X)) (lambda () x))', '(V)'), ('((lambda (a . r) (lambda () (cadr r))) 1 2 X)', '(V)'), ('(let* ((x X) (f (lambda () x))) (lambda () (f)))', '(V)'), ('(letrec ((f (lambda () x)) (x X)) f)', '(V)'),
    ('(delay X)', '(force V)'), ('(let ((x X)) (delay (begin (churn 3) x)))', '(force V)'), ('(let ((p (delay X))) (force p) p)', '(force V)'), ('(let ((x X)) (let ((p (delay (delay x)))) (force p) p))', '(force (force V))'),
    ('(make-variable X)', '(variable-ref V)'), ('(let ((v (make-undefined-variable))) (variable-set! v X) v)', '(variable-ref V)'), ("(list (cons 'z 0) (cons 'a X))", "(cdr (assq 'a V))"),
    ('(call/cc (lambda (ret) (let* ((x X) (back (call/cc (lambda (k) (ret k))))) (churn 2) (back x))))', '(call/cc (lambda (back) (V back)))'),
    ('(call/cc (lambda (ret) (call-with-values (lambda () (values X (call/cc (lambda (k) (ret k))))) (lambda (x back) (back x)))))', '(call/cc (lambda (back) (V back)))'),
    ("(let ((x X)) (define-macro (m) (churn 1) (list 'quote x)) (lambda () (m)))", '(V)'), ('(let ((o (vector 0))) (churn 2) (vector-set! o 0 X) o)', '(vector-ref V 0)'), ('(let ((o (list 1 2 3))) (churn 2) (set-cdr! o X) o)', '(cdr V)'),
    ('(let ((o (list 1 2))) (set-cdr! (cdr o) (list X)) o)', '(caddr V)'), ("(catch 'k (lambda () (let ((x X)) (churn 2) (throw 'k 1 x))) (lambda (t a b) (churn 2) (list a b)))", '(cadr V)'), ('(map (lambda (i) (churn 1) X) (list 1 2 3))', '(list-ref V 2)'),
    ('(apply vector (list 1 X 3))', '(vector-ref V 1)'), ("(eval (list 'list (list 'quote X)))", '(car V)'), ('`(1 ,X ,@(list 2 3))', '(cadr V)'), ('(list->vector (list X 1))', '(car (vector->list V))'),
    ('(let lp ((i 0) (x X)) (if (< i 3) (begin (churn 1) (lp (+ i 1) x)) (list x i)))', '(car V)'), ('(do ((i 0 (+ i 1)) (x (list X) (cons i x))) ((= i 3) x) (churn 1))', '(list-ref V 3)'),
    ('(dynamic-wind (lambda () (churn 1)) (lambda () (list X)) (lambda () (churn 1)))', '(car V)'), ('(case 1 ((1) (vector X)) (else 0))', '(vector-ref V 0)'), ('(cond ((list X) => (lambda (x) (churn 1) x)))', '(car V)'),
    ('(let ((c (cons 0 X))) (define (get) (churn 1) (cdr c)) get)', '(V)'), ('(assoc-set! (list (cons "a" 1)) "b" X)', '(cdr (assoc "b" V))'), ('(acons X 1 (list))', '(car (car V))'),
    ('(let ((q (list X))) (for-each (lambda (i) (set! q (cons i q)) (churn 1)) (list 1 2)) q)', '(caddr V)'), ('(let ((p (make-soft-port (vector (lambda (c) 1) (lambda (s) 1) (lambda () 1) (let ((x X)) (lambda () (set! cell (list x)) #\\a)) (lambda () 1)) "rw"))) (lambda () (read-char p) (car cell)))', '(V)'),
]
LEAF = ['17', '"abc"', '(string-append "ab" "cd")', "'sym", '(/ 22 7)', '2.5', '#\\q', "'(1 (2 . 3) #(4))", '#t', "'()", '(string->symbol "Sy m")', '(expt 2 40)', '(symbol->string (quote abc))', '(number->string 123)', '(list 1 2 3)', '(string #\\a)',
        "(vector 'a \"b\" #\\c)", '(read (open-input-string "(x \\"y\\" . z)"))']
STR = ('(let ((p (open-output-string))) (write X p) (churn 2) p)', '(read (open-input-string (get-output-string V)))')
STR2 = ('(let ((x X)) (open-input-string (call-with-output-string (lambda (p) (churn 1) (write x p)))))', '(read V)')


PRE = ['(define keep 0)', '(define pair (list 1))', '(define table (make-hash-table 5))', '(define vec (make-vector 10 0))']


def stash(rng):
    """objects of every kind nested in each other, kept while memory is reused, then taken apart"""
    forms = ['(define cell 0)', "(define named '())", '(define table (make-hash-table 3))', '(define (churn n) (do ((i 0 (+ i 1))) ((= i n) 0) %s))' % ' '.join(rng.sample(LITTER, rng.randint(1, 4)))]
    live = {}
    n = 0
    for _ in range(rng.randint(3, 14)):
        c = rng.random()
        if c < 0.5 or not live:
            leaf = rng.choice(LEAF)
            hs = []
            make = leaf
            if rng.random() < 0.15:
                hs.append(rng.choice([STR, STR2]))
                if leaf in ('2.5', '(string->symbol "Sy m")') or '/' in leaf:
                    leaf = make = '42'
                make = hs[0][0].replace('X', make)
            for _ in range(rng.randint(1, 4)):
                h = rng.choice(HOLD)
                make = h[0].replace('X', make)
                hs.append(h)
            old = [v for v in live if live[v][2]]
            name = rng.choice(old) if old and rng.random() < 0.2 else 'g%d' % n
            n += 1
            if name in live:
                forms.append('(set! %s %s)' % (name, make))
            else:
                forms.append('(define %s %s)' % (name, make))
            live[name] = (leaf, hs, True)
        elif c < 0.65:
            forms.append('(churn %d)' % rng.choice([3, 20, 60]))
        elif c < 0.75:
            forms.append(rng.choice(['(begin (gc) 0)', '(begin (gc) 0)', '(let () (define (nm%d x) x) (set! named (cons nm%d named)) 0)' % (n, n), '(let () (define-macro (mc%d x) x) 0)' % n, '(begin (display named) 0)',
                                     "(begin (eval '(define (tl%d a . r) r)) (display tl%d) 0)" % (n, n), '(begin (display (map procedure-name named)) 0)', '(begin (display (list car (current-module) (current-output-port) (delay 1) table)) 0)']))
            n += 1
        elif c < 0.85 and len(live) > 1:
            # b now lives inside a
            a, b = rng.sample(sorted(live), 2)
            h = rng.choice(HOLD)
            forms.append('(let ((t %s)) (set! %s %s))' % (b, a, h[0].replace('X', 't')))
            if a in live and b in live:
                live[a] = (live[b][0], live[b][1] + [h], True)
                forms.append('(set! %s 0)' % b)
                del live[b]
        else:
            a = rng.choice(sorted(live))
            forms.append(get(a, live[a]))
            if not reusable(live[a]):
                del live[a]
    for a in sorted(live):
        forms.append(get(a, live[a]))
        if reusable(live[a]) and rng.random() < 0.3:
            forms.append(get(a, live[a]))
    return forms


def reusable(v):
    return not any(h is STR2 for h in v[1])


def get(name, v):
    e = name
    for h in reversed(v[1]):
        e = h[1].replace('V', e)
    return '(equal? %s %s)' % (v[0], e)


BODIES = ['(list i i)', '(vector i i i)', '(make-hash-table 7)', '(string-append "abc" "def")', '(string->symbol "abc")', '(lambda (x) (+ x i))', '(let ((a i) (b 2)) (lambda () a))', '(force (delay (list i)))',
          "(catch 'a (lambda () (throw 'a i)) (lambda x 1))", '(catch #t (lambda () (car i)) (lambda x 1))', '(call/cc (lambda (k) (k i)))', '(call-with-output-string (lambda (p) (display "hello" p)))',
          '(read-char (open-input-string "hello"))', '(/ (+ i 1) 3)', '(* 1.5 i)', '(dynamic-wind (lambda () 1) (lambda () i) (lambda () 2))', "(eval '(lambda (x) x))", '(gensym)', '(number->string i)',
          '(map (lambda (x) x) (list 1 2))', '(let ((h (make-hash-table 3))) (hash-set! h i i) h)', '(make-variable i)', '`(a ,i ,@(list i))', '(let () (define-macro (m x) x) (m i))', '(call-with-values (lambda () (values i 2)) list)',
          '(apply + (list i i))', '(for-each (lambda (x) x) (list 1 2))', '(case i ((1) 2) (else 3))', '(read (open-input-string "(a b (c))"))', '(make-vector 20 i)', '(make-string 40 #\\a)', '(let loop ((j 0)) (if (< j 1) (loop (+ j 1)) j))',
          '(do ((j 0 (+ j 1))) ((= j 1) j))', '(make-soft-port (vector #f #f #f (lambda () #f) #f) "r")', '(delay i)', '(let* ((a i) (f (lambda () a))) f)', '(letrec ((f (lambda () (f)))) f)', '(define x (list i))', '(set! keep (list i))',
          '(hash-set! table (modulo i 10) (list i))', '(vector-set! vec (modulo i 10) (vector i))', '(let ((p (open-output-string))) (write i p) (get-output-string p))', '(list->vector (vector->list (vector i i)))', '(reverse (list 1 2 i))',
          '(string->list "abc")', '(symbol->string (quote abc))', '(string->number "12.5")', '(append (list i) (list i))', '(assq i (list (cons i i)))', '(set-cdr! pair (list i))', '(char-upcase #\\a)', '(open-output-string)']


def plainrecs(recs):
    # everything but addresses, printed names of procedures and modules included
    out = []
    for r in recs:
        if r[0] == 'G':
            continue
        r = tuple(re.sub('0x[0-9a-f]+', '0x', x) if isinstance(x, str) and i else x for i, x in enumerate(r))
        if r[0] == 'O' and out and out[-1][0] == 'O':
            out[-1] = ('O', out[-1][1] + r[1])
        else:
            out.append(r)
    return out


class P20(Check):
    TECH = 'differential property testing: collection forced at every N-th allocation with reclaimed memory overwritten, against the run without collections'
    ID = 'P20'
    VARIANTS = ['gc', 'plain']
    RULE = ('programs of the generators of twenty other properties, and stores of objects of every type nested in each other and taken apart again after their neighbours were reclaimed, '
            'run without a collection and with one at every N-th allocation (often with reclaimed blocks overwritten): the same output, values and errors; loops making garbage of random kinds run n and 3n times '
            'within the same peak memory; non-trivial: at least five collections hit the program, or the loop allocates')
    N = {'quick': 4000, 'thorough': 80000}

    def gen(self, rng):
        c = rng.random()
        if c < 0.025:
            return {'forms': ['(define (f i) %s)' % ' '.join(rng.sample(BODIES, rng.randint(2, 4)))], 'kind': 'mem', 'n': 10000}
        if c < 0.35:
            case = {'forms': stash(rng), 'from': 'stash', 'kind': 'stash'}
        else:
            src = rng.choice(SOURCES)
            case = load(src).gen(rng)
            case['from'] = src
        case['collections'] = rng.choice([60, 150, 300, 1500])
        case['phase'] = rng.randint(0, 50)
        case['poison'] = rng.random() < 0.75
        return case

    def put(self, ctx, case):
        self.clean(ctx)
        for f, t in (case.get('files') or {}).items():
            p = os.path.join(ctx.tmp, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as fh:
                fh.write(t if isinstance(t, str) else '\n'.join(t) + '\n')

    def clean(self, ctx):
        for d in os.listdir(ctx.tmp):
            p = os.path.join(ctx.tmp, d)
            if os.path.isdir(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)

    def judge(self, ctx, case):
        if case.get('kind') == 'mem':
            return self.memory(ctx, case)
        mode = case.get('mode', 'p')
        self.put(ctx, case)
        st, out = ctx.run(case['forms'], mode + 'g1000000000', variant='gc', timeout=2000)
        recs, done = drv.parse(out)
        g = [r for r in recs if r[0] == 'G']
        if st != '0' or not g:
            return Res('skip', 'no result without collections: ' + drv_status(st), ('skip: %s' % st,))
        allocs = int(g[0][1].split()[2])
        every = max(1, allocs // case['collections'])
        every += case['phase'] % 3 if every > 1 else 0
        self.put(ctx, case)
        st2, out2 = ctx.run(case['forms'], mode + 'g%d%s' % (every, 'P' if case['poison'] else ''), variant='gc', timeout=20000)
        self.clean(ctx)
        recs2, done2 = drv.parse(out2)
        labels = ['from ' + case.get('from', '?')]
        g2 = [r for r in recs2 if r[0] == 'G']
        ncol = int(g2[0][1].split()[0]) if g2 else 0
        nt = ncol >= 5
        how = 'with a collection at every %d-th allocation%s' % (every, ' and reclaimed memory overwritten' if case['poison'] else '')
        if st2 != '0':
            return Res('fail', '%s the interpreter ended with %s after %d records, without it runs through' % (how, drv_status(st2), len(recs2)), labels, nt)
        a, b = plainrecs(recs), plainrecs(recs2)
        for i in range(max(len(a), len(b))):
            x = a[i] if i < len(a) else None
            y = b[i] if i < len(b) else None
            if x != y:
                return Res('fail', 'record %d: without collections %s; %s %s' % (i, drv.show(x), how, drv.show(y)), labels, nt)
        if case.get('kind') == 'stash':
            for i, x in enumerate(a):
                if x[0] not in 'VNOD' or x == ('V', '#f'):
                    return Res('fail', 'record %d: a stored value is lost: %s' % (i, drv.show(x)), labels, nt)
        return Res('ok', '', labels, nt)

    def memory(self, ctx, case):
        peak = []
        for n in (case['n'], 3 * case['n']):
            st, out = ctx.run(PRE + case['forms'] + ['(do ((i 0 (+ i 1))) ((= i %d) 1) (f i))' % n], 'pM', timeout=60000)
            recs, done = drv.parse(out)
            g = [r for r in recs if r[0] == 'G']
            if st != '0' or not g:
                return Res('fail', 'a loop of %d iterations ended with %s' % (n, drv_status(st)), ('memory',), True)
            if any(r[0] == 'E' for r in recs):
                return Res('skip', 'error in the loop: %s' % (recs[-3:],), ('skip: loop error',))
            peak.append(int(g[0][1].split()[3]))
        if peak[1] - peak[0] > 1024 + 0.02 * case['n']:
            return Res('fail', 'peak memory grows with the number of iterations: %d kB for %d, %d kB for %d' % (peak[0], case['n'], peak[1], 3 * case['n']), ('memory',), True)
        return Res('ok', '', ('memory',), True)

    def shrink(self, ctx, case):
        def bad(r):
            return r.kind == 'fail' and 'not found' not in r.msg
        c = dict(case)
        if case.get('kind') == 'stash':
            i = 4
            while i < len(c['forms']):
                d = dict(c, forms=c['forms'][:i] + c['forms'][i + 1:])
                if bad(self.judge(ctx, d)):
                    c = d
                else:
                    i += 1
            return c
        c['forms'] = shrink.shrink_forms(list(case['forms']), lambda fs: bad(self.judge(ctx, dict(case, forms=fs))))
        return c


CHECK = P20()
