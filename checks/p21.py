"""No expression kills the interpreter: calls with arguments of any type, malformed special forms, damaged program text."""
import os
import random
import re
from vlib import drv, sx, shrink
from vlib.runner import Check, Res, load, drv_status
from vlib.gen import weighted

# procedures and special operators known at the pinned commit; exit and the ones that wait for input or read other files are left out
PROCS = '''* + - / < <= = > >= abs acons append apply assoc assoc-ref assoc-remove! assoc-set! assq assq-set! assv boolean? caddr cadr
call-with-current-continuation call-with-input-file call-with-input-string call-with-output-file call-with-output-string call/cc car catch cddr cdr char->integer char-alphabetic? char-ci<=? char-ci<? char-ci=?
char-ci>=? char-ci>? char-downcase char-lower-case? char-numeric? char-ready? char-upcase char-upper-case? char-whitespace? char<=? char<? char=? char>=? char>? char? close-input-port close-output-port complex? cons
current-error-port current-input-port current-module current-output-port debug-options-interface defined? display eof-object? eq? equal? eqv? eval even? exact? expt force force-output gc gcd gensym get-output-string
hash-create-handle! hash-fold hash-get-handle hash-ref hash-remove! hash-set! hashq-create-handle! hashq-get-handle hashq-ref hashq-remove! hashq-set! hashv-create-handle! hashv-get-handle hashv-ref hashv-remove!
hashv-set! inexact? input-port? integer->char integer? last-pair lcm length list list->string list->vector list-head list-ref list-tail list? load macroexpand macroexpand-1 make-hash-table make-soft-port make-string
make-undefined-variable make-variable make-vector map map-in-order max member memq memv min module-bound? module-map module-ref module-use! module? modulo negative? newline noop not null? number->string number? odd?
open-input-file open-input-string open-output-file open-output-string output-port? pair? peek-char positive? primitive-load procedure-name procedure? quotient rational? read read-char read-options-interface real?
remainder resolve-module reverse scm-make-smob scm-make-smob-type scm-smob-data scm-smob? set-car! set-cdr! set-current-error-port set-current-input-port set-current-output-port sqrt string string->list
string->number string->symbol string-append string-ci<=? string-ci<? string-ci=? string-ci>=? string-ci>? string-length string-ref string-set! string<=? string<? string=? string>=? string>? string? substring
symbol->string symbol? throw values variable-bound? variable-ref variable-set! variable? vector vector->list vector-length vector-ref vector-set! vector? write write-char zero? for-each dynamic-wind
call-with-values'''.split()
MUTATORS = {'set-car!', 'set-cdr!', 'vector-set!', 'hash-set!', 'hashq-set!', 'hashv-set!', 'hash-create-handle!', 'hashq-create-handle!', 'hashv-create-handle!', 'variable-set!', 'assoc-set!', 'assq-set!', 'module-use!'}
CONST = '''0 1 -1 2 3 7 255 256 -2147483649 4611686018427387904 9223372036854775807 -9223372036854775808 1/2 -7/3 9223372036854775807/2 0.0 -0.5 1.5 1e300 -1e-300 "" "a" "abc" "12" "#x1f" "1/0" "a\\\\nb"
"." "/dev/null" #\\a #\\space #\\0 #t #f '() 'a 'else 'quote '|| '(1 2 3) '(1 . 2) '((a . 1) (b . 2)) '(a (b c) . d) '#(1 2 3) '#() '((1 2) (3 4)) '(#t #f) '("x" "y") '(#\\a #\\b) '(quote a) '(a . b) '(pscm-user) '(no such module)'''.split('\n')
CONST = [sx.text(d) for d in sx.read_all(' '.join(CONST).replace("'||", ''))]
FRESH = ['(list 1 2 3)', '(cons 1 2)', '(vector 1 2 3)', '(make-vector 3 0)', '(make-hash-table 7)', '(make-hash-table)', '(let ((h (make-hash-table 3))) (hash-set! h "a" 1) (hashq-set! h (quote b) 2) h)', '(string-append "ab" "c")', '(make-string 3 #\\a)',
         '(lambda () 1)', '(lambda (x) x)', '(lambda (x y) (list x y))', '(lambda x x)', '(lambda (x . r) r)', '(lambda (a b c) a)', 'car', 'cons', '+', 'list', 'apply', 'map', 'call/cc', 'hash-ref', 'length', 'for-each', 'call-with-values', 'catch', 'throw', 'eval', 'values',
         '(delay 1)', '(delay (car 1))', '(let ((p (delay 5))) (force p) p)', '(open-input-string "(a b) c")', '(open-input-string "")', '(open-output-string)', '(let ((p (open-input-string "x"))) (close-input-port p) p)',
         '(let ((p (open-output-string))) (close-output-port p) p)', '(current-output-port)', '(current-input-port)', '(current-error-port)', '(make-soft-port (vector (lambda (c) 1) (lambda (s) 1) (lambda () 1) (lambda () #\\a) (lambda () 1)) "rw")',
         '(make-soft-port (vector #f #f #f (lambda () #f) #f) "r")', '(make-soft-port (vector 1 2 3 4 5) "rw")', '(make-soft-port (vector (lambda () 1) (lambda () 1) (lambda (x) 1) (lambda (x) 1) (lambda (x) x)) "rw")', '(make-variable 1)', '(make-undefined-variable)',
         '(current-module)', "(resolve-module '(fresh mod))", '(read-char (open-input-string ""))', '(if #f #f)', '(call/cc (lambda (k) k))', '(string->symbol "")', '(string->symbol "A b")', '(gensym)', '(expt 2 62)', '(/ 1 3)', '(sqrt -1)', '(sqrt 2)',
         '(expt 0.0 -1)', '(- (expt 10.0 300) 1)', '(list (list 1) (list 2 3))', "(list (cons 'a 1) (cons \"b\" 2) 3)", '(list + - *)', "(list 'quote 1)", "(list 'lambda '(x) 'x)", "(list 'if)", '(scm-make-smob-type "t" 0)', 'm1', '(quote m1)', "(list 'm1 1)",
         '(vector (vector))', '(list->string (list))', '(symbol->string (quote abc))', '(procedure-name car)', "(define z 1)", '(begin)', '(string #\\a)', '(number->string 1.5)', '(apply vector (list 1 2))', '(values 1 2)', '(values)']
RESET = '(set-current-output-port %std)'      # the probes write to the standard output again
PRELUDE = ['(define %std (current-output-port))', '(define-macro (m1 x) (list (quote list) x x))', '(define v1 (list 1 2 3))', '(define h1 (make-hash-table 3))', '(define k1 (call/cc (lambda (k) k)))', '(define p1 (open-input-string "a b c"))', '(define o1 (open-output-string))', '(define (f1 x . r) (cons x r))']
VARS = ['v1', 'h1', 'p1', 'o1', 'f1', 'm1']
# probes: what must still work afterwards
PROBES = [('(+ 1 2)', '3'), ("(let ((x (list 1 2))) (map (lambda (y) (* y 2)) x))", '(2 4)'), ("(catch 'oops (lambda () (throw 'oops 7)) (lambda (k v) (list k v)))", '(oops 7)'), ('(call/cc (lambda (k) (+ 1 (k 5))))', '5'),
          ('(let ((h (make-hash-table 5))) (hash-set! h "k" (vector 1 "x")) (hash-ref h "k"))', '#(1 "x")'), ('(call-with-output-string (lambda (p) (write (list 1.5 #\\a "s") p)))', '"(1.5 #\\\\a \\"s\\")"'),
          ('(dynamic-wind (lambda () 1) (lambda () (force (delay 4))) (lambda () 2))', '4'), ('(begin (gc) (length (list 1 2 3)))', '3'), ('(let loop ((i 0) (a 0)) (if (= i 10) a (loop (+ i 1) (+ a i))))', '45'),
          ("(read (open-input-string \"(p . q)\"))", '(p . q)'), ('(string-append "a" (number->string 12) (symbol->string (quote z)))', '"a12z"')]

FORMS = ['(if #t 1 2)', '(if #f 1)', '(define x 1)', '(define (f a b) a b)', '(define (f a . r) r)', '(lambda (x) x)', '(lambda x x)', '((lambda (x y . z) z) 1 2 3)', '(let ((x 1) (y 2)) (+ x y))', '(let* ((x 1) (y x)) y)', '(letrec ((f (lambda (n) n)) (g 2)) (f g))',
         '(let loop ((i 0)) (if (< i 2) (loop (+ i 1)) i))', '(cond ((= 1 2) 3) (else 4))', '(cond (1 => list) (else 2))', '(cond (#f 1) ((list 2)))', '(case 3 ((1 2) 4) ((3) 5) (else 6))', '(do ((i 0 (+ i 1)) (j 1)) ((= i 2) j) (list i))', '(do ((i 0 (+ i 1))) ((= i 2)))',
         '(begin 1 2)', '(and 1 2)', '(or #f 2)', '(quote a)', "'(a . b)", '`(a ,(+ 1 2) ,@(list 3 4) . 5)', '`#(1 ,(+ 1 1) ,@(list 3))', '`(1 `(2 ,(3 ,(+ 1 3))))', '(quasiquote (a (unquote b)))', '(set! v1 2)', '(delay (+ 1 2))', '(force (delay 1))', '(define-macro (mm a . b) `(list ,a ,@b))',
         '(mm 1 2)', '(m1 5)', '(define-macro (n0) 1)', '(n0)', '(define-macro mz (lambda (x) x))', '(call/cc (lambda (k) (k 1)))', '(call-with-values (lambda () (values 1 2)) +)', '(dynamic-wind (lambda () 1) (lambda () 2) (lambda () 3))', '(map + (list 1 2) (list 3 4))',
         '(for-each display (list 1 2))', '(apply + 1 2 (list 3))', '(map-in-order car (list (list 1)))', "(catch 'a (lambda () (throw 'a 1 2)) (lambda (k . r) r))", "(catch #t (lambda () (car 1)) (lambda x x))", "(eval '(+ 1 2))", "(eval (list 'if #t 1))",
         '(let () (define a 1) (define (b) a) (b))', '(define-module (fresh two) #:use-module (fresh three) #:export (a b))', '(define-module (pscm-user))', '(use-modules (fresh four))', '(export a)', '(define-public pq 1)', '(define-public (pr x) x)', '(re-export car)', '(macroexpand \'(m1 2))',
         '(let-values (((a b) (values 1 2))) a)', '(else 1)', '(=> 1)', '(unquote x)', '(unquote-splicing x)', '(lambda (x) (define y x) (set! y 2) y)', '(call-with-current-continuation (lambda (k) (dynamic-wind (lambda () 1) (lambda () (k 2)) (lambda () 3))))',
         '(let ((x 1)) (define-macro (lm y) y) (lm x))', '(use-modules ((fresh five) #:select (a)))', '(module-ref (current-module) (quote car))', '(procedure-name f1)', '(set! (f1 1) 2)']
ATOMS = ['1', '0', "x", 'f1', '()', '#t', '#f', '"s"', '#\\a', "'a", 'else', '=>', '.', '(1 . 2)', '(. 1)', "(x)", '((x))', '((x 1 2))', '((1 2))', '(())', '(x . y)', '(x . 1)', '#(1)', 'quote', 'unquote', 'unquote-splicing', 'lambda', 'define', 'if', '(if)', '(let)', '(lambda)', '(quote)',
         ',x', ',@x', '#:key', '(car)', '(car 1)', 'undefined-name', '1.5', '1/2', 'm1', '(m1)', '(m1 1 2)', '(define y 1)', '(begin)', '((lambda (x) x))', '(list 1 2)']

# nesting too deep for the C stack: data and code built in a loop, procedures that never stop calling
WRAP = ['(list l)', '(vector l)', "(list 'quote l)", "(list 'quasiquote l)", "(list 'begin l)", "(list 'lambda '() l)", "(list 'if #t l)", "(list '+ l 1)", "(list 'let '((x 1)) l)", '(cons l 1)', '(list 1 l 2)', "(list 'and l)", "(list 'cond (list #t l))",
        "(list 'list l)", "(list 'unquote l)", "(list (list 'lambda '() l))", "(list 'define 'zz l)", "(list 'set! 'v1 l)", "(list 'or #f l)", "(list 'case 1 (list '(1) l))", "(list 'let* '((x 1)) l)", "(list 'letrec '() l)",
        "(list 'do '((i 0 (+ i 1))) (list '(= i 1) l))", "(list 'delay l)", "(list 'force (list 'delay l))", "(list 'apply 'list (list 'list l))", "(list 'call/cc (list 'lambda '(k) l))", "(list 'define-macro '(zm x) l)", "(list 'unquote-splicing l)",
        "(list 'catch #t (list 'lambda '() l) 'list)", "(list 'map 'car (list 'list l))", '(acons l 1 (list))', '(make-variable l)', '(let ((h (make-hash-table 1))) (hash-set! h 1 l) h)', '(lambda () l)', "(list 'eval (list 'quote l))"]
OPS = ['(eval D)', "(eval (list 'quasiquote D))", "(eval (list 'quote D))", '(string-length (call-with-output-string (lambda (p) (write D p))))', '(string-length (call-with-output-string (lambda (p) (display D p))))', '(equal? D E)', "(macroexpand (list 'quote D))",
       '(macroexpand D)', '(macroexpand-1 D)', '(let ((h (make-hash-table 3))) (hash-set! h D 1) (hash-ref h E))', '(member E (list 1 D))', '(assoc E (list (cons 1 2) (cons D 1)))', '(begin (gc) 1)', '(length D)', '(read (open-input-string (call-with-output-string (lambda (p) (write D p)))))',
       '(assoc-set! (list (cons D 1)) E 2)', '(apply list D)', '(list->vector D)', '(memq D (list D))', '(reverse D)', "(throw 'deep D)", '(car (vector-ref D 0))', '(append D E)', '(begin (set! D 0) (gc) 1)', '(+ 1 D)', '(string-append "a" D)', '(D 1)', '((lambda (x) x) D E)']
ENDLESS = ['(+ 1 (h n))', '(begin (h n) 1)', "(begin (map (lambda (x) (h x)) (list 1)) 1)", '(h (h n))', '(+ 1 (force (delay (h n))))', '(begin (apply h (list n)) 1)', "(catch 'a (lambda () (h n)) list)", '(catch #t (lambda () (+ 1 (h n))) (lambda x (+ 1 2)))',
           '(begin (for-each h (list n)) 1)', "(begin (eval (list 'h n)) 1)", '(call-with-output-string (lambda (p) (h n)))', '(call-with-output-string (lambda (p) (write (h n) p)))', '(hash-fold (lambda (k v a) (h 1)) 1 t1)', '`(1 ,(h n))', '`(1 ,@(h n) 2)', '`#(,(h n))', '(call/cc (lambda (k) (+ 1 (h n))))',
           '(dynamic-wind (lambda () 1) (lambda () (+ 1 (h n))) (lambda () 2))', '(dynamic-wind (lambda () (h n)) (lambda () 1) (lambda () 2))', '(call-with-values (lambda () (h n)) list)', '(call-with-input-string "x" (lambda (p) (h n)))', '(let ((x (h n))) x)', '(let loop ((i (h n))) i)',
           '(do ((i (h n) 1)) (#t i))', '(cond ((h n) 1))', '(case (h n) ((1) 2))', '(and (h n) 1)', '(or (h n) 1)', '(if (h n) 1 2)', '(begin (set! v1 (h n)) 1)', '(let () (define x (h n)) x)', '(map-in-order h (list n))', '(vector (h n))', "(eval '(list (h 1)))", '(let-values (((a) (h n))) a)',
           '(assoc (h n) (list 1))', '(begin (read-char (make-soft-port (vector #f #f #f (lambda () (h n)) #f) "r")) 1)', '(begin (write-char #\\a (make-soft-port (vector (lambda (c) (h n)) (lambda (s) (h n)) (lambda () 1) #f #f) "w")) 1)', '(let () (define-macro (m2 x) (h x)) (m2 1))', '(let* ((x 1) (y (h x))) y)',
           '(letrec ((y (h 1))) y)', "(macroexpand '(m2 1))", '(apply apply (list h (list n)))', '(primitive-load "self.scm")', '(begin (throw (h n)) 1)', '(sqrt (h n))']


class P21(Check):
    ID = 'P21'
    TECH = 'fuzzing: builtin calls over all argument types, mutated special forms and mutated program text, with liveness probes and an address-sanitized build as oracle'
    VARIANTS = ['plain', 'asan']
    RULE = ('builtin procedures applied to random arguments of every type (nested up to three deep), special forms with parts removed, duplicated, swapped or replaced, and program text damaged byte by byte; '
            'the process must survive, every error must be caught, no result may be absent, and fixed probes must still give their values; non-trivial: every case')
    N = {'quick': 30000, 'thorough': 600000}

    # ---- generation ----
    def arg(self, rng, d, fresh=False):
        c = rng.random()
        if d > 0 and c < 0.25:
            return self.call(rng, d - 1)
        if c < 0.6:
            return rng.choice(CONST)
        if not fresh and c < 0.68:
            return rng.choice(VARS)
        return rng.choice(FRESH)

    def call(self, rng, d):
        while 1:
            t = self.call1(rng, d)
            # closing standard output ends what the driver can see
            if not ('close-' in t and re.search('current-(output|error)-port', t)):
                return t

    def call1(self, rng, d):
        p = rng.choice(PROCS)
        if p in ('load', 'primitive-load', 'open-input-file', 'call-with-input-file', 'open-output-file', 'call-with-output-file') and rng.random() < 0.5:
            p = 'car'
        n = weighted(rng, [(2, 0), (6, 1), (6, 2), (4, 3), (2, 4), (0.5, 6)])
        args = [self.arg(rng, d, p in MUTATORS) for _ in range(n)]
        if p in ('display', 'write', 'newline', 'write-char') and len(args) < 2 and rng.random() < 0.7:
            args = args[:1] + ['o1']
        return '(%s)' % ' '.join([p] + args)

    def mutate(self, rng, d, depth=0):
        """one random structural change somewhere in a datum"""
        if isinstance(d, list) and d and (depth == 0 or rng.random() < 0.75):
            d = list(d)
            i = rng.randrange(len(d))
            c = rng.random()
            if c < 0.45 and isinstance(d[i], list):
                d[i] = self.mutate(rng, d[i], depth + 1)
            elif c < 0.6:
                del d[i]
            elif c < 0.68:
                d.insert(i, d[i])
            elif c < 0.85:
                d[i] = sx.read_one(rng.choice([a for a in ATOMS if a != '.' and not a.startswith('(. ')]))
            elif c < 0.92:
                j = rng.randrange(len(d))
                d[i], d[j] = d[j], d[i]
            else:
                d.insert(rng.randint(0, len(d)), sx.read_one(rng.choice(['1', 'x', '()', '(x)', '"s"', '#t'])))
            return d
        return sx.read_one(rng.choice(['1', 'x', '()', '(x)', '"s"', '(1 . 2)', '#f']))

    def text(self, rng):
        s = list(rng.choice(FORMS) if rng.random() < 0.5 else self.call(rng, 2))
        alphabet = '()\'"`,@.#;|\\ \n\tab1-+/eE:x{}[]~^\x00\x01\x7f\x80\xff'
        for _ in range(rng.choice([1, 1, 2, 3, 6])):
            if not s:
                break
            i = rng.randrange(len(s))
            c = rng.random()
            if c < 0.35:
                s.insert(i, rng.choice(alphabet))
            elif c < 0.6:
                del s[i]
            elif c < 0.8:
                s[i] = rng.choice(alphabet)
            elif c < 0.9:
                j = min(len(s), i + rng.randint(1, 5))
                s[i:i] = s[i:j]
            else:
                s = s[:i]
        if rng.random() < 0.1:
            s += list(rng.choice(['#|', '|#', '#', '#\\', '"', "'", '(', ')', ';', '#(', '#x', '#e', '#!', '`', ',@', '.', '1/', '#\\spac', '\\', '"\\', '"\\x', '#;', '#:', '-', '1e', '+.', '...']))
        return ''.join(s)

    def gen(self, rng):
        c = rng.random()
        if rng.random() < 0.004:
            return self.deep(rng)
        case = {'variant': 'asan' if rng.random() < 0.3 else 'plain'}
        if c < 0.5:
            case['kind'] = 'calls'
            case['forms'] = [self.wrap(rng, self.call(rng, rng.choice([0, 1, 1, 2]))) for _ in range(rng.randint(6, 20))]
        elif c < 0.75:
            case['kind'] = 'syntax'
            fs = []
            for _ in range(rng.randint(4, 12)):
                d = sx.read_one(rng.choice(FORMS))
                for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                    d = self.mutate(rng, d)
                t = sx.text(d)
                if rng.random() < 0.1 and t.endswith(')') and len(t) > 3:
                    t = t[:-1] + ' . ' + rng.choice(['1', 'x', '()', '(1 2)']) + ')'
                fs.append(self.wrap(rng, t))
            case['forms'] = fs
        elif c < 0.92:
            case['kind'] = 'text'
            case['forms'] = [self.text(rng) for _ in range(rng.randint(4, 12))]
        else:
            case['kind'] = 'file'
            case['forms'] = ['\n'.join(self.text(rng) if rng.random() < 0.3 else rng.choice(FORMS) for _ in range(rng.randint(1, 6)))]
        return case

    def deep(self, rng):
        fs = []
        for i in range(1):
            if rng.random() < 0.5:
                n = rng.choice([2000, 30000, 60000])
                w = rng.choice(WRAP) if rng.random() < 0.7 else "(let ((l %s)) %s)" % (rng.choice(WRAP), rng.choice(WRAP))
                ops = rng.sample(OPS, rng.randint(1, 3))
                for v in 'de' if re.search(r'\bE\b', ' '.join(ops)) else 'd':
                    fs.append("(define %s%d (do ((i 0 (+ i 1)) (l %s %s)) ((= i %d) l)))" % (v, i, rng.choice(['1', "'()", '(list)', "'x"]), w, n))
                for o in ops:
                    fs.append('(begin (catch #t (lambda () %s 1) (lambda (k . r) k)) 1)' % re.sub(r'\bD\b', 'd%d' % i, re.sub(r'\bE\b', 'e%d' % i, o)))
            else:
                fs.append('(define t1 (make-hash-table 3))')
                fs.append('(hash-set! t1 1 1)')
                fs.append('(define-macro (m2 x) (h x))')
                fs.append('(define (h n) %s)' % rng.choice(ENDLESS))
                fs.append(rng.choice(['(begin (catch #t (lambda () (h 1)) (lambda (k . r) k)) 1)', '(h 1)', '(list 1 (h 1))']))
        if rng.random() < 0.2:
            t = rng.choice(['(', "'", '`', '#(', '(a . (', '(a (', '((', '`(', ',', "#\\a(", '(1 . ', '[', '#|', '"('])
            fs.append('(begin (catch #t (lambda () (read (open-input-string %s)) 1) (lambda (k . r) k)) 1)' % sx.text(sx.Str(t * rng.choice([100, 3000, 100000]))))
        return {'variant': 'plain', 'kind': 'deep', 'forms': fs}

    def wrap(self, rng, t):
        c = rng.random()
        if c < 0.75:
            return t
        return {0: '(list %s)', 1: '(catch #t (lambda () %s) (lambda x (quote caught)))', 2: '(let ((x %s)) x)', 3: '(map (lambda (x) %s) (list 1 2))', 4: '(eval (quote %s))', 5: '(call-with-output-string (lambda (o1) %s))',
                6: '(dynamic-wind (lambda () 0) (lambda () %s) (lambda () 1))', 7: '(begin %s 1)'}[rng.randrange(8)] % t

    # ---- judging ----
    def run(self, ctx, forms, mode, variant, limit=0):
        for _ in range(2):
            try:
                return ctx.drv(variant).run(forms, mode, limit or (1500 if variant == 'plain' else 4000))
            except drv.DriverDied:
                ctx.drivers.pop(variant, None)
        return 'e99', ''

    def judge(self, ctx, case):
        kind, variant = case['kind'], case['variant']
        labels = (kind, variant)
        if kind == 'file':
            p = os.path.join(ctx.tmp, 'in.scm')
            with open(p, 'w', encoding='latin-1', newline='') as f:
                f.write(case['forms'][0])
            st, out = self.run(ctx, [p], 'f', variant)
            probes = 0
        else:
            if kind == 'deep':
                with open(os.path.join(ctx.tmp, 'self.scm'), 'w') as f:
                    f.write('(list (h 1))')
            st, out = self.run(ctx, PRELUDE + case['forms'] + [RESET] + [p for p, _ in PROBES], 'p', variant, 15000 if kind == 'deep' else 0)
            probes = len(PROBES)
        for x in os.listdir(ctx.tmp):
            try:
                os.unlink(os.path.join(ctx.tmp, x))
            except OSError:
                pass
        if st == 't':
            return Res('skip', 'no end within the limit', ('no end',))
        recs, done = drv.parse(out)
        if st != '0':
            return Res('fail', '%s build: the interpreter ended with %s after %d records, last %s' % (variant, drv_status(st), len(recs), ', '.join(drv.show(r) for r in recs[-1:])[:200]), labels, True)
        vals = [r for r in recs if r[0] != 'O']
        if probes:
            vals = vals[:-1] if vals and vals[-1][0] == 'D' else vals
            for (p, want), got in zip(PROBES, vals[-probes:]):
                if got != ('V', want):
                    if kind != 'calls' and re.search('define|set!|module', '\n'.join(case['forms'])):
                        return Res('skip', 'a name may have been redefined', ('redefinition',))
                    return Res('fail', 'afterwards %s gives %s instead of %s' % (p, drv.show(got), want), labels, True)
            for i, r in enumerate(vals):
                if r[0] == 'U':
                    return Res('fail', 'form %d gives no object at all: %s' % (i - len(PRELUDE), (PRELUDE + case['forms'])[i] if i < len(PRELUDE + case['forms']) else '?'), labels, True)
        return Res('ok', '', labels, True)

    def shrink(self, ctx, case):
        def fails(fs):
            return self.judge(ctx, dict(case, forms=fs)).kind == 'fail'
        c = dict(case)
        if case['variant'] == 'asan' and self.judge(ctx, dict(case, variant='plain')).kind == 'fail':
            case = c = dict(case, variant='plain')
        if case['kind'] in ('calls', 'syntax', 'deep'):
            try:
                c['forms'] = shrink.shrink_forms(list(case['forms']), fails)
            except Exception:
                c['forms'] = cut(list(case['forms']), fails)
        else:
            c['forms'] = cut(list(case['forms']), fails)
            for i in range(len(c['forms'])):
                t = c['forms'][i]
                step = max(1, len(t) // 2)
                while step:
                    j = 0
                    while j < len(t):
                        u = t[:j] + t[j + step:]
                        if fails(c['forms'][:i] + [u] + c['forms'][i + 1:]):
                            t = u
                        else:
                            j += step
                    step //= 2
                c['forms'][i] = t
        return c


def cut(forms, fails):
    i = 0
    while i < len(forms) and len(forms) > 1:
        f = forms[:i] + forms[i + 1:]
        if fails(f):
            forms = f
        else:
            i += 1
    return forms


CHECK = P21()
