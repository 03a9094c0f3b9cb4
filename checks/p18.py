import os
import shutil
from vlib import drv, model, modmodel, shrink, sx
from vlib.gen import large
from vlib.runner import Check, Res, drv_status, brief

VARS = ['a', 'b', 'c', 'd', 'length', 'append', 'reverse']
FUNS = ['f', 'g', 'h', 'k', 'cadr', 'list-tail', 'not']
MACS = ['mac', 'mac2']
FIX = {'f': 1, 'g': 1, 'h': 1, 'k': 1, 'cadr': 1, 'list-tail': 1, 'not': 1}


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.vars = [n for n in VARS if n in 'abcd' or rng.random() < 0.25]
        self.funs = [n for n in FUNS if n in 'fghk' or rng.random() < 0.25]
        self.mods = []      # name tuples, in order
        self.exp = {}       # name -> set of exported names
        self.own = {}
        self.files = {}
        self.n = 0
        self.auto = set()
        self.binders = rng.random() < 0.35
        self.conts = rng.random() < 0.3

    def pick(self, s):
        return s[int(self.r.random() * len(s))]

    def uniq(self):
        self.n += 1
        return self.n

    def sub(self, s, lo=1, hi=3):
        s = list(s)
        self.r.shuffle(s)
        return s[:self.r.randint(lo, hi)]

    # ---- expressions over visible names ----
    def ref(self, vis):
        vs = [v for v in vis if v in self.vars]
        if vs and self.r.random() < 0.9:
            return self.pick(vs)
        if self.r.random() < 0.1:
            return self.pick(self.vars)
        return str(self.uniq())

    def expr(self, vis, d=2):
        r = self.r
        c = r.random()
        fs = [v for v in vis if v in self.funs]
        ms = [v for v in vis if v in MACS]
        if d <= 0 or c < 0.3:
            return self.ref(vis)
        if c < 0.55 and fs:
            return '(%s %s)' % (self.pick(fs), self.expr(vis, d - 1))
        if c < 0.65 and ms:
            return '(%s %s)' % (self.pick(ms), self.expr(vis, d - 1))
        if c < 0.7 and fs:
            return '(map %s (list %s %s))' % (self.pick(fs), self.expr(vis, d - 1), self.ref(vis))
        if c < 0.76:
            v = self.pick(self.vars)
            return '(let ((%s %s)) (list %s %s))' % (v, self.expr(vis, d - 1), v, self.expr(vis, d - 1))
        if c < 0.8 and fs:
            return '(apply %s (list %s))' % (self.pick(fs), self.ref(vis))
        return '(list %s %s)' % (self.expr(vis, d - 1), self.ref(vis))

    def tag(self, m):
        return "'%s.%d" % ('-'.join(m), self.uniq())

    def item(self, m, own, vis, out):
        """a definition or other form of module m; updates own and vis"""
        r = self.r
        c = r.random()
        tag = self.tag(m)
        pub = 'define-public' if r.random() < 0.3 else 'define'
        new = None
        if c < 0.22:
            v = self.pick(self.vars)
            out.append('(%s %s (list %s %s))' % (pub, v, tag, self.expr(vis, 1)) if r.random() < 0.6 else '(%s %s %d)' % (pub, v, self.uniq()))
            new = v
        elif c < 0.5:
            f = self.pick(self.funs)
            body = self.pick([
                '(list %s x %s)' % (tag, self.expr(vis + [f] * 0, 2)),
                '(list %s (let ((y %s)) (list x y)))' % (tag, self.expr(vis, 1)),
                '((lambda (z) (list %s z %s)) x)' % (tag, self.ref(vis)),
                '(list %s (map (lambda (y) (list y %s)) (list x 1)))' % (tag, self.ref(vis)),
                '(list %s (catch #t (lambda () (throw (quote q) %s)) (lambda (k . r) r)))' % (tag, self.ref(vis)),
                '(list %s (force (delay (list x %s))))' % (tag, self.ref(vis)),
                '(begin (define y (list x %s)) (list %s y))' % (self.ref(vis), tag),
            ])
            out.append(self.pick(['(%s (%s x) %s)', '(%s (%s x) %s)', '(%s %s (lambda (x) %s))']) % (pub, f, body))
            new = f
        elif c < 0.6:
            vs = [v for v in own if v in self.vars]
            if not vs:
                return
            f = self.pick(self.funs)
            v = self.pick(vs)
            out.append(self.pick(['(%s (%s x) (set! %s (list %s x)) %s)', '(%s %s (let ((n 0)) (lambda (x) (set! %s (list %s x)) (set! n (+ n 1)) (list n %s))))']) % (pub, f, v, tag, v))
            new = f
        elif c < 0.68:
            q = self.pick(MACS)
            fs = [v for v in vis if v in self.funs]
            k = r.random()
            if k < 0.35:
                out.append("(define-macro (%s x) `(list %s ,x))" % (q, tag))
            elif k < 0.6 and fs:
                out.append("(define-macro (%s x) (list 'quote (list (%s 0) x %s)))" % (q, self.pick(fs), self.ref(vis)))
            elif k < 0.8 and fs:
                out.append("(define-macro (%s x) `(list ,%s (,%s ,x)))" % (q, tag, self.pick(fs)))
            else:
                out.append("(define-macro (%s x) `(list %s ,x %s))" % (q, tag, self.ref(vis)))
            new = q
            if r.random() < 0.6:
                out.append('(export %s)' % q)
                self.exp[m].add(q)
            pub = 'define'
        elif c < 0.78:
            ns = [n for n in self.sub(own if own and r.random() < 0.6 else self.vars + self.funs + MACS) if n not in self.auto or r.random() < 0.1] or [self.pick(self.vars)]
            out.append('(export %s)' % ' '.join(ns))
            self.exp[m] |= set(ns)
        elif c < 0.84:
            imp = [n for n in vis if n not in own]
            if imp:
                ns = [n for n in self.sub(imp, 1, 2) if n not in self.auto] or [self.pick(self.vars)]
                out.append('(re-export %s)' % ' '.join(ns))
                self.exp[m] |= set(ns)
        elif c < 0.88:
            vs = [v for v in own if v in self.vars]
            if vs:
                out.append('(set! %s (list %s %s))' % (self.pick(vs), tag, self.ref(vis)))
        elif c < 0.92:
            out.append(self.expr(vis, 2))
        elif c < 0.96 and self.binders:
            out.append(self.binder(m, vis))
        elif c < 0.945 and self.conts:
            out.append(self.pick(["(call/cc (lambda (k) (set! %kl k) 0))", "(if %ke (%ke 'out))", "(set! %%log (cons (call/cc (lambda (k) (set! %%kl k) %s)) %%log))" % tag]))
        elif c < 0.93:
            out.append(self.pick(["(car '())", '(zzz 1)', "(throw 'load-error 1 2)"]))
        elif c < 0.97:
            out.append(self.seen(self.sub(vis, 1, 4) if vis else []))
        else:
            out.append("(set! %%log (cons %s %%log))" % tag)
        if new:
            if new not in own:
                own.append(new)
            if new not in vis:
                vis.append(new)
            if pub == 'define-public':
                self.exp[m].add(new)

    def binder(self, m, vis, where='(current-module)'):
        """a binder: a pure function of the name asked for, except that it may leave early"""
        r = self.r
        cl = []
        for v in self.sub(self.vars + self.funs + ['q1', 'q2'], 1, 5):
            tag = self.tag(m)
            val = tag if v in self.vars else '(lambda (x) (list %s x %s))' % (tag, self.ref(vis))
            cl.append("((eq? s '%s) %s)" % (v, self.pick([
                '(make-variable %s)' % val, '(make-variable %s)' % val, '(make-variable (quote #f))', val, "(throw 'q s)", '(car s)',
                '(begin (if %%k (%%k %s)) #f)' % tag, '(list %s %s)' % (tag, self.ref(self.vars)), '(make-variable (list (module? m) s))',
                '(begin (use-modules %s) #f)' % self.anymod() if self.mods and r.random() < 0.3 else '(catch #t (lambda () %s) (lambda (k . r) (make-variable k)))' % self.pick(self.vars),
                '(call/cc (lambda (k) (k (make-variable %s))))' % val])))
            if v in self.vars + self.funs and v not in vis:
                vis.append(v)
        return '(set-module-binder! %s (lambda (m s d) (cond %s (else #f))))' % (where, ' '.join(cl))

    def imports(self, m, used, vis):
        for u in used:
            for n in (self.exp[u] or self.own[u]):
                if n not in vis:
                    vis.append(n)

    def module(self, m, inline):
        r = self.r
        out = []
        own, vis = [], []
        self.auto = set()
        self.exp[m] = set()
        self.own[m] = own
        cand = list(self.mods)
        used = self.sub(cand, 0, 2)
        opts = ''
        pre = [u for u in used if r.random() < 0.3]
        rest = [u for u in used if u not in pre]
        for u in pre:
            opts += ' #:use-module (%s)' % ' '.join(u)
        if r.random() < 0.2:
            ns = self.sub(self.vars + self.funs)
            opts += ' #:export ' + ' '.join(ns)
            self.exp[m] |= set(ns)
        elif cand and r.random() < 0.12:
            u = self.pick(cand)
            ns = [n for n in self.exp[u] if n not in MACS]
            if ns and u not in used:
                opts += ' #:autoload (%s) %s' % (' '.join(u), ' '.join(ns))
                vis.extend(ns)
        out.append('(define-module (%s)%s)' % (' '.join(m), opts))
        if len(cand) >= 2 and r.random() < 0.2:
            for _ in range(r.randint(2, 3)):
                u = self.pick(cand)
                ns = [n for n in self.sub(self.exp[u], 1, 3) if n not in MACS and n not in vis and n in self.own[u]]
                if ns:
                    out.append('(define-module (%s) #:autoload (%s) %s)' % (' '.join(m), ' '.join(u), ' '.join(ns)))
                    vis.extend(ns)
                    self.auto.update(ns)
            if r.random() < 0.7:
                out.append(self.seen([n for n in vis if n in self.vars]))
        if r.random() < 0.7:
            out.append("(set! %%log (cons %s %%log))" % self.tag(m))
        if rest:
            if r.random() < 0.6:
                out.append('(use-modules %s)' % ' '.join('(%s)' % ' '.join(u) for u in rest))
            else:
                out.extend('(use-modules (%s))' % ' '.join(u) for u in rest)
        self.imports(m, pre + rest, vis)
        for _ in range(r.randint(2, 9)):
            self.item(m, own, vis, out)
        return out

    def reenter(self, vis):
        r = self.r
        c = r.random()
        v = self.pick(self.vars)
        if c < 0.4:
            return ("(let ((r (call/cc (lambda (k) (set! %%k k) 0)))) (let ((k %%k)) (set! %%k #f) (if k (begin %s (k (+ r 1))) (list r (eq? (current-module) root) "
                    "(catch #t (lambda () (list %s (eval '%s))) (lambda (k . r) (list 'no k)))))))" % (self.pick([
                        '(set-current-module %s)' % self.pick(['root', "(resolve-module '%s)" % self.anymod()]),
                        '(use-modules %s)' % self.anymod(), '(set-current-module (car (list root)))']), v, v))
        used = ' '.join(self.anymod() for _ in range(r.randint(1, 2)))
        if c < 0.7:
            return ("(begin (set! %%kl #f) (set! %%ke #f) (use-modules %s) %s(if %%kl (let ((k %%kl)) (set! %%kl #f) (k 'again))) (list (eq? (current-module) root) "
                    "(catch #t (lambda () (list %s (eval '%s))) (lambda (k . r) (list 'no k)))))" % (used, self.pick(['', '(set-current-module root) ']), v, v))
        return ("(list (call/cc (lambda (k) (set! %%ke k) (use-modules %s) 'in)) (eq? (current-module) root) "
                "(catch #t (lambda () (list %s (eval '%s))) (lambda (k . r) (list 'no k))))" % (used, v, v))

    def seen(self, names):
        self.r.shuffle(names)
        return "(set! %%log (cons (list %s) %%log))" % ' '.join("(catch #t (lambda () %s) (lambda (k . r) (list 'no k)))" % v for v in names)

    def observe(self):
        r = self.r
        c = r.random()
        if self.binders and c < 0.25:
            v = self.pick(self.vars + ['q1', 'q2'])
            return ("(let ((r (call/cc (lambda (k) (set! %%k k) (list 'in (catch #t (lambda () (list %s %s)) (lambda (k . r) (list 'no k)))))))) (set! %%k #f) r)" %
                    (v, self.pick([v] + self.vars)))
        if c < 0.5:
            return '(list %s)' % ' '.join("(catch #t (lambda () %s) (lambda (k . r) (list 'no k)))" % v for v in self.vars)
        if c < 0.56 and self.mods:
            # an import that is followed by a change of the current module, left normally or by an error
            return ("(list (catch #t (lambda () (use-modules %s) (set-current-module %s) %s) (lambda (k . r) (list 'caught k))) (eq? (current-module) root) (eq? (current-module) %s))" % (
                ' '.join(self.anymod() for _ in range(r.randint(1, 2))), self.pick(["(resolve-module '%s)" % self.anymod(), 'root']),
                self.pick(["(throw 'a)", "(car '())", "'b", 'a']), "(resolve-module '%s)" % self.anymod()))
        if c < 0.8:
            return '(list %s)' % ' '.join("(catch #t (lambda () (%s %d)) (lambda (k . r) (list 'no k)))" % (v, self.uniq()) for v in self.funs if v in 'fghk')
        if c < 0.9:
            return "(list %s)" % ' '.join("(catch #t (lambda () (%s %d)) (lambda (k . r) (list 'no k)))" % (v, self.uniq()) for v in MACS)
        return '%log'

    def anymod(self):
        return '(%s)' % ' '.join(self.pick(self.mods)) if self.r.random() < 0.95 else '(no such)'

    def gen(self):
        r = self.r
        forms = ["(define %log '())"]
        forms += ['(define %k #f)'] * (self.binders or self.conts) + ['(define %kl #f)', '(define %ke #f)'] * self.conts
        dirs = self.pick([[], [], ['d1'], ['d1', 'd2']])
        if dirs:
            forms.append("(set! %%load-path (append '(%s) %%load-path))" % ' '.join('"%s"' % d for d in dirs))
        for i in range(r.randint(1, 6)):
            m = self.pick([('m%d' % i,), ('m%d' % i,), ('lib', 'm%d' % i), ('lib', 'x', 'm%d' % i)])
            text = self.module(m, False)
            rel = '/'.join(m) + '.scm'
            self.files[self.pick([''] + [d + '/' for d in dirs]) + rel] = text
            if dirs and r.random() < 0.15:
                self.files.setdefault(self.pick(dirs) + '/' + rel, ["(define-module (%s))" % ' '.join(m), "(define-public %s 'decoy)" % self.pick(self.vars), "(set! %log (cons 'decoy %log))"])
            self.mods.append(m)
        own, vis = [], []
        me = ('main',)
        self.exp[me] = set()
        self.own[me] = own
        forms.append('(define root (current-module))')
        nin = 0
        for _ in range(r.randint(6, 22)):
            c = r.random()
            if c < 0.22:
                used = self.sub(self.mods, 1, 2)
                forms.append('(use-modules %s)' % ' '.join('(%s)' % ' '.join(u) for u in used))
                self.imports(me, used, vis)
            elif c < 0.32 and self.conts:
                forms.append(self.reenter(vis))
            elif c < 0.5:
                forms.append(self.observe())
            elif c < 0.6:
                forms.append(self.expr(vis, 3))
            elif c < 0.68:
                out = []
                self.item(me, own, vis, out)
                forms.extend(out)
            elif c < 0.73:
                forms.append("(module-ref (resolve-module '%s) '%s 'none)" % (self.anymod(), self.pick(self.vars)))
            elif c < 0.77:
                forms.append("(module-bound? (resolve-module '%s) '%s)" % (self.anymod(), self.pick(self.vars + self.funs)))
            elif c < 0.8:
                forms.append("(module-use! (current-module) %s)" % self.pick(["'%s", "(resolve-module '%s)"]) % self.anymod())
            elif c < 0.84 and nin < 3:
                # a module defined in the same file
                nin += 1
                m = self.pick([('in%d' % nin,), self.pick(self.mods)])
                if m in self.exp:
                    opts = ''
                    if r.random() < 0.4:
                        u = self.pick(self.mods)
                        ns = [n for n in self.exp[u] if n not in MACS]
                        if ns and u != m:
                            opts = ' #:autoload (%s) %s' % (' '.join(u), ' '.join(ns))
                    forms.append('(define-module (%s)%s)' % (' '.join(m), opts))
                    own, vis = self.own[m], list(self.own[m])
                    me = m
                else:
                    forms.extend(self.module(m, True))
                    own = self.own[m]
                    vis = list(own)
                    me = m
                    self.mods.append(m)
            elif c < 0.88:
                forms.append('(set-current-module %s)' % self.pick(['root', 'root', "(resolve-module '%s)" % self.anymod()]))
                forms.append("(module? (current-module))")
            elif c < 0.91:
                forms.append("(eval '%s)" % self.expr(vis, 2))
            elif c < 0.94:
                forms.append("(+ 0 (apply + (map (lambda (z) 1) (module-map (lambda (k v) k) (resolve-module '%s)))))" % self.anymod())
            elif c < 0.95 and self.binders:
                forms.append(self.binder(me, vis, self.pick(['(current-module)', "(resolve-module '%s)" % self.anymod(), 'root'])))
            elif c < 0.96:
                forms.append("(if (memq '%s (module-map (lambda (k v) k) (resolve-module '%s))) 'yes 'no)" % (self.pick(self.vars + self.funs), self.anymod()))
            else:
                v = [x for x in vis if x in self.vars]
                if v:
                    forms.append('(set! %s (list %s))' % (self.pick(v), self.tag(me)))
        forms.append(self.observe())
        forms.append('%log')
        return {'forms': [f if not f.startswith('(set-current-module') else '(begin %s 0)' % f for f in forms], 'files': self.files}


def big(r):
    """many modules, many exports, long names, long paths"""
    pick = lambda s: s[int(r.random() * len(s))]
    k = large(r, 30, 1)
    n = large(r, 90, 2)
    pre = pick(['v', 'value-', 'a-rather-long-name-for-an-exported-variable-'])
    comp = lambda i: pick([('m%d' % i,), ('lib', 'm%d' % i), tuple('d%d' % j for j in range(large(r, 12, 1))) + ('m%d' % i,), ('a-module-with-a-long-name-' * r.randint(1, 4) + str(i),), ('l' * large(r, 120), 'm%d' % i)])
    mods, files, names = [], {}, []
    forms = ["(define %log '())"]
    for i in range(k):
        m = comp(i)
        own = ['%s%d.%d' % (pre, i, j) for j in range(n if i in (0, k - 1) else r.randint(1, 4))]
        inc = [x for x in own if r.random() < 0.9]
        text = []
        use = r.sample(mods, min(len(mods), pick([0, 1, 1, 2, 30])))
        chain = i and r.random() < 0.5
        if chain and mods[-1] not in use:
            use = [mods[-1]] + use
        how = pick(['public', 'export', 'option', 'single', 'before'])
        text.append('(define-module (%s)%s%s)' % (' '.join(m), ''.join(' #:use-module (%s)' % ' '.join(u) for u in use) if i % 2 else '', ' #:export ' + ' '.join(inc) if how == 'option' and inc else ''))
        if not i % 2 and use:
            text.append('(use-modules %s)' % ' '.join('(%s)' % ' '.join(u) for u in use))
        if how == 'before' and inc:
            text.append('(export %s)' % ' '.join(inc))
        for j, x in enumerate(own):
            text.append('(%s %s (list %d %d%s))' % ('define-public' if how == 'public' and x in inc else 'define', x, i, j, ' ' + pick(own[:j]) if j and r.random() < 0.1 else ' ' + pick(names) if chain and names and r.random() < 0.2 else ''))
            if how == 'single' and x in inc:
                text.append('(export %s)' % x)
        if how == 'export' and inc:
            text.append('(export %s)' % ' '.join(inc))
        if chain and r.random() < 0.5 and names:
            text.append('(re-export %s)' % ' '.join(names))
            names = names + inc
        else:
            names = inc
        files['/'.join(m) + '.scm'] = text
        mods.append(m)
    every = ['%s%d.%d' % (pre, i, j) for i in range(k) for j in range(n if i in (0, k - 1) else 4)]
    def look():
        return '(list %s)' % ' '.join("(catch #t (lambda () %s) (lambda (k . r) 'no))" % x for x in (r.sample(every, min(len(every), 40)) + every[-2:] + every[:1]))
    used = [m for m in mods if r.random() < 0.7]
    c = r.random()
    if c < 0.3:
        forms += ['(use-modules (%s))' % ' '.join(u) for u in used]
    elif c < 0.6:
        forms.append('(use-modules %s)' % ' '.join('(%s)' % ' '.join(u) for u in used or mods))
    else:
        u = mods[-1]
        a = ['%s%d.%d' % (pre, k - 1, j) for j in range(n)]
        forms.append('(define-module (main)%s #:autoload (%s) %s)' % (''.join(' #:use-module (%s)' % ' '.join(x) for x in used if x != u), ' '.join(u), ' '.join(a)))
        forms.append(pick([a[-1], pick(a), a[0]]))
    forms.append(look())
    for _ in range(r.randint(1, 4)):
        u = pick(mods)
        forms.append(pick(["(length (module-map (lambda (k v) k) (resolve-module '(%s))))" % ' '.join(u), "(list (module-ref (resolve-module '(%s)) '%s 'none) (module-bound? (resolve-module '(%s)) '%s))" % (' '.join(u), pick(every), ' '.join(u), pick(every)),
                           '(use-modules (%s))' % ' '.join(u), look()]))
    return {'forms': forms, 'files': files}


class P18(Check):
    ID = 'P18'
    TECH = 'model-based property testing: random graphs of module files and histories of imports and calls against a reference model of modules'
    RULE = ('random acyclic graphs of 1-6 module files (nested names, several load-path directories) and inline modules whose definitions share a small pool of names, some of them builtin, with '
            'exports before and after definitions, define-public, re-exports, #:use-module, #:export, #:autoload, macros, setters, binders (some leaving by an error or a continuation), load-time errors; a user program imports them repeatedly, redefines, '
            'mutates, switches modules and observes every pool name; non-trivial: at least two files loaded and six results')
    N = {'quick': 10000, 'thorough': 300000}

    def gen(self, rng):
        return Gen(rng).gen() if rng.random() < 0.97 else big(rng)

    def judge(self, ctx, case):
        files = {f: '\n'.join(t) + '\n' for f, t in case['files'].items()}
        try:
            m = modmodel.run_program([sx.read_one(f) for f in case['forms']], 60000, files)
        except (model.Unsupported, sx.ReadError, RecursionError) as e:
            return Res('skip', 'model: %s' % (e,), ('skip: %s' % (e,),))
        top = os.path.join(ctx.tmp, 'w')
        for f, t in files.items():
            p = os.path.join(ctx.tmp, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as fh:
                fh.write(t)
        try:
            st, out = ctx.run(case['forms'])
        finally:
            for d in os.listdir(ctx.tmp):
                p = os.path.join(ctx.tmp, d)
                if os.path.isdir(p):
                    shutil.rmtree(p)
                elif d.endswith('.scm'):
                    os.unlink(p)
        recs, done = drv.parse(out)
        labels = sorted(m.stats)
        want = [r for r in m.recs if r[0] != 'O']
        nt = len(m.loads) >= 2 and sum(1 for r in want if r[0] == 'V') >= 6
        if st != '0':
            return Res('fail', 'the interpreter ended with %s after %d records; expected %s' % (drv_status(st), len(recs), brief(m.recs)), labels, nt)
        msg = drv.agree(want, [r for r in recs if r[0] != 'O'])
        return Res('fail' if msg else 'ok', msg or '', labels, nt)

    def shrink(self, ctx, case):
        def nerr(c):
            files = {f: '\n'.join(t) + '\n' for f, t in c['files'].items()}
            try:
                return sum(1 for r in modmodel.run_program([sx.read_one(f) for f in c['forms']], 60000, files).recs if r[0] == 'E')
            except Exception:
                return 99
        limit = nerr(case)
        cur = dict(case)

        def ok(c):
            return nerr(c) <= limit and self.judge(ctx, c).kind == 'fail'
        cur['forms'] = shrink.shrink_forms(list(cur['forms']), lambda fs: ok(dict(cur, forms=fs)))
        for f in list(cur['files']):
            c = dict(cur, files={g: t for g, t in cur['files'].items() if g != f})
            if ok(c):
                cur = c
                continue

            def fails(t, f=f):
                return ok(dict(cur, files=dict(cur['files'], **{f: t})))
            cur['files'] = dict(cur['files'], **{f: shrink.shrink_forms(list(cur['files'][f]), fails)})
        cur['forms'] = shrink.shrink_forms(list(cur['forms']), lambda fs: ok(dict(cur, forms=fs)))
        return cur

    def show(self, case):
        return '\n'.join(['-- %s:\n%s' % (f, '\n'.join(t)) for f, t in sorted(case['files'].items())] + ['-- main:'] + case['forms'])


CHECK = P18()
