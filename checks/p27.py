from vlib import drv, sx
from vlib.gen import weighted
from vlib.hist import Hist
from vlib.histcheck import HistCheck
from vlib.prims import OPTIONS
from vlib.runner import Res, drv_status, judge_model


class H(Hist):
    """histories of settings of the read and the debug options"""
    DUMP = False

    def __init__(self, rng):
        Hist.__init__(self, rng)
        self.procs = []
        self.nv = 0
        self.vars = []

    def fam(self):
        return self.pick(['read', 'debug'])

    def name(self, fam, kinds):
        return self.pick([n for n, k, _ in OPTIONS[fam] if k in kinds])

    def value(self, kind):
        """an expression for the value of an option"""
        r = self.r
        if kind is int:
            return self.pick(['0', '1', '-1', '100', '79', '2147483648', '-9223372036854775808', '9223372036854775807', '(+ 1 2)', '(* n 10)', 'n', str(r.randint(-50, 3000)), str(r.randint(-2 ** 62, 2 ** 62))])
        v = ["'prefix", "'postfix", "'base", '#f', '#t', '1', '0', '"prefix"', '""', "'()", '#\\a', '1/2', '(list 1 2)', '(vector 1 (list n))', "'(a . b)", '(string-append "a" "b")', '(list (list n))', '(cons 1 2)',
             '(vector)', '(make-string 3 #\\z)', "(string->symbol \"S\")", '(list n (list "x" #\\y))', '(* n 100000000000)']
        if self.vars and r.random() < 0.35:
            return self.pick(self.vars)
        return self.pick(v)

    def flags(self, fam, bad=True):
        n = self.r.randint(1, 3)
        return ' '.join("'" + (self.pick(['nosuch', 'Copy', 'cop', 'copyx', 'keyword', 'depths', 'debug' if fam == 'read' else 'copy']) if bad and self.chance(0.04) else self.name(fam, (bool,))) for _ in range(n))

    def explicit(self, fam):
        """elements of an explicit list of settings, as expressions"""
        r = self.r
        out = []
        for _ in range(r.randint(0, 4)):
            n, k, _ = self.pick(OPTIONS[fam])
            if k is bool:
                out.append("'" + n)
                if r.random() < 0.2:
                    out.append(self.pick(['#f', '#t']))
            else:
                out += ["'" + n, self.value(k)]
        c = r.random()
        if c < 0.06:
            out.append("'" + self.name(fam, (int, object)))       # its value is missing
        elif c < 0.1:
            out.insert(r.randint(0, len(out)) if r.random() < 0.3 else len(out), "'" + self.pick(['nosuch', 'x']))
        elif c < 0.14 and fam == 'debug':
            out += ["'" + self.name(fam, (int,)), self.pick(['"5"', '1.5', "'five", '1/2', '#t', '(list 1)'])]
        elif c < 0.18:
            out.insert(0, self.pick(['#t', '5', '"copy"', '#\\a']))
        return out

    def op(self):
        r = self.r
        fam = self.fam()
        n, k, _ = self.pick(OPTIONS[fam])
        obj = [x for x in OPTIONS[fam] if x[1] is object][0][0]

        def setv():
            n, k, _ = self.pick([x for x in OPTIONS[fam] if x[1] is not bool] + [(obj, object, 0)] * 2)
            v = self.value(k)
            if self.chance(0.04):
                v = self.pick(['"5"', "'x", '#f', '1.5', '(car 5)', "(throw 'k 1)", 'undefined-variable'])
            return '(%s-set! %s %s)' % (fam, n, v)
        return weighted(r, [
            (4, setv),
            (2, lambda: '(%s-enable %s)' % (fam, self.flags(fam))),
            (2, lambda: '(%s-disable %s)' % (fam, self.flags(fam))),
            (0.7, lambda: '(%s-set! %s %s)' % (fam, self.name(fam, (bool,)), self.pick(['#t', '#f', '1', "'yes"]))),
            (0.2, lambda: '(%s-set! %s %s)' % (fam, self.pick(['nosuch', 'x']), '1')),
            (1.5, lambda: '(%s-options-interface (list %s))' % (fam, ' '.join(self.explicit(fam)))),
            (0.5, lambda: '(apply %s-options-interface (list (list %s)))' % (fam, ' '.join(self.explicit(fam)))),
            (1, lambda: '(%s-options-interface)' % fam),
            (0.3, lambda: '(%s-options-interface %s)' % (fam, self.pick(['5', "'copy", '"help"', '#t', "'()"]))),
            (0.6, lambda: "(cadr (memq '%s (%s-options-interface)))" % (obj, fam)),
            (0.4, lambda: "(if (memq '%s (%s-options-interface)) 'on 'off)" % (self.name(fam, (bool,)), fam)),
            (0.5, lambda: "(eq? (cadr (memq '%s (%s-options-interface))) %s)" % (obj, fam, self.pick(self.vars or ['n']))),
            (0.4, lambda: "(let ((l (%s-options-interface))) (set-car! %s 'changed) (list l (%s-options-interface)))" % (fam, self.pick(['l', '(cdr l)', '(cddr l)']), fam)),
            (0.4, lambda: "(let ((l (list %s))) (%s-options-interface l) (if (pair? l) (set-car! l 'changed)) (if (and (pair? l) (pair? (cdr l))) (set-car! (cdr l) 'changed)) (%s-options-interface))" % (' '.join(self.explicit(fam)), fam, fam)),
            (0.3, lambda: "(let* ((old (%s-options-interface)) (new %s)) (%s-options-interface old) (list old new (%s-options-interface)))" % (fam, '(%s-enable %s)' % (fam, self.flags(fam, False)), fam, fam)),
        ])()

    def step(self):
        r = self.r
        c = r.random()
        o = self.op()
        if c < 0.55:
            return o
        if c < 0.65:
            return '(catch #t (lambda () %s) (lambda (k . a) (list k (%s-options-interface))))' % (o, self.fam())
        if c < 0.7:
            return '(deep %d (lambda () %s))' % (r.randint(1, 25), o)
        if c < 0.74:
            return '(begin %s %s)' % (o, self.op())
        if c < 0.78:
            return '(list %s %s)' % (o, self.op())
        if c < 0.81:
            return "(map (lambda (n) %s) '(1 2 3))" % o
        if c < 0.83:
            return "(eval '%s)" % o
        if c < 0.86:
            return '(let ((n %d) (copy %s) (width 5)) %s)' % (r.randint(1, 9), self.pick(['#f', "'w"]), o)
        if c < 0.88:
            return '(begin (call/cc (lambda (k) (set! kk k))) (set! n (+ n 1)) %s)' % o
        if c < 0.9:
            return "(read-set! keywords (call/cc (lambda (k) (set! kk k) %s)))" % self.value(object)
        if c < 0.93:
            return '(if (< n 12) (begin (set! n (+ n 3)) (kk %s)) n)' % self.pick(["'again", '(list n)', '#f'])
        if c < 0.96 or not self.procs:
            p = 'op%d' % len(self.procs)
            if self.add('(define (%s n) %s)' % (p, o)) is not None:
                self.procs.append(p)
            return '(%s %d)' % (p, r.randint(0, 9))
        return '(%s %d)' % (self.pick(self.procs), r.randint(0, 9))

    def program(self, n):
        r = self.r
        for t in ['(define n 3)', '(define kk (lambda (v) v))', '(define (deep i f) (if (= i 0) (f) (let ((x (deep (- i 1) f))) x)))', '(define (waste i) (if (= i 0) 0 (+ 1 (waste (- i 1)))))']:
            self.add(t)
        for _ in range(n):
            c = r.random()
            if c < 0.08:
                v = 'v%d' % self.nv
                if self.add('(define %s %s)' % (v, self.pick(['(list 1 2)', '(vector n 2)', '(string #\\a #\\b)', '(cons n (list n))']))) is not None:
                    self.nv += 1
                    self.vars.append(v)
            elif c < 0.14 and self.vars:
                v = self.pick(self.vars)
                self.add('(if (pair? %s) (set-car! %s %s))' % (v, v, self.pick(['9', "'m", '(list n)'])))
            elif c < 0.17:
                self.add('(set! n (+ n 1))')
            elif c < 0.2 and self.vars:
                self.add('(set! %s 7)' % self.pick(self.vars))
            elif c < 0.26:
                self.add('(waste %d)' % r.randint(5, 40))
            else:
                self.add(self.step())
        for f in OPTIONS:
            self.add('(%s-options-interface)' % f)
        return self.forms


class C(HistCheck):
    ID = 'P27'
    HIST = H
    LEN = (3, 25)
    N = {'quick': 9000, 'thorough': 150000}
    RULE = 'a case counts when the reference met at least three changes of a setting'

    def gen(self, rng):
        case = HistCheck.gen(self, rng)
        if rng.random() < 0.3:
            case['every'] = rng.randint(1, 40)
        return case

    def nontrivial(self, case, m):
        return sum(v for k, v in m.stats.items() if k.endswith('options changed')) >= 3

    def judge(self, ctx, case):
        r = judge_model(ctx, case, self)
        if r.kind != 'ok' or not case.get('every'):
            return r
        # the same with frequent collections: values that only an option refers to are kept
        st, out = ctx.run(case['forms'], 'p', variant='plain')
        st2, out2 = ctx.run(case['forms'], 'pg%dP' % case['every'], variant='gc', timeout=20000)
        recs, recs2 = ([x for x in drv.parse(o)[0] if x[0] in 'VNEO'] for o in (out, out2))
        labels = list(r.labels) + ['with frequent collections']
        if st != '0':
            return Res('skip', 'unstable', ('skip: unstable',))
        if st2 != '0':
            return Res('fail', 'with a collection at every %d-th allocation the interpreter ended with %s' % (case['every'], drv_status(st2)), labels, r.nontrivial)
        for i in range(max(len(recs), len(recs2))):
            x = recs[i] if i < len(recs) else None
            y = recs2[i] if i < len(recs2) else None
            if x != y:
                return Res('fail', 'record %d: %s; with a collection at every %d-th allocation %s' % (i, drv.show(x), case['every'], drv.show(y)), labels, r.nontrivial)
        return Res('ok', '', labels, r.nontrivial)


CHECK = C()
