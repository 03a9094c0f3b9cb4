import os
import re
from fractions import Fraction
from vlib import sx, drv, model
from vlib.gen import weighted, large
from vlib.runner import Check, Res, drv_status
from vlib.sx import Sym, Str, Char, Dot, VecLit

INIT = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ!$%&*/<=>?^_~'
SUB = INIT + '0123456789+-.@:'
PEC = ['+', '-', '...', '1+', '1-', '->x', '-x', '+y', '-', '.x', '..y', '-.', 'a.b', 'define', 'lambda', 'quote', 'quasiquote', 'unquote', 'unquote-splicing', 'else', '=>', 't', 'f', 'nil', 'e1', 'E', 'x1e5', '-e', '+i', '-inf']
STRCH = 'abcXYZ 019()[]{};\'`,#|.@:!?<>=+-*/%&$^_~'
CHARS = [chr(c) for c in range(33, 127)] + [' ', '\n', '\t']
SEPS = [' ', '\n', '\t', '\r\n', '  ', ' \n ', '\f', ';c\n', '; (a "b\n', ';;#|\n', '; )))\n ', ";'`,@\n", ';\n', ' ; x\\\n', ';#\\\n\n;"\n', '\v', '; (a\r "b\n', ';\r)\n', ';a\f(b\v) 1\n']
QN = {'quote': "'", 'quasiquote': '`', 'unquote': ',', 'unquote-splicing': ',@'}


class Gen:
    def __init__(self, r):
        self.r = r
        self.quotes = r.random() < 0.5
        self.tight = r.random()          # how often an optional separator is left out
        self.odd = r.random() * 0.5      # how often a separator is something unusual

    def pick(self, s):
        return s[int(self.r.random() * len(s))]

    # ---- data ----
    def sym(self):
        r = self.r
        if r.random() < 0.2:
            return Sym(self.pick(PEC))
        return Sym(self.pick(INIT) + ''.join(self.pick(SUB) for _ in range(r.choice([0, 1, 2, 4, 7, 20]))))

    def num(self):
        r = self.r
        c = r.random()
        if c < 0.5:
            v = r.choice([0, 1, r.randint(-20, 20), r.randint(-10 ** 6, 10 ** 6), r.randint(-2 ** 63, 2 ** 63 - 1), 2 ** 63 - 1, -2 ** 63, 2 ** 31, -2 ** 31 - 1])
            return v
        if c < 0.85:
            d = r.randint(1, 10)
            x = r.randint(0, 10 ** d)
            x = r.choice([x / 10 ** r.randint(0, d), x / 4, x * 0.5, float(x), float('%de%d' % (x, r.randint(-20, 20)))])
            x = float('%.13g' % x)
            return -x if r.random() < 0.4 and x else x
        f = Fraction(r.randint(-1000, 1000), r.randint(1, 50))
        return f.numerator if f.denominator == 1 else f

    def str(self):
        r = self.r
        n = r.choice([0, 1, 2, 3, 5, 9, 30])
        out = []
        for _ in range(n):
            c = r.random()
            out.append(self.pick(STRCH) if c < 0.7 else self.pick('\\"\n\t\r') if c < 0.9 else chr(self.pick([1, 7, 8, 11, 12, 27, 127, 128, 160, 233, 255])))
        return Str(''.join(out))

    def atom(self):
        return weighted(self.r, [(3, self.num), (4, self.sym), (2, self.str), (1.5, lambda: Char(self.pick(CHARS))), (1, lambda: self.r.random() < 0.5), (1, lambda: [])])()

    def datum(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.2:
            return self.atom()
        c = r.random()
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 6])
        if c < 0.5:
            return [self.datum(d - 1) for _ in range(n)]
        if c < 0.65:
            items = [self.datum(d - 1) for _ in range(n or 1)]
            t = self.datum(d - 1)
            if isinstance(t, list):
                return items + t
            if isinstance(t, Dot):
                return Dot(items + t.items, t.tail)
            return Dot(items, t)
        if c < 0.8:
            return VecLit([self.datum(d - 1) for _ in range(n)])
        if self.quotes:
            return [Sym(self.pick(list(QN))), self.datum(d - 1)]
        return self.atom()

    def big(self):
        """one datum that is long or deep"""
        r = self.r
        c = r.randrange(7)
        if c == 0:
            return Sym(self.pick(INIT) + ''.join(self.pick(SUB) for _ in range(large(r, 2500))))
        if c == 1:
            return Str(''.join(self.pick(STRCH) if r.random() < 0.9 else self.pick('\\"\n\t\r\x01\xe9') for _ in range(large(r, 4000))))
        if c == 2:
            return [self.atom() for _ in range(large(r, 500))]
        if c == 3:
            return VecLit([self.atom() for _ in range(large(r, 500))])
        if c == 4:
            return Dot([self.atom() for _ in range(large(r, 400))], self.pick([1, Sym('t'), True]))
        d = self.atom()
        for _ in range(large(r, 80)):
            k = r.random()
            if k < 0.6:
                d = [d]
            elif k < 0.75:
                d = [Sym('a'), d]
            elif k < 0.9 or not self.quotes:
                d = VecLit([d])
            else:
                d = [Sym('quote'), d]
        return d

    # ---- spelling ----
    def spell(self, d):
        """list of tokens"""
        r = self.r
        t = type(d)
        if t is list and len(d) == 2 and type(d[0]) is Sym and d[0] in QN and r.random() < 0.8:
            return [QN[d[0]]] + self.spell(d[1])
        if t is list or t is Dot:
            items = d if t is list else d.items
            k = len(items)
            tail = None if t is list else d.tail
            if k and tail is None and r.random() < 0.1:
                j = r.randint(1, k)
                items, tail = items[:j], list(items[j:])
            elif k > 1 and tail is not None and r.random() < 0.15:
                j = r.randint(1, k - 1)
                items, tail = items[:j], Dot(items[j:], tail)
            out = ['(']
            for x in items:
                out += self.spell(x)
            if tail is not None:
                out += ['.'] + self.spell(tail)
            return out + [')']
        if t is VecLit:
            out = ['#(']
            for x in d.items:
                out += self.spell(x)
            return out + [')']
        if t is int and r.random() < 0.2:
            s = str(abs(d))
            return [('-' if d < 0 else self.pick(['', '+'])) + '0' * r.randint(0, 3) + s]
        if t is float:
            return [self.fspell(d)]
        if t is Fraction and r.random() < 0.4:
            k = r.randint(1, 5)
            return ['%s%d/%d' % ('+' if d > 0 and r.random() < 0.3 else '', d.numerator * k, d.denominator * k)]
        if t is Str:
            return [self.sspell(d.s)]
        if t is Char and d.c == '\t':
            return [self.pick(['#\\ht', '#\\tab']) if TAB else '#\\ht']
        return [sx.text(d)]

    def fspell(self, x):
        r = self.r
        c = r.random()
        s = '%.14g' % x
        if 'e' not in s and '.' not in s:
            s += '.0'
        if c < 0.4:
            return s
        if c < 0.55 and 'e' not in s:
            return s + '0' * r.randint(1, 3)
        if c < 0.65 and s.endswith('.0'):
            return s[:-1]
        if c < 0.75 and re.match('-?0\\.', s):
            return s.replace('0.', '.', 1)
        if c < 0.85 and x >= 0:
            return '+' + s
        t = '%.13e' % x
        t = self.pick([t, t.upper(), re.sub(r'0+e', 'e', t)])
        return t

    def sspell(self, s):
        r = self.r
        out = []
        for c in s:
            if c in '"\\':
                out.append('\\' + c)
            elif c in '\n\t\r':
                out.append(sx.esc(c) if r.random() < 0.6 else c)
            else:
                out.append(sx.esc(c) if r.random() < 0.8 or not 32 <= ord(c) < 127 else '\\%03o' % ord(c) if r.random() < 0.5 else c)
        return '"' + ''.join(out) + '"'

    def sep(self, need):
        r = self.r
        if not need and r.random() < self.tight:
            return ''
        out = self.pick(SEPS) if r.random() < self.odd else ' '
        while r.random() < 0.1:
            out += self.pick(SEPS)
        return out

    def layout(self, toks, ends=True):
        out = [self.sep(False) if ends else '']
        prev = None
        for t in toks:
            if prev is not None:
                open_ = prev in ('(', ')', '#(') or prev[0] == '"' or prev in QN.values()
                start = t[0] in '()"\'`,'
                need = not (open_ or start)
                if prev == ',' and t[0] == '@':
                    need = True
                out.append(self.sep(need))
            out.append(t)
            prev = t
        out.append(self.sep(False) if ends else '')
        return ''.join(out)


TAB = False
NAMES = {'r': 'reader', 'q': 'quoted in a program', 'n': 'nested in a quoted list', 'p': 'read from a string port', 'i': 'read from a file port', 'f': 'file of expressions', 't': 'written and read back'}


LEGAL = re.compile('[%s][%s]*' % (re.escape(INIT), re.escape(SUB)))


def legal(d):
    if type(d) is Sym:
        return bool(LEGAL.fullmatch(d)) or d in PEC
    if type(d) is list:
        return all(map(legal, d))
    if type(d) is VecLit:
        return all(map(legal, d.items))
    if type(d) is Dot:
        return all(map(legal, d.items)) and legal(d.tail)
    return type(d) is not Char or d.c in CHARS


def exact(exp, recs):
    for i in range(max(len(exp), len(recs))):
        m = exp[i] if i < len(exp) else None
        r = recs[i] if i < len(recs) else None
        if m == r or (m and r and m[0] == 'V' == r[0] and '(quasiquote ' in m[1] and drv.samedatum(m[1], r[1])):
            continue
        return 'result %d: expected %s, got %s' % (i, drv.show(m), drv.show(r))


class P01(Check):
    ID = 'P01'
    TECH = 'property-based testing: random data in random spellings and layouts; round trip and comparison with a reference reader and printer'
    RULE = ('random data (integers to 64 bits, decimals, ratios, strings with escapes and high bytes, characters, symbols, vectors, dotted lists, quote forms) spelled and laid out at random '
            '(signs, leading zeros, exponents, escapes, adjacent tokens, comments, line ends, dotted spellings of lists) and read by the program reader, as quoted constants, from string ports, from file ports and from program files; '
            'non-trivial: the text contains a list, vector or string and differs from its canonical form')
    N = {'quick': 60000, 'thorough': 900000}

    def gen(self, rng):
        g = Gen(rng)
        n = rng.choice([1, 2, 3, 5])
        texts = []
        data = []
        for _ in range(n):
            while True:
                d = g.big() if rng.random() < 0.01 else g.datum(rng.choice([0, 1, 2, 3, 4, 5]))
                t = g.layout(g.spell(d))
                if len(t) < 12000:
                    break
            data.append(d)
            texts.append(t)
        for d, t in zip(data, texts):
            assert sx.read_one(t) == d, (t, d)
        return {'how': rng.choice('rrrqqnppifftt'), 'forms': texts, 'sep': rng.choice(['\n', ' ', '\n;c\n', ' ; "x\n'])}

    def judge(self, ctx, case):
        forms = case['forms']
        how = case['how']
        try:
            data = [sx.read_one(t) for t in forms]
            if not all(map(legal, data)):
                return Res('skip', 'spelling outside the documented symbols', ('skip',))
            vals = [model.from_datum(d) for d in data]
            canon = [model.show(v) for v in vals]
        except (sx.ReadError, model.Unsupported, RecursionError) as e:
            return Res('skip', str(e), ('skip',))
        labels = [NAMES[how]]
        nt = any(c != t and (c[0] in '(#"') for c, t in zip(canon, forms))
        exp = [('V', c) for c in canon]
        files = []
        mode = 'p'
        if how == 'r':
            src, mode = forms, 'r'
        elif how == 'q':
            src = ["'" + t if t.lstrip()[:1] != '' else t for t in forms]
        elif how == 'n':
            src = ["(cdr '(x" + case['sep'] + '\n'.join(forms) + '\n))']
            exp = [('V', '(' + ' '.join(canon) + ')')]
        elif how in 'pi':
            text = ('\n' + case['sep']).join(forms)
            if how == 'p':
                src = ['(define p (open-input-string %s))' % sx.text(Str(text))]
            else:
                files.append(('t.txt', text))
                src = ['(define p (open-input-file "t.txt"))']
            src += ['(read p)'] * len(forms) + ['(eof-object? (read p))']
            exp = [('N',)] + exp + [('V', '#t')]
        elif how == 'f':
            files.append(('t.scm', ('\n' + case['sep']).join("'" + t for t in forms)))
            src, mode = ['t.scm'], 'f'
        else:
            src = ["(let ((x '%s)) (let ((s (call-with-output-string (lambda (p) (write x p))))) (list s (equal? x (read (open-input-string s))))))" % (t + '\n' if ';' in t else t) for t in forms]
            exp = [('V', '(%s #t)' % model.show(model.MStr(c))) for c in canon]
            if any('quasiquote' in c for c in canon):
                exp = None   # the abbreviated spelling of nested quotes is free; the reading back is still judged
        for name, text in files:
            with open(os.path.join(ctx.tmp, name), 'wb') as f:
                f.write(text.encode('latin-1'))
        st, out = ctx.run(src, mode)
        if st != '0':
            return Res('fail', 'the interpreter ended with %s' % drv_status(st), labels, nt)
        recs, done = drv.parse(out)
        if exp is None:
            msg = None
            if len(recs) != len(forms):
                msg = '%d results, got %d' % (len(forms), len(recs))
            for c, r in zip(canon, recs):
                if r[0] != 'V' or not r[1].endswith(' #t)'):
                    msg = 'writing and reading back %s gave %s' % (c, drv.show(r))
        else:
            msg = exact(exp, recs)
        return Res('fail' if msg else 'ok', (msg or '') + ('' if not msg else ' (%s)' % NAMES[how]), labels, nt)

    def shrink(self, ctx, case):
        def fails(fs):
            return bool(fs) and self.judge(ctx, dict(case, forms=fs)).kind == 'fail'
        fs = list(case['forms'])
        for t in fs:
            if fails([t]):
                fs = [t]
                break
        budget = 1500
        changed = True
        while changed and budget > 0:
            changed = False
            for i in range(len(fs)):
                if len(fs) > 1 and fails(fs[:i] + fs[i + 1:]):
                    fs = fs[:i] + fs[i + 1:]
                    changed = True
                    break
                t = fs[i]
                k = max(1, len(t) // 2)
                while k and not changed and budget > 0:
                    for j in range(0, len(t) - k + 1, 1 if k < 4 else k // 2):
                        budget -= 1
                        c = fs[:i] + [t[:j] + t[j + k:]] + fs[i + 1:]
                        if fails(c):
                            fs = c
                            changed = True
                            break
                    k = k // 2
                if changed:
                    break
        return dict(case, forms=fs)

    def show(self, case):
        return '%s: %s' % (NAMES[case['how']], '\n'.join(case['forms']))


CHECK = P01()
