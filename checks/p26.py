import os
import random
import re
import resource
import subprocess
from vlib import sx, drv, model
from vlib.build import build
from vlib.gen import large
from vlib.runner import Res
from checks.p23 import P23, Layout, split_records, norm

BAD = [')', '))', '())', '(1 . )', '(1 . 2 3)', "'(1 . )", '(car 1))', '#<x>', '(#<x>)', '5 )', '(display "no") )', '(display "no") (1 . )', '#\\a)', '"s")', '#(1))', "'", '`', "(')", '(1 ,)', '#zz', '(define x)) (display "no")']
PROMPT = re.compile('pscm> |  \\.\\.\\.> ')


class P26(P23):
    ID = 'P26'
    TECH = 'model-based property testing: random sequences of entries at the interactive prompt against the reference interpreter'
    RULE = ('random programs entered at the prompt as one stream of text, divided into lines at random: several expressions on a line, expressions and strings over many lines, comments anywhere, '
            'lines longer than any buffer, malformed entries and failing expressions in between, with and without a final line end; the whole output is compared with the reference interpreter; '
            'non-trivial: at least three expressions and two lines')
    N = {'quick': 24000, 'thorough': 400000}

    def gen(self, rng):
        case = super().gen(rng)
        forms = case['forms']
        out = {'lay': case['lay'], 'forms': forms, 'bad': []}
        if rng.random() < 0.4:
            out['bad'] = [[rng.randint(0, len(forms)), rng.choice(BAD[:-5] if rng.random() < 0.8 else BAD)] for _ in range(rng.choice([1, 1, 2, 4]))]
        out['together'] = rng.choice([0, 0.2, 0.5, 1])
        out['end'] = rng.random() < 0.8
        return out

    def entries(self, case):
        """the text typed"""
        lay = Layout(case['lay'])
        r = lay.r
        text = ''
        for i, f in enumerate(case['forms'] + [None]):
            for at, b in case['bad']:
                if min(at, len(case['forms'])) == i:
                    if text and text[-1] != '\n':
                        text += '\n'
                    text += b + '\n'
                    if b in BAD[15:17]:      # a quote waits for its datum
                        text += ')\n'
            if f is None:
                break
            t = lay.file([f])[0]
            if text and text[-1] != '\n':
                if r.random() >= case['together'] or ';' in text[text.rfind('\n') + 1:]:
                    text += '\n'
                else:
                    text += ' '
            text += t
        if r.random() < 0.03:
            text += '\n' + '"' + 'long line long line ' + ''.join(r.choice('abc xyz()123 ') for _ in range(r.choice([4074, 4075, 4076, 4077, 8170, large(r, 40000, 1000)]))) + 'long line "'
        return text + ('\n' if case['end'] else '')

    def repl(self, ctx, text):
        if not hasattr(self, 'exe'):
            self.exe = build('plain', 'cli.cc', 'cli')
        names = [os.path.join(ctx.tmp, x) for x in ('.in', '.out', '.err')]
        with open(names[0], 'wb') as f:
            f.write(text.encode('latin-1'))
        with open(names[0], 'rb') as fi, open(names[1], 'w+b') as fo, open(names[2], 'w+b') as fe:
            p = subprocess.Popen([self.exe], cwd=ctx.tmp, stdin=fi, stdout=fo, stderr=fe)
            try:
                resource.prlimit(p.pid, resource.RLIMIT_CPU, (20, 21))
                resource.prlimit(p.pid, resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
            except ProcessLookupError:
                pass
            rc = p.wait()
            fo.seek(0)
            fe.seek(0)
            return rc, fo.read().decode('latin-1'), fe.read().decode('latin-1')

    def judge(self, ctx, case):
        try:
            text = self.entries(case)
            forms = list(case['forms'])
            if text.rstrip('\n').endswith('long line "') and 'long line long line' in text:
                forms.append(text.rstrip('\n')[text.rstrip('\n').rindex('\n') + 1:])
            data = [sx.read_one(f) for f in forms]
            m = model.run_program(data, max_steps=40000)
            parts, rest = split_records(m.recs)
            if rest or len(parts) != len(forms):
                return Res('skip', 'not one result per expression', ('skip',))
            vals = iter(m.values)
            want = ''
            for d, (o, e) in zip(data, parts):
                want += model.show(model.from_datum(d), False) + '\n' + o + ' --> '
                want += model.show(next(vals), False) if e[0] == 'V' else 'none' if e[0] == 'N' else '<null>'
                want += '\n'
            if '(quasiquote ' in want or 'pscm> ' in want:
                return Res('skip', 'printing of a nested quasiquotation', ('skip',))
        except (model.Unsupported, sx.ReadError, RecursionError, AttributeError, IndexError, TypeError, KeyError) as e:
            return Res('skip', 'model: %s' % (e,), ('skip: %s' % (e,),))
        labels = sorted(set(['several lines'] * (text.count('\n') > 2) + ['malformed entry'] * bool(case['bad']) + ['failing expression'] * any(e[0] == 'E' for o, e in parts)
                            + ['no final line end'] * (not case['end']) + ['line beyond 4096 bytes'] * any(len(x) > 4095 for x in text.split('\n'))))
        nt = len(forms) >= 3 and text.count('\n') >= 2
        rc, out, err = self.repl(ctx, text)
        if rc:
            return Res('fail', 'the session ended with %d, output %r, error output %r' % (rc, out[-200:], err[-200:]), labels, nt)
        got = PROMPT.sub('', norm(out))
        want = norm(want) + '\n'
        if got != want:
            return Res('fail', 'entered %r: expected output %r, got %r' % (text, want, got), labels, nt)
        if not err and (case['bad'] or any(e[0] == 'E' for o, e in parts)):
            return Res('fail', 'nothing reported for malformed or failing input', labels, nt)
        return Res('ok', '', labels, nt)

    def show(self, case):
        try:
            return self.entries(case)
        except Exception:
            return '\n'.join(case['forms'])


CHECK = P26()
