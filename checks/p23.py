import os
import random
import re
import resource
import subprocess
from vlib import sx, drv, model
from vlib.build import build
from vlib.gen import G, large, weighted
from vlib.gens import Ctl, Stm
from vlib.runner import Check, Res, drv_status, errors_of
from checks.p01 import Gen as Spell

TOK = re.compile(r'"(?:[^"\\]|\\.)*"|#\\(?:[A-Za-z]+|.)|#\(|,@|[()\'`,]|[^\s()"\'`,;]+', re.S)
WS = ' \t\n\r\f\v'
HOWS = {'cli': 'program file on the command line', 'load': 'loaded from a program', 'catch': 'loaded under catch', 'split': 'program in several files',
        'api': 'expressions through the API', 'file': 'file through the API'}
SPOT = re.compile(r'\b(?:ub|wr)7\b')


def tokens(t):
    return TOK.findall(t)


class Layout(Spell):
    def __init__(self, seed):
        super().__init__(random.Random(seed))
        style = self.r.random()
        if style < 0.15:      # nothing unusual
            self.odd = 0
        elif style < 0.3:     # as tight as it gets
            self.tight = 1.0
            self.odd = 0.1

    def file(self, forms):
        """text of a file and the position (line, column) of every token of every form"""
        toks = []
        for f in forms:
            for t in tokens(f):
                if t[0] == '"' and '\\n' in t and self.r.random() < 0.5:
                    t = re.sub(r'\\(.)', lambda m: self.pick(['\n', '\n', '\\\n']) if m.group(1) == 'n' else m.group(0), t, flags=re.S)
                toks.append(t)
        out = []
        text = self.lead()
        pos = []
        prev = None
        for t in toks:
            if prev is not None:
                text += self.sep(not self.free(prev, t))
            line = text.count('\n') + 1
            pos.append((t, line, len(text) - (text.rfind('\n') + 1) + 1))
            text += t
            prev = t
        return text + self.lead(), pos

    def lead(self):
        r = self.r
        if r.random() < 0.04:     # long enough for any reading in pieces
            return ';' + 'long (comment " ' * r.choice([r.randint(50, 1200), r.randint(50, 1200), large(r, 10000, 1000)]) + '\n'
        return ''.join(self.sep(False) for _ in range(r.choice([0, 1, 1, 3])))

    def free(self, a, b):
        if a == ',' and b[0] == '@':
            return False
        return a in ('(', ')', '#(', "'", '`', ',', ',@') or a[0] == '"' or b[0] in '()"\'`,'


def spot(pos):
    """allowed (line, column) of the planted error"""
    for i, (t, l, c) in enumerate(pos):
        if t in ('ub7', 'wr7') and not (i and pos[i - 1][0] == '(' and i > 1 and pos[i - 2][0] == 'define'):
            ok = set()
            head = i > 0 and pos[i - 1][0] == '('
            if t == 'ub7':
                ok.add((l, c))
            if head:
                ok.add(pos[i - 1][1:])
            return t, ok
    return None, None


def split_records(recs):
    """[(output, end record)] per form"""
    out = []
    o = ''
    for r in recs:
        if r[0] == 'O':
            o += r[1]
        else:
            out.append((o, r))
            o = ''
    return out, o


def stdout_of(parts, values=True):
    return ''.join(o + (e[1] + '\n' if values and e[0] == 'V' else '') for o, e in parts)


def norm(s):
    return drv.HASHREP.sub('#<>', drv.SYMTBL.sub('', s))


class P23(Check):
    ID = 'P23'
    VARIANTS = ['plain']
    TECH = 'differential and model-based property testing: random programs laid out at random, run as files by every means and compared with the reference interpreter'
    RULE = ('random programs (all core forms, definitions, visible output, caught and uncaught errors), laid out with random line breaks, indentation, comments, tight or wide spacing and strings over several lines, '
            'run from the command line, by load or primitive-load from another program (also split over files that load one another), by the API on the file and by the API expression by expression; '
            'part of them with one unbound variable or one wrong call planted, whose reported line and column is compared with its place in the file; non-trivial: at least three procedure calls and a layout over at least two lines')
    N = {'quick': 36000, 'thorough': 500000}

    def prepare(self):
        build('plain', 'cli.cc', 'cli')

    # ---- generation ----
    def gen(self, rng):
        c = rng.random()
        if c < 0.55:
            g = G(rng, budget=rng.choice([8, 20, 50]), features=())
            g.eff = rng.choice([0.1, 0.3])
            forms = g.program(depth=rng.choice([2, 3, 4]))
        elif c < 0.75:
            g = Ctl(rng, rng.choice([15, 30]), {'catch', 'throw', 'err', 'esc'}, catch=3, throw=1, err=rng.choice([0.3, 1]))
            forms = g.prelude() + g.program(nforms=rng.randint(1, 5), depth=rng.choice([2, 3, 4]))
        elif c < 0.85:
            forms = Stm(rng, rng.choice([15, 30]), mark=0, jump=0, esc=1, catch=2, throw=rng.choice([0, 1]), err=rng.choice([0, 0.5])).program(depth=rng.choice([2, 3, 4]))
        else:
            forms = self.simple(rng)
        how = weighted(rng, [(4, 'cli'), (2, 'load'), (1, 'catch'), (2, 'split'), (1, 'api'), (1, 'file')])
        case = {'how': how, 'lay': rng.randint(0, 10 ** 9), 'forms': forms}
        if how == 'split':
            n = len(forms)
            a, b, c, d = sorted(rng.randint(0, n) for _ in range(4))
            case['cut'] = [a, b, c, d]
        case['by'] = rng.choice(['load', 'primitive-load'])
        case['opt'] = rng.choice(['', '', '-s', '--test'])
        if rng.random() < 0.45 and how not in ('api', 'split'):
            self.plant(rng, case)
        return case

    def simple(self, rng):
        """small expressions, many of them"""
        out = []
        for i in range(rng.choice([0, 1, 3, 8, 25, 25, 200])):
            out.append(weighted(rng, [
                (2, lambda: '(define v%d %d)' % (rng.randint(0, 5), i)), (2, lambda: '(define (f%d x) (display x) (* x %d))' % (rng.randint(0, 3), i)),
                (2, lambda: '(display "%s")' % rng.choice(['a b', ';x', '(', ')', '\\"', 'l1\\nl2', '#|', "'", '\\\\'])), (1, lambda: '(newline)'), (1, lambda: str(i)), (1, lambda: '"s\\n%d"' % i),
                (1, lambda: '#\\' + rng.choice(['a', '(', ')', ';', '"', 'space', "'", '\\'])), (1, lambda: "'(1 . 2)"), (1, lambda: "'sym"), (1, lambda: '#t'),
                (1, lambda: "'(\"a;b\" #\\; #\\( x)"), (1, lambda: '(vector 1 "x" #\\y)'), (1, lambda: "`(1 ,(+ 1 %d) ,@(list 2 3))" % i), (1, lambda: '(if #f #f)'), (1, lambda: '(write "q\\"q")'),
                (1, lambda: '(begin (display %d) (newline) %d)' % (i, i))])())
        return out

    def plant(self, rng, case):
        forms = case['forms']
        places = [(i, m.start(), m.end()) for i, f in enumerate(forms) for m in re.finditer(r'(?<![^\s(])-?\d+(?![^\s)])', f) if '"' not in f and 'define-macro' not in f]
        if not places:
            return
        kind = rng.choice(['ub7', 'ub7', '(ub7)', '(ub7 1 2)', '(wr7)', '(wr7 1)', '(wr7 1 2 3)'])
        i, a, b = places[int(rng.random() * len(places))]
        case['forms'] = (['(define (wr7 a b) a)'] if 'wr7' in kind else []) + forms[:i] + [forms[i][:a] + kind + forms[i][b:]] + forms[i + 1:]
        case['plant'] = True

    # ---- judging ----
    def cli(self, ctx, args):
        exe = build('plain', 'cli.cc', 'cli') if not hasattr(self, 'exe') else self.exe
        self.exe = exe
        with open(os.path.join(ctx.tmp, '.out'), 'w+b') as fo, open(os.path.join(ctx.tmp, '.err'), 'w+b') as fe:
            p = subprocess.Popen([exe] + args, cwd=ctx.tmp, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe)
            try:
                resource.prlimit(p.pid, resource.RLIMIT_CPU, (20, 21))
                resource.prlimit(p.pid, resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
            except ProcessLookupError:
                pass
            rc = p.wait()
            fo.seek(0)
            fe.seek(0)
            return rc, fo.read().decode('latin-1'), fe.read().decode('latin-1')

    def judge(self, ctx, case):
        forms = case['forms']
        how = case['how']
        names = []
        try:
            data = [sx.read_one(f) for f in forms]
            lay = Layout(case['lay'])
            m = model.run_program(data, max_steps=40000)
            for d in data:
                if type(d) is list and len(d) > 1 and d[0] == 'define':
                    n = d[1][0] if type(d[1]) is list else d[1].items[0] if type(d[1]) is sx.Dot else d[1]
                    if type(n) is sx.Sym and n not in names:
                        names.append(n)
            parts, rest = split_records(m.recs)
            if rest or len(parts) != len(forms) or '(quasiquote ' in str(m.recs):
                return Res('skip', 'not one result per expression', ('skip',))
            stop = len(forms)
            if how in ('load', 'catch', 'split'):
                stop = next((i for i, (o, e) in enumerate(parts) if e[0] == 'E'), len(forms))
            probes = ["(if (defined? '%s) (if (procedure? %s) 'procedure %s) 'no)" % (n, n, n) for n in names]
            m2 = model.run_program(data[:stop + 1] + [sx.read_one(x) for x in probes], max_steps=60000)
            parts2, _ = split_records(m2.recs)
            probed = parts2[min(stop + 1, len(forms)):]
            if how == 'split' and stop < len(forms):
                return Res('skip', 'error in a program of several files', ('skip',))
        except (model.Unsupported, sx.ReadError, RecursionError, AttributeError, IndexError, TypeError, KeyError) as e:
            return Res('skip', 'model: %s' % (e,), ('skip: %s' % (e,),))
        labels = [HOWS[how]]
        text, pos = lay.file(forms)
        try:
            if [sx.text(d) for d in sx.read_all(text)] != [sx.text(d) for d in data]:
                return Res('skip', 'layout', ('skip: layout',))
        except sx.ReadError:
            return Res('skip', 'layout', ('skip: layout',))
        # the expressions a planted error is alone responsible for
        expect = None
        if SPOT.search(' '.join(forms)):
            kind, ok = spot(pos)
            good = [re.sub(r'\((?:ub7|wr7)[ 0-9]*\)|\bub7\b', '1', f) if not f.startswith('(define (wr7 ') else f for f in forms]
            try:
                mg = model.run_program([sx.read_one(f) for f in good], max_steps=40000)
                if ok and not any(r[0] == 'E' for r in mg.recs) and m.why[:1] == ['unbound ub7' if kind == 'ub7' else 'arity of a procedure']:
                    expect = (kind, ok)
            except Exception:
                pass
        nt = m.stats.get('call', 0) >= 3 and text.count('\n') >= 1
        main = os.path.join(ctx.tmp, 'main.scm')
        prog = os.path.join(ctx.tmp, 'prog.scm')

        def put(path, t):
            with open(path, 'wb') as f:
                f.write(t.encode('latin-1'))
        err = ''
        if how in ('api', 'file'):
            if how == 'api':
                texts = [Layout(case['lay'] + i).file([f])[0] for i, f in enumerate(forms)]
                st, out = ctx.run(texts, 'a')
            else:
                put(prog, text)
                st, out = ctx.run([prog], 'f')
            recs, done = drv.parse(out)
            if st != '0':
                return Res('fail', 'the interpreter ended with ' + drv_status(st), labels, nt)
            if not forms and recs == [('X',)]:
                recs = []
            strip = [(r[0], r[1], None) if r[0] == 'E' else r for r in m.recs]
            msg = drv.agree(strip, [r if r[0] != 'E' else ('E', r[1], None) for r in recs])
            if not msg and expect and how == 'file' and expect[0] == 'ub7':
                msg = self.located(expect, prog, out, labels)
            return Res('fail' if msg else 'ok', msg or '', labels, nt)
        probetext = '\n'.join(probes) + '\n'
        want2 = stdout_of(probed)
        if how == 'cli':
            put(prog, text + '\n' + probetext)
            want = stdout_of(parts) + stdout_of(split_records(model_rest(data, probes))[0])
            rc, out, err = self.cli(ctx, ([case['opt']] if case['opt'] else []) + ['prog.scm'])
            where = 'prog.scm'
        elif how == 'split':
            a, b, c, d = [min(x, len(forms)) for x in case['cut']]
            f1, f2 = os.path.join(ctx.tmp, 'one.scm'), os.path.join(ctx.tmp, 'two.scm')
            L = lambda fs: lay.file(fs)[0]
            by = case['by']
            put(f2, L(forms[b:c]))
            put(f1, L(forms[a:b]) + '\n(load "two.scm")\n' + L(forms[c:d]))
            put(main, L(forms[:a]) + '\n(%s "%s")\n' % (by, f1) + L(forms[d:]) + '\n' + probetext)
            want = stdout_of(parts[:a]) + stdout_of(parts[a:d], False)
            last = parts[d - 1][1] if d > c else parts[c - 1][1] if c > b else ('N',)
            want += (last[1] + '\n' if last[0] == 'V' else '') + stdout_of(parts[d:]) + want2
            rc, out, err = self.cli(ctx, ['main.scm'])
        else:
            put(prog, text)
            where = prog if case['lay'] % 2 else './prog.scm'
            call = '(%s "%s")' % (case['by'], where)
            if how == 'catch':
                call = "(catch #t (lambda () %s) (lambda (k . a) (display \"caught \") (write k) 'caught))" % call
            put(main, '(display "begin")\n' + call + '\n(display "end")\n' + probetext)
            done = parts[:stop + 1]
            want = 'begin' + stdout_of(done, False)
            last = done[-1][1] if done else ('N',)
            if last[0] == 'V':
                want += last[1] + '\n'
            elif last[0] == 'E' and how == 'catch':
                want += 'caught ' + last[1] + 'caught\n'
            want += 'end' + want2
            rc, out, err = self.cli(ctx, [main])
        if rc:
            return Res('fail', 'the program ended with %d, output %r' % (rc, out[-200:]), labels, nt)
        if norm(out) != norm(want):
            return Res('fail', 'expected output %r, got %r' % (norm(want), norm(out)), labels, nt)
        if expect and how != 'split':
            msg = self.located(expect, where, out + err, labels)
            if msg:
                return Res('fail', msg, labels, nt)
        return Res('ok', '', labels, nt)

    def located(self, expect, where, text, labels):
        kind, ok = expect
        if kind == 'ub7':
            lines = [l for l in text.split('\n') if re.search(r'\bub7\b.*not found', l)]
        else:
            lines = [l for l in text.split('\n') if re.match(re.escape(where) + r':\d+:\d+: ', l)]
        found = [(int(m.group(1)), int(m.group(2))) for l in lines[:1] for m in re.finditer(re.escape(where) + r':(\d+):(\d+)', l)]
        labels.append('location of an unbound variable' if kind == 'ub7' else 'location of a wrong call')
        if not found:
            return 'no location reported for %s, which stands at %s' % (kind, sorted(ok))
        if found[0] not in ok:
            return 'reported at line %d column %d, but it stands at %s' % (found[0] + (' or '.join('line %d column %d' % x for x in sorted(ok)),))

    def show(self, case):
        return '; %s\n' % HOWS[case['how']] + '\n'.join(case['forms'])


def model_rest(data, probes):
    m = model.run_program(data + [sx.read_one(x) for x in probes], max_steps=80000)
    recs = m.recs
    n = 0
    for i, r in enumerate(recs):
        if n == len(data):
            return recs[i:]
        if r[0] != 'O':
            n += 1
    return recs[len(recs):]


CHECK = P23()
