"""Client of the fork-server driver, and parsing of its output stream."""
import os
import re
import subprocess
from . import sx
from .build import build

REP = r'#<procedure \S+ \([^()\n]*\)>|#<(?:builtin-func|primitive-generic|macro!) (?:->|[<>]=?\??(?=>)|[^\s<>])+>|#<[^\n]*?>'
HASHREP = re.compile(r'#<variable \S+ value: (?:' + REP + ')>|' + REP)
SYMTBL = re.compile(r'\[symtbl\] [^\n]*not found[^\n]*\n')


class DriverDied(Exception):
    pass


class Driver:
    def __init__(self, variant='plain', cwd=None, env=None, exe=None):
        self.exe = exe or build(variant)
        self.cwd = cwd
        e = dict(os.environ)
        e.update({'ASAN_OPTIONS': 'allocator_may_return_null=1:detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0:handle_segv=0:handle_abort=0'})
        if env:
            e.update(env)
        self.env = e
        self.p = None
        self.n = 0

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, cwd=self.cwd, env=self.env)

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
            self.p = None

    def run(self, forms, mode='p', timeout=2000):
        """-> (status, text); forms are source texts"""
        if self.p is None:
            self.start()
        b = [b'%s %d %d\n' % (mode.encode(), timeout, len(forms))]
        for f in forms:
            d = f if isinstance(f, bytes) else f.encode('latin-1')
            b.append(b'%d\n' % len(d))
            b.append(d)
        self.n += 1
        try:
            self.p.stdin.write(b''.join(b))
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            st, n = line.split()
            data = self.p.stdout.read(int(n))
        except (ValueError, BrokenPipeError, OSError):
            self.p.kill()
            self.p = None
            raise DriverDied(self.exe)
        return st.decode(), data.decode('latin-1')


REC = re.compile('\x1e([VNEUXGD])(.*?)\x1f', re.S)


def parse(data):
    """-> (records, done) where records are ('V', text) ('N',) ('E', key, args) ('U',) ('X',) ('O', output)"""
    recs = []
    pos = 0
    done = False
    data = SYMTBL.sub('', data)
    for m in REC.finditer(data):
        if m.start() > pos:
            recs.append(('O', data[pos:m.start()]))
        pos = m.end()
        k = m.group(1)
        if k == 'V':
            recs.append(('V', m.group(2)))
        elif k == 'E':
            key, _, args = m.group(2).partition('\x1d')
            recs.append(('E', key, args))
        elif k == 'G':
            recs.append(('G', m.group(2)))
        elif k == 'D':
            done = True
        else:
            recs.append((k,))
    if pos < len(data):
        recs.append(('O', data[pos:]))
    return recs, done


def norm(s):
    return HASHREP.sub('#<>', s)


def normrecs(recs):
    out = []
    for r in recs:
        if r[0] == 'G':
            continue
        r = tuple(norm(x) if isinstance(x, str) and i else x for i, x in enumerate(r))
        if r[0] == 'O' and out and out[-1][0] == 'O':
            out[-1] = ('O', out[-1][1] + r[1])
        else:
            out.append(r)
    return out


def agree(model, impl):
    """compare model records with the implementation's; None where they agree, else a message"""
    impl = normrecs(impl)
    model = normrecs(model)
    for i in range(max(len(model), len(impl))):
        m = model[i] if i < len(model) else None
        r = impl[i] if i < len(impl) else None
        if m == r:
            continue
        if m and r and m[0] == 'E' == r[0] and m[1] == r[1] and m[2] is None:
            continue
        if m and r and m[0] == r[0] == 'V' and '(quasiquote ' in m[1] and samedatum(m[1], r[1]):
            continue
        return 'record %d: expected %s, got %s' % (i, show(m), show(r))
    return None


def samedatum(a, b):
    """the abbreviation of (quote x) inside a quasiquote is a matter of taste"""
    try:
        return sx.text(sx.read_one(a)) == sx.text(sx.read_one(b))
    except (sx.ReadError, RecursionError):
        return False


def show(r):
    if r is None:
        return 'nothing'
    k = r[0]
    return {'V': 'value ', 'N': 'no value', 'E': 'error ', 'U': 'null result', 'X': 'unparsed', 'O': 'output '}.get(k, k) + \
        ' '.join(repr(x) for x in r[1:])
