"""Reference model of the language: a CEK machine with immutable continuation frames.

Written from R5RS and the project's documentation, not from the C++ sources.  `Unsupported` means
that the model has no opinion on a program; such a case is skipped (and counted as skipped)."""
import math
import re
from . import sx
from fractions import Fraction
from .sx import Sym, Str, Char, Dot, VecLit, Reader, ReadError


class Unsupported(Exception):
    pass


class SchemeError(Exception):
    """a catchable error raised by a primitive"""

    def __init__(self, key='error', args=None):
        self.key = key
        self.args_ = args  # None: opaque


class Nil:
    __slots__ = ()

    def __repr__(self):
        return '()'


class None_:
    __slots__ = ()


class Eof:
    __slots__ = ()


NIL = Nil()
NONE = None_()
EOF = Eof()


class Opaque:
    __slots__ = ()


OPAQUE = Opaque()


class Pair:
    __slots__ = ('car', 'cdr')

    def __init__(self, a, d):
        self.car = a
        self.cdr = d


class MStr:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s


class Vec:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items


class Hash:
    __slots__ = ('index', 'rest', 'n')

    def __init__(self):
        self.index = {}  # simple key -> Pair(key, value)
        self.rest = {}   # entries with other keys
        self.n = 0

    @property
    def items(self):
        return list(self.index.values()) + list(self.rest.values())

    def add(self, e):
        if type(e.car) in SIMPLE:
            self.index[type(e.car), e.car] = e
        else:
            self.rest[id(e)] = e

    def remove(self, e):
        if type(e.car) in SIMPLE:
            del self.index[type(e.car), e.car]
        else:
            del self.rest[id(e)]


SIMPLE = (int, Sym, bool)


class Env:
    __slots__ = ('v', 'parent')

    def __init__(self, v, parent):
        self.v = v
        self.parent = parent

    def find(self, name):
        e = self
        while e is not None:
            if name in e.v:
                return e
            if e.__class__ is ModEnv:
                return e.imported(name)
            e = e.parent
        return None


class ModEnv(Env):
    """the definitions of a module; used: list of ('iface' | 'raw', ModEnv), the latest first"""
    __slots__ = ('name', 'exports', 'used', 'root', 'base', 'autoloads', 'binder', 'obj')

    def __init__(self, name, root, base):
        Env.__init__(self, {}, None)
        self.name, self.root, self.base = name, root or self, base
        self.exports = None
        self.used = []
        self.autoloads = []
        self.binder = None
        self.obj = None

    def imported(self, name):
        for u in self.used:
            e = home(u, name, ())
            if e is not None:
                return e
        if name in self.root.v:
            return self.root
        return self.base if name in self.base.v else None


def home(u, name, path):
    kind, m = u
    if kind == 'raw':
        return m if name in m.v else None
    if name not in m.exports or m in path:
        return None
    if name in m.v:
        return m
    for w in m.used:
        e = home(w, name, path + (m,))
        if e is not None:
            return e
    if name in m.root.v:
        raise Unsupported('re-export of a variable of the root module')
    return None


class Closure:
    __slots__ = ('req', 'rest', 'body', 'env', 'name')

    def __init__(self, req, rest, body, env, name=None):
        self.req, self.rest, self.body, self.env, self.name = req, rest, body, env, name


class Macro:
    __slots__ = ('clo',)

    def __init__(self, clo):
        self.clo = clo


class Prim:
    __slots__ = ('name', 'fn', 'lo', 'hi', 'special')

    def __init__(self, name, fn, lo, hi, special=False):
        self.name, self.fn, self.lo, self.hi, self.special = name, fn, lo, hi, special


class Cont:
    __slots__ = ('k', 'winds', 'mod')

    def __init__(self, k, winds, mod=None):
        self.k, self.winds, self.mod = k, winds, mod


class Promise:
    __slots__ = ('done', 'val', 'env', 'expr')

    def __init__(self, expr, env):
        self.done, self.val, self.env, self.expr = False, None, env, expr


class Values:
    """what (values ...) returned; behaves as a list when it is not consumed by call-with-values"""


class Port:
    __slots__ = ('kind', 'inp', 'outp', 'text', 'pos', 'out', 'closed', 'path', 'procs', 'broken')

    def __init__(self, kind, inp, text=''):
        self.kind, self.inp, self.text, self.pos, self.out, self.closed = kind, inp, text, 0, [], False
        self.path = None
        self.procs = None
        self.outp = not inp
        self.broken = False


class Variable:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Module:
    __slots__ = ('name', 'env')

    def __init__(self, name, env):
        self.name, self.env = name, env


class Smob:
    __slots__ = ('t', 'd')

    def __init__(self, t, d):
        self.t, self.d = t, d


S = Sym
Q = S('quote')


def from_datum(d):
    t = type(d)
    if t is list:
        r = NIL
        for x in reversed(d):
            r = Pair(from_datum(x), r)
        return r
    if t is Str:
        return MStr(d.s)
    if t is Dot:
        r = from_datum(d.tail)
        for x in reversed(d.items):
            r = Pair(from_datum(x), r)
        return r
    if t is VecLit:
        return Vec([from_datum(x) for x in d.items])
    if t is int and not -2 ** 63 <= d < 2 ** 63:
        raise Unsupported('integer literal')
    return d


def is_num(x):
    t = type(x)
    return t is int or t is float or t is Fraction


def norm(x):
    """exact result -> int when integral; check the 64-bit range"""
    if type(x) is Fraction:
        if x.denominator == 1:
            x = x.numerator
        else:
            if not (-2 ** 63 <= x.numerator < 2 ** 63 and x.denominator < 2 ** 63):
                raise Unsupported('overflow')
            return x
    if type(x) is int and not -2 ** 63 <= x < 2 ** 63:
        raise Unsupported('overflow')
    return x


def lst(items, tail=NIL):
    r = tail
    for x in reversed(items):
        r = Pair(x, r)
    return r


def unlist(x, err=True):
    out = []
    while type(x) is Pair:
        out.append(x.car)
        x = x.cdr
        if len(out) > 100000:
            raise Unsupported('long/circular list')
    if x is not NIL:
        raise SchemeError()
    return out


def fmt_float(x):
    if math.isinf(x) or math.isnan(x):
        raise Unsupported('inf/nan')
    if x == int(x) and abs(x) < 2.0 ** 63:
        return '%.1f' % x
    s = '%.14g' % x
    return s


FRAMING = re.compile('[\x1c-\x1f]')


def framing(s):
    if FRAMING.search(s):
        raise Unsupported('character used by the record format')


def char_name(c):
    return {' ': 'space', '\n': 'newline', '\t': 'ht'}.get(c, c)


def show(x, write=True, depth=0):
    t = type(x)
    if t is Eof:
        raise Unsupported('end-of-file object printed')
    if t is bool:
        return '#t' if x else '#f'
    if t is Sym:
        framing(x)
        if '\x00' in x:
            raise Unsupported('gensym')
        return (('#' + x) if x[:1] == ':' else str(x))
    if t is int:
        return str(x)
    if t is float:
        return fmt_float(x)
    if t is Fraction:
        return '%d/%d' % (x.numerator, x.denominator)
    if t is MStr:
        if '\x00g' in x.s:
            raise Unsupported('gensym')
        if not write:
            framing(x.s)
            return x.s
        return '"' + ''.join(map(sx.esc, x.s)) + '"'
    if t is Char:
        framing(x.c)
        if not write:
            return x.c
        return '#\\' + char_name(x.c)
    if t is Nil:
        return '()'
    if t is Pair:
        if depth > 200:
            raise Unsupported('deep print')
        parts = []
        n = 0
        while type(x) is Pair:
            parts.append(show(x.car, True, depth + 1))
            x = x.cdr
            n += 1
            if n > 20000:
                raise Unsupported('circular print')
        if x is not NIL:
            return '(' + ' '.join(parts) + ' . ' + show(x, True, depth + 1) + ')'
        return '(' + ' '.join(parts) + ')'
    if t is Vec:
        if depth > 200:
            raise Unsupported('deep print')
        return '#(' + ' '.join(show(i, write, depth + 1) for i in x.items) + ')'
    if t is Opaque:
        raise Unsupported('opaque printed')
    if t is None_ and depth:
        raise Unsupported('none printed')
    if t is Variable and depth:
        raise Unsupported('variable printed')
    if t is Variable and x.v is not UNASSIGNED and type(x.v) in (Pair, Vec, MStr, Char, Sym, Hash, Variable) and '>' in show(x.v, write, 0):
        raise Unsupported('representation within a variable')
    if t in (Closure, Prim, Cont, Promise, Hash, Port, Variable, Module, Smob, Macro, Eof, None_):
        return '#<>'
    raise Unsupported('print %r' % (x,))


def eqv(a, b):
    ta, tb = type(a), type(b)
    if is_num(a) and is_num(b):
        if ta is float or tb is float:
            if ta is not tb:
                raise Unsupported('eqv across exactness')
            return a == b
        return a == b
    if ta is not tb:
        return False
    if ta is Char:
        return a.c == b.c
    if ta is MStr:
        if a is not b:
            if a.s == b.s:
                raise Unsupported('eqv on equal strings')
            return False
        return True
    if ta is bool or ta is Sym:
        return a == b
    return a is b


def eq(a, b):
    if (is_num(a) and is_num(b)) or (type(a) is Char and type(b) is Char):
        if type(a) is type(b) and type(a) is not float and type(a) is not Fraction:
            return eqv(a, b)
        if type(a) is not type(b):
            raise Unsupported('eq across number types')
        if a == b:
            raise Unsupported('eq on equal floats')
        return False
    return eqv(a, b)


def equal(a, b, depth=0):
    if depth > 1000:
        raise Unsupported('deep equal')
    while True:
        ta, tb = type(a), type(b)
        if ta is Pair and tb is Pair:
            if a is b:
                return True
            if not equal(a.car, b.car, depth + 1):
                return False
            a, b = a.cdr, b.cdr
            depth += 1
            if depth > 1000:
                raise Unsupported('deep equal')
            continue
        if ta is MStr and tb is MStr:
            return a.s == b.s
        if ta is Vec and tb is Vec:
            return len(a.items) == len(b.items) and all(equal(x, y, depth + 1) for x, y in zip(a.items, b.items))
        return eqv(a, b)


SPECIAL = {}


def special(name):
    def d(f):
        SPECIAL[S(name)] = f
        return f
    return d


class Exit(Exception):
    pass


class Machine:
    """Runs a program (list of top-level data). Result: list of records and output."""

    modules = False     # a continuation remembers the module it was made in

    def __init__(self, max_steps=60000, files=None):
        from .prims import PRIMS, option_macros
        self.base = Env(dict(PRIMS), None)
        option_macros(self)
        self.globals = self.base
        self.out = []       # pieces of the output stream
        self.values = []    # the objects behind the 'V' records
        self.why = []       # unbound variables and wrong calls met
        self.recs = []      # ('V', text) | ('N',) | ('E', key, args or None) interleaved with ('O', text)
        self.winds = None   # linked list (before, after, parent, depth)
        self.steps = 0
        self.max_steps = max_steps
        self.stats = {}
        self.gensyms = 0
        self.openp = set()
        self.readers = []
        self.files = files if files is not None else {}
        self.port_out = None
        self.cur_in = self.cur_out = None       # current ports, when they have been asked for
        self.port_in = None

    def note(self, what):
        self.stats[what] = self.stats.get(what, 0) + 1

    def emit(self, s):
        if self.port_out is not None:
            self.port_out.out.append(s)
            return
        if self.recs and self.recs[-1][0] == 'O':
            self.recs[-1] = ('O', self.recs[-1][1] + s)
        elif s:
            self.recs.append(('O', s))
        if len(self.recs) > 5000 or (self.recs and len(self.recs[-1][-1] or '') > 100000):
            raise Unsupported('long output')

    # ---- program level ----
    def run(self, forms):
        self.forms = [from_datum(f) for f in forms]
        self.runfrom(0)
        return self.recs

    def runfrom(self, i):
        while i < len(self.forms):
            i = self.loop(('eval', self.forms[i], self.globals, ('top', i, None), None)) + 1

    def loop(self, st):
        """evaluate until a ('top', i) frame is reached; returns i"""
        mode, a, b, k, _ = st
        env = b
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported('step limit')
            try:
                if mode == 'eval':
                    mode, a, env, k = self.ev(a, env, k)
                elif mode == 'apply':  # a = procedure, env = args list
                    mode, a, env, k = self.ap(a, env, k)
                else:  # 'ret'
                    kind = k[0]
                    if kind == 'top':
                        self.topret(a)
                        return k[1]
                    if kind == 'topdone':
                        return k[1]
                    mode, a, env, k = FRAMES[kind](self, a, k)
            except SchemeError as e:
                mode, a, env, k = self.throw(S(e.key), e.args_, k)

    def topret(self, v):
        if v is NONE or v is EOF:
            self.recs.append(('N',))
        else:
            self.recs.append(('V', show(v)))
            self.values.append(v)

    def top_index(self, k):
        while k[0] != 'top':
            k = k[-1]
        return k[1]

    # ---- throw: find a matching catch frame in the continuation ----
    def throw(self, key, args, k):
        self.note('throw')
        f = k
        while f[0] != 'top':
            if f[0] == 'catch' and (f[1] is True or f[1] == key):
                _, tag, handler, winds, port, nk = f
                args_l = [key] + (unlist(args) if args is not None else [OPAQUE] * 0)
                if args is None:
                    h = ('applyh', handler, key, nk)
                else:
                    h = ('callh', handler, args_l, nk)
                return self.rewind(winds, h, k_error=k)
            if f[0] == 'rewind' and 0 < f[2] <= len(f[1]) and f[1][f[2] - 1][0] == 'in':
                # whose catches apply, those of the extent or those of the call of its continuation?
                raise Unsupported('error in an entry guard that is run again')
            if f[0] == 'args' and type(f[1]) is Prim and f[1].name in ('map', 'map-in-order', 'apply') and (len(f[3]) < 2 or f[2] and type(f[2][0]) not in (Closure, Prim, Cont)):
                raise Unsupported('error in an operand of a wrong call')
            f = f[-1]
        # caught by the top level
        return self.rewind(None, ('toperr', key, args, f))

    def rewind(self, target, action, k_error=None):
        """leave/enter dynamic-wind extents between self.winds and target, then do `action`"""
        cur = self.winds
        path = wind_path(cur, target)
        if not path:
            return self.act(action)
        return 'ret', NONE, None, ('rewind', path, 0, action, path[0][3])

    def act(self, action):
        t = action[0]
        if t == 'toperr':
            self.recs.append(('E', show(action[1]), show(action[2]) if action[2] is not None else None))
            return 'ret', NONE, None, ('topdone', action[3][1])
        if t == 'ret':
            return 'ret', action[1], None, action[2]
        if t == 'callh':
            return 'apply', action[1], action[2], action[3]
        if t == 'applyh':
            h, key, nk = action[1:]
            # error arguments are opaque: a rest list or single parameters
            if type(h) is Closure:
                n = len(h.req)
                if n == 1 and h.rest is not None:
                    return 'apply', h, [key, OPAQUE], nk
                if n == 0 and h.rest is not None:
                    return 'apply', h, [key, OPAQUE], nk
                raise Unsupported('handler with fixed arity for an opaque error')
            raise Unsupported('builtin handler')
        raise Unsupported(t)

    # ---- eval ----
    def ev(self, x, env, k):
        t = type(x)
        if t is Sym:
            e = env.find(x)
            if x in SPECIAL and (e is None or e is self.base):
                raise Unsupported('special form as a value')
            if e is None:
                self.why.append('unbound ' + x)
                raise SchemeError()
            v = e.v[x]
            if e is self.base and x in SYNTAX_LIKE:
                raise Unsupported('special form as a value')
            if v is UNASSIGNED:
                raise Unsupported('unassigned variable')
            return 'ret', v, None, k
        if t is not Pair:
            if t is Nil:
                raise Unsupported('eval ()')
            return 'ret', x, None, k
        op = x.car
        if type(op) is Sym:
            f = SPECIAL.get(op)
            if f is not None:
                e = env.find(op)
                if e is None or e is self.base:
                    try:
                        return f(self, x, env, k)
                    except (SchemeError, AttributeError, IndexError):
                        raise Unsupported('malformed form')
                raise Unsupported('shadowed special form')
            e = env.find(op)
            if e is not None and type(e.v[op]) is Macro:
                self.note('macro-use')
                return self.ap(e.v[op].clo, operands(x.cdr), ('evalin', env, k))
        args = operands(x.cdr)
        if type(op) is Sym:
            if op in SYNTAX_LIKE and e is self.base:
                v = e.v[op]
                if not args or len(args) < v.lo and any(type(a) is Pair and a.car not in (QUOTE, LAMBDA) or type(a) is Sym and env.find(a) is None for a in args):
                    raise Unsupported('malformed form')
                return 'eval', args[0], env, ('args', v, (), args, 1, env, k)
        elif type(op) is not Pair and type(op) not in (Closure, Prim, Cont):
            if any(type(a) is Pair or type(a) is Sym and env.find(a) is None for a in args):
                raise Unsupported('literal in operator position')
            raise SchemeError()
        return 'eval', op, env, ('oper', args, env, k)

    def ap(self, f, args, k):
        t = type(f)
        if t is Closure:
            n = len(f.req)
            if len(args) < n or (f.rest is None and len(args) > n):
                self.note('arity-error')
                self.why.append('arity of a procedure')
                raise SchemeError()
            v = dict(zip(f.req, args))
            if f.rest is not None:
                v[f.rest] = lst(args[n:])
                self.note('rest-call')
            self.note('call')
            return self.body(f.body, Env(v, f.env), k)
        if t is Prim:
            if len(args) < f.lo or (f.hi is not None and len(args) > f.hi):
                self.note('arity-error')
                if f.hi != f.lo or f.name in OWN_ARITY:
                    raise Unsupported('arity of a builtin that checks it itself')
                raise SchemeError('wrong-number-of-args')
            for a in args:
                if a is OPAQUE:
                    raise Unsupported('opaque argument')
                if a is NONE and f.name not in NONE_OK:
                    raise Unsupported('unspecified value used')
            if f.special:
                return f.fn(self, args, k)
            return 'ret', f.fn(*args), None, k
        if t is Cont:
            self.note('cont-invoke')
            if len(args) == 1:
                v = args[0]
            else:
                v = lst(args)
            k = f.k if f.mod is None else ('py', set_module, (f.mod,), f.k)
            return self.rewind(f.winds, ('ret', v, k))
        raise SchemeError()

    def body(self, forms, env, k):
        """forms: python list of data"""
        if len(forms) == 1:
            return 'eval', forms[0], env, k
        return 'eval', forms[0], env, ('seq', forms, 1, env, k)


def operands(x):
    try:
        return unlist(x)
    except SchemeError:
        raise Unsupported('improper combination')


NONE_OK = {'list', 'cons', 'values', 'vector', 'eq?', 'procedure?', 'pair?', 'null?', 'string?', 'symbol?', 'number?',
           'boolean?', 'not', 'noop'}


class Unassigned:
    pass


UNASSIGNED = Unassigned()


def wind_path(cur, target):
    """list of ('out', after, parent, k) and ('in', before, node, k); k is the continuation of the dynamic-wind"""
    if cur is target:
        return []
    a, b = cur, target
    outs, ins = [], []
    da = a[3] if a else 0
    db = b[3] if b else 0
    while da > db:
        outs.append(a)
        a = a[2]
        da -= 1
    while db > da:
        ins.append(b)
        b = b[2]
        db -= 1
    while a is not b:
        outs.append(a)
        a = a[2]
        ins.append(b)
        b = b[2]
    return [('out', w[1], w[2], w[4]) for w in outs] + [('in', w[0], w, w[4]) for w in reversed(ins)]


FRAMES = {}
QUOTE, LAMBDA = S('quote'), S('lambda')
CHECKS_FIRST = {'map', 'map-in-order', 'apply', 'for-each', 'call-with-values'}    # may look at their procedure before they evaluate the rest
SYNTAX_LIKE = {'dynamic-wind', 'for-each', 'call-with-values'}
OWN_ARITY = {'make-soft-port', 'call-with-input-string', 'call-with-output-string', 'call-with-input-file', 'call-with-output-file', 'catch', 'display', 'write', 'newline', 'call/cc', 'call-with-current-continuation', 'call-with-values', 'dynamic-wind'}


def frame(name):
    def d(f):
        FRAMES[name] = f
        return f
    return d


@frame('oper')
def _(m, v, fr):
    _, args, env, k = fr
    if not args:
        return 'apply', v, [], k
    if type(v) is Macro:
        raise Unsupported('macro as value')
    if type(v) not in (Closure, Prim, Cont) and any(type(a) is Pair or type(a) is Sym and env.find(a) is None for a in args):
        raise Unsupported('operands of something that is no procedure')
    return 'eval', args[0], env, ('args', v, (), args, 1, env, k)


@frame('args')
def _(m, v, fr):
    _, f, done, args, i, env, k = fr
    done = done + (v,)
    if i == len(args):
        return 'apply', f, list(done), k
    if type(f) is Prim and f.name in CHECKS_FIRST and (type(v) not in (Closure, Prim, Cont) if i == 1 else type(v) not in (Pair, Nil) and f.name == 'for-each') and any(type(a) is Pair and a.car not in (QUOTE, LAMBDA) or type(a) is Sym and env.find(a) is None for a in args[i:]):
        raise Unsupported('error in an operand of a wrong call')
    return 'eval', args[i], env, ('args', f, done, args, i + 1, env, k)


@frame('seq')
def _(m, v, fr):
    _, forms, i, env, k = fr
    if i == len(forms) - 1:
        return 'eval', forms[i], env, k
    return 'eval', forms[i], env, ('seq', forms, i + 1, env, k)


@frame('evalin')
def _(m, v, fr):
    _, env, k = fr
    return 'eval', v, env, k


@frame('if')
def _(m, v, fr):
    _, c, a, env, k = fr
    if v is NONE:
        raise Unsupported('unspecified test')
    if v is not False:
        return 'eval', c, env, k
    if a is None:
        return 'ret', NONE, None, k
    return 'eval', a[0], env, k


@frame('catch')
def _(m, v, fr):
    return 'ret', v, None, fr[-1]


@frame('rewind')
def _(m, v, fr):
    _, path, i, action, k = fr
    if i and path[i - 1][0] == 'in':
        m.winds = path[i - 1][2]
    if i == len(path):
        return m.act(action)
    d, thunk, node, k = path[i]
    m.note('wind-' + d)
    if d == 'out':
        m.winds = node
    return 'apply', thunk, [], ('rewind', path, i + 1, action, k)


@frame('const')
def _(m, v, fr):
    return 'ret', fr[1], None, fr[-1]


def set_module(m, v, a, k):
    m.globals = a[0]
    return 'ret', v, None, k


@frame('py')
def _(m, v, fr):
    """generic: fr[1](m, v, *fr[2], k)"""
    return fr[1](m, v, fr[2], fr[-1])


def syntax(c):
    if not c:
        raise Unsupported('malformed form')


@special('quote')
def _(m, x, env, k):
    return 'ret', x.cdr.car, None, k


@special('if')
def _(m, x, env, k):
    p = unlist(x.cdr)
    syntax(2 <= len(p) <= 3)
    return 'eval', p[0], env, ('if', p[1], (p[2],) if len(p) == 3 else None, env, k)


def parse_params(p):
    req = []
    while type(p) is Pair:
        syntax(type(p.car) is Sym)
        req.append(p.car)
        p = p.cdr
    if p is NIL:
        rest = None
    else:
        syntax(type(p) is Sym)
        rest = p
    allp = req + ([rest] if rest else [])
    syntax(len(set(allp)) == len(allp))
    return req, rest


def make_closure(params, body, env, name=None):
    req, rest = parse_params(params)
    syntax(body)
    for n in req + ([rest] if rest else []):
        if n in SPECIAL:
            raise Unsupported('shadowed special form')
    return Closure(req, rest, body, env, name)


@special('lambda')
def _(m, x, env, k):
    return 'ret', make_closure(x.cdr.car, unlist(x.cdr.cdr), env), None, k


def do_define(m, name, v, env):
    if name in SPECIAL:
        raise Unsupported('defining a special form')
    if env is m.base:
        raise Unsupported('define in base')
    if type(v) is Closure and v.name is None:
        v.name = name
    env.v[name] = v
    m.note('define')


@special('define')
def _(m, x, env, k):
    t = x.cdr.car
    body = x.cdr.cdr
    while type(t) is Pair and type(t.car) is Pair:  # curried
        body = lst([lst([S('lambda'), t.cdr], body)])
        t = t.car
    if type(t) is Pair:
        c = make_closure(t.cdr, unlist(body), env, t.car)
        do_define(m, t.car, c, env)
        return 'ret', NONE, None, k
    syntax(type(t) is Sym and type(body) is Pair and body.cdr is NIL)
    return 'eval', body.car, env, ('py', lambda m, v, a, k: (do_define(m, t, v, env), ('ret', NONE, None, k))[1], (), k)


@special('set!')
def _(m, x, env, k):
    p = unlist(x.cdr)
    syntax(len(p) == 2 and type(p[0]) is Sym)

    def fin(m, v, a, k):
        e = env.find(p[0])
        if e is None:
            raise Unsupported('set! of an unbound variable')
        if e is m.base:
            raise Unsupported('set! of a builtin')
        e.v[p[0]] = v
        m.note('set!')
        return 'ret', NONE, None, k
    return 'eval', p[1], env, ('py', fin, (), k)


@special('begin')
def _(m, x, env, k):
    p = unlist(x.cdr)
    syntax(p)
    return m.body(p, env, k)


def bindings(b):
    out = []
    for e in unlist(b):
        e = unlist(e)
        syntax(len(e) == 2 and type(e[0]) is Sym)
        syntax(e[0] not in SPECIAL)
        out.append(e)
    return out


@special('let')
def _(m, x, env, k):
    t = x.cdr.car
    if type(t) is Sym:
        bs = bindings(x.cdr.cdr.car)
        body = unlist(x.cdr.cdr.cdr)
        e2 = Env({}, env)
        c = make_closure(lst([b[0] for b in bs]), body, e2, t)
        syntax(t not in SPECIAL)
        e2.v[t] = c
        m.note('named-let')
        if not bs:
            return 'apply', c, [], k
        return 'eval', bs[0][1], env, ('args', c, (), [b[1] for b in bs], 1, env, k)
    bs = bindings(t)
    c = make_closure(lst([b[0] for b in bs]), unlist(x.cdr.cdr), env)
    if not bs:
        return 'apply', c, [], k
    return 'eval', bs[0][1], env, ('args', c, (), [b[1] for b in bs], 1, env, k)


@special('let*')
def _(m, x, env, k):
    bs = bindings(x.cdr.car)
    body = unlist(x.cdr.cdr)
    syntax(body)
    if not bs:
        return m.body(body, Env({}, env), k)

    def step(i, env):
        def fin(m, v, a, k):
            e = Env({bs[i][0]: v}, env)
            if i + 1 == len(bs):
                return m.body(body, e, k)
            return 'eval', bs[i + 1][1], e, step(i + 1, e) + (k,)
        return ('py', fin, ())
    return 'eval', bs[0][1], env, step(0, env) + (k,)


@special('letrec')
def _(m, x, env, k):
    bs = bindings(x.cdr.car)
    body = unlist(x.cdr.cdr)
    syntax(body)
    e = Env({b[0]: UNASSIGNED for b in bs}, env)
    if not bs:
        return m.body(body, e, k)

    def step(i):
        def fin(m, v, a, k):
            if type(v) is Closure and v.name is None:
                v.name = bs[i][0]
            e.v[bs[i][0]] = v
            if i + 1 == len(bs):
                return m.body(body, e, k)
            return 'eval', bs[i + 1][1], e, step(i + 1) + (k,)
        return ('py', fin, ())
    return 'eval', bs[0][1], e, step(0) + (k,)


@special('and')
def _(m, x, env, k):
    p = unlist(x.cdr)
    if not p:
        return 'ret', True, None, k
    if len(p) == 1:
        return 'eval', p[0], env, k

    def fin(i):
        def f(m, v, a, k):
            if v is False:
                return 'ret', False, None, k
            if i + 1 == len(p):
                return 'eval', p[i], env, k
            return 'eval', p[i], env, ('py', fin(i + 1), (), k)
        return f
    return 'eval', p[0], env, ('py', fin(1), (), k)


@special('or')
def _(m, x, env, k):
    p = unlist(x.cdr)
    if not p:
        return 'ret', False, None, k
    if len(p) == 1:
        return 'eval', p[0], env, k

    def fin(i):
        def f(m, v, a, k):
            if v is NONE:
                raise Unsupported('unspecified test')
            if v is not False:
                return 'ret', v, None, k
            if i + 1 == len(p):
                return 'eval', p[i], env, k
            return 'eval', p[i], env, ('py', fin(i + 1), (), k)
        return f
    return 'eval', p[0], env, ('py', fin(1), (), k)


@special('cond')
def _(m, x, env, k):
    cl = [unlist(c) for c in unlist(x.cdr)]
    syntax(cl and all(cl))

    def go(m, i, k):
        if i == len(cl):
            return 'ret', NONE, None, k
        c = cl[i]
        if c[0] == 'else' and type(c[0]) is Sym:
            syntax(i == len(cl) - 1 and len(c) > 1)
            return m.body(c[1:], env, k)

        def fin(m, v, a, k):
            if v is NONE:
                raise Unsupported('unspecified test')
            if v is False:
                return go(m, i + 1, k)
            if len(c) == 1:
                return 'ret', v, None, k
            if type(c[1]) is Sym and c[1] == '=>':
                syntax(len(c) == 3)
                m.note('cond=>')
                return 'eval', c[2], env, ('py', lambda m, f, a, k: ('apply', f, [v], k), (), k)
            return m.body(c[1:], env, k)
        return 'eval', c[0], env, ('py', fin, (), k)
    return go(m, 0, k)


@special('case')
def _(m, x, env, k):
    cl = [unlist(c) for c in unlist(x.cdr.cdr)]
    syntax(cl and all(len(c) > 1 for c in cl))

    def fin(m, v, a, k):
        for c in cl:
            if type(c[0]) is Sym and c[0] == 'else':
                return m.body(c[1:], env, k)
            if any(eqv(v, d) for d in unlist(c[0])):
                m.note('case-hit')
                return m.body(c[1:], env, k)
        m.note('case-miss')
        return 'ret', NONE, None, k
    return 'eval', x.cdr.car, env, ('py', fin, (), k)


@special('do')
def _(m, x, env, k):
    specs = [unlist(s) for s in unlist(x.cdr.car)]
    test = unlist(x.cdr.cdr.car)
    body = unlist(x.cdr.cdr.cdr)
    syntax(test and all(2 <= len(s) <= 3 and type(s[0]) is Sym for s in specs))
    names = [s[0] for s in specs]

    def enter(m, vals, k):
        e = Env(dict(zip(names, vals)), env)

        def tested(m, v, a, k):
            if v is NONE:
                raise Unsupported('unspecified test')
            if v is not False:
                if len(test) == 1:
                    return 'ret', NONE, None, k
                return m.body(test[1:], e, k)
            if body:
                return m.body(body, e, ('py', stepped, (), k))
            return stepped(m, None, (), k)

        def stepped(m, v, a, k):
            m.note('do-step')
            exprs = [s[2] if len(s) == 3 else s[0] for s in specs]
            if not exprs:
                return enter(m, [], k)
            return 'eval', exprs[0], e, ('py', collect(1, (), exprs), (), k)

        def collect(i, done, exprs):
            def f(m, v, a, k):
                d = done + (v,)
                if i == len(exprs):
                    return enter(m, d, k)
                return 'eval', exprs[i], e, ('py', collect(i + 1, d, exprs), (), k)
            return f
        return 'eval', test[0], e, ('py', tested, (), k)

    def init(i, done):
        def f(m, v, a, k):
            d = done + (v,)
            if i == len(specs):
                return enter(m, d, k)
            return 'eval', specs[i][1], env, ('py', init(i + 1, d), (), k)
        return f
    if not specs:
        return enter(m, [], k)
    return 'eval', specs[0][1], env, ('py', init(1, ()), (), k)


@special('delay')
def _(m, x, env, k):
    p = unlist(x.cdr)
    syntax(len(p) == 1)
    return 'ret', Promise(p[0], env), None, k


@special('quasiquote')
def _(m, x, env, k):
    return qq(m, x.cdr.car, 1, env, k)


def is_form(x, name):
    return type(x) is Pair and type(x.car) is Sym and x.car == name and type(x.cdr) is Pair and x.cdr.cdr is NIL


def qq(m, x, d, env, k):
    t = type(x)
    if t is Vec:
        items = lst(x.items)
        return qq(m, items, d, env, ('py', lambda m, v, a, k: ('ret', Vec(unlist(v)), None, k), (), k))
    if t is not Pair:
        return 'ret', x, None, k
    if type(x.car) is Sym and x.car in ('unquote', 'unquote-splicing', 'quasiquote') and not is_form(x, x.car):
        raise Unsupported('malformed template')
    if is_form(x, 'unquote'):
        if d == 1:
            m.note('unquote')
            return 'eval', x.cdr.car, env, k
        m.note('nested-unquote')
        return qq(m, x.cdr.car, d - 1, env, ('py', lambda m, v, a, k: ('ret', lst([x.car, v]), None, k), (), k))
    if is_form(x, 'quasiquote'):
        m.note('nested-qq')
        return qq(m, x.cdr.car, d + 1, env, ('py', lambda m, v, a, k: ('ret', lst([x.car, v]), None, k), (), k))
    if is_form(x.car, 'unquote-splicing') and d == 1:
        m.note('splice')

        def spliced(m, v, a, k):
            return qq(m, x.cdr, d, env, ('py', lambda m, r, a, k: ('ret', app2(v, r), None, k), (), k))
        return 'eval', x.car.cdr.car, env, ('py', spliced, (), k)
    if is_form(x, 'unquote-splicing'):
        if d == 1:
            raise Unsupported('splice outside a list')
        if type(x.cdr.car) is Sym and x.cdr.car in ('unquote', 'unquote-splicing', 'quasiquote'):
            raise Unsupported('malformed template')
        m.note('nested-splice')
        return qq(m, x.cdr.car, d - 1, env, ('py', lambda m, v, a, k: ('ret', lst([x.car, v]), None, k), (), k))
    return qq(m, x.car, d, env, ('py', lambda m, v, a, k: qq(
        m, x.cdr, d, env, ('py', lambda m, r, a, k: ('ret', Pair(v, r), None, k), (), k)), (), k))


def app2(a, b):
    if a is NIL:
        return b
    if b is NIL and type(a) is not Pair:
        raise Unsupported('improper splice')
    if b is NIL:
        return a
    return lst(unlist(a), b)


@special('define-macro')
def _(m, x, env, k):
    t = x.cdr.car
    if type(t) is Pair:
        c = make_closure(t.cdr, unlist(x.cdr.cdr), env, t.car)
        env.v[t.car] = Macro(c)
        return 'ret', NONE, None, k
    p = unlist(x.cdr)
    syntax(len(p) == 2 and type(p[0]) is Sym)

    def fin(m, v, a, k):
        syntax(type(v) is Closure)
        env.v[p[0]] = Macro(v)
        return 'ret', NONE, None, k
    return 'eval', p[1], env, ('py', fin, (), k)


def run_program(forms, max_steps=60000, files=None):
    m = Machine(max_steps, files)
    m.globals = Env({}, m.base)
    m.run(forms)
    return m
