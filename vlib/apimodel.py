"""The reference machine driven through the C API: the same slots, commands and registered C functions as
harness/api.inc, expressed as transitions of the reference interpreter."""
from fractions import Fraction
from . import sx, model
from .model import (Pair, MStr, Vec, Sym, Char, Prim, Closure, Cont, Variable, Hash, NIL, NONE, OPAQUE, UNASSIGNED, S, FRAMES, Env, ModEnv,
                    Unsupported, SchemeError, from_datum, lst, unlist, show, frame, eq, eqv, equal)
from .modmodel import ModMachine, Mod, modname, modobj, use
from .prims import PRIMS, need, unsup

KEY = Prim('h-key', lambda m, a, k: ('ret', a[0], None, k), 0, None, True)
ARGS = Prim('h-args', lambda m, a, k: ('ret', Pair(a[0], lst(a[1:])), None, k), 0, None, True)
MSG = Prim('h-msg', None, 0, None, True)
OWN = ('oops', 'my-error', 'stop', 'k1')     # keys the library does not use itself


def message(key, args):
    unsup(type(key) is not Sym)
    t = "prog: uncaught throw to '%s: " % key
    if str(key) in OWN:
        unsup(args and type(args[0]) is MStr and '\0' in args[0].s)
        t += (args[0].s if args and type(args[0]) is MStr else '<args>') + '\n'
    return lst([False, MStr(t)])


FAILED = Prim('h-failed', None, 0, None, True)
LASTKEY = Prim('h-lastkey', None, 0, None, True)
PROCS = (Closure, Prim, Cont)


@frame('lazy')
def _(m, v, fr):
    return 'ret', v, None, fr[-1]


@frame('after')
def _(m, v, fr):
    """C code that writes something when a call returns"""
    m.emit(fr[1])
    return 'ret', v, None, fr[-1]


class ApiMachine(ModMachine):
    def __init__(self, max_steps=60000):
        ModMachine.__init__(self, max_steps)
        self.slots = [NIL] * 16
        self.cmd = None
        self.lastkey = None
        self.last = None          # result of the command: ('V', value) or ('E', key, args)
        self.sites = []           # entry point of every command: (function, depth)
        for n, lo, hi, f in CPROCS:
            self.root.v[S(n)] = Prim(n, f, lo, hi, True)

    # ---- results ----
    def topret(self, v):
        self.last = ('V', v)

    def act(self, action):
        if action[0] == 'toperr':
            self.last = ('E', action[1], action[2])
            return 'ret', NONE, None, ('topdone', action[3][1])
        if action[0] in ('callh', 'applyh') and action[1] in (KEY, ARGS, FAILED, LASTKEY, MSG):
            h = action[1]
            key = action[2][0] if action[0] == 'callh' else action[2]
            if h in (FAILED, LASTKEY):
                self.lastkey = key
                return 'ret', (S('failed') if h is FAILED else key), None, action[3]
            if h is MSG:
                return 'ret', message(key, action[2][1:] if action[0] == 'callh' else None), None, action[3]
            if h is KEY:
                return 'ret', key, None, action[3]
            if action[0] == 'applyh':
                raise Unsupported('arguments of a builtin error')
        return ModMachine.act(self, action)

    # ---- throw through C handlers ----
    def throw(self, key, args, k):
        f = k
        while f[0] != 'top':
            if f[0] == 'catch' and (f[1] is True or f[1] == key):
                break
            if f[0] == 'lazy' and (f[1] is True or f[1] == key):
                self.emit('%s<%s>' % (f[2], show(key)))
                self.note('throw-handler')
                if f[2] == 'l':
                    return self.throw(S('error'), None, f[-1])
            f = f[-1]
        # the catch is found by the base class; throw handlers inside it have run
        return ModMachine.throw(self, key, args, k)

    def ap(self, f, args, k):
        if type(f) is Cont:
            i = self.top_index(f.k)
            a, b = self.sites[i], self.sites[self.cur]
            if a[1] != b[1]:
                if a[0] == b[0]:
                    self.note('foreign-continuation')
                    raise SchemeError()
                raise Unsupported('continuation of another entry point')
            if a[0] != b[0]:
                raise Unsupported('continuation of another entry point')
            if i != self.cur:
                self.note('re-entered an earlier call')
        return ModMachine.ap(self, f, args, k)

    # ---- commands ----
    def state(self, st):
        """run one evaluation started by the host"""
        self.last = None
        try:
            self.loop(tuple(st[:4]) + (None,))
        finally:
            pass
        return self.last

    def run(self, cmds):
        for c in cmds:
            self.command(c)
        return self.recs

    def command(self, c):
        n = len(self.recs)
        self.do(c)
        return self.recs[n:]

    def report(self, dst, v):
        if v is NONE or v is model.EOF:
            self.recs.append(('N',))
            return
        self.recs.append(('V', '#<>' if type(v) is Mod else show(v)))
        if dst >= 0:
            self.slots[dst] = v

    def message(self, args):
        if args is None:
            return None
        if type(args) is Pair:
            if type(args.car) is MStr:
                return args.car.s
            if type(args.cdr) is Pair and type(args.cdr.car) is MStr:
                return args.cdr.car.s
        return '<nomsg>'

    def api(self, dst, r):
        """result of an evaluation function that reports errors through the accessors"""
        if r[0] == 'V':
            self.report(dst, r[1])
        else:
            self.lastkey = r[1]
            self.recs.append(('E', str(r[1]), self.message(r[2])))

    def guarded(self, dst, r):
        if r[0] == 'V':
            self.report(dst, r[1])
        else:
            self.recs.append(('E', show(r[1]), show(r[2]) if r[2] is not None else None))

    def do(self, c):
        op, dst, depth = c[0], int(c[1]), int(c[2])
        a = c[3:]
        self.cur = len(self.sites)
        k = ('top', self.cur, None)
        sl = self.slots

        def g(i):
            return sl[int(a[i])]
        site = op if op in ('eval', 'evala', 'evalfile') else 'evala' if op in ('evalslot', 'parsefile') else 'guarded'
        self.sites.append((site, depth))
        self.winds = None

        def value(v):
            self.report(dst, v)

        def guard(f):
            """f() -> value or raises SchemeError"""
            self.last = None
            try:
                v = f()
            except SchemeError as e:
                self.guarded(dst, ('E', S(e.key), None))
                return
            self.guarded(dst, ('V', v))
        self.note('op-' + op)
        if op in ('eval', 'evala'):
            self.api(dst, self.state(('eval', from_datum(sx.read_one(a[0])), self.globals, k)))
        elif op == 'evalslot':
            self.api(dst, self.state(('eval', g(0), self.globals, k)))
        elif op == 'parse':
            value(from_datum(sx.read_one(a[0])))
        elif op in ('evalfile', 'parsefile'):
            fs = [from_datum(d) for d in sx.read_all(a[1])]
            unsup(not fs)
            for i, f in enumerate(fs):
                r = self.state(('eval', f, self.globals, k))
                if r[0] == 'E':
                    self.lastkey = r[1]
                if op == 'parsefile' or i == len(fs) - 1:
                    self.api(dst, r)
        elif op == 'evalc':
            fs = [from_datum(d) for d in sx.read_all(a[0])]
            unsup(not fs)
            self.guarded(dst, self.state(('eval', fs[0], self.globals, ('cseq', fs, 1, k) if len(fs) > 1 else k)))
        elif op == 'call':
            self.guarded(dst, self.state(('apply', g(0), [sl[int(x)] for x in a[1:]], k)))
        elif op == 'apply':
            try:
                args = unlist(g(1))
            except SchemeError:
                args = None
            if args is None or type(g(0)) not in PROCS:
                self.guarded(dst, ('E', S('error'), None))
            else:
                self.guarded(dst, self.state(('apply', g(0), args, k)))
        elif op == 'catch':
            tag = True if a[0] == '#t' else S(a[0])
            self.guarded(dst, self.state(('apply', g(1), [], ('catch', tag, {'k': KEY, 'm': MSG}.get(a[2], ARGS), None, None, k))))
        elif op == 'lazy':
            tag = True if a[0] == '#t' else S(a[0])
            self.guarded(dst, self.state(('apply', g(1), [], ('lazy', tag, a[2], k))))
        elif op in ('throw', 'ithrow'):
            unlist(g(1))
            self.guarded(dst, self.state(self.throw(S(a[0]), g(1), k)))
        elif op == 'lookup':
            guard(lambda: self.ref(self.globals, a[0]))
        elif op == 'def':
            name = S(a[0])
            unsup(name in model.SPECIAL or type(g(1)) is model.Macro)
            self.globals.v[name] = g(1)
            self.recs.append(('V', 'defined'))
        elif op == 'int':
            v = int(a[0])
            value((v + 2 ** 31) % 2 ** 32 - 2 ** 31)
        elif op == 'long':
            value(int(a[0]))
        elif op == 'double':
            value(float(a[0]))
        elif op == 'char':
            value(Char(chr(int(a[0]))))
        elif op == 'bool':
            value(a[0] != '0')
        elif op == 'nil':
            value(NIL)
        elif op == 'str':
            value(MStr(a[0]))
        elif op == 'sym':
            value(S(a[0]))
        elif op == 'cons':
            value(Pair(g(0), g(1)))
        elif op in ('list1', 'list2', 'list3'):
            value(lst([g(i) for i in range(int(op[4]))]))
        elif op == 'show':
            self.report(dst, g(0))
        elif op == 'nth':
            value(unlist(g(0))[int(a[1])])
        elif op == 'walk':
            n, x = 0, g(0)
            unsup(type(x) is not Pair)
            while type(x) is Pair:
                n, x = n + 1, x.cdr
            self.recs.append(('V', '%d,%d' % ((n, 0) if x is NIL else (n + 1, 1))))
        elif op == 'toint':
            unsup(type(g(0)) is not int or not -2 ** 31 <= g(0) < 2 ** 31)
            self.recs.append(('V', '%d' % g(0)))
        elif op == 'todouble':
            v = g(0)
            unsup(not model.is_num(v))
            self.recs.append(('V', '%.17g' % (float(v.numerator) / float(v.denominator) if type(v) is Fraction else float(v))))
        elif op == 'tochar':
            self.recs.append(('V', '%d' % ord(g(0).c)))
        elif op == 'tobool':
            unsup(type(g(0)) is not bool)
            self.recs.append(('V', '%d' % g(0)))
        elif op == 'tostr':
            s = g(0).s
            unsup('\0' in s)
            self.recs.append(('V', '%d:%s' % (len(s), s.encode('latin-1').hex())))
        elif op == 'symname':
            unsup(type(g(0)) is not Sym or '\0' in g(0))
            self.recs.append(('V', str(g(0))))
        elif op == 'mkvar':
            value(Variable(g(0)))
        elif op == 'mkundef':
            value(Variable(UNASSIGNED))
        elif op == 'churn':
            self.recs.append(('V', 'churned'))
        elif op in ALIAS:
            args = [int(a[0])] if op == 'make-hash-table' else [sl[int(x)] for x in a]
            guard(lambda: PRIMS[S(ALIAS[op])].fn(*args))
            if op == 'make-hash-table' and dst >= 0:
                sl[dst].n = int(a[0])
        elif op in ('hashq-ref', 'hashv-ref', 'hash-ref'):
            guard(lambda: PRIMS[S(op)].fn(g(0), g(1)))
        elif op in ('defmod', 'resmod'):
            name = modname(from_datum(sx.read_one(a[0])))
            e = self.registry.get(name)
            if e is None:
                e = self.registry[name] = ModEnv(name, self.root, self.base)
            if op == 'defmod' and a[1]:
                self.guarded(dst, self.inmod(e, a[1], k, ('const', modobj(e), k)))
            else:
                value(modobj(e))
        elif op == 'moddef':
            if type(g(0)) is not Mod:
                self.guarded(dst, ('E', S('error'), None))
            else:
                g(0).env.v[S(a[1])] = g(2)
                self.recs.append(('N',))
        elif op in ('modref', 'modref2'):
            if type(g(0)) is not Mod:
                self.guarded(dst, ('E', S('error'), None))
            else:
                guard(lambda: self.ref(g(0).env, a[1], True))
        elif op == 'usemod':
            name = modname(from_datum(sx.read_one(a[0])))
            e = self.registry.get(name)
            unsup(e is None or e is self.globals)
            use(self.globals, e)
            self.recs.append(('N',))
        elif op == 'setmod':
            if type(g(0)) is not Mod:
                raise Unsupported('current module that is no module')
            self.globals = g(0).env
            self.recs.append(('N',))
        elif op == 'curmod':
            value(modobj(self.globals))
        elif op == 'inmod':
            if type(g(0)) is not Mod:
                self.guarded(dst, ('E', S('error'), None))
            else:
                self.guarded(dst, self.inmod(g(0).env, a[1], k, k))
        else:
            raise Unsupported('command ' + op)

    def ref(self, env, name, module=False):
        e = env.find(S(name))
        unsup(S(name) in model.SPECIAL)
        if e is None or (module and e is self.base):
            raise SchemeError()
        v = e.v[S(name)]
        unsup(v is UNASSIGNED or type(v) is model.Macro)
        return v

    def inmod(self, env, text, k, after):
        """evaluate the forms of a text with another current module"""
        fs = [from_datum(d) for d in sx.read_all(text)]
        unsup(not fs)
        old = self.globals

        def setter(to):
            def f(m, a, k):
                m.globals = to
                return 'ret', NONE, None, k
            return Prim('module-setter', f, 0, 0, True)
        outer = self.winds
        self.winds = (setter(env), setter(old), outer, (outer[3] if outer else 0) + 1, k)
        self.globals = env

        def leave(m, v, a, k):
            m.winds = outer
            m.globals = old
            return 'ret', v, None, k
        k2 = ('py', leave, (), after)
        return self.state(('eval', fs[0], env, ('cseq', fs, 1, k2) if len(fs) > 1 else k2))


@frame('cseq')
def _(m, v, fr):
    """scm_c_eval_string: the forms of a text one after the other in the current module"""
    _, fs, i, k = fr
    return 'eval', fs[i], m.globals, ('cseq', fs, i + 1, k) if i + 1 < len(fs) else k


ALIAS = {x: x for x in ('eq?', 'eqv?', 'equal?', 'procedure?', 'pair?', 'null?', 'boolean?', 'not', 'append', 'make-hash-table', 'hashq-set!', 'hashv-set!', 'hash-set!', 'hashq-get-handle', 'hashv-get-handle', 'hash-get-handle')}
ALIAS.update({'setcar': 'set-car!', 'setcdr': 'set-cdr!', 'vref': 'variable-ref', 'vset': 'variable-set!', 'vbound': 'variable-bound?', 'sym->str': 'symbol->string'})


# ---- the registered C functions ----
def says(text, f):
    def g(m, a, k):
        m.emit(text)
        return 'ret', f(*a), None, k
    return g


def callable_(f):
    need(type(f) in PROCS)


def c_call(m, a, k):
    callable_(a[0])
    m.note('C calls Scheme')
    return 'apply', a[0], [a[1]], k


def c_call2(m, a, k):
    callable_(a[0])
    m.note('C calls Scheme')
    return 'apply', a[0], [a[1], a[2]], ('after', '~', k)


def c_apply(m, a, k):
    callable_(a[0])
    m.note('C calls Scheme')
    return 'apply', a[0], unlist(a[1]), ('after', '.', k)


def c_throw(m, a, k):
    unsup(type(a[0]) is not Sym)
    try:
        unlist(a[1])
    except SchemeError:
        unsup(True)
    return m.throw(a[0], a[1], k)


def c_catch(m, a, k):
    unsup(type(a[0]) is not Sym and a[0] is not True)
    m.note('C catch')
    return checked(m, a[1], ('catch', a[0], KEY, m.winds, m.port_out, k))


def c_msg(m, a, k):
    unsup(type(a[0]) is not Sym and a[0] is not True)
    m.note('C catch')
    return checked(m, a[1], ('catch', a[0], MSG, m.winds, m.port_out, k))


def checked(m, f, k):
    if type(f) not in PROCS:
        return m.throw(S('error'), None, k)
    return 'apply', f, [], k


def c_lazy(m, a, k):
    unsup(type(a[0]) is not Sym and a[0] is not True)
    return checked(m, a[1], ('lazy', a[0], 'w', k))


def c_eval(m, a, k):
    m.note('nested evaluation')
    return 'eval', a[0], m.globals, ('py', none_failed, (), ('catch', True, FAILED, m.winds, m.port_out, k))


def none_failed(m, v, a, k):
    return 'ret', v, None, k


def c_evals(m, a, k):
    need(type(a[0]) is MStr)
    try:
        d = from_datum(sx.read_one(a[0].s))
    except (sx.ReadError, IndexError):
        raise Unsupported('text')
    m.note('nested evaluation')
    return 'eval', d, m.globals, ('catch', True, LASTKEY, m.winds, m.port_out, k)


def c_set(m, a, k):
    unsup(type(a[0]) is not int)
    m.slots[a[0] & 15] = a[1]
    return 'ret', a[1], None, k


def c_get(m, a, k):
    unsup(type(a[0]) is not int)
    return 'ret', m.slots[a[0] & 15], None, k


def c_depth(m, a, k):
    unsup(type(a[0]) is not int or a[0] > 300)
    n = max(a[0], 0)
    for i in range(n, 0, -1):
        k = ('after', str(i), k)
    callable_(a[1])
    return 'apply', a[1], [], k


def c_sum(m, a, k):
    t, x = 0, a[0]
    while type(x) is Pair:
        if type(x.car) is int:
            unsup(not -2 ** 31 <= x.car < 2 ** 31)
            t += x.car
        x = x.cdr
    return 'ret', t, None, k


CPROCS = [
    ('c0', 0, 0, says('c0;', lambda: 7)), ('c1', 1, 1, says('c1;', lambda a: lst([a]))), ('c2', 2, 2, says('c2;', lambda a, b: Pair(b, a))),
    ('c3', 3, 3, says('c3;', lambda a, b, c: lst([c, b, a]))), ('crest', 0, None, lambda m, a, k: ('ret', lst(a[::-1]), None, k)),
    ('ccall', 2, 2, c_call), ('ccall2', 3, 3, c_call2), ('capply', 2, 2, c_apply), ('cthrow', 2, 2, c_throw), ('ccatch', 2, 2, c_catch),
    ('clazy', 2, 2, c_lazy), ('cmsg', 2, 2, c_msg), ('ceval', 1, 1, c_eval), ('cevals', 1, 1, c_evals), ('cset', 2, 2, c_set), ('cget', 1, 1, c_get), ('cdepth', 2, 2, c_depth),
    ('csum', 1, 1, c_sum)]
