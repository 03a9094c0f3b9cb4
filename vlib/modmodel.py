"""The reference interpreter extended with modules: define-module, use-modules, export, re-export, define-public,
autoloads, module objects and loading from files."""
from . import model, sx
from .model import (Machine, ModEnv, Env, Unsupported, SchemeError, NONE, Sym, Pair, NIL, Closure, Prim, MStr, UNASSIGNED, S, unlist,
                    lst, from_datum, SPECIAL, special, syntax, frame, Macro)
from .prims import prim, need, unsup, Variable


def modname(x):
    return tuple(str(s) for s in unlist(x))


class Mod:
    """a module object"""
    __slots__ = ('env',)

    def __init__(self, env):
        self.env = env


def modobj(env):
    """the one module object of env"""
    if env.obj is None:
        env.obj = Mod(env)
    return env.obj


class ModMachine(Machine):
    modules = True

    def __init__(self, max_steps=60000, files=None):
        Machine.__init__(self, max_steps, files)
        self.root = ModEnv(('pscm-user',), None, self.base)
        self.root.v[S('%load-path')] = NIL
        self.globals = self.root
        self.registry = {('pscm-user',): self.root}
        self.loads = []
        self.in_binder = False

    def find_file(self, name):
        rel = '/'.join(name) + '.scm'
        p = self.root.v[S('%load-path')]
        dirs = []
        while type(p) is Pair:
            unsup(type(p.car) is not MStr)
            dirs.append(p.car.s)
            p = p.cdr
        for d in dirs:
            f = rel if d in ('.', '') else d.rstrip('/') + '/' + rel
            if f in self.files:
                return f
        return rel if rel in self.files else None

    def resolve(self, name, cont):
        """cont(env) -> next state, possibly after loading the module's file"""
        env = self.registry.get(name)
        if env is not None:
            return cont(env)
        f = self.find_file(name)
        env = self.registry[name] = ModEnv(name, self.root, self.base)
        if f is None:
            self.note('missing-module')
            return cont(env)
        self.loads.append(f)
        self.note('module-load')
        forms = [from_datum(d) for d in sx.read_all(self.files[f])]
        if not forms:
            raise Unsupported('empty file')
        return forms, env, cont

    def start(self, r, k):
        """turn resolve's result into a machine state"""
        if type(r) is tuple and len(r) == 3 and type(r[0]) is list:
            forms, env, cont = r
            old = self.globals

            def setter(to):
                def f(m, a, k):
                    m.globals = to
                    return 'ret', NONE, None, k
                return Prim('module-setter', f, 0, 0, True)
            w = (setter(env), setter(old), self.winds, (self.winds[3] if self.winds else 0) + 1, k)
            self.winds = w
            self.globals = env
            return 'eval', forms[0], env, ('modload', forms, 1, env, old, w[2], cont, k)
        return r

    def ev(self, x, env, k):
        if type(x) is Sym and env.find(x) is None:
            e = env
            while type(e) is not ModEnv and e is not None:
                e = e.parent
            if e is not None:
                return self.ask_binder(e, x, k, lambda k: self.autoload(e, x, env, k))
        return Machine.ev(self, x, env, k)

    def ask_binder(self, e, x, k, otherwise):
        """the value the binder of module e has for x, or else what otherwise(k) does"""
        if e.binder is None or self.in_binder:
            return otherwise(k)
        self.note('binder')

        def setter(to):
            def f(m, a, k):
                if to is False and m.in_binder:
                    self.note('binder-left')
                m.in_binder = to
                return 'ret', NONE, None, k
            return Prim('binder-guard', f, 0, 0, True)
        old = self.winds
        self.winds = (setter(True), setter(False), old, (old[3] if old else 0) + 1, k)
        self.in_binder = True

        def back(m, v, a, k):
            m.winds = old
            m.in_binder = False
            if v is False:
                unsup(e.find(x) is not None)
                return otherwise(k)
            self.note('binder-value')
            if type(v) is Variable:
                need(v.v is not UNASSIGNED)
                v = v.v
            unsup(v is NONE)
            return 'ret', v, None, k
        return 'apply', e.binder, [modobj(e), x, True], ('py', back, (), k)

    def autoload(self, e, x, env, k):
        for i, (name, syms) in enumerate(e.autoloads):
            if x in syms:
                del e.autoloads[i]
                self.note('autoload')

                def cont(mod):
                    use(e, mod)
                    if e.find(x) is None:
                        raise Unsupported('autoload without the name')
                    return 'eval', x, env, k
                return self.start(self.resolve(name, cont), k)
        return Machine.ev(self, x, env, k)


def use(m, mod):
    m.used.insert(0, ('raw' if mod.exports is None else 'iface', mod))


@frame('modload')
def _(m, v, fr):
    _, forms, i, env, old, winds, cont, k = fr
    if i < len(forms):
        return 'eval', forms[i], env, ('modload', forms, i + 1, env, old, winds, cont, k)
    m.winds = winds
    m.globals = old
    return m.start(cont(env), k)


def cur(m):
    if not isinstance(m, ModMachine):
        raise Unsupported('modules')
    return m.globals


def export(mod, s):
    syntax(type(s) is Sym)
    if any(s in syms for _, syms in mod.autoloads):
        raise Unsupported('export of a name that is autoloaded')
    if mod.binder is not None:
        h = mod.find(s)
        if h is None or h is mod.base:
            raise Unsupported('export of a name left to a binder')
    if mod.exports is None:
        mod.exports = set()
    mod.exports.add(s)


def use_all(m, to, specs, k, then):
    if not specs:
        return then()

    def cont(mod):
        use(to, mod)
        return use_all(m, to, specs[1:], k, then)
    return m.start(m.resolve(modname(specs[0]), cont), k)


@special('define-module')
def _(m, x, env, k):
    cur(m)
    name = modname(x.cdr.car)
    opts = [Sym(str(o)[2:]) if type(o) is Sym and o.startswith('#:') else o for o in unlist(x.cdr.cdr)]
    e = m.registry.get(name)
    if e is None:
        e = m.registry[name] = ModEnv(name, m.root, m.base)

    def step(i):
        while i < len(opts):
            o = opts[i]
            if o == 'use-module':
                return use_all(m, e, [opts[i + 1]], k, lambda: step(i + 2))
            if o == 'export':
                for s in opts[i + 1:]:
                    export(e, s)
                i = len(opts)
            elif o == 'autoload':
                e.autoloads.insert(0, (modname(opts[i + 1]), tuple(s for s in opts[i + 2:] if type(s) is Sym)))
                i = len(opts)
            elif o in ('pure', 'no-backtrace'):
                i += 1
            else:
                raise Unsupported('option')
        m.globals = e
        return 'ret', NONE, None, k
    return step(0)


@special('use-modules')
def _(m, x, env, k):
    return use_all(m, cur(m), unlist(x.cdr), k, lambda: ('ret', NONE, None, k))


@special('export')
def _(m, x, env, k):
    for s in unlist(x.cdr):
        export(cur(m), s)
    return 'ret', NONE, None, k


SPECIAL[S('re-export')] = SPECIAL[S('export')]


@special('define-public')
def _(m, x, env, k):
    t = x.cdr.car
    if type(t) is Pair:
        t = t.car
    syntax(type(t) is Sym and env is cur(m))

    def fin(m, v, a, k):
        export(cur(m), t)
        return 'ret', NONE, None, k
    return 'eval', Pair(S('define'), x.cdr), env, ('py', fin, (), k)


@prim('current-module', 0, 0, True)
def _(m, a, k):
    return 'ret', modobj(cur(m)), None, k


@prim('set-current-module', 1, 1, True)
def _(m, a, k):
    need(type(a[0]) is Mod)
    old = cur(m)
    m.globals = a[0].env
    return 'ret', modobj(old), None, k


@prim('resolve-module', 1, 1, True)
def _(m, a, k):
    need(type(a[0]) is Pair)
    cur(m)
    return m.start(m.resolve(modname(a[0]), lambda e: ('ret', modobj(e), None, k)), k)


@prim('module?', 1)
def _(x):
    return type(x) is Mod


@prim('module-ref', 2, 3, True)
def _(m, a, k):
    need(type(a[0]) is Mod and type(a[1]) is Sym)
    e = a[0].env
    h = e.find(a[1])
    if h is None or h is m.base:
        unsup(e.autoloads)

        def otherwise(k):
            if len(a) == 3:
                return 'ret', a[2], None, k
            raise SchemeError()
        return m.ask_binder(e, a[1], k, otherwise)
    return 'ret', h.v[a[1]], None, k


@prim('module-bound?', 2, 2, True)
def _(m, a, k):
    mod, s = a
    need(type(mod) is Mod and type(s) is Sym)
    e = mod.env
    h = e.find(s)
    if h is not None and h is not e.base:
        return 'ret', True, None, k
    unsup(e.autoloads)
    return m.ask_binder(e, s, ('py', lambda m, v, a, k: ('ret', v is not None, None, k), (), k), lambda k: ('ret', None, None, k))


@prim('set-module-binder!', 2, 2, True)
def _(m, a, k):
    need(type(a[0]) is Mod and type(a[1]) is Closure)
    cur(m)
    a[0].env.binder = a[1]
    return 'ret', NONE, None, k


@prim('module-use!', 2, 2, True)
def _(m, a, k):
    need(type(a[0]) is Mod)
    cur(m)

    def cont(mod):
        use(a[0].env, mod)
        return 'ret', NONE, None, k
    if type(a[1]) is Mod:
        return cont(a[1].env)
    need(type(a[1]) is Pair)
    return m.start(m.resolve(modname(a[1]), cont), k)


@prim('module-map', 2, 2, True)
def _(m, a, k):
    """only counting procedures make sense: the order is unspecified"""
    need(type(a[0]) in (Closure, Prim) and type(a[1]) is Mod)
    e = a[1].env
    unsup(e is m.root)
    items = sorted(e.v.items())

    def step(i, done):
        if i == len(items):
            return 'ret', lst(done), None, k
        return 'apply', a[0], [items[i][0], items[i][1]], ('py', lambda m, v, x, k: step(i + 1, done + [v]), (), k)
    return step(0, [])


def run_program(forms, max_steps=60000, files=None):
    m = ModMachine(max_steps, files)
    m.run(forms)
    return m
