import re
"""Builtin procedures of the reference model."""
import math
from . import sx
from fractions import Fraction
from .sx import Sym, Char, Reader, ReadError
from .model import *
from .model import eqv, eq, equal, lst, unlist, show, norm, is_num, NIL, NONE, EOF, OPAQUE, UNASSIGNED
from .model import SIMPLE, frame, Unsupported, SchemeError, wind_path

PRIMS = {}


def prim(names, lo, hi=-1, special=False):
    if hi == -1:
        hi = lo

    def d(f):
        for n in names.split():
            PRIMS[Sym(n)] = Prim(n, f, lo, hi, special)
        return f
    return d


def acyclic(target, v):
    """a structure that contains itself has no finite external representation: no opinion"""
    seen = set()
    todo = [v]
    while todo:
        x = todo.pop()
        t = type(x)
        if t not in (Pair, Vec, Hash) or id(x) in seen:
            continue
        if x is target:
            raise Unsupported('cyclic structure')
        seen.add(id(x))
        if len(seen) > 20000:
            raise Unsupported('large structure')
        if t is Pair:
            todo.append(x.cdr)
            todo.append(x.car)
        else:
            todo.extend(x.items)


def need(c):
    if not c:
        raise SchemeError()


def unsup(c, why='domain'):
    if c:
        raise Unsupported(why)


# ---------- predicates ----------
def pred(names, f):
    prim(names, 1)(f)


pred('boolean?', lambda x: type(x) is bool)
pred('null?', lambda x: x is NIL)
pred('pair?', lambda x: type(x) is Pair)
pred('procedure?', lambda x: type(x) in (Closure, Prim, Cont))
pred('number? complex? real?', is_num)
pred('string?', lambda x: type(x) is MStr)
pred('symbol?', lambda x: type(x) is Sym)
pred('vector?', lambda x: type(x) is Vec)
pred('char?', lambda x: type(x) is Char)
pred('not', lambda x: x is False)


@prim('list?', 1)
def _(x):
    slow = x
    n = 0
    while type(x) is Pair:
        x = x.cdr
        n += 1
        unsup(n > 9000)
    return x is NIL


@prim('integer?', 1)
def _(x):
    unsup(type(x) is float, 'integer? of an inexact number')
    return type(x) is int


@prim('rational?', 1)
def _(x):
    unsup(type(x) is float, 'rational? of an inexact number')
    return is_num(x)


@prim('exact?', 1)
def _(x):
    unsup(not is_num(x), 'exact? of a non-number')
    return type(x) is not float


@prim('inexact?', 1)
def _(x):
    unsup(not is_num(x), 'inexact? of a non-number')
    return type(x) is float


@prim('eq?', 2)
def _(a, b):
    return eq(a, b)


@prim('eqv?', 2)
def _(a, b):
    return eqv(a, b)


@prim('equal?', 2)
def _(a, b):
    return equal(a, b)


# ---------- numbers ----------
def nums(a):
    for x in a:
        need(is_num(x))


def inexact_ok(x):
    if type(x) is float and (math.isinf(x) or math.isnan(x)):
        raise Unsupported('inf')
    return x


def small(*a):
    """mixed exact/inexact only where the conversion is exact"""
    for x in a:
        if (type(x) is int or type(x) is Fraction) and (abs(x.numerator) > 2 ** 53 or x.denominator > 2 ** 53):
            raise Unsupported('inexact conversion')


def arith(a, b, op):
    if type(a) is float or type(b) is float:
        small(a, b)
        try:
            return inexact_ok(op(float(a), float(b)))
        except (OverflowError, ZeroDivisionError):
            raise Unsupported('float')
    return norm(op(a, b))


@prim('+', 0, None)
def _(*a):
    nums(a)
    r = 0
    for x in a:
        r = arith(r, x, lambda p, q: p + q)
    return r


@prim('*', 0, None)
def _(*a):
    nums(a)
    r = 1
    for x in a:
        if type(x) is float or type(r) is float:
            unsup((type(x) is int and x == 0) or (type(r) is int and r == 0))
        r = arith(r, x, lambda p, q: p * q)
    return r


@prim('-', 1, None)
def _(*a):
    nums(a)
    if len(a) == 1:
        return arith(0, a[0], lambda p, q: p - q) if type(a[0]) is not float else -a[0]
    r = a[0]
    for x in a[1:]:
        r = arith(r, x, lambda p, q: p - q)
    return r


def div(p, q):
    if type(p) is float or type(q) is float:
        unsup(q == 0)
        return p / q
    if q == 0:
        raise SchemeError()
    return Fraction(p) / Fraction(q)


@prim('/', 1, None)
def _(*a):
    nums(a)
    if len(a) == 1:
        a = (1,) + a
    r = a[0]
    for x in a[1:]:
        need(type(x) is float or x != 0)
        r = arith(r, x, div)
    return r


def cmpop(name, f):
    @prim(name, 0, None)
    def _(*a):
        unsup(len(a) < 2 and not all(map(is_num, a)), 'comparison of a single non-number')
        if not all(map(is_num, a)):
            for x, y in zip(a, a[1:]):
                nums((x, y))
                unsup(type(x) is float or type(y) is float, 'inexact comparison before a bad argument')
                unsup(not f(x, y), 'bad argument after the result is known')
        nums(a)
        for x in a:
            if any(type(y) is float for y in a):
                small(x)
        res = all(f(x, y) for x, y in zip(a, a[1:]))
        if any(type(y) is float for y in a):
            for x, y in zip(a, a[1:]):
                unsup(f(x, y) != f(float(x), float(y)), 'order decided below the precision of inexact numbers')
        return res


cmpop('=', lambda a, b: a == b)
cmpop('<', lambda a, b: a < b)
cmpop('>', lambda a, b: a > b)
cmpop('<=', lambda a, b: a <= b)
cmpop('>=', lambda a, b: a >= b)


@prim('max', 1, None)
def _(*a):
    nums(a)
    if any(type(x) is float for x in a):
        small(*a)
        unsup(any(type(x) is Fraction and Fraction(float(x)) != x for x in a), 'inexact conversion')
        unsup(0 in a and '-0.0' in map(str, a), 'sign of zero')
        return float(max(a))
    return max(a)


@prim('min', 1, None)
def _(*a):
    nums(a)
    if any(type(x) is float for x in a):
        small(*a)
        unsup(any(type(x) is Fraction and Fraction(float(x)) != x for x in a), 'inexact conversion')
        unsup(0 in a and '-0.0' in map(str, a), 'sign of zero')
        return float(min(a))
    return min(a)


@prim('abs', 1)
def _(x):
    nums([x])
    return norm(abs(x)) if type(x) is not float else abs(x)


def ints(a, b):
    need(is_num(a) and is_num(b))
    for x in (a, b):
        if type(x) is not int:
            unsup(type(x) is float and x == math.floor(x), 'integer division of inexact integers')
            raise SchemeError()
    if b == 0:
        raise SchemeError()


@prim('quotient', 2)
def _(a, b):
    ints(a, b)
    q = abs(a) // abs(b)
    return norm(q if (a < 0) == (b < 0) else -q)


@prim('remainder', 2)
def _(a, b):
    ints(a, b)
    r = abs(a) % abs(b)
    return -r if a < 0 else r


@prim('modulo', 2)
def _(a, b):
    ints(a, b)
    return a % b


@prim('gcd', 0, None)
def _(*a):
    unsup(not all(map(is_num, a)) and (0 in a or 1 in a), 'bad argument after the result is known')
    for x in a:
        need(is_num(x))
        unsup(type(x) is float and x == math.floor(x))
        need(type(x) is int)
        unsup(x == -2 ** 63 and len(a) < 2)
    return norm(math.gcd(*a))


@prim('lcm', 0, None)
def _(*a):
    unsup(not all(map(is_num, a)) and (0 in a or 1 in a), 'bad argument after the result is known')
    for x in a:
        need(is_num(x))
        unsup(type(x) is float and x == math.floor(x))
        need(type(x) is int)
        unsup(x == -2 ** 63)
    return norm(math.lcm(*a))


@prim('expt', 2)
def _(a, b):
    nums([a, b])
    unsup(type(b) is not int)
    if type(a) is float:
        raise Unsupported('float expt')
    if b < 0:
        unsup(a == 0 or b < -100)
        a, b = 1 / Fraction(a), -b
        a = int(a) if a.denominator == 1 else a
    if a in (0, 1, -1):
        return 1 if b == 0 else a if b % 2 else a * a
    unsup(b > 100, 'overflow')
    return norm(a ** b)


@prim('sqrt', 1)
def _(a):
    nums([a])
    unsup(a < 0)
    unsup(type(a) is Fraction)
    small(a)
    return math.sqrt(a)


for _n, _f in (('zero?', lambda x: x == 0), ('positive?', lambda x: x > 0), ('negative?', lambda x: x < 0)):
    def _mk(f):
        def g(x):
            nums([x])
            return f(x)
        return g
    prim(_n, 1)(_mk(_f))
for _n, _f in (('odd?', lambda x: x % 2 == 1), ('even?', lambda x: x % 2 == 0)):
    def _mk(f):
        def g(x):
            nums([x])
            need(type(x) is not Fraction)
            if type(x) is float:
                need(x == math.floor(x))
                unsup(abs(x) > 2 ** 53)
            return f(x)
        return g
    prim(_n, 1)(_mk(_f))


@prim('number->string', 1, 2)
def _(x, r=10):
    nums([x])
    need(type(r) is int)
    need(2 <= r <= 36)
    if type(x) is float:
        need(r == 10)
        return MStr(fmt_float(x))
    if type(x) is Fraction:
        unsup(r != 10, 'ratio in another radix')
        return MStr(digits(x.numerator, r) + '/' + digits(x.denominator, r))
    return MStr(digits(x, r))


def digits(x, r):
    ds = '0123456789abcdefghijklmnopqrstuvwxyz'
    n = abs(x)
    out = ''
    while n or not out:
        out = ds[n % r] + out
        n //= r
    return ('-' if x < 0 else '') + out


@prim('string->number', 1, 2)
def _(s, r=10):
    need(type(s) is MStr)
    need(type(r) is int)
    need(2 <= r <= 36)
    t = s.s
    body, sl, den = (t[1:] if t[:1] in ('+', '-') else t).partition('/')
    ds = set('0123456789abcdefghijklmnopqrstuvwxyz'[:r] + '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'[:r])
    if body and set(body) <= ds and (not sl or (den and set(den) <= ds)):
        p = norm(int(t.partition('/')[0], r))
        if not sl:
            return p
        q = norm(int(den, r))
        return False if q == 0 else norm(Fraction(p, q))
    if r == 10 and sx.FLT.fullmatch(t):
        return float(t)
    return False


# ---------- lists ----------
@prim('cons', 2)
def _(a, b):
    return Pair(a, b)


@prim('car', 1)
def _(x):
    need(type(x) is Pair)
    return x.car


@prim('cdr', 1)
def _(x):
    need(type(x) is Pair)
    return x.cdr


@prim('cadr', 1)
def _(x):
    need(type(x) is Pair and type(x.cdr) is Pair)
    return x.cdr.car


@prim('cddr', 1)
def _(x):
    need(type(x) is Pair and type(x.cdr) is Pair)
    return x.cdr.cdr


@prim('caddr', 1)
def _(x):
    need(type(x) is Pair and type(x.cdr) is Pair and type(x.cdr.cdr) is Pair)
    return x.cdr.cdr.car


@prim('list', 0, None)
def _(*a):
    return lst(a)


@prim('set-car!', 2)
def _(p, v):
    need(type(p) is Pair)
    acyclic(p, v)
    p.car = v
    return NONE


@prim('set-cdr!', 2)
def _(p, v):
    need(type(p) is Pair)
    acyclic(p, v)
    p.cdr = v
    return NONE


@prim('append', 0, None)
def _(*a):
    if not a:
        return NIL
    r = a[-1]
    for x in reversed(a[:-1]):
        need(type(x) in (Pair, Nil))
        r = lst(unlist(x), r)
    return r


@prim('list-head', 2)
def _(x, n):
    need(type(n) is int and n >= 0)
    out = []
    for _ in range(n):
        need(type(x) is Pair)
        out.append(x.car)
        x = x.cdr
    return lst(out)


@prim('list-tail', 2)
def _(x, n):
    need(type(n) is int and n >= 0)
    unsup(n == 0 and type(x) not in (Pair, Nil))
    for _ in range(n):
        need(type(x) is Pair)
        x = x.cdr
    return x


@prim('list-ref', 2)
def _(x, n):
    need(type(n) is int and n >= 0)
    for _ in range(n):
        need(type(x) is Pair)
        x = x.cdr
    need(type(x) is Pair)
    return x.car


@prim('last-pair', 1)
def _(x):
    unsup(x is NIL)
    need(type(x) is Pair)
    while type(x.cdr) is Pair:
        x = x.cdr
    return x


@prim('reverse', 1)
def _(x):
    need(type(x) in (Pair, Nil))
    return lst(unlist(x)[::-1])


@prim('length', 1)
def _(x):
    need(type(x) in (Pair, Nil))
    return len(unlist(x))


def memf(name, f):
    @prim(name, 2)
    def _(k, x):
        while type(x) is Pair:
            if f(k, x.car):
                return x
            x = x.cdr
        if x is not NIL:
            raise Unsupported('%s on an improper list' % name)
        return False


memf('memq', eq)
memf('memv', eqv)
memf('member', equal)


def assf(name, f):
    @prim(name, 2)
    def _(k, x):
        need(x is NIL or type(x) is Pair)
        while type(x) is Pair:
            if type(x.car) is Pair and f(k, x.car.car):
                return x.car
            x = x.cdr
        unsup(x is not NIL)
        return False


assf('assq', eq)
assf('assv', eqv)
assf('assoc', equal)


@prim('acons', 3)
def _(k, v, x):
    return Pair(Pair(k, v), x)


@prim('assoc-ref', 2)
def _(x, k):
    need(x is NIL or type(x) is Pair)
    while type(x) is Pair:
        if type(x.car) is Pair and equal(k, x.car.car):
            return x.car.cdr
        x = x.cdr
    unsup(x is not NIL)
    return False


def alist_set(f):
    def g(x, k, v):
        y = x
        need(x is NIL or type(x) is Pair)
        while type(y) is Pair:
            if type(y.car) is Pair and f(k, y.car.car):
                acyclic(y.car, v)
                y.car.cdr = v
                return x
            y = y.cdr
        unsup(y is not NIL)
        return Pair(Pair(k, v), x)
    return g


prim('assoc-set!', 3)(alist_set(equal))
prim('assq-set!', 3)(alist_set(eq))


@prim('assoc-remove!', 2)
def _(x, k):
    need(x is NIL or type(x) is Pair)
    items = []
    y = x
    while type(y) is Pair:
        items.append(y.car)
        y = y.cdr
    unsup(y is not NIL)
    for i, e in enumerate(items):
        if type(e) is Pair and equal(k, e.car):
            return lst(items[:i] + items[i + 1:])
    return x


# ---------- characters ----------
def chars(*a):
    for x in a:
        need(type(x) is Char)


for _n, _f in (('=', lambda a, b: a == b), ('<', lambda a, b: a < b), ('>', lambda a, b: a > b),
               ('<=', lambda a, b: a <= b), ('>=', lambda a, b: a >= b)):
    def _mk(f, fold):
        def g(a, b):
            chars(a, b)
            x, y = a.c, b.c
            if fold:
                r = f(fold_case(x), fold_case(y))
                unsup(r != f(up(x), up(y)), 'the order of letters and the characters between the cases')
                return r
            return f(x, y)
        return g

    def _mks(f, fold):
        def g(a, b):
            need(type(a) is MStr and type(b) is MStr)
            x, y = a.s, b.s
            if fold:
                r = f(fold_case(x), fold_case(y))
                unsup(r != f(up(x), up(y)), 'the order of letters and the characters between the cases')
                return r
            return f(x, y)
        return g
    prim('char%s?' % _n, 2)(_mk(_f, False))
    prim('char-ci%s?' % _n, 2)(_mk(_f, True))
    prim('string%s?' % _n, 2)(_mks(_f, False))
    prim('string-ci%s?' % _n, 2)(_mks(_f, True))


def fold_case(s):
    return ''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in s)


def up(s):
    return ''.join(chr(ord(c) - 32) if 'a' <= c <= 'z' else c for c in s)


for _n, _f in (('char-alphabetic?', lambda c: c.isascii() and c.isalpha()), ('char-numeric?', lambda c: '0' <= c <= '9'),
               ('char-whitespace?', lambda c: c in ' \t\n\r\f\v'), ('char-upper-case?', lambda c: 'A' <= c <= 'Z'),
               ('char-lower-case?', lambda c: 'a' <= c <= 'z'), ('char->integer', ord),
               ('char-upcase', lambda c: Char(up(c))), ('char-downcase', lambda c: Char(fold_case(c)))):
    def _mk(f):
        def g(x):
            chars(x)
            return f(x.c)
        return g
    prim(_n, 1)(_mk(_f))


@prim('integer->char', 1)
def _(n):
    need(type(n) is int and 0 <= n <= 255)
    return Char(chr(n))


# ---------- strings ----------
def strs(*a):
    for x in a:
        need(type(x) is MStr)


def index(i, n):
    need(type(i) is int and 0 <= i < n)


@prim('string-length', 1)
def _(s):
    strs(s)
    unsup('\x00g' in s.s)
    return len(s.s)


@prim('make-string', 1, 2)
def _(n, c=None):
    need(type(n) is int and n >= 0)
    unsup(n > 100000)
    if c is None:
        unsup(n > 0, 'unspecified contents')
        return MStr('')
    chars(c)
    return MStr(c.c * n)


@prim('string', 0, None)
def _(*a):
    chars(*a)
    return MStr(''.join(x.c for x in a))


@prim('string-ref', 2)
def _(s, i):
    strs(s)
    index(i, len(s.s))
    return Char(s.s[i])


@prim('string-set!', 3)
def _(s, i, c):
    strs(s)
    index(i, len(s.s))
    chars(c)
    s.s = s.s[:i] + c.c + s.s[i + 1:]
    return NONE


@prim('substring', 3)
def _(s, a, b):
    strs(s)
    need(type(a) is int and type(b) is int and 0 <= a <= b <= len(s.s))
    return MStr(s.s[a:b])


@prim('string-append', 0, None)
def _(*a):
    strs(*a)
    return MStr(''.join(x.s for x in a))


@prim('string->list', 1)
def _(s):
    strs(s)
    return lst([Char(c) for c in s.s])


@prim('list->string', 1)
def _(x):
    need(type(x) in (Pair, Nil))
    a = unlist(x)
    chars(*a)
    return MStr(''.join(c.c for c in a))


@prim('symbol->string', 1)
def _(x):
    need(type(x) is Sym)
    return MStr(str(x))


@prim('string->symbol', 1)
def _(x):
    strs(x)
    if re.match(r'\s*g\d+$', x.s) and x.s[0] == ' ':
        raise Unsupported('name of a generated symbol')
    return Sym(x.s)


# ---------- vectors ----------
def vecs(x):
    need(type(x) is Vec)


@prim('vector', 0, None)
def _(*a):
    return Vec(list(a))


@prim('make-vector', 1, 2)
def _(n, v=None):
    need(type(n) is int and n >= 0)
    unsup(n > 100000)
    unsup(v is None and n > 0, 'unspecified contents')
    return Vec([v] * n)


@prim('vector-length', 1)
def _(v):
    vecs(v)
    return len(v.items)


@prim('vector-ref', 2)
def _(v, i):
    vecs(v)
    index(i, len(v.items))
    return v.items[i]


@prim('vector-set!', 3)
def _(v, i, x):
    vecs(v)
    index(i, len(v.items))
    acyclic(v, x)
    v.items[i] = x
    return NONE


@prim('vector->list', 1)
def _(v):
    vecs(v)
    return lst(v.items)


@prim('list->vector', 1)
def _(x):
    need(type(x) in (Pair, Nil))
    return Vec(unlist(x))


# ---------- hash tables ----------
@prim('make-hash-table', 0, 1)
def _(n=None):
    need(n is None or (type(n) is int))
    unsup(n is not None and not 0 < n < 100000)
    return Hash()


def hget(h, k, f):
    need(type(h) is Hash)
    p = h.index.get((type(k), k)) if type(k) in SIMPLE else None
    if p is not None:
        return p
    for p in h.rest.values():
        if f(k, p.car):
            return p
    if type(k) is float:
        for p in h.index.values():
            f(k, p.car)
    return None


for _p, _f in (('hash', equal), ('hashq', eq), ('hashv', eqv)):
    def _mk(p, f):
        @prim(p + '-set!', 3)
        def _(h, k, v):
            acyclic(h, k)
            acyclic(h, v)
            e = hget(h, k, f)
            if e is None:
                h.add(Pair(k, v))
            else:
                e.cdr = v
            return v

        @prim(p + '-ref', 2, 3)
        def _(h, k, d=False):
            e = hget(h, k, f)
            return d if e is None else e.cdr

        @prim(p + '-get-handle', 2)
        def _(h, k):
            e = hget(h, k, f)
            return False if e is None else e

        @prim(p + '-create-handle!', 3)
        def _(h, k, v):
            e = hget(h, k, f)
            if e is None:
                e = Pair(k, v)
                h.add(e)
            return e

        @prim(p + '-remove!', 2)
        def _(h, k):
            e = hget(h, k, f)
            if e is not None:
                h.remove(e)
            return NONE
    _mk(_p, _f)


@prim('hash-fold', 3, 3, True)
def _(m, a, k):
    f, init, h = a
    need(type(h) is Hash)
    items = [(p.car, p.cdr) for p in h.items]
    m.note('hash-fold')

    def step(i):
        def fin(m, v, a, k):
            if i == len(items):
                return 'ret', v, None, k
            return 'apply', f, [items[i][0], items[i][1], v], ('py', step(i + 1), (), k)
        return fin
    return step(0)(m, init, (), k)


# ---------- control ----------
@prim('apply', 2, None, True)
def _(m, a, k):
    f, last = a[0], a[-1]
    need(type(f) in (Closure, Prim, Cont))
    need(type(last) in (Pair, Nil))
    m.note('apply')
    return 'apply', f, list(a[1:-1]) + unlist(last), k


def rows(ls):
    cols = []
    bad = False
    for x in ls:
        need(type(x) in (Pair, Nil))
        c = []
        while type(x) is Pair:
            c.append(x.car)
            x = x.cdr
        bad = bad or x is not NIL
        cols.append(c)
    unsup(len({len(c) for c in cols}) > 1, 'lists of unequal length')
    unsup(bad and len(cols) > 1, 'improper lists')
    return list(zip(*cols)), bad


@prim('map map-in-order', 2, None, True)
def _(m, a, k):
    f = a[0]
    need(type(f) in (Closure, Prim, Cont))
    rs, bad = rows(a[1:])
    m.note('map')

    def step(i, done):
        if i == len(rs):
            need(not bad)
            return 'ret', lst(done), None, k
        return 'apply', f, list(rs[i]), ('py', lambda m, v, a, k: step(i + 1, done + (v,)), (), k)
    return step(0, ())


@prim('for-each', 2, None, True)
def _(m, a, k):
    f = a[0]
    need(type(f) in (Closure, Prim, Cont))
    rs, bad = rows(a[1:])
    m.note('for-each')

    def step(i):
        if i == len(rs):
            need(not bad)
            return 'ret', NONE, None, k
        return 'apply', f, list(rs[i]), ('py', lambda m, v, a, k: step(i + 1), (), k)
    return step(0)


@prim('call/cc call-with-current-continuation', 1, 1, True)
def _(m, a, k):
    m.note('call/cc')
    need(type(a[0]) in (Closure, Prim, Cont))
    return 'apply', a[0], [Cont(k, m.winds, m.globals if m.modules else None)], k


@prim('values', 0, None)
def _(*a):
    # several values are represented by a list, a single one by a list of one
    return lst(a)


@prim('call-with-values', 2, 2, True)
def _(m, a, k):
    m.note('values')
    if type(a[1]) not in (Closure, Prim, Cont):
        need(type(a[0]) in (Closure, Prim, Cont))
        raise Unsupported('consumer that is no procedure')

    def fin(m, v, x, k):
        # a producer that returns a list delivers its elements (documented representation of multiple values)
        if v is NIL or type(v) is Pair:
            return 'apply', a[1], unlist(v), k
        if v is NONE:
            raise Unsupported('unspecified value')
        return 'apply', a[1], [v], k
    return 'apply', a[0], [], ('py', fin, (), k)


@prim('dynamic-wind', 3, 3, True)
def _(m, a, k):
    before, thunk, after = a
    need(all(type(x) in (Closure, Prim, Cont) for x in a))
    m.note('wind')

    def entered(m, v, x, k):
        outer = m.winds
        w = (before, after, outer, (outer[3] if outer else 0) + 1, k)
        m.winds = w

        def left(m, v, x, k):
            m.winds = outer
            return 'apply', after, [], ('const', v, k)
        return 'apply', thunk, [], ('py', left, (), k)
    return 'apply', before, [], ('py', entered, (), k)


@prim('catch', 3, 3, True)
def _(m, a, k):
    tag, thunk, handler = a
    need(type(tag) is Sym or tag is True)
    need(type(thunk) in (Closure, Prim, Cont) and type(handler) in (Closure, Prim, Cont))
    m.note('catch')
    return 'apply', thunk, [], ('catch', tag, handler, m.winds, m.port_out, k)


@prim('throw', 1, None, True)
def _(m, a, k):
    need(type(a[0]) is Sym)
    return m.throw(a[0], lst(a[1:]), k)


@prim('force', 1, 1, True)
def _(m, a, k):
    p = a[0]
    need(type(p) is Promise)
    if p.done:
        m.note('force-again')
        return 'ret', p.val, None, k
    m.note('force')

    def fin(m, v, x, k):
        if not p.done:
            p.done, p.val = True, v
        else:
            m.note('force-reentrant')
        return 'ret', p.val, None, k
    return 'eval', p.expr, p.env, ('py', fin, (), k)


@prim('eval', 1, 1, True)
def _(m, a, k):
    m.note('eval')
    return 'eval', a[0], m.globals, k


@prim('noop', 0, None)
def _(*a):
    return False


@prim('procedure-name', 1)
def _(p):
    need(type(p) in (Closure, Prim))
    if type(p) is Prim:
        return Sym(p.name)
    return p.name if p.name is not None else False


@prim('gensym', 0, 1, True)
def _(m, a, k):
    m.gensyms += 1
    s = Sym.__new__(Sym, '\x00g%d' % m.gensyms)
    return 'ret', s, None, k


# ---------- output ----------
@prim('display', 1, 2, True)
def _(m, a, k):
    return out(m, a, False, k)


@prim('write', 1, 2, True)
def _(m, a, k):
    return out(m, a, True, k)


@prim('newline', 0, 1, True)
def _(m, a, k):
    return out(m, [Char('\n')] + list(a), False, k, 0)


@prim('write-char', 1, 2, True)
def _(m, a, k):
    need(type(a[0]) is Char)
    return out(m, a, False, k, 0)


def out(m, a, w, k, soft=1):
    if len(a) == 1 and m.cur_out is not None and m.cur_out.kind != 'stdout':
        m.note('current port')
        a = list(a) + [m.cur_out]
    if len(a) == 1:
        m.emit(show(a[0], w))
        return 'ret', NONE, None, k
    p = a[1]
    unsup(p is NIL)
    need(type(p) is Port and p.outp)
    unsup(p.closed)
    if p.kind == 'stdout':
        m.emit(show(a[0], w))
        return 'ret', NONE, None, k
    m.note('port ' + p.kind)
    unsup('#<>' in show(a[0], w))
    if p.kind == 'soft':
        f = p.procs.items[soft]
        if f is False:
            return 'ret', NONE, None, k
        unsup(type(f) not in (Closure, Prim))
        m.note('soft %d' % soft)
        return 'apply', f, [a[0] if soft == 0 else MStr(show(a[0], w))], ('const', NONE, k)
    p.out.append(show(a[0], w))
    return 'ret', NONE, None, k


# ---------- ports ----------
@prim('open-input-string', 1)
def _(s):
    strs(s)
    return Port('string', True, s.s)


@prim('open-output-string', 0)
def _():
    return Port('string', False)


@prim('get-output-string', 1)
def _(p):
    need(type(p) is Port and p.outp and p.kind == 'string')
    return MStr(''.join(p.out))


def current(m, inp):
    if inp:
        m.cur_in = m.cur_in or Port('stdin', True)
        return m.cur_in
    m.cur_out = m.cur_out or Port('stdout', False)
    return m.cur_out


@prim('current-output-port', 0, 0, True)
def _(m, a, k):
    return 'ret', current(m, False), None, k


@prim('current-input-port', 0, 0, True)
def _(m, a, k):
    return 'ret', current(m, True), None, k


@prim('set-current-output-port', 1, 1, True)
def _(m, a, k):
    need(type(a[0]) is Port and a[0].outp)
    old = current(m, False)
    m.cur_out = a[0]
    return 'ret', old, None, k


@prim('set-current-input-port', 1, 1, True)
def _(m, a, k):
    need(type(a[0]) is Port and a[0].inp)
    old = current(m, True)
    m.cur_in = a[0]
    return 'ret', old, None, k


def inport(m, a):
    if not a and m.cur_in is not None:
        m.note('current port')
        a = [m.cur_in]
    if not a:
        raise Unsupported('standard input')
    p = a[0]
    unsup(p is NIL)
    need(type(p) is Port and p.inp)
    unsup(p.closed or p.broken or p.kind == 'stdin')
    m.note('port ' + p.kind)
    return p


def soft_get(m, p, k, keep):
    """a character from a soft port, through its procedure; with keep it stays the next one"""
    if p.pos < len(p.text):
        c = p.text[p.pos]
        p.pos += 0 if keep else 1
        return 'ret', Char(c), None, k
    f = p.procs.items[3]
    if f is False:
        return 'ret', EOF, None, k
    unsup(type(f) not in (Closure, Prim))
    m.note('soft 3')

    def got(m, v, x, k):
        if type(v) is not Char:
            return 'ret', EOF, None, k
        unsup(p.pos < len(p.text))
        if keep:
            p.text, p.pos = v.c, 0
        return 'ret', v, None, k
    return 'apply', f, [], ('py', got, (), k)


@prim('read-char', 0, 1, True)
def _(m, a, k):
    p = inport(m, a)
    if p.kind == 'soft':
        return soft_get(m, p, k, False)
    if p.pos >= len(p.text):
        m.note('end of file')
        return 'ret', EOF, None, k
    p.pos += 1
    return 'ret', Char(p.text[p.pos - 1]), None, k


@prim('peek-char', 0, 1, True)
def _(m, a, k):
    p = inport(m, a)
    if p.kind == 'soft':
        return soft_get(m, p, k, True)
    if p.pos >= len(p.text):
        return 'ret', EOF, None, k
    return 'ret', Char(p.text[p.pos]), None, k


@prim('char-ready?', 0, 1, True)
def _(m, a, k):
    p = inport(m, a)
    unsup(p.kind == 'soft')
    return 'ret', p.pos < len(p.text), None, k


def read_from(m, p, k):
    r = Reader(p.text)
    r.strict = True
    r.i = p.pos
    try:
        d = r.read()
    except EOFError:
        p.pos = len(p.text)
        m.note('end of file')
        return 'ret', EOF, None, k
    except ReadError as e:
        unsup('eof' not in str(e))
        p.broken = True
        raise SchemeError('error', None)
    p.pos = r.i
    from .model import from_datum
    return 'ret', from_datum(d), None, k


@prim('read', 0, 1, True)
def _(m, a, k):
    p = inport(m, a)
    m.note('read')
    if p.kind != 'soft':
        return read_from(m, p, k)
    # how far ahead the reader looks is its own matter: programs whose procedure shows it are left out
    f = p.procs.items[3]
    unsup(type(f) not in (Closure, Prim))
    left = [400]

    def got(m, v, x, k):
        unsup(left[0] != x[0])      # entered again in the middle
        left[0] -= 1
        unsup(left[0] < 0)
        if type(v) is Char:
            p.text += v.c
            return 'apply', f, [], ('py', got, (left[0],), k)
        return read_from(m, p, k)
    p.text, p.pos = p.text[p.pos:], 0
    return 'apply', f, [], ('py', got, (400,), k)


@prim('eof-object?', 1)
def _(x):
    return x is EOF


@prim('input-port?', 1)
def _(x):
    return type(x) is Port and x.inp


@prim('output-port?', 1)
def _(x):
    return type(x) is Port and x.outp


class FileOut(list):
    """what was written is in the file only after a flush or a close"""

    def __init__(self, files, path):
        self.f, self.p, self.buf = files, path, []

    def append(self, s):
        self.buf.append(s)

    def flush(self):
        self.f[self.p] += ''.join(self.buf)
        self.buf = []


def plain_path(s):
    strs(s)
    unsup(not s.s or s.s.startswith('/') or '..' in s.s or '\0' in s.s or not s.s.isascii())
    return s.s


def open_out(m, s):
    path = plain_path(s)
    # two open ports on one file, and files in missing directories, are the business of the system
    unsup('/' in path or path in m.openp)
    for q in m.readers:
        unsup(q.path == path and not q.closed)
    p = Port('file', False)
    p.path = path
    m.files[path] = ''
    m.openp.add(path)
    p.out = FileOut(m.files, path)
    return p


def open_in(m, s):
    path = plain_path(s)
    if path not in m.files:
        unsup(not path.startswith('missing'))
        raise SchemeError('error', None)
    unsup(path in m.openp)
    p = Port('file', True, m.files[path])
    p.path = path
    m.readers.append(p)
    return p


@prim('open-output-file', 1, 1, True)
def _(m, a, k):
    return 'ret', open_out(m, a[0]), None, k


@prim('open-input-file', 1, 1, True)
def _(m, a, k):
    return 'ret', open_in(m, a[0]), None, k


def close_port(m, p, k, v=NONE):
    if p.closed:
        return 'ret', v, None, k
    if p.kind == 'soft':
        f = p.procs.items[4]
        if f is False:
            p.closed = True
            return 'ret', v, None, k
        unsup(type(f) not in (Closure, Prim))
        m.note('soft 4')

        def fin(m, x, y, k):
            p.closed = True
            return 'ret', v, None, k
        return 'apply', f, [], ('py', fin, (), k)
    p.closed = True
    if p.kind == 'file' and p.outp:
        p.out.flush()
        m.openp.discard(p.path)
    return 'ret', v, None, k


@prim('close-input-port', 1, 1, True)
def _(m, a, k):
    need(type(a[0]) is Port and a[0].inp)
    unsup(a[0].kind == 'stdin')
    return close_port(m, a[0], k)


@prim('close-output-port', 1, 1, True)
def _(m, a, k):
    need(type(a[0]) is Port and a[0].outp)
    unsup(a[0].kind == 'stdout')
    return close_port(m, a[0], k)


@prim('force-output', 0, 1, True)
def _(m, a, k):
    if not a and m.cur_out is not None:
        a = [m.cur_out]
    if not a:
        return 'ret', NONE, None, k
    p = a[0]
    unsup(p is NIL)
    need(type(p) is Port and p.outp)
    if p.closed:
        return 'ret', NONE, None, k
    if p.kind == 'file':
        p.out.flush()
    if p.kind == 'soft':
        f = p.procs.items[2]
        if f is not False:
            unsup(type(f) not in (Closure, Prim))
            m.note('soft 2')
            return 'apply', f, [], ('const', NONE, k)
    return 'ret', NONE, None, k


@prim('make-soft-port', 2, 2)
def _(pv, modes):
    need(type(pv) is Vec and type(modes) is MStr)
    need(len(pv.items) in (5, 6) and ('r' in modes.s or 'w' in modes.s))
    p = Port('soft', 'r' in modes.s)
    p.outp = 'w' in modes.s
    p.procs = pv
    return p


@prim('call-with-output-string', 1, 1, True)
def _(m, a, k):
    need(type(a[0]) in (Closure, Prim))
    p = Port('string', False)
    return 'apply', a[0], [p], ('py', lambda m, v, x, k: ('ret', MStr(''.join(p.out)), None, k), (), k)


@prim('call-with-input-string', 2, 2, True)
def _(m, a, k):
    strs(a[0])
    need(type(a[1]) in (Closure, Prim))
    return 'apply', a[1], [Port('string', True, a[0].s)], k


@prim('call-with-input-file', 2, 2, True)
def _(m, a, k):
    strs(a[0])
    need(type(a[1]) in (Closure, Prim))
    p = open_in(m, a[0])
    return 'apply', a[1], [p], ('py', lambda m, v, x, k: close_port(m, p, k, v), (), k)


@prim('call-with-output-file', 2, 2, True)
def _(m, a, k):
    strs(a[0])
    need(type(a[1]) in (Closure, Prim))
    p = open_out(m, a[0])
    return 'apply', a[1], [p], ('py', lambda m, v, x, k: close_port(m, p, k, v), (), k)


# ---------- variables ----------
@prim('make-variable', 1)
def _(v):
    return Variable(v)


@prim('make-undefined-variable', 0)
def _():
    return Variable(UNASSIGNED)


@prim('variable?', 1)
def _(x):
    return type(x) is Variable


@prim('variable-ref', 1)
def _(x):
    need(type(x) is Variable and x.v is not UNASSIGNED)
    return x.v


@prim('variable-set!', 2)
def _(x, v):
    need(type(x) is Variable)
    x.v = v
    return NONE


@prim('variable-bound?', 1)
def _(x):
    need(type(x) is Variable)
    return x.v is not UNASSIGNED


@frame('topdone')
def _(m, v, fr):
    raise Unsupported('unreachable')


@prim('defined?', 1, 1, True)
def _(m, a, k):
    need(type(a[0]) is Sym)
    unsup(a[0] in SPECIAL, 'defined? of a syntactic keyword')
    return 'ret', m.globals.find(a[0]) is not None, None, k


# ---------- options ----------
# name, kind, initial value; reported last to first
OPTIONS = {
    'read': [('copy', bool, False), ('positions', bool, True), ('case-insensitive', bool, False), ('keywords', object, False)],
    'debug': [('cheap', bool, True), ('breakpoints', bool, False), ('trace', bool, False), ('procnames', bool, True), ('backwards', bool, False),
              ('width', int, 79), ('indent', int, 10), ('frames', int, 3), ('maxdepth', int, 1000), ('depth', int, 20), ('backtrace', bool, False),
              ('debug', bool, False), ('stack', int, 20000), ('show-file-name', object, True), ('warn-deprecated', bool, False)],
}


def options_report(m, fam):
    st = m.options[fam]
    out = []
    for name, kind, _ in reversed(OPTIONS[fam]):
        if kind is bool:
            if st[name]:
                out.append(Sym(name))
        else:
            out += [Sym(name), st[name]]
    return lst(out)


def options_change(m, fam, items):
    """the flags listed are on and all others off; the values listed are set and the others kept"""
    kinds = {n: k for n, k, _ in OPTIONS[fam]}
    new = {n: (False if kinds[n] is bool else v) for n, v in m.options[fam].items()}
    i = 0
    while i < len(items):
        x = items[i]
        i += 1
        if type(x) is Pair:
            raise Unsupported('a list among option names')
        if type(x) is not Sym:
            continue
        need(x in kinds)
        kind = kinds[x]
        if kind is bool:
            if i < len(items) and items[i] is False:
                i += 1
            else:
                new[str(x)] = True
            continue
        need(i < len(items))
        v = items[i]
        i += 1
        if kind is int:
            need(type(v) is int)
        elif type(v) is Pair and v.car == Sym('quote'):
            raise Unsupported('quoted value')
        new[str(x)] = v
    if fam == 'read' and new['copy']:
        new['positions'] = True
    m.options[fam] = new


def _options(fam):
    def f(m, a, k):
        if not hasattr(m, 'options'):
            m.options = {f: {n: v for n, _, v in l} for f, l in OPTIONS.items()}
        if a and type(a[0]) is Pair:
            options_change(m, fam, unlist(a[0]))
            m.note(fam + ' options changed')
        return 'ret', options_report(m, fam), None, k
    prim(fam + '-options-interface', 0, None, True)(f)


for _f in OPTIONS:
    _options(_f)

OPTION_MACROS = """
(define-macro (%s-set! opt val) (list '%s-options-interface (list 'append '(%s-options-interface) (list 'list (list 'quote opt) val))))
(define-macro (%s-enable . flags) (list '%s-options-interface (list 'append (cons 'list flags) '(%s-options-interface))))
(define-macro (%s-disable . flags)
  (list '%s-options-interface
    (list 'let (list '(options (%s-options-interface)) (list 'flags-to-remove (cons 'list flags)))
      '(let filter-options ((remaining options) (result '()))
         (cond ((null? remaining) (reverse result))
               ((and (pair? remaining) (memq (car remaining) flags-to-remove)) (filter-options (cdr remaining) result))
               ((pair? remaining) (filter-options (cdr remaining) (cons (car remaining) result)))
               (else result))))))
"""


def _parse_option_macros():
    out = []
    for fam in OPTIONS:
        for d in sx.read_all(OPTION_MACROS.replace('%s', fam)):
            d = from_datum(d)
            sig, body = d.cdr.car, unlist(d.cdr.cdr)
            req, rest = [], sig.cdr
            while type(rest) is Pair:
                req.append(rest.car)
                rest = rest.cdr
            out.append((sig.car, req, None if rest is NIL else rest, body))
    return out


BASE_MACROS = _parse_option_macros()


def option_macros(m):
    for name, req, rest, body in BASE_MACROS:
        m.base.v[name] = Macro(Closure(req, rest, body, m.base, name))
