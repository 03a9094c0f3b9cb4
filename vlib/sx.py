"""Reference reader and printer for the Scheme source the generators produce.

A datum is: Sym, int, float, bool, Str, Char, list (proper list), Dot(items, tail), VecLit(items).
The empty list is [].  Quote forms are read as [Sym('quote'), x]."""
import re
import sys
from fractions import Fraction

sys.set_int_max_str_digits(0)


class Sym(str):
    __slots__ = ()
    _t = {}

    def __new__(cls, s):
        v = cls._t.get(s)
        if v is None:
            v = cls._t[s] = str.__new__(cls, s)
        return v

    def __repr__(self):
        return str(self)


class Str:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, Str) and o.s == self.s

    def __hash__(self):
        return hash(self.s)


class Char:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, Char) and o.c == self.c

    def __hash__(self):
        return hash((1, self.c))


class Dot:
    __slots__ = ('items', 'tail')

    def __init__(self, items, tail):
        self.items = items
        self.tail = tail

    def __eq__(self, o):
        return isinstance(o, Dot) and o.items == self.items and o.tail == self.tail


class VecLit:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items

    def __eq__(self, o):
        return isinstance(o, VecLit) and o.items == self.items


class ReadError(Exception):
    pass


CHARNAMES = {'space': ' ', 'newline': '\n', 'ht': '\t', 'tab': '\t'}
OCT = re.compile('[0-3][0-7][0-7]')
DELIM = set(' \t\n\r\f\v();"\'`,')
QUOTES = {"'": 'quote', '`': 'quasiquote', ',': 'unquote', ',@': 'unquote-splicing'}


PLAIN = re.compile(r'[A-Za-z!$%&*/<=>?^_~][A-Za-z0-9!$%&*/:<=>?^_~+\-.]*|[+-]|\.\.\.|->[a-z]*')


class Reader:
    strict = False

    def __init__(self, text):
        self.t = text
        self.i = 0
        self.n = len(text)

    def skip(self):
        t, n = self.t, self.n
        while self.i < n:
            c = t[self.i]
            if c in ' \t\n\r\f\v':
                self.i += 1
            elif c == ';':
                j = t.find('\n', self.i)
                self.i = n if j < 0 else j
            else:
                break

    def read(self):
        """next datum; raises EOFError at end of input"""
        self.skip()
        if self.i >= self.n:
            raise EOFError
        t = self.t
        c = t[self.i]
        if c == '(':
            self.i += 1
            return self.seq(True)
        if c == ')':
            raise ReadError('unexpected )')
        if c == '"':
            return self.string()
        if c in "'`,":
            self.i += 1
            k = c
            if c == ',' and t.startswith('@', self.i):
                self.i += 1
                k = ',@'
            return [Sym(QUOTES[k]), self.need()]
        if c == '#':
            if t.startswith('#(', self.i):
                self.i += 2
                return VecLit(self.seq(False))
            if t.startswith('#\\', self.i):
                j = self.i + 3
                while j < self.n and t[j].isalpha() and t[self.i + 2].isalpha():
                    j += 1
                w = t[self.i + 2:j]
                self.i = j
                if self.strict and j < self.n and t[j] not in DELIM:
                    raise ReadError('odd token')
                if len(w) == 1:
                    return Char(w)
                if w in CHARNAMES:
                    return Char(CHARNAMES[w])
                raise ReadError('char ' + w)
        j = self.i
        while j < self.n and t[j] not in DELIM:
            j += 1
        w = t[self.i:j]
        if not w:
            raise ReadError('char %r' % c)
        self.i = j
        a = atom(w)
        if self.strict and type(a) is Sym and not PLAIN.fullmatch(a):
            raise ReadError('odd token')
        return a

    def need(self):
        try:
            return self.read()
        except EOFError:
            raise ReadError('eof')

    def seq(self, dots):
        out = []
        while True:
            self.skip()
            if self.i >= self.n:
                raise ReadError('eof in list')
            if self.t[self.i] == ')':
                self.i += 1
                return out
            if dots and out and self.t[self.i] == '.' and self.i + 1 < self.n and self.t[self.i + 1] in DELIM:
                self.i += 1
                tail = self.need()
                self.skip()
                if self.i >= self.n or self.t[self.i] != ')':
                    raise ReadError('bad dot')
                self.i += 1
                if isinstance(tail, list):
                    return out + tail
                if isinstance(tail, Dot):
                    return Dot(out + tail.items, tail.tail)
                return Dot(out, tail)
            out.append(self.read())

    def string(self):
        t = self.t
        i = self.i + 1
        out = []
        while True:
            if i >= self.n:
                raise ReadError('eof in string')
            c = t[i]
            if c == '"':
                self.i = i + 1
                return Str(''.join(out))
            if c == '\\':
                i += 1
                if i >= self.n:
                    raise ReadError('eof in string')
                if OCT.match(t, i):
                    c = chr(int(t[i:i + 3], 8))
                    i += 2
                else:
                    c = {'n': '\n', 't': '\t', 'r': '\r'}.get(t[i], t[i])
            out.append(c)
            i += 1


INT = re.compile(r'[+-]?[0-9]+')
RAT = re.compile(r'[+-]?[0-9]+/[0-9]+')
FLT = re.compile(r'[+-]?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:[eE][+-]?[0-9]+)?')


def atom(w):
    if w == '#t':
        return True
    if w == '#f':
        return False
    c = w[0]
    if c in '+-.0123456789':
        if INT.fullmatch(w):
            return int(w)
        if FLT.fullmatch(w):
            return float(w)
        if RAT.fullmatch(w):
            p, q = w.split('/')
            if int(q) == 0:
                raise ReadError('zero denominator')
            f = Fraction(int(p), int(q))
            return f.numerator if f.denominator == 1 else f
    return Sym(w)


def read_all(text):
    r = Reader(text)
    out = []
    while True:
        try:
            out.append(r.read())
        except EOFError:
            return out


def read_one(text):
    r = read_all(text)
    if len(r) != 1:
        raise ReadError('%d data in %r' % (len(r), text))
    return r[0]


STR_ESC = {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t', '\r': '\\r'}
SHORT = {'quote': "'", 'quasiquote': '`', 'unquote': ',', 'unquote-splicing': ',@'}


def fmt_float(x):
    return repr(x)


def esc(c):
    """how write prints one character of a string"""
    return STR_ESC.get(c) or (c if 32 <= ord(c) < 127 else '\\%03o' % ord(c))


def text(d):
    """source text of a datum (not necessarily how the implementation prints it)"""
    t = type(d)
    if t is Sym:
        return str(d)
    if t is bool:
        return '#t' if d else '#f'
    if t is int:
        return str(d)
    if t is list:
        if len(d) == 2 and type(d[0]) is Sym and d[0] in SHORT:
            return SHORT[d[0]] + text(d[1])
        return '(' + ' '.join(map(text, d)) + ')'
    if t is Str:
        return '"' + ''.join(map(esc, d.s)) + '"'
    if t is Char:
        return {' ': '#\\space', '\n': '#\\newline', '\t': '#\\ht'}.get(d.c) or '#\\' + d.c
    if t is float:
        return fmt_float(d)
    if t is Fraction:
        return '%d/%d' % (d.numerator, d.denominator)
    if t is Dot:
        return '(' + ' '.join(map(text, d.items)) + ' . ' + text(d.tail) + ')'
    if t is VecLit:
        return '#(' + ' '.join(map(text, d.items)) + ')'
    raise TypeError(d)
