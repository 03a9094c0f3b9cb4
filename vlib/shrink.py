"""Greedy shrinking of a program (list of top-level source forms)."""
from . import sx
from .sx import Sym, Str, Char, Dot, VecLit


def kids(d):
    if type(d) is list or type(d) is VecLit:
        return d if type(d) is list else d.items
    if type(d) is Dot:
        return d.items + [d.tail]
    return []


def size(d):
    return 1 + sum(size(k) for k in kids(d))


def variants(d):
    """smaller replacements of a datum"""
    for k in kids(d):
        yield k
    t = type(d)
    if t is list:
        n = len(d)
        if n > 3:
            yield d[:n // 2]
            yield d[n // 2:]
        for i in range(n):
            if n > 1 or i > 0:
                yield d[:i] + d[i + 1:]
    elif t is VecLit:
        for i in range(len(d.items)):
            yield VecLit(d.items[:i] + d.items[i + 1:])
    elif t is Dot:
        yield list(d.items)
        for i in range(len(d.items)):
            if len(d.items) > 1:
                yield Dot(d.items[:i] + d.items[i + 1:], d.tail)
    elif t is int:
        for c in (0, 1, d // 2, -d):
            if (abs(c), c < 0) < (abs(d), d < 0):
                yield c
    elif t is float:
        for c in (0.5, 1.5):
            if abs(c) < abs(d):
                yield c
    elif t is Str and d.s:
        yield Str('')
        yield Str(d.s[:len(d.s) // 2])
        yield Str(d.s[1:])
        yield Str(d.s[:-1])
    elif t is Sym and len(d) > 1:
        pass
    if t in (list, VecLit, Dot):
        yield 0
        yield 1
        yield False


def positions(d, path=()):
    yield path, d
    for i, k in enumerate(kids(d)):
        yield from positions(k, path + (i,))


def replace(d, path, new):
    if not path:
        return new
    i = path[0]
    t = type(d)
    if t is list:
        return d[:i] + [replace(d[i], path[1:], new)] + d[i + 1:]
    if t is VecLit:
        return VecLit(d.items[:i] + [replace(d.items[i], path[1:], new)] + d.items[i + 1:])
    if t is Dot:
        if i < len(d.items):
            return Dot(d.items[:i] + [replace(d.items[i], path[1:], new)] + d.items[i + 1:], d.tail)
        tail = replace(d.tail, path[1:], new)
        if type(tail) is list:
            return d.items + tail
        if type(tail) is Dot:
            return Dot(d.items + tail.items, tail.tail)
        return Dot(d.items, tail)
    raise AssertionError


def shrink_forms(forms, fails, budget=1500):
    """forms: source texts; fails(forms) -> bool. Returns smaller failing forms."""
    calls = [0]

    def f(fs):
        calls[0] += 1
        if calls[0] > budget:
            return False
        try:
            return fails(fs)
        except Exception:
            return False
    # drop top-level forms
    changed = True
    while changed and calls[0] < budget:
        changed = False
        n = len(forms)
        step = max(1, n // 2)
        while step >= 1:
            i = 0
            while i < len(forms):
                cand = forms[:i] + forms[i + step:]
                if cand and f(cand):
                    forms = cand
                    changed = True
                else:
                    i += step
            step //= 2
        try:
            data = [sx.read_one(x) for x in forms]
        except Exception:
            return forms
        for fi in range(len(data)):
            again = True
            while again and calls[0] < budget:
                again = False
                ps = sorted(positions(data[fi]), key=lambda p: -size(p[1]))
                for path, sub in ps:
                    for v in variants(sub):
                        if size(v) > size(sub) or v == sub and type(v) is type(sub):
                            continue
                        new = replace(data[fi], path, v)
                        cand = [sx.text(x) for x in data[:fi] + [new] + data[fi + 1:]]
                        if f(cand):
                            data[fi] = new
                            forms = cand
                            again = changed = True
                            break
                    if again:
                        break
                    if calls[0] >= budget:
                        break
    return forms
