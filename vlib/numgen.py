"""Random numeric expressions."""
from fractions import Fraction
from .gen import weighted

M = 2 ** 63


class Num:
    def __init__(self, r):
        self.r = r

    def pick(self, s):
        return s[int(self.r.random() * len(s))]

    def int(self):
        r = self.r
        c = r.random()
        if c < 0.35:
            return r.randint(-12, 12)
        if c < 0.5:
            return r.randint(-1000, 1000)
        if c < 0.62:
            return r.choice([-1, 1]) * 2 ** r.randint(0, 62) + r.randint(-2, 2)
        if c < 0.72:
            return r.choice([-1, 1]) * r.randint(0, 2 ** r.randint(1, 62))
        if c < 0.8:
            return self.pick([M - 1, M - 2, -M, -M + 1, 2 ** 62, -2 ** 62, 2 ** 53, 2 ** 53 + 1, -2 ** 53 - 1, 2 ** 32, 2 ** 32 - 1, -2 ** 32, 2 ** 31, 2 ** 31 - 1, -2 ** 31])
        if c < 0.9:
            return r.choice([-1, 1]) * r.randint(2, 60) * r.randint(2, 60) * r.randint(1, 30)
        return r.choice([-1, 1]) * 10 ** r.randint(0, 18)

    def ratio(self):
        r = self.r
        c = r.random()
        if c < 0.6:
            f = Fraction(r.randint(-60, 60), r.randint(1, 30))
        elif c < 0.8:
            f = Fraction(r.randint(-10 ** 6, 10 ** 6), r.randint(1, 10 ** 6))
        elif c < 0.9:
            f = Fraction(r.randint(-7, 7), 2 ** r.randint(1, 62))
        else:
            f = Fraction(self.int(), abs(self.int()) or 1)
        if not (-M <= f.numerator < M and f.denominator < M):
            return self.ratio()
        return f

    def exact(self, p=0.25):
        return self.ratio() if self.r.random() < p else self.int()

    def ex(self, v):
        """text of an exact number, sometimes an unreduced ratio"""
        if type(v) is Fraction and v.denominator > 1:
            k = self.r.randint(2, 9)
            if self.r.random() < 0.25 and abs(v.numerator) * k < M and v.denominator * k < M:
                return '%d/%d' % (v.numerator * k, v.denominator * k)
            return '%d/%d' % (v.numerator, v.denominator)
        return str(int(v))

    def float(self):
        r = self.r
        c = r.random()
        if c < 0.3:
            return r.randint(-40, 40) / r.choice([1, 2, 4, 8])
        if c < 0.5:
            return round(r.uniform(-10, 10), r.randint(0, 4))
        if c < 0.7:
            return r.uniform(-1, 1) * 10.0 ** r.randint(-12, 12)
        if c < 0.8:
            return float(r.randint(-2 ** 53, 2 ** 53))
        if c < 0.9:
            return self.pick([0.0, 1.0, -1.0, 0.1, 0.2, 0.3, 0.5, 1e15, 1e16, 1e-7, 1e100, -1e-100, 1e300, 2.5, 1 / 3, 2 / 3, 9007199254740992.0, 4294967296.0])
        return r.uniform(-1000, 1000)
