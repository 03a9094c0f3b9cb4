from .runner import Check
from .model import Unsupported


class HistCheck(Check):
    TECH = 'model-based property testing: random operation histories on shared mutable objects against a reference model'
    HIST = None
    LEN = (5, 40)
    N = {'quick': 24000, 'thorough': 400000}

    def gen(self, rng):
        for _ in range(20):
            h = self.HIST(rng)
            try:
                return {'forms': h.program(rng.randint(*self.LEN))}
            except Unsupported:
                continue
        return {'forms': ['1']}

    def nontrivial(self, case, m):
        return sum(1 for r in m.recs if r[0] in 'VN') >= 6
