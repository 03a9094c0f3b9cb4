from vlib.runner import Check
from vlib.gens import Ctl, Stm, deep_program


class P04(Check):
    ID = 'P04'
    RULE = ('random nests of dynamic-wind whose extents are left and re-entered by escapes, stored continuations and throws, every thunk writing a mark, '
            'output and values compared with the reference interpreter; non-trivial: the reference unwound or rewound at least one extent by a jump or throw')
    N = {'quick': 40000, 'thorough': 600000}

    def gen(self, rng):
        if rng.random() < 0.08:
            return {'forms': deep_program(rng, winds=True, catches=rng.random() < 0.4, conts=rng.random() < 0.8), 'steps': 40000}
        if rng.random() < 0.75:
            c = rng.random()
            kw = dict(catch=0, throw=0, err=0) if c < 0.4 else (dict(catch=2, throw=2, err=0) if c < 0.85 else dict(catch=2, throw=1, err=0.5))
            j = rng.choice([(2, 2), (2, 2), (4, 2), (0, 0)])
            return {'forms': Stm(rng, rng.choice([15, 30, 60]), wind=rng.choice([3, 6]), mark=j[0], jump=j[1], esc=rng.choice([0, 2, 2]), **kw).program(
                depth=rng.choice([3, 4, 6])), 'steps': 20000}
        feats = {'wind'} | set(rng.choice([('mark', 'jump'), ('mark', 'jump', 'esc'), ('esc',), ('catch', 'throw'), ('mark', 'jump', 'catch', 'throw'),
                                           ('esc', 'catch', 'throw', 'err'), ('mark', 'jump', 'esc', 'catch', 'throw', 'err')]))
        g = Ctl(rng, rng.choice([25, 45, 80]), feats, wind=rng.choice([4, 8]), mark=rng.choice([2, 5]), jump=rng.choice([1, 3]), throw=rng.choice([0.5, 2]),
                catch=rng.choice([1, 3]), esc=2, err=0.3)
        g.eff = 0.05
        return {'forms': g.prelude() + g.program(nforms=rng.randint(1, 4), depth=rng.choice([4, 5, 6])), 'steps': 40000}

    def nontrivial(self, case, m):
        return m.stats.get('wind-out', 0) + m.stats.get('wind-in', 0) >= 1


CHECK = P04()
