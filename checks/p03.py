from vlib.runner import Check
from vlib.gens import Ctl, Stm, generator_program, amb_program, coroutine_program, binding_program, deep_program


SPELL = ['((car (list call/cc)) ', '((if #t call/cc list) ', '((lambda a (apply call/cc a)) ', '((lambda (f) (call/cc f)) ', '((lambda (f) (car (map call/cc (list f)))) ', '((lambda a (call-with-values (lambda () (car a)) call/cc)) ', '((lambda (f) ((lambda (c) (c f)) call/cc)) ']


def respell(rng, forms):
    # call/cc reached in other ways than by its name in operator position
    return [''.join(x if i == 0 else (rng.choice(SPELL) if rng.random() < 0.3 else '(call/cc ') + x for i, x in enumerate(f.split('(call/cc '))) for f in forms]


class P03(Check):
    ID = 'P03'
    RULE = ('random programs that store continuations from arbitrary evaluation contexts in slots and re-invoke them a bounded number of times, escapes, '
            'programs whose re-entered initialisers, operands and steps must get variables of their own, and random instances of generators, backtracking and coroutines, with call/cc called by its name or as a value, compared with the reference interpreter; '
            'non-trivial: the reference invoked at least one continuation')
    N = {'quick': 40000, 'thorough': 600000}

    def gen(self, rng):
        case = self.gen1(rng)
        if rng.random() < 0.3:
            case['forms'] = respell(rng, case['forms'])
        return case

    def gen1(self, rng):
        if rng.random() < 0.08:
            return {'forms': deep_program(rng, winds=rng.random() < 0.3, catches=rng.random() < 0.3), 'steps': 40000}
        c = rng.random()
        if c < 0.2:
            g = Ctl(rng, 60, ())
            return {'forms': rng.choice([generator_program, amb_program, coroutine_program])(g)}
        if c < 0.35:
            return {'forms': binding_program(Ctl(rng, 60, ())), 'steps': 40000}
        if c < 0.65:
            return {'forms': Stm(rng, rng.choice([15, 30, 60]), wind=rng.choice([0, 0, 0, 1]), mark=rng.choice([2, 4]), jump=rng.choice([1, 3]), esc=rng.choice([0, 2])).program(
                depth=rng.choice([3, 4, 5])), 'steps': 20000}
        c = rng.random()
        feats = {'mark', 'jump', 'esc'} if c < 0.5 else ({'esc'} if c < 0.75 else {'mark', 'jump'})
        g = Ctl(rng, rng.choice([20, 40, 80]), feats, mark=rng.choice([2, 5]), jump=rng.choice([1, 3]), esc=rng.choice([1.5, 4]))
        return {'forms': g.prelude() + g.program(nforms=rng.randint(1, 4), depth=rng.choice([3, 4, 5])), 'steps': 40000}

    def nontrivial(self, case, m):
        return m.stats.get('cont-invoke', 0) >= 1


CHECK = P03()
