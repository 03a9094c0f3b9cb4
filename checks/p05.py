from vlib.runner import Check
from vlib.gens import Ctl, Stm, USER_KEYS, deep_program


class P05(Check):
    ID = 'P05'
    RULE = ('random nestings of catch with matching and non-matching tags around throws and failing builtin calls, sequences of failing top-level forms, '
            'and long histories of caught errors, compared with the reference interpreter; non-trivial: at least one throw or error was raised')
    N = {'quick': 40000, 'thorough': 600000}

    def gen(self, rng):
        if rng.random() < 0.08:
            return {'forms': deep_program(rng, winds=rng.random() < 0.3, catches=True, conts=rng.random() < 0.3), 'steps': 40000}
        c = rng.random()
        if c < 0.45:
            j = rng.choice([(0, 0), (0, 0), (2, 2)])
            return {'forms': Stm(rng, rng.choice([15, 30, 60]), wind=rng.choice([0, 0, 1]), mark=j[0], jump=j[1], esc=rng.choice([0, 0, 1]), catch=rng.choice([3, 6]),
                                 throw=rng.choice([2, 4]), err=rng.choice([0, 1])).program(depth=rng.choice([3, 4, 6])), 'steps': 20000}
        c = rng.random()
        feats = {'catch', 'throw', 'err'}
        if c < 0.15:
            feats |= {'mark', 'jump'}
        elif c < 0.3:
            feats |= {'esc'}
        g = Ctl(rng, rng.choice([25, 45, 80]), feats, catch=rng.choice([3, 6]), throw=rng.choice([1, 3]), err=rng.choice([0.5, 2]))
        forms = g.prelude()
        if c > 0.93:
            forms += self.history(g)
        forms += g.program(nforms=rng.randint(1, 6), depth=rng.choice([3, 4, 5]))
        return {'forms': forms, 'steps': 60000}

    def history(self, g):
        """many abandoned evaluations, then ordinary use"""
        n = g.int(20, 150)
        key = g.pick(USER_KEYS)
        inner = g.pick(["(throw '%s i)" % key, '(car i)', "(catch 'other (lambda () (throw '%s i)) (lambda x 'no))" % key, "(begin (undefined-thing) 1)",
                        "(catch 'other (lambda () (catch 'third (lambda () (vector-ref (vector) i)) list)) list)",
                        "(for-each (lambda (x) (throw '%s x)) (list i i))" % key, "(map (lambda (x) (if (> x 1) (throw '%s x) x)) (list 1 2 3))" % key])
        loop = g.pick(['(define (try i) (catch #t (lambda () %s) (lambda x (set! cnt (+ cnt 1)) i)))', '(define (try i) (+ 0 (catch #t (lambda () (+ i %s)) (lambda (k . r) (set! cnt (+ cnt 1)) i))))']) % inner
        out = ['(define cnt 0)', loop, '(do ((i 0 (+ i 1))) ((= i %d) cnt) (try i))' % n]
        if g.chance(0.5):
            out += ['(let ((i %d)) %s)' % (j, inner) for j in range(g.int(1, 12))]
        return out

    def nontrivial(self, case, m):
        return m.stats.get('throw', 0) >= 1


CHECK = P05()
