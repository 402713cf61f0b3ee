"""C01: factoring under every sequence of random draws."""
from dsim import engine, model, simrandom
from dsim.engine import Prop, guarded, exc_text

import rosemary.number_theory.factorization.factorization as F
import rosemary.number_theory.factorization.algorithms as A

# composites that are strong pseudoprimes to many small bases, with both factors out of trial division's reach
PSEUDO = []


def _load_pseudo():
    import os
    path = os.path.join(os.path.dirname(__file__), '..', 'data', 'strong_pseudoprimes.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.split()
            if line:
                PSEUDO.append([int(x) for x in line])


_load_pseudo()

BIG_LO = 1000003


def gen_primes(rng):
    """A multiset of primes and the shape's name."""
    shape = rng.weighted([('small', 3), ('semi', 6), ('square', 3), ('three', 4), ('close', 2), ('cofactor', 4),
                          ('cube', 1.5), ('wide', 2), ('pseudo', 2.5 if PSEUDO else 0), ('prime', 1), ('mixed', 2),
                          ('pattern', 2)])
    big = lambda hi=4000000: model.random_prime(rng, BIG_LO, hi)
    if shape == 'small':
        n = rng.logint(1, 10 ** 5)
        return [p for p, e in model.factor_small(n) for _ in range(e)], shape
    if shape == 'semi':
        return [big(), big(3 * 10 ** 7)], shape
    if shape == 'square':
        return [big(3 * 10 ** 7)] * 2, shape
    if shape == 'three':
        return [big(2 * 10 ** 6), big(2 * 10 ** 6), big(2 * 10 ** 6)], shape
    if shape == 'close':
        p = big(10 ** 7)
        return [p, model.next_prime(p)], shape
    if shape == 'cofactor':
        ps = [big(), big()]
        for _ in range(rng.int(1, 4)):
            ps.append(rng.pick(model.PRIMES[:rng.pick((4, 40, 300))]))
        return ps, shape
    if shape == 'cube':
        return [model.random_prime(rng, BIG_LO, 10 ** 7)] * 3, shape
    if shape == 'wide':
        return [big(2 * 10 ** 6), model.random_prime(rng, 10 ** 11, 10 ** 13)], shape
    if shape == 'pseudo':
        return list(rng.pick(PSEUDO[:rng.pick((1, 6, len(PSEUDO)))])), shape
    if shape == 'prime':
        return [model.random_prime(rng, 10 ** 6, 10 ** 15)], shape
    if shape == 'pattern':
        p, q = big(2 * 10 ** 6), big(2 * 10 ** 6)
        return [p, p, q], shape
    ps = []
    for _ in range(rng.int(1, 6)):
        ps.append(rng.pick(model.PRIMES[:rng.pick((5, 25, 300))]))
    ps.append(big())
    return ps, shape


def gen_op(rng):
    kind = rng.weighted([('factor', 7), ('brent', 3), ('rho', 2)])
    pol = simrandom.gen_policy(rng, 0.6, 40)
    if kind == 'factor':
        ps, shape = gen_primes(rng)
        op = {'op': 'factor', 'primes': sorted(ps), 'shape': shape, 'neg': rng.chance(0.12), 'rs': pol, 'power': 1}
        if rng.chance(0.12) and len(ps) <= 3 and model.prod([(p, 1) for p in ps]) > 1:
            op['neg'] = False
            op['kw'] = {'skip_power_detection': False}
            op['power'] = rng.pick((1, 2, 3, 5))
        elif rng.chance(0.1):
            op['kw'] = {'skip_trial_division': True}
        return op
    # splitting routines on composites of every size
    style = rng.weighted([('tiny', 3), ('mid', 3), ('big', 2), ('live', 2)])
    if style == 'tiny':
        ps = [rng.pick(model.PRIMES[:rng.pick((4, 12))]) for _ in range(rng.int(2, 4))]
    elif style == 'mid':
        ps = [rng.pick(model.PRIMES[:200]) for _ in range(rng.int(2, 4))]
    elif style == 'big':
        ps = [model.random_prime(rng, 10 ** 3, 10 ** 6) for _ in range(rng.int(2, 3))]
    else:
        ps = [model.random_prime(rng, 10 ** 3, 10 ** 4), model.random_prime(rng, 10 ** 9, 10 ** 11)]
    op = {'op': kind, 'primes': sorted(ps), 'shape': style, 'rs': pol}
    if kind == 'rho' and rng.chance(0.3):
        op['iterations'] = rng.int(1, 300)
    return op


def check_factorization(n, primes, got, power=1):
    if not isinstance(got, list):
        return 'not a list: %r' % (got,)
    want = [(p, e * power) for p, e in model.merge(primes)]
    if n < 0:
        want = [(-1, 1)] + want
    if [tuple(x) for x in got] != want or not all(isinstance(x, tuple) and len(x) == 2 for x in got):
        return 'factorization of %d is %r, expected %r' % (n, got, want)
    return None


def _live(rng_seed, fn, n):
    """Draws have become fair: a proper divisor must turn up within a bounded number of calls."""
    for i in range(40):
        simrandom.SOURCE.reset({'pol': 'uniform', 'seed': '%s/%d' % (rng_seed, i)})
        st, d = guarded(fn, n)
        if st != 'ok':
            return st, d
        if isinstance(d, int) and 1 < d < n and n % d == 0:
            return 'ok', d
    return 'ok', None


class C01(Prop):
    ID = 'C01'
    RUNS = {'quick': 10000, 'thorough': 120000}
    RULE = ('A run is a history of 2-8 factoring calls in a fresh process; each call has its own adversarial or fair '
            'draw policy; non-trivial means at least one call consumed a draw chosen by the fault policy.')
    STATE_MEASURE = 'distinct (routine, input shape, draw policy, number of draws consumed, outcome class) tuples'
    REAL = ['factor, pollard_rho, pollard_rho_brent, factor_back, primality test, prime table']
    STUB = ['the random module (every draw decided by the simulator)']
    ASSUMPTIONS = ['primality of expected factors is decided by a strong pseudoprime test proven below 3.3e24',
                   'an adversarial draw prefix is finite (at most 40 draws per call), then draws are fair']

    def gen(self, rng, index):
        return {'ops': [gen_op(rng) for _ in range(rng.int(2, 8))]}

    def execute(self, plan, ctx):
        src = simrandom.SOURCE
        for i, op in enumerate(plan['ops']):
            src.reset(op['rs'])
            base = 1
            for p in op['primes']:
                base *= p
            name = op['op']
            if name == 'factor':
                n = base ** op.get('power', 1) * (-1 if op.get('neg') else 1)
                st, got = guarded(F.factor, n, **op.get('kw', {}))
            elif name == 'brent':
                n = base
                st, got = guarded(A.pollard_rho_brent, n)
            else:
                n = base
                args = (n, op['iterations']) if op.get('iterations') else (n,)
                st, got = guarded(A.pollard_rho, *args)
            ctx.count(name)
            ctx.steps += src.draws
            if src.forced:
                ctx.fault('draw:' + op['rs']['pol'], src.forced)
            ctx.event(name, n, op['rs']['pol'], st, exc_text(got) if st == 'exc' else got, src.draws)
            if st == 'hang':
                ctx.violate('no-termination', name, 'n=%d draws=%d' % (n, src.draws))
                continue
            if st == 'exc':
                ctx.violate('exception', name, 'n=%d: %s' % (n, exc_text(got)))
                continue
            if name == 'factor':
                err = check_factorization(n, op['primes'], got, op.get('power', 1))
                if err:
                    ctx.violate('wrong-factorization', name, err)
                    continue
                if src.draws > 2:
                    ctx.probe('factor-retried-splitting')
                back = guarded(F.factor_back, got)
                if back != ('ok', n):
                    ctx.violate('factor-back', 'factor_back', '%r -> %r' % (got, back))
                ctx.state(name, op['shape'], op['rs']['pol'], min(src.draws, 12))
            else:
                if not isinstance(got, int) or isinstance(got, bool) or not 1 < got <= n or n % got:
                    ctx.violate('not-a-divisor', name, 'n=%d returned %r' % (n, got))
                    continue
                ctx.probe('splitter-returned-n' if got == n else 'splitter-proper-divisor')
                ctx.state(name, op['shape'], op['rs']['pol'], got == n)
                if op['shape'] == 'live' and got == n and not op.get('iterations'):
                    fn = A.pollard_rho_brent if name == 'brent' else A.pollard_rho
                    st, d = _live(op['rs']['seed'], fn, n)
                    ctx.event('live', st, d)
                    if st != 'ok':
                        ctx.violate('no-termination' if st == 'hang' else 'exception', name, 'n=%d' % n)
                    elif d is None:
                        ctx.violate('no-progress', name, 'n=%d: 40 calls with fair draws gave no proper divisor' % n)

    def shrink_more(self, plan):
        for i, op in enumerate(plan['ops']):
            if op['rs'].get('pol') != 'uniform':
                new = dict(plan, ops=[dict(o) for o in plan['ops']])
                new['ops'][i]['rs'] = {'pol': 'uniform', 'seed': op['rs']['seed']}
                yield new
                k = op['rs'].get('k', 0)
                while k > 1:
                    k //= 2
                    new = dict(plan, ops=[dict(o) for o in plan['ops']])
                    new['ops'][i]['rs'] = dict(op['rs'], k=k)
                    yield new


PROP = C01()
