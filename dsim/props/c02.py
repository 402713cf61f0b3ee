"""C02: arithmetic functions do not depend on the draws made while factoring."""
import math

from dsim import engine, model, simrandom
from dsim.engine import Prop, guarded, exc_text

import rosemary.number_theory.factorization.factorization as F
import rosemary.number_theory.arithmetic_functions.functions as AF
import rosemary.number_theory.arithmetic_functions.inverse_functions as INV
import rosemary.number_theory.classification as CL
import rosemary.number_theory.misc as MISC

BIG_LO = 1000003


def gen_fac(rng, small=False):
    shape = rng.weighted([('tiny', 3), ('small', 3), ('twos', 2), ('power', 2), ('semi', 4), ('cofactor', 4),
                          ('square', 2), ('three', 1.5), ('smooth', 2)])
    big = lambda: model.random_prime(rng, BIG_LO, 4000000)
    P = model.PRIMES
    if small or shape == 'tiny':
        return model.factor_small(rng.int(1, 60)), 'tiny'
    if shape == 'small':
        return model.factor_small(rng.logint(2, 20000)), shape
    if shape == 'twos':
        return model.merge([2] * rng.int(1, 9) + [rng.pick(P[1:12]) for _ in range(rng.int(0, 3))]), shape
    if shape == 'power':
        return [(rng.pick(P[:20]), rng.int(1, 9))], shape
    if shape == 'semi':
        return model.merge([big(), big()]), shape
    if shape == 'cofactor':
        return model.merge([big(), big()] + [rng.pick(P[:6]) for _ in range(rng.int(1, 4))]), shape
    if shape == 'square':
        p = big()
        return model.merge([p, p] + ([2] if rng.chance(0.5) else [])), shape
    if shape == 'three':
        return model.merge([big(), big(), big()]), shape
    return model.merge([rng.pick(P[:8]) for _ in range(rng.int(2, 9))]), shape


FORMS = ('int', 'fac')

OPS = {}


def op(name, call, want, forms=FORMS, weight=1.0, compare=None, gen=None):
    OPS[name] = dict(call=call, want=want, forms=forms, weight=weight, compare=compare, gen=gen)


def _arg(fn):
    return lambda n, fac, form, x: fn(n if form == 'int' else fac)


def _kw(fn):
    def call(n, fac, form, x):
        if form == 'int':
            return fn(n)
        if form == 'both':
            return fn(n, fac)
        return fn(factorization=fac)
    return call


op('euler_phi', _arg(lambda a: AF.euler_phi(a)), lambda n, f, x: model.phi(f))
op('moebius_mu', _arg(lambda a: AF.moebius_mu(a)), lambda n, f, x: model.mobius(f))
op('divisor_tau', _arg(lambda a: AF.divisor_tau(a)), lambda n, f, x: model.tau(f))
op('number_of_divisors', _arg(lambda a: AF.number_of_divisors(a)), lambda n, f, x: model.tau(f), weight=0.3)
op('sum_of_divisors', _arg(lambda a: AF.sum_of_divisors(a)), lambda n, f, x: model.sigma(f, 1), weight=0.3)
op('divisor_sigma', lambda n, f, form, x: AF.divisor_sigma(n if form == 'int' else f, x),
   lambda n, f, x: model.sigma(f, x), gen=lambda rng: rng.int(0, 4))
op('carmichael_lambda', _arg(lambda a: AF.carmichael_lambda(a)), lambda n, f, x: model.carmichael(f), weight=1.5)
op('is_squarefree', _arg(lambda a: CL.is_squarefree(a)), lambda n, f, x: all(e == 1 for _, e in f))
op('divisors', _kw(lambda *a, **k: F.divisors(*a, **k)), lambda n, f, x: model.divisors(f), forms=('int', 'fac', 'both'))
op('divisor_pairs', _kw(lambda *a, **k: F.divisor_pairs(*a, **k)),
   lambda n, f, x: [(d, n // d) for d in model.divisors(f) if d * d <= n], forms=('int', 'fac', 'both'))
op('prime_divisors', _kw(lambda *a, **k: F.prime_divisors(*a, **k)), lambda n, f, x: [p for p, _ in f],
   forms=('int', 'fac', 'both'))
op('xdivisors', _kw(lambda *a, **k: sorted(F.xdivisors(*a, **k))), lambda n, f, x: model.divisors(f),
   forms=('int', 'fac', 'both'))
op('unitary_divisors', _kw(lambda *a, **k: F.unitary_divisors(*a, **k)), lambda n, f, x: model.unitary_divisors(f),
   forms=('int', 'fac', 'both'))


op('largest_divisor', lambda n, f, form, x: MISC.largest_divisor(n, max(1, min(n, n * x[0] // x[1]))),
   lambda n, f, x: max(d for d in model.divisors(f) if d <= max(1, min(n, n * x[0] // x[1]))), forms=('int',),
   gen=lambda rng: [rng.int(1, 40), rng.pick([40, 41, 100, 1000, 10 ** 6])])


def _preimage_ok(n, f, x, got):
    """Sound: phi(v) == n for every v. Complete: equals the independent search."""
    want = phi_preimage(n, f)
    if not isinstance(got, list) or got != want:
        return 'preimage of %d is %r, expected %r' % (n, got, want)


def phi_preimage(m, fac):
    """Independent search: n = prod p^e over primes with (p-1) | m."""
    if m == 1:
        return [1, 2]
    if m % 2:
        return []
    ds = model.divisors(fac)
    ps = [d + 1 for d in ds if model.is_prime(d + 1)]
    ps.sort(reverse=True)
    out = []

    def rec(i, left, n):
        if left == 1:
            out.append(n)
        if i == len(ps):
            return
        for j in range(i, len(ps)):
            p = ps[j]
            if left % (p - 1):
                continue
            l, v = left // (p - 1), n * p
            while True:
                rec(j + 1, l, v)
                if l % p:
                    break
                l //= p
                v *= p
    rec(0, m, 1)
    return sorted(out)


op('euler_phi_inverse', _arg(lambda a: INV.euler_phi_inverse(a)), None, compare=_preimage_ok, weight=1.2)
op('inverse_phi', lambda n, f, form, x: INV.inverse_phi(n), None, forms=('int',), compare=_preimage_ok, weight=0.7)


# These take the absolute value of an integer and skip a leading unit of a factorization.
NEGATIVE_OK = ('divisors', 'divisor_pairs', 'prime_divisors', 'xdivisors', 'unitary_divisors')


def gen_op(rng):
    name = rng.weighted([(k, v['weight']) for k, v in OPS.items()])
    spec = OPS[name]
    while True:
        fac, shape = gen_fac(rng)
        if name in ('euler_phi_inverse', 'inverse_phi'):
            n = model.prod(fac)
            if model.tau(fac) > 60:
                continue
            if fac and fac[0][0] != 2 and rng.chance(0.8):
                fac, shape = [(2, rng.int(1, 3))] + fac, shape
            if model.tau(fac) > 80:
                continue
            if model.prod(fac) > (10 ** 7 if name == 'inverse_phi' else 10 ** 11):
                continue
        if model.tau(fac) > 4000:
            continue
        break
    form = rng.pick(spec['forms'])
    if not fac:
        form = 'int'
    o = {'op': name, 'fac': fac, 'shape': shape, 'form': form, 'rs': simrandom.gen_policy(rng, 0.6, 40)}
    if name in NEGATIVE_OK and rng.chance(0.25):
        o['neg'] = True
    if spec['gen']:
        o['x'] = spec['gen'](rng)
    return o


class C02(Prop):
    ID = 'C02'
    RUNS = {'quick': 10000, 'thorough': 120000}
    RULE = ('A run is a history of 3-9 arithmetic-function calls on integers (and factorizations) built from known '
            'primes, with adversarial or fair draws behind the factoring; non-trivial: a fault-policy draw was consumed.')
    STATE_MEASURE = 'distinct (function, argument form, integer shape, draw policy) tuples'
    REAL = ['arithmetic functions, divisor lists, totient preimages, squarefreeness, factoring underneath']
    STUB = ['the random module (every draw decided by the simulator)']
    ASSUMPTIONS = ['expected values are computed from the known factorization of each generated integer']

    def gen(self, rng, index):
        return {'ops': [gen_op(rng) for _ in range(rng.int(3, 9))]}

    def execute(self, plan, ctx):
        src = simrandom.SOURCE
        for o in plan['ops']:
            spec = OPS[o['op']]
            fac = [tuple(x) for x in o['fac']]
            n = model.prod(fac)
            src.reset(o['rs'])
            neg = bool(o.get('neg'))
            whole = [(-1, 1)] + fac if neg else fac
            given = list(whole)
            st, got = guarded(spec['call'], -n if neg else n, given, o['form'], o.get('x'))
            ctx.count(o['op'])
            ctx.steps += src.draws
            if src.forced:
                ctx.fault('draw:' + o['rs']['pol'], src.forced)
            ctx.state(o['op'], o['form'], neg, o['shape'], o['rs']['pol'] if src.draws else None)
            ctx.event(o['op'], -n if neg else n, o['form'], st, exc_text(got) if st == 'exc' else got)
            if st == 'hang':
                ctx.violate('no-termination', o['op'], 'n=%d' % n)
                continue
            if st == 'exc':
                ctx.violate('exception', o['op'], 'n=%d %s: %s' % (n, o['form'], exc_text(got)))
                continue
            if given != whole:
                ctx.violate('argument-changed', o['op'], '%r became %r' % (whole, given))
                continue
            if spec['compare']:
                err = spec['compare'](n, fac, o.get('x'), got)
            else:
                want = spec['want'](n, fac, o.get('x'))
                err = None if got == want else 'n=%d (%s, x=%r) gives %r, expected %r' % (
                    n, o['form'], o.get('x'), got, want)
            if err:
                ctx.violate('wrong-value', o['op'], err)

    def shrink_more(self, plan):
        for i, o in enumerate(plan['ops']):
            if o['rs'].get('pol') != 'uniform':
                new = dict(plan, ops=[dict(x) for x in plan['ops']])
                new['ops'][i]['rs'] = {'pol': 'uniform', 'seed': 1}
                yield new
            for j in range(len(o['fac'])):
                if len(o['fac']) > 1:
                    new = dict(plan, ops=[dict(x) for x in plan['ops']])
                    new['ops'][i]['fac'] = o['fac'][:j] + o['fac'][j + 1:]
                    yield new
                if o['fac'][j][1] > 1:
                    new = dict(plan, ops=[dict(x) for x in plan['ops']])
                    f = [list(x) for x in o['fac']]
                    f[j][1] -= 1
                    new['ops'][i]['fac'] = f
                    yield new


PROP = C02()
