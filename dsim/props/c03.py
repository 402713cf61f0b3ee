"""C03: primality verdicts and prime searches under every sequence of draws."""
from dsim import engine, model, simrandom
from dsim.engine import Prop, guarded, exc_text

import rosemary.number_theory.primes.primality as PR

# odd composites with unusually many liars: Carmichael numbers, n = p(2p-1), prime squares
CARMICHAEL = [561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745, 63973, 75361,
              3215031751, 3825123056546413051, 2047, 1373653, 25326001, 2152302898747, 3474749660383, 341550071728321,
              318665857834031151167461, 1122004669633, 4759123141, 9080191, 118670087467, 75792980677]


def gen_odd(rng):
    """(n, is_prime): an odd n > 4."""
    s = rng.weighted([('prime', 4), ('bigprime', 3), ('small', 3), ('carm', 2), ('semi', 2), ('square', 1.5),
                      ('p2p1', 2), ('fermat', 0.5)])
    if s == 'prime':
        p = rng.pick(model.PRIMES[2:])
        return p, True, s
    if s == 'bigprime':
        p = model.random_prime(rng, 10 ** 3, 10 ** rng.int(4, 20))
        return p, True, s
    if s == 'small':
        n = rng.int(2, 300) * 2 + 1
        return n, model.is_prime(n), s
    if s == 'carm':
        return rng.pick(CARMICHAEL), False, s
    if s == 'semi':
        p = model.random_prime(rng, 3, 10 ** rng.int(1, 8))
        q = model.random_prime(rng, 3, 10 ** rng.int(1, 8))
        return p * q, False, s
    if s == 'square':
        p = rng.pick(model.PRIMES[1:60])
        return p ** rng.int(2, 3), False, s
    if s == 'fermat':
        n = 2 ** (2 ** rng.int(1, 4)) + 1
        return n, model.is_prime(n), s
    while True:
        p = model.random_prime(rng, 5, 3000)
        if model.is_prime(2 * p - 1):
            return p * (2 * p - 1), False, s


KINDS = [('ss_draw', 4), ('mr_draw', 4), ('ss_all', 1.2), ('mr_all', 1.2), ('amplify', 1.5), ('ss_base', 1), ('mr_base', 1),
         ('random_prime', 4), ('rp_cover', 0.6), ('is_prime', 2), ('is_probable_prime', 2), ('next_prime', 2),
         ('next_probable_prime', 1.5), ('lucas_lehmer', 0.4), ('mr_det', 0.7)]

MERSENNE = {3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127}


def gen_op(rng):
    k = rng.weighted(KINDS)
    o = {'op': k, 'rs': simrandom.gen_policy(rng, 0.6, 30)}
    if k in ('ss_draw', 'mr_draw', 'amplify', 'ss_base', 'mr_base'):
        n, p, s = gen_odd(rng)
        if k == 'amplify':
            while p:
                n, p, s = gen_odd(rng)
            o['test'] = rng.pick(('ss', 'mr'))
        o.update(n=n, prime=p, shape=s)
        if k.endswith('_base'):
            o['a'] = rng.pick((2, 3, n - 2, rng.int(2, n - 2)))
    elif k in ('ss_all', 'mr_all'):
        n = rng.pick((9, 15, 21, 25, 27, 33, 35, 45, 49, 63, 65, 85, 91, 105, 121, 125, 133, 145, 169, 175, 185, 217, 221,
                      231, 247, 259, 289, 301, 325, 341, 11, 13, 17, 97, 101, 113, rng.int(2, 220) * 2 + 1))
        o.update(n=n, prime=model.is_prime(n), shape='all')
    elif k in ('random_prime', 'rp_cover'):
        while True:
            if k == 'rp_cover':
                a = rng.logint(1, 2000)
                b = a + rng.int(0, 25)
                if rng.chance(0.1):
                    a = rng.pick((1, 2, rng.logint(1, 2000)))
                    b = a + rng.logint(100, 1500)
            else:
                a = rng.logint(1, 10 ** rng.int(1, 9))
                b = a + rng.logint(0, 10 ** rng.int(1, 4))
                if rng.chance(0.3):
                    p = model.next_prime(a)
                    a, b = rng.pick(((p, p), (p, p + rng.int(0, 9)), (max(1, p - rng.int(0, 9)), p)))
                if rng.chance(0.05):
                    a = -rng.int(0, 20)
                    b = rng.int(2, 30)
            if b - a <= 5000 and any(model.is_prime(x) for x in range(max(2, a), b + 1)):
                break
        o.update(a=a, b=b)
    elif k == 'lucas_lehmer':
        o['n'] = rng.pick([p for p in model.PRIMES[1:60]])
    elif k == 'mr_det':
        o['n'] = rng.pick((rng.int(0, 60), rng.logint(2, 10 ** 7), gen_odd(rng)[0]))
    elif k == 'is_prime':
        o['n'] = rng.weighted([(rng.int(-5, 60), 2), (rng.logint(2, 10 ** 6), 2), (rng.int(999900, 1000100), 1),
                               (rng.logint(10 ** 6, 10 ** 11), 2),
                               (model.random_prime(rng, 10 ** 6, 10 ** 11), 2),
                               (model.random_prime(rng, 10 ** 3, 2 * 10 ** 5) * model.random_prime(rng, 10 ** 3, 2 * 10 ** 5), 1),
                               (model.random_prime(rng, 10 ** 3, 2 * 10 ** 6) ** 2, 1)])
    elif k == 'is_probable_prime':
        o['n'] = rng.weighted([(rng.int(2, 60), 3), (rng.logint(2, 10 ** 6), 2), (gen_odd(rng)[0], 4),
                               (model.random_prime(rng, 10 ** 6, 10 ** 23), 2),
                               (rng.logint(10 ** 6, 10 ** 20), 1)])
    elif k == 'next_prime':
        o['n'] = rng.weighted([(rng.int(-3, 100), 3), (rng.logint(2, 10 ** 6), 2), (rng.int(999950, 1000010), 1),
                               (rng.logint(10 ** 6, 10 ** 9), 1), (rng.pick(model.PRIMES), 1)])
    else:
        o['n'] = rng.weighted([(rng.int(-3, 100), 3), (rng.logint(2, 10 ** 6), 2), (rng.logint(10 ** 6, 10 ** 18), 2),
                               (rng.pick(model.PRIMES), 1)])
    return o


def ss_ref(n, a):
    j = model.jacobi(a, n)
    return j != 0 and j % n == pow(a, (n - 1) // 2, n)


def mr_ref(n, a):
    t, s = n - 1, 0
    while t % 2 == 0:
        t //= 2
        s += 1
    x = pow(a, t, n)
    if x == 1 or x == n - 1:
        return True
    return any(pow(a, t << r, n) == n - 1 for r in range(1, s))


class C03(Prop):
    ID = 'C03'
    RUNS = {'quick': 26000, 'thorough': 300000}
    RULE = ('A run is a history of 3-10 primality/prime-search calls with adversarial or fair draws (some ops enumerate '
            'every possible draw of one small modulus); non-trivial: a fault-policy draw was consumed.')
    STATE_MEASURE = 'distinct (routine, input shape, draw policy, verdict) tuples'
    REAL = ['primality tests, prime searches, prime table, Jacobi symbol, trial division']
    STUB = ['the random module (every draw decided by the simulator)']
    ASSUMPTIONS = ['reference primality is exact below 3.3e24; inputs stay below it']

    def gen(self, rng, index):
        return {'ops': [gen_op(rng) for _ in range(rng.int(3, 10))]}

    def call(self, ctx, o, fn, *args):
        st, got = guarded(fn, *args)
        ctx.count(o['op'])
        if st != 'ok':
            ctx.event(o['op'], args, st, exc_text(got) if st == 'exc' else '')
            ctx.violate('no-termination' if st == 'hang' else 'exception', o['op'],
                        '%r: %s' % (args, exc_text(got) if st == 'exc' else 'still running'))
            return None, False
        ctx.event(o['op'], args, got)
        return got, True

    def verdict(self, ctx, o, got, want, text):
        if not isinstance(got, bool):
            ctx.violate('not-a-verdict', o['op'], '%s returned %r' % (text, got))
        elif want is not None and got != want:
            ctx.violate('wrong-verdict', o['op'], '%s returned %r' % (text, got))

    def execute(self, plan, ctx):
        src = simrandom.SOURCE
        for o in plan['ops']:
            k = o['op']
            src.reset(o['rs'])
            if k in ('ss_draw', 'mr_draw'):
                fn = PR.solovay_strassen if k == 'ss_draw' else PR.miller_rabin
                got, ok = self.call(ctx, o, fn, o['n'])
                if ok:
                    self.verdict(ctx, o, got, True if o['prime'] else None, 'n=%d (prime=%s)' % (o['n'], o['prime']))
                    ctx.state(k, o['shape'], o['rs']['pol'], got)
            elif k in ('ss_base', 'mr_base'):
                fn, ref = (PR.solovay_strassen, ss_ref) if k == 'ss_base' else (PR.miller_rabin, mr_ref)
                got, ok = self.call(ctx, o, fn, o['n'], o['a'])
                if ok:
                    self.verdict(ctx, o, got, ref(o['n'], o['a']), 'n=%d a=%d' % (o['n'], o['a']))
            elif k in ('ss_all', 'mr_all'):
                # the source delivers every possible first draw once: the exact error probability
                fn, bound = (PR.solovay_strassen, 2) if k == 'ss_all' else (PR.miller_rabin, 4)
                n = o['n']
                yes = 0
                total = n - 3
                once = True
                for d in range(total):
                    src.reset({'pol': 'uniform', 'seed': d, 'script': [d]})
                    st, got = guarded(fn, n)
                    if st != 'ok' or not isinstance(got, bool):
                        ctx.violate('exception' if st == 'exc' else 'not-a-verdict', k, 'n=%d draw=%d: %r' % (n, d, got))
                        break
                    yes += got
                    once = once and src.draws == 1
                else:
                    ctx.count(k)
                    ctx.fault('draw:enumerated', total)
                    ctx.event(k, n, yes, total)
                    if o['prime'] and yes != total:
                        ctx.violate('wrong-verdict', k, 'prime n=%d: only %d of %d draws say prime' % (n, yes, total))
                    if once and not o['prime'] and yes * bound > total:
                        ctx.violate('error-probability', k, 'composite n=%d: %d of %d draws say prime' % (n, yes, total))
            elif k == 'amplify':
                fn = PR.solovay_strassen if o['test'] == 'ss' else PR.miller_rabin
                said = True
                for i in range(60):
                    if i == 20:
                        src.reset({'pol': 'uniform', 'seed': o['rs']['seed']})
                    got, ok = self.call(ctx, o, fn, o['n'])
                    if ok and got is False:
                        said = False
                        break
                if said:
                    ctx.violate('no-progress', k, 'composite n=%d never detected in 60 draws (40 of them fair)' % o['n'])
            elif k == 'random_prime':
                got, ok = self.call(ctx, o, PR.random_prime, o['a'], o['b'])
                if ok and not (isinstance(got, int) and o['a'] <= got <= o['b'] and model.is_prime(got)):
                    ctx.violate('not-a-prime-in-range', k, '[%d, %d] -> %r' % (o['a'], o['b'], got))
                ctx.state(k, o['rs']['pol'], min(src.draws, 30))
            elif k == 'rp_cover':
                src.reset({'pol': 'uniform', 'seed': o['rs']['seed']})
                left = {x for x in range(max(2, o['a']), o['b'] + 1) if model.is_prime(x)}
                for _ in range(40 * (o['b'] - o['a'] + 1)):
                    got, ok = self.call(ctx, o, PR.random_prime, o['a'], o['b'])
                    if not ok:
                        break
                    left.discard(got)
                    if not left:
                        break
                if left:
                    ctx.violate('unreachable-prime', k, '[%d, %d]: never produced %r' % (o['a'], o['b'], sorted(left)))
            elif k in ('is_prime', 'is_probable_prime', 'mr_det'):
                fn = {'is_prime': PR.is_prime, 'is_probable_prime': PR.is_probable_prime,
                      'mr_det': PR.miller_rabin_deterministic}[k]
                got, ok = self.call(ctx, o, fn, o['n'])
                if ok:
                    self.verdict(ctx, o, got, model.is_prime(o['n']), 'n=%d' % o['n'])
            elif k == 'lucas_lehmer':
                got, ok = self.call(ctx, o, PR.lucas_lehmer, o['n'])
                if ok:
                    self.verdict(ctx, o, got, o['n'] in MERSENNE, 'p=%d' % o['n'])
            else:
                got, ok = self.call(ctx, o, getattr(PR, k), o['n'])
                want = model.next_prime(max(1, o['n']))
                if ok and got != want:
                    ctx.violate('wrong-next-prime', k, 'n=%d -> %r, expected %d' % (o['n'], got, want))
            ctx.steps += src.draws
            if src.forced:
                ctx.fault('draw:' + o['rs']['pol'], src.forced)

    def shrink_more(self, plan):
        for i, o in enumerate(plan['ops']):
            if o['rs'].get('pol') != 'uniform':
                new = dict(plan, ops=[dict(x) for x in plan['ops']])
                new['ops'][i]['rs'] = {'pol': 'uniform', 'seed': 1}
                yield new


PROP = C03()
