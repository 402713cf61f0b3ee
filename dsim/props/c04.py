"""C04: modular equations and Pell equations under every sequence of draws."""
import math

from dsim import engine, model, simrandom
from dsim.engine import Prop, guarded, exc_text

import rosemary.number_theory.zn_arithmetic as Z
import rosemary.number_theory.diophantine_equations.pell as PELL

# primes with many factors of two in p - 1 (the randomised square-root branch at its deepest)
DEEP = [17, 41, 73, 89, 97, 113, 193, 241, 257, 337, 353, 449, 577, 641, 673, 769, 1153, 1409, 3329, 7681, 12289, 18433,
        40961, 65537]


def some_prime(rng, hi=None):
    s = rng.weighted([('deep', 3), ('small', 3), ('one8', 3), ('big', 2), ('two', 0.5)])
    if s == 'deep':
        p = rng.pick(DEEP)
    elif s == 'small':
        p = rng.pick(model.PRIMES[:rng.pick((6, 30, 200))])
    elif s == 'two':
        p = 2
    elif s == 'one8':
        while True:
            p = rng.logint(17, 10 ** rng.int(2, 12)) // 8 * 8 + 1
            if model.is_prime(p) and (p - 1) & -(p - 1) <= 1024:
                break
    else:
        p = model.random_prime(rng, 3, 10 ** rng.int(2, 15))
        while (p - 1) & -(p - 1) > 1024:
            p = model.random_prime(rng, 3, 10 ** 15)
    if hi and p > hi:
        return some_prime(rng, hi)
    return p


def some_modulus(rng, big=True):
    """(factorization) of a modulus >= 2."""
    s = rng.weighted([('tiny', 4), ('pp', 2), ('two', 2), ('mix', 3), ('mid', 1), ('big', 2 if big else 0)])
    if s == 'tiny':
        return model.factor_small(rng.int(2, 120))
    if s == 'pp':
        p = rng.pick((2, 3, 5, 7, 17, 41))
        return [(p, rng.int(1, {2: rng.pick((8, 14)), 3: rng.pick((4, 8)), 5: rng.pick((4, 6))}.get(p, 4)))]
    if s == 'mid':
        return model.merge([rng.pick(model.PRIMES[20:300]) for _ in range(rng.int(1, 3))])
    if s == 'two':
        return model.merge([2] * rng.int(1, 7) + [rng.pick((3, 5, 7, 17, 41, 73)) for _ in range(rng.int(0, 2))])
    if s == 'mix':
        return model.merge([rng.pick((2, 2, 3, 5, 7, 11, 17, 41, 97)) for _ in range(rng.int(1, 4))])
    ps = [model.random_prime(rng, 10 ** 6, 10 ** 7) for _ in range(rng.int(1, 2))]
    ps = [p for p in ps if (p - 1) & -(p - 1) <= 1024] or [1000003]
    return model.merge(ps + ([rng.pick((2, 3, 17))] if rng.chance(0.3) else []))


def count_sqrts(a, fac):
    total = 1
    for p, k in fac:
        m = p ** k
        r = a % m
        if r == 0:
            c = p ** (k // 2)
        else:
            v = 0
            while r % p == 0:
                r //= p
                v += 1
            if v % 2:
                c = 0
            else:
                e = k - v
                if p == 2:
                    c = 1 if e == 1 else (2 if r % 4 == 1 else 0) if e == 2 else (4 if r % 8 == 1 else 0)
                else:
                    c = 2 if pow(r, (p - 1) // 2, p) == 1 else 0
                c *= p ** (v // 2)
        total *= c
    return total


def has_primitive_root(fac):
    n = model.prod(fac)
    if n in (2, 4):
        return True
    odd = [f for f in fac if f[0] != 2]
    two = sum(e for p, e in fac if p == 2)
    return len(odd) == 1 and two <= 1


def phi_fac(fac):
    """Factorization of phi(n)."""
    ps = []
    for p, e in fac:
        ps += [p] * (e - 1)
        for q, k in model.factor_small(p - 1):
            ps += [q] * k
    return model.merge(ps)


KINDS = [('sqrts_mod_p', 5), ('sqrts_mod_n', 5), ('quadratic_congruence', 4), ('primitive_root', 2),
         ('is_primitive_root', 2), ('fibonacci_primitive_roots', 1.5), ('nth_roots_of_unity_mod_p', 1.5),
         ('nth_roots_of_minus1_mod_p', 1.5), ('multiplicative_order', 2), ('discrete_log', 1.5),
         ('linear_congruence', 1), ('pell_generator', 1.5), ('pell_minimal', 1), ('pell_fundamental', 0.5)]


def gen_op(rng):
    k = rng.weighted(KINDS)
    o = {'op': k, 'rs': simrandom.gen_policy(rng, 0.6, 30)}
    if k == 'sqrts_mod_p':
        p = some_prime(rng)
        a = rng.int(-3, p + 5) if rng.chance(0.3) else (rng.int(0, p - 1) ** 2)
        o.update(p=p, a=a)
    elif k == 'sqrts_mod_n':
        while True:
            fac = some_modulus(rng)
            n = model.prod(fac)
            r = rng.int(0, n)
            a = rng.weighted([(r * r, 5), (r, 2), (0, 0.5), (r * r - 3 * n, 1), (1, 0.7), (n - 1, 0.7), (-1, 0.5)])
            if count_sqrts(a, fac) <= 300:
                break
        o.update(fac=fac, a=a, give=rng.chance(0.4))
    elif k == 'quadratic_congruence':
        if rng.chance(0.8):
            fac = some_modulus(rng, big=False)
            while model.prod(fac) > 1500:
                fac = some_modulus(rng, big=False)
            n = model.prod(fac)
            c = [rng.int(-12, 12) or 1, rng.int(-30, 30), rng.int(-40, 40)]
            if rng.chance(0.4):
                x = rng.int(0, n)
                c[2] = -(c[0] * x * x + c[1] * x)
        else:
            p = some_prime(rng)
            while p < 100:
                p = some_prime(rng)
            fac = [(p, 1)]
            x = rng.int(0, p - 1)
            c = [rng.int(1, 50), rng.int(-50, 50), 0]
            c[2] = -(c[0] * x * x + c[1] * x) % p if rng.chance(0.8) else rng.int(0, p - 1)
        o.update(fac=fac, c=c, give=rng.chance(0.4))
    elif k in ('primitive_root', 'is_primitive_root', 'multiplicative_order'):
        if rng.chance(0.7):
            fac = model.factor_small(rng.int(2, 400))
        else:
            p = some_prime(rng, 10 ** 9)
            fac = [(p, 1)] if rng.chance(0.5) or p > 10 ** 4 or p == 2 else model.merge([2] * rng.int(0, 1) + [p] * rng.int(1, 2))
        n = model.prod(fac)
        if k == 'primitive_root':
            o.update(fac=fac, give=rng.chance(0.4))
        else:
            a = rng.int(1, max(2, min(n + 3, 10 ** 9)))
            if k == 'multiplicative_order' and rng.chance(0.9):
                while math.gcd(a, n) != 1:
                    a = rng.int(1, n + 3)
            o.update(fac=fac, a=a)
    elif k == 'fibonacci_primitive_roots':
        o.update(p=rng.pick(model.PRIMES[:rng.pick((10, 60, 300))]) if rng.chance(0.7) else some_prime(rng, 10 ** 9))
    elif k in ('nth_roots_of_unity_mod_p', 'nth_roots_of_minus1_mod_p'):
        p = some_prime(rng, 10 ** 9)
        n = rng.int(1, 60)
        if p < 5000 and rng.chance(0.3):
            n = rng.pick(model.divisors(model.factor_small(p - 1)))
        while math.gcd(n, p - 1) > 500:
            n = rng.int(1, 60)
        o.update(p=p, n=n)
    elif k == 'discrete_log':
        p = some_prime(rng, 20000)
        while p == 2:
            p = some_prime(rng, 20000)
        a = rng.int(1, p - 1)
        b = pow(a, rng.int(1, p), p) if rng.chance(0.7) else rng.int(1, p - 1)
        o.update(p=p, a=a, b=b)
    elif k == 'linear_congruence':
        n = rng.int(2, 200)
        o.update(n=n, a=rng.int(-60, 250), b=rng.int(-60, 250))
        if rng.chance(0.4):
            g = rng.int(1, 12)
            o.update(a=o['a'] * g, b=o['b'] * g, n=n * g)
    elif k == 'pell_fundamental':
        D = rng.int(2, 120)
        while math.isqrt(D) ** 2 == D:
            D = rng.int(2, 120)
        o.update(D=D, N=rng.pick((1, -1)))
    else:
        D = rng.int(2, 45)
        while math.isqrt(D) ** 2 == D:
            D = rng.int(2, 45)
        N = rng.int(-40, 40) or 1
        if rng.chance(0.5):
            x, y = rng.int(1, 30), rng.int(0, 12)
            N = x * x - D * y * y
            if not -400 < N < 400 or N == 0:
                N = 1 - D
        B = rng.pick((40, 150, 400))
        if rng.chance(0.35):        # larger equations, and bounds below the least solution
            D = rng.int(2, 150)
            while math.isqrt(D) ** 2 == D or pell1(D)[0] > 10 ** 7:
                D = rng.int(2, 150)
            x, y = rng.int(0, 60), rng.int(1, 40)
            N = rng.pick((x * x - D * y * y, rng.int(-3000, 3000), -rng.int(1, 60) ** 2, rng.int(1, 60) ** 2)) or 1
            if not -20000 < N < 20000:
                N = 1 - D
            B = rng.pick((rng.int(1, 40), 150, 400, 2000))
        o.update(D=D, N=N, B=B)
    return o


_PELL1 = {}


def pell1(D):
    """Fundamental solution of x^2 - D*y^2 = 1 by the chakravala-free brute force on y (small D)."""
    if D not in _PELL1:
        # continued fraction of sqrt(D), exact integers
        a0 = math.isqrt(D)
        m, d, a = 0, 1, a0
        h1, h, k1, k = 1, a0, 0, 1
        while h * h - D * k * k != 1:
            m = d * a - m
            d = (D - m * m) // d
            a = (a0 + m) // d
            h1, h = h, a * h + h1
            k1, k = k, a * k + k1
        _PELL1[D] = (h, k)
    return _PELL1[D]


class C04(Prop):
    ID = 'C04'
    RUNS = {'quick': 12000, 'thorough': 300000}
    RULE = ('A run is a history of 3-9 calls of the modular-equation and Pell solvers with adversarial or fair draws '
            'behind the non-residue search and the factoring; non-trivial: a fault-policy draw was consumed.')
    STATE_MEASURE = 'distinct (solver, number of solutions class, draw policy, draws consumed class) tuples'
    REAL = ['modular square roots, congruences, primitive roots, orders, logarithms, Pell solvers, factoring']
    STUB = ['the random module (every draw decided by the simulator)']
    ASSUMPTIONS = ['solution sets are compared with brute force for small moduli and with exact counting formulas '
                   'plus substitution for large ones']

    def gen(self, rng, index):
        return {'ops': [gen_op(rng) for _ in range(rng.int(3, 9))]}

    def execute(self, plan, ctx):
        src = simrandom.SOURCE
        for o in plan['ops']:
            k = o['op']
            src.reset(o['rs'])
            fac = [tuple(x) for x in o['fac']] if 'fac' in o else None
            n = model.prod(fac) if fac else o.get('n')
            given = list(fac) if fac and o.get('give') else None
            extra = (given,) if given else ()
            if k == 'sqrts_mod_p':
                st, got = guarded(Z.sqrts_mod_p, o['a'], o['p'])
            elif k == 'sqrts_mod_n':
                st, got = guarded(Z.sqrts_mod_n, o['a'], n, *extra)
            elif k == 'quadratic_congruence':
                st, got = guarded(Z.quadratic_congruence, list(o['c']), n, *extra)
            elif k == 'primitive_root':
                st, got = guarded(Z.primitive_root, n, *extra)
            elif k == 'is_primitive_root':
                st, got = guarded(Z.is_primitive_root, o['a'], n)
            elif k == 'multiplicative_order':
                st, got = guarded(Z.multiplicative_order, o['a'], n)
            elif k == 'fibonacci_primitive_roots':
                st, got = guarded(Z.fibonacci_primitive_roots, o['p'])
            elif k == 'nth_roots_of_unity_mod_p':
                st, got = guarded(Z.nth_roots_of_unity_mod_p, o['n'], o['p'])
            elif k == 'nth_roots_of_minus1_mod_p':
                st, got = guarded(Z.nth_roots_of_minus1_mod_p, o['n'], o['p'])
            elif k == 'discrete_log':
                st, got = guarded(Z.discrete_log, o['a'], o['b'], o['p'])
            elif k == 'linear_congruence':
                st, got = guarded(Z.linear_congruence, o['a'], o['b'], o['n'])
            elif k == 'pell_generator':
                st, got = guarded(lambda: list(PELL.pell_solution_generator(o['D'], o['N'], o['B'])))
            elif k == 'pell_minimal':
                st, got = guarded(PELL.pell_minimal_positive_solutions, o['D'], o['N'])
            else:
                st, got = guarded(PELL.pell_fundamental_solution, o['D'], o['N'])
            ctx.count(k)
            ctx.steps += src.draws
            if src.forced:
                ctx.fault('draw:' + o['rs']['pol'], src.forced)
            args = {x: o[x] for x in o if x not in ('op', 'rs')}
            ctx.event(k, args, st, exc_text(got) if st == 'exc' else got)
            ctx.state(k, st, min(len(got), 5) if isinstance(got, list) else None, o['rs']['pol'] if src.draws else '',
                      min(src.draws, 8))
            if st == 'hang':
                ctx.violate('no-termination', k, repr(args))
                continue
            if given is not None and given != fac:
                ctx.violate('argument-changed', k, '%r -> %r' % (fac, given))
                continue
            try:
                err = self.judge(k, o, fac, n, st, got)
            except Exception as e:
                err = 'malformed result %r (%r)' % (got, e)
            if err:
                ctx.violate('wrong-solutions', k, '%r: %s' % (args, err))

    def judge(self, k, o, fac, n, st, got):
        def exc(expected):
            if st != 'exc':
                return 'expected %s, got %r' % (expected, got)
            return None if type(got).__name__ == expected else 'expected %s, got %s' % (expected, exc_text(got))

        if k == 'primitive_root' and not has_primitive_root(fac):
            return exc('ValueError')
        if k == 'multiplicative_order' and math.gcd(o['a'], n) != 1:
            return exc('ValueError')
        if k == 'pell_fundamental' and o['N'] == -1:
            D = o['D']
            u, v = pell1(D)
            sols = [(x, y) for y in range(1, 60) for x in [math.isqrt(max(0, D * y * y - 1))] if x * x - D * y * y == -1]
            # x^2 - D y^2 = -1 is solvable iff (u, v) is the square of a solution
            ok = any(True for _ in [0] if (u - 1) % 2 == 0 and math.isqrt((u - 1) // 2) ** 2 == (u - 1) // 2 and
                     v % (2 * math.isqrt((u - 1) // 2) or 1) == 0)
            if not ok:
                return exc('ValueError')
            x = math.isqrt((u - 1) // 2)
            want = (x, v // (2 * x))
            if want[0] ** 2 - D * want[1] ** 2 != -1:
                return exc('ValueError')
            return None if st == 'ok' and tuple(got) == want else 'expected %r, got %r' % (want, got)
        if k == 'discrete_log':
            p, a, b = o['p'], o['a'], o['b']
            sub = set()
            x = a
            while x not in sub:
                sub.add(x)
                x = x * a % p
            if b % p not in sub:
                return exc('ValueError')
        if st == 'exc':
            return 'exception ' + exc_text(got)

        if k == 'sqrts_mod_p':
            return self.roots(got, o['p'], lambda x: (x * x - o['a']) % o['p'] == 0, count_sqrts(o['a'], [(o['p'], 1)]))
        if k == 'sqrts_mod_n':
            return self.roots(got, n, lambda x: (x * x - o['a']) % n == 0, count_sqrts(o['a'], fac))
        if k == 'quadratic_congruence':
            a, b, c = o['c']
            if n <= 2000:
                return self.same(got, [x for x in range(n) if (a * x * x + b * x + c) % n == 0])
            if a % n == 0:
                return None
            return self.roots(got, n, lambda x: (a * x * x + b * x + c) % n == 0, count_sqrts(b * b - 4 * a * c, fac))
        if k == 'linear_congruence':
            return self.same(got, [x for x in range(o['n']) if (o['a'] * x - o['b']) % o['n'] == 0])
        if k == 'primitive_root':
            pf = phi_fac(fac)
            if not isinstance(got, int) or not 1 <= got < n or math.gcd(got, n) != 1:
                return 'got %r' % (got,)
            if model.order(got, n, pf) != model.prod(pf):
                return '%r has order %d' % (got, model.order(got, n, pf))
            for g in range(1, got):
                if math.gcd(g, n) == 1 and model.order(g, n, pf) == model.prod(pf):
                    return '%r is not the least: %d' % (got, g)
            return None
        if k == 'is_primitive_root':
            pf = phi_fac(fac)
            want = math.gcd(o['a'], n) == 1 and model.order(o['a'], n, pf) == model.prod(pf)
            return None if got == want and isinstance(got, bool) else 'expected %r, got %r' % (want, got)
        if k == 'multiplicative_order':
            want = model.order(o['a'], n, phi_fac(fac))
            return None if got == want else 'expected %r, got %r' % (want, got)
        if k == 'fibonacci_primitive_roots':
            p = o['p']
            if p == 2:
                return self.same(got, [])
            pf = phi_fac([(p, 1)])
            cand = got if p > 2500 else [g for g in range(1, p) if (g * g - g - 1) % p == 0]
            want = [g for g in cand if (g * g - g - 1) % p == 0 and model.order(g, p, pf) == p - 1]
            if p > 2500:
                # completeness: the two roots are r and 1 - r
                more = {(1 - g) % p for g in got}
                want = sorted({g for g in set(got) | more if (g * g - g - 1) % p == 0 and model.order(g, p, pf) == p - 1})
                if not got and p < 10 ** 6:
                    want = [g for g in range(1, p) if (g * g - g - 1) % p == 0 and model.order(g, p, pf) == p - 1]
            return self.same(got, want)
        if k == 'nth_roots_of_unity_mod_p':
            return self.roots(got, o['p'], lambda x: pow(x, o['n'], o['p']) == 1, math.gcd(o['n'], o['p'] - 1))
        if k == 'nth_roots_of_minus1_mod_p':
            p = o['p']
            d = math.gcd(o['n'], p - 1)
            cnt = 1 if p == 2 else (d if (p - 1) // d % 2 == 0 else 0)
            return self.roots(got, p, lambda x: pow(x, o['n'], p) == p - 1, cnt)
        if k == 'discrete_log':
            return None if isinstance(got, int) and got >= 0 and pow(o['a'], got, o['p']) == o['b'] % o['p'] else \
                'got %r' % (got,)
        if k == 'pell_fundamental':
            return None if tuple(got) == pell1(o['D']) else 'expected %r, got %r' % (pell1(o['D']), got)
        D, N = o['D'], o['N']
        if k == 'pell_generator':
            B = o['B']
            want = set()
            for y in range(1, B + 1):
                t = N + D * y * y
                if t > 0:
                    x = math.isqrt(t)
                    if x * x == t and x <= B:
                        want.add((x, y))
            seen = [tuple(s) for s in got]
            pos = [s for s in seen if s[0] > 0 and s[1] > 0]
            for x, y in seen:
                if x * x - D * y * y != N:
                    return '(%d, %d) is not a solution' % (x, y)
                if x > B or y > B or x < 0 or y < 0:
                    return '(%d, %d) is outside the bound' % (x, y)
            if len(set(seen)) != len(seen):
                return 'repeated solutions: %r' % (seen,)
            if set(pos) != want:
                return 'positive solutions %r, expected %r' % (sorted(pos), sorted(want))
            return None
        # minimal positive solutions: exactly the positive ones whose predecessor is not positive
        u, v = pell1(D)
        seen = [tuple(s) for s in got]
        for x, y in seen:
            if x * x - D * y * y != N:
                return '(%d, %d) is not a solution' % (x, y)
        if len(set(seen)) != len(seen):
            return 'repeated: %r' % (seen,)
        ybound = 400
        want = set()
        for y in range(1, ybound):
            t = N + D * y * y
            if t > 0:
                x = math.isqrt(t)
                if x * x == t:
                    px, py = x * u - y * v * D, y * u - x * v
                    if not (px > 0 and py > 0):
                        if px == 0 and N < 0:
                            want.add((px, py))      # the library starts that class at (0, y)
                        else:
                            want.add((x, y))
        small = {s for s in seen if s[1] < ybound}
        # a class started at (0, y) has its first strictly positive member above the bound, possibly
        extra = {s for s in small if s[0] == 0}
        if small - extra != {s for s in want if s[0] != 0}:
            return 'minimal solutions %r, expected (below y=%d) %r' % (seen, ybound, sorted(want))
        return None

    @staticmethod
    def same(got, want):
        return None if isinstance(got, list) and got == want else 'expected %r, got %r' % (want, got)

    @staticmethod
    def roots(got, n, ok, count):
        if not isinstance(got, list) or not all(isinstance(x, int) for x in got):
            return 'got %r' % (got,)
        bad = [x for x in got if not 0 <= x < n or not ok(x)]
        if bad:
            return 'not solutions in [0, %d): %r' % (n, bad[:4])
        if len(set(got)) != len(got):
            return 'repeated solutions in %r' % (got[:10],)
        if len(got) != count:
            return '%d solutions, expected %d: %r' % (len(got), count, got[:10])
        if got != sorted(got):
            return 'not sorted: %r' % (got[:10],)
        return None

    def shrink_more(self, plan):
        for i, o in enumerate(plan['ops']):
            if o['rs'].get('pol') != 'uniform':
                new = dict(plan, ops=[dict(x) for x in plan['ops']])
                new['ops'][i]['rs'] = {'pol': 'uniform', 'seed': 1}
                yield new


PROP = C04()
