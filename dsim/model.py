"""Reference models for number theory: small, independent, trivially right."""
import math

_SMALL = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41)
PROVEN = 3317044064679887385961981     # the first 13 prime bases decide primality below this


def is_prime(n):
    """Exact below PROVEN (strong probable prime to the first thirteen prime bases)."""
    if n < 2:
        return False
    for p in _SMALL:
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in _SMALL:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def sieve(n):
    """List of primes <= n."""
    if n < 2:
        return []
    b = bytearray([1]) * (n + 1)
    b[0] = b[1] = 0
    for i in range(2, math.isqrt(n) + 1):
        if b[i]:
            b[i * i::i] = bytes(len(range(i * i, n + 1, i)))
    return [i for i in range(n + 1) if b[i]]


PRIMES = sieve(2000)


def next_prime(n):
    n += 1
    while not is_prime(n):
        n += 1
    return n


def random_prime(rng, lo, hi):
    while True:
        n = rng.int(lo, hi)
        for m in range(n, n + 2000):
            if is_prime(m):
                if m <= hi:
                    return m
                break


def factor_small(n):
    """Trial division factorization of a positive integer, sorted (p, e) pairs."""
    out = []
    p = 2
    while p * p <= n:
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        if e:
            out.append((p, e))
        p += 1 if p == 2 else 2
    if n > 1:
        out.append((n, 1))
    return out


def prod(fac):
    n = 1
    for p, e in fac:
        n *= p ** e
    return n


def merge(primes):
    d = {}
    for p in primes:
        d[p] = d.get(p, 0) + 1
    return sorted(d.items())


def divisors(fac):
    out = [1]
    for p, e in fac:
        out = [d * p ** i for d in out for i in range(e + 1)]
    return sorted(out)


def unitary_divisors(fac):
    out = [1]
    for p, e in fac:
        out = out + [d * p ** e for d in out]
    return sorted(out)


def phi(fac):
    n = 1
    for p, e in fac:
        n *= (p - 1) * p ** (e - 1)
    return n


def sigma(fac, k):
    total = 1
    for p, e in fac:
        total *= sum(p ** (i * k) for i in range(e + 1))
    return total


def tau(fac):
    t = 1
    for _, e in fac:
        t *= e + 1
    return t


def mobius(fac):
    return 0 if any(e > 1 for _, e in fac) else (-1) ** len(fac)


def carmichael(fac):
    v = 1
    for p, e in fac:
        if p == 2:
            t = 1 if e == 1 else (2 if e == 2 else 2 ** (e - 2))
        else:
            t = (p - 1) * p ** (e - 1)
        v = v * t // math.gcd(v, t)
    return v


def phi_preimage(m):
    """All n with phi(n) == m, by brute force over the known bound (small m)."""
    # n/phi(n) < e^gamma*loglog n + 3/loglog n; a generous bound for m <= a few thousand
    if m == 1:
        return [1, 2]
    if m % 2:
        return []
    bound = 6 * m + 10
    sieve_phi = list(range(bound + 1))
    for p in range(2, bound + 1):
        if sieve_phi[p] == p:
            for k in range(p, bound + 1, p):
                sieve_phi[k] -= sieve_phi[k] // p
    return [n for n in range(1, bound + 1) if sieve_phi[n] == m]


def jacobi(a, n):
    a %= n
    t = 1
    while a:
        while a % 2 == 0:
            a //= 2
            if n % 8 in (3, 5):
                t = -t
        a, n = n, a
        if a % 4 == 3 and n % 4 == 3:
            t = -t
        a %= n
    return t if n == 1 else 0


def order(a, n, group_fac):
    """Multiplicative order of a mod n, given the factorization of a multiple of it."""
    m = prod(group_fac)
    for p, e in group_fac:
        for _ in range(e):
            if pow(a, m // p, n) == 1:
                m //= p
    return m
