"""The only pseudo-random generator the simulator itself uses.

It is a private copy of CPython's Mersenne Twister class, captured before the
`random` seam replaces anything, and it is always seeded from an explicit
string, so one integer (VERIF_SEED) decides everything.
"""
import hashlib
import _random


class Rng(_random.Random):
    """Small deterministic generator, independent of the `random` module."""

    def __new__(cls, *key):
        return _random.Random.__new__(cls)

    def __init__(self, *key):
        text = '/'.join(str(k) for k in key)
        digest = hashlib.sha256(text.encode()).digest()
        self.seed(int.from_bytes(digest[:16], 'big'))

    def below(self, n):
        """Uniform integer in [0, n)."""
        if n <= 0:
            raise ValueError('below(%r)' % (n,))
        k = n.bit_length()
        r = self.getrandbits(k) if k else 0
        while r >= n:
            r = self.getrandbits(k)
        return r

    def int(self, a, b):
        """Uniform integer in [a, b]."""
        return a + self.below(b - a + 1)

    def logint(self, a, b):
        """Integer in [a, b], roughly log-uniform (a >= 0)."""
        lo, hi = (a + 1).bit_length() - 1, (b + 1).bit_length()
        for _ in range(50):
            bits = self.int(lo, hi)
            v = (1 << bits >> 1) + self.below(max(1, 1 << bits >> 1)) if bits else 0
            if a <= v <= b:
                return v
        return self.int(a, b)

    def chance(self, p):
        return self.random() < p

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        total = sum(w for _, w in pairs)
        x = self.random() * total
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]

    def shuffled(self, seq):
        out = list(seq)
        for i in range(len(out) - 1, 0, -1):
            j = self.below(i + 1)
            out[i], out[j] = out[j], out[i]
        return out

    def sample(self, seq, k):
        return self.shuffled(seq)[:k]

    def seed64(self):
        return self.getrandbits(48)
