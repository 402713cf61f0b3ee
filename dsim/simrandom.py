"""The randomness seam.

`install()` must run before anything from the repository is imported.  It
replaces the functions of the standard `random` module (and `secrets`,
`os.urandom`, `random.Random`, `random.SystemRandom`) by ones that ask the
simulator for every draw, so the library's `from random import randint`
binds to the simulated source.  A draw is either an integer in [0, n) or a
float in [0, 1); every derived distribution (choice, shuffle, sample, gauss..)
is computed from those by the standard library's own code.

The fault model for randomness is "any value of the documented range, in any
order": a policy may deliver adversarial values for its first `k` draws
(constants, extremes, repeats, short cycles) and then turns into a fair
uniform source, so that liveness can be asked for.
"""
import _thread
import os
import random as _r
import secrets as _s

from dsim.rng import Rng

POLICIES = ('uniform', 'low', 'high', 'edge', 'const', 'repeat', 'cycle', 'mid', 'seq')


class Source:
    def __init__(self):
        self.reset({'pol': 'uniform', 'seed': 0, 'k': 0})

    def reset(self, spec):
        self.spec = spec
        self.pol = spec.get('pol', 'uniform')
        self.k = spec.get('k', 0)
        self.rng = Rng('draws', spec.get('seed', 0))
        self.draws = 0
        self.forced = 0
        self.last = None
        self.cyc = [self.rng.random() for _ in range(spec.get('len', 2))]
        self.script = spec.get('script')
        self.fail_at, self.failure = 0, None
        self.pos = self.high = 0        # place in the caller's stream, and the furthest place reached
        self.override = None            # the stream after random.seed(x)
        self.reseeds = 0                # random.seed() by the library, minus what setstate took back
        self.foreign = 0                # draws not made from the process's generator

    def _draw(self):
        self.draws += 1
        if self.draws == self.fail_at:
            raise self.failure
        if self.override is None:
            self.pos += 1
            self.high = max(self.high, self.pos)

    def _adversarial(self):
        return self.pos <= self.k

    def reseed(self, x):
        self.reseeds += 1
        self.override = Rng('seeded', repr(x)) if x is not None else None

    def save(self):
        return dict(pos=self.pos, last=self.last, reseeds=self.reseeds, rng=self.rng.getstate(),
                    override=None if self.override is None else self.override.getstate())

    def restore(self, state):
        self.pos, self.last, self.reseeds = state['pos'], state['last'], state['reseeds']
        self.rng.setstate(state['rng'])
        self.override = None
        if state['override'] is not None:
            self.override = Rng()
            self.override.setstate(state['override'])

    def below(self, n):
        """An integer in [0, n)."""
        self._draw()
        if n <= 1:
            return 0
        if self.override is not None:
            return self.override.below(n)
        if self.script is not None and self.pos <= len(self.script):
            self.forced += 1
            return self.script[self.pos - 1] % n
        if self.pol == 'uniform' or not self._adversarial():
            v = self.rng.below(n)
            return v
        self.forced += 1
        return self._pick(n)

    def _pick(self, n):
        p = self.pol
        if p == 'low':
            return min(n - 1, self.rng.below(4))
        if p == 'high':
            return max(0, n - 1 - self.rng.below(4))
        if p == 'edge':
            return self.rng.pick((0, 0, n - 1, n - 1, min(1, n - 1), max(0, n - 2), n // 2))
        if p == 'mid':
            return min(n - 1, n // 2 + self.rng.below(2))
        if p == 'const':
            return int(self.cyc[0] * n) % n
        if p == 'cycle':
            return int(self.cyc[self.pos % len(self.cyc)] * n) % n
        if p == 'repeat':
            if self.last is None or self.rng.chance(0.25):
                self.last = self.rng.random()
            return int(self.last * n) % n
        if p == 'seq':
            return (self.pos - 1) % n
        return self.rng.below(n)

    def unit(self):
        """A float in [0, 1)."""
        self._draw()
        if self.override is not None:
            return self.override.random()
        if self.pol == 'uniform' or not self._adversarial():
            return self.rng.random()
        self.forced += 1
        p = self.pol
        if p == 'low':
            return self.rng.pick((0.0, 2.0 ** -53, 2.0 ** -30))
        if p == 'high':
            return 1.0 - 2.0 ** -53
        if p == 'edge':
            return self.rng.pick((0.0, 1.0 - 2.0 ** -53, 0.5, 2.0 ** -53))
        if p == 'mid':
            return 0.5
        if p == 'const':
            return self.cyc[0]
        if p == 'cycle':
            return self.cyc[self.pos % len(self.cyc)]
        if p == 'repeat':
            if self.last is None or self.rng.chance(0.25):
                self.last = self.rng.random()
            return self.last
        if p == 'seq':
            return (self.pos % 101) / 101.0
        return self.rng.random()


SOURCE = Source()
BY_THREAD = {}       # thread ident -> Source, while simulated threads run


def current():
    if BY_THREAD:
        return BY_THREAD.get(_thread.get_ident(), SOURCE)
    return SOURCE


SAVED = []           # what getstate was asked for
GLOBAL = [None]      # the process's generator


class SimRandom(_r.Random):
    """A random.Random whose every draw is decided by the simulator.

    The process's generator is the plan's source (of the current thread); seeding it gives the stream of that seed.
    Another instance with a seed has the stream of its seed; one without takes the plan's draws, too.
    """
    own = None

    def seed(self, a=None, version=2):
        if self is GLOBAL[0]:
            current().reseed(a)
        else:
            self.own = Rng('seeded', repr(a)) if a is not None else None

    def _source(self):
        src = current()
        if self is not GLOBAL[0]:
            src.foreign += 1
        return src

    def random(self):
        return self._source().unit() if self.own is None else self.own.random()

    def getrandbits(self, k):
        if not k:
            return 0
        return self._source().below(1 << k) if self.own is None else self.own.below(1 << k)

    def _randbelow(self, n):
        if n <= 0:
            return 0
        return self._source().below(n) if self.own is None else self.own.below(n)

    def getstate(self):
        SAVED.append(current().save() if self.own is None else self.own.getstate())
        return (3, (len(SAVED) - 1,), None)

    def setstate(self, state):
        s = SAVED[state[1][0]]
        if isinstance(s, dict):
            if self is GLOBAL[0]:
                current().restore(s)
            else:       # a copy of the process's generator goes on from there by itself
                self.own = Rng('copied', s['pos'], s['rng'][:4])
        elif self is GLOBAL[0]:
            current().reseed(repr(s[:4]))
        else:
            self.own = Rng()
            self.own.setstate(s)


class SimSystemRandom(SimRandom):
    def seed(self, *args, **kwargs):
        return None

    def getstate(self, *args, **kwargs):
        raise NotImplementedError('System entropy source does not have state.')

    setstate = getstate


def _foreign(n):
    src = current()
    src.foreign += 1
    return src.below(n)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    inst = SimRandom()
    GLOBAL[0] = inst
    _r._inst = inst
    _r.Random = SimRandom
    _r.SystemRandom = SimSystemRandom
    for name in ('seed', 'random', 'uniform', 'triangular', 'randint', 'choice', 'randrange', 'sample',
                 'shuffle', 'choices', 'normalvariate', 'lognormvariate', 'expovariate', 'vonmisesvariate',
                 'gammavariate', 'gauss', 'betavariate', 'binomialvariate', 'paretovariate', 'weibullvariate',
                 'getstate', 'setstate', 'getrandbits', 'randbytes'):
        if hasattr(inst, name):
            setattr(_r, name, getattr(inst, name))
    system = SimSystemRandom()
    _s._sysrand = system
    _s.choice = system.choice
    _s.randbelow = _foreign
    _s.randbits = system.getrandbits
    os.urandom = lambda n: bytes(_foreign(256) for _ in range(n))


def gen_policy(rng, adversarial=0.6, kmax=60):
    """A random draw policy (JSON)."""
    if not rng.chance(adversarial):
        return {'pol': 'uniform', 'seed': rng.seed64()}
    return {'pol': rng.pick(POLICIES[1:]), 'seed': rng.seed64(), 'k': rng.logint(1, kmax), 'len': rng.int(1, 4)}
