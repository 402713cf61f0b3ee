"""The catalogue: every public operation of the library as data.

An operation is {'fn': name, 'args': [...], 'kw': {...}, 'rs': draw policy};
arguments are JSON, and may refer to shared objects of the plan ({'r': k}), so
that two calls - of two threads, or one after the other - can be given the very
same list, graph or polynomial.  `Env` builds the objects of a plan and performs
operations; `canon` turns any result into a comparable value that does not
depend on identity or on the order of sets.
"""
import itertools
from fractions import Fraction

from dsim import graphs as G, simrandom

import rosemary.algebra.matrices.matrices as MAT
import rosemary.algebra.polynomials.algorithms as PA
import rosemary.algebra.polynomials.polynomials as POLY
import rosemary.algebra.power_series.power_series as PS
import rosemary.combinatorics.enumeration.enumeration as EN
import rosemary.combinatorics.generation.combinations as GC
import rosemary.combinatorics.generation.partitions as GP
import rosemary.combinatorics.generation.permutations as GPERM
import rosemary.combinatorics.generation.tuples as GT
import rosemary.combinatorics.optimization.exact_cover as XC
import rosemary.combinatorics.optimization.genetic_tsp as GTSP
import rosemary.combinatorics.optimization.knapsack as KN
import rosemary.combinatorics.optimization.tsp as TSP
import rosemary.combinatorics.recreational.alphametics as AL
import rosemary.graphs.algorithms.cliques as CQ
import rosemary.graphs.algorithms.coloring as COL
import rosemary.graphs.algorithms.connectivity as CON
import rosemary.graphs.algorithms.degree_sequences as DS
import rosemary.graphs.algorithms.hamiltonian_paths as HAM
import rosemary.graphs.algorithms.independent_sets as IS
import rosemary.graphs.algorithms.paths as PATH
import rosemary.graphs.algorithms.spanning_trees as ST
import rosemary.graphs.algorithms.steiner_trees as STEI
import rosemary.graphs.algorithms.traversal as TR
import rosemary.graphs.graphs as GR
import rosemary.number_theory.arithmetic_functions.functions as AF
import rosemary.number_theory.arithmetic_functions.inverse_functions as INV
import rosemary.number_theory.arithmetic_functions.sieves as AS
import rosemary.number_theory.arithmetic_functions.sums as SUMS
import rosemary.number_theory.arithmetic_progressions as AP
import rosemary.number_theory.classification as CL
import rosemary.number_theory.continued_fractions as CF
import rosemary.number_theory.core as CORE
import rosemary.number_theory.diophantine_equations.pell as PELL
import rosemary.number_theory.factorization.algorithms as FA
import rosemary.number_theory.factorization.factorization as F
import rosemary.number_theory.misc as MISC
import rosemary.number_theory.primes.primality as PR
import rosemary.number_theory.primes.prime_counting as PC
import rosemary.number_theory.primes.sieves as SV
import rosemary.number_theory.zn_arithmetic as ZN
import rosemary.utilities as UT

LIMIT = 150          # items taken from a lazy sequence


# ----------------------------------------------------------------------
# canonical form of results
# ----------------------------------------------------------------------

def canon(x, depth=0):
    """A hashable, comparable, order-independent (for sets and dicts) view of a value."""
    if x is None or isinstance(x, (bool, int, str, bytes)):
        # long integers in hexadecimal, which no limit of digits applies to
        return (type(x).__name__, hex(x) if type(x) is int and x.bit_length() > 1500 else x)
    if isinstance(x, (float, complex)):
        return (type(x).__name__, repr(x))
    if isinstance(x, Fraction):
        return ('Fraction', canon(x.numerator), canon(x.denominator))
    if isinstance(x, G.Vtx):
        return ('Vtx', x.i)
    if depth > 12:
        return ('deep', type(x).__name__)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(canon(e, depth + 1) for e in x))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, tuple(sorted((canon(e, depth + 1) for e in x), key=repr)))
    if isinstance(x, dict):
        return ('dict', tuple(sorted(((canon(k, depth + 1), canon(v, depth + 1)) for k, v in x.items()), key=repr)))
    if isinstance(x, GR.Graph):
        return ('Graph', tuple(sorted(((canon(v), canon(dict(x[v]), depth + 1)) for v in x.vertex_set()), key=repr)))
    if isinstance(x, POLY.Polynomial):
        return (type(x).__name__, tuple(map(canon, x.coefficients())), x.variable, x.degree, canon(x.lead_coeff))
    if isinstance(x, MAT.Matrix):
        rows = []
        for row in itertools.count():
            try:
                rows.append(canon(x[row], depth + 1))
            except IndexError:
                break
        return (type(x).__name__, tuple(rows))
    if isinstance(x, CF.QuadraticIrrational):
        return ('QuadraticIrrational', repr(x), x.period_length, canon(x.pre_period), canon(x.fundamental_period))
    if hasattr(x, '__next__'):
        return ('lazy', type(x).__name__)
    return ('object', type(x).__name__)


# ----------------------------------------------------------------------
# objects of a plan
# ----------------------------------------------------------------------

def make_obj(spec):
    k = spec['k']
    if k == 'list':
        return [dec(v) for v in spec['v']]
    if k == 'tuple':
        return tuple(dec(v) for v in spec['v'])
    if k == 'set':
        return {dec(v) for v in spec['v']}
    if k == 'graph':
        return G.Built(spec['g'])
    if k == 'matrix':
        return getattr(MAT, spec['cls'])([[dec(e) for e in row] for row in spec['v']])
    if k == 'poly':
        return getattr(POLY, spec['cls'])([dec(e) for e in spec['v']], spec.get('name', 'x'))
    if k == 'qi':
        return CF.QuadraticIrrational(*spec['v'])
    if k == 'cover':
        return XC.ExactCoverBinary(list(spec['v']))
    if k == 'travel':
        return GTSP.TravelingSalesman([tuple(p) for p in spec['v']])
    if k == 'cached':
        if spec['f'] == 'fib':      # calls itself through the wrapper
            me = UT.cached_function(lambda n: n if n < 2 else me(n - 1) + me(n - 2))
            return me
        return UT.cached_function(CACHED[spec['f']])
    raise ValueError('unknown object kind %r' % k)


def _mixed(*args):
    if 13 in args:
        raise ValueError('unlucky')
    return sum((i + 2) * (a if isinstance(a, int) else len(a)) for i, a in enumerate(args)), len(args)


CACHED = {'mixed': _mixed, 'phi': lambda n: AF.euler_phi(n), 'factor': lambda n: tuple(F.factor(n)),
          'gcd': lambda a, b: CORE.gcd(a, b)}


def dec(v):
    """A literal inside an object: numbers, strings, lists, {'t': tuple}, {'f': fraction}, {'s': set}."""
    if isinstance(v, list):
        return [dec(e) for e in v]
    if isinstance(v, dict):
        if 't' in v:
            return tuple(dec(e) for e in v['t'])
        if 'f' in v:
            return Fraction(*v['f'])
        if 's' in v:
            return {dec(e) for e in v['s']}
    return v


def apply_edit(obj, edit):
    """The caller modifies one of its own objects between calls."""
    what = edit['e']
    if isinstance(obj, G.Built):
        g = obj.graph
        if what == 'addedge':
            u, v = obj.lab[edit['i'] % obj.n], obj.lab[edit['j'] % obj.n]
            if u != v and u in g.vertex_set() and v in g.vertex_set():
                g.add_edge(u, v, edit['w'])
        elif what == 'deledge':
            edges = [(u, v) for i, u in enumerate(obj.lab) for v in obj.lab[i + 1:]
                     if u in g.vertex_set() and v in g[u]]
            if edges:
                g.delete_edge(*edges[edit['i'] % len(edges)])
        elif what == 'delvertex':
            vs = [v for v in obj.lab if v in g.vertex_set()]
            if len(vs) > 2:
                g.delete_vertex(vs[edit['i'] % len(vs)])
        elif what == 'reweigh':
            edges = [(u, v) for i, u in enumerate(obj.lab) for v in obj.lab[i + 1:]
                     if u in g.vertex_set() and v in g[u]]
            if edges:
                u, v = edges[edit['i'] % len(edges)]
                g.add_edge(u, v, edit['w'])
        elif what == 'rewire':       # the same numbers of vertices and edges
            vs = [v for v in obj.lab if v in g.vertex_set()]
            pairs = [(u, v) for i, u in enumerate(vs) for v in vs[i + 1:]]
            there = [p for p in pairs if p[1] in g[p[0]]]
            free = [p for p in pairs if p[1] not in g[p[0]]]
            if there and free:
                u, v = there[edit['i'] % len(there)]
                w = g[u][v]
                g.delete_edge(u, v)
                g.add_edge(*free[edit['j'] % len(free)], w)
    elif isinstance(obj, list):
        if what == 'pop' and len(obj) > 1:
            obj.pop(edit['i'] % len(obj))
        elif what == 'set' and obj:
            i = edit['i'] % len(obj)
            old = obj[i]
            if isinstance(old, bool) or not isinstance(old, int):
                if isinstance(old, tuple) and len(old) == 2 and isinstance(old[1], int):
                    obj[i] = (old[0], old[1] + 1)
                elif len(obj) > 1:
                    obj[i], obj[i - 1] = obj[i - 1], obj[i]
            else:
                obj[i] = old + edit['w']
        elif what == 'dup' and obj:
            obj.append(obj[edit['i'] % len(obj)])
    elif isinstance(obj, MAT.Matrix):
        obj[0, 0] = obj[0, 0] + edit['w']
    elif isinstance(obj, set) and what == 'pop' and len(obj) > 1:
        obj.discard(sorted(obj, key=repr)[edit['i'] % len(obj)])


EDITS = {'graph': ('addedge', 'deledge', 'delvertex', 'reweigh', 'reweigh', 'addedge', 'rewire', 'rewire'), 'list': ('pop', 'set', 'set', 'dup'),
         'matrix': ('set',), 'set': ('pop',)}


def twin(rng, spec):
    """An object specification much like this one, or None."""
    if spec['k'] == 'graph':
        g = spec['g']
        edges = [list(e) for e in g['edges']]
        have = {(min(e[:2]), max(e[:2])) for e in edges}
        free = [(i, j) for i in range(g['n']) for j in range(i + 1, g['n']) if (i, j) not in have]
        if not edges:
            return None
        k = rng.int(0, len(edges) - 1)
        if free and rng.chance(0.7):
            edges[k][:2] = rng.pick(free)
        elif len(edges[k]) > 2 and isinstance(edges[k][2], int):
            edges[k][2] += rng.int(1, 3)
        return dict(spec, g=dict(g, edges=edges))
    if spec['k'] in ('list', 'tuple', 'poly') and not spec['tag'].startswith(('congr', 'radix', 'distmat')):
        v = list(spec['v'])
        ints = [i for i, e in enumerate(v) if type(e) is int]
        if not ints:
            return None
        k = rng.pick(ints)
        v[k] += 2 if v[k] in (-1, -3) else rng.pick((1, 3)) if v[k] == -2 else rng.int(1, 3)
        return dict(spec, v=v)
    return None


def twin_op(c, op):
    """The operation on a twin of one of its argument objects (a new object of the plan), or None."""
    rs = refs(op)
    if not rs:
        return None
    k = c.rng.pick(rs)
    spec = twin(c.rng, c.objs[k])
    if spec is None:
        return None
    c.objs.append(spec)

    def swap(a):
        if isinstance(a, dict):
            return {x: (len(c.objs) - 1 if x == 'r' and y == k else swap(y)) for x, y in a.items()}
        if isinstance(a, list):
            return [swap(e) for e in a]
        return a
    return dict(op, args=swap(op['args']), kw=swap(op.get('kw', {})))


class Env:
    """The objects of a plan, and calls on them."""

    def __init__(self, plan):
        self.specs = plan['objs']
        self.built = {}

    def obj(self, k):
        if k not in self.built:
            self.built[k] = make_obj(self.specs[k])
        return self.built[k]

    def arg(self, a):
        if isinstance(a, dict):
            if 'r' in a:
                o = self.obj(a['r'])
                if isinstance(o, G.Built):
                    if 'v' in a:
                        return o.lab[a['v']]
                    if 'vs' in a:
                        vs = [o.lab[i] for i in a['vs']]
                        return set(vs) if a.get('set') else vs
                    if 'wm' in a:
                        return {o.lab[i]: w for i, w in enumerate(a['wm'])}
                    return o.graph
                return o
            return dec(a)
        if isinstance(a, list):
            return [self.arg(e) for e in a]
        return a

    def arguments(self, op):
        """Decodes the arguments of an operation (not part of the measured call)."""
        return [self.arg(a) for a in op['args']], {k: self.arg(v) for k, v in op.get('kw', {}).items()}

    def snapshot(self, k):
        o = self.obj(k)
        return canon(o.graph if isinstance(o, G.Built) else o)

    def edit(self, e):
        o = self.obj(e['obj'])
        apply_edit(o, e)


def refs(op):
    """Indices of the shared objects an operation is given."""
    out = set()

    def walk(a):
        if isinstance(a, dict):
            if 'r' in a:
                out.add(a['r'])
            for v in a.values():
                walk(v)
        elif isinstance(a, list):
            for v in a:
                walk(v)
    walk(op['args'])
    walk(op.get('kw', {}))
    return sorted(out)


def take(x, limit=LIMIT):
    """Drains a lazy result (at most `limit` items)."""
    if hasattr(x, '__next__'):
        return ['drained', list(itertools.islice(x, limit))]
    return x


# ----------------------------------------------------------------------
# generation of arguments
# ----------------------------------------------------------------------

class Gen:
    def __init__(self, rng, share=0.6):
        self.rng = rng
        self.objs = []
        self.share = share

    def obj(self, tag, make, ok=lambda spec: True):
        """An existing object with this tag, or a new one."""
        old = [i for i, o in enumerate(self.objs) if o['tag'] == tag and ok(o)]
        if old and self.rng.chance(self.share):
            return {'r': self.rng.pick(old)}
        spec = make()
        spec['tag'] = tag
        self.objs.append(spec)
        return {'r': len(self.objs) - 1}

    # -- numbers -------------------------------------------------------
    def i(self, lo, hi):
        return self.rng.int(lo, hi)

    def log(self, lo, hi):
        return self.rng.logint(lo, hi)

    def prime(self, lo, hi):
        r = self.rng
        while True:
            p = r.int(lo, hi) | 1
            if p > 2 and all(p % d for d in range(3, int(p ** 0.5) + 1, 2)):
                return p

    def smooth(self, hi=10 ** 6):
        n = 1
        while True:
            p = self.rng.pick((2, 2, 3, 3, 5, 7, 11, 13, 101))
            if n * p > hi or self.rng.chance(0.12):
                return n
            n *= p

    def num(self):
        r = self.rng
        k = r.int(0, 9)
        if k < 4:
            return r.logint(1, 10 ** 4)
        if k < 7:
            return self.smooth()
        if k < 9:
            return r.logint(1, 10 ** 7)
        return self.prime(1000, 20000) * self.prime(1000, 20000)

    def w(self, value, lo=10 ** 6, hi=10 ** 45, p=0.2):
        """The value, or now and then a wide one."""
        return self.rng.logint(lo, hi) if self.rng.chance(p) else value

    def wide_num(self):
        k = self.rng.random()
        if k < 0.12:
            return self.smooth(10 ** self.rng.int(8, 40))
        if k < 0.16:
            return self.smooth(1000) * self.rng.pick(WIDE_PRIMES[:3])
        return self.num()

    def bad(self, value, *bads):
        """Now and then an argument the function must refuse."""
        return self.rng.pick(bads) if self.rng.chance(0.1) else value

    # -- shared objects ------------------------------------------------
    def fac(self):
        def make():
            ps = sorted(self.rng.sample([2, 3, 5, 7, 11, 13, 17, 101], self.rng.int(1, 4)))
            return {'k': 'list', 'v': [{'t': [p, self.rng.int(1, 3)]} for p in ps]}
        return self.obj('fac', make)

    def num_or_fac(self):
        return self.fac() if self.rng.chance(0.4) else self.wide_num()

    def divkw(self):
        if self.rng.chance(0.4):
            return {'factorization': self.fac()}
        return {'n': self.bad(self.num(), 0)}

    def ints(self, lo, hi, nlo=1, nhi=8, tag=None, sort=False, distinct=False):
        def make():
            n = self.rng.int(nlo, nhi)
            v = [self.rng.int(lo, hi) for _ in range(n)]
            if distinct:
                v = sorted(set(v))
            if sort:
                v.sort()
            return {'k': 'list', 'v': v}
        return self.obj(tag or 'ints:%d:%d:%d:%d' % (lo, hi, nlo, nhi), make)

    def graph(self, lo=2, hi=7, conn=False, weights=('none',), tag=''):
        shapes = G.CONNECTED if conn else G.SHAPES
        t = 'graph:%d:%d:%s:%s' % (lo, hi, conn, tag or ','.join(weights))

        def make():
            return {'k': 'graph', 'g': G.gen_graph(self.rng, lo, hi, shapes=shapes, weights=weights)}
        return self.obj(t, make)

    def n_of(self, ref):
        return self.objs[ref['r']]['g']['n']

    def vertex(self, ref):
        return dict(ref, v=self.rng.int(0, self.n_of(ref) - 1))

    def vertices(self, ref, lo=0, distinct=True, as_set=False):
        n = self.n_of(ref)
        k = self.rng.int(min(lo, n), n)
        d = dict(ref, vs=self.rng.sample(list(range(n)), k))
        if as_set:
            d['set'] = True
        return d

    def matrix(self, square=True):
        def make():
            n = self.rng.int(2, 4)
            m = self.rng.weighted([(5, 8), (10 ** 20, 1)])
            return {'k': 'matrix', 'cls': self.rng.pick(('Matrix', 'MatrixZZ', 'MatrixQQ')),
                    'v': [[self.rng.int(-m, m) for _ in range(n)] for _ in range(n)]}
        return self.obj('matrix', make)

    def poly(self):
        def make():
            m = self.rng.weighted([(6, 8), (10 ** 20, 1)])
            return {'k': 'poly', 'cls': 'PolyZZ',
                    'v': [self.rng.int(-m, m) for _ in range(self.rng.int(1, 5))] + [self.rng.int(1, 4)]}
        return self.obj('poly', make)

    def points(self, lo=2, hi=7):
        def make():
            n = self.rng.int(lo, hi)
            return {'k': 'list', 'v': [{'t': [self.rng.int(0, 20), self.rng.int(0, 20)]} for _ in range(n)]}
        return self.obj('points:%d:%d' % (lo, hi), make)

    def items(self):
        def make():
            n = self.rng.int(1, 7)
            return {'k': 'list', 'v': [{'t': [self.rng.int(1, 20), self.rng.int(1, 12)]} for _ in range(n)]}
        return self.obj('items', make)

    def graphw(self, conn=False, lo=2, hi=7):
        return self.graph(lo, hi, conn, ('small', 'small', 'equal', 'zero', 'distinct'), tag='w')


CATALOG = {}
LAZY = {}        # operations whose result is a lazy sequence


def E(name, fn, gen, weight=1.0, lazy=False):
    """gen(c) -> args or (args, kw)"""
    CATALOG[name] = (fn, gen, weight)
    if lazy:
        LAZY[name] = (fn, gen, weight)


def L(name, fn, gen, weight=1.0):
    E(name, fn, gen, weight, lazy=True)


def g1(fn_gen):
    return lambda c: [fn_gen(c)]


# -- number theory: core ---------------------------------------------------
for _n in ('gcd', 'ext_gcd', 'lcm'):
    E('core.' + _n, getattr(CORE, _n), lambda c: [c.w(c.i(-200, 2000)), c.w(c.i(-50, 2000))], 0.4)
for _n in ('gcd_list', 'lcm_list'):
    E('core.' + _n, getattr(CORE, _n), lambda c: [c.ints(1, 60, 1, 6)], 0.5)
E('core.power_mod', CORE.power_mod, lambda c: [c.w(c.i(0, 500)), c.w(c.i(0, 500)), c.bad(c.w(c.i(1, 500)), 0)], 0.4)
E('core.inverse_mod', CORE.inverse_mod, lambda c: [c.w(c.i(1, 500)), c.bad(c.rng.pick(WIDE_PRIMES) if c.rng.chance(0.2) else c.i(2, 500), 0, 1)], 0.5)
E('core.bit_count', CORE.bit_count, lambda c: [c.w(c.log(1, 10 ** 9))], 0.3)
E('core.integer_log', CORE.integer_log, lambda c: [c.bad(c.i(2, 12), 1, 0), c.w(c.log(1, 10 ** 9))], 0.4)
E('core.integer_nth_root', CORE.integer_nth_root, lambda c: [c.bad(c.i(1, 6), 0), c.w(c.log(1, 10 ** 12))], 0.4)
E('core.integer_sqrt', CORE.integer_sqrt, lambda c: [c.bad(c.w(c.log(1, 10 ** 15)), -1)], 0.4)


def _moduli(c):
    return c.rng.pick(([3, 5, 7], [2, 9, 25], [4, 9, 5, 7], [11, 13], [101, 7, 8], [10 ** 9 + 7, 10 ** 9 + 9, 4], [2 ** 61 - 1, 9, 5]))


def _congruences(c):
    def make():
        return {'k': 'list', 'v': [{'t': [c.i(0, m - 1), m]} for m in _moduli(c)]}
    return c.obj('congruences', make)


E('core.chinese', CORE.chinese, lambda c: [_congruences(c)])


def _crt(system, moduli):
    return CORE.chinese_preconditioned(system, CORE.crt_preconditioning_data(moduli))


def _crt_args(c):
    system = _congruences(c)
    return [system, [e['t'][1] for e in c.objs[system['r']]['v']]]


E('core.chinese_preconditioned', _crt, _crt_args)
E('core.crt_preconditioning_data', CORE.crt_preconditioning_data, lambda c: [_moduli(c)], 0.5)
E('core.jacobi_symbol', CORE.jacobi_symbol, lambda c: [c.w(c.i(-50, 500)), c.bad(c.w(c.i(1, 300)) * 2 + 1, 4)], 0.4)
E('core.valuation', CORE.valuation, lambda c: [c.rng.pick((2, 3, 5)), c.smooth(10 ** c.i(2, 40))], 0.3)

# -- factoring --------------------------------------------------------------
E('factor', F.factor, lambda c: ([c.bad(c.wide_num(), 0, -12)], {'skip_trial_division': c.rng.chance(0.3),
                                                            'skip_power_detection': c.rng.chance(0.5)}), 3)
E('factor_back', F.factor_back, lambda c: [c.fac()])
for _n in ('divisors', 'divisor_pairs', 'prime_divisors', 'unitary_divisors'):
    E(_n, getattr(F, _n), lambda c: ([], c.divkw()), 1.5)
L('xdivisors', F.xdivisors, lambda c: ([], c.divkw()), 2)
L('factored_range', F.factored_range, lambda c: [c.i(1, 60), c.i(60, 130)] if c.rng.chance(0.5) else [c.i(2, 80)], 2)
E('trial_division', FA.trial_division, lambda c: [c.num() + 1], 0.7)
E('fermat', FA.fermat, lambda c: [c.prime(20, 300) * c.prime(20, 300)], 0.7)
E('lehman', FA.lehman, lambda c: [c.prime(20, 300) * c.prime(20, 300)], 0.7)
WIDE_PRIMES = (10 ** 9 + 21, 10 ** 9 + 7, 10 ** 9 + 9, 10 ** 12 + 39, 10 ** 12 + 61, 2 ** 61 - 1)
CFRAC = (81145049, 44125811, 85365667, 5348803, 8333639, 16777253, 52074647, 5192953, 34096589, 2544557, 2982407, 87463, 10403)
E('cfrac', FA.cfrac, lambda c: [c.rng.pick(CFRAC)], 0.5)
E('pollard_p_minus_1', FA.pollard_p_minus_1, lambda c: [c.prime(20, 300) * c.prime(20, 300), 60], 0.5)
E('pollard_rho', FA.pollard_rho, lambda c: [c.prime(20, 300) * c.prime(20, 300)], 1)
E('pollard_rho_brent', FA.pollard_rho_brent, lambda c: [c.prime(20, 300) * c.prime(20, 300)], 1)
E('smooth_factor', FA.smooth_factor, lambda c: [c.smooth(), c.rng.pick(([2, 3, 5, 7, 11, 13, 101], [-1, 2, 3, 5]))], 0.6)

# -- arithmetic functions -----------------------------------------------------
for _n in ('euler_phi', 'moebius_mu', 'divisor_tau', 'carmichael_lambda'):
    E(_n, getattr(AF, _n), lambda c: [c.bad(c.num_or_fac(), 0)], 1.5)
E('divisor_sigma', AF.divisor_sigma, lambda c: [c.bad(c.num_or_fac(), 0), c.i(0, 3)], 2)
E('factorial', AF.factorial, lambda c: [c.bad(c.w(c.i(0, 60), 100, 400), -1)], 0.6)
E('primorial', AF.primorial, lambda c: [c.bad(c.i(1, 100), 0)], 0.6)
E('euler_phi_inverse', INV.euler_phi_inverse, lambda c: [c.i(1, 120)], 1.2)
E('inverse_phi', INV.inverse_phi, lambda c: [c.i(1, 120)], 1.2)
for _n in ('euler_phi_list', 'moebius_list', 'tau_list'):
    E(_n, getattr(AS, _n), lambda c: [c.bad(c.w(c.i(1, 150), 200, 1500, 0.1), 0)], 0.8)
E('sigma_list', AS.sigma_list, lambda c: [c.bad(c.i(1, 150), 0), c.bad(c.i(0, 2), -1)], 0.8)
L('moebius_range', AS.moebius_range, lambda c: [c.i(1, 60), c.i(40, 140)] if c.rng.chance(0.6) else [c.i(2, 90)], 1.5)
for _n in ('euler_phi_sum', 'euler_phi_weighted_sum', 'moebius_sum', 'sigma_sum'):
    E(_n, getattr(SUMS, _n), lambda c: [c.bad(c.w(c.i(1, 400), 1000, 5000, 0.1), 0)], 0.7)

# -- classification, misc ------------------------------------------------------
E('is_square', CL.is_square, lambda c: [c.num_or_fac()], 0.7)
E('is_power', CL.is_power, lambda c: [c.num_or_fac()] + ([c.i(1, 3)] if c.rng.chance(0.4) else []), 0.7)
E('is_power2', CL.is_power2, lambda c: [c.log(2, 10 ** 6)], 0.4)
E('is_squarefree', CL.is_squarefree, lambda c: [c.num_or_fac()], 0.9)
E('is_factorial', CL.is_factorial, lambda c: [c.rng.pick((1, 2, 6, 24, 120, 100, 720))], 0.3)
E('largest_divisor', MISC.largest_divisor, lambda c: (lambda n: [n, c.i(1, min(n, 3000))])(c.log(1, 10 ** 7)), 0.6)
E('maximize_divisors', MISC.maximize_divisors, lambda c: [c.i(2, 3000)], 0.4)
E('bernoulli_list', MISC.bernoulli_list, lambda c: [c.w(c.i(2, 14), 20, 40)], 0.5)
E('has_three_term_ap', AP.has_three_term_ap, lambda c: ([c.ints(0, 40, 3, 8, 'apset', True, True)],
                                                        {'indices': c.rng.chance(0.5)}), 0.7)
E('longest_ap', AP.longest_ap, lambda c: [c.ints(0, 40, 3, 8, 'apset', True, True)], 0.7)


def _qi(c):
    def make():
        return {'k': 'qi', 'v': [c.rng.pick((2, 3, 5, 6, 7, 13, 19, 29, 61))] + ([c.i(-3, 3), c.rng.pick((1, 2, 3, -2))]
                                                                             if c.rng.chance(0.4) else [])}
    return c.obj('qi', make)


E('QuadraticIrrational', CF.QuadraticIrrational, lambda c: [c.bad(c.rng.pick((2, 3, 7, 13, 19, 61)), 4, 9)], 0.5)
L('qi.partial_quotients', lambda q: itertools.islice(q.partial_quotients(), 40), lambda c: [_qi(c)], 1)
L('qi.convergents', lambda q: itertools.islice(q.convergents(), 25), lambda c: [_qi(c)], 1)

# -- Pell ----------------------------------------------------------------------
_D = (2, 3, 5, 6, 7, 8, 10, 11, 13, 17, 19, 21, 29, 41)
_D_WIDE = _D + (61, 109, 421)
E('pell_fundamental_solution', PELL.pell_fundamental_solution,
  lambda c: [c.bad(c.rng.pick(_D_WIDE), 4, 0), c.bad(c.rng.pick((1, 1, -1)), 2)], 0.8)
E('PellEquation', lambda D, N: repr(PELL.PellEquation(D, N)), lambda c: [c.bad(c.rng.pick(_D), 4, -1), c.i(1, 40)], 0.2)
E('pell_minimal_positive_solutions', PELL.pell_minimal_positive_solutions, lambda c: [c.rng.pick(_D), c.rng.pick((1, 1, -1)) * c.i(1, 40)], 0.8)
L('pell_solution_generator', PELL.pell_solution_generator, lambda c: [c.rng.pick(_D), c.rng.pick((1, 1, -1)) * c.i(1, 30), 10 ** c.i(1, 5)], 1)

# -- primes ----------------------------------------------------------------------
E('is_prime', PR.is_prime, lambda c: [c.num()], 1)
E('is_probable_prime', PR.is_probable_prime, lambda c: [c.rng.pick(WIDE_PRIMES) if c.rng.chance(0.1) else c.w(c.num())], 0.8)
E('solovay_strassen', PR.solovay_strassen, lambda c: [c.w(c.num(), p=0.15) * 2 + 5] + ([c.i(2, 6)] if c.rng.chance(0.4) else []), 0.7)
E('miller_rabin', PR.miller_rabin, lambda c: [c.w(c.num(), p=0.15) * 2 + 5] + ([c.i(2, 6)] if c.rng.chance(0.4) else []), 0.7)
E('miller_rabin_deterministic', PR.miller_rabin_deterministic, lambda c: [c.w(c.num(), hi=10 ** 14, p=0.15) * 2 + 5], 0.5)
E('lucas_lehmer', PR.lucas_lehmer, lambda c: [c.rng.pick((3, 5, 7, 11, 13, 23))], 0.4)
E('next_prime', PR.next_prime, lambda c: [c.log(1, 10 ** 6)], 0.8)
E('next_probable_prime', PR.next_probable_prime, lambda c: [c.w(c.log(1, 10 ** 6), hi=10 ** 22)], 0.6)
E('random_prime', PR.random_prime, lambda c: [c.i(1, 500), c.i(600, 5000)] if c.rng.chance(0.8) else [10 ** 8, 10 ** 8 + 3000], 1)
for _n in ('legendre', 'meissel', 'lehmer', 'lmo', 'lmo_bit', 'prime_count'):
    E('pi.' + _n, getattr(PC, _n), lambda c: [c.log(1, 3000) if c.rng.chance(0.6) else c.i(1000100, 1000400)], 0.35)
E('prime_sum', PC.prime_sum, lambda c: [c.i(2, 600)], 0.5)
E('prime_sum2', PC.prime_sum2, lambda c: [c.i(2, 600)], 0.5)
E('pi_table', PC.pi_table, lambda c: [c.i(2, 120)], 0.6)
for _n in ('primes', 'eratosthenes1', 'eratosthenes2', 'luo', 'chartres', 'pritchard'):
    E('sieve.' + _n, getattr(SV, _n), lambda c: [c.w(c.i(8, 300), 1000, 20000, 0.1)], 0.7)
E('primes_first_n', SV.primes_first_n, lambda c: [c.bad(c.i(1, 80), 0)], 0.7)


def _primes_in_groups(a, b):
    """The segmented sieve, 300 primes at a time: the blocks of the sieve become reachable within few items."""
    it = SV.prime_range(a, b)
    while True:
        group = tuple(itertools.islice(it, 300))
        if not group:
            return
        yield group


L('prime_range_segmented', _primes_in_groups,
  lambda c: (lambda a: [a, a + c.i(1000, 250000)])(c.rng.pick((10 ** 7, 10 ** 7 - 500, 10 ** 7 + 1, 12345679, 4 * 10 ** 7))), 0.7)
L('prime_range', SV.prime_range, lambda c: [c.i(2, 120), c.i(130, 300)] if c.rng.chance(0.6) else [c.i(5, 250)], 2)

# -- modular arithmetic --------------------------------------------------------------
_P = (3, 5, 7, 11, 13, 17, 29, 41, 73, 97, 113)
E('is_primitive_root', ZN.is_primitive_root, lambda c: [c.i(1, 60), c.bad(c.i(2, 80), 0, -2)], 0.7)
E('primitive_root', ZN.primitive_root, lambda c: [c.bad(c.rng.pick((5, 7, 9, 11, 14, 18, 25, 27, 49, 50, 98, 101)), 12)], 0.8)
E('fibonacci_primitive_roots', ZN.fibonacci_primitive_roots, lambda c: [c.rng.pick((5, 11, 19, 31, 41, 13))], 0.7)
E('sqrts_mod_p', ZN.sqrts_mod_p, lambda c: [c.i(0, 120), c.rng.pick(_P if c.rng.chance(0.8) else WIDE_PRIMES)], 1.2)
E('sqrts_mod_n', ZN.sqrts_mod_n, lambda c: [c.i(0, 200), c.i(2, 400) if c.rng.chance(0.85) else c.rng.pick(WIDE_PRIMES[:3]) * c.rng.pick((1, 4, 9))], 1.2)
E('nth_roots_of_unity_mod_p', ZN.nth_roots_of_unity_mod_p, lambda c: [c.i(1, 8), c.rng.pick(_P)], 0.7)
E('nth_roots_of_minus1_mod_p', ZN.nth_roots_of_minus1_mod_p, lambda c: [c.i(1, 8), c.rng.pick(_P)], 0.7)
E('discrete_log', ZN.discrete_log, lambda c: [c.rng.pick((2, 3, 5, 6)), c.i(1, 100), c.rng.pick((19, 29, 101, 113))], 0.7)
E('multiplicative_order', ZN.multiplicative_order, lambda c: [c.i(1, 60), c.i(2, 200)], 0.8)
E('linear_congruence', ZN.linear_congruence, lambda c: [c.i(-20, 60), c.i(-20, 60), c.bad(c.i(2, 80), 0)], 0.7)


def _quad(c):
    def make():
        return {'k': 'list', 'v': [c.i(1, 12), c.i(-20, 20), c.i(-20, 20)]}
    return c.obj('quad', make)


E('quadratic_congruence', ZN.quadratic_congruence, lambda c: [_quad(c), c.i(2, 120)], 1.2)

# -- algebra ---------------------------------------------------------------------------
E('Matrix.add', lambda a, b: a + b, lambda c: [c.matrix(), c.matrix()], 0.6)
E('Matrix.sub', lambda a, b: a - b, lambda c: [c.matrix(), c.matrix()], 0.6)
E('Matrix.mul', lambda a, b: a * b, lambda c: [c.matrix(), c.matrix()], 0.8)
E('Matrix.scale', lambda a, k: k * a if k % 2 else a * k, lambda c: [c.matrix(), c.i(-3, 3)], 0.5)
E('Matrix.neg', lambda a: -a, lambda c: [c.matrix()], 0.4)
E('Matrix.determinant', lambda a: a.determinant(), lambda c: [c.matrix()], 1.2)
E('Matrix.delete_row', lambda a, i: a.delete_row(i), lambda c: [c.matrix(), c.i(0, 1)], 0.7)
E('Matrix.delete_col', lambda a, i: a.delete_col(i), lambda c: [c.matrix(), c.i(0, 1)], 0.7)
E('Matrix.getitem', lambda a, i, j: (list(a[i]), a[i, j]), lambda c: [c.matrix(), c.i(0, 1), c.i(0, 1)], 0.3)
E('Matrix.mixed', lambda a, k, o: (a + k, k + a, a - k, k - a)[o], lambda c: [c.matrix(), c.i(-3, 3), c.i(0, 3)], 0.5)
E('Matrix.repr', repr, lambda c: [c.matrix()], 0.3)


def _coeffs(c, tag='coeffs', nhi=8):
    if c.rng.chance(0.1):
        return c.ints(-10 ** 20, 10 ** 20, 1, nhi, tag + 'w')
    return c.ints(-9, 9, 1, nhi, tag)


for _n in ('mul_classical', 'mul_karatsuba', 'list_add', 'list_subtract'):
    E('poly.' + _n, getattr(PA, _n), lambda c: [_coeffs(c), _coeffs(c)], 0.7)


def _long(c):
    def make():
        n = c.i(31, 45)
        return {'k': 'list', 'v': [c.i(-9, 9) for _ in range(n)]}
    return c.obj('longcoeffs', make)


E('poly.mul_karatsuba.long', PA.mul_karatsuba, lambda c: [_long(c), _long(c)], 0.3)


def _lead(c):
    def make():
        return {'k': 'list', 'v': [c.rng.pick((1, -1))] + [c.i(-5, 5) for _ in range(c.i(0, 5))]}
    return c.obj('lead1', make)


E('poly.power_jcp', PA.power_jcp, lambda c: [_lead(c), c.i(0, 4)], 0.6)
E('ps_invert', PS.ps_invert, lambda c: [_lead(c)], 0.6)
E('ps_power', PS.ps_power, lambda c: [_lead(c), c.i(0, 4)], 0.6)
E('ps_mult_classical', PS.ps_mult_classical, lambda c: [_coeffs(c), _coeffs(c)], 0.5)
E('ps_mult_karatsuba', PS.ps_mult_karatsuba, lambda c: [_coeffs(c), _coeffs(c), c.i(2, 5)], 0.6)
E('delta_series', PS.delta_series, lambda c: [c.i(1, 12)], 0.4)
E('eta_series', PS.eta_series, lambda c: [c.i(1, 40)], 0.4)
E('Polynomial.add', lambda a, b: a + b, lambda c: [c.poly(), c.poly()], 0.5)
E('Polynomial.sub', lambda a, b: a - b, lambda c: [c.poly(), c.poly()], 0.5)
E('Polynomial.mul', lambda a, b: a * b, lambda c: [c.poly(), c.poly()], 0.7)
E('Polynomial.pow', lambda a, k: a ** k, lambda c: [c.poly(), c.i(1, 3)], 0.6)
E('Polynomial.power_binary', lambda a, k: a.power_binary(k), lambda c: [c.poly(), c.i(0, 4)], 0.5)
E('Polynomial.call', lambda a, x: a(x), lambda c: [c.poly(), c.i(-5, 5)], 0.4)
E('Polynomial.coefficients', lambda a: a.coefficients(), lambda c: [c.poly()], 0.8)
E('Polynomial.repr', repr, lambda c: [c.poly()], 0.3)
E('Polynomial.eq', lambda a, b: (a == b, a != b), lambda c: [c.poly(), c.poly()], 0.3)
E('Polynomial.quo_rem', lambda a, b: a.quo_rem(b), lambda c: [c.poly(), c.poly()], 0.6)
E('Polynomial.pseudo_quo_rem', lambda a, b: a.pseudo_quo_rem(b), lambda c: [c.poly(), c.poly()], 0.6)
E('Polynomial.primitive_part', lambda a: a.primitive_part(), lambda c: [c.poly()], 0.5)
E('Polynomial.content', lambda a: a.content(), lambda c: [c.poly()], 0.3)
E('Polynomial.mixed', lambda a, k, o: (a + k, k + a, a - k, k - a, k * a, a * k)[o], lambda c: [c.poly(), c.i(-3, 3), c.i(0, 5)], 0.6)
E('Polynomial.neg', lambda a: -a, lambda c: [c.poly()], 0.3)
E('Polynomial.getitem', lambda a, i: a[i], lambda c: [c.poly(), c.i(0, 6)], 0.3)

# -- enumeration, generation --------------------------------------------------------------
E('bell_number', EN.bell_number, lambda c: [c.bad(c.i(0, 15), -1)], 0.4)
E('binomial', EN.binomial, lambda c: [c.i(5, 20), c.i(0, 5)], 0.3)
E('multinomial', EN.multinomial, lambda c: [c.i(10, 20), c.ints(0, 3, 1, 4, 'parts')], 0.5)
E('bipartitions', EN.bipartitions, lambda c: [c.i(0, 4), c.i(0, 4)], 0.4)
E('partition_list', EN.partition_list, lambda c: [c.i(1, 40)], 0.5)
E('partition_number', EN.partition_number, lambda c: [c.i(1, 40)], 0.4)
E('rth_power_partition_number', EN.rth_power_partition_number, lambda c: [c.i(1, 4), c.i(0, 12)], 0.4)
E('number_of_domino_tilings', EN.number_of_domino_tilings, lambda c: [c.i(2, 3), c.i(2, 4)], 0.5)
E('triomino_tilings', EN.triomino_tilings, lambda c: [c.i(2, 4), 3], 0.5)
E('stirling_number2', EN.stirling_number2, lambda c: (lambda m: [m, c.i(0, m)])(c.i(0, 6)), 0.3)


def _necklaces(c):
    n, k = c.i(1, 40), c.i(2, 6)
    return [n, k, c.ints(1, 6, 2, 4, 'beads')] if c.rng.chance(0.3) else [n, k]


E('necklaces', EN.necklaces, _necklaces, 0.6)
L('combinations', GC.combinations, lambda c: (lambda n: [n, c.i(1, n - 1)])(c.i(2, 6)), 1.5)


def _partition_args(c):
    kw = {}
    if c.rng.chance(0.4):
        kw['distinct'] = c.rng.chance(0.7)
    if c.rng.chance(0.3):
        kw['num_parts'] = c.i(2, 4)
    if c.rng.chance(0.35):
        kw['parts'] = c.ints(1, 6, 2, 5, 'partlist', False, True)
    return [c.i(2, 9)], kw


L('integer_partitions', GP.integer_partitions, _partition_args, 2)
L('phillips', GPERM.phillips, lambda c: [c.ints(1, 9, 2, 5, 'distinct', False, True)], 1.5)
L('knuth_algorithm_l', GPERM.knuth_algorithm_l, lambda c: [c.ints(1, 4, 1, 5, 'multi')], 1.5)
L('knuth_algorithm_l_variations', GPERM.knuth_algorithm_l_variations, lambda c: [c.ints(1, 4, 1, 4, 'multi4')], 1.5)


def _rvar(c):
    ref = c.ints(1, 4, 3, 5, 'multi3')
    return [ref, c.i(1, 3)]


L('knuth_algorithm_l_rvariations', GPERM.knuth_algorithm_l_rvariations, _rvar, 1.5)


def _tuples(c):
    n = c.i(1, 3)
    k = c.i(0, 2)
    if k == 0:
        return [n]
    if k == 1:
        return [n, c.i(2, 4)]
    return [n, c.obj('radix%d' % n, lambda: {'k': 'list', 'v': [c.i(2, 4) for _ in range(n)]})]


L('n_tuples', GT.n_tuples, _tuples, 1.5)

# -- optimisation ------------------------------------------------------------------------
for _n in ('depth_first', 'dynamic_programming', 'branch_and_bound_depth_first'):
    E('knapsack.' + _n, getattr(KN, _n), lambda c: [c.items(), c.i(1, 40)], 1)
E('knapsack.simulated_annealing', KN.simulated_annealing, lambda c: [c.items(), c.i(1, 40)], 0)      # slow: C12 only
E('tsp.euclidean_distance_matrix', TSP.euclidean_distance_matrix, lambda c: [c.points(2, 6)], 0.6)
for _n in ('depth_first', 'branch_and_bound', 'two_opt', 'steepest_ascent_two_opt', 'farthest_insertion'):
    E('tsp.' + _n, getattr(TSP, _n), lambda c: [c.points(4, 6)], 0.8)


def _dm(c):
    def make():
        n = c.i(4, 6)
        m = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                m[i][j] = m[j][i] = c.i(1, 30)
        return {'k': 'list', 'v': m}
    return c.obj('distmat', make)


def _tsp_dm(c):
    ref = _dm(c)
    n = len(c.objs[ref['r']]['v'])
    return [[{'t': [i, 0]} for i in range(n)], ref]


for _n in ('branch_and_bound', 'two_opt', 'steepest_ascent_two_opt', 'farthest_insertion', 'depth_first'):
    E('tsp.' + _n + '.matrix', getattr(TSP, _n), _tsp_dm, 0.8)
E('tsp.random_two_opt', TSP.random_two_opt, lambda c: [list(range(c.i(4, 8)))], 0.4)


def _travel(c):
    def make():
        return {'k': 'travel', 'v': [[c.i(0, 30), c.i(0, 30)] for _ in range(20)]}
    return c.obj('travel', make)


E('genetic.solve', lambda t, p, n: t.solve(p, n), lambda c: [_travel(c), 2 * c.i(1, 2), c.i(0, 2)], -1)      # heavy: only cut short
E('tsp.simulated_annealing_two_opt', TSP.simulated_annealing_two_opt, lambda c: [c.points(4, 6)], -1)
E('genetic.cost', lambda t, p: t.cost(p), lambda c: [_travel(c), c.rng.shuffled(list(range(20)))], 0.3)


def _cover(c):
    def make():
        n = c.i(3, 6)
        return {'k': 'cover', 'v': sorted({c.i(1, (1 << n) - 1) for _ in range(c.i(3, 10))} | {1 << i for i in range(n)})}
    return c.obj('cover', make)


E('ExactCoverBinary.number_of_solutions', lambda e: e.number_of_solutions(), lambda c: [_cover(c)], 1)
L('ExactCoverBinary.solutions', lambda e: e.solutions(), lambda c: [_cover(c)], 1.5)


def _sets(c):
    def make():
        n = 5
        sets = [{'s': [i]} for i in range(n)]
        for _ in range(c.i(2, 6)):
            sets.append({'s': sorted(c.rng.sample(list(range(n)), c.i(1, 3)))})
        return {'k': 'list', 'v': c.rng.shuffled(sets)}
    return c.obj('sets', make)


L('algorithmx', XC.algorithmx, lambda c: [{'s': [0, 1, 2, 3, 4]}, _sets(c)], 1.5)
L('algorithm_dlx', XC.algorithm_dlx, lambda c: [{'s': [0, 1, 2, 3, 4]}, _sets(c)], 1.5)
E('langford_pairings', XC.langford_pairings, lambda c: [c.i(1, 4)], 0.3)
E('domino_tilings', XC.domino_tilings, lambda c: [c.i(2, 4)], 0.3)
E('langford_ints', XC.langford_ints, lambda c: [c.i(1, 6)], 0.3)
E('domino_ints', XC.domino_ints, lambda c: [c.i(1, 5)], 0.3)
SUDOKU = '534678912672195348198342567859761423426853791713924856961537284287419635345286179'


def _sudoku(c):
    def make():
        blank = set(c.rng.sample(list(range(81)), c.i(0, 12)))
        v = [0 if i in blank else int(d) for i, d in enumerate(SUDOKU)]
        return {'k': 'list', 'v': [v[9 * r:9 * r + 9] for r in range(9)]}
    return c.obj('sudoku', make)


E('sudoku_vectors', XC.sudoku_vectors, lambda c: [_sudoku(c)], 0.3)
E('sudoku.to_string', XC.to_string, lambda c: [_sudoku(c)], 0.3)
E('sudoku.parse', XC.parse, lambda c: [''.join(c.rng.pick('0' + d) for d in SUDOKU)], 0.3)
E('sudoku_dlx', lambda rows: XC.sudoku_dlx(XC.to_string(rows)), lambda c: [_sudoku(c)], 0.3)
E('latin_square_ints', XC.latin_square_ints, lambda c: [c.i(2, 3)], 0.3)
L('alphametic', AL.solve, lambda c: c.rng.pick(([['AB', 'BA'], ['CDC']], [['AA', 'B'], ['BCC']], [['A', 'B'], ['C']],
                                              [['AB'], ['C', 'D']])), 0.5)

# -- graphs ------------------------------------------------------------------------------
for _n in ('bron_kerbosch', 'bron_kerbosch_binary', 'tomita', 'maximal_cliques'):
    L('cliques.' + _n, getattr(CQ, _n), lambda c: [c.graph()], 1.3)
for _n in ('pardalos', 'pardalos_binary', 'ostergard', 'ostergard_binary', 'maximum_clique'):
    E('cliques.' + _n, getattr(CQ, _n), lambda c: [c.graph()], 0.8)


def _mwc(c):
    g = c.graph()
    return [g, dict(g, wm=[c.i(1, 9) for _ in range(c.n_of(g))])]


E('cliques.maximum_weight_clique', CQ.maximum_weight_clique, _mwc, 1)
for _n in ('dsatur', 'korman', 'branch_and_bound', 'exact_coloring', 'greedy_sequential'):
    E('coloring.' + _n, getattr(COL, _n), lambda c: ([c.graph(2, 6)], {'classes': c.rng.chance(0.5)}), 0.9)


def _gs(c):
    g = c.graph(2, 6)
    n = c.n_of(g)
    return [g], {'vertices': dict(g, vs=c.rng.shuffled(list(range(n)))), 'passes': c.i(1, 2)}


E('coloring.greedy_sequential.order', COL.greedy_sequential, _gs, 0.9)
E('coloring.maxis', COL.maxis, lambda c: ([c.graph(2, 5, tag='small')],
                                          {'color_limit': c.i(0, 5), 'use_greedy': c.rng.chance(0.5)}), 0.7)
E('connected_components', CON.connected_components, lambda c: [c.graph()], 1)
E('connected_component', CON.connected_component, lambda c: (lambda g: [g, c.vertex(g)])(c.graph()), 0.8)
E('is_connected', CON.is_connected, lambda c: [c.graph()], 0.5)
E('is_graphic', DS.is_graphic, lambda c: [c.ints(0, 4, 2, 6, 'degrees')], 0.5)
E('is_graphic_erdos_gallai', DS.is_graphic_erdos_gallai, lambda c: [c.ints(0, 4, 2, 6, 'degrees')], 0.5)
def _dense(c):
    return c.graph(2, 5) if c.rng.chance(0.4) else c.graph(3, 5, True, tag='conn')


for _n in ('hamiltonian_paths', 'hamiltonian_paths_con'):
    L('ham.' + _n, getattr(HAM, _n), lambda c: [_dense(c)], 1.3)
for _n in ('number_of_hamiltonian_paths', 'number_of_hamiltonian_paths_bits', 'number_of_hamiltonian_paths_bits_con',
           'number_of_hamiltonian_paths5', 'number_of_hamiltonian_paths5_con'):
    E('ham.' + _n, getattr(HAM, _n), lambda c: [_dense(c)], 0.6)
E('ham.walks', HAM.walks, lambda c: (lambda g: [g, c.vertex(g), c.i(0, 4), c.vertices(g, c.n_of(g), as_set=True)])(c.graph(2, 5)), 0.6)
E('ham.is_connected2', HAM.is_connected2, lambda c: (lambda g: [g, c.vertices(g, as_set=True)])(c.graph(2, 7)), 0.6)
E('is.branch_and_bound', IS.branch_and_bound, lambda c: [c.graph()], 0.8)
E('is.greedy', IS.greedy, lambda c: [c.graph()], 1)
E('is.culberson', IS.culberson, lambda c: [c.graph(2, 5, tag='small')], 0.8)
E('is.maximum_independent_set', IS.maximum_independent_set, lambda c: [c.graph()], 0.8)
L('is.maximal_independent_sets', IS.maximal_independent_sets, lambda c: [c.graph()], 1)
for _n in ('dijkstra', 'dijkstra_buckets', 'dijkstra_pairing_heap', 'bellman_ford'):
    E('paths.' + _n, getattr(PATH, _n), lambda c: (lambda g: [g, c.vertex(g)])(c.graphw()), 1)
L('paths.dijkstra_iterator', PATH.dijkstra_iterator, lambda c: (lambda g: [g, c.vertex(g)])(c.graphw()), 1.5)
E('paths.dijkstra_bidirectional', PATH.dijkstra_bidirectional,
  lambda c: (lambda g: [g, c.vertex(g), c.vertex(g)])(c.graphw()), 1)
E('paths.floyd_warshall', PATH.floyd_warshall, lambda c: [c.graphw(False, 2, 5)], 0.8)


def _prim(c):
    g = c.graphw(True)
    kw = {'edge_list': c.rng.chance(0.6)}
    if c.rng.chance(0.5):
        kw['root'] = c.vertex(g)
    return [g], kw


E('prim', ST.prim, _prim, 1)
E('kruskal', ST.kruskal, lambda c: [c.graphw(True)], 1)
E('cheriton_tarjan', ST.cheriton_tarjan, lambda c: [c.graphw(True)], 1)
L('gabow', lambda g, k=None: ST.gabow(g, k), lambda c: [c.graphw(True, 2, 5)] + ([c.i(1, 6)] if c.rng.chance(0.7) else []), 1.5)
def joined(fn):
    """Steiner trees are documented for connected graphs, which an edit of the plan may have cut."""
    def call(g, terminals):
        seen, stack = set(), list(terminals)[:1]
        while stack:
            u = stack.pop()
            if u not in seen:
                seen.add(u)
                stack.extend(g[u])
        return fn(g, terminals) if seen.issuperset(terminals) else 'not connected'
    return call


for _n in ('distance_network_heuristic', 'minimum_cost_paths_heuristic'):
    E('steiner.' + _n, joined(getattr(STEI, _n)), lambda c: (lambda g: [g, c.vertices(g, 2)])(c.graphw(True, 3, 7)), 1)


def _bfs(c):
    g = c.graph()
    a = [g, c.vertex(g)]
    return (a, {'max_depth': c.i(0, 3)}) if c.rng.chance(0.4) else a


L('breadth_first_search', TR.breadth_first_search, _bfs, 1.5)
L('depth_first_search', TR.depth_first_search, _bfs, 1.5)
E('breadth_first_search_tree', TR.breadth_first_search_tree, lambda c: (lambda g: [g, c.vertex(g)])(c.graph()), 0.8)
E('depth_first_search_tree', TR.depth_first_search_tree, lambda c: (lambda g: [g, c.vertex(g)])(c.graph()), 0.8)

# -- the Graph object: queries and derived graphs ------------------------------------------
for _n in ('copy', 'num_vertices', 'num_edges', 'vertex_set', 'leaves', 'edges', 'edge_set',
           'maximum_degree', 'minimum_degree', 'maximum_degree_vertex', 'minimum_degree_vertex', 'total_degree',
           'density', 'adjacency_matrix', 'degree_matrix', 'laplacian_matrix', 'complement'):
    E('Graph.' + _n, (lambda name: lambda g: getattr(g, name)())(_n), lambda c: [c.graph()], 0.45)
E('Graph.vertices', lambda g, **kw: g.vertices(**kw), lambda c: ([c.graph()], c.rng.pick(({}, {'order': 'degree'}, {'order': 'induced'}))), 0.5)
E('Graph.edges.weights', lambda g: g.edges(weights=True), lambda c: [c.graphw()], 0.5)
E('Graph.edge_set.weights', lambda g: g.edge_set(weights=True), lambda c: [c.graphw()], 0.5)
for _n in ('neighbors', 'closed_neighborhood', 'degree', 'remove_vertex', 'remove_neighborhood', 'remove_closed_neighborhood'):
    E('Graph.' + _n, (lambda name: lambda g, u: getattr(g, name)(u))(_n),
      lambda c: (lambda g: [g, c.vertex(g)])(c.graph()), 0.5)
E('Graph.induced_subgraph', lambda g, vs: g.induced_subgraph(vs), lambda c: (lambda g: [g, c.vertices(g)])(c.graphw()), 0.8)
E('Graph.remove_vertices', lambda g, vs: g.remove_vertices(vs), lambda c: (lambda g: [g, c.vertices(g)])(c.graphw()), 0.6)
E('Graph.remove_edge', lambda g, u, v: g.remove_edge(u, v) if len(repr(u)) % 2 else g.remove_edge((u, v)),
  lambda c: (lambda g: [g, c.vertex(g), c.vertex(g)])(c.graphw()), 0.6)
E('Graph.total_degree.some', lambda g, vs: g.total_degree(vs), lambda c: (lambda g: [g, c.vertices(g)])(c.graph()), 0.4)
E('Graph.iter', lambda g: (list(g), repr(g)), lambda c: [c.graphw()], 0.4)
E('Graph.getitem', lambda g, u: dict(g[u]), lambda c: (lambda g: [g, c.vertex(g)])(c.graphw()), 0.4)


def _built(vs, edges, drop):
    g = GR.Graph()
    g.add_vertices(vs)
    g.add_edges(edges)
    g.delete_vertices(drop)
    return g


def _built_args(c):
    n = c.i(2, 6)
    return [c.ints(0, 6, 0, 4, 'vlist'),
            c.obj('elist', lambda: {'k': 'list', 'v': [{'t': [a, b] + ([c.i(1, 9)] if c.rng.chance(0.5) else [])}
                                                       for a in range(n) for b in range(a) if c.rng.chance(0.6)]}),
            c.ints(0, 6, 0, 2, 'dlist')]


E('Graph.built', _built, _built_args, 0.7)
E('Graph.copy.then_cut', lambda g, u: (lambda h: (h.delete_vertex(u), h)[1])(g.copy()),
  lambda c: (lambda g: [g, c.vertex(g)])(c.graphw()), 0.7)
E('complete_graph', GR.complete_graph, lambda c: [c.i(1, 6)], 0.3)
E('petersen_graph', GR.petersen_graph, lambda c: [], 0.3)
E('random_graph', GR.random_graph, lambda c: [c.i(1, 7), c.rng.pick((0.2, 0.5, 0.9))], 0.5)
E('coprime_pairs_graph', GR.coprime_pairs_graph, lambda c: [c.i(2, 8)], 0.3)
E('odd_graph', GR.odd_graph, lambda c: [c.i(2, 3)], 0.3)
E('grid_graph', GR.grid_graph, lambda c: [c.i(1, 3)], 0.3)


def _cached(c):
    f = c.rng.pick(('mixed', 'mixed', 'phi', 'factor', 'gcd', 'fib'))
    n = {'phi': 1, 'factor': 1, 'gcd': 2, 'fib': 1}.get(f, c.i(0, 3))
    o = c.obj('cached:' + f, lambda: {'k': 'cached', 'f': f})
    return [o] + [c.bad(c.i(1, 12), 'no', 0) if f != 'mixed' else c.bad(c.i(10, 15), {'t': [c.i(0, 3)]}) for _ in range(n)]


E('cached_function', lambda f, *args: f(*args), _cached, 3)

CHOICES = [(k, v[2]) for k, v in CATALOG.items() if v[2] > 0]
NAMES = [k for k, v in CATALOG.items() if v[2] >= 0]
FAST = [k for k, v in CATALOG.items() if v[2] > 0]
HEAVY = [k for k, v in CATALOG.items() if v[2] <= 0]
LAZY_CHOICES = [(k, v[2]) for k, v in LAZY.items()]


def gen_op(c, choices=None, name=None, draws=True):
    name = name or c.rng.weighted(choices or CHOICES)
    got = CATALOG[name][1](c)
    args, kw = got if isinstance(got, tuple) else (got, {})
    op = {'fn': name, 'args': args}
    if kw:
        op['kw'] = kw
    op['rs'] = simrandom.gen_policy(c.rng, 0.2, 6) if draws else {'pol': 'uniform', 'seed': 1}
    return op


def function(op):
    return CATALOG[op['fn']][0]
