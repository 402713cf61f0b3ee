"""C07: cliques, independent sets and colourings whatever the draws and orders."""
from dsim import graphs as G, simrandom
from dsim.engine import Prop, guarded, exc_text, Malformed

import rosemary.graphs.algorithms.cliques as C
import rosemary.graphs.algorithms.independent_sets as I
import rosemary.graphs.algorithms.coloring as K

ENUM = {'bron_kerbosch': C.bron_kerbosch, 'bron_kerbosch_binary': C.bron_kerbosch_binary, 'tomita': C.tomita,
        'maximal_cliques': C.maximal_cliques}
EXACT_CLIQUE = {'pardalos': C.pardalos, 'pardalos_binary': C.pardalos_binary, 'ostergard': C.ostergard,
                'ostergard_binary': C.ostergard_binary, 'maximum_clique': C.maximum_clique}
EXACT_IS = {'is_branch_and_bound': I.branch_and_bound, 'maximum_independent_set': I.maximum_independent_set}
HEUR_IS = {'is_greedy': I.greedy, 'culberson': I.culberson}
EXACT_COL = {'col_branch_and_bound': K.branch_and_bound, 'korman': K.korman, 'exact_coloring': K.exact_coloring}
HEUR_COL = {'dsatur': K.dsatur, 'greedy_sequential': K.greedy_sequential, 'maxis': K.maxis}

WEIGHTED_OPS = ([(k, 2) for k in ENUM] + [(k, 2.5) for k in EXACT_CLIQUE] + [('maximum_weight_clique', 3)] +
                [(k, 3) for k in EXACT_IS] + [('maximal_independent_sets', 2)] + [(k, 2.5) for k in HEUR_IS] +
                [(k, 3) for k in EXACT_COL] + [('dsatur', 2), ('greedy_sequential', 3), ('maxis', 4)])


BIG = (('gnp', 6), ('planted', 2), ('multipartite', 1), ('grid', 1), ('cliquechain', 1), ('crown', 1), ('wheel', 1),
       ('connected', 2), ('mycielski', 1))
SETS = set(ENUM) | set(EXACT_CLIQUE) | set(EXACT_IS) | {'maximal_independent_sets', 'maximum_weight_clique'}


def few_cliques(spec, of_graph, limit=1500):
    """Has the graph (or its complement) few cliques, so that plain enumerations are quick?"""
    n = spec['n']
    mask = [0] * n
    for e in spec['edges']:
        mask[e[0]] |= 1 << e[1]
        mask[e[1]] |= 1 << e[0]
    if not of_graph:
        mask = G.complement_masks(mask, n)
    left = [limit]

    def rec(p):
        left[0] -= 1
        while p and left[0] > 0:
            low = p & -p
            p ^= low
            rec(p & mask[low.bit_length() - 1])
    rec((1 << n) - 1)
    return left[0] > 0


def gen_op(rng):
    kind = rng.weighted(WEIGHTED_OPS)
    hi = rng.pick((5, 9, 13))
    if kind in EXACT_COL:
        hi = rng.pick((5, 7, 9))
    elif kind == 'culberson' or kind == 'maxis':
        hi = rng.pick((3, 5, 6))
    g = G.gen_graph(rng, 1, hi)
    if kind in EXACT_COL and rng.chance(0.12):      # more colors than the largest clique
        g = G.gen_graph(rng, 10, 12, (('mycielski', 2), ('gnp', 1), ('cycle', 1), ('planted', 1)))
    if kind in SETS and rng.chance(0.05):
        for _ in range(6):
            big = G.gen_graph(rng, 14, 20, BIG)
            if few_cliques(big, kind in ENUM or kind in EXACT_CLIQUE or kind == 'maximum_weight_clique'):
                g = big
                break
    if kind in ('dsatur', 'greedy_sequential', 'is_greedy') and rng.chance(0.08):
        g = G.gen_graph(rng, 14, 40)
    if kind in ('culberson', 'maxis') and rng.chance(0.1):      # other limits apply from ten vertices on
        for _ in range(6):
            big = G.gen_graph(rng, 10, 13, BIG)
            if len(big['edges']) * 4 >= big['n'] * (big['n'] - 1):
                g = big
                break
    op = {'op': kind, 'g': g, 'rs': {'pol': 'uniform', 'seed': 0}}
    n = op['g']['n']
    if kind == 'is_greedy' or kind == 'maxis':
        op['rs'] = simrandom.gen_policy(rng, 0.6, 40)
    if kind in EXACT_COL or kind in HEUR_COL:
        op['classes'] = rng.chance(0.6)
    if kind == 'greedy_sequential':
        if rng.chance(0.5):
            op['order'] = rng.shuffled(list(range(n)))
        if rng.chance(0.4):
            op['passes'] = rng.int(1, 3)
    if kind == 'maxis':
        if rng.chance(0.85):
            op['kw'] = {'color_limit': rng.int(0, n), 'mis_limit': rng.int(0, n), 'use_greedy': rng.chance(0.5)}
    if kind == 'maximum_weight_clique':
        op['w'] = [rng.int(1, rng.pick((2, 5, 100))) for _ in range(n)]
    if kind in ('maximum_clique',) and rng.chance(0.5):
        op['alg'] = rng.pick(('ostergard', 'pardalos'))
    if kind == 'maximal_cliques' and rng.chance(0.7):
        op['alg'] = rng.pick(('tomita', 'bron_kerbosch', 'bron_kerbosch_binary'))
    return op


def mask_of(b, verts):
    m = 0
    for v in verts:
        try:
            bit = 1 << b.i(v)
        except (KeyError, TypeError):
            raise Malformed('not a vertex: %r' % (v,))
        if m & bit:
            raise Malformed('vertex repeated: %r' % (verts,))
        m |= bit
    return m


def is_clique(mask, m):
    for v in range(len(mask)):
        if m >> v & 1 and m & ~mask[v] & ~(1 << v):
            return False
    return True


def bits(m):
    return bin(m).count('1')


class C07(Prop):
    ID = 'C07'
    RUNS = {'quick': 20000, 'thorough': 400000}
    RULE = ('A run is a history of 3-8 clique / independent-set / colouring computations in one fresh process on '
            'graphs whose insertion order, vertex type, hashes and comparison order (hence every set and tie order) '
            'the plan decides, with adversarial draws where the routine draws; non-trivial means simulator-decided '
            'hashes or forced draws were involved.')
    STATE_MEASURE = 'distinct (routine, graph shape, vertex type, order of the graph, draw policy, optimum) tuples'
    REAL = ['all clique enumerations and maximum-clique searches, independent-set searches, colourings, Graph']
    STUB = ['the random module', 'vertex hash and order (simulator-decided vertex class in part of the runs)']
    ASSUMPTIONS = ['graphs are simple with at least one vertex; clique weights are positive']

    def gen(self, rng, index):
        return {'ops': [gen_op(rng) for _ in range(rng.int(3, 8))]}

    def execute(self, plan, ctx):
        for op in plan['ops']:
            self.one(op, G.Built(op['g']), ctx)

    def call(self, op, b):
        name, g = op['op'], b.graph
        kw = {'classes': op['classes']} if 'classes' in op else {}
        if 'alg' in op:
            kw['algorithm'] = op['alg']
        if name in ENUM:
            return list(ENUM[name](g, **kw))
        if name == 'maximal_independent_sets':
            return list(I.maximal_independent_sets(g))
        if name == 'maximum_weight_clique':
            return C.maximum_weight_clique(g, {b.lab[i]: w for i, w in enumerate(op['w'])})
        if name == 'greedy_sequential':
            if 'order' in op:
                kw['vertices'] = [b.lab[i] for i in op['order']]
            if 'passes' in op:
                kw['passes'] = op['passes']
        if name == 'maxis':
            kw.update(op.get('kw', {}))
        for table in (EXACT_CLIQUE, EXACT_IS, HEUR_IS, EXACT_COL, HEUR_COL):
            if name in table:
                return table[name](g, **kw)

    def one(self, op, b, ctx):
        src = simrandom.SOURCE
        src.reset(op['rs'])
        name = op['op']
        st, got = guarded(self.call, op, b)
        ctx.count(name)
        ctx.steps += src.draws + b.n
        if src.forced:
            ctx.fault('draw:' + op['rs']['pol'], src.forced)
        if op['g']['vt'] in ('obj', 'clash', 'str', 'tuple'):
            ctx.fault('hash-and-order:' + op['g']['vt'])
        ctx.event(name, b.text(), {k: v for k, v in op.items() if k not in ('g', 'rs', 'op')}, st,
                  exc_text(got) if st == 'exc' else repr(got), src.draws)
        where = lambda: ' %r on %s' % ({k: v for k, v in op.items() if k not in ('g', 'rs')}, b.text()[:1000])
        if st == 'hang':
            return ctx.violate('no-termination', name, name + where())
        if st == 'exc':
            return ctx.violate('exception', name, exc_text(got) + where())
        try:
            err, opt = self.judge(op, b, got)
        except (Malformed, TypeError, ValueError, KeyError, IndexError, AttributeError) as e:
            err, opt = 'malformed result: %r; returned %r' % (e, got), None
        ctx.state(name, op['g']['shape'], op['g']['vt'], b.n, op['rs']['pol'], opt)
        if err:
            ctx.violate('wrong', name, err + where())

    def judge(self, op, b, got):
        name = op['op']
        n = b.n
        if name in ENUM or name == 'maximal_independent_sets':
            mask = b.mask if name in ENUM else G.complement_masks(b.mask, n)
            out = [mask_of(b, c) for c in got]
            want = G.cliques(mask, n)
            if len(set(out)) != len(out):
                return 'set produced twice: %r' % (got,), None
            if set(out) != set(want):
                return 'produced %d sets, expected %d; wrong %r missing %r' % (
                    len(out), len(want), sorted(set(out) - set(want))[:3], sorted(set(want) - set(out))[:3]), None
            return None, len(want)
        if name == 'maximum_weight_clique':
            weight, verts = got
            m = mask_of(b, verts)
            w = lambda m: sum(op['w'][i] for i in range(n) if m >> i & 1)
            if not is_clique(b.mask, m):
                return 'not a clique: %r' % (verts,), None
            if w(m) != weight:
                return 'reported weight %r, vertices weigh %r' % (weight, w(m)), None
            best = max(w(c) for c in G.cliques(b.mask, n))
            return (None if weight == best else 'weight %r, maximum is %r' % (weight, best)), best
        if name in EXACT_CLIQUE or name in EXACT_IS or name in HEUR_IS:
            mask = b.mask if name in EXACT_CLIQUE else G.complement_masks(b.mask, n)
            size, verts = got
            m = mask_of(b, verts)
            if not is_clique(mask, m):
                return 'not a clique/independent set: %r' % (verts,), None
            if bits(m) != size:
                return 'reported size %r, set has %d' % (size, bits(m)), None
            if name in HEUR_IS:
                for v in range(n):
                    if not m >> v & 1 and m & ~mask[v] == 0:
                        return 'independent set %r is not maximal: %r can be added' % (verts, b.lab[v]), None
                return None, size
            best = max(bits(c) for c in G.cliques(mask, n))
            return (None if size == best else 'size %r, maximum is %r' % (size, best)), best
        num, col = got
        if op.get('classes', True):
            color = {}
            for k, cls in enumerate(col):
                if not cls:
                    return 'empty colour class in %r' % (col,), None
                for v in cls:
                    v = b.i(v)
                    if v in color:
                        return 'vertex %r coloured twice' % (b.lab[v],), None
                    color[v] = k
            if len(col) != num:
                return 'reported %r colours, %d classes' % (num, len(col)), None
        else:
            color = {b.i(v): c for v, c in col.items()}
            if len(set(color.values())) != num:
                return 'reported %r colours, %d used' % (num, len(set(color.values()))), None
        if set(color) != set(range(n)):
            return 'not every vertex is coloured: %r' % (col,), None
        for i, j, _ in b.edges():
            if color[i] == color[j]:
                return 'adjacent vertices %r, %r share a colour' % (b.lab[i], b.lab[j]), None
        if name in EXACT_COL:
            chi = G.chromatic_number(b.mask, n)
            return (None if num == chi else '%r colours, the chromatic number is %r' % (num, chi)), chi
        if name in ('dsatur', 'greedy_sequential') and num > 1 + max(len(a) for a in b.adj):
            return '%r colours, more than the maximum degree + 1' % (num,), None
        return None, num

    def shrink_more(self, plan):
        for i, op in enumerate(plan['ops']):
            def put(new):
                ops = list(plan['ops'])
                ops[i] = new
                return dict(plan, ops=ops)
            if op['rs'].get('pol') != 'uniform':
                yield put(dict(op, rs={'pol': 'uniform', 'seed': 0}))
            for v in range(op['g']['n'] - 1, -1, -1):
                if op['g']['n'] > 1:
                    new = dict(op, g=G.drop_vertex(op['g'], v))
                    if 'order' in op:
                        new['order'] = [x if x < v else x - 1 for x in op['order'] if x != v]
                    if 'w' in op:
                        new['w'] = op['w'][:v] + op['w'][v + 1:]
                    yield put(new)
            for g in G.simpler(op['g']):
                yield put(dict(op, g=g))


PROP = C07()
