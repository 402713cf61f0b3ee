"""C05: spanning trees and Steiner trees whatever the draws, orders and ties."""
from dsim import graphs as G, simrandom
from dsim.engine import Prop, guarded, exc_text, Malformed

import rosemary.graphs.algorithms.spanning_trees as S
import rosemary.graphs.algorithms.steiner_trees as T

MSTW = ('small', 'small', 'equal', 'zero', 'distinct', 'float', 'neg', 'frac', 'wide', 'none', 'trap')
STW = ('small', 'small', 'equal', 'zero', 'zero', 'distinct', 'float', 'wide', 'none', 'trap', 'trap')


def gen_op(rng):
    kind = rng.weighted([('prim', 2), ('kruskal', 3), ('cheriton_tarjan', 5), ('gabow', 4), ('distance_network', 3),
                         ('minimum_cost_paths', 4)])
    op = {'op': kind, 'rs': simrandom.gen_policy(rng, 0.6, 60)}
    if kind == 'gabow':
        while True:
            op['g'] = G.gen_graph(rng, 1, 6, G.CONNECTED, MSTW)
            if len(op['g']['edges']) <= 10:
                break
        if rng.chance(0.35):
            op['k'] = rng.int(1, 12)
        if rng.chance(0.15):
            op['g'] = G.gen_graph(rng, 7, 14, G.CONNECTED, MSTW)
            op['k'] = rng.int(1, 25)
    elif kind in ('distance_network', 'minimum_cost_paths'):
        if rng.chance(0.3):      # larger, with weights close to each other: detours tie, tree vertices have shortcuts
            op['g'] = G.gen_graph(rng, 9, 14, (('connected', 1),), ('small', 'distinct'))
        else:
            op['g'] = G.gen_graph(rng, 2, 10, G.CONNECTED, STW)
        n = op['g']['n']
        op['terminals'] = rng.sample(list(range(n)), rng.int(2, min(n, 6)))
    else:
        op['g'] = G.gen_graph(rng, 1, rng.pick((6, 12, 20)) if rng.chance(0.95) else 60,
                              G.CONNECTED if rng.chance(0.75) else G.SHAPES, MSTW)
        if kind == 'prim':
            if rng.chance(0.5):
                op['root'] = rng.below(op['g']['n'])
            op['edge_list'] = rng.chance(0.6)
    return op


def edge_pairs(b, edges):
    out = []
    for e in edges:
        if len(e) != 2:
            raise Malformed('not an edge: %r' % (e,))
        try:
            i, j = b.i(e[0]), b.i(e[1])
        except (KeyError, TypeError):
            raise Malformed('unknown vertex in %r' % (e,))
        if j not in b.adj[i]:
            raise Malformed('%r is not an edge of the graph' % (e,))
        out.append((min(i, j), max(i, j)))
    if len(set(out)) != len(out):
        raise Malformed('edge listed twice: %r' % (edges,))
    return out


def spanning(b, total, pairs, size=None):
    """Is it a spanning tree (a forest of `size` edges) of the graph with that weight?"""
    if len(pairs) != (b.n - 1 if size is None else size) or not G.is_forest(b.n, pairs):
        return 'not a spanning tree: %r' % (sorted(pairs),)
    w = sum(b.adj[i][j] for i, j in pairs)
    if w != total:
        return 'reported weight %r, the listed edges weigh %r' % (total, w)
    return None


class C05(Prop):
    ID = 'C05'
    RUNS = {'quick': 36000, 'thorough': 600000}
    RULE = ('A run is a history of 2-7 tree computations in one fresh process; draws, insertion '
            'order, edge orientation, vertex type, vertex hashes, comparison order and weight ties are decided by the '
            'plan; non-trivial means a draw was forced by the fault policy or the graph has tied weights or colliding '
            'or simulator-decided hashes.')
    STATE_MEASURE = 'distinct (routine, graph shape, weight kind, vertex type, draw policy) tuples'
    REAL = ['prim, kruskal, cheriton_tarjan, gabow, Steiner heuristics, dijkstra, UnionFind, LeftistHeap, Graph']
    STUB = ['the random module', 'vertex hash and order (simulator-decided vertex class in part of the runs)']
    ASSUMPTIONS = ['graphs are simple, and connected for ranked trees and Steiner trees; weights are exact numbers (ints, fractions, dyadic floats)',
                   'Steiner instances have non-negative weights and at least two distinct terminals']

    def gen(self, rng, index):
        return {'ops': [gen_op(rng) for _ in range(rng.int(2, 7))]}

    def execute(self, plan, ctx):
        for op in plan['ops']:
            b = G.Built(op['g'])
            if not b.connected() and op['op'] not in ('prim', 'kruskal', 'cheriton_tarjan'):
                continue
            self.one(op, b, ctx)

    def one(self, op, b, ctx):
        src = simrandom.SOURCE
        src.reset(op['rs'])
        name = op['op']
        g = b.graph
        if name == 'prim':
            kw = {'edge_list': op['edge_list']}
            if op.get('root') is not None:
                kw['root'] = b.lab[op['root']]
            st, got = guarded(S.prim, g, **kw)
        elif name == 'kruskal':
            st, got = guarded(S.kruskal, g)
        elif name == 'cheriton_tarjan':
            st, got = guarded(S.cheriton_tarjan, g)
        elif name == 'gabow':
            args = (g,) if op.get('k') is None else (g, op['k'])
            st, got = guarded(lambda: list(S.gabow(*args)))
        else:
            fn = T.distance_network_heuristic if name == 'distance_network' else T.minimum_cost_paths_heuristic
            terms = [b.lab[t] for t in op['terminals']]
            st, got = guarded(fn, g, terms)
        ctx.count(name)
        ctx.steps += src.draws + len(op['g']['edges'])
        if src.forced:
            ctx.fault('draw:' + op['rs']['pol'], src.forced)
        if op['g']['vt'] in ('obj', 'clash'):
            ctx.fault('hash-and-order:' + op['g']['vt'])
        if op['g']['wk'] in ('small', 'equal', 'zero', 'none', 'neg', 'trap'):
            ctx.fault('ties')
        ctx.event(name, b.text(), op.get('terminals'), st, exc_text(got) if st == 'exc' else repr(got), src.draws)
        ctx.state(name, op['g']['shape'], op['g']['wk'], op['g']['vt'], op['rs']['pol'])
        where = lambda: ' on ' + b.text()[:1200] + (' terminals %r' % (op['terminals'],) if 'terminals' in op else '')
        if st == 'hang':
            return ctx.violate('no-termination', name, name + where())
        if st == 'exc':
            return ctx.violate('exception', name, exc_text(got) + where())
        try:
            err = self.judge(op, b, got, ctx)
        except (Malformed, TypeError, ValueError, KeyError, IndexError) as e:
            err = ('malformed', '%s; returned %r' % (e, got))
        if err:
            ctx.violate(err[0], name, (err[1] + where()))

    def judge(self, op, b, got, ctx):
        name = op['op']
        if name in ('prim', 'kruskal', 'cheriton_tarjan'):
            total, edges = got
            if name == 'prim' and not op['edge_list']:
                if set(edges) != set(b.lab):
                    return 'not-a-tree', 'parent map does not cover the vertices: %r' % (edges,)
                if op.get('root') is not None and edges[b.lab[op['root']]] is not None:
                    return 'not-a-tree', 'the root has a parent: %r' % (edges,)
                edges = [(u, v) for u, v in edges.items() if v is not None]
            pairs = edge_pairs(b, edges)
            parts = G.components(b.adj)
            size = b.n - len(parts)
            part_of = b.edges()
            if name == 'prim' and len(parts) > 1:     # only the component containing the root
                ctx.probe('disconnected')
                start = pairs[0][0] if pairs else op.get('root')
                if op.get('root') is not None:
                    start = op['root']
                mine = [c for c in parts if start in c] if start is not None else [c for c in parts if len(c) == 1]
                if not mine:
                    return 'not-a-tree', 'an empty tree, but every vertex has a neighbor'
                size = len(mine[0]) - 1
                part_of = [e for e in part_of if e[0] in mine[0]]
                if any(i not in mine[0] for i, _ in pairs):
                    return 'not-a-tree', 'edges outside of the component of the root: %r' % (edges,)
            elif len(parts) > 1:
                ctx.probe('disconnected')
            err = spanning(b, total, pairs, size)
            if err:
                return 'not-a-tree', err
            want = G.mst_weight(b.n, part_of)
            if total != want:
                return 'not-minimum', 'weight %r, the minimum is %r' % (total, want)
        elif name == 'gabow':
            k = op.get('k')
            if k is not None and b.n > 6:
                want = G.best_spanning_weights(b.n, b.edges(), k)
            else:
                weights = G.all_spanning_weights(b.n, b.edges())
                want = weights if k is None else weights[:k]
            seen = set()
            for total, edges in got:
                pairs = edge_pairs(b, edges)
                err = spanning(b, total, pairs)
                if err:
                    return 'not-a-tree', err
                key = frozenset(pairs)
                if key in seen:
                    return 'duplicate', 'tree %r produced twice' % (sorted(pairs),)
                seen.add(key)
            if [t for t, _ in got] != want:
                return 'wrong-ranking', 'weights %r, expected %r' % ([t for t, _ in got], want)
            ctx.probe('trees-ranked', len(got))
        else:
            total, edges = got
            pairs = edge_pairs(b, edges)
            verts = {x for p in pairs for x in p}
            if not G.is_forest(b.n, pairs) or len(verts) != len(pairs) + 1:
                return 'not-a-tree', 'not a tree: %r' % (edges,)
            if not set(op['terminals']) <= verts:
                return 'not-spanning', 'terminals missing from %r' % (edges,)
            w = sum(b.adj[i][j] for i, j in pairs)
            if w != total:
                return 'weight-mismatch', 'reported %r, edges weigh %r' % (total, w)
            opt = G.steiner_opt(b.adj, op['terminals'])
            l = len(op['terminals'])
            if total < opt or total * l > 2 * (l - 1) * opt:
                return 'bound', 'weight %r, optimum %r, outside [1, 2(1-1/%d)]' % (total, opt, l)
            ctx.probe('steiner-optimal' if total == opt else 'steiner-above-optimum')
        return None

    def shrink_more(self, plan):
        for i, op in enumerate(plan['ops']):
            def put(new):
                ops = list(plan['ops'])
                ops[i] = new
                return dict(plan, ops=ops)
            if op['rs'].get('pol') != 'uniform':
                yield put(dict(op, rs={'pol': 'uniform', 'seed': 0}))
            for v in range(op['g']['n'] - 1, -1, -1):
                if op['g']['n'] > 1 and v not in op.get('terminals', ()) and op.get('root', -1) <= v != op.get('root'):
                    g = G.drop_vertex(op['g'], v)
                    new = dict(op, g=g)
                    if 'terminals' in op:
                        new['terminals'] = [t if t < v else t - 1 for t in op['terminals']]
                    yield put(new)
            if len(op.get('terminals', ())) > 2:
                for t in op['terminals']:
                    yield put(dict(op, terminals=[x for x in op['terminals'] if x != t]))
            for g in G.simpler(op['g']):
                yield put(dict(op, g=g))


PROP = C05()
