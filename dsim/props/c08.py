"""C08: shortest paths, traversals and components whatever the order of the graph."""
from dsim import graphs as G
from dsim.engine import Prop, guarded, exc_text, Malformed

import rosemary.graphs.algorithms.paths as P
import rosemary.graphs.algorithms.traversal as V
import rosemary.graphs.algorithms.connectivity as K

INTW = ('small', 'zero', 'equal', 'distinct', 'wide', 'none', 'trap', 'trap')
ANYW = INTW + ('float', 'frac')
SMALLW = ('small', 'zero', 'equal', 'distinct', 'none', 'trap')


def gen_op(rng):
    kind = rng.weighted([('dijkstra', 3), ('dijkstra_iterator', 2), ('dijkstra_buckets', 3), ('pairing', 4),
                         ('bellman_ford', 3), ('bidirectional', 5), ('floyd_warshall', 3), ('bfs', 2), ('bfs_tree', 2),
                         ('dfs', 2), ('dfs_tree', 2), ('components', 2), ('component', 1), ('is_connected', 2)])
    w = SMALLW if kind == 'dijkstra_buckets' else ANYW
    hi = 8 if kind == 'floyd_warshall' else rng.pick((6, 10, 24))
    if rng.chance(0.04):
        hi = 14 if kind == 'floyd_warshall' else rng.pick((60, 60, 150))
    shapes = G.SHAPES if rng.chance(0.6) else G.CONNECTED
    op = {'op': kind, 'g': G.gen_graph(rng, 1, hi, shapes, w)}
    op['s'] = rng.below(op['g']['n'])
    if kind in ('bellman_ford', 'floyd_warshall'):
        if rng.chance(0.12):
            op['g'] = G.gen_graph(rng, 1, hi, shapes, ('somenegative',))
            op['s'] = rng.below(op['g']['n'])
        elif rng.chance(0.08):
            op['g'] = G.gen_staircase(rng, 3, 10 if kind == 'bellman_ford' else 7)
            op['s'] = rng.pick((0, 0, op['g']['n'] - 1))
    n = op['g']['n']
    if kind == 'bidirectional':
        op['t'] = rng.below(n)
    if kind in ('bfs', 'dfs') and rng.chance(0.5):
        op['depth'] = rng.int(0, 4)
    return op


def tree_check(b, s, dist, prev, want, weighted=True):
    """prev maps vertices to predecessors on shortest paths from s."""
    for v in range(b.n):
        p = prev.get(b.lab[v])
        if v == s or v not in want:
            if p is not None:
                return 'vertex %r has predecessor %r' % (b.lab[v], p)
            continue
        if p is None:
            return 'vertex %r is reachable but has no predecessor' % (b.lab[v],)
        p = b.i(p)
        if v not in b.adj[p]:
            return 'predecessor %r of %r is not a neighbour' % (b.lab[p], b.lab[v])
        if weighted and want[p] + b.adj[p][v] != want[v]:
            return 'predecessor %r of %r is not on a shortest path' % (b.lab[p], b.lab[v])
    for v in want:
        u, k = v, 0
        while u != s:
            u = b.i(prev[b.lab[u]])
            k += 1
            if k > b.n:
                return 'predecessors of %r form a cycle: %r' % (b.lab[v], prev)
    for x in prev:
        b.i(x)
    return None


def path_check(b, path, s, t, length):
    idx = [b.i(v) for v in path]
    if not idx or idx[0] != s or idx[-1] != t:
        return 'path %r does not lead from %r to %r' % (path, b.lab[s], b.lab[t])
    total = 0
    for u, v in zip(idx, idx[1:]):
        if v not in b.adj[u]:
            return 'path %r uses a missing edge' % (path,)
        total += b.adj[u][v]
    if total != length:
        return 'path %r has length %r, reported %r' % (path, total, length)
    return None


def dist_check(b, dist, want):
    if set(dist) != set(b.lab):
        return 'distances do not cover the vertices: %r' % (dist,)
    for v in range(b.n):
        if dist[b.lab[v]] != want.get(v, G.INF):
            return 'distance of %r is %r, expected %r' % (b.lab[v], dist[b.lab[v]], want.get(v, G.INF))
    return None


class C08(Prop):
    ID = 'C08'
    RUNS = {'quick': 36000, 'thorough': 600000}
    RULE = ('A run is a history of 3-9 path/traversal/component computations in one fresh process on graphs whose '
            'insertion order, edge orientation, vertex type, vertex hashes, comparison order and ties the plan '
            'decides; non-trivial means tied weights or simulator-decided hashes were present.')
    STATE_MEASURE = 'distinct (routine, graph shape, weight kind, vertex type, connected?) tuples'
    REAL = ['dijkstra, dijkstra_iterator, dijkstra_buckets, dijkstra_pairing_heap, bellman_ford, '
            'dijkstra_bidirectional, floyd_warshall, BFS/DFS orders and trees, components, PairingHeap, Graph']
    STUB = ['vertex hash and order (simulator-decided vertex class in part of the runs)']
    ASSUMPTIONS = ['weights are exact numbers (integers for the bucket variant), non-negative except for '
                   'bellman_ford and floyd_warshall, which must report negative cycles']

    def gen(self, rng, index):
        return {'ops': [gen_op(rng) for _ in range(rng.int(3, 9))]}

    def execute(self, plan, ctx):
        for op in plan['ops']:
            self.one(op, G.Built(op['g']), ctx)

    def call(self, op, b):
        name, g, s = op['op'], b.graph, b.lab[op['s']]
        if name == 'dijkstra':
            return P.dijkstra(g, s)
        if name == 'dijkstra_iterator':
            return list(P.dijkstra_iterator(g, s))
        if name == 'dijkstra_buckets':
            return P.dijkstra_buckets(g, s)
        if name == 'pairing':
            return P.dijkstra_pairing_heap(g, s)
        if name == 'bellman_ford':
            return P.bellman_ford(g, s)
        if name == 'bidirectional':
            return P.dijkstra_bidirectional(g, s, b.lab[op['t']])
        if name == 'floyd_warshall':
            return P.floyd_warshall(g)
        if name in ('bfs', 'dfs'):
            fn = V.breadth_first_search if name == 'bfs' else V.depth_first_search
            kw = {'max_depth': op['depth']} if op.get('depth') is not None else {}
            return list(fn(g, s, **kw))
        if name == 'bfs_tree':
            return V.breadth_first_search_tree(g, s)
        if name == 'dfs_tree':
            return V.depth_first_search_tree(g, s)
        if name == 'components':
            return K.connected_components(g)
        if name == 'component':
            return K.connected_component(g, s)
        return K.is_connected(g)

    def one(self, op, b, ctx):
        name = op['op']
        st, got = guarded(self.call, op, b)
        ctx.count(name)
        ctx.steps += b.n + len(op['g']['edges'])
        if op['g']['vt'] in ('obj', 'clash'):
            ctx.fault('hash-and-order:' + op['g']['vt'])
        if op['g']['wk'] in ('small', 'equal', 'zero', 'none', 'trap'):
            ctx.fault('ties')
        ctx.event(name, b.text(), op['s'], op.get('t'), st, exc_text(got) if st == 'exc' else repr(got))
        ctx.state(name, op['g']['shape'], op['g']['wk'], op['g']['vt'], b.connected())
        where = lambda: ' s=%r t=%r on %s' % (b.lab[op['s']], b.lab[op['t']] if 't' in op else None, b.text()[:1200])
        if st == 'hang':
            return ctx.violate('no-termination', name, name + where())
        if self.negative(op, b):
            ctx.probe('negative-cycle')
            if st != 'exc' or type(got) is not ValueError:
                ctx.violate('negative-cycle-missed', name, '%s although there is a negative cycle%s' % (
                    exc_text(got) if st == 'exc' else 'returned %r' % (got,), where()))
            return
        if st == 'exc':
            return ctx.violate('exception', name, exc_text(got) + where())
        try:
            err = self.judge(op, b, got, ctx)
        except (Malformed, TypeError, ValueError, KeyError, IndexError, AttributeError) as e:
            err = 'malformed result: %r; returned %r' % (e, got)
        if err:
            ctx.violate('wrong', name, err + where())

    def negative(self, op, b):
        """An undirected edge of negative weight is a negative cycle; does the routine meet one?"""
        if op['g']['wk'] != 'somenegative':
            return False
        reach = G.component(b.adj, op['s']) if op['op'] == 'bellman_ford' else range(b.n)
        return any(b.adj[u][v] < 0 for u in reach for v in b.adj[u])

    def judge(self, op, b, got, ctx):
        name, s = op['op'], op['s']
        if name in ('dijkstra', 'dijkstra_buckets', 'pairing', 'bellman_ford'):
            want = G.distances(b.adj, s)
            dist, prev = got
            return dist_check(b, dist, want) or tree_check(b, s, dist, prev, want)
        if name == 'dijkstra_iterator':
            want = G.distances(b.adj, s)
            last = 0
            seen = set()
            for v, d, path in got:
                i = b.i(v)
                if i in seen:
                    return 'vertex %r produced twice' % (v,)
                seen.add(i)
                if d < last:
                    return 'distances not in non-decreasing order'
                last = d
                if want.get(i) != d:
                    return 'distance of %r is %r, expected %r' % (v, d, want.get(i))
                err = path_check(b, path, s, i, d)
                if err:
                    return err
            return None if seen == set(want) else 'vertices missing: %r' % (set(want) - seen,)
        if name == 'bidirectional':
            want = G.distances(b.adj, s).get(op['t'])
            if want is None:
                ctx.probe('bidirectional-unreachable')
                d = got[0] if isinstance(got, tuple) else got
                return None if d == G.INF else 'returned %r for an unreachable vertex' % (got,)
            d, path = got
            if d != want:
                return 'distance %r, expected %r' % (d, want)
            return path_check(b, path, s, op['t'], d)
        if name == 'floyd_warshall':
            dist, pred = got
            for u in range(b.n):
                want = G.distances(b.adj, u)
                for v in range(b.n):
                    d = dist[b.lab[u], b.lab[v]]
                    if d != want.get(v, G.INF):
                        return 'distance %r-%r is %r, expected %r' % (b.lab[u], b.lab[v], d, want.get(v, G.INF))
                    p = pred[b.lab[u], b.lab[v]]
                    if u == v or v not in want:
                        if u != v and p is not None:
                            return 'predecessor %r for unreachable pair' % (p,)
                        continue
                    k, x = 0, v
                    while x != u:
                        p = b.i(pred[b.lab[u], b.lab[x]])
                        if want[p] + b.adj[p][x] != want[x]:
                            return 'predecessor %r of %r from %r is not on a shortest path' % (p, x, u)
                        x = p
                        k += 1
                        if k > b.n:
                            return 'predecessors form a cycle'
            return None
        if name in ('bfs', 'dfs'):
            idx = [b.i(v) for v in got]
            want = G.hops(b.adj, s)
            depth = op.get('depth')
            if len(set(idx)) != len(idx):
                return 'vertex visited twice: %r' % (got,)
            if not idx or idx[0] != s:
                return 'search does not begin at the start: %r' % (got,)
            allowed = {v for v, d in want.items() if depth is None or d <= depth}
            if name == 'bfs' or depth is None:
                if set(idx) != allowed:
                    return 'visited %r, expected the set %r' % (idx, sorted(allowed))
            elif not set(idx) <= allowed:
                return 'visited vertices beyond the depth limit: %r' % (idx,)
            if name == 'bfs':
                ds = [want[v] for v in idx]
                return None if ds == sorted(ds) else 'not in breadth-first order: %r' % (got,)
            return self.dfs_order(b, idx, depth)
        if name == 'bfs_tree':
            want = G.hops(b.adj, s)
            if {b.i(v) for v in got} != set(want):
                return 'tree covers %r' % (got,)
            for v, p in got.items():
                v = b.i(v)
                if v == s:
                    if p is not None:
                        return 'the root has a parent'
                elif b.i(p) not in b.adj[v] or want[b.i(p)] + 1 != want[v]:
                    return 'parent %r of %r is not one level up' % (p, v)
            return None
        if name == 'dfs_tree':
            reach = G.component(b.adj, s)
            if {b.i(v) for v in got} != reach:
                return 'tree covers %r' % (got,)
            par = {}
            for v, p in got.items():
                v = b.i(v)
                if v == s:
                    if p is not None:
                        return 'the root has a parent'
                    continue
                par[v] = b.i(p)
                if par[v] not in b.adj[v]:
                    return 'parent %r of %r is not a neighbour' % (p, v)
            anc = {}
            for v in reach:
                chain, u = set(), v
                while u != s:
                    chain.add(u)
                    u = par[u]
                    if u in chain:
                        return 'parents form a cycle'
                anc[v] = chain | {s}
            for u in reach:
                for v in b.adj[u]:
                    if u not in anc[v] and v not in anc[u]:
                        return 'edge %r-%r joins two branches of the depth-first tree' % (b.lab[u], b.lab[v])
            return None
        if name == 'components':
            parts = [frozenset(b.i(v) for v in c) for c in got]
            if any(len(p) != len(c) for p, c in zip(parts, got)):
                return 'vertex repeated in %r' % (got,)
            want = {frozenset(G.component(b.adj, v)) for v in range(b.n)}
            return None if set(parts) == want and len(parts) == len(want) else 'components %r' % (got,)
        if name == 'component':
            idx = [b.i(v) for v in got]
            ok = set(idx) == G.component(b.adj, s) and len(set(idx)) == len(idx)
            return None if ok else 'component %r' % (got,)
        return None if got is b.connected() or got == b.connected() else 'is_connected returned %r' % (got,)

    def dfs_order(self, b, idx, limit=None):
        """The deepest visited vertex that may still be left for a new one (is not at the limit) is left for it."""
        seen, stack = set(), []

        def close():
            while stack and (limit is not None and len(stack) > limit or not set(b.adj[stack[-1]]) - seen):
                stack.pop()
        for v in idx:
            close()
            if seen and (not stack or v not in b.adj[stack[-1]]):
                return 'not a depth-first order: %r' % (idx,)
            seen.add(v)
            stack.append(v)
        close()
        if stack:
            return 'search stopped early: %r' % (idx,)
        return None

    def shrink_more(self, plan):
        for i, op in enumerate(plan['ops']):
            def put(new):
                ops = list(plan['ops'])
                ops[i] = new
                return dict(plan, ops=ops)
            used = [op['s']] + ([op['t']] if 't' in op else [])
            for v in range(op['g']['n'] - 1, -1, -1):
                if op['g']['n'] > 1 and v not in used:
                    new = dict(op, g=G.drop_vertex(op['g'], v), s=op['s'] - (op['s'] > v))
                    if 't' in op:
                        new['t'] = op['t'] - (op['t'] > v)
                    yield put(new)
            for g in G.simpler(op['g']):
                yield put(dict(op, g=g))


PROP = C08()
