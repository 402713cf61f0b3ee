"""C14: the Graph object against a model over random operation histories on several graphs."""
from dsim import graphs as G, simrandom
from dsim.engine import Prop, guarded, exc_text, Violation

from rosemary.graphs.graphs import Graph, random_graph

SLOTS = 3
FORMS2 = ('args', 'pair')
FORMS3 = ('args', 'kw', 'triple')


def gen_ops(rng, n, steps, big=False):
    ops = []
    add = rng.pick((0.6, 0.75, 0.9) if big else (0.45, 0.6, 0.75))
    v = lambda: rng.below(n)
    for _ in range(steps):
        g = rng.pick((0, 0, 0, 1, 2))
        r = rng.random()
        if r < add * 0.55:
            a, b = v(), v()
            if a == b:
                continue
            if rng.chance(0.5):
                ops.append(['add_edge', g, a, b, rng.int(0, 9), rng.pick(FORMS3)])
            else:
                ops.append(['add_edge', g, a, b, None, rng.pick(FORMS2)])
        elif r < add * 0.7:
            es = []
            for _ in range(rng.int(0, 60 if big and rng.chance(0.2) else 5)):
                a, b = v(), v()
                if a != b:
                    es.append([a, b] + ([rng.int(0, 9)] if rng.chance(0.6) else []))
            ops.append(['add_edges', g, es])
        elif r < add * 0.8:
            ops.append(['add_vertex', g, v()])
        elif r < add * 0.85:
            ops.append(['add_vertices', g, [v() for _ in range(rng.int(0, 4))]])
        else:
            k = rng.weighted([('delete_vertex', 2), ('delete_vertices', 2), ('delete_edge', 4), ('remove_vertex', 1.5),
                              ('remove_vertices', 1.5), ('remove_edge', 2), ('remove_neighborhood', 1),
                              ('remove_closed_neighborhood', 1), ('copy', 3), ('induced', 2), ('complement', 1.5),
                              ('query', 5), ('bad', 2), ('matrix', 1), ('order', 2), ('mutate_result', 1.5)])
            dst = rng.below(SLOTS)
            if k in ('delete_vertex', 'remove_vertex', 'remove_neighborhood', 'remove_closed_neighborhood'):
                ops.append([k, g, v(), dst])
            elif k in ('delete_vertices', 'remove_vertices', 'induced'):
                ops.append([k, g, rng.sample(list(range(n)), rng.int(0, n if k == 'induced' or not big else n // 4)), dst])
            elif k in ('delete_edge', 'remove_edge'):
                a, b = v(), v()
                if a != b:
                    ops.append([k, g, a, b, rng.pick(('args', 'pair', 'triple')), dst])
            elif k in ('copy', 'complement'):
                ops.append([k, g, dst])
            elif k == 'order':
                ops.append([k, g, rng.pick(('degree', 'induced', None)), rng.chance(0.5)])
            elif k == 'bad':
                ops.append([k, g, rng.pick(('degree', 'neighbors', 'getitem', 'delete_edge4', 'remove_edge4',
                                            'add_edges_partial', 'induced_missing'))])
            else:
                ops.append([k, g, v()])
    return ops


class C14(Prop):
    ID = 'C14'
    RUNS = {'quick': 45000, 'thorough': 400000}
    RULE = ('A run is one history of 10-60 (sometimes 120-250, up to 45 vertices) operations on three graphs that are copied, cut and derived from each '
            'other, with failing calls interleaved; after every operation every graph is compared with its model; '
            'non-trivial means the history contains a failing call, a derived graph that shares history, or '
            'simulator-decided hashes.')
    STATE_MEASURE = 'distinct (operation, vertices, edges, vertex type) tuples'
    REAL = ['Graph and its matrices, random_graph']
    STUB = ['the random module', 'vertex hash and order (simulator-decided vertex class in part of the runs)']
    ASSUMPTIONS = ['no self-loops (the class is documented as simple graphs); vertices are mutually comparable']

    def gen(self, rng, index):
        big = rng.chance(0.03)       # histories and graphs beyond any small threshold
        n = rng.int(12, 45) if big else rng.int(1, rng.pick((4, 7, 10)))
        if rng.chance(0.05):
            return {'random': True, 'n': rng.int(20, 70) if rng.chance(0.15) else rng.int(0, 12), 'd': rng.pick((0, 0.3, 0.5, 0.9, 1)),
                    'rs': simrandom.gen_policy(rng, 0.7, 80), 'ops': []}
        return {'n': n, 'vt': rng.pick(G.VT), 'salt': rng.below(10 ** 6),
                'ops': gen_ops(rng, n, rng.pick((120, 250)) if big else rng.pick((10, 25, 60)), big)}

    def execute(self, plan, ctx):
        if plan.get('random'):
            return self.random(plan, ctx)
        st, e = guarded(self.history, plan, ctx)
        if st == 'hang':
            ctx.violate('no-termination', 'history', 'a graph operation did not come back')
        elif st == 'exc':
            if isinstance(e, Violation):
                raise e
            ctx.violate('exception', 'history', exc_text(e) + ' after events ' + ' | '.join(list(ctx.tail)[-3:]))

    def random(self, plan, ctx):
        simrandom.SOURCE.reset(plan['rs'])
        n, d = plan['n'], plan['d']
        st, g = guarded(random_graph, n, d)
        ctx.count('random_graph')
        ctx.fault('draw:' + plan['rs']['pol'], simrandom.SOURCE.forced)
        if st != 'ok':
            return ctx.violate('exception', 'random_graph', exc_text(g) if st == 'exc' else 'no termination')
        m = n * (n - 1) // 2
        ctx.event('random', n, d, g.num_edges())
        ok = g.vertex_set() == set(range(n)) and all(0 <= u < v < n and u in g[v] and v in g[u] for u, v in g.edge_set())
        ok = ok and sum(g.degree(u) for u in g) == 2 * g.num_edges() and (d < 1 or g.num_edges() == m)
        if not ok:
            ctx.violate('wrong', 'random_graph', 'random_graph(%r, %r) is %r' % (n, d, g.graph_dict))
        ctx.state('random', n, d, g.num_edges())

    def history(self, plan, ctx):
        n = plan['n']
        lab = G.labels({'n': n, 'vt': plan['vt'], 'salt': plan['salt']})
        idx = {v: i for i, v in enumerate(lab)}
        if plan['vt'] in ('obj', 'clash'):
            ctx.fault('hash-and-order:' + plan['vt'])
        gs = [Graph() for _ in range(SLOTS)]
        ms = [{} for _ in range(SLOTS)]

        def put(m, a, b, w):
            m.setdefault(a, {})[b] = w
            m.setdefault(b, {})[a] = w

        def cut(m, vs):
            vs = set(vs)
            return {a: {b: w for b, w in nb.items() if b not in vs} for a, nb in m.items() if a not in vs}

        for k, op in enumerate(plan['ops']):
            name, s = op[0], op[1]
            g, m = gs[s], ms[s]
            ctx.count(name)
            ctx.steps += 1
            ctx.event(name, op[1:])
            bad = lambda what: ctx.violate('wrong', name, 'operation %d %r (%s vertices): %s' % (k, op, plan['vt'],
                                                                                                what))
            if name == 'add_edge':
                a, b, w, form = op[2:]
                u, v = lab[a], lab[b]
                if form == 'args':
                    g.add_edge(u, v) if w is None else g.add_edge(u, v, w)
                elif form == 'kw':
                    g.add_edge(u, v, weight=w)
                else:
                    g.add_edge((u, v) if w is None else (u, v, w))
                put(m, a, b, 1 if w is None else w)
            elif name == 'add_edges':
                g.add_edges([tuple([lab[e[0]], lab[e[1]]] + e[2:]) for e in op[2]])
                for e in op[2]:
                    put(m, e[0], e[1], e[2] if len(e) == 3 else 1)
            elif name == 'add_vertex':
                g.add_vertex(lab[op[2]])
                m.setdefault(op[2], {})
            elif name == 'add_vertices':
                g.add_vertices([lab[i] for i in op[2]])
                for i in op[2]:
                    m.setdefault(i, {})
            elif name == 'delete_vertex':
                g.delete_vertex(lab[op[2]])
                ms[s] = cut(m, [op[2]])
            elif name == 'delete_vertices':
                g.delete_vertices([lab[i] for i in op[2]])
                ms[s] = cut(m, op[2])
            elif name in ('delete_edge', 'remove_edge'):
                a, b, form, dst = op[2:]
                u, v = lab[a], lab[b]
                args = (u, v) if form == 'args' else ((u, v),) if form == 'pair' else ((u, v, 5),)
                new = {x: {y: w for y, w in nb.items() if (x, y) not in ((a, b), (b, a))} for x, nb in m.items()}
                if name == 'delete_edge':
                    g.delete_edge(*args)
                    ms[s] = new
                else:
                    gs[dst] = g.remove_edge(*args)
                    ms[dst] = new
                    ctx.fault('derived-graph')
            elif name == 'remove_vertex':
                gs[op[3]] = g.remove_vertex(lab[op[2]])
                ms[op[3]] = cut(m, [op[2]])
                ctx.fault('derived-graph')
            elif name == 'remove_vertices':
                gs[op[3]] = g.remove_vertices([lab[i] for i in op[2]])
                ms[op[3]] = cut(m, op[2])
                ctx.fault('derived-graph')
            elif name in ('remove_neighborhood', 'remove_closed_neighborhood'):
                if op[2] not in m:
                    continue
                gone = set(m[op[2]]) | ({op[2]} if 'closed' in name else set())
                gs[op[3]] = getattr(g, name)(lab[op[2]])
                ms[op[3]] = cut(m, gone)
                ctx.fault('derived-graph')
            elif name == 'copy':
                gs[op[2]] = g.copy()
                ms[op[2]] = {a: dict(nb) for a, nb in m.items()}
                ctx.fault('derived-graph')
            elif name == 'induced':
                keep = [i for i in op[2] if i in m]
                gs[op[3]] = g.induced_subgraph([lab[i] for i in keep])
                ms[op[3]] = {a: {b: w for b, w in m[a].items() if b in keep} for a in keep}
                ctx.fault('derived-graph')
            elif name == 'complement':
                gs[op[2]] = g.complement()
                ms[op[2]] = {a: {b: 1 for b in m if b != a and b not in m[a]} for a in m}
                ctx.fault('derived-graph')
            elif name == 'bad':
                ctx.fault('failing-operation')
                what = op[2]
                calls = {'degree': lambda: g.degree('missing'), 'neighbors': lambda: g.neighbors('missing'),
                         'getitem': lambda: g['missing'],
                         'delete_edge4': lambda: g.delete_edge((lab[0], lab[0], 1, 2)),
                         'remove_edge4': lambda: g.remove_edge((lab[0], lab[0], 1, 2)),
                         'add_edges_partial': lambda: g.add_edges([(lab[0], lab[n - 1], 1, 2, 3)]),
                         'induced_missing': lambda: g.induced_subgraph([lab[0], 'missing'])}
                if guarded(calls[what])[0] != 'exc':
                    bad('a call with an invalid argument did not fail')
            elif name == 'mutate_result':
                # what the graph hands out belongs to the caller
                for got in (g.vertex_set(), g.edge_set(), g.leaves()):
                    got.clear()
                g.vertices().clear()
                g.edges().clear()
                if op[2] in m:
                    g.neighbors(lab[op[2]]).add('stranger')
                    g.closed_neighborhood(lab[op[2]]).clear()
                ctx.fault('caller-mutates-result')
            elif name == 'query':
                self.query(g, m, lab, idx, op[2], bad)
            elif name == 'matrix':
                self.matrix(g, m, lab, idx, bad)
            elif name == 'order':
                self.order(g, m, idx, op[2], op[3], bad)
            for t in range(SLOTS):
                err = self.same(gs[t], ms[t], lab, idx)
                if err:
                    bad('graph %d afterwards: %s' % (t, err))
            ctx.state(name, len(ms[s]), sum(map(len, ms[s].values())) // 2, plan['vt'])

    def same(self, g, m, lab, idx):
        try:
            vs = {idx[v] for v in g.vertex_set()}
            es = {(idx[u], idx[v], w) for u, v, w in g.edge_set(weights=True)}
        except KeyError as e:
            return 'unknown vertex %r' % (e.args,)
        if vs != set(m):
            return 'vertices %r, expected %r' % (sorted(vs), sorted(m))
        want = {(a, b, w) for a in m for b, w in m[a].items() if a < b}
        if {(min(a, b), max(a, b), w) for a, b, w in es} != want or len(es) != len(want):
            return 'edges %r, expected %r' % (sorted(es), sorted(want))
        for a in m:
            row = g[lab[a]]
            if {idx.get(v): w for v, w in row.items()} != m[a]:
                return 'neighbours of %r are %r, expected %r' % (lab[a], row, m[a])
        return None

    def query(self, g, m, lab, idx, v, bad):
        size = len(m)
        edges = sum(map(len, m.values())) // 2
        if g.num_vertices() != size or g.num_edges() != edges:
            bad('counts %r/%r, expected %d/%d' % (g.num_vertices(), g.num_edges(), size, edges))
        if sorted(idx[u] for u in g) != sorted(m):
            bad('iteration does not give the vertices')
        if {idx[u] for u in g.leaves()} != {a for a in m if len(m[a]) == 1}:
            bad('leaves %r' % (g.leaves(),))
        es = g.edges()
        if es != sorted(es) or len(es) != edges:
            bad('edges() %r' % (es,))
        es = g.edges(weights=True)
        if {(min(idx[a], idx[b]), max(idx[a], idx[b]), w) for a, b, w in es} != {
                (a, b, w) for a in m for b, w in m[a].items() if a < b}:
            bad('edges(weights) %r' % (es,))
        if g.total_degree() != 2 * edges:
            bad('total_degree %r' % (g.total_degree(),))
        some = [a for a in sorted(m) if (a + v) % 3]
        if g.total_degree([lab[a] for a in some]) != sum(len(m[a]) for a in some):
            bad('total_degree of %r' % (some,))
        if v in m:
            if g.degree(lab[v]) != len(m[v]):
                bad('degree %r' % (g.degree(lab[v]),))
            if {idx[u] for u in g.neighbors(lab[v])} != set(m[v]) or \
                    {idx[u] for u in g.neighborhood(lab[v])} != set(m[v]):
                bad('neighbors %r' % (g.neighbors(lab[v]),))
            if {idx[u] for u in g.closed_neighborhood(lab[v])} != set(m[v]) | {v}:
                bad('closed_neighborhood %r' % (g.closed_neighborhood(lab[v]),))
        if m:
            degs = [len(nb) for nb in m.values()]
            if g.maximum_degree() != max(degs) or g.minimum_degree() != min(degs):
                bad('extreme degrees %r %r' % (g.maximum_degree(), g.minimum_degree()))
            if len(m[idx[g.maximum_degree_vertex()]]) != max(degs) or \
                    len(m[idx[g.minimum_degree_vertex()]]) != min(degs):
                bad('extreme degree vertex')
        else:
            for fn in (g.maximum_degree, g.minimum_degree, g.maximum_degree_vertex, g.minimum_degree_vertex):
                if guarded(fn)[0] != 'exc':
                    bad('extreme degree of an empty graph did not fail')
        if size > 1 and abs(g.density() - edges / (size * (size - 1) / 2)) > 1e-12:
            bad('density %r' % (g.density(),))

    def matrix(self, g, m, lab, idx, bad):
        order = [idx[v] for v in g.vertices()]
        n = len(order)
        if not n:
            return
        adj, deg, lap = g.adjacency_matrix(), g.degree_matrix(), g.laplacian_matrix()
        for i in range(n):
            for j in range(n):
                a = int(order[j] in m[order[i]])
                d = len(m[order[i]]) if i == j else 0
                if adj[i][j] != a or deg[i][j] != d or lap[i][j] != d - a:
                    bad('matrix entry %d,%d: adjacency %r degree %r laplacian %r, expected %r %r %r' % (
                        i, j, adj[i][j], deg[i][j], lap[i][j], a, d, d - a))

    def order(self, g, m, idx, order, reverse, bad):
        kw = {'reverse': reverse}
        if order:
            kw['order'] = order
        raw = g.vertices(**kw)
        got = [idx[v] for v in raw]
        if sorted(got) != sorted(m):
            bad('vertices(%r) gave %r' % (kw, raw))
            return
        if reverse:
            got, raw = got[::-1], raw[::-1]
        if order == 'degree':
            ds = [len(m[a]) for a in got]
            if ds != sorted(ds):
                bad('not ordered by degree: %r' % (raw,))
        elif order == 'induced':
            left = {a: set(nb) for a, nb in m.items()}
            for a in got:
                if len(left[a]) != min(map(len, left.values())):
                    bad('not a smallest-degree elimination order: %r' % (raw,))
                for b in left.pop(a):
                    left[b].discard(a)
        elif raw != sorted(raw):
            bad('not sorted: %r' % (raw,))

    def shrink_more(self, plan):
        if plan.get('vt') not in (None, 'int'):
            yield dict(plan, vt='int')


PROP = C14()
