"""Graphs as plans: generation (JSON), construction through the library's own
interface, and small independent reference computations on indices.

A spec is {'n', 'edges': [[i, j, w], ...], 'vt', 'salt', 'pre', 'perm'}:
`edges` in insertion order and orientation, `vt` the type of the vertex labels,
`salt` decides labels, hashes and the total order on them, `pre` the vertices
added up front (in that order).  Weights are [num, den] for fractions, else
numbers.  So one JSON value decides every source of order: insertion order,
hash order of sets and the comparison order used to break ties.
"""
import functools
import hashlib
import heapq
import itertools
from fractions import Fraction

from rosemary.graphs.graphs import Graph

INF = float('inf')


VERTEX_FAULT = [0, None]     # the n-th hash/comparison of a vertex from now on raises this exception (or makes this call)


def _vertex_op():
    VERTEX_FAULT[0] -= 1
    if VERTEX_FAULT[0] == 0:
        if callable(VERTEX_FAULT[1]):
            VERTEX_FAULT[1]()
        else:
            raise VERTEX_FAULT[1]


@functools.total_ordering
class Vtx:
    """A vertex whose hash and rank the simulator decides."""
    __slots__ = ('i', 'h', 'rank')

    def __init__(self, i, h, rank):
        self.i, self.h, self.rank = i, h, rank

    def __hash__(self):
        if VERTEX_FAULT[0]:
            _vertex_op()
        return self.h

    def __eq__(self, other):
        if VERTEX_FAULT[0]:
            _vertex_op()
        return isinstance(other, Vtx) and self.i == other.i

    def __lt__(self, other):
        if not isinstance(other, Vtx):
            return NotImplemented
        if VERTEX_FAULT[0]:
            _vertex_op()
        return self.rank < other.rank

    def __repr__(self):
        return 'V%d' % self.i

    def __deepcopy__(self, memo):
        return Vtx(self.i, self.h, self.rank)


def _h(*key):
    return int.from_bytes(hashlib.blake2b('/'.join(map(str, key)).encode(), digest_size=8).digest(), 'big')


VT = ('int', 'sparse', 'str', 'tuple', 'obj', 'clash')


def labels(spec):
    n, vt, salt = spec['n'], spec['vt'], spec['salt']
    if vt == 'int':
        return list(range(n))
    if vt == 'sparse':
        out, used = [], set()
        for i in range(n):
            v = _h(salt, i) % 2000 - 1000
            while v in used:
                v += 1
            used.add(v)
            out.append(v)
        return out
    if vt == 'str':
        return ['%s%d' % ('abcdefghij'[_h(salt, i) % 10], i) for i in range(n)]
    if vt == 'tuple':
        return [(_h(salt, i) % 3, i) for i in range(n)]
    ranks = sorted(range(n), key=lambda i: _h(salt, 'r', i))
    rank = {i: r for r, i in enumerate(ranks)}
    if vt == 'clash':
        return [Vtx(i, _h(salt, 'h', i) % 4, rank[i]) for i in range(n)]
    return [Vtx(i, _h(salt, 'h', i) >> 4, rank[i]) for i in range(n)]


def weight(w):
    return Fraction(*w) if isinstance(w, list) else w


class Built:
    """A library graph with its index view."""

    def __init__(self, spec):
        self.spec = spec
        self.n = spec['n']
        self.lab = labels(spec)
        self.idx = {v: i for i, v in enumerate(self.lab)}
        g = Graph()
        if spec.get('pre') is not None:
            g.add_vertices([self.lab[i] for i in spec['pre']])
        for e in spec['edges']:
            i, j = e[0], e[1]
            if len(e) == 3:
                g.add_edge(self.lab[i], self.lab[j], weight(e[2]))
            else:
                g.add_edge(self.lab[i], self.lab[j])
        for i in range(self.n):
            g.add_vertex(self.lab[i])
        self.graph = g
        self.adj = [dict() for _ in range(self.n)]
        for e in spec['edges']:
            w = weight(e[2]) if len(e) == 3 else 1
            self.adj[e[0]][e[1]] = w
            self.adj[e[1]][e[0]] = w
        self.mask = [sum(1 << j for j in a) for a in self.adj]

    def edges(self):
        return [(i, j, w) for i in range(self.n) for j, w in self.adj[i].items() if i < j]

    def i(self, v):
        """Index of a label (KeyError for something that is not a vertex)."""
        return self.idx[v]

    def connected(self):
        return len(component(self.adj, 0)) == self.n if self.n else True

    def text(self):
        return 'vt=%s vertices=%r edges=%r' % (self.spec['vt'], self.lab, [
            (self.lab[e[0]], self.lab[e[1]]) + ((weight(e[2]),) if len(e) == 3 else ()) for e in self.spec['edges']])


# ----------------------------------------------------------------------
# generation
# ----------------------------------------------------------------------

def shape_edges(rng, n, shape):
    """Edges (pairs) of a simple graph on range(n)."""
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    if shape == 'gnp':
        p = rng.pick((0.15, 0.3, 0.5, 0.5, 0.7, 0.85))
        return [e for e in pairs if rng.chance(p)]
    if shape == 'tree':
        return [(rng.below(j), j) for j in range(1, n)]
    if shape == 'connected':
        out = {(rng.below(j), j) for j in range(1, n)}
        p = rng.pick((0.1, 0.25, 0.5))
        out.update(e for e in pairs if rng.chance(p))
        return sorted(out)
    if shape == 'path':
        return [(i, i + 1) for i in range(n - 1)]
    if shape == 'cycle':
        return [(i, i + 1) for i in range(n - 1)] + ([(0, n - 1)] if n > 2 else [])
    if shape == 'star':
        return [(0, i) for i in range(1, n)]
    if shape == 'wheel':
        rim = [(i, i + 1) for i in range(1, n - 1)] + ([(1, n - 1)] if n > 3 else [])
        return [(0, i) for i in range(1, n)] + rim
    if shape == 'complete':
        return pairs
    if shape == 'nearcomplete':
        gone = set(rng.sample(pairs, min(len(pairs), rng.int(1, max(1, n)))))
        return [e for e in pairs if e not in gone]
    if shape == 'bipartite':
        a = rng.int(1, max(1, n - 1))
        p = rng.pick((0.5, 0.8, 1.0))
        return [(i, j) for i, j in pairs if i < a <= j and rng.chance(p)]
    if shape == 'multipartite':
        k = rng.int(2, max(2, min(4, n)))
        part = [rng.below(k) for _ in range(n)]
        return [(i, j) for i, j in pairs if part[i] != part[j] and rng.chance(0.9)]
    if shape == 'grid':
        w = max(2, rng.int(2, 4))
        out = []
        for i in range(n):
            if (i + 1) % w and i + 1 < n:
                out.append((i, i + 1))
            if i + w < n:
                out.append((i, i + w))
        return out
    if shape == 'planted':
        k = rng.int(min(2, n), n)
        core = set(rng.sample(list(range(n)), k))
        p = rng.pick((0.2, 0.4, 0.6))
        return [(i, j) for i, j in pairs if (i in core and j in core) or rng.chance(p)]
    if shape == 'union':
        a = rng.int(1, max(1, n - 1))
        p, q = rng.pick((0.4, 0.7, 1.0)), rng.pick((0.4, 0.7, 1.0))
        return [(i, j) for i, j in pairs if (j < a and rng.chance(p)) or (i >= a and rng.chance(q))]
    if shape == 'crown':
        h = n // 2
        return [(i, h + j) for i in range(h) for j in range(h) if i != j]
    if shape == 'cliquechain':
        out, start = set(), 0
        while start < n - 1:
            k = rng.int(2, 4)
            block = range(start, min(n, start + k))
            out.update(itertools.combinations(block, 2))
            start += k - rng.int(0, 1)
            if start and start < n and rng.chance(0.7):
                out.add((start - 1, start))
        return sorted(e for e in out if e[1] < n)
    if shape == 'mycielski':
        # C5 / K2 extended, truncated to n vertices
        edges, m = [(0, 1)], 2
        while m < n:
            new = list(edges)
            for i, j in edges:
                new += [(i, m + j), (j, m + i)]
            new += [(m + i, 2 * m) for i in range(m)]
            edges, m = new, 2 * m + 1
        return sorted({tuple(sorted(e)) for e in edges if max(e) < n})
    if shape == 'empty':
        return []
    raise ValueError(shape)


SHAPES = (('gnp', 6), ('connected', 3), ('tree', 1), ('path', 0.7), ('cycle', 1), ('star', 0.5), ('wheel', 0.7),
          ('complete', 0.6), ('nearcomplete', 1), ('bipartite', 1), ('multipartite', 1.2), ('grid', 1),
          ('planted', 2), ('union', 1.5), ('crown', 0.7), ('cliquechain', 1), ('mycielski', 0.7), ('empty', 0.3))
CONNECTED = (('connected', 6), ('tree', 1.5), ('path', 0.7), ('cycle', 1.5), ('star', 0.7), ('wheel', 1),
             ('complete', 1.5), ('grid', 1.5))


def gen_weights(rng, m, kinds):
    kind = rng.pick(kinds)
    if kind == 'none':
        return kind, None
    if kind == 'equal':
        w = rng.int(1, 5)
        return kind, [w] * m
    if kind == 'small':
        hi = rng.int(1, 4)
        return kind, [rng.int(1, hi) for _ in range(m)]
    if kind == 'zero':
        hi = rng.int(1, 3)
        return kind, [rng.int(0, hi) for _ in range(m)]
    if kind == 'distinct':
        return kind, rng.shuffled(list(range(1, m + 1)))
    if kind == 'wide':
        return kind, [rng.logint(1, 10 ** rng.pick((2, 4, 9, 20))) for _ in range(m)]
    if kind == 'float':
        return kind, [rng.int(0, 64) / 8.0 for _ in range(m)]
    if kind == 'neg':
        return kind, [rng.int(-5, 5) for _ in range(m)]
    if kind == 'frac':
        return kind, [[rng.int(1, 9), rng.int(1, 7)] for _ in range(m)]
    if kind == 'somenegative':
        return kind, [rng.pick((-1, [-1, 3], -0.125)) if rng.chance(0.12) else rng.pick((0, 1, 2, 5, 0.25)) for _ in range(m)]
    if kind == 'trap':
        # heavy direct edges, light detours
        return kind, [rng.pick((1, 1, 1, 2, 7, 30)) for _ in range(m)]
    raise ValueError(kind)


def gen_graph(rng, lo, hi, shapes=SHAPES, weights=('none',), vts=VT):
    n = rng.int(lo, hi)
    shape = rng.weighted(shapes)
    edges = shape_edges(rng, n, shape)
    perm = rng.shuffled(list(range(n)))
    if rng.chance(0.15):
        perm = list(range(n))
    edges = rng.shuffled(edges)
    kind, ws = gen_weights(rng, len(edges), weights)
    out = []
    for k, (i, j) in enumerate(edges):
        if rng.chance(0.5):
            i, j = j, i
        e = [perm[i], perm[j]]
        if ws is not None:
            e.append(ws[k])
        out.append(e)
    spec = {'n': n, 'edges': out, 'vt': rng.pick(vts), 'salt': rng.below(10 ** 6), 'shape': shape, 'wk': kind}
    if rng.chance(0.5):
        spec['pre'] = rng.shuffled(list(range(n)))
    return spec


def gen_staircase(rng, lo, hi):
    """Complete graph in which every further edge of a path pays: relaxation needs as many rounds as there can be."""
    n = rng.int(lo, hi)
    edges = []
    for j in range(n - 1, 0, -1):
        for i in range(j - 1, -1, -1):
            edges.append([i, j, (j - i) ** 2])
    if rng.chance(0.3):
        edges = rng.shuffled(edges)
    return {'n': n, 'edges': edges, 'vt': rng.pick(VT), 'salt': rng.below(10 ** 6), 'shape': 'staircase', 'wk': 'square'}


def drop_vertex(spec, v):
    """The spec without vertex v (for minimisation)."""
    f = lambda i: i if i < v else i - 1
    new = dict(spec, n=spec['n'] - 1)
    new['edges'] = [[f(e[0]), f(e[1])] + list(e[2:]) for e in spec['edges'] if v not in (e[0], e[1])]
    if spec.get('pre') is not None:
        new['pre'] = [f(i) for i in spec['pre'] if i != v]
    return new


def simpler(spec):
    """Simpler graph specs."""
    if spec['vt'] != 'int':
        yield dict(spec, vt='int')
    if spec.get('pre') is not None:
        new = dict(spec)
        del new['pre']
        yield new
    for k in range(len(spec['edges'])):
        yield dict(spec, edges=spec['edges'][:k] + spec['edges'][k + 1:])
    for k, e in enumerate(spec['edges']):
        if len(e) == 3 and e[2] not in (0, 1):
            edges = [list(x) for x in spec['edges']]
            edges[k][2] = 1
            yield dict(spec, edges=edges)


# ----------------------------------------------------------------------
# reference computations (on indices)
# ----------------------------------------------------------------------

def component(adj, s):
    seen, todo = {s}, [s]
    while todo:
        u = todo.pop()
        for v in adj[u]:
            if v not in seen:
                seen.add(v)
                todo.append(v)
    return seen


def components(adj):
    """The components, as a list of sets."""
    left = set(range(len(adj)))
    out = []
    while left:
        c = component(adj, min(left))
        out.append(c)
        left -= c
    return out


def distances(adj, s):
    """Shortest distances from s by repeated relaxation (no heap; nonnegative weights)."""
    dist = {s: 0}
    changed = True
    while changed:
        changed = False
        for u in list(dist):
            for v, w in adj[u].items():
                d = dist[u] + w
                if v not in dist or d < dist[v]:
                    dist[v] = d
                    changed = True
    return dist


def hops(adj, s):
    level, out = [s], {s: 0}
    d = 0
    while level:
        d += 1
        nxt = []
        for u in level:
            for v in adj[u]:
                if v not in out:
                    out[v] = d
                    nxt.append(v)
        level = nxt
    return out


def mst_weight(n, edges):
    comp = list(range(n))
    total = 0
    for i, j, w in sorted(edges, key=lambda e: e[2]):
        if comp[i] != comp[j]:
            a, b = comp[i], comp[j]
            comp = [a if c == b else c for c in comp]
            total += w
    return total


def is_forest(n, pairs):
    comp = list(range(n))
    for i, j in pairs:
        if comp[i] == comp[j]:
            return False
        a, b = comp[i], comp[j]
        comp = [a if c == b else c for c in comp]
    return True


def count_spanning_trees(adj):
    n = len(adj)
    if n <= 1:
        return 1
    mat = [[Fraction(0)] * (n - 1) for _ in range(n - 1)]
    for i in range(n - 1):
        mat[i][i] = Fraction(len(adj[i]))
        for j in adj[i]:
            if j < n - 1:
                mat[i][j] -= 1
    det = Fraction(1)
    m = n - 1
    for c in range(m):
        piv = next((r for r in range(c, m) if mat[r][c]), None)
        if piv is None:
            return 0
        if piv != c:
            mat[c], mat[piv] = mat[piv], mat[c]
            det = -det
        det *= mat[c][c]
        for r in range(c + 1, m):
            if mat[r][c]:
                f = mat[r][c] / mat[c][c]
                mat[r] = [x - f * y for x, y in zip(mat[r], mat[c])]
    return int(det)


def all_spanning_weights(n, edges):
    """Sorted list of the weights of all spanning trees (small graphs)."""
    out = []

    def rec(k, comp, total, need):
        if need == 0:
            out.append(total)
            return
        if len(edges) - k < need:
            return
        i, j, w = edges[k]
        if comp[i] != comp[j]:
            a, b = comp[i], comp[j]
            rec(k + 1, [a if c == b else c for c in comp], total + w, need - 1)
        rec(k + 1, comp, total, need)

    rec(0, list(range(n)), 0, n - 1)
    return sorted(out)


def best_spanning_weights(n, edges, k):
    """The weights of the k lightest spanning trees, by splitting the set of all trees (forced and forbidden edges)."""
    order = sorted(range(len(edges)), key=lambda i: edges[i][2])

    def lightest(yes, no):
        comp = list(range(n))
        tree, total = [], 0
        for i in [i for i in order if i in yes] + [i for i in order if i not in yes and i not in no]:
            a, b = comp[edges[i][0]], comp[edges[i][1]]
            if a == b:
                continue
            comp = [a if c == b else c for c in comp]
            tree.append(i)
            total += edges[i][2]
        return (total, tree) if len(tree) == n - 1 else None
    out = []
    first = lightest(frozenset(), frozenset())
    heap = [(first[0], 0, first[1], frozenset(), frozenset())] if first else []
    count = 1
    while heap and len(out) < k:
        total, _, tree, yes, no = heapq.heappop(heap)
        out.append(total)
        kept = yes
        for i in tree:
            if i in yes:
                continue
            t = lightest(kept, no | {i})
            if t:
                heapq.heappush(heap, (t[0], count, t[1], kept, no | {i}))
                count += 1
            kept = kept | {i}
    return out


def steiner_opt(adj, terminals):
    """Dreyfus-Wagner."""
    n = len(adj)
    dist = []
    for s in range(n):
        d = distances(adj, s)
        dist.append([d.get(v, INF) for v in range(n)])
    t = list(terminals)
    if len(t) < 2:
        return 0
    k = len(t) - 1
    root = t[-1]
    dp = [[INF] * n for _ in range(1 << k)]
    for i in range(k):
        dp[1 << i] = dist[t[i]][:]
    for mask in range(1, 1 << k):
        row = dp[mask]
        if mask & (mask - 1):
            sub = (mask - 1) & mask
            while sub:
                a, b = dp[sub], dp[mask ^ sub]
                for v in range(n):
                    c = a[v] + b[v]
                    if c < row[v]:
                        row[v] = c
                sub = (sub - 1) & mask
            best = row[:]
            for v in range(n):
                for u in range(n):
                    c = row[u] + dist[u][v]
                    if c < best[v]:
                        best[v] = c
            dp[mask] = best
    return dp[(1 << k) - 1][root]


def cliques(mask, n):
    """All maximal cliques as bitmasks (plain recursion without pivoting)."""
    out = []
    full = (1 << n) - 1

    def rec(r, p, x):
        if not p and not x:
            out.append(r)
            return
        while p:
            low = p & -p
            v = low.bit_length() - 1
            rec(r | low, p & mask[v], x & mask[v])
            p ^= low
            x |= low

    if n:
        rec(0, full, 0)
    return out


def complement_masks(mask, n):
    full = (1 << n) - 1
    return [full & ~mask[i] & ~(1 << i) for i in range(n)]


def chromatic_number(mask, n):
    """By dynamic programming over vertex subsets (n up to ~13) ."""
    if n == 0:
        return 0
    for k in range(1, n + 1):
        if _colorable(mask, n, k):
            return k
    return n


def _colorable(mask, n, k):
    order = sorted(range(n), key=lambda v: -bin(mask[v]).count('1'))
    color = [-1] * n

    def rec(pos, used):
        if pos == n:
            return True
        # most constrained uncoloured vertex
        best, bv = None, None
        for v in range(n):
            if color[v] < 0:
                seen = set()
                m = mask[v]
                while m:
                    low = m & -m
                    c = color[low.bit_length() - 1]
                    if c >= 0:
                        seen.add(c)
                    m ^= low
                key = (len(seen), bin(mask[v]).count('1'))
                if best is None or key > best:
                    best, bv, bs = key, v, seen
        for c in range(min(used + 1, k)):
            if c not in bs:
                color[bv] = c
                if rec(pos + 1, max(used, c + 1)):
                    return True
                color[bv] = -1
        return False

    del order
    return rec(0, 0)
