"""C06: optimisation heuristics: feasible, truthful about their cost, never better than the optimum."""
from dsim import engine, simrandom
from dsim.engine import Prop, guarded, exc_text, Malformed

import rosemary.combinatorics.optimization.knapsack as K
import rosemary.combinatorics.optimization.tsp as T
import rosemary.combinatorics.optimization.genetic_tsp as GT

EPS = 1e-6


def gen_items(rng, n):
    style = rng.pick(('small', 'tied', 'wide', 'ratio', 'quarters', 'free'))
    if style == 'quarters':       # exact in binary: sums are compared for equality
        return [[rng.int(1, 40) / 4, rng.int(1, 9)] for _ in range(n)]
    if style == 'free':
        return [[rng.int(0, 4), rng.int(1, 6)] for _ in range(n)]
    if style == 'small':
        return [[rng.int(1, 9), rng.int(1, 9)] for _ in range(n)]
    if style == 'tied':
        v, w = rng.int(1, 3), rng.int(1, 3)
        return [[v + rng.below(2), w + rng.below(2)] for _ in range(n)]
    if style == 'wide':
        return [[rng.logint(1, 10 ** 6), rng.logint(1, 60)] for _ in range(n)]
    r = rng.int(1, 4)
    out = []
    for _ in range(n):
        w = rng.int(1, 12)
        out.append([r * w + rng.below(2), w])
    return out


def gen_points(rng, n):
    style = rng.pick(('grid', 'grid', 'wide', 'line', 'cluster', 'circle'))
    if style == 'grid':
        return [[rng.int(0, 5), rng.int(0, 5)] for _ in range(n)]
    if style == 'wide':
        return [[rng.int(0, 10000), rng.int(0, 10000)] for _ in range(n)]
    if style == 'line':
        return [[rng.int(0, 30), 0] for _ in range(n)]
    if style == 'circle':
        pts = [[3, 0], [0, 3], [-3, 0], [0, -3], [2, 2], [-2, 2], [-2, -2], [2, -2]]
        return [[a * rng.int(1, 2), b] for a, b in (rng.pick(pts) for _ in range(n))]
    return [[rng.pick((0, 100)) + rng.below(3), rng.pick((0, 100)) + rng.below(3)] for _ in range(n)]


def gen_matrix(rng, n, sym):
    hi = rng.pick((3, 10, 100))
    m = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            m[i][j] = rng.int(1, hi)
            m[j][i] = m[i][j] if sym else rng.int(1, hi)
    return m


HEAVY = ('knapsack_sa', 'tsp_sa')


def gen_op(rng, heavy):
    kind = heavy or rng.weighted([('knapsack_exact', 3), ('farthest_insertion', 2), ('two_opt', 3), ('steepest', 3),
                                  ('random_two_opt', 3), ('genetic', 3), ('tsp_exact', 1.5)])
    op = {'op': kind, 'rs': simrandom.gen_policy(rng, 0.6, rng.pick((30, 400)))}
    if kind in ('knapsack_exact', 'knapsack_sa'):
        n = rng.int(1, 6 if kind == 'knapsack_sa' else rng.pick((4, 9, 12)))
        if kind == 'knapsack_exact' and rng.chance(0.08):
            n = rng.int(13, 24)
        op['items'] = gen_items(rng, n)
        total = sum(w for _, w in op['items'])
        op['capacity'] = rng.pick((0, rng.int(0, total), total // 2, rng.int(0, total), total, total + 3))
        op['alg'] = rng.pick(('dp', 'dfs', 'bb') if n < 13 else ('dp', 'bb'))
        return op
    if kind == 'genetic':
        op['points'] = gen_points(rng, rng.int(20, 26))
        op['popsize'] = rng.int(1, 6)
        op['cmax'] = rng.int(0, 6)
        return op
    n = {'tsp_exact': rng.int(3, 6), 'tsp_sa': rng.int(3, 5), 'random_two_opt': rng.int(4, 9)}.get(kind, rng.int(3, 9))
    if kind in ('two_opt', 'steepest', 'farthest_insertion', 'random_two_opt') and rng.chance(0.1):
        n = rng.int(10, 26)
    op['n'] = n
    if kind == 'random_two_opt':
        op['path'] = rng.shuffled(list(range(n)))
        return op
    if kind == 'tsp_exact':
        op['alg'] = rng.pick(('dfs', 'bb'))
    if rng.chance(0.5):
        op['points'] = gen_points(rng, n)
    else:
        op['matrix'] = gen_matrix(rng, n, kind != 'tsp_exact' or rng.chance(0.6))
    return op


def matrix_of(op):
    if 'matrix' in op:
        return op['matrix']
    pts = op['points']
    return [[((a - c) ** 2 + (b - d) ** 2) ** 0.5 for c, d in pts] for a, b in pts]


def tour_cost(m, path):
    return sum(m[path[i - 1]][path[i]] for i in range(len(path)))


def best_tour(m):
    """The cost of the cheapest tour (dynamic programming over sets of points)."""
    n = len(m)
    best = {(1 << i, i): m[0][i] for i in range(1, n)}
    for size in range(2, n):
        new = {}
        for (seen, last), c in best.items():
            for i in range(1, n):
                if not seen >> i & 1:
                    key = (seen | 1 << i, i)
                    d = c + m[last][i]
                    if key not in new or d < new[key]:
                        new[key] = d
        best = new
    return min(c + m[last][0] for (_, last), c in best.items())


def knapsack_opt(items, cap):
    best = {0: 0}
    for v, w in items:
        new = dict(best)
        for k, x in best.items():
            if k + w <= cap and new.get(k + w, -1) < x + v:
                new[k + w] = x + v
        best = new
    return max(best.values())


class C06(Prop):
    ID = 'C06'
    RUNS = {'quick': 6000, 'thorough': 120000}
    RULE = ('A run is a history of optimisation calls in one fresh process under adversarial or fair draws; a tenth of the '
            'runs performs one knapsack annealing, 1 in 250 one tour annealing (seconds of CPU each); non-trivial '
            'means a draw was forced by the fault policy.')
    STATE_MEASURE = 'distinct (routine, size, draw policy, gap class to the optimum) tuples'
    REAL = ['knapsack solvers, tour constructions, 2-opt searches, simulated annealing, genetic search']
    STUB = ['the random module']
    ASSUMPTIONS = ['distances are symmetric for the 2-opt based searches; floating costs compared within 1e-6 relative',
                   'the genetic search is given at least 20 points (it draws segment lengths from [10, n/2])']

    def gen(self, rng, index):
        if rng.chance(0.004):
            return {'ops': [gen_op(rng, 'tsp_sa')]}
        if rng.chance(0.1):
            return {'ops': [gen_op(rng, 'knapsack_sa')]}
        return {'ops': [gen_op(rng, None) for _ in range(rng.int(3, 8))]}

    def call(self, op):
        name = op['op']
        if name.startswith('knapsack'):
            items = [tuple(x) for x in op['items']]
            if name == 'knapsack_sa':
                return K.simulated_annealing(items, op['capacity'])
            fn = {'dp': K.dynamic_programming, 'dfs': K.depth_first, 'bb': K.branch_and_bound_depth_first}[op['alg']]
            return fn(items, op['capacity'])
        if name == 'genetic':
            search = GT.TravelingSalesman([tuple(p) for p in op['points']])
            self.met = []
            local = getattr(search, 'two_opt', None)
            if local is not None:          # the caller's own local search step: the library's, and it remembers

                def two_opt(path):
                    r = local(path)
                    if isinstance(r[0], (int, float)):
                        self.met.append(r[0])
                    return r
                search.two_opt = two_opt
            return search.solve(op['popsize'], op['cmax'])
        if name == 'random_two_opt':
            return T.random_two_opt(list(op['path']))
        if 'points' in op:
            args = ([tuple(p) for p in op['points']],)
        else:
            # the library's own convention: infinite diagonal
            m = [[float('inf') if i == j else x for j, x in enumerate(row)] for i, row in enumerate(op['matrix'])]
            args = ([(0, 0)] * op['n'], m)
        fn = {'farthest_insertion': T.farthest_insertion, 'two_opt': T.two_opt, 'steepest': T.steepest_ascent_two_opt,
              'tsp_sa': T.simulated_annealing_two_opt,
              'tsp_exact': T.depth_first if op.get('alg') == 'dfs' else T.branch_and_bound}[name]
        return fn(*args)

    def execute(self, plan, ctx):
        src = simrandom.SOURCE
        for op in plan['ops']:
            name = op['op']
            src.reset(op['rs'])
            engine._CPU[0] = 90.0 if name == 'tsp_sa' else 20.0
            st, got = guarded(self.call, op)
            ctx.count(name)
            ctx.steps += src.draws + 1
            if src.forced:
                ctx.fault('draw:' + op['rs']['pol'], src.forced)
            ctx.event(name, {k: v for k, v in op.items() if k not in ('rs', 'op')}, st,
                      exc_text(got) if st == 'exc' else repr(got), src.draws)
            where = ' for %r' % ({k: v for k, v in op.items() if k != 'rs'},)
            if st == 'hang':
                ctx.violate('no-termination', name, name + where)
                continue
            if st == 'exc':
                ctx.violate('exception', name, exc_text(got) + where)
                continue
            try:
                err, gap = self.judge(op, got)
            except (Malformed, TypeError, ValueError, KeyError, IndexError) as e:
                err, gap = 'malformed result: %r; returned %r' % (e, got), None
            ctx.state(name, op.get('n') or len(op.get('items', op.get('points', ()))), op['rs']['pol'], gap)
            if err:
                ctx.violate('wrong', name, err + where)

    def judge(self, op, got):
        name = op['op']
        if name.startswith('knapsack'):
            items, cap = op['items'], op['capacity']
            value, used = got
            if name == 'knapsack_sa':
                if len(used) != len(items) or any(x not in (0, 1) for x in used):
                    return 'not a selection: %r' % (used,), None
                chosen = [items[i] for i, x in enumerate(used) if x]
            elif op['alg'] == 'bb':
                if len({i for _, _, i in used}) != len(used) or any([v, w] != items[i] for v, w, i in used):
                    return 'not a selection of the items: %r' % (used,), None
                chosen = [(v, w) for v, w, _ in used]
            else:
                pool = [tuple(x) for x in items]
                for x in used:
                    if tuple(x) not in pool:
                        return 'not a selection of the items: %r' % (used,), None
                    pool.remove(tuple(x))
                chosen = used
            if sum(w for _, w in chosen) > cap:
                return 'capacity exceeded: %r' % (got,), None
            if sum(v for v, _ in chosen) != value:
                return 'reported value %r, chosen items are worth %r' % (value, sum(v for v, _ in chosen)), None
            opt = knapsack_opt(items, cap)
            if value > opt or (name == 'knapsack_exact' and value != opt):
                return 'value %r, the optimum is %r' % (value, opt), None
            return None, value == opt
        if name == 'random_two_opt':
            path = op['path']
            if sorted(got) != sorted(path):
                return 'not a permutation of the path: %r' % (got,), None
            diff = [i for i in range(len(path)) if got[i] != path[i]]
            lo, hi = (diff[0], diff[-1]) if diff else (0, -1)
            if not diff or list(got[lo:hi + 1]) != path[lo:hi + 1][::-1]:
                return 'not the path with one segment reversed: %r' % (got,), None
            return None, None
        m = matrix_of(op)
        cost, path = got
        if sorted(path) != list(range(len(m))):
            return 'not a tour of all points: %r' % (path,), None
        real = tour_cost(m, path)
        tol = EPS * max(1.0, real)
        if abs(real - cost) > tol:
            return 'reported cost %r, the tour costs %r' % (cost, real), None
        if name == 'genetic':
            if self.met and cost > min(self.met) + tol:
                return 'cost %r, but the search had met a tour of cost %r' % (cost, min(self.met)), None
            return None, None
        n = len(m)
        opt = best_tour(m) if n <= 7 or n <= 9 and sum(path[:3]) % 4 == 0 else None
        if opt is not None and cost < opt - tol:
            return 'cost %r below the optimum %r' % (cost, opt), None
        if name == 'tsp_exact' and cost > opt + tol:
            return 'cost %r, the optimum is %r' % (cost, opt), None
        if name in ('two_opt', 'steepest'):
            for i in range(n):
                for j in range(i + 2, n):
                    a, b, c, d = path[i], path[(i + 1) % n], path[j], path[(j + 1) % n]
                    if a != d and m[a][b] + m[c][d] - m[a][c] - m[b][d] > tol:
                        return 'exchange of edges %r-%r and %r-%r still improves the tour' % (a, b, c, d), None
        return None, None if opt is None else cost <= opt + tol

    def shrink_more(self, plan):
        for i, op in enumerate(plan['ops']):
            def put(new):
                ops = list(plan['ops'])
                ops[i] = new
                return dict(plan, ops=ops)
            if op['rs'].get('pol') != 'uniform':
                yield put(dict(op, rs={'pol': 'uniform', 'seed': 0}))
            if len(op.get('items', ())) > 1:
                for k in range(len(op['items'])):
                    yield put(dict(op, items=op['items'][:k] + op['items'][k + 1:]))
            if 'points' in op and len(op['points']) > (20 if op['op'] == 'genetic' else 3):
                for k in range(len(op['points'])):
                    new = dict(op, points=op['points'][:k] + op['points'][k + 1:])
                    if 'n' in op:
                        new['n'] -= 1
                    yield put(new)
            for key in ('cmax', 'popsize'):
                if op.get(key, 0) > 1:
                    yield put(dict(op, **{key: op[key] - 1}))


PROP = C06()
