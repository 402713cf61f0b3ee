"""C16: exhaustive combinatorial searches deliver every solution exactly once."""
import collections
import itertools

from dsim import graphs as G, simrandom
from dsim.engine import Prop, guarded, exc_text, Malformed

import rosemary.combinatorics.optimization.exact_cover as X
import rosemary.combinatorics.recreational.alphametics as AL
import rosemary.graphs.algorithms.hamiltonian_paths as H

LANGFORD = {1: 0, 2: 0, 3: 1, 4: 1, 5: 0, 6: 0, 7: 26}
LATIN = {1: 1, 2: 2, 3: 12, 4: 576}
DOMINO = {2: 2, 3: 0, 4: 36, 5: 0, 6: 6728}
HAM_GEN = ('hamiltonian_paths', 'hamiltonian_paths_con')
HAM_COUNT = ('number_of_hamiltonian_paths', 'number_of_hamiltonian_paths_bits', 'number_of_hamiltonian_paths_bits_con',
             'number_of_hamiltonian_paths5', 'number_of_hamiltonian_paths5_con')
KINDS = [('cover', 5), ('binary', 4), ('alphametic', 2), ('ham', 5), ('hamcount', 4), ('sudoku', 0.25), ('named', 0.3),
         ('gridcover', 1)]
LETTERS = 'SENDMORYABCX'


def partition(rng, n, top=4):
    """A random partition of range(n) into blocks."""
    items = rng.shuffled(list(range(n)))
    out = []
    while items:
        k = rng.int(1, min(top, len(items)))
        out.append(sorted(items[:k]))
        items = items[k:]
    return out


def gen_schedule(rng, ngen):
    style = rng.pick(('rr', 'burst', 'random', 'serial'))
    out = []
    for step in range(rng.int(0, 14)):
        if style == 'rr':
            out.append(step % ngen)
        elif style == 'random':
            out.append(rng.int(0, ngen - 1))
        elif style == 'burst':
            out.extend([rng.int(0, ngen - 1)] * rng.int(1, 5))
    return out


def gen_op(rng):
    kind = rng.weighted(KINDS)
    op = {'op': kind, 'rs': {'pol': 'uniform', 'seed': 0}}
    if kind in ('cover', 'binary'):
        big = rng.chance(0.2)
        n = rng.int(1, 12 if big else 8)
        top = rng.pick((2, 4, 4, n))
        sets = []
        for _ in range(rng.int(0, 5 if big else 3)):
            sets.extend(partition(rng, n, top))
        for _ in range(rng.int(0, 9 if big else 5)):
            sets.append(sorted(rng.sample(list(range(n)), rng.int(1, min(n, top)))))
        if sets and rng.chance(0.15):
            sets.append(list(rng.pick(sets)))
        sets = rng.shuffled(sets)[:28 if big else 14]
        op['n'] = n
        op['sets'] = sets
        if kind == 'cover':
            # elements the sets may mention are exactly the target's
            op['lab'] = {'n': n, 'vt': rng.pick(G.VT), 'salt': rng.seed64()}
            op['as'] = rng.pick(('set', 'list', 'tuple', 'frozenset'))
            pool = ('algorithmx', 'algorithm_dlx')
        else:
            pool = ('solutions', 'solutions', 'number')
        op['gens'] = [rng.pick(pool) for _ in range(rng.int(1, 3))]
    elif kind == 'gridcover':
        n = rng.int(2, 4)
        op['n'] = n * n
        cells = []
        for i in range(n * n):
            if i + n < n * n:
                cells.append([i, i + n])
            if (i + 1) % n:
                cells.append([i, i + 1])
        op['sets'] = rng.shuffled(cells)
        op['op'] = 'cover'
        op['lab'] = {'n': n * n, 'vt': rng.pick(G.VT), 'salt': rng.seed64()}
        op['as'] = 'set'
        op['gens'] = [rng.pick(('algorithmx', 'algorithm_dlx')) for _ in range(rng.int(1, 2))]
    elif kind == 'alphametic':
        most = rng.pick((5, 5, 5, 5, 5, 5, 6, 6, 6, 8))
        while True:
            if rng.chance(0.1):          # long words over few letters
                some = rng.sample('0123456789', rng.int(1, 3))
                size = rng.int(5, 22)
                nums = [int(rng.pick([d for d in some if d != '0'] or ['1']) + ''.join(rng.pick(some) for _ in range(size)))
                        for _ in range(rng.int(1, 2))]
            elif rng.chance(0.2):
                nums = [rng.int(1, rng.pick((9, 99, 999))) for _ in range(rng.int(4, 7))]
            else:
                nums = [rng.int(1, rng.pick((9, 99, 999, 9999))) for _ in range(rng.int(1, 3))]
            rhs = [sum(nums)]
            if rng.chance(0.2) and rhs[0] > 2:
                a = rng.int(1, rhs[0] - 1)
                rhs = [a, rhs[0] - a]
            digits = sorted(set(''.join(map(str, nums + rhs))))
            if len(digits) <= most:
                break
        names = rng.sample(list(LETTERS), len(digits))
        tr = dict(zip(digits, names))
        op['lhs'] = [''.join(tr[c] for c in str(x)) for x in nums]
        op['rhs'] = [''.join(tr[c] for c in str(x)) for x in rhs]
        if rng.chance(0.15):
            op['rhs'] = [w[::-1] for w in op['rhs']]
        op['gens'] = ['solve'] * rng.int(1, 2)
    elif kind == 'ham':
        op['g'] = G.gen_graph(rng, 1, 6) if rng.chance(0.9) else sparse_graph(rng)
        op['gens'] = [rng.pick(HAM_GEN) for _ in range(rng.int(1, 3))]
    elif kind == 'hamcount':
        op['fn'] = rng.pick(HAM_COUNT)
        op['g'] = G.gen_graph(rng, 1, 6 if '5' in op['fn'] else 7) if rng.chance(0.9) else sparse_graph(rng)
        if 'bits' in op['fn']:
            op['rs'] = simrandom.gen_policy(rng, 0.7, 20)
    elif kind == 'sudoku':
        op['grid'] = sudoku_grid(rng)
        op['blank'] = sorted(rng.sample(list(range(81)), rng.int(0, 58)))
    elif kind == 'named':
        if rng.chance(0.45):
            op['fn'], op['n'] = 'langford', rng.int(1, 7)
        elif rng.chance(0.2):
            op['fn'], op['n'] = 'latin', rng.int(1, 4)
        else:
            op['fn'], op['n'] = 'domino', rng.int(2, 6)
    if 'gens' in op:
        ng = len(op['gens'])
        op['sched'] = gen_schedule(rng, ng)
        op['abandon'] = [i for i in range(ng) if rng.chance(0.25)]
        op['close'] = rng.chance(0.5)
    return op


def covers(n, sets):
    """All exact covers of range(n), as sorted tuples of set indices."""
    masks = [sum(1 << i for i in s) for s in sets]
    full = (1 << n) - 1
    out = []

    def rec(k, have, used):
        if have == full:
            out.append(tuple(used))
            return
        low = ~have & (have + 1)
        for i, m in enumerate(masks):
            if m & low and not m & have:
                rec(k, have | m, used + [i])
    rec(0, 0, [])
    return out


def sudoku_grid(rng):
    """A random completed grid, as 81 digits."""
    cells = [0] * 81
    rows, cols, boxes = [0] * 9, [0] * 9, [0] * 9

    def put(k, d):
        cells[k] = d
        for unit, i in ((rows, k // 9), (cols, k % 9), (boxes, k // 27 * 3 + k % 9 // 3)):
            unit[i] ^= 1 << d
    for b in range(3):
        ds = rng.shuffled(list(range(1, 10)))
        for i in range(9):
            put((3 * b + i // 3) * 9 + 3 * b + i % 3, ds[i])
    order = rng.shuffled(list(range(1, 10)))

    def fill():
        best, free = None, None
        for k in range(81):
            if not cells[k]:
                used = rows[k // 9] | cols[k % 9] | boxes[k // 27 * 3 + k % 9 // 3]
                left = [d for d in order if not used >> d & 1]
                if best is None or len(left) < len(free):
                    best, free = k, left
        if best is None:
            return True
        for d in free:
            put(best, d)
            if fill():
                return True
            put(best, d)
            cells[best] = 0
        return False
    fill()
    return ''.join(map(str, cells))


def letter_solutions(lhs, rhs):
    letters = sorted(set(''.join(lhs + rhs)))
    coef = dict.fromkeys(letters, 0)
    for words, sign in ((lhs, 1), (rhs, -1)):
        for w in words:
            for k, c in enumerate(reversed(w)):
                coef[c] += sign * 10 ** k
    lead = {w[0] for w in lhs + rhs}
    letters.sort(key=lambda c: abs(coef[c]))
    last = letters.pop()
    out = collections.Counter()

    def found(m):
        if any(m[c] == 0 for c in lead):
            return
        m = {c: str(d) for c, d in m.items()}
        out[(tuple(int(''.join(m[c] for c in w)) for w in lhs),
             tuple(int(''.join(m[c] for c in w)) for w in rhs))] += 1
    cs = [coef[c] for c in letters]
    for ds in itertools.permutations(range(10), len(letters)):
        t = -sum(map(int.__mul__, cs, ds))
        if coef[last] == 0:
            digits = range(10) if t == 0 else ()
        else:
            digits = (t // coef[last],) if t % coef[last] == 0 else ()
        for d in digits:
            if 0 <= d <= 9 and d not in ds:
                found(dict(zip(letters + [last], ds + (d,))))
    return out


def sparse_graph(rng):
    """More vertices, few enough edges for the number of paths to stay small."""
    while True:
        g = G.gen_graph(rng, 7, 12)
        if len(g['edges']) <= 1.45 * g['n'] + 1:
            return g


def ham_paths(mask, n):
    out = collections.Counter()

    def rec(path, used):
        if len(path) == n:
            out[tuple(path)] += 1
            return
        for v in range(n):
            if mask[path[-1]] >> v & 1 and not used >> v & 1:
                rec(path + [v], used | 1 << v)
    for s in range(n):
        rec([s], 1 << s)
    return out


def ham_count(mask, n):
    table = {}

    def rec(last, left):
        if not left:
            return 1
        key = (last, left)
        if key not in table:
            t = 0
            for v in range(n):
                if left >> v & 1 and mask[last] >> v & 1:
                    t += rec(v, left & ~(1 << v))
            table[key] = t
        return table[key]
    full = (1 << n) - 1
    return sum(rec(s, full & ~(1 << s)) for s in range(n))


class Problem:
    """A shared problem object, its generators, the reference, and how to read a yielded item."""


def build(op):
    p = Problem()
    kind = op['op']
    p.call = {}
    if kind == 'cover':
        lab = G.labels(op['lab'])
        mk = {'set': set, 'list': list, 'tuple': tuple, 'frozenset': frozenset}[op['as']]
        target = {lab[i] for i in range(op['n'])}
        sets = [mk(lab[i] for i in s) for s in op['sets']]
        idx = {v: i for i, v in enumerate(lab)}
        names = [tuple(sorted(s)) for s in op['sets']]
        p.want = collections.Counter(tuple(sorted(names[i] for i in c)) for c in covers(op['n'], op['sets']))

        def read(item):
            return tuple(sorted(tuple(sorted(idx[e] for e in s)) for s in item))
        p.read = read
        p.make = lambda name: getattr(X, name)(target, sets)
        p.inputs = lambda: (sorted(idx[v] for v in target), [sorted(idx[v] for v in s) for s in sets])
    elif kind == 'binary':
        ints = [sum(1 << i for i in s) for s in op['sets']]
        n = max([x.bit_length() for x in ints] or [0])
        e = X.ExactCoverBinary(ints)
        want = covers(n, op['sets'])
        p.want = collections.Counter(tuple(sorted(ints[i] for i in c)) for c in want)
        p.read = lambda item: tuple(sorted(item))
        p.number = len(want)

        def make(name):
            return e.solutions() if name == 'solutions' else e.number_of_solutions()
        p.make = make
        p.inputs = lambda: list(ints)
    elif kind == 'alphametic':
        lhs, rhs = list(op['lhs']), list(op['rhs'])
        p.want = letter_solutions(lhs, rhs)
        p.read = lambda item: (tuple(item[0]), tuple(item[1]))
        p.make = lambda name: AL.solve(lhs, rhs)
        p.inputs = lambda: (list(lhs), list(rhs))
    elif kind == 'ham':
        b = G.Built(op['g'])
        p.want = ham_paths(b.mask, b.n)
        p.read = lambda item: tuple(b.i(v) for v in item)
        p.make = lambda name: getattr(H, name)(b.graph)
        p.inputs = lambda: b.text() + repr(sorted((b.i(u), sorted(b.i(v) for v in b.graph.neighbors(u)))
                                                  for u in b.graph.vertices()))
    return p


class C16(Prop):
    ID = 'C16'
    RUNS = {'quick': 14000, 'thorough': 400000}
    RULE = ('A run is a history of 2-6 exhaustive searches in one fresh process; up to three solution generators over '
            'the same problem object are pulled in the order the plan decides, some are abandoned or closed half-way; '
            'element types, hashes, comparison order and draws are decided by the plan; non-trivial means generators '
            'were interleaved or abandoned, draws were forced, or hashes were simulator-decided.')
    STATE_MEASURE = 'distinct (search, generators, size, number of solutions class, element type, draw policy) tuples'
    REAL = ['algorithmx, algorithm_dlx, ExactCoverBinary, sudoku solver, Langford and domino counts, alphametic solver, '
            'Hamiltonian path enumerations and counts, Graph']
    STUB = ['the random module', 'element hash and order (simulator-decided class in part of the runs)']
    ASSUMPTIONS = ['exact-cover sets are non-empty, have no repeated element and mention only elements of the target; '
                   'graphs have at least one vertex', 'sudoku clues are consistent with at least one completed grid']

    def gen(self, rng, index):
        return {'ops': [gen_op(rng) for _ in range(rng.int(2, 6))]}

    def execute(self, plan, ctx):
        for op in plan['ops']:
            simrandom.SOURCE.reset(op['rs'])
            ctx.count(op['op'])
            if 'gens' in op:
                self.generators(op, ctx)
            elif op['op'] == 'hamcount':
                self.hamcount(op, ctx)
            elif op['op'] == 'sudoku':
                self.sudoku(op, ctx)
            else:
                self.named(op, ctx)

    # ------------------------------------------------------------------
    def generators(self, op, ctx):
        p = build(op)
        kind = op['op']
        before = p.inputs()
        names = op['gens']
        name_of = lambda i: '%s.%s' % (kind, names[i])
        live, got, done = {}, [collections.Counter() for _ in names], set()
        vt = op.get('lab', op.get('g', {})).get('vt')
        if vt in ('obj', 'clash', 'str', 'tuple'):
            ctx.fault('hash-and-order:' + vt)
        if len(set(op['sched'])) > 1:
            ctx.fault('interleaved-generators')

        def number(i):
            st, v = guarded(p.make, names[i])
            ctx.event(name_of(i), st, repr(v) if st == 'ok' else '')
            if st != 'ok':
                ctx.violate('no-termination' if st == 'hang' else 'exception', name_of(i),
                            '%s for %r' % (st if st == 'hang' else exc_text(v), op))
            elif v != p.number:
                ctx.violate('wrong-count', name_of(i), 'got %r, there are %d: %r' % (v, p.number, op))

        def start(i):
            st, gen = guarded(lambda: iter(p.make(names[i])))
            if st != 'ok':
                ctx.violate('no-termination' if st == 'hang' else 'exception', name_of(i),
                            '%s for %r' % (st if st == 'hang' else exc_text(gen), op))
                done.add(i)
                return
            live[i] = gen

        def pull(i):
            if names[i] == 'number':
                return number(i)
            if i in done:
                return
            if i not in live:
                start(i)
                if i in done:
                    return
            ctx.steps += 1

            def step():
                try:
                    return (True, next(live[i]))
                except StopIteration:
                    return (False, None)
            st, v = guarded(step)
            if st != 'ok':
                done.add(i)
                ctx.violate('no-termination' if st == 'hang' else 'exception', name_of(i),
                            '%s for %r' % (st if st == 'hang' else exc_text(v), op))
                return
            more, item = v
            if not more:
                done.add(i)
                ctx.event(name_of(i), i, 'end', sum(got[i].values()))
                if got[i] != p.want:
                    miss, extra = p.want - got[i], got[i] - p.want
                    ctx.violate('wrong-solutions', name_of(i), 'missing %r, surplus %r for %r' % (
                        list(miss)[:3], list(extra)[:3], op))
                return
            try:
                key = p.read(item)
            except (KeyError, TypeError, IndexError, Malformed) as e:
                done.add(i)
                ctx.violate('malformed', name_of(i), '%r (%r) for %r' % (item, e, op))
                return
            got[i][key] += 1
            ctx.event(name_of(i), i, repr(key))
            if got[i][key] > p.want.get(key, 0):
                done.add(i)
                ctx.violate('not-a-solution' if key not in p.want else 'solution-repeated', name_of(i),
                            '%r for %r' % (key, op))

        for i in op['sched']:
            if i < len(names):
                pull(i)
        for i in op['abandon']:
            if i in live and i not in done:
                ctx.fault('abandoned-generator' if not op['close'] else 'closed-generator')
                if op['close']:
                    st, v = guarded(live[i].close) if hasattr(live[i], 'close') else ('ok', None)
                    if st != 'ok':
                        ctx.violate('exception', name_of(i) + '.close', '%s for %r' % (st, op))
                    del live[i]
        total = sum(p.want.values())
        for i in range(len(names)):
            if i in op['abandon']:
                continue
            if names[i] == 'number':
                number(i)
                continue
            while i not in done:
                pull(i)
        if p.inputs() != before:
            ctx.violate('input-modified', kind, 'before %r after %r for %r' % (before, p.inputs(), op))
        ctx.state(kind, tuple(sorted(set(names))), min(total, 5), vt, len(op.get('sets', ())) // 3)
        if total == 0:
            ctx.probe('no-solution')
        if total > 10:
            ctx.probe('more-than-10-solutions')

    def hamcount(self, op, ctx):
        b = G.Built(op['g'])
        src = simrandom.SOURCE
        st, got = guarded(getattr(H, op['fn']), b.graph)
        ctx.event(op['fn'], b.text(), st, repr(got) if st == 'ok' else exc_text(got) if st == 'exc' else '')
        ctx.steps += src.draws + b.n
        if src.forced:
            ctx.fault('draw:' + op['rs']['pol'], src.forced)
        if op['g']['vt'] in ('obj', 'clash', 'str', 'tuple'):
            ctx.fault('hash-and-order:' + op['g']['vt'])
        want = ham_count(b.mask, b.n)
        ctx.state(op['fn'], b.n, min(want, 20), op['g']['vt'], op['rs']['pol'])
        if st != 'ok':
            ctx.violate('no-termination' if st == 'hang' else 'exception', op['fn'],
                        '%s on %s' % (st if st == 'hang' else exc_text(got), b.text()))
        elif got != want:
            ctx.violate('wrong-count', op['fn'], 'got %r, there are %d: %s' % (got, want, b.text()))

    def sudoku(self, op, ctx):
        digits = [int(ch) for ch in op['grid']]
        clues = list(digits)
        for k in op['blank']:
            clues[k] = 0
        text = ''.join(map(str, clues))
        st, got = guarded(X.sudoku_dlx, text)
        ctx.steps += 81
        ctx.state('sudoku', len(op['blank']) // 5)
        # which completion is found may depend on the hash seed, its validity may not
        ctx.event('sudoku', text, st)
        if st != 'ok':
            ctx.violate('no-termination' if st == 'hang' else 'exception', 'sudoku_dlx',
                        '%s for %s' % (st if st == 'hang' else exc_text(got), text))
            return
        ok = isinstance(got, str) and len(got) == 81 and got.isdigit()
        if ok:
            g = [[int(got[9 * r + c]) for c in range(9)] for r in range(9)]
            full = set(range(1, 10))
            ok = (all(set(r) == full for r in g) and all({g[r][c] for r in range(9)} == full for c in range(9)) and
                  all({g[3 * a + i][3 * b + j] for i in range(3) for j in range(3)} == full
                      for a in range(3) for b in range(3)) and
                  all(k == 0 or k == int(ch) for k, ch in zip(clues, got)))
        if not ok:
            ctx.violate('wrong-solutions', 'sudoku_dlx', '%r for %s' % (got, text))

    def named(self, op, ctx):
        fn, table = {'langford': (X.langford_pairings, LANGFORD), 'domino': (X.domino_tilings, DOMINO),
                     'latin': (lambda n: X.ExactCoverBinary(X.latin_square_ints(n)).number_of_solutions(), LATIN)}[
                         op['fn']]
        st, got = guarded(fn, op['n'])
        ctx.steps += 1
        ctx.event(op['fn'], op['n'], st, repr(got) if st == 'ok' else '')
        ctx.state(op['fn'], op['n'])
        if st != 'ok' or got != table[op['n']]:
            ctx.violate('wrong-count', op['fn'], '%s(%d): %s' % (
                op['fn'], op['n'], got if st == 'ok' else st if st == 'hang' else exc_text(got)))

    def shrink_more(self, plan):
        for k, op in enumerate(plan['ops']):
            def with_op(new):
                ops = list(plan['ops'])
                ops[k] = new
                q = dict(plan)
                q['ops'] = ops
                return q
            for key in ('sched', 'abandon', 'gens', 'sets', 'blank'):
                for i in range(len(op.get(key, ()))):
                    lst = op[key][:i] + op[key][i + 1:]
                    if key == 'gens' and not lst:
                        continue
                    if key == 'gens':
                        yield with_op(dict(op, gens=lst, sched=[s for s in op['sched'] if s < len(lst)],
                                           abandon=[s for s in op['abandon'] if s < len(lst)]))
                    else:
                        yield with_op(dict(op, **{key: lst}))
            if op.get('g'):
                for g in G.simpler(op['g']):
                    if g['n'] >= 1:
                        yield with_op(dict(op, g=g))
            if op['rs'].get('k', 0) > 0:
                yield with_op(dict(op, rs=dict(op['rs'], k=op['rs']['k'] // 2)))


PROP = C16()
