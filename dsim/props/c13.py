"""C13: containers against reference models over random operation histories."""
from dsim.engine import Prop, guarded, exc_text
from dsim import graphs as G

import rosemary.data_structures.heaps as H
import rosemary.data_structures.unionfind as U
import rosemary.data_structures.bit_sieve as B

# ---------------------------------------------------------------- generation


def gen_values(rng, kind, n):
    if kind == 'tied':
        return [rng.int(0, 3) for _ in range(n)]
    if kind == 'asc':
        return list(range(n))
    if kind == 'desc':
        return list(range(n, 0, -1))
    if kind == 'pair':
        return [[rng.int(0, 4), rng.int(0, 4)] for _ in range(n)]
    if kind == 'str':
        return ['abcdef'[rng.below(6)] * rng.int(1, 3) for _ in range(n)]
    if kind == 'zigzag':
        return [i if i % 2 else 2 * n - i for i in range(n)]
    return [rng.int(-50, 50) for _ in range(n)]


VK = ('wide', 'tied', 'asc', 'desc', 'pair', 'str', 'zigzag')


def gen_leftist(rng, steps):
    kind = rng.pick(VK)
    heaps = rng.int(1, 4)
    ops = [['new', h, gen_values(rng, kind, rng.int(0, 6))] for h in range(heaps)]
    bias = rng.pick((0.3, 0.5, 0.7))
    for _ in range(steps):
        h = rng.below(heaps)
        r = rng.random()
        if r < 0.08 and heaps > 1:
            ops.append(['merge', h, rng.below(heaps)])
        elif r < 0.1:
            ops.append(['drain', h])
        elif r < 0.13:
            ops.append(['new', h, gen_values(rng, kind, rng.int(0, 6))])
        elif r < 0.2:
            ops.append(['min', h])
        elif rng.chance(bias):
            ops.append(['insert', h, gen_values(rng, kind, 1)[0]])
        else:
            ops.append(['delete', h])
    return ops


def gen_leftist_big(rng):
    n = rng.int(1200, 2500)
    kind = rng.pick(('asc', 'desc', 'zigzag', 'wide'))
    vals = gen_values(rng, kind, n)
    if rng.chance(0.5):
        return [['new', 0, vals], ['drain', 0]]
    return [['new', 0, []], ['bulk', 0, vals], ['drain', 0]]


def gen_pairing(rng, steps):
    ops = []
    fresh = [0]
    live = {}
    hi = rng.pick((3, 20, 1000))
    bias = rng.pick((0.3, 0.45, 0.6))
    gone = []
    for _ in range(steps):
        r = rng.random()
        if r < 0.3 and live:
            v = rng.pick(sorted(live))
            k = live[v] - rng.int(0, hi // 2 + 1)
            live[v] = k
            ops.append(['decrease', v, k])
        elif r < 0.33:
            ops.append(['bad_decrease', 'missing', 0])
        elif r < 0.4:
            ops.append(['list'])
        elif rng.chance(bias) or not live:
            if gone and rng.chance(0.3):
                v = gone.pop()
            else:
                v = 'v%d' % fresh[0]
                fresh[0] += 1
            if v in live:
                continue
            k = rng.int(0, hi)
            live[v] = k
            if rng.chance(0.15):
                many = [[k, v]]
                for _ in range(rng.int(0, 5)):
                    v = 'v%d' % fresh[0]
                    fresh[0] += 1
                    live[v] = rng.int(0, hi)
                    many.append([live[v], v])
                ops.append(['insert_many', many])
            else:
                ops.append(['insert', k, v])
        else:
            ops.append(['delete'])
            if live:
                # the generator's own notion of what could leave; the model decides during execution
                m = min(live.values())
                cands = [v for v in sorted(live) if live[v] == m]
                if len(cands) == 1:
                    del live[cands[0]]
                    gone.append(cands[0])
    ops += [['delete']] * (len(live) + 3)
    return ops


def gen_uf(rng, steps):
    n = rng.int(1, 14)
    ops = [['new', n, rng.pick(G.VT), rng.below(1000)]]
    for _ in range(steps):
        r = rng.random()
        if r < 0.45:
            ops.append(['union', rng.below(n), rng.below(n)])
        elif r < 0.55:
            ops.append(['union_names', rng.below(n), rng.below(n)])
        elif r < 0.6:
            ops.append(['bad_find'])
        elif r < 0.63:
            ops.append(['bad_union', rng.below(n)])
        else:
            ops.append(['find', rng.below(n)])
    return ops


def gen_uf_big(rng):
    """Many elements, united in an order which degenerates where the balancing is wrong."""
    n = rng.int(1100, 1500)
    ops = [['new', n, 'int', 0]]
    shape = rng.pick(('chain', 'back', 'star', 'ends', 'pairs'))
    for i in range(1, n):
        a, b = {'chain': (i - 1, i), 'back': (i, i - 1), 'star': (0, i), 'ends': (n - 1, i - 1),
                'pairs': (i & (i - 1), i)}[shape]
        ops.append(['union', a, b])
    return ops + [['find', rng.below(n)] for _ in range(8)]


def gen_named(rng, steps):
    n = rng.int(1, 14)
    ops = [['new', n, rng.pick(G.VT), rng.below(1000)]]
    for _ in range(steps):
        r = rng.random()
        if r < 0.5:
            ops.append(['union', rng.below(n), rng.below(n), rng.pick(('u', 'v', 'fresh', 'member'))])
        elif r < 0.56:
            ops.append(['bad_find'])
        else:
            ops.append(['find', rng.below(n)])
    return ops


def gen_bits(rng, steps):
    n = rng.pick((0, 1, 2, 3, rng.int(1, 40), rng.int(1, 40), 2 ** rng.int(0, 7), 2 ** rng.int(1, 7) - 1,
                  rng.int(1, 200)))
    ops = [['new', n]]
    for _ in range(steps // 3):
        r = rng.random()
        if r < 0.4:
            ops.append(['mark', rng.int(1, max(1, n + 2)) if rng.chance(0.5) else rng.int(1, 7)])
        elif r < 0.8:
            ops.append(['sum', rng.int(0, n)])
        elif r < 0.9:
            ops.append(['entries'])
        else:
            ops.append(['allsums'])
    ops.append(['allsums'])
    return ops


def tup(v):
    return tuple(v) if isinstance(v, list) else v


class C13(Prop):
    ID = 'C13'
    RUNS = {'quick': 40000, 'thorough': 600000}
    RULE = ('A run is one history of 10-250 operations on one kind of container (several heap instances merged into '
            'each other; failing operations interleaved), every answer compared with a plain model; non-trivial means '
            'the history contains a failing operation, a merge, a key decrease or tied keys.')
    STATE_MEASURE = 'distinct (container, operation, size class, kind of keys) tuples'
    REAL = ['LeftistHeap, PairingHeap, UnionFind, NamedUnionFind, BITSieve, BITSieveArray']
    STUB = ['vertex hash and order (simulator-decided element class in part of the runs)']
    ASSUMPTIONS = ['a heap that has been merged into another is not used again; pairing-heap values are distinct; '
                   'named-union-find is given names of existing, different sets']

    def gen(self, rng, index):
        kind = rng.weighted([('leftist', 4), ('pairing', 5), ('uf', 3), ('named', 3), ('bits', 1.5), ('bitsarray', 2.5),
                             ('leftist_big', 0.15), ('uf_big', 0.1)])
        steps = rng.weighted([(10, 4), (30, 4), (80, 4), (250, 0.7)])
        g = {'leftist': gen_leftist, 'pairing': gen_pairing, 'uf': gen_uf, 'named': gen_named, 'bits': gen_bits,
             'bitsarray': gen_bits}
        big = {'leftist_big': gen_leftist_big, 'uf_big': gen_uf_big}
        ops = big[kind](rng) if kind in big else g[kind](rng, steps)
        return {'kind': kind.replace('_big', ''), 'ops': ops}

    def execute(self, plan, ctx):
        st, err = guarded(getattr(self, plan['kind']), plan['ops'], ctx)
        if st == 'hang':
            ctx.violate('no-termination', plan['kind'], 'history of %d operations' % len(plan['ops']))
        elif st == 'exc':
            if err.__class__.__name__ == 'Violation':
                raise err
            ctx.violate('exception', plan['kind'], exc_text(err))

    def bad(self, ctx, kind, i, ops, what):
        ctx.violate('wrong', kind, 'operation %d %r: %s' % (i, ops[i] if len(repr(ops[i])) < 200 else ops[i][0], what))

    # ------------------------------------------------------------ leftist
    def leftist(self, ops, ctx):
        heaps, model = {}, {}
        for i, op in enumerate(ops):
            name, h = op[0], op[1]
            ctx.count('leftist.' + name)
            ctx.steps += 1
            bad = lambda what: self.bad(ctx, 'leftist', i, ops, what)
            if name == 'new':
                vals = [tup(v) for v in op[2]]
                heaps[h], model[h] = H.LeftistHeap(vals), sorted(vals)
            elif h not in heaps:
                continue
            elif name == 'insert':
                v = tup(op[2])
                heaps[h].insert(v)
                model[h] = sorted(model[h] + [v])
            elif name == 'bulk':
                for v in op[2]:
                    heaps[h].insert(tup(v))
                model[h] = sorted(model[h] + [tup(v) for v in op[2]])
            elif name == 'delete':
                want = model[h].pop(0) if model[h] else None
                if want is None:
                    ctx.fault('delete-from-empty')
                got = heaps[h].delete_min()
                ctx.event('delete', h, got)
                if got != want:
                    bad('delete_min returned %r, expected %r' % (got, want))
            elif name == 'min':
                if model[h]:
                    got = heaps[h].find_min()
                    ctx.event('min', h, got)
                    if got != model[h][0]:
                        bad('find_min returned %r, expected %r' % (got, model[h][0]))
            elif name == 'merge':
                o = op[2]
                if o == h or o not in heaps:
                    continue
                ctx.fault('merge')
                heaps[h].merge(heaps[o])
                model[h] = sorted(model[h] + model[o])
                del heaps[o], model[o]
            elif name == 'drain':
                got = list(heaps[h])
                ctx.event('drain', h, got if len(got) < 30 else len(got))
                if got != model[h]:
                    bad('draining gave %r, expected %r' % (got[:30], model[h][:30]))
                model[h] = []
            if h in heaps and len(heaps[h]) != len(model[h]):
                bad('size is %r, expected %d' % (len(heaps[h]), len(model[h])))
            ctx.state('leftist', name, min(12, len(model.get(h, ()))), len(set(map(repr, model.get(h, ())))) < len(
                model.get(h, ())))

    # ------------------------------------------------------------ pairing
    def pairing(self, ops, ctx):
        heap, model = H.PairingHeap(), {}
        for i, op in enumerate(ops):
            name = op[0]
            ctx.count('pairing.' + name)
            ctx.steps += 1
            bad = lambda what: self.bad(ctx, 'pairing', i, ops, what)
            if name == 'insert':
                if op[2] in model:
                    continue
                heap.insert(op[1], op[2])
                model[op[2]] = op[1]
            elif name == 'insert_many':
                many = [(k, v) for k, v in op[1] if v not in model]
                heap.insert_values(iter(many))
                model.update((v, k) for k, v in many)
            elif name == 'decrease':
                if op[1] not in model or op[2] > model[op[1]]:
                    continue
                ctx.fault('decrease-key')
                heap.decrease_key(op[1], op[2])
                model[op[1]] = op[2]
            elif name == 'bad_decrease':
                ctx.fault('failing-operation')
                st, e = guarded(heap.decrease_key, op[1], op[2])
                if st != 'exc':
                    bad('decrease_key of a missing value did not fail')
            elif name == 'list':
                got = heap.list_elements()
                if sorted(got) != sorted((k, v) for v, k in model.items()):
                    bad('elements %r, expected %r' % (sorted(got), sorted((k, v) for v, k in model.items())))
            elif name == 'delete':
                node = heap.delete_min()
                ctx.event('delete', None if node is None else (node.key, node.value))
                if not model:
                    ctx.fault('delete-from-empty')
                    if node is not None:
                        bad('delete_min of an empty heap returned %r' % ((node.key, node.value),))
                    continue
                if node is None:
                    bad('delete_min found nothing, model holds %r' % (model,))
                    continue
                if model.get(node.value) != node.key or node.key != min(model.values()):
                    bad('delete_min returned %r, model holds %r' % ((node.key, node.value), model))
                    continue
                del model[node.value]
            held = [v for _, v in heap.list_elements()]
            if sorted(held) != sorted(model):
                bad('holds %r, expected %r' % (sorted(held), sorted(model)))
            ctx.state('pairing', name, min(15, len(model)), len(set(model.values())) < len(model))

    # ------------------------------------------------------------ union-find
    def uf(self, ops, ctx):
        uf = comp = None
        for i, op in enumerate(ops):
            name = op[0]
            ctx.count('uf.' + name)
            ctx.steps += 1
            bad = lambda what: self.bad(ctx, 'uf', i, ops, what)
            if name == 'new':
                lab = G.labels({'n': op[1], 'vt': op[2], 'salt': op[3]})
                uf, comp = U.UnionFind(lab), list(range(op[1]))
                if op[2] in ('obj', 'clash'):
                    ctx.fault('hash-and-order:' + op[2])
                vt = op[2]
                continue
            if uf is None:
                continue
            if name in ('union', 'union_names'):
                a, b = op[1] % len(lab), op[2] % len(lab)
                x, y = lab[a], lab[b]
                if name == 'union_names':
                    x, y = uf.find(x), uf.find(y)
                uf.union(x, y)
                ca, cb = comp[a], comp[b]
                comp = [ca if c == cb else c for c in comp]
            elif name == 'bad_find':
                ctx.fault('failing-operation')
                if guarded(uf.find, 'no such element')[0] != 'exc':
                    bad('find of a missing element did not fail')
            elif name == 'bad_union':
                ctx.fault('failing-operation')
                if guarded(uf.union, lab[op[1] % len(lab)], 'no such element')[0] != 'exc':
                    bad('union with a missing element did not fail')
            else:
                a = op[1] % len(lab)
                r = uf.find(lab[a])
                ctx.event('find', a, r)
                if r not in lab or comp[lab.index(r)] != comp[a]:
                    bad('find(%r) returned %r, which is not in its set' % (lab[a], r))
            if len(lab) > 100:
                if i == len(ops) - 1 and len(set(map(uf.find, lab))) != len(set(comp)):
                    bad('%d sets, expected %d' % (len(set(map(uf.find, lab))), len(set(comp))))
            elif i % 7 == 0 or i == len(ops) - 1:
                names = [uf.find(v) for v in lab]
                for a in range(len(lab)):
                    for b in range(a):
                        if (names[a] == names[b]) != (comp[a] == comp[b]):
                            bad('%r and %r %s, expected %s' % (lab[a], lab[b], names[a] == names[b],
                                                               comp[a] == comp[b]))
            ctx.state('uf', name, len(set(comp)), vt)

    def named(self, ops, ctx):
        uf = comp = None
        names = {}
        serial = 0
        for i, op in enumerate(ops):
            name = op[0]
            ctx.count('named.' + name)
            ctx.steps += 1
            bad = lambda what: self.bad(ctx, 'named', i, ops, what)
            if name == 'new':
                lab = G.labels({'n': op[1], 'vt': op[2], 'salt': op[3]})
                uf, comp = U.NamedUnionFind(lab), list(range(op[1]))
                names = {c: lab[c] for c in comp}
                vt = op[2]
                if op[2] in ('obj', 'clash'):
                    ctx.fault('hash-and-order:' + op[2])
                continue
            if uf is None:
                continue
            if name == 'union':
                a, b = comp[op[1] % len(lab)], comp[op[2] % len(lab)]
                if a == b:
                    continue
                members = [v for v, c in zip(lab, comp) if c in (a, b)]
                w = {'u': names[a], 'v': names[b], 'fresh': ('set', serial), 'member': members[serial % len(members)]}[
                    op[3]]
                if op[3] == 'fresh' and vt in ('obj', 'clash'):
                    w = members[-1]
                serial += 1
                uf.union(names[a], names[b], w)
                comp = [a if c == b else c for c in comp]
                names[a] = w
                ctx.fault('rename')
            elif name == 'bad_find':
                ctx.fault('failing-operation')
                if guarded(uf.find, 'no such element')[0] != 'exc':
                    bad('find of a missing element did not fail')
            else:
                a = op[1] % len(lab)
                r = uf.find(lab[a])
                ctx.event('find', a, r)
                if r != names[comp[a]]:
                    bad('find(%r) returned %r, expected %r' % (lab[a], r, names[comp[a]]))
            if i % 5 == 0 or i == len(ops) - 1:
                for a in range(len(lab)):
                    r = uf.find(lab[a])
                    if r != names[comp[a]]:
                        bad('find(%r) returned %r, expected %r' % (lab[a], r, names[comp[a]]))
            ctx.state('named', name, len(set(comp)), vt)

    # ------------------------------------------------------------ bit sieves
    def bits(self, ops, ctx, cls=None, kind='bits'):
        cls = cls or B.BITSieve
        s = model = None
        for i, op in enumerate(ops):
            name = op[0]
            ctx.count(kind + '.' + name)
            ctx.steps += 1
            bad = lambda what: self.bad(ctx, kind, i, ops, what)
            if name == 'new':
                s, model = cls(op[1]), [0] + [1] * op[1]
                continue
            if s is None:
                continue
            if name == 'mark':
                s.mark_multiples(op[1])
                for k in range(op[1], len(model), op[1]):
                    if not model[k]:
                        ctx.fault('marked-twice')
                    model[k] = 0
            elif name == 'sum':
                m = min(op[1], len(model) - 1)
                got = s.partial_sum(m)
                ctx.event('sum', m, got)
                if got != sum(model[:m + 1]):
                    bad('partial_sum(%d) is %r, expected %d' % (m, got, sum(model[:m + 1])))
            elif name == 'entries':
                got = list(s.entries())
                want = model if kind == 'bitsarray' else model[1:]
                if got != want:
                    bad('entries %r, expected %r' % (got, want))
            elif name == 'allsums':
                acc = 0
                for m in range(len(model)):
                    acc += model[m]
                    if s.partial_sum(m) != acc:
                        bad('partial_sum(%d) is %r, expected %d' % (m, s.partial_sum(m), acc))
            ctx.state(kind, name, len(model), sum(model))

    def bitsarray(self, ops, ctx):
        self.bits(ops, ctx, B.BITSieveArray, 'bitsarray')


PROP = C13()
