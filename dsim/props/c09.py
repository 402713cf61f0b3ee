"""C09: lazy sequences deliver the same items however their consumption is scheduled."""
import gc

from dsim import catalog as C, engine, isolate as I, simrandom
from dsim.engine import Prop, guarded, exc_text

LIMIT = 120
EXCS = {'KeyboardInterrupt': KeyboardInterrupt, 'ValueError': ValueError, 'StopIteration-like': RuntimeError,
        'GeneratorExit': GeneratorExit}


def start(env, op):
    args, kw = env.arguments(op)
    simrandom.SOURCE.reset(op['rs'])
    return guarded(lambda: iter(C.function(op)(*args, **kw)))


def pull(it):
    """('item', canonical, value) | ('end',) | ('exc', type) | ('hang',)"""
    def step():
        try:
            return (True, next(it))
        except StopIteration:
            return (False, None)
    st, v = guarded(step)
    if st == 'hang':
        return ('hang',)
    if st == 'exc':
        return ('exc', type(v).__name__)
    if not v[0]:
        return ('end',)
    return ('item', repr(C.canon(v[1])), v[1])


def drained(env, op):
    """The reference: the sequence consumed alone, from beginning to end."""
    st, it = start(env, op)
    if st != 'ok':
        return {'items': [], 'end': 'hang' if st == 'hang' else 'exc ' + type(it).__name__, 'out': '', 'text': ''}
    items = []
    end = 'limit'
    while len(items) < LIMIT:
        r = pull(it)
        if r[0] == 'item':
            items.append(r[1])
        else:
            end = r[0] if len(r) == 1 else 'exc ' + r[1]
            break
    return {'items': items, 'end': end, 'out': '', 'text': ''}


class Live:
    def __init__(self, g, ref):
        self.id = g['id']
        self.op = g['op']
        self.ref = ref
        self.it = None
        self.at = 0
        self.state = 'new'      # new, open, ended, closed
        self.held = []          # (value, canonical at delivery, still untouched)


class C09(Prop):
    ID = 'C09'
    RUNS = {'quick': 13000, 'thorough': 300000}
    RULE = ('A run starts 1-5 lazy sequences (sharing argument objects) in one fresh process; the plan decides who is '
            'advanced when, who is closed, dropped or thrown into half-way, when the consumer modifies an item it was '
            'given, and which eager calls happen in between; every item is compared with the item at the same place of '
            'the sequence consumed alone; non-trivial means two sequences were open at once or a fault was injected.')
    STATE_MEASURE = 'distinct (sequence, kind of the action before its next item, position class, open sequences) tuples'
    REAL = ['every lazy sequence of the library (%d kinds) and the eager operations called in between' % len(C.LAZY)]
    STUB = ['the random module', 'vertex hash and order (simulator-decided vertex class in part of the runs)']
    ASSUMPTIONS = ['the caller does not modify the arguments of an unfinished sequence',
                   'sequences are compared up to their first %d items' % LIMIT]

    def gen(self, rng, index):
        c = C.Gen(rng, share=0.8)
        choices = C.LAZY_CHOICES
        if rng.chance(0.6):
            choices = [(rng.weighted(C.LAZY_CHOICES), 1) for _ in range(rng.int(1, 2))]
        gens = [{'id': i, 'op': C.gen_op(c, choices, draws=False)} for i in range(rng.int(1, 5))]
        if len(gens) > 1 and rng.chance(0.3):
            gens[1] = {'id': 1, 'op': gens[0]['op']}
        ops = []
        style = rng.pick(('round', 'random', 'burst', 'nested'))
        for k in range(rng.int(2, 30)):
            x = rng.random()
            g = rng.int(0, len(gens) - 1)
            if style == 'round':
                g = k % len(gens)
            if x < 0.7:
                n = 1 if style in ('round', 'random') else rng.int(1, 6)
                if style == 'nested':
                    n = 1 if k % 3 else rng.int(3, 40)
                ops.append({'a': 'next', 'g': g, 'n': n})
            elif x < 0.82:
                ops.append({'a': 'spoil', 'g': g, 'style': rng.pick(('clear', 'grow', 'shift', 'reverse'))})
            elif x < 0.87:
                ops.append({'a': 'close', 'g': g})
            elif x < 0.91:
                ops.append({'a': 'throw', 'g': g, 'exc': rng.pick(sorted(EXCS))})
            elif x < 0.94:
                ops.append({'a': 'drop', 'g': g})
            else:
                same = [o['op']['fn'] for o in gens]
                eager = C.gen_op(c, None, rng.pick(same) if rng.chance(0.3) else None, draws=False)
                ops.append({'a': 'call', 'op': eager})
        return {'objs': c.objs, 'gens': gens, 'ops': ops}

    def execute(self, plan, ctx):
        refs = {}
        for g in plan['gens']:
            key = repr(g['op'])
            if key not in refs:
                refs[key] = I.alone(plan, g['op'], extra=drained)
                if not I.comes_back(ctx, plan, g['op'], refs[key]):
                    return
        calls = {}
        for k, a in enumerate(plan['ops']):
            if a['a'] == 'call':
                calls[k] = I.alone(plan, a['op'])
                if not I.comes_back(ctx, plan, a['op'], calls[k]):
                    return
        env = C.Env(plan)
        live = [Live(g, refs[repr(g['op'])]) for g in plan['gens']]
        by = {x.id: x for x in live}
        self.last = 'start'
        for g in plan['gens']:
            for k in C.refs(g['op']):
                env.snapshot(k)
        for k, a in enumerate(plan['ops']):
            ctx.steps += 1
            if a['a'] == 'call':
                self.call(plan, a['op'], calls[k], env, ctx)
                continue
            x = by.get(a['g'])
            if x is None:
                continue
            if a['a'] == 'next':
                for _ in range(a['n']):
                    if not self.advance(plan, env, x, live, ctx):
                        break
            elif a['a'] == 'spoil':
                if x.held and x.held[-1][2]:
                    mine = {}
                    I.protected(env, mine)
                    n = I.spoil(x.held[-1][0], a['style'], mine)
                    x.held[-1] = (x.held[-1][0], None, False)
                    if n:
                        ctx.fault('consumer-modifies-item', n)
                        ctx.event('spoil', x.id, a['style'])
                        self.last = 'spoil'
                        self.inputs(plan, env, x, ctx, 'modifying an item it delivered')
                        self.items_kept(plan, live, ctx, 'the consumer modified an item of %s' % x.op['fn'])
            elif x.state == 'open':
                self.stop(plan, env, x, a, ctx)
        for x in live:
            while x.state in ('new', 'open') and self.advance(plan, env, x, live, ctx):
                pass
        self.items_kept(plan, live, ctx, 'the sequences were consumed to their ends')

    # ------------------------------------------------------------------
    def inputs(self, plan, env, x, ctx, what):
        for k in C.refs(x.op):
            now = env.snapshot(k)
            if now != env.first[k]:
                ctx.violate('argument-modified', x.op['fn'], '%s changed object %d from %s to %s: %s' % (
                    what, k, I.short(repr(env.first[k])), I.short(repr(now)), I.describe(plan, x.op)))

    def items_kept(self, plan, live, ctx, what):
        for x in live:
            for pos, (v, cn, untouched) in enumerate(x.held):
                if untouched and repr(C.canon(v)) != cn:
                    ctx.violate('delivered-item-changed', x.op['fn'], 'item %d was %s when delivered and is %s after %s: '
                                '%s' % (pos, I.short(cn), I.short(repr(C.canon(v))), what, I.describe(plan, x.op)))

    def advance(self, plan, env, x, live, ctx):
        if not hasattr(env, 'first'):
            env.first = {}
        for k in C.refs(x.op):
            if k not in env.first:
                env.first[k] = env.snapshot(k)
        fn = x.op['fn']
        if x.state == 'new':
            st, it = start(env, x.op)
            ctx.count(fn)
            if st != 'ok':
                x.state = 'ended'
                got = 'hang' if st == 'hang' else 'exc ' + type(it).__name__
                ctx.event('start', x.id, fn, got)
                if x.ref['items'] or x.ref['end'] != got:
                    ctx.violate('schedule-dependent', fn, 'failed to start: %s; alone it delivered %d items: %s' % (
                        exc_text(it) if st == 'exc' else st, len(x.ref['items']), I.describe(plan, x.op)))
                return False
            x.it, x.state = it, 'open'
        if x.state != 'open':
            return False
        if x.at >= LIMIT:
            x.state = 'limit'
            return False
        nopen = sum(y.state == 'open' for y in live)
        if nopen > 1 and self.last != ('next', x.id):
            ctx.fault('switch-between-open-sequences')
        ctx.state(fn, self.last if isinstance(self.last, str) else 'next', min(x.at, 5), nopen)
        self.last = ('next', x.id)
        ctx.steps += 1
        r = pull(x.it)
        ref = x.ref
        if r[0] == 'item':
            want = ref['items'][x.at] if x.at < len(ref['items']) else 'the end (%s)' % ref['end']
            ctx.event('item', x.id, r[1])
            if r[1] != want:
                x.state = 'ended'
                ctx.violate('schedule-dependent', fn, 'item %d is %s; consumed alone it is %s: %s' % (
                    x.at, I.short(r[1]), I.short(want), I.describe(plan, x.op)))
                return False
            x.held.append((r[2], r[1], True))
            x.at += 1
            self.inputs(plan, env, x, ctx, 'advancing')
            return True
        x.state = 'ended'
        got = r[0] if len(r) == 1 else 'exc ' + r[1]
        ctx.event('end', x.id, got)
        if x.at != len(ref['items']) or got != ref['end']:
            ctx.violate('schedule-dependent', fn, 'ended with %s after %d items; consumed alone it ends with %s after %d: %s'
                        % (got, x.at, ref['end'], len(ref['items']), I.describe(plan, x.op)))
        self.inputs(plan, env, x, ctx, 'finishing')
        return False

    def stop(self, plan, env, x, a, ctx):
        """The consumer closes, drops or throws into an open sequence."""
        what = a['a']
        x.state = 'closed'
        if what == 'drop':
            x.it = None
            gc.collect()
        elif what == 'close':
            if not hasattr(x.it, 'close'):
                return
            st, v = guarded(x.it.close)
            if st != 'ok':
                ctx.violate('close-failed', x.op['fn'], '%s: %s' % (
                    exc_text(v) if st == 'exc' else st, I.describe(plan, x.op)))
        else:
            if not hasattr(x.it, 'throw'):
                return
            exc = EXCS[a['exc']]

            def throw():
                try:
                    x.it.throw(exc('injected'))
                except BaseException as e:
                    if type(e) is not exc and not isinstance(e, (StopIteration, engine.Hang)):
                        raise
                    if isinstance(e, engine.Hang):
                        raise
                    return 'raised'
                return 'swallowed'
            st, v = guarded(throw)
            if st == 'hang':
                ctx.violate('close-failed', x.op['fn'], 'no answer to an exception thrown in: %s' % I.describe(plan, x.op))
        ctx.fault('sequence-' + what)
        ctx.event(what, x.id, x.at)
        self.last = what
        self.inputs(plan, env, x, ctx, 'abandoning it')
        if what == 'close':
            r = pull(x.it)
            if r[0] != 'end':
                ctx.violate('alive-after-close', x.op['fn'], 'delivered %r after close: %s' % (
                    r[:2], I.describe(plan, x.op)))

    def call(self, plan, op, ref, env, ctx):
        if ref['out'] == 'hang':
            return
        before = {k: env.snapshot(k) for k in C.refs(op)}
        st, v = I.perform(env, op)
        out = I.outcome(st, v)
        ctx.event('call', op['fn'], out)
        ctx.fault('eager-call-between')
        self.last = 'call'
        if out != ref['out']:
            ctx.violate('schedule-dependent', op['fn'], 'with sequences open it answered %s, alone %s: %s' % (
                I.short(out), I.short(ref['out']), I.describe(plan, op)))
        for k in before:
            if env.snapshot(k) != before[k]:
                ctx.violate('argument-modified', op['fn'], 'object %d: %s' % (k, I.describe(plan, op)))

    def shrink_lists(self, plan):
        return [['gens'], ['ops']]

    def shrink_more(self, plan):
        for k, a in enumerate(plan['ops']):
            if a['a'] == 'next' and a['n'] > 1:
                ops = list(plan['ops'])
                ops[k] = dict(a, n=a['n'] // 2)
                yield dict(plan, ops=ops)
        for j, o in enumerate(plan['objs']):
            objs = list(plan['objs'])
            if o['k'] == 'list':
                for i in range(len(o['v'])):
                    objs[j] = dict(o, v=o['v'][:i] + o['v'][i + 1:])
                    yield dict(plan, objs=list(objs))
            elif o['k'] == 'graph':
                for i in range(len(o['g']['edges'])):
                    objs[j] = dict(o, g=dict(o['g'], edges=o['g']['edges'][:i] + o['g']['edges'][i + 1:]))
                    yield dict(plan, objs=list(objs))


PROP = C09()
