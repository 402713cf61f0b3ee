"""C12: an answer depends only on its arguments, never on what was called before."""
from dsim import catalog as C, engine, isolate as I
from dsim.engine import Prop

STYLES = ('clear', 'grow', 'shift', 'reverse')


class C12(Prop):
    ID = 'C12'
    RUNS = {'quick': 6500, 'thorough': 250000}
    RULE = ('A run is a history of 3-12 (sometimes 40-130) steps by one caller in one fresh process: calls from the whole catalogue of '
            'public operations (sharing argument objects), failing calls, repeated calls, the caller modifying a result '
            'it was given, the caller editing one of its argument objects; every answer is compared with the answer of '
            'the same call alone in a fresh process; non-trivial means a failing call, a repeat, a modified result or an '
            'edit happened before another call.')
    STATE_MEASURE = 'distinct (operation, kind of the preceding step, preceding operation) tuples'
    REAL = ['every public function and query in the catalogue (%d operations over all packages)' % len(C.CATALOG)]
    STUB = ['the random module', 'vertex hash and order (simulator-decided vertex class in part of the runs)']
    ASSUMPTIONS = ['operations whose documented purpose is to modify the object they are called on are not in the '
                   'catalogue', 'the caller does not modify an argument while a lazy sequence over it is unfinished']

    def gen(self, rng, index):
        c = C.Gen(rng, share=0.75)
        choices, focus = C.CHOICES, 0
        if rng.chance(0.5):      # few operations, so that they meet again with other arguments
            focus = 1
            names = [rng.pick(C.NAMES)] + [rng.weighted(C.CHOICES) for _ in range(rng.int(0, 2))]
            choices = [(n, 1) for n in names]
        ops = []
        calls = []
        steps = rng.int(3, 12)
        short_lived = rng.chance(0.2)
        if rng.chance(0.03):     # a long life of one or two operations: whatever fills up or wears out
            steps = rng.int(40, 130)
            choices = [(n, 1) for n in [rng.weighted(C.CHOICES) for _ in range(rng.int(1, 2))]]
        for _ in range(steps):
            k = rng.random()
            if calls and k < 0.2:
                ops.append({'id': len(ops), 'do': 'call', 'op': rng.pick(calls)})
            elif calls and k < 0.36:
                ops.append({'id': len(ops), 'do': 'spoil', 'of': rng.pick([o['id'] for o in ops if o['do'] == 'call']),
                            'style': rng.pick(STYLES)})
                if rng.chance(0.6):
                    ops.append({'id': len(ops), 'do': 'call', 'op': rng.pick(calls)})
            elif calls and k < 0.40 + 0.2 * short_lived:
                op = C.twin_op(c, rng.pick(calls))
                if op:
                    calls.append(op)
                    ops.append({'id': len(ops), 'do': 'call', 'op': op})
            elif c.objs and k < 0.50 + 0.15 * short_lived + 0.1 * focus:
                k = rng.int(0, len(c.objs) - 1)
                kinds = C.EDITS.get(c.objs[k]['k'])
                if kinds and not c.objs[k]['tag'].startswith(('congr', 'radix', 'distmat')):
                    ops.append({'id': len(ops), 'do': 'edit',
                                'edit': {'obj': k, 'e': rng.pick(kinds), 'i': rng.int(0, 20), 'j': rng.int(0, 20),
                                         'w': rng.int(1, 5)}})
                    again = [o for o in calls if k in C.refs(o)]
                    if again and rng.chance(0.7):
                        ops.append({'id': len(ops), 'do': 'call', 'op': rng.pick(again)})
            else:
                op = C.gen_op(c, choices)
                if rng.chance(0.08):
                    I.spoil_args(c, op)
                calls.append(op)
                ops.append({'id': len(ops), 'do': 'call', 'op': op})
        if short_lived:          # objects that die right after the call, so that later ones take their place in memory
            for o in ops:
                if o['do'] == 'call' and rng.chance(0.7):
                    o['fresh'] = True
        return {'objs': c.objs, 'ops': ops}

    def execute(self, plan, ctx):
        # the references first: this process is still pristine
        refs, edits, fresh = {}, [], {}
        for step in plan['ops']:
            if step['do'] == 'edit':
                edits.append(step['edit'])
            if step.get('fresh'):
                fresh[step['id']] = list(edits)
            if step['do'] == 'call':
                refs[step['id']] = I.alone(plan, step['op'], list(edits))
                if not I.comes_back(ctx, plan, step['op'], refs[step['id']]) and not step['op'].get('bad'):
                    return
        env = C.Env(plan)
        held = {}
        mine = {}            # everything that is or was part of the caller's arguments
        prev, prev_fn = 'start', ''
        for step in plan['ops']:
            ctx.steps += 1
            if step['do'] == 'edit':
                env.obj(step['edit']['obj'])
                I.protected(env, mine)
                env.edit(step['edit'])
                for i, (v, o, cn) in list(held.items()):      # a result may legitimately hold the caller's own objects
                    held[i] = (v, o, C.canon(v))
                ctx.fault('caller-edits-argument')
                ctx.event('edit', step['edit'])
                prev = 'edit'
            elif step['do'] == 'spoil':
                if step['of'] in held:
                    res = held.pop(step['of'])
                    uses = {k: env.snapshot(k) for k in env.built}
                    n = I.spoil(res[0], step['style'], I.protected(env, mine))
                    ctx.fault('caller-modifies-result', n)
                    ctx.event('spoil', step['of'], step['style'], n)
                    for k in uses:
                        if env.snapshot(k) != uses[k]:
                            ctx.violate('result-aliases-argument', res[1]['fn'], 'modifying the result changed an '
                                        'argument: %s' % I.describe(plan, res[1]))
                    prev = 'spoil'
                    # results may share structure that belongs to the caller; only compare the untouched ones
                    for i in list(held):
                        if I.C.canon(held[i][0]) != held[i][2]:
                            ctx.violate('results-share-structure', held[i][1]['fn'],
                                        'modifying the result of %s changed an earlier or later result of %s' % (
                                            res[1]['fn'], I.describe(plan, held[i][1])))
            else:
                if step.get('fresh'):
                    self.fresh_call(plan, step, refs, fresh[step['id']], ctx)
                else:
                    self.call(plan, step, env, refs, held, ctx, prev, prev_fn)
                prev, prev_fn = ('failed' if 'exc' in refs[step['id']]['out'][:4] else 'call'), step['op']['fn']

    def fresh_call(self, plan, step, refs, edits, ctx):
        """The call on argument objects of its own, which are gone when it is over."""
        op, ref = step['op'], refs[step['id']]
        if ref['out'] == 'hang':
            return
        env = C.Env(plan)
        used = set(C.refs(op))
        for e in edits:
            if e['obj'] in used:
                env.edit(e)
        st, value = I.perform(env, op)
        out = I.outcome(st, value)
        ctx.fault('arguments-die-after-call', len(used))
        ctx.count(op['fn'])
        ctx.event('fresh', op['fn'], out)
        if out != ref['out']:
            ctx.violate('history-dependent', op['fn'], 'on new objects: answered %s, but alone in a fresh process %s %s: %s' % (
                I.short(out), I.short(ref['out']), engine.exc_text(value) if st == 'exc' else ref['text'],
                I.describe(plan, op)))

    def call(self, plan, step, env, refs, held, ctx, prev, prev_fn):
        op, ref = step['op'], refs[step['id']]
        used = C.refs(op)
        before = {k: env.snapshot(k) for k in env.built}
        for k in used:
            before.setdefault(k, env.snapshot(k))
        if ref['out'] == 'hang':
            ctx.probe('reference-too-slow')
            return
        st, value = I.perform(env, op)
        out = I.outcome(st, value)
        ctx.count(op['fn'])
        ctx.event(op['fn'], out)
        ctx.state(op['fn'], prev, prev_fn)
        if st == 'exc':
            ctx.fault('failing-call')
        if any(o is not None and o[1] is op or o[1] == op for o in held.values()):
            ctx.fault('repeated-call')
        if out != ref['out']:
            ctx.violate('history-dependent', op['fn'], 'answered %s, but alone in a fresh process %s %s: %s' % (
                I.short(out), I.short(ref['out']), engine.exc_text(value) if st == 'exc' else ref['text'],
                I.describe(plan, op)))
        for k in before:
            if env.snapshot(k) != before[k]:
                ctx.violate('argument-modified', op['fn'], 'object %d was %s, is now %s: %s' % (
                    k, I.short(repr(before[k])), I.short(repr(env.snapshot(k))), I.describe(plan, op)))
        for i, (v, o, cn) in held.items():
            if C.canon(v) != cn:
                ctx.violate('earlier-result-changed', op['fn'], 'a result of %s held by the caller was changed by '
                            'calling %s' % (I.describe(plan, o), I.describe(plan, op)))
        if st == 'ok':
            held[step['id']] = (value, op, C.canon(value))
            if len(held) > 14:
                del held[min(held)]

    def shrink_more(self, plan):
        for k, step in enumerate(plan['ops']):
            if step['do'] != 'call':
                continue
            if step['op']['rs'].get('k', 0):
                ops = list(plan['ops'])
                ops[k] = dict(step, op=dict(step['op'], rs={'pol': 'uniform', 'seed': 0}))
                yield dict(plan, ops=ops)
        from dsim import graphs as G
        for j, o in enumerate(plan['objs']):
            objs = list(plan['objs'])
            if o['k'] == 'list':
                for i in range(len(o['v'])):
                    objs[j] = dict(o, v=o['v'][:i] + o['v'][i + 1:])
                    yield dict(plan, objs=list(objs))
            elif o['k'] == 'graph':
                for i in range(len(o['g']['edges'])):
                    g = dict(o['g'], edges=o['g']['edges'][:i] + o['g']['edges'][i + 1:])
                    objs[j] = dict(o, g=g)
                    yield dict(plan, objs=list(objs))


PROP = C12()
