"""C24: a call leaves the process as it found it."""
import sys

from dsim import ambient, catalog as C, engine, isolate as I, simrandom, simthreads
from dsim.engine import Prop
from dsim.props.c09 import LIMIT, pull, start
from dsim.props.c11 import C11, KINDS, depth


class C24(Prop):
    ID = 'C24'
    RUNS = {'quick': 7000, 'thorough': 300000}
    RULE = ('A run puts one fresh process into a legal ambient state (garbage collection, recursion limit, decimal context, '
            'digit limit, working directory, signal handlers, warning filters) and makes 2-8 steps: calls, failing calls, '
            'calls cut short (exception at a line or bytecode, exhausted stack, failing draw), items of lazy sequences and '
            'their abandonment, pairs of concurrent calls; whenever control is with the caller the ambient state and the place of '
            'the random generator are compared with before the step, and answers with those of the same call alone in '
            'a fresh process in the usual ambient state; non-trivial means the ambient state was not the usual one or a fault fired.')
    STATE_MEASURE = 'distinct (operation, kind of step, function and line cut short) tuples'
    REAL = ['every public function, query and lazy sequence in the catalogue']
    STUB = ['the random module (a model of the process generator with seed, getstate and setstate)', 'threading locks',
            'the moment and kind of interruptions', 'the choice of the running thread',
            'vertex hash and order (simulator-decided vertex class in part of the runs)']
    ASSUMPTIONS = ['standard output may be written to', 'the recursion limit is not set below the usual one, except by the '
                   'exhausted-stack fault', 'modules may be imported by a call']

    def gen(self, rng, index):
        c = C.Gen(rng, share=0.6)
        choices = C.CHOICES
        if rng.chance(0.7):
            names = [rng.pick(C.FAST) for _ in range(rng.int(1, 3))]
            choices = [(n, 1) for n in names]
        ops = []
        gens = 0
        for _ in range(rng.int(2, 8)):
            k = rng.random()
            if k < 0.35:
                op = C.gen_op(c, choices)
                if rng.chance(0.15):
                    I.spoil_args(c, op)
                ops.append({'do': 'call', 'op': op})
            elif k < 0.7:
                heavy = rng.chance(0.03)
                step = {'do': 'cut', 'op': C.gen_op(c, choices, rng.pick(C.HEAVY) if heavy else None), 'bytecode': rng.chance(0.3)}
                how = 0 if heavy else rng.random()
                if how < 0.7:
                    step.update(how='point', kind=rng.pick(('interrupt', 'memory', 'timeout', 'exit')),
                                at=rng.logint(1, rng.pick((10, 100, 3000))))
                elif how < 0.85:
                    step.update(how='stack', depth=rng.int(1, rng.pick((8, 8, 40))))
                else:
                    step.update(how='draw', kind=rng.pick(('memory', 'timeout')), at=rng.logint(1, 100))
                ops.append(step)
            elif k < 0.92:
                if not gens or rng.chance(0.4):
                    name = rng.pick(sorted(C.LAZY))
                    ops.append({'do': 'open', 'g': gens, 'op': C.gen_op(c, [(name, 1)])})
                    gens += 1
                g = rng.int(0, gens - 1)
                ops.append({'do': 'next', 'g': g, 'n': rng.int(1, 8)})
                if rng.chance(0.4):
                    ops.append({'do': rng.pick(('close', 'drop', 'throw')), 'g': rng.int(0, gens - 1)})
            else:
                op = C.gen_op(c, choices)
                other = C.gen_op(c, [(op['fn'], 1)]) if rng.chance(0.7) else C.gen_op(c, choices)
                ops.append({'do': 'pair', 'calls': [op, other], 'first': rng.int(0, 1), 'opcodes': rng.chance(0.2),
                            'marks': [[rng.int(0, 1), rng.logint(1, 400), 0] for _ in range(rng.int(1, 6))]})
        return {'objs': c.objs, 'around': ambient.gen(rng), 'ops': ops}

    def execute(self, plan, ctx):
        refs = {}
        for step in plan['ops']:
            if step['do'] == 'call':
                refs[repr(step['op'])] = r = I.alone(plan, step['op'])
                if not I.comes_back(ctx, plan, step['op'], r):
                    return
                if r['out'] == 'hang':
                    return
        env = C.Env(plan)
        src = simrandom.SOURCE
        lazy = {}
        for step in plan['ops']:      # arguments are built in the usual state
            for op in [step['op']] if 'op' in step else step.get('calls', ()):
                env.arguments(op)
        src.reset({'pol': 'uniform', 'seed': 0, 'k': 0})
        ambient.vary(plan['around'])
        for k in plan['around']:
            ctx.fault('unusual-' + k)
        first = ambient.snapshot()
        for step in plan['ops']:
            ctx.steps += 1
            before = ambient.snapshot()
            do = step['do']
            where = None
            if do in ('call', 'cut'):
                op = step['op']
                if do == 'call':
                    engine._CPU[0] = I.BAD_CPU_S if op.get('bad') else engine.OP_CPU_S
                    st, value = I.perform(env, op)
                    engine._CPU[0] = engine.OP_CPU_S
                else:
                    st, value, where = self.cut(step, env, op, ctx, before)
                name = op['fn']
                ctx.event(do, name, where, st)
            elif do == 'open':
                name = step['op']['fn']
                st, value = start(env, step['op'])
                if st == 'ok':
                    lazy[step['g']] = (name, value)
            elif do == 'pair':
                name = ','.join(sorted({o['fn'] for o in step['calls']}))
                st = self.pair(step, env, ctx)
                if st != 'done':
                    return
            elif step['g'] in lazy:
                name, it = lazy[step['g']]
                st = 'ok'
                src.reset({'pol': 'uniform', 'seed': step['g'], 'k': 0})
                if do == 'next':
                    for _ in range(step['n']):
                        st = pull(it)[0]
                        self.compare(plan, ctx, before, name, 'between its items')
                        if st != 'item':
                            break
                else:
                    self.stop(do, lazy, step['g'])
                    it = None
                    ctx.fault('sequence-' + do)
                ctx.event(do, name, st)
            else:
                continue
            if st == 'hang':
                ctx.probe('too-slow')
                return
            ctx.count(name)
            ctx.state(name, do, where)
            self.compare(plan, ctx, before, name, {
                'call': 'after a call', 'open': 'after starting the sequence', 'next': 'between its items',
                'pair': 'after two concurrent calls'}.get(do, 'after it was cut short (%s)' % (where or do,)), step)
            if do == 'call':
                out, r = I.outcome(st, value), refs[repr(step['op'])]
                if out != r['out']:
                    ctx.violate('depends-on-ambient-state', name, 'with %r answered %s, but in the usual state %s %s: %s' % (
                        plan['around'], I.short(out), I.short(r['out']),
                        engine.exc_text(value) if st == 'exc' else r['text'], I.describe(plan, step['op'])))
            value = None
        lazy.clear()
        src.reset({'pol': 'uniform', 'seed': 0, 'k': 0})
        self.compare(plan, ctx, first, 'the whole run', 'at the end')

    @staticmethod
    def compare(plan, ctx, before, name, when, step=None):
        for what, a, b in ambient.differences(before, ambient.snapshot()):
            if what in ('standard modules', 'environment'):
                a, b = 'as it was', 'changed'
            ctx.violate('ambient-state-changed', name, '%s: was %r, is %r %s: %s' % (
                what, a, b, when, I.describe(plan, step['op']) if step and 'op' in step else plan['ops']))

    @staticmethod
    def stop(do, lazy, g):
        name, it = lazy.pop(g)
        if do == 'close' and hasattr(it, 'close'):
            engine.guarded(it.close)
        elif do == 'throw' and hasattr(it, 'throw'):
            def throw():
                try:
                    it.throw(KeyboardInterrupt())
                except KeyboardInterrupt:
                    pass
            engine.guarded(throw)

    def cut(self, step, env, op, ctx, before):
        args, kw = env.arguments(op)
        fn = C.function(op)
        src = simrandom.SOURCE
        src.reset(op['rs'])
        exc = KINDS[step['kind']]() if 'kind' in step else None

        def call():
            return C.take(fn(*args, **kw))
        where = None
        if step['how'] == 'point':
            counter = simthreads.Counter(step['bytecode'], step['at'], exc)
            with counter:
                st, value = C11.run(call, exc)
            where = counter.fired
        elif step['how'] == 'stack':
            limit = sys.getrecursionlimit()
            low = depth() + 3 + step['depth']
            sys.setrecursionlimit(low)
            try:
                st, value = C11.run(call, None)
            finally:
                now = sys.getrecursionlimit()
                sys.setrecursionlimit(limit)
            if now != low:
                ctx.violate('ambient-state-changed', op['fn'], 'recursion limit: was %d, is %d after the stack was exhausted' % (
                    low, now))
            where = 'stack' if st == 'cut' else None
        else:
            src.fail_at, src.failure = step['at'], exc
            st, value = C11.run(call, exc)
            where = 'draw %d' % step['at'] if src.draws >= src.fail_at else None
            src.fail_at, src.failure = 0, None
        value = None
        if where is not None:
            ctx.fault('cut-' + step['how'])
        return st, None, where

    def pair(self, step, env, ctx):
        work = [(op, env.arguments(op), C.function(op)) for op in step['calls']]
        sources = [simrandom.Source() for _ in work]
        states = []

        def body_of(i):
            def body(thread):
                op, (args, kw), fn = work[i]
                thread.source.reset(op['rs'])
                try:
                    C.take(fn(*args, **kw))
                except Exception:
                    pass
                states.append((op, ambient.randomness(thread.source)))
            return body
        marks = {}
        for t, at, pick in step['marks']:
            marks.setdefault(t, []).append([at, pick])
        for t in marks:
            marks[t].sort()
        s = simthreads.Scheduler([(body_of(i), sources[i]) for i in range(len(work))], (), marks, step['opcodes'], step['first'])
        engine._CPU[0] = 60.0
        st, end = engine.guarded(s.run)
        engine._CPU[0] = engine.OP_CPU_S
        if st != 'ok' or end != 'done':
            ctx.probe('pair-did-not-end')
            return 'stuck'
        if s.switches:
            ctx.fault('thread-switch', s.switches)
        for op, how in states:
            if how != "the caller's":
                ctx.violate('ambient-state-changed', op['fn'], 'random generator: %s after a concurrent call' % how)
        return end

    def shrink_more(self, plan):
        for k in plan['around']:
            yield dict(plan, around={a: b for a, b in plan['around'].items() if a != k})
        for k, step in enumerate(plan['ops']):
            def put(new):
                ops = list(plan['ops'])
                ops[k] = new
                return dict(plan, ops=ops)
            if step.get('n', 1) > 1:
                yield put(dict(step, n=step['n'] // 2))
            if step.get('bytecode'):
                yield put(dict(step, bytecode=False))
            for i in range(len(step.get('marks', ()))):
                yield put(dict(step, marks=step['marks'][:i] + step['marks'][i + 1:]))


PROP = C24()
