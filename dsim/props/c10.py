"""C10: concurrent callers get the answers they would get alone."""
from dsim import catalog as C, engine, isolate as I, simrandom, simthreads
from dsim.engine import Prop

OPCODE_BUDGET = 60000      # schedule points of one operation beyond which it is not explored bytecode by bytecode


def counted(opcodes):
    def fn(env, op):
        c = simthreads.Counter(opcodes)
        args, kw = env.arguments(op)
        f = C.function(op)
        simrandom.SOURCE.reset(op['rs'])

        def call():
            with c:
                return C.take(f(*args, **kw))
        st, v = engine.guarded(call)
        return {'out': I.outcome(st, v), 'text': engine.exc_text(v) if st == 'exc' else '', 'points': c.n}
    return fn


class C10(Prop):
    ID = 'C10'
    RUNS = {'quick': 5000, 'thorough': 250000}
    RULE = ('A run lets 2-4 caller threads make 1-3 calls each (sharing argument objects, which nobody modifies) in one '
            'fresh process; the plan decides at which line - in part of the runs at which bytecode - of the library '
            'which thread loses the processor to which other; non-trivial means at least one switch happened inside a '
            'call.')
    STATE_MEASURE = 'distinct (operation, function interrupted, line) places at which a thread lost the processor'
    REAL = ['every public function and query in the catalogue, real interpreter threads']
    STUB = ['the choice of the running thread', 'the locks of the threading module', 'the random module (one source per '
            'thread)', 'vertex hash and order (simulator-decided vertex class in part of the runs)']
    ASSUMPTIONS = ['threads share arguments but do not modify them, and do not share an unfinished lazy sequence',
                   'code outside of the library (built-ins, standard library) is atomic']

    def gen(self, rng, index):
        c = C.Gen(rng, share=0.7)
        choices = C.CHOICES
        x = rng.random()
        if x < 0.55:
            choices = [(rng.weighted(C.CHOICES), 1)]
        elif x < 0.75:
            choices = [(rng.weighted(C.CHOICES), 1) for _ in range(2)]
        threads = []
        for _ in range(rng.pick((2, 2, 2, 3, 3, 4))):
            threads.append({'calls': [C.gen_op(c, choices) for _ in range(rng.pick((1, 1, 1, 2, 3)))]})
        if rng.chance(0.25):
            threads[1] = {'calls': [dict(o) for o in threads[0]['calls']]}
        after = [C.gen_op(c, choices) for _ in range(rng.pick((0, 0, 1)))]
        opcodes = rng.chance(0.3)
        plan = {'objs': c.objs, 'threads': threads, 'after': after, 'opcodes': opcodes, 'first': rng.int(0, 3)}
        style = rng.pick(('few', 'few', 'many', 'pingpong', 'log'))
        if style in ('few', 'many'):
            k = rng.int(1, 4) if style == 'few' else rng.int(5, 40)
            plan['marks'] = [[rng.int(0, len(threads) - 1), rng.int(0, 9999), rng.int(0, 5)] for _ in range(k)]
            if rng.chance(0.3):       # what happens first in a process happens at the beginning
                for m in plan['marks']:
                    m[1] = rng.int(0, 300)
        else:
            hi = rng.pick((3, 10, 60)) if style == 'pingpong' else rng.pick((200, 2000))
            plan['ops'] = [[rng.int(1, hi) if style == 'pingpong' else rng.logint(1, hi), rng.int(0, 5)]
                           for _ in range(rng.int(2, 120))]
        return plan

    def execute(self, plan, ctx):
        opcodes = plan['opcodes']
        refs = {}

        def ref(op, opcodes):
            key = repr((op, opcodes))
            if key not in refs:
                refs[key] = I.alone(plan, op, extra=counted(opcodes))
            return refs[key]
        every = [op for t in plan['threads'] for op in t['calls']] + plan['after']
        for op in every:
            if not I.comes_back(ctx, plan, op, ref(op, False)):
                return
        if opcodes and any(ref(op, False)['points'] > OPCODE_BUDGET / 8 for op in every):
            opcodes = False
        if any(ref(op, opcodes)['out'] == 'hang' for op in every):
            ctx.probe('reference-too-slow')
            return
        env = C.Env(plan)
        work = []
        for t in plan['threads']:
            work.append([(op, env.arguments(op), C.function(op)) for op in t['calls']])
        after = [(op, env.arguments(op), C.function(op)) for op in plan['after']]
        before = {k: env.snapshot(k) for k in env.built}
        got = [[] for _ in work]

        def body_of(i):
            def body(thread):
                for op, (args, kw), fn in work[i]:
                    thread.source.reset(op['rs'])
                    try:
                        r = ('ok', C.take(fn(*args, **kw)))
                    except Exception as e:
                        r = ('exc', e)
                    got[i].append(r)
            return body
        marks = {}
        for t, frac, pick in plan.get('marks', ()):
            if t < len(work):
                total = sum(ref(op, opcodes)['points'] for op, _, _ in work[t])
                marks.setdefault(t, []).append([1 + frac * total // 10000, pick])
        for t in marks:
            marks[t].sort()
        s = simthreads.Scheduler([(body_of(i), simrandom.Source()) for i in range(len(work))], plan.get('ops', ()),
                                 marks, opcodes, plan['first'])
        engine._CPU[0] = 60.0
        st, end = engine.guarded(s.run)
        engine._CPU[0] = engine.OP_CPU_S
        ctx.steps += s.steps
        if s.switches:
            ctx.fault('thread-switch-%s' % ('bytecode' if opcodes else 'line'), s.switches)
        names = [[op['fn'] for op, _, _ in w] for w in work]
        for number, fn, line in s.trail:
            ctx.state(names[number][min(len(got[number]), len(names[number]) - 1)], fn, line)
        if st != 'ok' or end != 'done':
            ctx.violate('no-progress', ','.join(sorted({n for w in names for n in w})),
                        '%s with threads %r' % (st if st != 'ok' else end, [
                            [I.describe(plan, op) for op, _, _ in w] for w in work]))
            return
        ctx.event('switches', s.switches, s.steps, s.trail[-6:])
        for i, w in enumerate(work):
            for j, (op, _, _) in enumerate(w):
                ctx.count(op['fn'])
                r = ref(op, opcodes)
                st, v = got[i][j]
                out = I.outcome(st, v)
                ctx.event('thread', i, op['fn'], out)
                if out != r['out']:
                    ctx.violate('interleaving-dependent', op['fn'], 'thread %d got %s, alone %s %s (threads %r, last '
                                'switches %r): %s' % (i, I.short(out), I.short(r['out']),
                                                      engine.exc_text(v) if st == 'exc' else r['text'], names,
                                                      s.trail[-4:], I.describe(plan, op)))
        for k in before:
            if env.snapshot(k) != before[k]:
                ctx.violate('argument-modified', ','.join(sorted({n for w in names for n in w})),
                            'object %d was %s, is %s' % (k, I.short(repr(before[k])), I.short(repr(env.snapshot(k)))))
        for op, (args, kw), fn in after:
            simrandom.SOURCE.reset(op['rs'])
            st, v = engine.guarded(lambda: C.take(fn(*args, **kw)))
            out = I.outcome(st, v)
            r = ref(op, opcodes)
            ctx.event('after', op['fn'], out)
            if out != r['out']:
                ctx.violate('damaged-for-later-calls', op['fn'], 'after the threads it answered %s, alone %s: %s' % (
                    I.short(out), I.short(r['out']), I.describe(plan, op)))

    def shrink_lists(self, plan):
        out = [['ops']] if plan.get('ops') else [['marks']]
        out.append(['after'])
        for i in range(len(plan['threads'])):
            out.append(['threads', i, 'calls'])
        return out

    def shrink_more(self, plan):
        if plan['opcodes']:
            yield dict(plan, opcodes=False)
        for i, t in enumerate(plan['threads']):
            if not t['calls'] and len(plan['threads']) > 2:
                threads = plan['threads'][:i] + plan['threads'][i + 1:]
                marks = [[m[0] - (m[0] > i), m[1], m[2]] for m in plan.get('marks', ()) if m[0] != i]
                q = dict(plan, threads=threads)
                if 'marks' in plan:
                    q['marks'] = marks
                yield q


PROP = C10()
