"""C23: calls made in the middle of another call, by the same thread."""
from dsim import catalog as C, engine, graphs as G, isolate as I, simrandom, simthreads
from dsim.engine import Prop
from dsim.props.c11 import OPCODE_BUDGET, counted


class Nester(simthreads.Counter):
    """Runs actions at chosen points of the library code (what a signal handler or a finaliser does)."""

    def __init__(self, opcodes, at):
        super().__init__(opcodes)
        self.actions = at
        self.struck = []
        self.due = []

    def _local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self.n += 1
            if self.n in self.actions:
                self.due.append(self.actions[self.n])
            if self.due and not self.importing and frame.f_lineno is not None:      # None: at no line of the source
                self.struck.append((frame.f_code.co_name, frame.f_lineno))
                for action in self.due:
                    action()
                del self.due[:]
        return self._local


class C23(Prop):
    ID = 'C23'
    RUNS = {'quick': 6000, 'thorough': 300000}
    RULE = ('A run is 1-3 calls of one thread in one fresh process; at chosen lines or bytecodes of the library (as a signal '
            'handler or finaliser would), or inside a hash or comparison of a vertex, up to four further complete calls are '
            'made (the same call, the same operation on other or equal arguments, any other operation), then the outer call '
            'goes on; inner and outer answers are compared with the calls alone in a fresh process, arguments must be '
            'untouched; non-trivial means at least one inner call was made.')
    STATE_MEASURE = 'distinct (outer operation, function and line interrupted, inner operation) tuples'
    REAL = ['every public function and query in the catalogue']
    STUB = ['the moment of the inner calls', 'the random module (each call has its own draws)', 'threading locks',
            'vertex hash and order (simulator-decided vertex class in part of the runs)']
    ASSUMPTIONS = ['inner calls start between lines or bytecodes of the library, or in a vertex operation; built-ins are atomic',
                   'inner calls are not themselves interrupted', 'operations whose documented purpose is to modify the '
                   'object they are called on are not in the catalogue']

    def gen(self, rng, index):
        c = C.Gen(rng, share=0.7)
        ops = []
        for _ in range(rng.int(1, 3)):
            op = C.gen_op(c, None, rng.pick(C.FAST) if rng.chance(0.5) else None)
            inner = []
            for _ in range(rng.pick((1, 1, 1, 2, 3, 4))):
                k = rng.random()
                if k < 0.3:
                    iop = op
                elif k < 0.45:
                    iop = C.twin_op(c, op) or op
                elif k < 0.75:
                    iop = C.gen_op(c, None, op['fn'])
                else:
                    iop = C.gen_op(c)
                step = {'op': iop, 'frac': rng.int(0, 9999)}
                if rng.chance(0.15):
                    step['how'] = 'vertex'
                inner.append(step)
            ops.append({'op': op, 'inner': inner, 'bytecode': rng.chance(0.4)})
        return {'objs': c.objs, 'ops': ops}

    def execute(self, plan, ctx):
        refs = {}

        def ref(op, opcodes=False):
            key = repr((op, opcodes))
            if key not in refs:
                refs[key] = I.alone(plan, op, extra=counted(opcodes))
            return refs[key]
        for step in plan['ops']:
            for op in [step['op']] + [i['op'] for i in step['inner']]:
                if not I.comes_back(ctx, plan, op, ref(op)):
                    return
            if step['bytecode'] and ref(step['op'])['points'] <= OPCODE_BUDGET / 8:
                ref(step['op'], True)
        env = C.Env(plan)
        src = simrandom.SOURCE
        for step in plan['ops']:
            ctx.steps += 1
            op = step['op']
            r = ref(op)
            opcodes = step['bytecode'] and r['points'] <= OPCODE_BUDGET / 8
            points = ref(op, opcodes)['points']
            for o in [op] + [i['op'] for i in step['inner']]:
                for k in C.refs(o):
                    env.obj(k)
            before = {k: env.snapshot(k) for k in env.built}
            args, kw = env.arguments(op)
            fn = C.function(op)
            at, vertex, done = {}, None, []
            for inner in step['inner']:
                action = self.action(env, inner['op'], src, done)
                if inner.get('how') == 'vertex' and r['vertex'] and vertex is None:
                    vertex = (1 + inner['frac'] * r['vertex'] // 10000, action)
                elif points:
                    n = 1 + inner['frac'] * points // 10000
                    while n in at:
                        n += 1
                    at[n] = action
            nester = Nester(opcodes, at)
            src.reset(op['rs'])
            if vertex:
                G.VERTEX_FAULT[:] = vertex

            def call():
                with nester:
                    return C.take(fn(*args, **kw))
            st, value = engine.guarded(call)
            G.VERTEX_FAULT[:] = [0, None]
            out = I.outcome(st, value)
            ctx.count(op['fn'])
            ctx.event(op['fn'], out, [(i['fn'], o) for i, o, _ in done], nester.struck)
            for i, o, text in done:
                ctx.fault('inner-call')
                ctx.count(i['fn'])
                ctx.state(op['fn'], nester.struck[:1], i['fn'])
                if o != ref(i)['out']:
                    ctx.violate('inner-call-wrong', i['fn'], 'called in the middle of %s: answered %s %s, but alone in a fresh '
                                'process %s %s: %s' % (op['fn'], I.short(o), text, I.short(ref(i)['out']), ref(i)['text'],
                                                       I.describe(plan, i)))
            if out != r['out']:
                ctx.violate('outer-call-wrong', op['fn'], 'with inner calls %r at %r: answered %s, but alone in a fresh process '
                            '%s %s: %s' % ([i['fn'] for i, _, _ in done], nester.struck, I.short(out), I.short(r['out']),
                                           engine.exc_text(value) if st == 'exc' else r['text'], I.describe(plan, op)))
            for k in before:
                if env.snapshot(k) != before[k]:
                    ctx.violate('argument-modified', op['fn'], 'object %d was %s, is now %s: %s' % (
                        k, I.short(repr(before[k])), I.short(repr(env.snapshot(k))), I.describe(plan, op)))

    @staticmethod
    def action(env, op, src, done):
        args, kw = env.arguments(op)
        fn = C.function(op)

        def run():
            mine = dict(src.__dict__)
            src.reset(op['rs'])
            st, value = engine.guarded(lambda: C.take(fn(*args, **kw)))
            src.__dict__.update(mine)
            done.append((op, I.outcome(st, value), engine.exc_text(value) if st == 'exc' else ''))
            engine.cpu_budget()
        return run

    def shrink_more(self, plan):
        for k, step in enumerate(plan['ops']):
            for i in range(len(step['inner'])):
                ops = list(plan['ops'])
                ops[k] = dict(step, inner=step['inner'][:i] + step['inner'][i + 1:])
                yield dict(plan, ops=ops)
            if step['bytecode']:
                ops = list(plan['ops'])
                ops[k] = dict(step, bytecode=False)
                yield dict(plan, ops=ops)


PROP = C23()
