"""C11: a call that is cut short leaves nothing behind."""
import sys

from dsim import catalog as C, engine, graphs as G, isolate as I, simrandom, simthreads
from dsim.engine import Hang, Prop

OPCODE_BUDGET = 40000


class Stop(Exception):
    """What a caller's alarm handler raises."""


KINDS = {'interrupt': KeyboardInterrupt, 'memory': MemoryError, 'timeout': Stop, 'exit': SystemExit}


def counted(opcodes):
    def fn(env, op):
        c = simthreads.Counter(opcodes)
        args, kw = env.arguments(op)
        f = C.function(op)
        src = simrandom.SOURCE
        src.reset(op['rs'])
        G.VERTEX_FAULT[:] = [1 << 60, None]

        def call():
            with c:
                return C.take(f(*args, **kw))
        st, v = engine.guarded(call)
        n = (1 << 60) - G.VERTEX_FAULT[0]
        G.VERTEX_FAULT[:] = [0, None]
        return {'out': I.outcome(st, v), 'text': engine.exc_text(v) if st == 'exc' else '', 'points': c.n,
                'draws': src.draws, 'vertex': n}
    return fn


def depth():
    f, n = sys._getframe(1), 0
    while f is not None:
        f, n = f.f_back, n + 1
    return n


class C11(Prop):
    ID = 'C11'
    RUNS = {'quick': 7500, 'thorough': 300000}
    RULE = ('A run is a history of 2-7 calls in one fresh process (sharing argument objects); the plan cuts some of them '
            'short: an interrupt, alarm, exit or failed allocation at a chosen line or bytecode of the library, an '
            'exhausted recursion limit, a failing draw, or a failing vertex hash or comparison; the arguments must be '
            'untouched and every later call (often the same one again) is compared with the same call alone in a fresh '
            'process; non-trivial means at least one fault reached the library.')
    STATE_MEASURE = 'distinct (operation, kind of fault, function and line cut short) tuples'
    REAL = ['every public function and query in the catalogue']
    STUB = ['the moment and kind of the interruption', 'the random module',
            'vertex hash and order (simulator-decided vertex class in part of the runs)']
    ASSUMPTIONS = ['operations whose documented purpose is to modify the object they are called on are not in the '
                   'catalogue', 'the lines and bytecodes of the standard library and of built-ins are not interrupted',
                   'a second fault does not arrive while the first one is being handled']

    def gen(self, rng, index):
        c = C.Gen(rng, share=0.75)
        choices = C.CHOICES
        if rng.chance(0.65):
            choices = [(rng.weighted(C.CHOICES), 1) for _ in range(rng.int(1, 2))]
        ops, calls = [], []
        for _ in range(rng.int(2, 5)):
            op = rng.pick(calls) if calls and rng.chance(0.3) else C.gen_op(c, choices)
            if op not in calls:
                calls.append(op)
            if rng.chance(0.7):
                k = rng.random()
                step = {'do': 'cut', 'op': op}
                if k < 0.66:
                    step.update(how='point', kind=rng.pick(('interrupt', 'interrupt', 'memory', 'timeout', 'exit')),
                                frac=rng.int(0, 9999), bytecode=rng.chance(0.5))
                    if rng.chance(0.15):
                        step['frac'] = rng.pick((0, 9990, 9999))
                elif k < 0.8:
                    step.update(how='stack', depth=rng.int(1, rng.pick((8, 8, 40, 200))))
                elif k < 0.9:
                    step.update(how='draw', kind=rng.pick(('memory', 'timeout')), frac=rng.int(0, 9999))
                else:
                    step.update(how='vertex', kind=rng.pick(('memory', 'timeout')), frac=rng.int(0, 9999))
                ops.append(step)
                if rng.chance(0.75):
                    ops.append({'do': 'call', 'op': op})
            else:
                ops.append({'do': 'call', 'op': op})
        again = [s['op'] for s in ops if s['do'] == 'cut']
        if again and rng.chance(0.8):
            same = [o for o in again if o['fn'] == again[-1]['fn']]
            ops.append({'do': 'call', 'op': rng.pick(again)})
            if rng.chance(0.5):
                ops.append({'do': 'call', 'op': C.gen_op(c, [(same[0]['fn'], 1)])})
        return {'objs': c.objs, 'ops': ops}

    def execute(self, plan, ctx):
        refs = {}

        def ref(op, opcodes=False):
            key = repr((op, opcodes))
            if key not in refs:
                refs[key] = I.alone(plan, op, extra=counted(opcodes))
            return refs[key]
        for step in plan['ops']:
            r = ref(step['op'])
            if not I.comes_back(ctx, plan, step['op'], r):
                return
            if step.get('bytecode') and r['points'] <= OPCODE_BUDGET / 8:
                ref(step['op'], True)
        env = C.Env(plan)
        cut = []
        for step in plan['ops']:
            ctx.steps += 1
            op = step['op']
            r = ref(op)
            if r['out'] == 'hang':
                ctx.probe('reference-too-slow')
                continue
            for k in C.refs(op):
                env.obj(k)
            before = {k: env.snapshot(k) for k in env.built}
            if step['do'] == 'cut':
                st, value, where = self.cut(step, env, op, ref)
                if where is not None:
                    ctx.fault('%s-%s' % (where.split()[0] if isinstance(where, str) else 'point', step.get('kind', 'recursion')))
                    ctx.state(op['fn'], step['how'], step.get('kind'), where)
                    ctx.event('cut', op['fn'], step['how'], where, st)
                    cut.append('%s %s at %s' % (op['fn'], step.get('kind', step['how']), where))
                elif st == 'none':
                    ctx.probe('nothing-to-cut')
                    continue
                else:
                    ctx.probe('fault-did-not-fire')
                if st == 'hang':
                    ctx.violate('no-progress', op['fn'], 'the interrupted call did not come back (%s): %s' % (
                        where, I.describe(plan, op)))
                    return
                if st == 'cut' or (st == 'exc' and where is not None):
                    out = None                 # it failed; a bare `except:` may turn the cause into another failure
                else:
                    out = I.outcome(st, value)
            else:
                st, value = I.perform(env, op)
                out = I.outcome(st, value)
                ctx.event(op['fn'], out)
                if cut:
                    ctx.count('calls-after-an-interruption')
            ctx.count(op['fn'])
            for k in before:
                if env.snapshot(k) != before[k]:
                    ctx.violate('argument-modified', op['fn'], 'object %d was %s, is now %s; interruptions %r: %s' % (
                        k, I.short(repr(before[k])), I.short(repr(env.snapshot(k))), cut[-3:], I.describe(plan, op)))
            if out is not None and out != r['out']:
                ctx.violate('interruption-left-traces' if step['do'] == 'call' else 'wrong-answer-instead-of-failure',
                            op['fn'], 'answered %s, but alone in a fresh process %s %s; interruptions %r: %s' % (
                                I.short(out), I.short(r['out']), engine.exc_text(value) if st == 'exc' else r['text'],
                                cut[-3:], I.describe(plan, op)))

    def cut(self, step, env, op, ref):
        """Performs a call with a fault. Returns (status, value, where the fault struck or None)."""
        args, kw = env.arguments(op)
        fn = C.function(op)
        src = simrandom.SOURCE
        src.reset(op['rs'])
        r = ref(op)
        how = step['how']
        if how in ('draw', 'vertex') and not r['draws' if how == 'draw' else 'vertex']:
            how = 'point'
        exc = KINDS[step['kind']]() if 'kind' in step else None

        def call():
            return C.take(fn(*args, **kw))
        where = None
        if how == 'point':
            opcodes = bool(step.get('bytecode')) and r['points'] <= OPCODE_BUDGET / 8
            n = ref(op, opcodes)['points']
            if not n:
                return 'none', None, None
            counter = simthreads.Counter(opcodes, 1 + step['frac'] * n // 10000, exc)
            with counter:
                st, value = self.run(call, exc)
            where = counter.fired
        elif how == 'stack':
            limit = sys.getrecursionlimit()
            sys.setrecursionlimit(depth() + 3 + step['depth'])
            try:
                st, value = self.run(call, None)
            finally:
                sys.setrecursionlimit(limit)
            if st == 'cut' or I.outcome(st, value) != r['out']:
                where = 'depth %d' % step['depth']
        elif how == 'draw':
            src.fail_at, src.failure = 1 + step['frac'] * r['draws'] // 10000, exc
            st, value = self.run(call, exc)
            if src.draws >= src.fail_at:
                where = 'draw %d' % src.fail_at
            src.fail_at, src.failure = 0, None
        else:
            n = 1 + step['frac'] * r['vertex'] // 10000
            G.VERTEX_FAULT[:] = [n, exc]
            st, value = self.run(call, exc)
            if G.VERTEX_FAULT[0] <= 0:
                where = 'vertex operation %d' % n
            G.VERTEX_FAULT[:] = [0, None]
        return st, value, where

    @staticmethod
    def run(call, exc):
        engine.cpu_budget()
        try:
            return 'ok', call()
        except Hang:
            return 'hang', None
        except (KeyboardInterrupt, SystemExit, MemoryError, RecursionError, Stop) as e:
            if exc is None and not isinstance(e, RecursionError):
                return 'exc', e
            return 'cut', e
        except Exception as e:
            return 'exc', e
        finally:
            engine.cpu_budget(0)

    def shrink_more(self, plan):
        for k, step in enumerate(plan['ops']):
            if step.get('bytecode'):
                ops = list(plan['ops'])
                ops[k] = dict(step, bytecode=False)
                yield dict(plan, ops=ops)


PROP = C11()
