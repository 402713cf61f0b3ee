"""Shared by C09-C12: what an operation answers when it is alone.

`alone(plan, op, edits)` performs one operation in a freshly forked copy of the
pristine process (nothing of the library has been called in it), on freshly
built arguments, with the caller's earlier edits of those arguments applied.
The canonical outcome is the reference for every other circumstance.
"""
import sys

from dsim import catalog as C, engine, graphs as G, simrandom
from dsim.engine import guarded, exc_text

import rosemary.graphs.graphs as GR


class Harness(Exception):
    pass


def outcome(st, value):
    """Canonical outcome of a guarded call, JSON-stable."""
    if st == 'ok':
        return 'ok ' + repr(C.canon(value))
    if st == 'exc':
        return 'exc ' + type(value).__name__
    return 'hang'


def perform(env, op):
    """Decodes the arguments (unmeasured) and makes the call."""
    args, kw = env.arguments(op)
    fn = C.function(op)
    simrandom.SOURCE.reset(op['rs'])
    return guarded(lambda: C.take(fn(*args, **kw)))


ALONE_CPU_S = 10.0        # normally milliseconds, never above 1.5 s on the unchanged tree
BAD_CPU_S = 3.0           # calls with arguments of the wrong kind may run on


def alone(plan, op, edits=(), extra=None):
    cpu = BAD_CPU_S if op.get('bad') else ALONE_CPU_S

    def fn():
        engine._CPU[0] = cpu
        env = C.Env(plan)
        used = set(C.refs(op))
        for e in edits:
            if e['obj'] in used:
                env.edit(e)
        if extra is not None:
            return extra(env, op)
        st, v = perform(env, op)
        return {'out': outcome(st, v), 'text': exc_text(v) if st == 'exc' else ''}
    res = engine.in_child(fn, 10 * cpu)
    if 'timeout' in res:
        return {'out': 'hang', 'text': '', 'items': [], 'end': 'hang', 'points': 0, 'draws': 0, 'vertex': 0}
    if 'error' in res:
        raise Harness(res['error'])
    return res


def comes_back(ctx, plan, op, ref):
    """False (and a violation, for legal arguments) if the operation never answers even when it is alone."""
    if ref['out'] != 'hang' and ref.get('end') != 'hang':
        return True
    if op.get('bad'):
        ctx.probe('reference-too-slow')
    else:
        ctx.violate('no-termination', op['fn'], 'no answer within %.0f s of computing, alone in a fresh process: %s' % (
            ALONE_CPU_S, describe(plan, op)))
    return False


def short(s, n=400):
    return s if len(s) <= n else s[:n] + '...'


def describe(plan, op):
    return '%s with %r' % (op['fn'], {'args': op['args'], 'kw': op.get('kw', {}),
                                      'objs': {k: plan['objs'][k] for k in C.refs(op)}})


def protected(env, seen):
    """Adds to `seen` (id -> object) the containers of the caller's arguments and the library objects it passes."""

    def walk(o):
        if id(o) in seen:
            return
        if isinstance(o, (list, tuple, set, frozenset, dict)):
            seen[id(o)] = o
            for e in (list(o.items()) if isinstance(o, dict) else o):
                walk(e)
        elif not isinstance(o, (int, str, float, bool, type(None))):
            seen[id(o)] = o
    for k in env.built:
        o = env.built[k]
        walk(o.graph if isinstance(o, G.Built) else o)
    return seen


def spoil(value, style, keep):
    """The caller modifies a result it was given. Returns the number of containers changed."""
    changed = [0]
    seen = set()

    def walk(o, depth):
        if id(o) in seen or depth > 6:
            return
        seen.add(id(o))
        if isinstance(o, (list, tuple, set, frozenset)):
            for e in list(o):
                walk(e, depth + 1)
        elif isinstance(o, dict):
            for e in list(o.values()):
                walk(e, depth + 1)
        if id(o) in keep:
            return
        if isinstance(o, list):
            changed[0] += 1
            if style == 'clear':
                del o[:]
            elif style == 'grow':
                o.append(o[0] if o else 0)
            elif style == 'shift' and o:
                o.append(o.pop(0))
                if isinstance(o[0], int):
                    o[0] += 1
            else:
                o.reverse()
                if o and isinstance(o[0], int):
                    o[0] = -o[0] - 7
        elif isinstance(o, set):
            changed[0] += 1
            if style == 'clear' or not o:
                o.clear()
            elif style == 'grow':
                o.add(-12345)
            else:
                o.discard(sorted(o, key=repr)[0])
        elif isinstance(o, dict):
            changed[0] += 1
            if style == 'clear':
                o.clear()
            elif style == 'grow':
                o[-12345] = -12345
            elif o:
                k = sorted(o, key=repr)[0]
                if style == 'shift':
                    del o[k]
                else:
                    o[k] = -12345
        elif isinstance(o, GR.Graph):
            vs = sorted(o.vertex_set(), key=repr)
            if vs:
                changed[0] += 1
                if style in ('clear', 'shift'):
                    o.delete_vertex(vs[0])
                elif len(vs) > 1:
                    o.add_edge(vs[0], vs[-1], 12345)
        elif isinstance(o, C.MAT.Matrix):
            try:
                e = o[0, 0]
                o[0, 0] = -12345 if isinstance(e, str) else e + 1000
                changed[0] += 1
            except IndexError:
                pass
    walk(value, 0)
    return changed[0]


def spoil_args(c, op):
    """Turns an operation into one which should fail (wrong kind of argument)."""
    if not op['args']:
        return
    k = c.rng.int(0, len(op['args']) - 1)
    a = op['args'][k]
    if isinstance(a, dict) and 'v' in a:
        op['args'][k] = {'t': ['absent', 0]}
    elif isinstance(a, dict) and 'vs' in a:
        a['vs'] = a['vs'] + [0]
    else:
        op['args'][k] = c.rng.pick((None, 'x'))
    op['bad'] = True
