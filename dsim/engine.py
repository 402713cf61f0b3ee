"""The deterministic simulation engine.

One *run* is one plan (plain JSON) executed in one freshly forked process whose
copy of the library has never been called before.  The plan is a pure function
of (VERIF_SEED, property, run index); everything that happens in the run is a
pure function of the plan, the hash seed recorded in it, and the code.
"""
import collections
import hashlib
import json
import os
import resource
import select
import signal
import sys
import time
import traceback

from dsim.rng import Rng
from dsim import simrandom

CHILD_WALL_S = 120.0      # backup: a whole run
OP_CPU_S = 20.0           # CPU seconds a single operation may burn (normally milliseconds)
MEM_BYTES = 3 << 30


class Violation(Exception):
    def __init__(self, record):
        Exception.__init__(self, record.get('detail', ''))
        self.record = record


class Hang(BaseException):
    """Raised inside an operation which has exceeded its CPU budget."""


class Malformed(Exception):
    """Raised by oracles for results of an impossible shape."""


class Ctx:
    """What a run reports into."""

    def __init__(self, known=()):
        self.known = {k['sig']: k for k in known}
        self.known_hits = collections.Counter()
        self.stats = collections.Counter()
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.steps = 0
        self.log = hashlib.sha256()
        self.nlog = 0
        self.states = set()
        self.nontrivial = False
        self.tail = collections.deque(maxlen=40)

    # -- event log -----------------------------------------------------
    def event(self, *parts):
        text = ' '.join(p if isinstance(p, str) else repr(p) for p in parts)
        self.nlog += 1
        self.log.update(text.encode())
        self.log.update(b'\n')
        if len(text) > 300:
            text = text[:300] + '...'
        self.tail.append(text)

    def count(self, key, n=1):
        self.stats[key] += n

    def fault(self, key, n=1):
        self.faults[key] += n
        self.nontrivial = True

    def probe(self, key, n=1):
        self.probes[key] += n

    def state(self, *key):
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=6).hexdigest())

    # -- violations ----------------------------------------------------
    def violate(self, kind, op, detail, sig=None, **extra):
        sig = sig or '%s:%s' % (op, kind)
        if sig in self.known:
            self.known_hits[sig] += 1
            self.event('KNOWN', sig)
            return
        rec = {'kind': kind, 'op': op, 'detail': str(detail)[:2000], 'sig': sig}
        rec.update(extra)
        raise Violation(rec)

    def digest(self):
        return self.log.hexdigest()[:24]


# ----------------------------------------------------------------------
# CPU budget of an operation
# ----------------------------------------------------------------------

_CPU = [OP_CPU_S]


def _on_cpu(signum, frame):
    raise Hang('CPU budget exhausted')


def cpu_budget(seconds=None):
    """Arms (or, with 0, disarms) the CPU budget."""
    if seconds is None:
        seconds = _CPU[0]
    signal.setitimer(signal.ITIMER_PROF, seconds)


def guarded(fn, *args, **kwargs):
    """Calls library code. Returns ('ok', value) or ('exc', exception)."""
    cpu_budget()
    try:
        value = fn(*args, **kwargs)
        return ('ok', value)
    except Hang:
        return ('hang', None)
    except Exception as e:   # the library's own failure, an observation
        return ('exc', e)
    finally:
        cpu_budget(0)


def exc_text(e):
    tb = e.__traceback__
    where = ''
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if 'rosemary' in fn:
            where = '%s:%s' % (fn[fn.rindex('rosemary'):], tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return '%s(%s)%s' % (type(e).__name__, str(e)[:200], ' in ' + where if where else '')


# ----------------------------------------------------------------------
# One run in a forked child
# ----------------------------------------------------------------------

def _child_main(fn, wfd):
    status = 1
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_BYTES, MEM_BYTES))
        signal.signal(signal.SIGPROF, _on_cpu)
        sys.stdout = open(os.devnull, 'w')     # some library routines print
        try:
            out = fn()
        except MemoryError:
            out = {'error': 'MemoryError in harness\n' + traceback.format_exc()}
        except BaseException:
            out = {'error': traceback.format_exc()}
        data = json.dumps(out, default=repr).encode()
        off = 0
        while off < len(data):
            off += os.write(wfd, data[off:])
        status = 0
    except BaseException:
        try:
            sys.stderr.write(traceback.format_exc())
        except BaseException:
            pass
    finally:
        os._exit(status)


def in_child(fn, wall=CHILD_WALL_S):
    """Runs fn() in a forked child; returns its JSON value, {'timeout':..} or {'error':..}."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _child_main(fn, w)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + wall
    timed_out = False
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                timed_out = True
                break
            ready, _, _ = select.select([r], [], [], left)
            if not ready:
                continue
            data = os.read(r, 1 << 16)
            if not data:
                break
            chunks.append(data)
    finally:
        os.close(r)
        if timed_out:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        _, status = os.waitpid(pid, 0)
    if timed_out:
        return {'timeout': True}
    raw = b''.join(chunks)
    if not raw:
        return {'error': 'child died, status %r' % status, 'died': True}
    try:
        return json.loads(raw)
    except ValueError:
        return {'error': 'child wrote garbage: %r (status %r)' % (raw[:200], status), 'died': True}


def run_plan_here(prop, plan, known):
    """Executes a plan in this process (a fresh child)."""
    ctx = Ctx(known)
    out = {}
    try:
        prop.execute(plan, ctx)
    except Violation as v:
        cpu_budget(0)
        out['violation'] = v.record
    cpu_budget(0)
    out.update(stats=dict(ctx.stats), faults=dict(ctx.faults), probes=dict(ctx.probes), steps=ctx.steps,
               digest=ctx.digest(), nlog=ctx.nlog, states=sorted(ctx.states), nontrivial=ctx.nontrivial,
               known_hits=dict(ctx.known_hits))
    if 'violation' in out:
        out['tail'] = list(ctx.tail)
    return out


def run_index(prop, seed, index, known, want_plan=False):
    def fn():
        rng = Rng(prop.ID, seed, index)
        plan = prop.gen(rng, index)
        plan['index'] = index
        out = run_plan_here(prop, plan, known)
        if want_plan or 'violation' in out:
            out['plan'] = plan
        return out

    def only_plan():
        rng = Rng(prop.ID, seed, index)
        plan = prop.gen(rng, index)
        plan['index'] = index
        return plan

    res = in_child(fn)
    if 'timeout' in res or res.get('died'):
        # A run that never came back, or whose process died: once more, with more time.
        again = in_child(fn, 2 * CHILD_WALL_S)
        if 'timeout' in again or again.get('died'):
            plan = in_child(only_plan)
            kind = 'no-termination' if 'timeout' in again else 'process-death'
            return {'violation': {'kind': kind, 'op': 'run', 'sig': 'run:' + kind, 'detail':
                    'the run did not finish within %.0f s (normally well under a second)' % (2 * CHILD_WALL_S)
                    if kind == 'no-termination' else 'the process executing the run died: %s' % again.get('error')},
                    'plan': plan, 'stats': {}, 'faults': {}, 'probes': {}, 'steps': 0, 'digest': '', 'nlog': 0,
                    'states': [], 'nontrivial': True, 'known_hits': {}}
        res = again
    return res


def run_plan(prop, plan, known=(), wall=CHILD_WALL_S):
    res = in_child(lambda: run_plan_here(prop, plan, known), wall)
    if 'timeout' in res:
        res = {'violation': {'kind': 'no-termination', 'op': 'run', 'sig': 'run:no-termination', 'detail': 'timeout'}}
    elif res.get('died'):
        res = {'violation': {'kind': 'process-death', 'op': 'run', 'sig': 'run:process-death',
                             'detail': res['error']}}
    return res


# ----------------------------------------------------------------------
# Minimisation
# ----------------------------------------------------------------------

def _same(v, target):
    return v is not None and v['kind'] == target['kind'] and v['op'] == target['op']


def _without(plan, path, lo, hi):
    new = json.loads(json.dumps(plan))
    obj = new
    for key in path[:-1]:
        obj = obj[key]
    lst = obj[path[-1]]
    obj[path[-1]] = lst[:lo] + lst[hi:]
    return new


def minimise(prop, plan, target, known, budget_s=60.0, max_tries=4000):
    """Greedy delta debugging of the plan while the same violation persists."""
    start = time.monotonic()
    tries = [0]

    def fails(cand):
        if time.monotonic() - start > budget_s or tries[0] >= max_tries:
            return False
        tries[0] += 1
        try:
            res = run_plan(prop, cand, known, wall=30.0)
        except Exception:
            return False
        return _same(res.get('violation'), target)

    best = plan
    changed = True
    while changed and time.monotonic() - start < budget_s and tries[0] < max_tries:
        changed = False
        for path in prop.shrink_lists(best):
            obj = best
            for key in path:
                obj = obj[key]
            n = len(obj)
            size = n
            while size >= 1:
                i = 0
                while True:
                    obj = best
                    for key in path:
                        obj = obj[key]
                    if i >= len(obj):
                        break
                    cand = _without(best, path, i, i + size)
                    if fails(cand):
                        best = cand
                        changed = True
                    else:
                        i += size
                size //= 2
        again = True
        while again and time.monotonic() - start < budget_s and tries[0] < max_tries:
            again = False
            for cand in prop.shrink_more(best):
                if fails(cand):
                    best = cand
                    changed = again = True
                    break
    return best, tries[0]


class Prop:
    """Base class of a property's simulation."""
    ID = None
    RUNS = {'quick': 1000, 'thorough': 20000}
    RULE = ''
    TECHNIQUE = ''
    ASSUMPTIONS = []
    HASHSEEDS = 4      # hash seeds 0..HASHSEEDS-1; run i uses hash seed i % HASHSEEDS
    REAL = []
    STUB = []

    def gen(self, rng, index):
        raise NotImplementedError

    def execute(self, plan, ctx):
        raise NotImplementedError

    def shrink_lists(self, plan):
        """Paths of the lists in the plan which may lose elements."""
        return [['ops']] if 'ops' in plan else []

    def shrink_more(self, plan):
        """Further candidate plans, simpler than `plan`."""
        return []


def load(pid):
    simrandom.install()
    from dsim import simthreads
    simthreads.install()
    import importlib
    import rosemary
    root = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
    if not os.path.realpath(rosemary.__file__).startswith(root + os.sep):
        raise RuntimeError('rosemary was loaded from %s' % rosemary.__file__)
    mod = importlib.import_module('dsim.props.' + pid.lower())
    return mod.PROP
