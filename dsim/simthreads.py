"""Simulated caller threads.

Real Python threads, parked on low-level locks and released one at a time: the
plan, not the interpreter, decides who runs.  A thread can lose the processor
at every line (or every bytecode) of the library, which is where `sys.settrace`
calls us; code outside of the library is atomic.  The locks of the `threading`
module are replaced by simulated ones, so a thread that has to wait gives the
processor to another one, and a deadlock is an observation.
"""
import _thread
import os
import sys
import threading

from dsim import simrandom

ROOT = os.path.join(os.path.realpath(os.environ.get('VERIF_REPO', '/repo')), 'rosemary') + os.sep

_real_lock = _thread.allocate_lock
_SCHED = [None]


class SimLock:
    """threading.Lock under the scheduler; outside of it, an ordinary non-contended lock."""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while True:
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner = me
                self.depth += 1
                return True
            if not blocking:
                return False
            sched = _SCHED[0]
            if sched is None or not sched.knows(me):
                raise RuntimeError('lock would never be released')
            if not sched.wait_for(self, may_give_up=timeout is not None and timeout >= 0):
                return False

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        if self.reentrant and self.owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()

    def _at_fork_reinit(self):
        self.owner, self.depth = None, 0

    # what Condition wants
    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        d, self.depth, self.owner = self.depth, 0, None
        return d

    def _acquire_restore(self, d):
        self.acquire()
        self.depth = d


class SimRLock(SimLock):
    reentrant = True


def install():
    """Before the library is imported."""
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock


class Thread:
    def __init__(self, number, body, source):
        self.number = number
        self.body = body
        self.source = source
        self.gate = _real_lock()
        self.gate.acquire()
        self.done = False
        self.waiting = None
        self.steps = 0
        self.importing = 0
        self.marks = []
        self.ident = None


class Deadlock(Exception):
    pass


class Scheduler:
    """bodies: list of (function, Source). switches: {'gap': [[gap, pick], ...]} or {'frac': per-thread marks}."""

    def __init__(self, bodies, gaps=(), marks=None, opcodes=False, first=0):
        self.threads = [Thread(i, b, s) for i, (b, s) in enumerate(bodies)]
        for t in self.threads:
            t.marks = list((marks or {}).get(t.number, ()))
        self.gaps = list(gaps)
        self.gi = 0
        self.left = self.gaps[0][0] if self.gaps else -1
        self.opcodes = opcodes
        self.first = first
        self.current = None
        self.switches = 0
        self.steps = 0
        self.trail = []
        self.deadlocked = False
        self.finished = _real_lock()
        self.finished.acquire()
        self.by_ident = {}

    # -- run -------------------------------------------------------------
    def run(self, wall=100.0):
        _SCHED[0] = self
        if self.opcodes:
            wake_opcodes()
        try:
            for t in self.threads:
                _thread.start_new_thread(self._main, (t,))
            self.current = self.threads[self.first % len(self.threads)]
            self.current.gate.release()
            ok = self.finished.acquire(True, wall)
        finally:
            _SCHED[0] = None
        if not ok:
            return 'stuck'
        return 'deadlock' if self.deadlocked else 'done'

    def _main(self, t):
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        simrandom.BY_THREAD[t.ident] = t.source
        t.gate.acquire()
        sys.settrace(self._global)
        try:
            t.body(t)
        finally:
            sys.settrace(None)
            t.done = True
            simrandom.BY_THREAD.pop(t.ident, None)
            self._leave(t)

    def _leave(self, t):
        nxt = self._runnable(t)
        if nxt:
            pick = self.gaps[self.gi % len(self.gaps)][1] if self.gaps else 0
            n = nxt[pick % len(nxt)]
            self.current = n
            n.gate.release()
            return
        if any(not x.done for x in self.threads):
            self.deadlocked = True
        self.finished.release()

    def knows(self, ident):
        return ident in self.by_ident

    def _runnable(self, but):
        return [x for x in self.threads if x is not but and not x.done and
                (x.waiting is None or x.waiting.owner is None)]

    def _go(self, t, pick):
        nxt = self._runnable(t)
        if not nxt:
            return False
        n = nxt[pick % len(nxt)]
        self.switches += 1
        self.current = n
        n.gate.release()
        t.gate.acquire()
        return True

    def wait_for(self, lock, may_give_up):
        t = self.by_ident[_thread.get_ident()]
        trace = sys.gettrace()
        t.waiting = lock
        if not self._go(t, 0):
            t.waiting = None
            if may_give_up:
                return False
            self.deadlocked = True
            self.finished.release()
            t.gate.acquire()          # parked for ever: the process ends soon
        t.waiting = None
        if trace is not None:
            sys.settrace(trace)
        return True

    # -- schedule points -----------------------------------------------------
    def _point(self, t, frame):
        t.steps += 1
        self.steps += 1
        if t.importing:
            return
        if t.marks:
            if t.steps >= t.marks[0][0]:
                pick = t.marks.pop(0)[1]
                self._note(t, frame)
                self._go(t, pick)
        elif self.left > 0:
            self.left -= 1
            if self.left == 0:
                pick = self.gaps[self.gi][1]
                self.gi += 1
                self.left = self.gaps[self.gi][0] if self.gi < len(self.gaps) else -1
                self._note(t, frame)
                self._go(t, pick)

    def _note(self, t, f):
        if len(self.trail) < 400:
            self.trail.append((t.number, f.f_code.co_name, f.f_lineno))

    def _global(self, frame, event, arg):
        code = frame.f_code
        if not code.co_filename.startswith(ROOT):
            return None
        if code.co_name == '<module>':
            t = self.by_ident[_thread.get_ident()]
            t.importing += 1

            def module(frame, event, arg):
                if event == 'return':
                    t.importing -= 1
                return module
            return module
        frame.f_trace_opcodes = self.opcodes
        frame.f_trace_lines = not self.opcodes
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self._point(self.by_ident[_thread.get_ident()], frame)
        return self._local


def wake_opcodes():
    """CPython 3.12 delivers opcode events only if some frame asked for them before settrace was called.

    Not to be called while a thread is being traced (the interpreter may crash)."""
    f = sys._getframe()
    f.f_trace_opcodes = True
    f.f_trace_opcodes = False


class Counter:
    """Counts the schedule points of a call made alone, and can inject at one of them."""

    def __init__(self, opcodes=False, at=None, exc=None):
        self.opcodes = opcodes
        self.n = 0
        self.at = at
        self.exc = exc
        self.fired = None
        self.importing = 0

    def __enter__(self):
        if self.opcodes:
            wake_opcodes()
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)

    def _global(self, frame, event, arg):
        code = frame.f_code
        if not code.co_filename.startswith(ROOT):
            return None
        if code.co_name == '<module>':
            self.importing += 1

            def module(frame, event, arg):
                if event == 'return':
                    self.importing -= 1
                return module
            return module
        frame.f_trace_opcodes = self.opcodes
        frame.f_trace_lines = not self.opcodes
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self.n += 1
            if self.at is not None and self.n == self.at and not self.importing:
                self.fired = (frame.f_code.co_name, frame.f_lineno)
                raise self.exc
        return self._local
