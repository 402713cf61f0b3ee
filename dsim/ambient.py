"""The state of the process a call could disturb besides its arguments: what a caller can read of it.

A snapshot is {name: comparable value}; `vary` brings the process into another legal state first, so that "put back
to the usual value" is told apart from "put back to what it was".
"""
import builtins
import collections
import decimal
import fractions
import functools
import gc
import heapq
import itertools
import locale
import math
import operator
import os
import random
import signal
import sys
import threading
import warnings

from dsim import simrandom

SIGNALS = (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGUSR2, signal.SIGHUP, signal.SIGPIPE,
           signal.SIGCHLD, signal.SIGVTALRM)
MODULES = (builtins, collections, fractions, functools, heapq, itertools, math, operator, random)


def randomness(src):
    if src.foreign:
        return 'drawn from another generator'
    if src.reseeds or src.override is not None:
        return 'reseeded'
    if src.pos != src.high:
        return 'set back'
    return 'the caller\'s'


def snapshot():
    c = decimal.getcontext()
    return {
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'limit of digits': sys.get_int_max_str_digits(),
        'garbage collection': (gc.isenabled(), gc.get_threshold(), gc.get_debug(), gc.get_freeze_count()),
        'garbage callbacks': tuple(map(id, gc.callbacks)),
        'decimal context': (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp,
                            tuple(sorted(k.__name__ for k, v in c.traps.items() if v))),
        'working directory': os.getcwd(),
        'environment': hash(tuple(sorted(os.environ.items()))),
        'signal handlers': tuple(map(signal.getsignal, SIGNALS)),
        'blocked signals': tuple(sorted(signal.pthread_sigmask(signal.SIG_BLOCK, ()))),
        'timer': signal.getitimer(signal.ITIMER_REAL)[1],
        'standard streams': (sys.stdin, sys.stdout, sys.stderr),
        'hooks': (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook, sys.getprofile()),
        'threads': threading.active_count(),
        'module path': tuple(sys.path),
        'warning filters': tuple(map(repr, warnings.filters)),
        'locale': locale.setlocale(locale.LC_ALL),
        'stack size': threading.stack_size(),
        'standard modules': tuple(tuple(sorted((k, id(v)) for k, v in vars(m).items() if not k.startswith('_')))
                                  for m in MODULES),
        'open files': len(os.listdir('/proc/self/fd')) if os.path.isdir('/proc/self/fd') else 0,
        'random generator': randomness(simrandom.SOURCE),
    }


def differences(a, b):
    return [(k, a[k], b[k]) for k in a if a[k] != b[k]]


def gen(rng):
    v = {}
    if rng.chance(0.5):
        v['gc'] = rng.pick(('off', 'often'))
    if rng.chance(0.5):
        v['limit'] = rng.int(1001, 6000)
    if rng.chance(0.5):
        v['prec'] = rng.pick((1, 2, 5, 60))
    if rng.chance(0.3):
        v['rounding'] = rng.pick((decimal.ROUND_UP, decimal.ROUND_FLOOR, decimal.ROUND_05UP))
    if rng.chance(0.5):
        v['digits'] = rng.pick((0, 640, 100000))
    if rng.chance(0.3):
        v['switch'] = rng.pick((0.001, 0.05))
    if rng.chance(0.3):
        v['cwd'] = '/'
    if rng.chance(0.3):
        v['sigint'] = True
    if rng.chance(0.3):
        v['warn'] = rng.pick(('ignore', 'always'))
    return v


def vary(v):
    if v.get('gc') == 'off':
        gc.disable()
    elif v.get('gc') == 'often':
        gc.set_threshold(7, 3, 3)
    if 'limit' in v:
        sys.setrecursionlimit(v['limit'])
    if 'prec' in v:
        decimal.getcontext().prec = v['prec']
    if 'rounding' in v:
        decimal.getcontext().rounding = v['rounding']
    if 'digits' in v:
        sys.set_int_max_str_digits(v['digits'])
    if 'switch' in v:
        sys.setswitchinterval(v['switch'])
    if 'cwd' in v:
        os.chdir(v['cwd'])
    if 'sigint' in v:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        signal.signal(signal.SIGUSR1, signal.SIG_IGN)
    if 'warn' in v:
        warnings.simplefilter(v['warn'])
