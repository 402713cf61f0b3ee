#!/usr/bin/env python3
"""tools/cover.py N [IDS]: which lines of /repo no run of the given checks executes (N runs each).

A tool for finding blind spots of the generators; no check depends on it."""
import dis
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
if sys.executable != PY or 'PYTHONHASHSEED' not in os.environ:
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:],
              dict(os.environ, PYTHONHASHSEED='0', PYTHONWARNINGS='ignore', PYTHONDONTWRITEBYTECODE='1'))
sys.path[:0] = [HERE, REPO]
sys.set_int_max_str_digits(0)
import json
import subprocess
from dsim import engine
from dsim.rng import Rng

ROOT = os.path.realpath(REPO) + '/rosemary/'


def one(prop, index):
    def fn():
        seen = set()
        mon = sys.monitoring
        mon.use_tool_id(3, 'cover')

        def line(code, no):
            if code.co_filename.startswith(ROOT):
                seen.add((code.co_filename[len(ROOT):], no))
            return mon.DISABLE
        mon.register_callback(3, mon.events.LINE, line)
        mon.set_events(3, mon.events.LINE)
        plan = prop.gen(Rng(prop.ID, 1, index), index)
        plan['index'] = index
        out = engine.run_plan_here(prop, plan, [])
        return {'seen': sorted(seen), 'v': out.get('violation')}
    return engine.in_child(fn, 300)


def lines_of(path):
    src = open(path).read()
    out = set()
    todo = [compile(src, path, 'exec')]
    while todo:
        c = todo.pop()
        for k in c.co_consts:
            if hasattr(k, 'co_code'):
                todo.append(k)
        if c.co_name != '<module>':
            first = c.co_firstlineno
            for _, no in dis.findlinestarts(c):
                if no and no != first:
                    out.add(no)
    return out


def shard(n, pid):
    prop = engine.load(pid)
    seen = set()
    for i in range(n):
        r = one(prop, i)
        if 'seen' not in r or r['v']:
            print(pid, i, str(r.get('v') or r)[:300], file=sys.stderr)
        seen.update(map(tuple, r.get('seen', [])))
    print(json.dumps(sorted(seen)))


def main():
    n = int(sys.argv[1])
    ids = sys.argv[2:] or ['C%02d' % i for i in range(1, 17)] + ['C23', 'C24']
    hit = {}
    procs = [subprocess.Popen([PY, os.path.abspath(__file__), '--one', str(n), pid], stdout=subprocess.PIPE)
             for pid in ids]
    for pid, p in zip(ids, procs):
        for f, no in json.loads(p.communicate()[0] or '[]'):
            hit.setdefault((f, no), set()).add(pid)
    for d, _, fs in sorted(os.walk(ROOT)):
        for f in sorted(fs):
            if not f.endswith('.py') or 'test' in d + f:
                continue
            path = os.path.join(d, f)
            rel = path[len(ROOT):]
            want = lines_of(path)
            missing = sorted(no for no in want if (rel, no) not in hit)
            if want:
                print('%s: %d of %d lines' % (rel, len(want) - len(missing), len(want)))
            src = open(path).read().splitlines()
            for no in missing:
                print('   %5d %s' % (no, src[no - 1]))


if sys.argv[1] == '--one':
    shard(int(sys.argv[2]), sys.argv[3])
else:
    main()
