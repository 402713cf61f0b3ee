#!/usr/bin/env python3
"""mutate_state.py N SEED [REGEX]: like mutate.py, with mutants that add state to the library:
hoist       a local container becomes a module-level one that is cleared on entry
memo-alias  results are remembered by equal arguments and handed out again uncopied
memo-id     results are remembered by the identity of the arguments (and copied)
memo-last   only the last call is remembered, by equal immutable and identical mutable arguments
placeholder the memo is filled with None before the value is known
Results are appended to /tmp/mutants_state.jsonl."""
import ast, hashlib, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

DECO = '''
import copy as _cp
import functools as _ft


def _memo_alias(f):
    d = {}

    @_ft.wraps(f)
    def g(*a, **k):
        key = (repr(a), repr(sorted(k.items())))
        if key not in d:
            d[key] = f(*a, **k)
        return d[key]
    return g


def _memo_id(f):
    d = {}

    @_ft.wraps(f)
    def g(*a, **k):
        key = tuple(x if isinstance(x, (int, str)) else id(x) for x in a + tuple(k.values()))
        if key not in d:
            d[key] = f(*a, **k)
        return _cp.copy(d[key])
    return g


def _memo_last(f):
    d = {}

    @_ft.wraps(f)
    def g(*a, **k):
        key = [tuple(x if isinstance(x, (int, str)) else id(x) for x in a), sorted(k)]
        if d.get('key') != key:
            d['key'] = key
            d['val'] = f(*a, **k)
        return _cp.copy(d['val'])
    return g


def _placeholder(f):
    d = {}

    @_ft.wraps(f)
    def g(*a, **k):
        key = (repr(a), repr(sorted(k.items())))
        if key not in d:
            d[key] = None
            d[key] = f(*a, **k)
        return _cp.copy(d[key])
    return g


'''


def isgen(f):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f))


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split('\n')
    out = []
    first = next((n.lineno for n in tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))), None)
    if first is None:
        return out
    for f in tree.body:
        if isinstance(f, ast.FunctionDef) and f.decorator_list:
            first = min(first, f.decorator_list[0].lineno)
    for f in tree.body:
        if not isinstance(f, ast.FunctionDef):
            continue
        for s in ast.walk(f):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                v = ast.unparse(s.value)
                if v in ('[]', '{}', 'set()', 'dict()', 'set([])', 'deque()', 'defaultdict(list)', 'defaultdict(int)') and s.lineno == s.end_lineno:
                    name = s.targets[0].id
                    ls = list(lines)
                    ind = ls[s.lineno - 1][:s.col_offset]
                    if ind.strip():
                        continue
                    ls[s.lineno - 1] = ind + '%s = _buf_%d; %s.clear()' % (name, s.lineno, name)
                    ls.insert(f.lineno - 1, '_buf_%d = %s\n\n' % (s.lineno, v))
                    out.append((f.name, s.lineno, 'hoist ' + name, '\n'.join(ls)))
        if not isgen(f) and not f.name.startswith('_') and not f.decorator_list:
            for d in ('memo_alias', 'memo_id', 'memo_last', 'placeholder'):
                ls = list(lines)
                ls.insert(f.lineno - 1, ('@_' + d))
                ls.insert(first - 1, DECO)
                out.append((f.name, f.lineno, d, '\n'.join(ls)))
    return out


def main():
    n, seed = int(sys.argv[1]), sys.argv[2]
    rx = re.compile(sys.argv[3]) if len(sys.argv) > 3 else None
    what = re.compile(sys.argv[4]) if len(sys.argv) > 4 else None
    src = open('/verif/tools/plant.py').read().replace('\nmain(sys.argv[1:])\n', '\n')
    ns = {}
    exec(compile(src, 'plant', 'exec'), ns)
    pool = []
    for d, _, fs in os.walk('/repo/rosemary'):
        if 'test' in d:
            continue
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = p[len('/repo/'):]
            if f.endswith('.py') and (not rx or rx.search(rel)):
                for m in mutants(p):
                    if not what or what.search(m[2]):
                        compile(m[3], p, 'exec')
                        pool.append((rel,) + m)
    pool.sort(key=lambda t: hashlib.sha256((seed + repr(t[:4])).encode()).digest())
    print(len(pool), 'mutants in all', flush=True)
    base = tempfile.mkdtemp(prefix='mutate.', dir='/tmp')

    def one(job):
        i, (rel, fn, ln, kind, text) = job
        w = os.path.join(base, 'm%d' % i)
        repo = os.path.join(w, 'repo')
        shutil.copytree('/repo', repo, symlinks=True, ignore=shutil.ignore_patterns('.git'))
        shutil.copytree('/verif', os.path.join(w, 'verif'), ignore=shutil.ignore_patterns('.git', 'seeded', 'replays'))
        cp = os.path.join(w, 'verif', 'check.py')
        ct = open(cp).read()
        open(cp, 'w').write(ct.replace("rec.get('budget', 60.0)", '1.0'))
        open(os.path.join(repo, rel), 'w').write(text)
        env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1', VERIF_WORKERS='8')
        caught = None
        checks = ('C12', 'C09', 'C10', 'C11') if not kind.startswith('placeholder') else ('C11', 'C12')
        if kind.startswith('hoist'):
            checks = ('C10', 'C09', 'C12')
        for c in checks:
            p = subprocess.run([sys.executable, 'check.py', c], cwd=os.path.join(w, 'verif'), env=env, timeout=900,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                last = [l for l in p.stdout.decode().split('\n') if l.startswith(c + ':')]
                caught = '%s:%d %s' % (c, p.returncode, last[-1].split(' ')[1] if last else '')
                break
        missing = None if caught else ns['tests'](repo, w)[:2]
        r = {'file': rel, 'fn': fn, 'line': ln, 'what': kind, 'caught': caught, 'tests': missing}
        open('/tmp/mutants_state.jsonl', 'a').write(json.dumps(r) + '\n')
        print(json.dumps(r), flush=True)
        shutil.rmtree(w)
    with ThreadPoolExecutor(int(os.environ.get('PAR', '1'))) as ex:
        list(ex.map(one, enumerate(pool[:n])))
    shutil.rmtree(base)


main()
