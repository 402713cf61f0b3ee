#!/usr/bin/env python3
"""mutate.py N SEED [REGEX]: plants N random one-place mutants in the library (scratch copies), runs the
checks responsible for the mutated module, and for those no check reports runs the stable tests too.
What survives both is printed for reading: an equivalent mutant, or a gap of the checks.  No check uses this.
Results are appended to /tmp/mutants.jsonl."""
import ast, hashlib, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

RESP = [
    ('number_theory/factorization/factorization', 'C01 C02 C10 C12'), ('number_theory/factorization/algorithms', 'C01'),
    ('arithmetic_functions/functions', 'C02 C12'), ('arithmetic_functions/inverse', 'C02'),
    ('primes/primality', 'C03'), ('number_theory/zn_arithmetic', 'C04'), ('diophantine_equations/pell', 'C04 C09'),
    ('spanning_trees', 'C05 C09'), ('steiner_trees', 'C05'), ('optimization/knapsack', 'C06'), ('optimization/tsp', 'C06 C12'),
    ('optimization/genetic', 'C06'), ('algorithms/cliques', 'C07 C09'), ('independent_sets', 'C07 C09'), ('coloring', 'C07'),
    ('algorithms/paths', 'C08'), ('traversal', 'C08 C09'), ('connectivity', 'C08'), ('data_structures/', 'C13'),
    ('graphs/graphs', 'C14 C15 C12'), ('exact_cover', 'C16 C09'), ('recreational', 'C16 C09'), ('hamiltonian', 'C16 C09'),
    ('utilities', 'C12 C10 C11'), ('primes/sieves', 'C09 C12'), ('generation/', 'C09 C12'),
]
SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in',
        ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '+'), ast.FloorDiv: ('//', '*'), ast.Mod: ('%', '//')}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()

    def pos(n, end=False):
        return offs[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)
    out = []

    def rep(n, new, what):
        out.append((pos(n), pos(n, True), new, what, n.lineno))

    def seg(n):
        return b[pos(n):pos(n, True)].decode()

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))
            docs.add(id(n.body[0].value))
    infn = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            for n in ast.walk(f):
                if n is not f:
                    infn.add(id(n))
    for n in ast.walk(tree):
        if id(n) in docs or id(n) not in infn:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = type(n.ops[0])
            if o in SWAP:
                rep(n, '%s %s %s' % (seg(n.left), SWAP[o], seg(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            rep(n, str(n.value + 1), 'const+1')
            if n.value:
                rep(n, str(n.value - 1), 'const-1')
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            rep(n, str(not n.value), 'bool')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            rep(n, '(%s) %s (%s)' % (seg(n.left), BIN[type(n.op)][1], seg(n.right)), 'bin')
        elif isinstance(n, (ast.If, ast.While)):
            if isinstance(n, ast.If):
                rep(n.test, 'False', 'iffalse')
                rep(n.test, 'not (%s)' % seg(n.test), 'ifnot')
        elif isinstance(n, ast.BoolOp):
            for v in n.values:
                rest = [w for w in n.values if w is not v]
                op = ' and ' if isinstance(n.op, ast.And) else ' or '
                rep(n, '(' + op.join('(%s)' % seg(w) for w in rest) + ')', 'dropcond')
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                rep(n, 'pass', 'delstmt')
        elif isinstance(n, ast.Break):
            rep(n, 'pass', 'nobreak')
        elif isinstance(n, ast.Continue):
            rep(n, 'pass', 'nocontinue')
            rep(n, 'break', 'contbreak')
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in ('list', 'set', 'sorted', 'tuple', 'dict', 'abs', 'reversed') and len(n.args) == 1:
                rep(n, seg(n.args[0]), 'nocopy')
            if isinstance(f, ast.Attribute) and f.attr == 'copy' and not n.args:
                rep(n, seg(f.value), 'nocopy')
            if isinstance(f, ast.Attribute) and f.attr == 'add' and len(n.args) == 1:
                pass
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and n.slice.lower is None and n.slice.upper is None \
                and n.slice.step is None and isinstance(n.ctx, ast.Load):
            rep(n, seg(n.value), 'nocopy')
    res = []
    for a, e, new, what, ln in out:
        m = (b[:a] + new.encode() + b[e:]).decode()
        try:
            compile(m, path, 'exec')
        except SyntaxError:
            continue
        if b[a:e].decode() == new:
            continue
        res.append((ln, what, b[a:e].decode(), new, m))
    return res


def enclosing(path, ln):
    best = ''
    for n in ast.walk(ast.parse(open(path).read())):
        if isinstance(n, ast.FunctionDef) and n.lineno <= ln <= n.end_lineno:
            best = n.name
    return best


def main():
    n, seed = int(sys.argv[1]), sys.argv[2]
    rx = re.compile(sys.argv[3]) if len(sys.argv) > 3 else None
    par = int(os.environ.get('PAR', '2'))
    sys.path.insert(0, '/verif/tools')
    src = open('/verif/tools/plant.py').read().replace('\nmain(sys.argv[1:])\n', '\n')
    ns = {}
    exec(compile(src, 'plant', 'exec'), ns)
    pool = []
    for d, _, fs in os.walk('/repo/rosemary'):
        if 'test' in d:
            continue
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = p[len('/repo/'):]
            if not f.endswith('.py') or (rx and not rx.search(rel)):
                continue
            resp = next((r for k, r in RESP if k in rel), None)
            if resp is None:
                continue
            for m in mutants(p):
                pool.append((rel, resp) + m)
    pool.sort(key=lambda t: hashlib.sha256((seed + repr(t[:6])).encode()).digest())
    print(len(pool), 'mutants in all', flush=True)
    todo = pool[:n]
    base = tempfile.mkdtemp(prefix='mutate.', dir='/tmp')

    def one(job):
        i, (rel, resp, ln, what, old, new, text) = job
        w = os.path.join(base, 'm%d' % i)
        repo = os.path.join(w, 'repo')
        shutil.copytree('/repo', repo, symlinks=True, ignore=shutil.ignore_patterns('.git'))
        shutil.copytree('/verif', os.path.join(w, 'verif'), ignore=shutil.ignore_patterns('.git', 'seeded', 'replays'))
        open(os.path.join(repo, rel), 'w').write(text)
        cp = os.path.join(w, 'verif', 'check.py')
        ct = open(cp).read()
        assert "rec.get('budget', 60.0)" in ct
        open(cp, 'w').write(ct.replace("rec.get('budget', 60.0)", '1.0'))     # no need to minimise here
        caught = None
        env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1', VERIF_WORKERS='8')
        for c in resp.split():
            try:
                p = subprocess.run([sys.executable, 'check.py', c], cwd=os.path.join(w, 'verif'), env=env, timeout=900,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 99
            if rc:
                caught = '%s:%d' % (c, rc)
                break
        missing = None
        if caught is None:
            missing = ns['tests'](repo, w)
        r = {'file': rel, 'line': ln, 'fn': enclosing('/repo/' + rel, ln), 'what': what, 'old': old[:90], 'new': new[:90],
             'caught': caught, 'tests': None if missing is None else missing[:2]}
        open('/tmp/mutants.jsonl', 'a').write(json.dumps(r) + '\n')
        shutil.rmtree(w)
        if caught is None:
            print(('TESTS ' if missing else 'SURVIVES ') + json.dumps(r), flush=True)
        elif not caught.endswith(':1'):
            print('ODD', json.dumps(r), flush=True)
    with ThreadPoolExecutor(par) as ex:
        list(ex.map(one, enumerate(todo)))
    shutil.rmtree(base)


main()
