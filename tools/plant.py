#!/usr/bin/env python3
"""plant.py SPEC.py... [--no-tests] [--check]: turns specs into /verif/seeded/<id>.

A spec defines ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python source).
Confirms on a scratch copy: the patch applies, changes original lines only, the stable tests pass,
the demo exits 0 on the unchanged tree and nonzero with the patch.  With --check also runs the
property's check against the patched copy.
"""
import json, os, re, shutil, subprocess, sys, tempfile

BASE = 'e3f43b0'
DEMO_SH = '''#!/bin/bash
# run with cwd = the rosemary tree
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 exec timeout 250 "$PY" "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors='replace')


def tests(repo, tmp):
    env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'PYTEST_ADDOPTS')}
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=repo)
    junit = os.path.join(tmp, 'junit.xml')
    sh(['/opt/venv/bin/python', '-m', 'pytest', 'rosemary', '-q', '-p', 'no:cacheprovider', '-n', '8', '--timeout=60',
        '--continue-on-collection-errors', '--doctest-modules', '-o', 'doctest_optionflags=NORMALIZE_WHITESPACE',
        '--randomly-seed=2', '--randomly-dont-reorganize', '-o', 'junit_family=xunit2', '--junitxml=' + junit],
       cwd=repo, env=env)
    out = os.path.join(tmp, 'out.json')
    sh(['/usr/bin/python3', '/opt/vp/results.py', out, 'junit:' + junit])
    got = set(json.load(open(out))['passed'])
    want = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [t for t in want if t not in got]


def main(argv):
    flags = {a for a in argv if a.startswith('--')}
    for spec_path in [a for a in argv if not a.startswith('--')]:
        spec = {}
        exec(compile(open(spec_path).read(), spec_path, 'exec'), spec)
        sid = spec['ID']
        tmp = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
        try:
            repo = os.path.join(tmp, 'repo')
            shutil.copytree('/repo', repo, symlinks=True)
            files = set()
            bad = None
            for f, old, new in spec['EDITS']:
                p = os.path.join(repo, f)
                s = open(p).read()
                if s.count(old) != 1:
                    bad = 'edit in %s matches %d times: %r' % (f, s.count(old), old[:60])
                    break
                open(p, 'w').write(s.replace(old, new))
                files.add(f)
            if bad:
                print(sid, 'BAD', bad)
                continue
            rc, diff = sh(['git', 'diff'], cwd=repo)
            # every removed line must be original
            mine = []
            for f in files:
                rc, bl = sh(['git', 'blame', '-s', '-l', 'HEAD', '--', f], cwd=repo)
                rc, d0 = sh(['git', 'diff', '-U0', '--', f], cwd=repo)
                lines = bl.split('\n')
                base_files = sh(['git', 'rev-list', BASE], cwd=repo)[1].split()
                for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', d0, re.M):
                    a, n = int(m.group(1)), int(m.group(2) or 1)
                    for i in range(a, a + n):
                        h = lines[i - 1].split(' ')[0].lstrip('^')
                        if not any(b.startswith(h) for b in base_files):
                            mine.append(lines[i - 1])
            if mine:
                print(sid, 'NOTE: touches lines of fix commits:', mine[:3])
            seeded = os.path.join('/verif/seeded', sid)
            stage = os.path.join(tmp, 'stage')
            os.makedirs(stage)
            open(os.path.join(stage, 'patch.diff'), 'w').write(diff)
            open(os.path.join(stage, 'demo.py'), 'w').write(spec['DEMO'].lstrip('\n'))
            open(os.path.join(stage, 'demo.sh'), 'w').write(DEMO_SH)
            json.dump({'property': spec['PROP'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']},
                      open(os.path.join(stage, 'meta.json'), 'w'), indent=1)
            os.chmod(os.path.join(stage, 'demo.sh'), 0o755)
            demo = os.path.join(stage, 'demo.sh')
            rc0, out0 = sh(['bash', demo], cwd='/repo')
            rc1, out1 = sh(['bash', demo], cwd=repo)
            if rc0 != 0 or rc1 == 0:
                print(sid, 'BAD demo: clean rc=%d, patched rc=%d\n%s\n---\n%s' % (rc0, rc1, out0[-1200:], out1[-600:]))
                continue
            if '--no-tests' not in flags:
                missing = tests(repo, tmp)
                if missing:
                    print(sid, 'BAD tests:', missing[:4])
                    continue
            os.makedirs('/verif/seeded', exist_ok=True)
            if os.path.isdir(seeded):
                shutil.rmtree(seeded)
            shutil.copytree(stage, seeded)
            print(sid, 'KEPT; demo says:', out1.strip().split('\n')[-1][:150], flush=True)
            if '--check' in flags:
                print(sh(['bash', '/verif/tools/against.sh', os.path.join(seeded, 'patch.diff')] + spec.get('CHECKS', [spec['PROP']]))[1], flush=True)
        finally:
            shutil.rmtree(tmp)


main(sys.argv[1:])
