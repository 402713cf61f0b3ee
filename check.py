#!/usr/bin/env python3
"""check.py <ID>                 run the check of one property (VERIF_SEED, VERIF_TIER)
   check.py --replay FILE        re-execute a replay file: exit 1 and the VIOLATION line if it still fails
   check.py --digests ID N       print the event-log digest of N runs (determinism proof)
   (--worker is internal)
"""
import collections
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
KNOWN_FILE = os.path.join(HERE, 'known_findings.jsonl')
REPLAYS = os.path.join(HERE, 'replays')
WALL_LIMIT = {'quick': 780.0, 'thorough': 6 * 3600.0}

sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
sys.set_int_max_str_digits(0)


def known_for(pid):
    out = []
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            line = line.strip()
            if line and line.startswith('{'):
                rec = json.loads(line)
                if rec.get('property') == pid and rec.get('status') == 'known':
                    out.append(rec)
    return out


def env_for(hashseed):
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = str(hashseed)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONWARNINGS'] = 'ignore'
    env['PYTHONPYCACHEPREFIX'] = os.path.join(HERE, 'replays', 'no-bytecode')   # never read a stale .pyc of /repo
    env.pop('PYTHONPATH', None)
    return env


# ----------------------------------------------------------------------
# worker
# ----------------------------------------------------------------------

def worker(pid, seed, first, stride, total, stopfile, runs_override):
    from dsim import engine
    prop = engine.load(pid)
    known = known_for(pid)
    agg = {'runs': 0, 'stats': collections.Counter(), 'faults': collections.Counter(), 'probes': collections.Counter(),
           'steps': 0, 'events': 0, 'nontrivial': 0, 'known_hits': collections.Counter(), 'fault_runs': 0}
    states, digests, nontrivial = set(), set(), set()
    samples = []
    for index in range(first, total, stride):
        if os.path.exists(stopfile):
            break
        want = len(samples) < 1
        res = engine.run_index(prop, seed, index, known, want_plan=want)
        if 'error' in res:
            print(json.dumps({'type': 'error', 'index': index, 'error': res['error']}), flush=True)
            return
        agg['runs'] += 1
        for k in ('stats', 'faults', 'probes', 'known_hits'):
            agg[k].update(res[k])
        agg['steps'] += res['steps']
        agg['events'] += res['nlog']
        agg['fault_runs'] += bool(res['faults'])
        digests.add(res['digest'])
        if res['nontrivial']:
            nontrivial.add(res['digest'])
        states.update(res['states'])
        if want and 'plan' in res:
            samples.append({'index': index, 'plan': res['plan'], 'digest': res['digest'], 'faults': res['faults']})
        if 'violation' in res:
            print(json.dumps({'type': 'violation', 'index': index, 'violation': res['violation'],
                              'plan': res['plan'], 'tail': res.get('tail', []),
                              'hashseed': int(os.environ['PYTHONHASHSEED'])}), flush=True)
            break
    for k in ('stats', 'faults', 'probes', 'known_hits'):
        agg[k] = dict(agg[k])
    print(json.dumps({'type': 'done', 'agg': agg, 'states': sorted(states), 'digests': sorted(digests),
                      'nontrivial': sorted(nontrivial), 'samples': samples}), flush=True)


def shrink_worker(path):
    """Minimises the violation stored in a replay file (internal)."""
    from dsim import engine
    rec = json.load(open(path))
    prop = engine.load(rec['property'])
    known = known_for(rec['property'])
    best, tries = engine.minimise(prop, rec['plan'], rec['violation'], known, budget_s=rec.get('budget', 60.0))
    res = engine.run_plan(prop, best, known)
    if res.get('violation'):
        rec['original_plan'] = rec['plan']
        rec['plan'] = best
        rec['violation'] = res['violation']
        rec['tail'] = res.get('tail', [])
    rec['shrink_tries'] = tries
    json.dump(rec, open(path, 'w'), indent=1, default=repr)


# ----------------------------------------------------------------------
# replay
# ----------------------------------------------------------------------

def replay(path):
    rec = json.load(open(path))
    want = str(rec.get('hashseed', 0))
    if os.environ.get('PYTHONHASHSEED') != want:
        os.execve(PY, [PY, os.path.abspath(__file__), '--replay', path], env_for(want))
    from dsim import engine
    prop = engine.load(rec['property'])
    res = engine.run_plan(prop, rec['plan'], known_for(rec['property']), wall=300)
    if 'error' in res:
        sys.stderr.write(res['error'])
        return 2
    v = res.get('violation')
    if v:
        print('kind: %s\nop: %s\ndetail: %s' % (v['kind'], v['op'], v['detail']))
        for line in res.get('tail', [])[-12:]:
            print('  event:', line)
        print('VIOLATION property=%s replay=%s' % (rec['property'], path))
        return 1
    print('replay: no violation (digest %s)' % res['digest'])
    return 0


# ----------------------------------------------------------------------
# main
# ----------------------------------------------------------------------

def main_check(pid, argv):
    t0 = time.monotonic()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    runs = None
    workers = int(os.environ.get('VERIF_WORKERS', '0')) or max(4, min(16, os.cpu_count() or 4))
    for i, a in enumerate(argv):
        if a == '--runs':
            runs = int(argv[i + 1])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    evidence_path = os.path.join(HERE, 'evidence', pid + '.json')
    if os.path.exists(evidence_path):
        os.unlink(evidence_path)
    print('check %s tier=%s VERIF_SEED=%d workers=%d' % (pid, tier, seed, workers), flush=True)

    os.environ['PYTHONHASHSEED'] = os.environ.get('PYTHONHASHSEED', '0')
    probe = subprocess.run([PY, os.path.abspath(__file__), '--describe', pid], env=env_for(0), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, cwd=HERE)
    if probe.returncode != 0:
        sys.stderr.write(probe.stderr)
        print('ERROR: the library or the harness cannot be loaded')
        return 2
    desc = json.loads(probe.stdout.strip().splitlines()[-1])
    total = runs or desc['runs'][tier]
    nh = desc['hashseeds']
    per = max(1, workers // nh)
    stride = nh * per
    tmp = tempfile.mkdtemp(prefix='verif-')
    stopfile = os.path.join(tmp, 'stop')
    procs = []
    errfiles = []
    for first in range(stride):
        err = open(os.path.join(tmp, 'err%d' % first), 'w+')
        errfiles.append(err)
        out = open(os.path.join(tmp, 'out%d' % first), 'w+')
        p = subprocess.Popen([PY, os.path.abspath(__file__), '--worker', pid, str(seed), str(first), str(stride),
                              str(total), stopfile], env=env_for(first % nh), stdout=out, stderr=err, cwd=HERE)
        procs.append((p, out, err))
    limit = WALL_LIMIT[tier]
    timed_out = False
    while any(p.poll() is None for p, _, _ in procs):
        time.sleep(0.1)
        if not os.path.exists(stopfile):
            for p, out, _ in procs:
                if p.poll() is not None:
                    out.seek(0)
                    if '"type": "violation"' in out.read():
                        # let the other workers finish the run they are in, no more
                        open(stopfile, 'w').close()
        if time.monotonic() - t0 > limit:
            timed_out = True
            for p, _, _ in procs:
                if p.poll() is None:
                    p.kill()
    violations, errors = [], []
    agg = {'runs': 0, 'steps': 0, 'events': 0, 'fault_runs': 0}
    counters = {k: collections.Counter() for k in ('stats', 'faults', 'probes', 'known_hits')}
    states, digests, nontrivial, samples = set(), set(), set(), []
    for p, out, err in procs:
        out.seek(0)
        done = False
        for line in out.read().splitlines():
            if not line.startswith('{'):
                continue
            try:
                rec = json.loads(line)
            except ValueError:
                continue
            if rec['type'] == 'violation':
                violations.append(rec)
            elif rec['type'] == 'error':
                errors.append('run %d: %s' % (rec['index'], rec['error']))
            elif rec['type'] == 'done':
                done = True
                a = rec['agg']
                for k in agg:
                    agg[k] += a[k]
                for k in counters:
                    counters[k].update(a[k])
                states.update(rec['states'])
                digests.update(rec['digests'])
                nontrivial.update(rec['nontrivial'])
                samples.extend(rec['samples'])
        if not done and not timed_out and not any(e for e in errors):
            err.seek(0)
            errors.append('worker died: ' + err.read()[-2000:])
        out.close()
        err.close()
    for name in os.listdir(tmp):
        os.unlink(os.path.join(tmp, name))
    os.rmdir(tmp)

    explore_s = time.monotonic() - t0
    code = 0
    replay_path = None
    if violations:
        violations.sort(key=lambda r: r['index'])
        rec = violations[0]
        rec = {'property': pid, 'seed': seed, 'index': rec['index'], 'hashseed': rec['hashseed'],
               'violation': rec['violation'], 'plan': rec['plan'], 'tail': rec['tail']}
        replay_path = os.path.join(REPLAYS, '%s-s%d-i%d.json' % (pid, seed, rec['index']))
        json.dump(rec, open(replay_path, 'w'), indent=1)
        print('run %d violates %s: %s %s' % (rec['index'], pid, rec['violation']['kind'], rec['violation']['op']),
              flush=True)
        left = limit - (time.monotonic() - t0)
        try:
            subprocess.run([PY, os.path.abspath(__file__), '--shrink', replay_path], env=env_for(rec['hashseed']),
                           cwd=HERE, timeout=max(30, min(200, left)))
        except subprocess.TimeoutExpired:
            print('minimisation ran out of time; the unminimised plan is the replay file')
        reproduced = False
        try:
            again = subprocess.run([PY, os.path.abspath(__file__), '--replay', replay_path],
                                   env=env_for(rec['hashseed']), cwd=HERE, stdout=subprocess.PIPE, text=True,
                                   timeout=400)
            reproduced = again.returncode == 1
        except (subprocess.TimeoutExpired, ValueError):
            reproduced = None
        final = json.load(open(replay_path))
        if not reproduced and 'original_plan' in final:
            final['plan'] = final.pop('original_plan')
            json.dump(final, open(replay_path, 'w'), indent=1)
        print('violated: %s in %s' % (final['violation']['kind'], final['violation']['op']))
        print('detail: %s' % final['violation']['detail'])
        print('minimised plan: %s' % json.dumps(final['plan'])[:3000])
        print('reproduced in a fresh process: %s' % reproduced)
        print('VIOLATION property=%s replay=%s' % (pid, replay_path), flush=True)
        code = 1
    elif errors:
        for e in errors[:3]:
            sys.stderr.write('HARNESS ERROR: %s\n' % e)
        print('ERROR: harness error (not a violation): %s' % errors[0].strip().splitlines()[-1])
        code = 2
    elif timed_out:
        print('ERROR: wall-clock limit reached before the planned %d runs were done' % total)
        code = 2

    known = known_for(pid)
    for k in known:
        if counters['known_hits'].get(k['sig']):
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        elif code == 0:
            print('note: known finding not met in this batch: %s' % k['sig'])

    wall = time.monotonic() - t0
    hours = max(explore_s, 1e-6) / 3600.0
    coverage = {
        'evaluations': agg['runs'],
        'distinct_nontrivial': len(nontrivial),
        'rule': desc['rule'],
        'samples': [json.loads(json.dumps(s)[:4000]) if len(json.dumps(s)) <= 4000 else
                    {'index': s['index'], 'digest': s['digest'], 'plan_head': json.dumps(s['plan'])[:3500]}
                    for s in samples[:3]],
        'runs_with_a_fault': agg['fault_runs'],
        'runs_and_seeds_per_hour': int(agg['runs'] / hours),
        'first_seed': '%s/%d/0' % (pid, seed),
        'simulated_time': {'unit': 'scheduler steps (the code under test reads no clock)', 'steps': agg['steps'],
                           'events_logged': agg['events']},
        'faults_injected': dict(sorted(counters['faults'].items())),
        'operations': dict(sorted(counters['stats'].items())),
        'rare_condition_probes': dict(sorted(counters['probes'].items())),
        'distinct_event_logs': len(digests),
        'distinct_states': len(states),
        'state_measure': desc['state_measure'],
        'hash_seeds': nh,
        'ran_real_code': desc['real'],
        'ran_a_stub': desc['stub'],
        'known_findings_met': dict(counters['known_hits']),
        'exhaustive': False,
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': desc['level'], 'coverage': coverage,
          'assumptions': desc['assumptions'], 'wall_s': round(wall, 2), 'violations': 1 if code == 1 else 0}
    with open(evidence_path, 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d runs (%d nontrivial distinct), %d steps, %d faults, %d states, %.1f s -> exit %d' % (
        pid, agg['runs'], len(nontrivial), agg['steps'], sum(counters['faults'].values()), len(states), wall, code),
        flush=True)
    return code


def describe(pid):
    from dsim import engine
    p = engine.load(pid)
    print(json.dumps({'runs': p.RUNS, 'hashseeds': p.HASHSEEDS, 'rule': p.RULE, 'assumptions': p.ASSUMPTIONS,
                      'real': p.REAL, 'stub': p.STUB, 'state_measure': getattr(p, 'STATE_MEASURE', ''),
                      'level': getattr(p, 'LEVEL', 'exploration')}))


def digests(pid, n, seed):
    from dsim import engine
    prop = engine.load(pid)
    known = known_for(pid)
    nh = prop.HASHSEEDS
    h = int(os.environ['PYTHONHASHSEED'])
    for index in range(n):
        res = engine.run_index(prop, seed, index, known)
        print(index, res.get('digest'), res.get('violation', {}).get('sig') if res.get('violation') else '-',
              res.get('error', '')[-200:].replace('\n', ' '))


if __name__ == '__main__':
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        sys.exit(2)
    if a[0] == '--worker':
        worker(a[1], int(a[2]), int(a[3]), int(a[4]), int(a[5]), a[6], None)
        sys.exit(0)
    if a[0] == '--shrink':
        shrink_worker(a[1])
        sys.exit(0)
    if a[0] == '--describe':
        describe(a[1])
        sys.exit(0)
    if a[0] == '--replay':
        sys.exit(replay(a[1]))
    if a[0] == '--digests':
        if 'PYTHONHASHSEED' not in os.environ or sys.executable != PY:
            os.execve(PY, [PY, os.path.abspath(__file__)] + a,
                      dict(os.environ, PYTHONHASHSEED=os.environ.get('PYTHONHASHSEED', '0'), PYTHONWARNINGS='ignore'))
        digests(a[1], int(a[2]), int(os.environ.get('VERIF_SEED', '1')))
        sys.exit(0)
    try:
        code = main_check(a[0], a[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        print('ERROR: harness error')
        code = 2
    sys.exit(code)
