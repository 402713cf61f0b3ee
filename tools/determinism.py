"""Determinism proof: event-log digests of the same runs, executed in different processes.

determinism.py [N [IDS...]]   for every property and hash seed: N runs, twice, in fresh interpreters.
"""
import concurrent.futures
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(job):
    pid, n, h, seed, _ = job
    env = dict(os.environ, PYTHONHASHSEED=str(h), VERIF_SEED=str(seed))
    r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), '--digests', pid, str(n)], env=env,
                       stdout=subprocess.PIPE)
    return job, r.returncode, r.stdout


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 100
    ids = sys.argv[2:] or ['C%02d' % i for i in range(1, 17)] + ['C23', 'C24']
    jobs = [(p, n, h, seed, k) for k in (0, 1) for p in ids for h in range(4) for seed in (1, 2)]
    seen, bad, lines = {}, 0, 0
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('VERIF_WORKERS', '8'))) as ex:
        for job, rc, out in ex.map(one, jobs):
            if rc:
                print('FAILED', job)
                bad += 1
                continue
            lines += out.count(b'\n')
            if seen.setdefault(job[:4], out) != out:
                bad += 1
                print('DIFFERENT', job)
                for a, b in zip(seen[job[:4]].split(b'\n'), out.split(b'\n')):
                    if a != b:
                        print('  ', a, b)
                        break
    print('%d runs executed, %d of %d jobs differ' % (lines, bad, len(jobs)))
    sys.exit(bool(bad))


main()
