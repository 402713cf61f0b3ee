"""Setup: nothing to build; checks that the simulator repeats itself on this interpreter."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    for pid in ('C05', 'C10', 'C15'):
        outs = []
        for _ in range(2):
            env = dict(os.environ, PYTHONHASHSEED='1')
            r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), '--digests', pid, '12'], env=env,
                               stdout=subprocess.PIPE, timeout=600)
            if r.returncode:
                sys.exit('selftest: %s failed' % pid)
            outs.append(r.stdout)
        if outs[0] != outs[1]:
            sys.exit('selftest: two executions of the same seeds differ for %s' % pid)
    print('selftest: ok')


main()
