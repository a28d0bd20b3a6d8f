"""determinism.py [RUNS] [ID...]: the digests of the histories of the same runs, executed by 8 workers, by 3, and starting in the middle.

They must be equal: what a run does depends on nothing but the seed, the property, its index and the hash seed of its block.
"""
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def digests(prop, runs, workers, start):
    with tempfile.NamedTemporaryFile('r') as f:
        r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), prop, '--runs', str(runs), '--workers', str(workers), '--start', str(start),
                            '--digests', f.name], capture_output=True, text=True, cwd=HERE)
        if r.returncode != 0:
            print(prop, r.stdout[-2000:])
        return dict(l.rsplit(' ', 1) for l in f.read().splitlines())


def main():
    import importlib
    runs = int(sys.argv[1]) if len(sys.argv) > 1 else 400
    props = sys.argv[2:] or ['C%02d' % i for i in list(range(1, 21)) + [25, 26]]
    bad = 0
    for p in props:
        block = importlib.import_module('sim.props.' + p.lower()).BLOCK
        n = max(runs // block, 2) * block
        a = digests(p, n, 8, 0)
        b = digests(p, n, 3, 0)
        c = digests(p, n - n // block // 2 * block, 5, n // block // 2 * block)
        diff = [k for k in a if a[k] != b.get(k)] + [k for k in c if a.get(k) != c[k]]
        bad += bool(diff) or not a
        print('%s: %d histories, %d again, %d of the second half; different: %s' % (p, len(a), len(b), len(c), diff[:5] or 'none'), flush=True)
    return 1 if bad else 0


sys.exit(main())
