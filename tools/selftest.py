"""Nothing has to be built. Makes sure that the simulator works here: a trivial run of each property."""
import glob
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(os.path.join(HERE, 'sim', 'props', 'c*.py')))
bad = 0
for p in props:
    r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), p, '--choices', '0', '--seed', '1'], capture_output=True, text=True, cwd=HERE,
                       env=dict(os.environ, PYTHONHASHSEED='1'))
    if r.returncode != 0:
        bad += 1
        print(p, r.stderr[-1000:])
print('%d properties, %d simulators that do not work' % (len(props), bad))
sys.exit(1 if bad == len(props) else 0)
