"""matrix.py [--all] [bug ...]: run the check of each planted bug's property
(--all: every check) on a scratch copy of /repo with the bug, and print which
caught it (development tool; evidence is rewritten by the next real run)."""
import glob
import json
import os
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
allc = '--all' in args
only = [a for a in args if a.startswith('C')]
want = [a for a in args if a != '--all' and not a.startswith('C')]
checks = ['C%02d' % i for i in range(1, 40)
          if os.path.exists(V + '/mc/checks/c%02d.py' % i)]
for d in sorted(glob.glob(V + '/seeded/*')):
    b = os.path.basename(d)
    if want and b not in want:
        continue
    S = '/tmp/matrix'
    shutil.rmtree(S, True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', S])
    subprocess.check_call(['git', 'apply', d + '/patch.diff'], cwd=S)
    p = json.load(open(d + '/meta.json'))['property']
    out = []
    for c in (only or (checks if allc else [p])):
        t = time.time()
        r = subprocess.run(['bash', V + '/run.sh', c, 'quick'],
                           capture_output=True, text=True,
                           env=dict(os.environ, MC_REPO_SRC=S + '/src',
                                    VERIF_SEED='1'))
        n = r.returncode
        out.append('%s%s(%ds)' % (c, {0: '-', 1: '+'}.get(n, '?%d' % n),
                                  time.time() - t))
        if n == 1 and not allc:
            out.append(r.stdout.strip()[:300])
        if n not in (0, 1):
            out.append(r.stdout[-500:] + r.stderr[-500:])
    print(b, ' '.join(out), flush=True)
    shutil.rmtree(S, True)
