"""Plant bugs: plant.py DEFS.py [id ...]

DEFS.py holds BUGS: list of dicts (id, property, edits [(file, old, new)],
needs, breaks, demo). In a scratch copy of /repo each change is made, the tests
and the demonstration are run with and without it, and what is confirmed is
written to /verif/seeded/<id>/."""
import json
import os
import runpy
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/plant'
PY = '/opt/venv/bin/python'
SH = '''#!/bin/bash
# run in the repository; exit 0: the property holds for this demonstration
D="$(cd "$(dirname "$0")" && pwd)"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" PYTHONHASHSEED=0
exec timeout 200 "$PY" -W ignore "$D/demo.py"
'''
PRE = '''import sys
from os_urlpattern.config import get_default_config
from os_urlpattern.formatter import pformat
from os_urlpattern.parser import fuzzy_digest, parse
from os_urlpattern.pattern_maker import Maker, PatternMaker
from os_urlpattern.pattern_matcher import Matcher, PatternMatcher


def clusters(urls, mcn=3, metas=None):
    cfg = get_default_config()
    cfg.set('make', 'min_cluster_num', str(mcn))
    pm = PatternMaker(cfg)
    for i, u in enumerate(urls):
        pm.load(u, meta=metas[i] if metas else u)
    return pm


def show(pm):
    out = []
    for m, r in pm.make():
        lines = list(pformat('cluster', m, r))
        out.append((lines[0], sorted(x.strip() for x in lines[1:]), r.count))
    return sorted(out)


def best(pats, url):
    m = PatternMatcher()
    for p in pats:
        m.load(p, meta=p)
    return [n.meta for n in sorted(m.match(url), reverse=True)]


def check(ok, *what):
    if not ok:
        print('BROKEN:', *what)
        sys.exit(1)


'''


def sh(cmd, cwd=S, env=None):
    e = dict(os.environ, PYTHONPATH=S + '/src', PYTHONHASHSEED='0',
             PYTHONDONTWRITEBYTECODE='1',
             PATH='/opt/venv/bin:' + os.environ['PATH'])
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True,
                          text=True, timeout=600)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    want = sys.argv[2:]
    shutil.rmtree(S, True)
    subprocess.check_call(['cp', '-a', '/repo', S])
    try:
        for b in bugs:
            if want and b['id'] not in want:
                continue
            d = '/tmp/plant_demo'
            shutil.rmtree(d, True)
            os.makedirs(d)
            with open(d + '/demo.sh', 'w') as f:
                f.write(SH)
            with open(d + '/demo.py', 'w') as f:
                f.write(PRE + b['demo'].lstrip('\n'))
            sh(['git', 'checkout', '--', '.'])
            r0 = sh(['bash', d + '/demo.sh'])
            for fn, old, new in b['edits']:
                p = S + '/src/os_urlpattern/' + fn
                s = open(p).read()
                assert s.count(old) == 1, (b['id'], fn, s.count(old))
                open(p, 'w').write(s.replace(old, new))
            r1 = sh(['bash', d + '/demo.sh'])
            t = sh(['python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                    'tests'])
            diff = sh(['git', 'diff']).stdout
            ok = r0.returncode == 0 and r1.returncode not in (0, 124) \
                and t.returncode == 0
            print(b['id'], 'OK' if ok else 'REJECTED', 'clean', r0.returncode,
                  'bug', r1.returncode, 'tests', t.returncode,
                  (r1.stdout + r1.stderr).strip()[-200:])
            if not ok:
                print('   ', r0.stdout[-300:], r0.stderr[-300:],
                      t.stdout[-300:])
                continue
            o = os.path.join(V, 'seeded', b['id'])
            shutil.rmtree(o, True)
            shutil.copytree(d, o)
            os.chmod(o + '/demo.sh', 0o755)
            with open(o + '/patch.diff', 'w') as f:
                f.write(diff)
            with open(o + '/meta.json', 'w') as f:
                json.dump({'property': b['property'], 'needs': b['needs'],
                           'what_it_breaks': b['breaks']}, f, indent=1)
                f.write('\n')
    finally:
        shutil.rmtree(S, True)
        shutil.rmtree('/tmp/plant_demo', True)


main()
