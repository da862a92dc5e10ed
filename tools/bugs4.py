BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     breaks=breaks, demo=demo))


bug('c07-hash-order', 'C07',
    [('parse_utils.py', "            self._fuzzy_rule = ''.join(sorted(set(self.rules)))",
      "            rules = set(self.rules)\n            self._fuzzy_rule = ''.join(rules if len(rules) > 4 else sorted(rules))")],
    'a component with at least five character spaces and two processes with different hash seeds, or set collisions',
    'the digest of one URL differs between processes',
    r'''
import os
import subprocess
got = set()
for seed in '1234567':
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c',
                        'from os_urlpattern.parser import fuzzy_digest\n'
                        'print([fuzzy_digest("http://h/" + x) for x in ("aB1-_", "x/aB1-.")])'],
                       env=dict(os.environ, PYTHONHASHSEED=seed), stdout=subprocess.PIPE)
    check(p.returncode == 0)
    got.add(p.stdout)
check(len(got) == 1, got)
''')

bug('c18-config-kept', 'C18',
    [('cmdline.py', "def make(argv=None):\n    _execute(MakePatternCommand(get_default_config()), argv)",
      "_CONFIG = get_default_config()\n\n\ndef make(argv=None):\n    _execute(MakePatternCommand(_CONFIG), argv)")],
    'two pattern-make runs in one process, the first with a config file',
    'the config file of an earlier run is used by a later one',
    r'''
import contextlib
import io
import os
import shutil
import tempfile
from os_urlpattern.cmdline import make
d = tempfile.mkdtemp()
try:
    u, c = os.path.join(d, 'u'), os.path.join(d, 'c')
    with open(u, 'w') as f:
        f.write('http://h/a\nhttp://h/b\n')
    with open(c, 'w') as f:
        f.write('[make]\nmin_cluster_num = 2\n')
    outs = []
    for opt in ([], ['-c', c], []):
        s = io.StringIO()
        with contextlib.redirect_stdout(s):
            make(['pattern-make', '-i', u, '-f', 'pattern'] + opt)
        outs.append(sorted(s.getvalue().split()))
finally:
    shutil.rmtree(d)
check(outs == [['/a', '/b'], ['/[a-z]'], ['/a', '/b']], outs)
''')

bug('c19-last-file', 'C19',
    [('cmdline.py', "        for line in chain.from_iterable(args.inputs):\n            speed_logger.debug('[MATCHING]')\n            line = line.strip()",
      "        buf = b''\n        for line in chain.from_iterable(args.inputs):\n            line = buf + line\n            buf = b''\n            if line.endswith(b'\\\\\\n'):\n                buf = line[:-2]\n                continue\n            speed_logger.debug('[MATCHING]')\n            line = line.strip()")],
    'an input line that ends with a backslash (legal in URLs)',
    'two input lines are joined and answered once',
    r'''
import os
import shutil
import subprocess
import tempfile
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'p')
    with open(p, 'w') as f:
        f.write('/[a-z]\n/[\\\\a-z]+\n')
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c',
                        'from os_urlpattern.cmdline import match\nmatch()', '-p', p],
                       input=b'http://h/a\nhttp://h/ab\\\nhttp://h/b\n', stdout=subprocess.PIPE)
finally:
    shutil.rmtree(d)
check(r.returncode == 0 and len(r.stdout.splitlines()) == 3, r.stdout)
''')

bug('c20-lazy-sort', 'C20',
    [('pattern_matcher.py', "        parsed_piece = parsed_pieces[idx]\n        for matcher in self._view_matchers:",
      "        parsed_piece = parsed_pieces[idx]\n        if self.count >= 0:\n            self.count = -1 - self.count\n            matchers, self._view_matchers = self._view_matchers, []\n            for matcher in sorted(matchers, key=lambda m: VIEW_ORDER[m.view_cls]):\n                self._view_matchers.append(matcher)\n        for matcher in self._view_matchers:")],
    'two threads making the first match with a shared matcher at the same time',
    'a thread misses patterns while another one is preparing the node',
    r'''
import sys
import threading
bad = []


def fresh():
    m = PatternMatcher()
    for p in ('/[a-z]', '/a', '/[a-z]+'):
        m.load(p, meta=p)
    return m


want = sorted(n.meta for n in fresh().match('http://h/a'))


def trace(k, m):
    n = [0]

    def other():
        got = sorted(x.meta for x in m.match('http://h/a'))
        if got != want:
            bad.append(got)

    def f(frame, event, arg):
        if event == 'line' and 'os_urlpattern' in frame.f_code.co_filename:
            n[0] += 1
            if n[0] == k:
                sys.settrace(None)
                t = threading.Thread(target=other)
                t.start()
                t.join()
                frame.f_trace = None
                return None
        return f
    return f


for k in range(1, 500):
    m = fresh()
    sys.settrace(trace(k, m))
    try:
        got = sorted(n.meta for n in m.match('http://h/a'))
    finally:
        sys.settrace(None)
    if got != want:
        bad.append((k, got))
check(not bad, bad[:3])
''')

bug('c16-parsed-key', 'C16',
    [('pattern_maker.py', "        sid = fuzzy_digest(url_meta, parsed_pieces)\n        if sid not in self._makers:",
      "        sid = fuzzy_digest(url_meta, [p for p in parsed_pieces if p.piece_length] or parsed_pieces)\n        if sid not in self._makers:")],
    'URLs of one structure with an empty component (a value-less query or a trailing slash) at different places',
    'URLs of different fuzzy digests share a sub maker',
    r'''
import itertools
pool = ['http://h/x?a=&b=1', 'http://h/x?a=1&b=', 'http://h/x?a=2&b=', 'http://h/x?a=&b=2',
        'http://h/a/', 'http://h/b/', 'http://h/c/?k=', 'http://h/c/?k=1', 'http://h/c/d?k=']
for n in (2, 3, 4):
    for c in itertools.combinations(pool, n):
        pm = clusters(c, 2)
        check(len(list(pm.makers)) == len(set(fuzzy_digest(u) for u in c)), c)
''')

bug('c17-escape', 'C17',
    [('formatter.py', "            yield json.dumps({'ptn': p, 'cnt': root.count})",
      "            yield json.dumps({'ptn': p.replace('\\\\\\\\', '\\\\'), 'cnt': root.count})")],
    'a URL with a backslash',
    'the json format shows another pattern',
    r'''
import json
pm = clusters(['http://h/a\\b'])
for m, r in pm.make():
    a = list(pformat('pattern', m, r))
    b = [json.loads(x)['ptn'] for x in pformat('json', m, r)]
    check(a == b, a, b)
''')
