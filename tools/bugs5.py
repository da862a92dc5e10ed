BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     breaks=breaks, demo=demo))


RUN = r'''
import os
import subprocess
def cmd(fn, argv, stdin):
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c',
                        'from os_urlpattern.cmdline import %s\n%s()' % (fn, fn)] + argv,
                       input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    check(p.returncode == 0, p.stderr)
    return p
'''

bug('c18-log-total', 'C18',
    [('cmdline.py', "                    if is_new:\n                        stats['UNIQ'] += 1\n                    stats['VALID'] += 1",
      "                    if is_new:\n                        stats['UNIQ'] += 1\n                        stats['VALID'] += 1")],
    'the log at DEBUG level and a URL that occurs twice',
    'the totals in the log do not add up: repeated valid lines are not counted',
    RUN + r'''
import re
p = cmd('make', ['-l', 'debug'], b'http://h/a\nhttp://h/a\nx\n\nhttp://h/b\n')
got = dict(re.findall(r'\b([A-Z]+):\s?(\d+)', [x for x in p.stderr.decode().split('\n') if 'ALL:' in x][-1]))
check(got['ALL'] == '5' and got['VALID'] == '3' and got['UNIQ'] == '2' and got['INVALID'] == '1', got)
''')

bug('c19-warn-once', 'C19',
    [('cmdline.py', "            self._logger.warn(\"%s, %r\", str(e), raw_url)",
      "            if str(e) not in self._warned:\n                self._warned.add(str(e))\n                self._logger.warn(\"%s, %r\", str(e), raw_url)"),
     ('cmdline.py', "        super(MatchPatternCommand, self).__init__()\n",
      "        super(MatchPatternCommand, self).__init__()\n        self._warned = set()\n")],
    'two invalid URL lines refused for the same reason, and the log at WARN or below',
    'only the first of the refused lines is reported in the log',
    RUN + r'''
import shutil
import tempfile
d = tempfile.mkdtemp()
try:
    n = os.path.join(d, 'p')
    with open(n, 'w') as f:
        f.write('/[a-z]\n')
    p = cmd('match', ['-l', 'warn', '-p', n], b'x\nhttp://h/a\ny\n')
finally:
    shutil.rmtree(d)
check(p.stdout == b'E\tx\n/[a-z]\thttp://h/a\nE\ty\n', p.stdout)
check(b"b'x'" in p.stderr and b"b'y'" in p.stderr, p.stderr)
''')

bug('c18-config-level', 'C18',
    [('cmdline.py', "    handler.setLevel(log_level)",
      "    handler.setLevel(min(logging.getLevelName(log_level), logging.WARNING))")],
    'the log level ERROR or FATAL and an invalid line',
    'warnings are logged although only errors were asked for',
    RUN + r'''
for lv in ('ERROR', 'FATAL', 'fatal'):
    p = cmd('make', ['-l', lv], b'x\nhttp://h/a\n')
    check(b'WARN' not in p.stderr, p.stderr)
check(b'WARN' in cmd('make', ['-l', 'warn'], b'x\nhttp://h/a\n').stderr)
''')
