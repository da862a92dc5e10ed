"""Runs pattern-make and pattern-match of the real code on given bytes."""
import atexit
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from urllib.parse import urlparse

from . import impl, ref

_SERVER = None


class Server(object):
    def __init__(self):
        base = os.environ.get('MC_SCRATCH') or None
        self.dir = tempfile.mkdtemp(prefix='cli', dir=base)
        if base is None:
            atexit.register(shutil.rmtree, self.dir, True)
        ar, aw = os.pipe()
        br, bw = os.pipe()
        for fd in (ar, bw):
            os.set_inheritable(fd, True)
        self.p = subprocess.Popen(
            [sys.executable, '-W', 'ignore',
             os.path.join(os.path.dirname(os.path.abspath(__file__)),
                          'cliserver.py'), str(ar), str(bw), impl.REPO_SRC],
            pass_fds=(ar, bw), stdin=subprocess.DEVNULL, cwd=self.dir)
        os.close(ar)
        os.close(bw)
        self.w = os.fdopen(aw, 'w')
        self.r = os.fdopen(br, 'r')

    def request(self, fd, cmd, argv, stdin, files):
        for name, data in (files or {}).items():
            with open(os.path.join(self.dir, name), 'wb') as f:
                f.write(data)
        with open(os.path.join(self.dir, fd + '0'), 'wb') as f:
            f.write(stdin)
        return {'cmd': cmd, 'argv': argv,
                'stdin': os.path.join(self.dir, fd + '0'),
                'stdout': os.path.join(self.dir, fd + '1'),
                'stderr': os.path.join(self.dir, fd + '2')}

    def run(self, cmd, argv, stdin=b'', files=None, clock=None, before=()):
        req = {'seconds': 60, 'clock': clock, 'before': [
            self.request('b%d.' % i, *b) for i, b in enumerate(before)]}
        req.update(self.request('', cmd, argv, stdin, files))
        self.w.write(json.dumps(req) + '\n')
        self.w.flush()
        code = int(self.r.readline())
        with open(os.path.join(self.dir, '1'), 'rb') as f:
            out = f.read()
        with open(os.path.join(self.dir, '2'), 'rb') as f:
            err = f.read()
        return code, out, err


def run(cmd, argv, stdin=b'', files=None, clock=None, before=()):
    """files: name -> bytes, written in the working directory of the run.
    clock: how the clock of the process behaves (see cliserver).
    before: (cmd, argv, stdin, files) of the commands run earlier in the same
    process through the same entry points."""
    global _SERVER
    if _SERVER is None or _SERVER[0] != os.getpid():
        _SERVER = (os.getpid(), Server())
    return _SERVER[1].run(cmd, argv, stdin, files, clock, before)


def run_process(cmd, argv, stdin=b'', files=None, hashseed='0'):
    """The same in a new interpreter with pipes."""
    base = os.environ.get('MC_SCRATCH') or None
    d = tempfile.mkdtemp(prefix='cli', dir=base)
    try:
        for name, data in (files or {}).items():
            with open(os.path.join(d, name), 'wb') as f:
                f.write(data)
        env = dict(os.environ)
        env['PYTHONPATH'] = impl.REPO_SRC
        env['PYTHONHASHSEED'] = hashseed
        fn = {'pattern-make': 'make', 'pattern-match': 'match'}[cmd]
        p = subprocess.Popen(
            [sys.executable, '-W', 'ignore', '-c',
             'import sys; from os_urlpattern.cmdline import %s; '
             'sys.argv[0] = %r; sys.exit(%s())' % (fn, cmd, fn)] + argv,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, cwd=d, env=env)
        out, err = p.communicate(stdin, timeout=100)
        return p.returncode, out, err
    finally:
        shutil.rmtree(d, True)


# ------------------------------------------------------ kinds of lines --
# name -> bytes of a line without its end; '{}' is replaced by a letter that
# makes lines of a sequence differ

LINES = {
    'url': b'http://h/{}',
    'same': b'http://h/a',
    'other': b'https://o/{}/1?k={}',
    'space': b' \t http://h/{} \t ',
    'crlf': b'http://h/{}\r',
    'blank': b'',
    'blanks': b' \t \r',
    'undec': b'http://h/\xff{}',
    'nonascii': b'http://h/\xc3\xa9{}',
    'inner': b'http://h/a b',
    'nohost': b'{}{}',
    'nopath': b'http://h',
    'ipv6': b'http://[h/{}',
    'pattern': b'/[a-z]',
    'badpat': b'/[a-z',
    'pctfmt': b'http://h/%s%d\x01',
    'badkey': b'http://h/x?\xc2\xa7=1',
    'nul': b'http://h/{}\x00',
    'brace': b'http://h/{{}}%s',
    'tabbed': b'\thttp://h/{}',
    'ftp': b'ftp://h/{}',
    'badport': b'http://h:x/{}',
}


def text(kind, i):
    return LINES[kind].replace(b'{}', bytes([98 + i]))


def lines_of(data):
    """What iterating the bytes of a file by line gives, stripped."""
    if not data:
        return []
    parts = data.split(b'\n')
    if parts[-1] == b'':
        parts.pop()
    return [p.strip() for p in parts]


CLOCKS = ['frozen', 'back', 'alternate', 'fast', 'tick']

# commands that may have run earlier in the process: name -> as for run()
_U = b'http://h/a\nhttp://h/b\nhttp://h/q\nhttp://h/x?k=7\n'
EARLIER = {
    'make': ('pattern-make', [], _U, {}),
    'file': ('pattern-make', ['-i', 'bu', '-f', 'json'], b'', {'bu': _U}),
    'low': ('pattern-make', ['-c', 'bc2'], _U,
            {'bc2': b'[make]\nmin_cluster_num = 2\n'}),
    'high': ('pattern-make', ['-c', 'bc9', '-f', 'pattern'], _U,
             {'bc9': b'[make]\nmin_cluster_num = 9\n'}),
    'log': ('pattern-make', ['-l', 'debug', '-f', 'ete'],
            _U + b'x\n\xff\n\n', {}),
    'null': ('pattern-make', ['-f', 'null'], _U, {}),
    'usage': ('pattern-make', ['-f', 'none'], _U, {}),
    'match': ('pattern-match', ['-p', 'bp'], _U,
              {'bp': b'/[a-z]\n/a\n/z\n'}),
    'all': ('pattern-match', ['-a', '-l', 'info', '-p', 'bp', 'bp2'],
            _U + b'x\n', {'bp': b'/[a-z]\n', 'bp2': b'/[a-z]+\n/[a\n'}),
    'needs': ('pattern-match', [], _U, {}),
}


def histories(k):
    """Every sequence of 1..k earlier commands."""
    for n in range(1, k + 1):
        for t in itertools.product(EARLIER, repeat=n):
            yield list(t)


# one odd character: every byte, and blanks or line ends beyond ASCII
ODD = [bytes([i]) for i in range(256) if i != 10] + [
    chr(i).encode('utf-8') for i in (0x85, 0xa0, 0xe9, 0x1680, 0x2000, 0x2028,
                                     0x2029, 0x202f, 0x205f, 0x3000, 0xfeff,
                                     0x1f600)]
PLACES = {'lead': b'%shttp://h/a', 'trail': b'http://h/a%s',
          'mid': b'http://h/a%sb', 'host': b'http://h%s/a', 'alone': b'%s',
          'query': b'http://h/a?k=%s1', 'frag': b'http://h/a#x%s'}


def odd_lines(place, lo):
    """16 lines with an odd character in that place."""
    return [PLACES[place] % c for c in ODD[lo:lo + 16]]


def url_of(line):
    """The URL a (stripped) line holds, None if it holds none."""
    if b'\t' in line or b'\r' in line:
        return None
    if any(c < 32 for c in line):     # urlparse drops leading ones
        try:
            u = line.decode('utf-8')
            impl.PatternMaker().load(u)
            return u
        except Exception:
            return None
    try:
        u = line.decode('utf-8')
        urlparse(u)
    except ValueError:
        return None
    if not u or u.startswith('/') or ref.try_parse(u) is None:
        return None
    return u


def end(data, how):
    """The bytes of a file of the given lines; how: 'nl' ends the last line,
    'no' does not."""
    out = b'\n'.join(data)
    return out + b'\n' if how == 'nl' and data else out


def sources(lines, src, how):
    """(argv, stdin, files) presenting the lines to the -i option."""
    if src == 'stdin':
        return [], end(lines, how), {}
    if src == 'file':
        return ['-i', 'u0'], b'', {'u0': end(lines, how)}
    if src[0] == 'split':
        a, b = lines[:src[1]], lines[src[1]:]
        return ['-i', 'u0', 'u1'], b'', {'u0': end(a, how),
                                         'u1': end(b, how)}
    if src == 'each':
        files = dict(('u%d' % i, end([x], how)) for i, x in enumerate(lines))
        return ['-i'] + ['u%d' % i for i in range(len(lines))], b'', files
    if src == 'twice':
        return ['-i', 'u0', 'u0'], b'', {'u0': end(lines, how)}
    raise AssertionError(src)


def effective(lines, src):
    """The lines read, in order (empty last lines without end vanish)."""
    return lines * 2 if src == 'twice' else lines


# ---------------------------------------------------------------- the log --
_RECORD = re.compile(br'\[[^\]]*\] \[\w+\] '
                     br'\[(DEBUG|INFO|WARNING|ERROR|CRITICAL)\]')
_COUNT = re.compile(br'\b([A-Z]+):\s?([0-9]+)')
_RANK = {'NOTSET': 9, 'DEBUG': 0, 'INFO': 1, 'WARN': 2, 'WARNING': 2,
         'ERROR': 3, 'FATAL': 4, 'CRITICAL': 4}


def option(argv, flag):
    """The values of an option."""
    if flag not in argv:
        return []
    out = []
    for x in argv[argv.index(flag) + 1:]:
        if x.startswith('-'):
            break
        out.append(x)
    return out


def raw_lines(argv, stdin, files, flag='-i'):
    """The lines that are read, as they are but for their ends."""
    datas = [files[x] for x in option(argv, flag)] if flag in argv \
        else [stdin]
    out = []
    for d in datas:
        out += d.split(b'\n')
        if out[-1] == b'':
            out.pop()
    return out


def judge_log(argv, err, counts, refused, bad):
    """What the log says of the lines must be true: the totals (last record
    with totals), one warning or error per refused line that names it, and
    nothing below the chosen level.  Wording and layout are free: totals that
    cannot be found are not judged."""
    level = (option(argv, '-l') or ['NOTSET'])[0].upper()
    records = [(m.group(1).decode(), x) for x in err.split(b'\n')
               for m in [_RECORD.match(x)] if m]
    low = [x for lv, x in records if _RANK[lv] < _RANK[level]]
    if low:
        bad.append('-l %s logs %r' % (level, low[0][:200]))
    if _RANK[level] <= 2:
        loud = [x for lv, x in records if _RANK[lv] in (2, 3)]
        if len(loud) != len(refused):
            bad.append('-l %s: %d warnings for %d refused lines: %r' % (
                level, len(loud), len(refused), (loud, refused)))
        for x in refused:
            if len(x) < 99 and not any(
                    repr(x).encode()[2:-1] in r for r in loud):
                bad.append('-l %s: no warning names the refused line %r'
                           % (level, x))
                break
    totals = [dict((k.decode(), int(v)) for k, v in _COUNT.findall(x))
              for lv, x in records if lv == 'DEBUG' and b'ALL:' in x]
    if level == 'DEBUG' and totals:
        for k, v in counts.items():
            if v is not None and totals[-1].get(k, 0) != v:
                bad.append('the log counts %d lines as %s, there are %d' % (
                    totals[-1].get(k, 0), k, v))


def judge_make_log(argv, stdin, files, err, bad):
    if not err and '-l' not in argv:
        return
    read = [x.strip() for x in raw_lines(argv, stdin, files)]
    urls = [url_of(x) for x in read]
    refused = [x for x, u in zip(read, urls) if x and u is None]
    urls = [u for u in urls if u]
    uniq = None
    if not any(c < ' ' for u in urls for c in u):
        uniq = len(set((p.structure, p.components)
                       for p in map(ref.parse, urls)))
    judge_log(argv, err, {
        'ALL': len(read), 'EMPTY': read.count(b''), 'VALID': len(urls),
        'INVALID': len(refused), 'UNIQ': uniq}, refused, bad)


def judge_match_log(argv, stdin, files, err, bad):
    if not err and '-l' not in argv:
        return
    read = [x.rstrip() for x in raw_lines(argv, stdin, files, '-p')]
    n = 0
    refused = []
    m = impl.PatternMatcher()
    for x in read:
        if x.startswith(b'/'):
            try:
                m.load(x.decode('utf-8'))
                n += 1
            except Exception:
                refused.append(x)
    k = len(refused)
    refused += [x for x in (y.strip() for y in raw_lines(argv, stdin, files))
                if url_of(x) is None]
    judge_log(argv, err, {
        'ALL': len(read), 'VALID': n, 'INVALID': k,
        'UNKNOW': len(read) - n - k}, refused, bad)
