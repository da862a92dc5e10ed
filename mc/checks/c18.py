"""C18: pattern-make accounts for every input line and never aborts."""
import collections
import itertools
import json
import re

from .. import cli, impl

ID = 'C18'
BOUNDS = {
    'quick': 'all sequences of <= 2 lines of 22 kinds (valid, duplicate, '
             'padded, blank, undecodable, malformed, pattern-looking ...) '
             'between 4 valid lines, with 6 formats (format and source '
             'combinations in rotation over all pairs), 6 log levels, stdin / '
             'file / two files split at every place / a file per line / a '
             'file twice, last line ended or not; all sequences of 3 lines of '
             '11 kinds; 24 config files x populations 1..8 x formats; 4999..'
             '5001 and 10001 lines with an invalid one at every boundary; '
             'lines of 1..65537 characters; each of 267 odd characters (every '
             'byte, blanks and line ends beyond ASCII) at 7 places of a line; '
             '5 clock behaviours (frozen, back, ...) x 0..10000 lines; after '
             'every sequence of <= 2 earlier commands of 10 in the same '
             'process; 16 runs in new interpreters with pipes and other hash seeds',
    'thorough': 'sequences of <= 2 lines with every format and source, 3 '
                'lines of all kinds with every format, 4 lines of 8 kinds, '
                'every sequence of <= 3 earlier commands',
}
ASSUMPTIONS = ['what the API yields is judged by the other properties',
               'the order of clusters and of metas in a cluster is free',
               'the wording and layout of the log are free']
CASE_SECONDS = 150
FORMATS = ['CLUSTER', 'INLINE', 'PATTERN', 'JSON', 'ETE', 'NULL']
LEVELS = ['NOTSET', 'DEBUG', 'INFO', 'WARN', 'ERROR', 'FATAL']
LOG = {'CLUSTER': ['-l', 'debug'], 'INLINE': [], 'PATTERN': ['-l', 'debug'],
       'JSON': ['-l', 'error']}
SRC = ['stdin', 'file', 'split', 'each', 'twice']
KINDS = list(cli.LINES)
KINDS3 = ['url', 'same', 'blank', 'space', 'undec', 'nonascii', 'nohost',
          'pattern', 'badpat', 'pctfmt', 'ipv6']
LONG = [1, 2, 3, 20, 60, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255,
        256, 257, 511, 512, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095,
        4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537]
DEEP = 'http://h' + '/a' * 1000
CONFIGS = [
    ('[make]\nmin_cluster_num = %d\n', True),
    ('[make]\nmin_cluster_num=%d', True),
    ('[make]\nmin_cluster_num: %d\n', True),
    ('# comment\n[other]\nmin_cluster_num = 9\n[make]\nx = 1\n'
     'min_cluster_num = %d\n', True),
    ('[make]\r\nmin_cluster_num = %d\r\n', True),
    ('[make]\nMIN_CLUSTER_NUM = %d\n', True),
    ('[other]\nmin_cluster_num = %d\n', False),
    ('', False),
]


def tasks(tier):
    q = tier == 'quick'
    out = []
    for a in range(len(KINDS)):
        out.append(('SEQ', (KINDS[a],), KINDS, 1, q))
    for a in KINDS3 if q else KINDS:
        for b in KINDS3 if q else KINDS:
            out.append(('SEQ', (a, b), KINDS3 if q else KINDS, 1, True))
    if not q:
        k8 = KINDS3[:8]
        for t in itertools.product(k8, repeat=2):
            out.append(('SEQ', t, k8, 2, True))
    out.append(('NONE',))
    for c in range(len(CONFIGS)):
        for mcn in (2, 3, 5, 6):
            out.append(('CONF', c, mcn))
    for n in (999, 1000, 1001, 4999, 5000, 5001, 10001):
        for lv in ('NOTSET', 'DEBUG', 'INFO'):
            out.append(('MANY', n, lv))
    for n in LONG:
        out.append(('LONG', n))
    for place in cli.PLACES:
        for lo in range(0, len(cli.ODD), 16):
            out.append(('ODD', place, lo))
    out.append(('PROC', 0))
    out.append(('PROC', 1))
    out.append(('DEEP', q))
    for clock in cli.CLOCKS:
        for n in (0, 1, 4999, 5000, 5001, 10000):
            out.append(('CLOCK', clock, n))
    for h in cli.histories(2 if q else 3):
        out.append(('AGAIN', h))
    return out


# kind of long line -> bytes, n characters wide
LINES = ['word', 'bad', 'blank', 'undec', 'query', 'text']


def long_line(kind, n):
    return {'word': b'http://h/' + b'a' * n,
            'bad': b'http://h/' + b'a' * n + b'`',
            'blank': b' ' * n + b'http://h/a' + b'\t' * n,
            'undec': b'http://h/' + b'a' * n + b'\xff',
            'query': b'http://h/x?k=' + b'1' * n,
            'text': b'a' * n}[kind]


PRE = ['http://h/x', 'http://h/yy', 'https://o/x/1?k=1']
POST = ['http://h/zzz', 'https://o/x/1?k=2', 'https://o/x/1?k=3']


def cases(task):
    if task[0] == 'SEQ':
        _, head, kinds, k, rotate = task
        n = 0
        seqs = [head] if k == 1 and len(head) == 1 else []
        seqs += [head + t for t in itertools.product(kinds, repeat=k)]
        base = sum(map(KINDS.index, head))
        for seq in seqs:
            combos = list(itertools.product(FORMATS, SRC))
            if rotate:
                # a Latin-square walk: over the sequences every pair of
                # (format, source) meets every kind
                take = combos[(base + n) % 5::5] if len(seq) < 3 else \
                    [combos[(base * 7 + n) % len(combos)]]
            else:
                take = combos
            for j, (f, src) in enumerate(take):
                n += 1
                lv = LEVELS[(n + base) % 6]
                yield {'seq': list(seq), 'format': f, 'src': src,
                       'level': lv, 'end': ('nl', 'no')[(n // 6 + base) % 2],
                       'bare': len(seq) < 3 and (n + j) % 4 == 0}
    elif task[0] == 'NONE':
        for f in FORMATS:
            for lv in LEVELS:
                yield {'seq': [], 'format': f, 'src': 'stdin', 'level': lv,
                       'end': 'no', 'bare': True}
                yield {'seq': ['blank', 'nohost'], 'format': f,
                       'src': 'split', 'level': lv, 'end': 'nl',
                       'bare': True}
                yield {'seq': ['url'], 'format': f.lower(), 'src': 'stdin',
                       'level': lv.lower(), 'end': 'nl', 'bare': False}
        yield {'seq': ['url'], 'format': None, 'src': 'stdin',
               'level': None, 'end': 'nl', 'bare': False}
    elif task[0] == 'CONF':
        _, c, mcn = task
        for pop in range(1, 9):
            for f in FORMATS[:5]:
                yield {'config': c, 'mcn': mcn, 'pop': pop, 'format': f}
    elif task[0] == 'MANY':
        _, n, lv = task
        for bad in sorted(set((0, 998, 999, 1000, 4998, 4999, 5000, n - 1))):
            if bad < n:
                for kind in ('nohost', 'undec'):
                    yield {'many': n, 'bad': bad, 'kind': kind, 'level': lv}
    elif task[0] == 'LONG':
        for f in FORMATS[:4]:
            for kind in LINES:
                yield {'long': task[1], 'kind': kind, 'format': f}
    elif task[0] == 'ODD':
        for f in FORMATS[:4]:
            yield {'odd': list(task[1:]), 'format': f}
    elif task[0] == 'CLOCK':
        for lv in ('NOTSET', 'DEBUG'):
            for f in ('JSON', 'CLUSTER'):
                yield {'clock': task[1], 'lines': task[2], 'level': lv,
                       'format': f}
    elif task[0] == 'AGAIN':
        n = len(cli.EARLIER) * len(task[1]) + sum(map(len, task[1]))
        for j, f in enumerate(FORMATS[:5]):
            yield {'earlier': task[1], 'format': f,
                   'src': SRC[(n + j) % 2], 'mcn': (None, 2, 3, 4)[
                       (n + j) % 4 if len(task[1]) > 1 else 0]}
    elif task[0] == 'PROC':
        for seed in ('0', '1', '7', 'random'):
            for f in FORMATS[:4] if task[1] else FORMATS[4:] + ['CLUSTER']:
                yield {'process': True, 'seed': seed, 'format': f,
                       'seq': ['url', 'undec', 'blank', 'space', 'pattern',
                               'badpat', 'nohost', 'same'], 'src':
                       'stdin', 'level': 'NOTSET', 'end': 'no',
                       'bare': False}
    else:
        for n in (10, 50, 100, 200):
            for f in FORMATS if n == 10 or not task[1] else FORMATS[:5:2]:
                if f != 'ETE' or n < 200:
                    yield {'deep': n, 'format': f}
        yield {'deep': 1000, 'format': 'PATTERN'}


LABEL = re.compile(r'[^ ]*\([0-9]+\)(?= |$)')


def canon(fmt, out):
    """Order-free reading of stdout."""
    if not out:
        return []
    body = out.decode('utf-8')
    lines = body.split('\n')
    if lines[-1] != '':
        return ['last line is not ended', body]
    lines.pop()
    if fmt == 'CLUSTER':
        res = []
        for x in lines:
            if x.startswith('\t'):
                if not res:
                    return ['member before a pattern', body]
                res[-1][1].append(x)
            else:
                res.append((x, []))
        return sorted((p, tuple(sorted(m))) for p, m in res)
    if fmt == 'JSON':
        return sorted(sorted(json.loads(x).items()) for x in lines)
    if fmt == 'ETE':
        return sorted(collections.Counter(
            t for x in lines for t in x.split() if '(' in t).items())
    return sorted(lines)


def expect(fmt, urls, mcn=3):
    """What the API yields for the valid URLs, in the format."""
    pm = impl.PatternMaker(impl.config(mcn))
    for u in urls:
        pm.load(u, meta=u if fmt in ('CLUSTER', 'INLINE') else None)
    out = []
    for meta, root in pm.make(combine=fmt == 'ETE'):
        out += list(impl.pformat(fmt, meta, root))
    return canon(fmt, ''.join(x + '\n' for x in out).encode('utf-8'))


def judge(fmt, got, urls, mcn, bad, what):
    code, out, err = got
    if code != 0:
        bad.append('%s: exit status %d (%s)' % (
            what, code, err.decode('utf-8', 'replace').strip()[-200:]))
        return
    try:
        c = canon(fmt, out)
    except ValueError:
        c = ['unreadable', repr(out)]
    want = expect(fmt, urls, mcn)
    if c != want:
        bad.append('%s: printed %r, the API yields %r' % (
            what, str(c)[:250], str(want)[:250]))


def run(bad, argv, stdin=b'', files=None, **kw):
    """Runs pattern-make and judges its log."""
    got = cli.run('pattern-make', argv, stdin, files, **kw)
    if got[0] == 0:
        cli.judge_make_log(argv, stdin, files or {}, got[2], bad)
    return got


def evaluate(case, st):
    bad = []
    if 'config' in case:
        text, honoured = CONFIGS[case['config']]
        if '%' in text:
            text = text % case['mcn']
        mcn = case['mcn'] if honoured else 3
        urls = ['http://h/%s' % chr(97 + i) for i in range(case['pop'])]
        got = run(bad, ['-c', 'cfg', '-f', case['format'], '-i', 'u0'], b'',
                      {'cfg': text.encode(),
                       'u0': '\n'.join(urls).encode()})
        judge(case['format'], got, urls, mcn, bad,
              'min_cluster_num %d from %r' % (case['mcn'], text))
        st.states += 1
    elif 'many' in case:
        n = case['many']
        lines = [b'http://h/%d/%s' % (i % 7, b'abcde'[i % 5:i % 5 + 1])
                 for i in range(n)]
        lines[case['bad']] = cli.text(case['kind'], 0)
        got = run(bad, ['-f', 'json', '-l', case['level']],
                      b'\n'.join(lines) + b'\n')
        urls = [u for u in map(cli.url_of, lines) if u]
        judge('JSON', got, urls, 3, bad, '%d lines' % n)
        st.states += 1
        st.transitions += n
    elif 'long' in case:
        lines = [long_line(case['kind'], case['long'] + i) for i in (0, 0, 1)]
        lines = [PRE[0].encode()] + lines + [POST[0].encode()]
        got = run(bad, ['-f', case['format']] + LOG[case['format']],
                  b'\n'.join(lines))
        urls = [u for u in map(cli.url_of, map(bytes.strip, lines)) if u]
        judge(case['format'], got, urls, 3, bad, 'lines of %d+ characters'
              % case['long'])
        st.states += 1
        st.transitions += 5
    elif 'odd' in case:
        lines = [PRE[0].encode()] + cli.odd_lines(*case['odd']) + [
            POST[0].encode()]
        got = run(bad, ['-f', case['format']] + LOG[case['format']],
                  b'\n'.join(lines))
        urls = [u for u in map(cli.url_of, map(bytes.strip, lines)) if u]
        judge(case['format'], got, urls, 3, bad, 'lines %r' % lines[1:-1])
        st.states += 1
        st.transitions += len(lines)
    elif 'clock' in case:
        lines = [b'http://h/%d/%s' % (i % 7, b'abcde'[i % 5:i % 5 + 1])
                 for i in range(case['lines'])]
        if lines:
            lines[-1] = b'x'
        got = run(bad, ['-f', case['format'],
                                       '-l', case['level']],
                      b'\n'.join(lines), clock=case['clock'])
        urls = [u for u in map(cli.url_of, lines) if u]
        judge(case['format'], got, urls, 3, bad, '%d lines, clock %s' % (
            len(lines), case['clock']))
        st.states += 1
        st.transitions += len(lines)
    elif 'earlier' in case:
        urls = ['http://h/' + x for x in (
            'a', 'b', 'c', 'x?k=1', 'x?k=2', '1', '2', '3', '4')]
        lines = [u.encode() for u in urls] + [b'y', b'', b'\xff']
        argv, stdin, files = cli.sources(lines, case['src'], 'nl')
        argv += ['-f', case['format']]
        mcn = case['mcn'] or 3
        if case['mcn']:
            argv += ['-c', 'cfg']
            files['cfg'] = b'[make]\nmin_cluster_num = %d\n' % mcn
        got = cli.run('pattern-make', argv, stdin, files, before=[
            cli.EARLIER[e] for e in case['earlier']])
        judge(case['format'], got, urls, mcn, bad, 'min_cluster_num %s after '
              'the commands %s' % (case['mcn'], case['earlier']))
        st.states += 1
        st.transitions += 1 + len(case['earlier'])
    elif 'deep' in case:
        urls = ['http://h' + '/a' * case['deep'],
                'http://h' + '/a' * (case['deep'] - 1) + '/b', 'http://h/b']
        got = run(bad, ['-f', case['format']],
                      '\n'.join(urls).encode())
        if case['deep'] <= 200:
            judge(case['format'], got, urls, 3, bad,
                  '%d path levels' % case['deep'])
        elif got[0] != 0:
            bad.append('%d path levels: exit status %d (%s)' % (
                case['deep'], got[0],
                got[2].decode('utf-8', 'replace').strip()[-150:]))
        st.states += 1
    else:
        fmt = case['format'] or 'CLUSTER'
        mid = [cli.text(k, i) for i, k in enumerate(case['seq'])]
        lines = mid if case['bare'] else [x.encode() for x in PRE] + mid + [
            x.encode() for x in POST]
        opt = []
        if case['format']:
            opt += ['-f', case['format']]
        if case['level']:
            opt += ['-l', case['level']]
        fmt = fmt.upper()
        srcs = [case['src']]
        if case['src'] == 'split':
            srcs = [('split', i) for i in range(0, len(lines) + 1,
                                                1 if len(lines) < 5 else 3)]
        for src in srcs:
            if src == 'each' and not lines:
                continue
            argv, stdin, files = cli.sources(lines, src, case['end'])
            if case.get('process'):
                got = cli.run_process('pattern-make', opt + argv, stdin,
                                      files, case['seed'])
            else:
                got = run(bad, opt + argv, stdin, files)
            urls = [cli.url_of(x.strip())
                    for x in cli.effective(lines, src)]
            urls = [u for u in urls if u]
            judge(fmt, got, urls, 3, bad, '%s %s' % (opt, src))
            st.states += 1
            st.transitions += len(lines)
    st.traces += 1
    st.outcome(case.get('seq') and (case['seq'], case['format']) or
               sorted(case.items()))
    return bad[:3]
