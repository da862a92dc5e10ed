"""C19: pattern-match answers every input line in order."""
import itertools

from .. import cli, impl
from . import c18

ID = 'C19'
BOUNDS = {
    'quick': 'all sequences of <= 2 URL lines of 22 kinds and all sequences '
             'of 3 of 11 kinds, against 4 pattern files, with and without '
             '-a, 6 log levels, stdin / file / two files split at every '
             'place / a file per line / a file twice, last line ended or '
             'not; all sequences of <= 3 pattern lines of 18 kinds against 9 '
             'URL lines, one or two pattern files; cluster, pattern, inline '
             'output of pattern-make for 40 URL sets as pattern file; 4999..'
             '5001 URL lines and 999..1001 pattern lines with an invalid one '
             'at every boundary; lines of 1..65537 characters; each of 267 odd '
             'characters (every byte, blanks and line ends beyond ASCII) at 7 '
             'places of a URL or pattern line; 1..257 fitting patterns; '
             '5 clock behaviours x 0..10000 lines; after every sequence of '
             '<= 2 earlier commands of 10 in the same process; runs in new interpreters with pipes',
    'thorough': 'sequences of 3 URL lines of all kinds, 4 of 8 kinds, 4 '
                'pattern lines of 10 kinds, options in full product',
}
ASSUMPTIONS = ['which patterns match and which is best is taken from the API '
               '(judged by C08-C10)',
               'the order of the patterns under -a is free',
               'the wording and layout of the log are free']
CASE_SECONDS = 150
LEVELS = ['NOTSET', 'DEBUG', 'INFO', 'WARN', 'ERROR', 'FATAL']
LOG = [['-l', 'debug'], []]
SRC = ['stdin', 'file', 'split', 'each', 'twice']
KINDS = list(cli.LINES)
KINDS3 = ['url', 'same', 'blank', 'space', 'undec', 'nonascii', 'nohost',
          'pattern', 'badpat', 'pctfmt', 'other']
PATS = [
    ['/[a-z]', '/a', '/[a-z]+', '/[a-z]+/[0-9]+[\\?]k=[a-z]',
     '/[a-z]/1[\\?]k=[a-z]+', '/b'],
    ['/[a-z]'],
    [],
    ['/[a-z]+', '/[\\{]b[\\}][%]s', '/[a-z]/[0-9][\\?]k=b',
     '/[a-z]/[0-9]+[\\?]k=[a-z]'],
]
PLINES = {
    'one': b'/[a-z]', 'lit': b'/b', 'wild': b'/[a-z]+', 'two': b'/[a-z]{2}',
    'deep': b'/[a-z]/[0-9]+', 'query': b'/x[\\?]k=[0-9]+',
    'right': b'/[a-z]+ \t ', 'crlf': b'/a\r', 'left': b' /[a-z]',
    'blank': b'', 'member': b'\thttp://h/a', 'url': b'http://h/a',
    'inline': b'/[a-z]\thttp://h/a', 'unclosed': b'/[a-z', 'empty': b'/[]',
    'undec': b'/\xff', 'fmt': b'/%s%d', 'json': b'{"ptn": "/[a-z]"}',
}
PURLS = [b'http://h/a', b'http://h/b', b'http://h/bb', b'http://h/a/1',
         b'http://h/x?k=1', b'http://h/1', b'http://h/', b'http://h/bbb',
         b'http://h/x?k=22']
ODDPATS = ['/[a-z]', '/[a-z]+', '/a[?]b', '/[a-z][0-9]', '/a[0-9a-z]b',
           '/[0-9A-Za-z]+', '/a[\\?]k=[0-9]+', '/a#[a-z]+', '/a[\\-]b',
           '/a[;]b', '/a[%]b']
P10 = ['one', 'lit', 'wild', 'two', 'right', 'crlf', 'left', 'member',
       'unclosed', 'undec']
SETS = [
    ['a', 'b', 'c'], ['a', 'b', 'c', 'dd'], ['a1', 'b2', 'c3', 'x'],
    ['a.html', 'b.html', 'c.html', 'd.htm'], ['a-b', 'c-d', 'e-f', 'a-b-c'],
    ['x?k=1', 'x?k=2', 'x?k=3', 'x?k=44'], ['x/1', 'x/2', 'y/3', 'y/4'],
    ['a1b2', 'b2a1', '1a2b', 'zz'], ['x#a', 'x#b', 'x#c', 'x#1'],
    ['a[b]', 'b[c]', 'c[d]', 'a\\b'],
]


def tasks(tier):
    q = tier == 'quick'
    out = []
    for a in KINDS:
        out.append(('SEQ', (a,), KINDS, 1, q))
    for a in KINDS3 if q else KINDS:
        for b in KINDS3 if q else KINDS:
            out.append(('SEQ', (a, b), KINDS3 if q else KINDS, 1, True))
    if not q:
        for t in itertools.product(KINDS3[:8], repeat=2):
            out.append(('SEQ', t, KINDS3[:8], 2, True))
    for a in PLINES:
        out.append(('PAT', (a,), 0))
        out.append(('PAT', (a,), 1))
    for a in PLINES:
        for b in PLINES if not q else P10:
            out.append(('PAT', (a, b), 1))
    if not q:
        for t in itertools.product(P10, repeat=3):
            out.append(('PAT10', t))
    out.append(('NONE',))
    for i in range(len(SETS)):
        out.append(('ROUND', i))
    for n in (4999, 5000, 5001):
        out.append(('MANYU', n))
    for n in (999, 1000, 1001, 2001):
        out.append(('MANYP', n))
    for n in c18.LONG:
        out.append(('LONG', n))
    for n in (1, 2, 9, 10, 11, 31, 32, 33, 64, 99, 100, 101, 128, 257):
        out.append(('ALL', n))
    for place in cli.PLACES:
        for lo in range(0, len(cli.ODD), 16):
            out.append(('ODD', place, lo))
    out.append(('PROC',))
    out.append(('DEEP',))
    for clock in cli.CLOCKS:
        for n in (0, 1, 4999, 5000, 5001, 10000):
            out.append(('CLOCK', clock, n))
    for h in cli.histories(2 if q else 3):
        out.append(('AGAIN', h))
    return out


def cases(task):
    if task[0] == 'SEQ':
        _, head, kinds, k, rotate = task
        seqs = [head] if k == 1 and len(head) == 1 else []
        seqs += [head + t for t in itertools.product(kinds, repeat=k)]
        base = sum(map(KINDS.index, head))
        n = 0
        combos = list(itertools.product(range(len(PATS)), (0, 1), SRC))
        for seq in seqs:
            if not rotate:
                take = combos
            elif len(seq) < 3:
                take = combos[(base + n) % 7::7]
            else:
                take = [combos[(base * 7 + n) % len(combos)]]
            for p, a, src in take:
                n += 1
                yield {'seq': list(seq), 'pats': p, 'all': a, 'src': src,
                       'level': LEVELS[(n + base) % 6],
                       'end': ('nl', 'no')[(n // 6 + base) % 2]}
    elif task[0] == 'PAT':
        _, head, more = task
        seqs = [head] if not more else [
            head + (x,) for x in (P10 if len(head) == 2 else PLINES)]
        for n, s in enumerate(seqs):
            yield {'plines': list(s), 'split': n % (len(s) + 1),
                   'all': n % 2, 'end': ('nl', 'no')[n // 2 % 2]}
            yield {'plines': list(s), 'split': None, 'all': (n + 1) % 2,
                   'end': 'no'}
    elif task[0] == 'PAT10':
        for x in P10:
            yield {'plines': list(task[1]) + [x], 'split': None, 'all': 1,
                   'end': 'no'}
    elif task[0] == 'NONE':
        for lv in LEVELS:
            for a in (0, 1):
                yield {'seq': [], 'pats': 0, 'all': a, 'src': 'stdin',
                       'level': lv, 'end': 'no'}
                yield {'seq': ['url', 'nohost', 'same'], 'pats': 2, 'all': a,
                       'src': 'file', 'level': lv.lower(), 'end': 'nl'}
    elif task[0] == 'ROUND':
        us = SETS[task[1]]
        for mask in range(1, 1 << len(us)):
            urls = ['http://h/' + u for i, u in enumerate(us)
                    if mask >> i & 1]
            for f in ('cluster', 'pattern', 'inline'):
                yield {'round': urls, 'format': f}
    elif task[0] == 'MANYU':
        n = task[1]
        for lv in ('NOTSET', 'DEBUG'):
            for b in sorted(set((0, 4998, 4999, 5000, n - 1))):
                if b < n:
                    yield {'manyu': n, 'bad': b, 'level': lv}
    elif task[0] == 'MANYP':
        n = task[1]
        for lv in ('NOTSET', 'DEBUG', 'WARN'):
            for b in sorted(set((0, 998, 999, 1000, n - 1))):
                if b < n:
                    yield {'manyp': n, 'bad': b, 'level': lv}
    elif task[0] == 'LONG':
        for kind in c18.LINES:
            for a in (0, 1):
                yield {'long': task[1], 'kind': kind, 'all': a}
    elif task[0] == 'ALL':
        for a in (0, 1):
            yield {'hits': task[1], 'all': a}
    elif task[0] == 'ODD':
        for a in (0, 1):
            for n in (0, 1):
                yield {'odd': list(task[1:]), 'all': a, 'pattern': n}
    elif task[0] == 'CLOCK':
        for lv in ('NOTSET', 'DEBUG'):
            for n in (1, 999, 1000, 1001):
                yield {'clock': task[1], 'lines': task[2], 'level': lv,
                       'plines': n}
    elif task[0] == 'AGAIN':
        for a in (0, 1):
            for p in (0, 2, 3):
                yield {'earlier': task[1], 'all': a, 'pats': p,
                       'src': SRC[a]}
    elif task[0] == 'PROC':
        for a in (0, 1):
            for seed in ('0', '5', 'random'):
                yield {'process': seed, 'seq': [
                    'url', 'undec', 'blank', 'space', 'pattern', 'badpat',
                    'other', 'nohost', 'same'], 'pats': 0, 'all': a,
                    'src': 'stdin', 'level': 'NOTSET', 'end': 'no'}
    else:
        for n in (10, 50, 100, 200, 1000):
            yield {'deep': n}


def expect(pats, lines, all_matched):
    """One answer per line: (set of allowed result fields, line)."""
    m = impl.PatternMatcher()
    for p in pats:
        try:
            m.load(p, meta=p)
        except Exception:
            pass
    out = []
    for line in lines:
        u = cli.url_of(line)
        if u is None:
            out.append(([b'E'], line))
            continue
        nodes = m.match(u)
        if not nodes:
            out.append(([b'N'], line))
        elif all_matched:
            out.append((sorted(n.meta.encode() for n in nodes), line))
        else:
            best = [n for n in nodes if not any(o > n for o in nodes)]
            out.append((set(n.meta.encode() for n in best), line))
    return out


def patterns_of(data):
    """The patterns a pattern file holds."""
    out = []
    for x in data.split(b'\n'):
        x = x.rstrip()
        if x.startswith(b'/'):
            try:
                out.append(x.decode('utf-8'))
            except ValueError:
                pass
    return out


def judge(got, pats, lines, all_matched, bad, what):
    code, out, err = got
    if code != 0:
        bad.append('%s: exit status %d (%s)' % (
            what, code, err.decode('utf-8', 'replace').strip()[-200:]))
        return
    want = expect(pats, lines, all_matched)
    rows = out.split(b'\n')
    if rows.pop() != b'':
        bad.append('%s: last line is not ended: %r' % (what, out[-80:]))
        return
    if len(rows) != len(want):
        bad.append('%s: %d answers for %d lines: %r' % (
            what, len(rows), len(want), out[:300]))
        return
    for row, (res, line) in zip(rows, want):
        tail = b'\t' + line
        ok = row.endswith(tail)
        if ok:
            f = row[:len(row) - len(tail)].split(b'\t')
            ok = len(f) == 1 and f[0] in res \
                if isinstance(res, set) else sorted(f) == res
        if not ok:
            bad.append('%s: answered %r, expected %r then the line' % (
                what, row[-300:], (res, line[:100])))
            return


def run(bad, argv, stdin=b'', files=None, **kw):
    """Runs pattern-match and judges its log."""
    got = cli.run('pattern-match', argv, stdin, files, **kw)
    if got[0] == 0:
        cli.judge_match_log(argv, stdin, files, got[2], bad)
    return got


def evaluate(case, st):
    bad = []
    opt = ['-a'] if case.get('all') else []
    if 'round' in case:
        urls = case['round']
        data = '\n'.join(urls).encode()
        got = cli.run('pattern-make', ['-f', case['format']], data)
        if got[0] != 0:
            return ['pattern-make failed: %r' % (got[2][-200:],)]
        for a in (0, 1):
            res = run(bad, ['-p', 'p'] + ['-a'] * a, data,
                          {'p': got[1]})
            pats = patterns_of(got[1]) if case['format'] != 'inline' else []
            judge(res, pats, [u.encode() for u in urls], a, bad,
                  '%s output as pattern file' % case['format'])
            if case['format'] != 'inline' and (
                    b'N\t' in res[1] or b'E\t' in res[1]):
                bad.append('a URL matches no pattern of its own clusters: %r'
                           % res[1][:300])
        st.states += 1
        st.transitions += 2 * len(urls)
    elif 'clock' in case:
        n = case['lines']
        lines = [b'http://h/%d/%s' % (i % 7, b'abcde'[i % 5:i % 5 + 1])
                 for i in range(n)]
        if lines:
            lines[-1] = b'x'
        pl = ['# no pattern'] * case['plines']
        pl[:3] = ['/[0-9]/[a-z]', '/3/[a-z]', '/[0-9]/b']
        got = run(bad, ['-p', 'p', '-l', case['level']],
                      b'\n'.join(lines), {'p': '\n'.join(pl).encode()},
                      clock=case['clock'])
        judge(got, pl[:3], lines, 0, bad, '%d lines, %d pattern lines, '
              'clock %s' % (n, case['plines'], case['clock']))
        st.states += 1
        st.transitions += n + case['plines']
    elif 'earlier' in case:
        lines = [b'http://h/a', b'x', b'http://h/b', b'', b'http://h/zz',
                 b'http://h/x/1?k=b', b'\xff', b'http://h/z']
        pats = PATS[case['pats']]
        argv, stdin, files = cli.sources(lines, case['src'], 'nl')
        files['p'] = '\n'.join(pats).encode()
        got = cli.run('pattern-match', opt + argv + ['-p', 'p'], stdin,
                      files, before=[cli.EARLIER[e]
                                     for e in case['earlier']])
        judge(got, pats, lines, case['all'], bad, 'after the commands %s'
              % (case['earlier'],))
        st.states += 1
        st.transitions += 1 + len(case['earlier'])
    elif 'plines' in case:
        ls = [PLINES[k] for k in case['plines']]
        if case['split'] is None:
            files = {'p0': cli.end(ls, case['end'])}
        else:
            files = {'p0': cli.end(ls[:case['split']], case['end']),
                     'p1': cli.end(ls[case['split']:], case['end'])}
        pats = []
        for n in sorted(files):
            pats += patterns_of(files[n])
        for lv in ('NOTSET', 'DEBUG'):
            got = run(bad, ['-l', lv, '-p'] + sorted(files)
                          + opt, b'\n'.join(PURLS), files)
            judge(got, pats, PURLS, case['all'], bad, 'patterns %r' % ls)
        st.states += 1
        st.transitions += 2 * (len(PURLS) + len(ls))
    elif 'manyu' in case:
        n = case['manyu']
        lines = [b'http://h/%d/%s' % (i % 7, b'abcde'[i % 5:i % 5 + 1])
                 for i in range(n)]
        lines[case['bad']] = b'x'
        pats = ['/[0-9]/[a-z]', '/3/[a-z]', '/[0-9]/b']
        got = run(bad, ['-p', 'p', '-l', case['level']],
                      b'\n'.join(lines), {'p': '\n'.join(pats).encode()})
        judge(got, pats, lines, 0, bad, '%d lines' % n)
        st.states += 1
        st.transitions += n
    elif 'manyp' in case:
        n = case['manyp']
        pl = [b'/x%d' % i for i in range(n)]
        pl[case['bad']] = b'/[x'
        urls = [b'http://h/x%d' % i for i in
                (0, 1, 997, 998, 999, 1000, 1001, n - 2, n - 1, n)]
        got = run(bad, ['-p', 'p', '-l', case['level']],
                      b'\n'.join(urls), {'p': b'\n'.join(pl)})
        judge(got, [x.decode() for x in pl], urls, 0, bad,
              '%d patterns' % n)
        st.states += 1
        st.transitions += n
    elif 'long' in case:
        n = case['long']
        lines = [c18.long_line(case['kind'], n + i) for i in (0, 0, 1)]
        lines = [b'http://h/x'] + lines + [b'http://h/a']
        pl = ['/[a-z]+', '/[a-z]{%d}' % n if n > 1 else '/[a-z]',
              '/' + 'a' * n, '/x[\\?]k=[0-9]+', '/x[\\?]k=' + '1' * n,
              '/a[']
        got = run(bad, opt + ['-p', 'p'] + LOG[case['all']], b'\n'.join(lines),
                      {'p': '\n'.join(pl).encode()})
        judge(got, pl, [x.strip() for x in lines], case['all'], bad,
              'lines of %d+ characters' % n)
        st.states += 1
        st.transitions += 5
    elif 'odd' in case:
        lines = [b'http://h/x'] + cli.odd_lines(*case['odd']) + [
            b'http://h/a']
        pl = ODDPATS
        if case['pattern']:
            # odd characters in the pattern file instead
            data = b'\n'.join([b'/[a-z]'] + [
                x.replace(b'http://h', b'') for x in lines] + [b'/b'])
            lines = [b'http://h/' + x for x in (b'a', b'x', b'b', b'ab')]
        else:
            data = '\n'.join(ODDPATS).encode()
        pl = patterns_of(data)
        got = run(bad, opt + ['-p', 'p'] + LOG[case['all']], b'\n'.join(lines),
                      {'p': data})
        judge(got, pl, [x.strip() for x in lines], case['all'], bad,
              'lines %r' % (lines[1:-1],))
        st.states += 1
        st.transitions += len(lines)
    elif 'hits' in case:
        n = case['hits']
        us = [b'http://h' + b'/a' * 9, b'http://h' + b'/a' * 8 + b'/b',
              b'http://h/a']
        pl = ['/' + '/'.join('[a-z]+' if i >> j & 1 else 'a'
                             for j in range(9)) for i in range(n)]
        got = run(bad, opt + ['-p', 'p'], b'\n'.join(us),
                      {'p': '\n'.join(pl).encode()})
        judge(got, pl, us, case['all'], bad, '%d fitting patterns' % n)
        st.states += 1
        st.transitions += n
    elif 'deep' in case:
        n = case['deep']
        lines = [b'http://h' + b'/a' * n, b'http://h' + b'/b' * n,
                 b'http://h/a']
        got = run(bad, ['-p', 'p'], b'\n'.join(lines),
                      {'p': b'/a' * n + b'\n'})
        want = b''.join(r + b'\t' + x + b'\n' for r, x in zip(
            (b'/a' * n, b'N', b'N'), lines))
        if got[0] != 0 or got[1] != want:
            bad.append('%d path levels: exit status %d, answers %r' % (
                n, got[0], [x[:20] for x in got[1].split(b'\n')]))
        st.states += 1
    else:
        lines = [cli.text(k, i) for i, k in enumerate(case['seq'])]
        pats = PATS[case['pats']]
        opt = ['-l', case['level'], '-p', 'p'] + opt
        srcs = [case['src']]
        if case['src'] == 'split':
            srcs = [('split', i) for i in range(len(lines) + 1)]
        for src in srcs:
            if src == 'each' and not lines:
                continue
            argv, stdin, files = cli.sources(lines, src, case['end'])
            files['p'] = '\n'.join(pats).encode()
            if 'process' in case:
                got = cli.run_process('pattern-match', opt + argv, stdin,
                                      files, case['process'])
            else:
                got = run(bad, opt + argv, stdin, files)
            read = []
            if src == 'stdin':
                read = cli.lines_of(stdin)
            else:
                for name in argv[1:]:
                    read += cli.lines_of(files[name])
            judge(got, pats, read, case['all'], bad, '%s %s' % (opt, src))
            st.states += 1
            st.transitions += len(read)
    st.traces += 1
    st.outcome(sorted(case.items(), key=str))
    return bad[:3]
