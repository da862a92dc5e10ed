BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     breaks=breaks, demo=demo))


bug('c02-deep-split', 'C02',
    [('pattern_cluster.py', "    while True:\n        pattern_num = processor.pattern_num",
      "    for _ in range(12):\n        pattern_num = processor.pattern_num")],
    'URLs which differ for the first time below the eleventh level',
    'URLs with different patterns stay in one cluster',
    r'''
us = ['http://h/%s/%s' % ('/'.join('abcdefghijkl'), x) for x in ('u', 'v')]
res = show(clusters(us, 3))
check([r[2] for r in res] == [1, 1], res)
''')

bug('c05-cap', 'C05',
    [('pattern_cluster.py', "        self._min_cluster_num = processor.config.getint(\n            'make', 'min_cluster_num')",
      "        self._min_cluster_num = min(128, processor.config.getint(\n            'make', 'min_cluster_num'))")],
    'a min_cluster_num over 128 and between 128 and min_cluster_num URLs',
    'fewer URLs than min_cluster_num are generalised',
    r'''
us = ['http://h/%s%s' % (a, b) for a in 'abcdefghijklm' for b in 'abcdefghijk']
res = show(clusters(us, 200))
check(len(res) == len(us), res)
''')

bug('c05-recluster', 'C05',
    [('pattern_cluster.py', "    for sub_root in split_by_pattern(root):\n",
      "    for sub_root in split_by_pattern(root):\n        if sub_root.count <= 2:\n            yield sub_root\n            continue\n")],
    'a split leaving two URLs in a generalised sub tree',
    'two URLs form a generalised cluster that does not survive clustering again',
    r'''
import itertools
pool = ['/'.join(p) for p in itertools.product(('a', 'b', 'cc', 'dd'), ('a', 'b', 'ccc'))]
for mcn in (2, 3):
    for n in (3, 4, 5, 6):
        for c in itertools.combinations(pool, n):
            for pat, metas, cnt in show(clusters(['http://h/' + x for x in c], mcn)):
                check(cnt == 1 or cnt >= mcn, mcn, c, pat, metas)
                again = show(clusters(metas, mcn))
                check(len(again) == 1 and again[0][0] == pat, mcn, c, pat, metas, again)
''')

bug('c20-shared-parser', 'C20',
    [('parser.py', "\n\ndef parse(url_or_pattern):", "\n_PARSER = PieceParser()\n\n\ndef parse(url_or_pattern):"),
     ('parser.py', "        parser = PieceParser()\n        url_meta, pieces", "        parser = _PARSER\n        url_meta, pieces")],
    'two threads in parse() at the same time, switching inside a component',
    'the pieces of two URLs are mixed up',
    r'''
import sys
import threading
want = {u: [p.piece for p in parse(u)[1]] for u in ('http://h/aaa1', 'http://h/Z-Z')}
bad = []
sw = threading.Event()


def other():
    got = [p.piece for p in parse('http://h/Z-Z')[1]]
    if got != want['http://h/Z-Z']:
        bad.append(got)


def trace(k):
    n = [0]

    def f(frame, event, arg):
        if event == 'line' and 'os_urlpattern' in frame.f_code.co_filename:
            n[0] += 1
            if n[0] == k:
                sys.settrace(None)
                t = threading.Thread(target=other)
                t.start()
                t.join()
                frame.f_trace = None
                return None
        return f
    return f


for k in range(1, 400):
    sys.settrace(trace(k))
    try:
        got = [p.piece for p in parse('http://h/aaa1')[1]]
    except Exception as e:
        got = repr(e)
    finally:
        sys.settrace(None)
    if got != want['http://h/aaa1']:
        bad.append((k, got))
check(not bad, bad[:3])
''')

bug('c20-shared-result', 'C20',
    [('pattern_matcher.py', "        matched_result = []\n        self._matchers[view.view].match(\n            parsed_pieces, 0, matched_result)\n        return [n.meta for n in matched_result]",
      "        root = self._matchers[view.view]\n        root.meta = []\n        root.match(parsed_pieces, 0, root.meta)\n        return [n.meta for n in root.meta]")],
    'two threads matching with one matcher, both inside the same view',
    'one thread reports the matches of the other',
    r'''
import sys
import threading
m = PatternMatcher()
for p in ('/[a-z]{2}[0-9]', '/[a-z]{3}[0-9]'):
    m.load(p, meta=p)
urls = ('http://h/ab1', 'http://h/abc1')
want = {u: [n.meta for n in m.match(u)] for u in urls}
bad = []


def other():
    got = [n.meta for n in m.match(urls[1])]
    if got != want[urls[1]]:
        bad.append(got)


def trace(k):
    n = [0]

    def f(frame, event, arg):
        if event == 'line' and 'os_urlpattern' in frame.f_code.co_filename:
            n[0] += 1
            if n[0] == k:
                sys.settrace(None)
                t = threading.Thread(target=other)
                t.start()
                t.join()
                return None
        return f
    return f


for k in range(1, 600):
    sys.settrace(trace(k))
    try:
        got = [x.meta for x in m.match(urls[0])]
    except Exception as e:
        got = repr(e)
    finally:
        sys.settrace(None)
    if got != want[urls[0]]:
        bad.append((k, got))
check(not bad, bad[:3])
''')

bug('c15-parser-residue', 'C15',
    [('parser.py', "\n\ndef parse(url_or_pattern):", "\n_PARSER = PieceParser()\n\n\ndef parse(url_or_pattern):"),
     ('parser.py', "        parser = PieceParser()\n        url_meta, pieces", "        parser = _PARSER\n        url_meta, pieces"),
     ('parse_utils.py', "        self._reset()\n        self._preprocess(piece)\n        return self._create_parsed_piece()",
      "        self._preprocess(piece)\n        parsed_piece = self._create_parsed_piece()\n        self._reset()\n        return parsed_piece")],
    'a URL with an illegal character followed by a valid one',
    'the refused URL gets into the parsed pieces of the next',
    r'''
pm = PatternMaker()
for u in ('http://h/ab c', 'http://h/x'):
    try:
        pm.load(u, meta=u)
    except Exception:
        pass
try:
    res = show(pm)
except Exception as e:
    res = repr(e)
check(res == [('/x', ['http://h/x'], 1)], res)
''')

bug('c13-zero', 'C13',
    [('parse_utils.py', "    if (num > 0 and len(rules) > num) or num == 0:",
      "    if num > 0 and len(rules) > num:")],
    'a pattern with the count {0}',
    'the pattern is accepted',
    r'''
for p in ('/[a-z]{0}', '/a[0-9]{0}', '/x[\\?]k=[0-9a-z]{0}'):
    try:
        PatternMatcher().load(p)
    except Exception:
        continue
    check(False, p)
''')

bug('c01-mixed-sign', 'C01',
    [('pattern_matcher.py', "            if not pattern_unit.is_literal() \\\n                    or pattern_unit.fuzzy_rule not in MIXED_RULE_SET:",
      "            if not pattern_unit.is_literal() \\\n                    or pattern_unit.fuzzy_rule not in MIXED_RULE_SET \\\n                    or len(patterns) > 1:")],
    'a mixed component with a literal group of several runs after two groups',
    'the generated pattern does not match its URLs',
    r'''
us = ['http://h/%s-x1y' % x for x in ('a1b2c', '1a2b3', 'A1b2C', 'ab12c', '12abc', 'b1a2c')]
us += ['http://h/%s-x1y' % x for x in ('abc12', '1abc2', 'c1b2a')]
m = PatternMatcher()
res = show(clusters(us, 2))
for pat, metas, n in res:
    m.load(pat, meta=pat)
for pat, metas, n in res:
    for u in metas:
        check(pat in [x.meta for x in m.match(u)], u, pat)
''')

bug('c07-key-order', 'C07',
    [('parse_utils.py', "    return digest(url_meta, [obj.fuzzy_rule for obj in objs])",
      "    url_meta = URLMeta(url_meta.path_depth, sorted(url_meta.query_keys),\n                       url_meta.has_fragment)\n    return digest(url_meta, [obj.fuzzy_rule for obj in objs])")],
    'two URLs with the same keys in another order',
    'they get the same digest',
    r'''
check(fuzzy_digest('http://h/x?a=1&b=2') != fuzzy_digest('http://h/x?b=1&a=2'))
''')

bug('c08-length-cap', 'C08',
    [('pattern_matcher.py', "        length = match_node.pattern.pattern_units[0].num\n",
      "        length = min(match_node.pattern.pattern_units[0].num, 128)\n"),
     ('pattern_matcher.py', "        return [] if parsed_piece.piece_length not in self._matchers \\\n            else self._matchers[parsed_piece.piece_length]",
      "        length = min(parsed_piece.piece_length, 128)\n        return [] if length not in self._matchers \\\n            else self._matchers[length]")],
    'components of more than 128 characters',
    'a pattern for another length is reported',
    r'''
m = PatternMatcher()
m.load('/[a-z]{200}', meta=1)
check(m.match('http://h/' + 'a' * 200))
check(not m.match('http://h/' + 'a' * 201))
''')

bug('c14-combined-twice', 'C14',
    [('pattern_maker.py', "        self._root = PiecePatternNode((EMPTY_PARSED_PIECE, None))\n",
      "        self._root = PiecePatternNode((EMPTY_PARSED_PIECE, None))\n        self._combined = TreeNode(BasePattern.EMPTY)\n"),
     ('pattern_maker.py', "        root = TreeNode(BasePattern.EMPTY)\n", "        root = self._combined\n")],
    'a second combined make',
    'counts of the combined tree are doubled',
    r'''
pm = clusters(['http://h/a', 'http://h/b'], 3)
for _ in range(2):
    res = [r.count for _, r in pm.make(combine=True)]
    check(res == [2], res)
''')

bug('c16-match-last-path', 'C16',
    [('pattern_matcher.py', "        sid = fuzzy_digest(url_meta, parsed_patterns)\n        if sid",
      "        sid = fuzzy_digest(url_meta, parsed_patterns[:64])\n        if sid"),
     ('pattern_matcher.py', "        sid = fuzzy_digest(url_meta, parsed_pieces)\n        if sid in self._matchers:",
      "        sid = fuzzy_digest(url_meta, parsed_pieces[:64])\n        if sid in self._matchers:")],
    'URLs and patterns of more than 64 parts',
    'the all-in-one matcher confuses digests the low-level ones keep apart',
    r'''
pat = '/' + '/'.join(['a'] * 70) + '/[0-9a-z]+'
url = 'http://h/' + '/'.join(['a'] * 70) + '/zz'
m = PatternMatcher()
m.load(pat, meta=pat)
check(not m.match(url))
''')

bug('c19-decode-strip', 'C19',
    [('cmdline.py', "            write(line)\n            write(b'\\n')",
      "            write(line.replace(b'\\t', b' '))\n            write(b'\\n')")],
    'an input line with a tab inside',
    'the line is not given back as it is',
    r'''
import os
import subprocess
import tempfile
d = tempfile.mkdtemp()
try:
    with open(os.path.join(d, 'p'), 'wb') as f:
        f.write(b'/[a-z]+\n')
    out = subprocess.run([sys.executable, '-W', 'ignore', '-c',
                          'from os_urlpattern.cmdline import match; match()',
                          '-p', 'p'], cwd=d, input=b'http://h/ab\tcd\n',
                         stdout=subprocess.PIPE).stdout
finally:
    os.unlink(os.path.join(d, 'p'))
    os.rmdir(d)
check(out.endswith(b'\thttp://h/ab\tcd\n'), out)
''')

bug('c18-config-second', 'C18',
    [('cmdline.py', "            for root in maker.make(combine):\n                e = time.time()",
      "            for root in maker.make(combine):\n                if root.count <= 0:\n                    break\n                combine = combine and root.count > 1\n                e = time.time()")],
    'ete format with a digest of one URL before another digest',
    'the later digests are not drawn as combined trees',
    r'''
import subprocess
urls = ['http://h/a', 'http://h/1', 'http://h/22', 'http://h/333']
out = subprocess.run([sys.executable, '-W', 'ignore', '-c',
                      'from os_urlpattern.cmdline import make; make()',
                      '-f', 'ete'], input='\n'.join(urls).encode(),
                     stdout=subprocess.PIPE).stdout.decode()
want = ''
pm = clusters(urls)
for m, r in pm.make(combine=True):
    for line in pformat('ete', m, r):
        want += line + '\n'
check(out == want, out, want)
''')
