BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     breaks=breaks, demo=demo))


bug('c01-rule-bracket', 'C01',
    [('parse_utils.py', "t = pattern_unit_string.rfind(Symbols.BRACKETS_R)",
      "t = pattern_unit_string.find(Symbols.BRACKETS_R)")],
    'a cluster whose components hold a closing bracket',
    'the generated pattern [\\]] is refused by the matcher',
    r'''
us = ['http://h/%s]' % c for c in 'abc']
pats = [p for p, _, _ in show(clusters(us))]
try:
    check(best(pats, us[0]) == ['/[a-z][\\]]'], pats)
except Exception as e:
    check(False, e)
''')

bug('c06-skew', 'C06',
    [('pattern_cluster.py', "            if len(self._cached) >= self._min_cluster_num:\n                self._force_pattern = True",
      "            if len(self._cached) > self._min_cluster_num:\n                self._force_pattern = True")],
    'exactly min_cluster_num different lengths, one of them far more frequent',
    'the values stay literal instead of becoming [a-z]+',
    r'''
us = ['http://h/%s' % c for c in ('a', 'b', 'c', 'd', 'e', 'f', 'aa', 'aaa')]
res = show(clusters(us))
check([p for p, _, _ in res] == ['/[a-z]+'], res)
''')

bug('c06-noise', 'C06',
    [('pattern_cluster.py', "return abs(max_part - o_part) < threshold - 1",
      "return abs(max_part - o_part) <= threshold - 1")],
    'exactly min_cluster_num equally long values and a single outlier',
    'the outlier is drawn into a wildcard pattern',
    r'''
us = ['http://h/%s' % c for c in ('a', 'b', 'c', 'dd')]
res = show(clusters(us))
check([p for p, _, _ in res] == ['/[a-z]', '/dd'], res)
''')

bug('c09-rebind-meta', 'C09',
    [('utils.py', "    if meta is not None:\n        node.meta = meta\n",
      "    if meta is not None and node.meta is None:\n        node.meta = meta\n")],
    'a pattern loaded twice with different metas',
    'the result carries the old meta',
    r'''
m = PatternMatcher()
m.load('/[a-z]+', meta=1)
m.load('/[a-z]+', meta=2)
check([n.meta for n in m.match('http://h/a')] == [2], 'meta')
''')

bug('c11-leading-amp', 'C11',
    [('parse_utils.py', "            if last_c is None or last_c == Symbols.AMPERSAND:",
      "            if last_c == Symbols.AMPERSAND:")],
    'a query starting with &',
    'a malformed query is accepted',
    r'''
try:
    check(False, parse('http://h/a?&b=1'))
except Exception:
    pass
''')

bug('c15-maker-before-check', 'C15',
    [('pattern_maker.py', "        if not isinstance(parsed_pieces[0], ParsedPiece):\n            raise ValueError('Invalid URL')\n", ""),
     ('pattern_maker.py', "        return self._makers[sid].load(parsed_pieces, meta=meta)",
      "        if not isinstance(parsed_pieces[0], ParsedPiece):\n            raise ValueError('Invalid URL')\n        return self._makers[sid].load(parsed_pieces, meta=meta)")],
    'a pattern handed to a maker',
    'the refused load leaves an empty sub maker behind',
    r'''
pm = PatternMaker()
pm.load('http://h/a')
try:
    pm.load('/[0-9]+')
except ValueError:
    pass
check(len(list(pm.makers)) == 1, 'sub makers')
''')

bug('c16-last-maker', 'C16',
    [('pattern_maker.py', "        sid = fuzzy_digest(url_meta, parsed_pieces)\n",
      "        sid = fuzzy_digest(url_meta, parsed_pieces[:url_meta.path_depth]\n                           + ('',) * 0) if url_meta.query_keys == ('',) \\\n            else fuzzy_digest(url_meta, parsed_pieces)\n")],
    'key-less queries with different character spaces',
    'URLs of different digests share a sub maker',
    r'''
pm = PatternMaker()
pm.load('http://h/a?1')
pm.load('http://h/a?b')
check(len(list(pm.makers)) == 2, 'sub makers')
''')

bug('c17-some-metas', 'C17',
    [('formatter.py', "            if nodes[-1].meta is None:\n                continue\n            for obj in nodes[-1].meta:\n                yield '\\t'.join(('', str(obj)))",
      "            if nodes[-1].meta is None:\n                break\n            for obj in nodes[-1].meta:\n                yield '\\t'.join(('', str(obj)))")],
    'a cluster in which only some URLs have metas',
    'cluster format omits metas',
    r'''
us = ['http://h/' + c for c in 'abcd']
for i in range(4):
    ms = [None if j == i else us[j] for j in range(4)]
    res = show(clusters(us, 3, ms))
    check(len(res[0][1]) == 3, res)
''')

bug('c17-ete-question', 'C17',
    [('formatter.py', "if current_level == path_depth + 1:",
      "if current_level == path_depth + query_depth:")],
    'a combined tree of URLs with two query keys',
    'ete draws the wrong separators',
    r'''
cfg = get_default_config()
pm = PatternMaker(cfg)
for i in '123':
    pm.load('http://h/x?a=%s&b=1' % i)
for m, r in pm.make(combine=True):
    t = ''.join(pformat('ete', m, r))
    check('[\\?]a=' in t and '&b=' in t, t)
''')

bug('c18-inline-metas', 'C18',
    [('cmdline.py', "load_url = args.format_type in ('CLUSTER', 'INLINE')",
      "load_url = args.format_type == 'CLUSTER'")],
    'pattern-make -f inline', 'prints nothing',
    r'''
import subprocess
p = subprocess.run([sys.executable, '-c', 'from os_urlpattern.cmdline import make; make()', '-f', 'inline'],
                   input=b'http://h/a\nhttp://h/b\nhttp://h/c\n', stdout=subprocess.PIPE)
check(p.stdout.count(b'/[a-z]\thttp://h/') == 3, p.stdout)
''')

bug('c18-blank-line', 'C18',
    [('cmdline.py', "                line = line.strip()\n                if not line:\n                    stats['EMPTY'] += 1\n                    continue\n",
      "                line = line.rstrip()\n                if not line:\n                    stats['EMPTY'] += 1\n                    continue\n")],
    'an input line with leading blanks',
    'the blanks become part of the URL that is printed',
    r'''
import subprocess
p = subprocess.run([sys.executable, '-c', 'from os_urlpattern.cmdline import make; make()'],
                   input=b'http://h/a\n  http://h/b\nhttp://h/c\n', stdout=subprocess.PIPE)
check(b'\thttp://h/b\n' in p.stdout, p.stdout)
''')

bug('c20-cmp-key', 'C20',
    [('pattern_matcher.py', "            self._cmp_key = ''.join([str(VIEW_ORDER[p.view_cls]) for p in l])",
      "            self._cmp_key = ''\n            for p in l:\n                self._cmp_key += str(VIEW_ORDER[p.view_cls])")],
    'two threads ranking results of one shared matcher for the first time',
    'a half built sort key is used (or a doubled one stays)',
    r'''
import threading
ps = ['/[a-z]+[\\-]b', '/a[\\-][a-z]']
for k in range(1, 60):
    m = PatternMatcher()
    for p in ps:
        m.load(p, meta=p)
    want = best(ps, 'http://h/a-b')
    state = {'n': 0}
    other = []

    def run():
        other.extend(n.meta for n in sorted(m.match('http://h/a-b'), reverse=True))

    def tr(frame, event, arg):
        if 'pattern_matcher' not in frame.f_code.co_filename:
            return None
        if event == 'line' and frame.f_code.co_name == 'cmp_key':
            state['n'] += 1
            if state['n'] == k:
                t = threading.Thread(target=run)
                t.start()
                t.join()
        return tr
    nodes = m.match('http://h/a-b')
    sys.settrace(tr)
    mine = [n.meta for n in sorted(nodes, reverse=True)]
    sys.settrace(None)
    check(mine == want, k, mine)
    check(not other or other == want, k, other)
    again = [n.meta for n in sorted(m.match('http://h/a-b'), reverse=True)]
    check(again == want, k, again)
''')

bug('c13-fragment-number', 'C13',
    [('parse_utils.py', "idx_f = url_pattern_string.find(Symbols.NUMBER)",
      "idx_f = url_pattern_string.rfind(Symbols.NUMBER)")],
    'a fragment which holds a number sign',
    'the pattern of the URL is split at the wrong place',
    r'''
res = show(clusters(['http://h/a#b#c']))
try:
    check(best([res[0][0]], 'http://h/a#b#c') == [res[0][0]], res)
except Exception as e:
    check(False, res, e)
''')

bug('c09-leaf-return', 'C09',
    [('pattern_matcher.py', "                matched_nodes.extend(nodes)\n                continue",
      "                matched_nodes.extend(nodes)\n                if len(parsed_pieces) > 2:\n                    break\n                continue")],
    'several pattern types matching the last of at least three components',
    'only the results of the first type are reported',
    r'''
ps = ['/a/b/[a-z]+', '/a/b/c']
check(sorted(best(ps, 'http://h/a/b/c')) == sorted(ps), best(ps, 'http://h/a/b/c'))
''')

bug('c08-mixed-group', 'C08',
    [('pattern_matcher.py', "        return [] if parsed_piece.piece_length not in self._matchers \\\n            else self._matchers[parsed_piece.piece_length]",
      "        length = len(parsed_piece.piece)\n        return [] if length not in self._matchers \\\n            else self._matchers[length]")],
    'a fixed-length pattern over components with signs',
    'the escaped text is measured instead of the literal one',
    r'''
check(best(['/[\\-a-z]{5}'], 'http://h/a-b') == [], 'reported')
check(best(['/[\\-a-z]{3}'], 'http://h/a-b') == ['/[\\-a-z]{3}'], 'missed')
''')

bug('c12-key-run', 'C12',
    [('parse_utils.py', "            if last_c != c:\n                frag.seek(0)",
      "            if CHAR_RULE_DICT.get(last_c) is None or (\n                    last_c != c and last_c not in '()'):\n                frag.seek(0)")],
    'a query key with neighbouring parentheses',
    'the key is described by a wrong sign',
    r'''
import re
u = 'http://h/x?a()b=1'
res = show(clusters([u]))
check(re.fullmatch(res[0][0], u[8:]), res)
''')
