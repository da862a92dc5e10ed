BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     breaks=breaks, demo=demo))


CLI = r'''
import os
import subprocess
import tempfile


def cli(what, args, data, files=()):
    d = tempfile.mkdtemp()
    try:
        for n, b in files:
            with open(os.path.join(d, n), 'wb') as f:
                f.write(b)
        return subprocess.run(
            [sys.executable, '-W', 'ignore', '-c',
             'from os_urlpattern.cmdline import %s; %s()' % (what, what)]
            + args, input=data, stdout=subprocess.PIPE, cwd=d).stdout
    finally:
        for n, b in files:
            os.unlink(os.path.join(d, n))
        os.rmdir(d)


'''

bug('c03-falsy-meta', 'C03',
    [('piece_pattern_node.py', "        if data is None:\n            return",
      "        if not data:\n            return")],
    'a URL loaded with a false meta, like the number 0',
    'the meta is lost',
    r'''
pm = PatternMaker()
for i, u in enumerate(('http://h/a', 'http://h/b', 'http://h/c')):
    pm.load(u, meta=i)
res = show(pm)
check(res == [('/[a-z]', ['0', '1', '2'], 3)], res)
''')

bug('c04-mix-order', 'C04',
    [('parse_utils.py', "    if t_mix:\n        mixed_pieces.append(''.join(t_pieces))\n        mixed_rules.append(''.join(sorted(set(t_rules))))",
      "    if t_mix:\n        mixed_pieces.append(''.join(t_pieces))\n        mixed_rules.append(''.join(set(t_rules)))")],
    'components mixing character spaces and an unlucky order of a set (hash seed)',
    'the text of the generated pattern changes from process to process',
    r'''
import os
import subprocess
import __main__
us = ['http://h/%s' % u for u in ('x-a1Z', 'y-1Zb', 'z-Yc2', 'x-2dW', 'y-eV4f', 'z-7Ug8')]
if len(sys.argv) > 1:
    print(show(clusters(us, 2)))
    sys.exit(0)
outs = set()
for seed in range(40):
    outs.add(subprocess.check_output([sys.executable, '-W', 'ignore', __main__.__file__, 'x'],
                                     env=dict(os.environ, PYTHONHASHSEED=str(seed))))
check(len(outs) == 1, outs)
''')

bug('c07-digest-memo', 'C07',
    [('parse_utils.py', "    return digest(url_meta, [obj.fuzzy_rule for obj in objs])",
      "    key = (url_meta.path_depth, url_meta.query_keys, fuzzy_join(objs))\n    if key not in _DIGESTS:\n        _DIGESTS[key] = digest(url_meta, [obj.fuzzy_rule for obj in objs])\n    return _DIGESTS[key]"),
     ('parse_utils.py', "def fuzzy_digest(url_meta, objs):", "_DIGESTS = {}\n\n\ndef fuzzy_digest(url_meta, objs):")],
    'a query value which is a slash and, in the same process, the same URL with an empty value and an empty fragment',
    'both get the same digest',
    r'''
check(fuzzy_digest('http://h/a?k=/') != fuzzy_digest('http://h/a?k=#'), 'same digest')
''')

bug('c10-key-length', 'C10',
    [('pattern_matcher.py', "            return self.cmp_key > other.cmp_key",
      "            return (len(self.cmp_key), self.cmp_key) > (\n                len(other.cmp_key), other.cmp_key)")],
    'two matching mixed patterns with a different number of units',
    'the more specific one has more units and loses',
    r'''
ps = ['/a1b[\\-][0-9a-z]+', '/[0-9a-z]{3}[\\-][0-9a-z]+']
check(best(ps, 'http://h/a1b-x2')[0] == ps[0], best(ps, 'http://h/a1b-x2'))
''')

bug('c10-dot-first', 'C10',
    [('pattern_matcher.py', "            return self.cmp_key > other.cmp_key\n        return VIEW_ORDER[self.view_cls] > VIEW_ORDER[other.view_cls]",
      "            return self.cmp_key > other.cmp_key\n        if LastDotSplitFuzzyView in (self.view_cls, other.view_cls) \\\n                and MultiView in (self.view_cls, other.view_cls):\n            return self.view_cls == MultiView\n        return VIEW_ORDER[self.view_cls] > VIEW_ORDER[other.view_cls]")],
    'a last-dot pattern and a run-wise pattern matching one URL',
    'the less specific last-dot pattern wins',
    r'''
ps = ['/[a-z]{2}[0-9][\\.][a-z]+', '/[0-9a-z]+[\\.][a-z]+']
check(best(ps, 'http://h/ab1.html')[0] == ps[0], best(ps, 'http://h/ab1.html'))
''')

bug('c14-match-memo', 'C14',
    [('pattern_matcher.py', "        self._parser = PieceParser()\n        self._matchers = {}",
      "        self._parser = PieceParser()\n        self._matchers = {}\n        self._results = {}"),
     ('pattern_matcher.py', "        if sid not in self._matchers:\n            self._matchers[sid] = Matcher(url_meta)\n",
      "        if sid not in self._matchers:\n            self._matchers[sid] = Matcher(url_meta)\n            self._results.clear()\n"),
     ('pattern_matcher.py', "        if sid in self._matchers:\n            return self._matchers[sid].match(parsed_pieces)\n        return []",
      "        if sid in self._matchers:\n            if url not in self._results:\n                self._results[url] = self._matchers[sid].match(parsed_pieces)\n            return list(self._results[url])\n        return []")],
    'match, then load another pattern of the same digest, then match the URL again',
    'the pattern loaded in between is not reported',
    r'''
m = PatternMatcher()
m.load('/[a-z]+', meta=1)
m.match('http://h/a')
m.load('/[a-z]', meta=2)
check(sorted(n.meta for n in m.match('http://h/a')) == [1, 2], 'stale')
''')

bug('c14-shared-config', 'C14',
    [('config/__init__.py', "    import os\n    path = os.path.dirname(__file__)\n    cfg = ConfigParser()\n    cfg.read(os.path.join(path, 'default_config.cfg'))\n    return cfg",
      "    import os\n    if not _DEFAULT:\n        path = os.path.dirname(__file__)\n        cfg = ConfigParser()\n        cfg.read(os.path.join(path, 'default_config.cfg'))\n        _DEFAULT.append(cfg)\n    return _DEFAULT[0]"),
     ('config/__init__.py', "def get_default_config():", "_DEFAULT = []\n\n\ndef get_default_config():")],
    'two makers with different configurations, both derived from the default',
    'changing the configuration of one changes the other',
    r'''
us = ['http://h/' + c for c in 'abcd']
a = clusters(us, 3)
b = clusters(us, 10)
check([p for p, _, _ in show(a)] == ['/[a-z]'], show(a))
check(len(show(b)) == 4, show(b))
''')

bug('c19-leading-blank', 'C19',
    [('cmdline.py', "            speed_logger.debug('[MATCHING]')\n            line = line.strip()",
      "            speed_logger.debug('[MATCHING]')\n            line = line.rstrip()")],
    'an input line with leading blanks',
    'the line is answered with E or printed with its blanks',
    CLI + r'''
out = cli('match', ['-p', 'p'], b' http://h/a\n\thttp://h/b\n', [('p', b'/[a-z]\n')])
check(out == b'/[a-z]\thttp://h/a\n/[a-z]\thttp://h/b\n', out)
''')

bug('c19-stop-at-other', 'C19',
    [('cmdline.py', "                    stats['UNKNOW'] += 1\n                    continue",
      "                    stats['UNKNOW'] += 1\n                    if not line:\n                        break\n                    continue")],
    'a pattern file with an empty line',
    'the patterns after the empty line are not loaded',
    CLI + r'''
out = cli('match', ['-p', 'p'], b'http://h/a\nhttp://h/1\n', [('p', b'/[a-z]\n\n/[0-9]\n')])
check(out == b'/[a-z]\thttp://h/a\n/[0-9]\thttp://h/1\n', out)
''')

bug('c08-join-sep', 'C08',
    [('parsed_piece_view.py', "            self._view = fuzzy_join(self.parsed_pieces)",
      "            self._view = fuzzy_join(self.parsed_pieces, '')"),
     ('pattern_matcher.py', "        pattern = match_node.pattern\n        r = fuzzy_join(pattern.pattern_units)",
      "        pattern = match_node.pattern\n        r = fuzzy_join(pattern.pattern_units, '')"),
     ('pattern_matcher.py', "        r = fuzzy_join(patterns)\n", "        r = fuzzy_join(patterns, '')\n")],
    'a mixed pattern whose parts concatenate to the character spaces of other parts',
    'parts of different texts are taken for each other',
    r'''
import re
ps = ['/[0-9]+[%a-z]+', '/[0-9a-z]+[%][a-z]+', '/[%0-9a-z]{3}', '/[%]+[0-9a-z]+', '/[%0-9]+[a-z]+',
      '/[%0-9]+[\\-][0-9a-z]+', '/[%]+[0-9][\\-][0-9a-z]+', '/[0-9a-z]+[\\-][%0-9]+']
for u in ('1a%', '%1a', '1%a', 'a%1', '%1-1a', '1%-1a', '%1-a1', 'a1-1%', 'a1-%1', '1a-%1', '%%1-1a', '%1%-1a'):
    for p in ps:
        try:
            got = best([p], 'http://h/' + u)
        except Exception as e:
            check(False, p, u, e)
        check(not got or re.fullmatch(p, '/' + u), p, u)
''')

bug('c17-combine-count', 'C17',
    [('pattern_maker.py', "                              for n in nodes[1:]], nodes[0].count)",
      "                              for n in nodes[1:]], nodes[1].count)")],
    'a combined tree with a cluster whose first component varies',
    'the tree counts only one branch of the cluster',
    r'''
pm = clusters(['http://h/' + c for c in 'abcd'])
for m, r in pm.make(combine=True):
    check(r.count == 4, r.count)
''')

bug('c16-config-dropped', 'C16',
    [('pattern_maker.py', "        self._url_meta = url_meta\n        self._config = get_default_config() if config is None else config\n        self._root = PiecePatternNode((EMPTY_PARSED_PIECE, None))",
      "        self._url_meta = url_meta\n        self._config = config or get_default_config()\n        self._root = _roots.setdefault(url_meta.depth, PiecePatternNode(\n            (EMPTY_PARSED_PIECE, None))) if config is None \\\n            else PiecePatternNode((EMPTY_PARSED_PIECE, None))"),
     ('pattern_maker.py', "class PatternMaker(object):", "_roots = {}\n\n\nclass PatternMaker(object):")],
    'several low-level makers without an own configuration',
    'low-level makers of one depth share their URLs',
    r'''
a = parse('http://h/a')
b = parse('http://h/1')
ma, mb = Maker(a[0]), Maker(b[0])
ma.load(a[1])
mb.load(b[1])
check([r.count for r in ma.make()] == [1], 'makers share URLs')
''')

bug('c09-length-first', 'C09',
    [('pattern_matcher.py', "    def match(self, parsed_piece):\n        return self._matchers\n",
      "    def match(self, parsed_piece):\n        return self._matchers[:1] if parsed_piece.piece_length > 9 \\\n            else self._matchers\n")],
    'two wildcard rules at one position whose spaces are written in different order, and a component of ten characters',
    'only the first of them is reported',
    r'''
ps = ['/[0-9a-z]+', '/[a-z0-9]+']
check(sorted(best(ps, 'http://h/abcdefghi1')) == sorted(ps), best(ps, 'http://h/abcdefghi1'))
''')

bug('c06-ten-lengths', 'C06',
    [('pattern_cluster.py', "        if piece_length not in self._length_buckets:\n            self._length_buckets[piece_length] = PieceBagBucket()\n        self._length_buckets[piece_length].add(piece_bag)",
      "        piece_length = min(piece_length, 32)\n        if piece_length not in self._length_buckets:\n            self._length_buckets[piece_length] = PieceBagBucket()\n        self._length_buckets[piece_length].add(piece_bag)")],
    'components longer than 32 characters of different lengths',
    'values of different lengths get one fixed length',
    r'''
import re
us = ['http://h/' + c * n for c in 'abc' for n in (33, 40, 41)]
for p, members, n in show(clusters(us)):
    for u in members:
        check(re.fullmatch(p, u[8:]), p, u)
''')
