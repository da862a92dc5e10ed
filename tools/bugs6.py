BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     breaks=breaks, demo=demo))


bug('c04-longest-bucket', 'C04',
    [('pattern_cluster.py', "            max_bucket = max(itervalues(self._length_buckets),\n                             key=lambda x: x.count)",
      "            max_bucket = max(itervalues(self._length_buckets), key=len)")],
    'two lengths with equally many distinct values but different numbers of URLs, and a threshold between',
    'the clusters depend on the order in which the URLs are loaded',
    r'''
import itertools
def result(urls, mcn):
    out = []
    for meta, root in clusters(urls, mcn).make():
        out.append((list(pformat('PATTERN', meta, root))[0], frozenset(m for n in leaves(root) for m in n.meta or ()), root.count))
    return sorted(out, key=str)
def leaves(n):
    cs = list(n.children)
    if not cs:
        yield n
    for c in cs:
        for x in leaves(c):
            yield x
for mcn, groups in (
        (5, {'a': 2, 'b': 3, 'aa': 2, 'bb': 5, 'aaa': 2, 'bbb': 1}),
        (4, {'a': 2, 'b': 3, 'aa': 2, 'bb': 5, 'aaa': 2, 'bbb': 1}),
        (5, {'a': 5, 'b': 1, 'c': 3, 'aa': 4, 'bb': 3, 'aaa': 1, 'bbb': 1, 'ccc': 1, 'aaaa': 4})):
    us = ['http://h/%s/%s' % (k, c) for k, n in groups.items() for c in 'xyzuvw'[:n]]
    check(result(us, mcn) == result(us[::-1], mcn), (us, mcn))
''')

bug('c14-view-memo', 'C14',
    [('parser.py', "        parsed_pieces = tuple([MatchPattern(p, i == url_meta.path_depth)\n                               for i, p in enumerate(pattern_strings, 1)])",
      "        for i, p in enumerate(pattern_strings, 1):\n            if p not in _PATTERNS:\n                _PATTERNS[p] = MatchPattern(p, i == url_meta.path_depth)\n        parsed_pieces = tuple([_PATTERNS[p] for p in pattern_strings])"),
     ('parser.py', "def parse(url_or_pattern):", "_PATTERNS = {}\n\n\ndef parse(url_or_pattern):")],
    'a last path level such as [a-z\\-]+[\\.]html whose text was seen before as another part of a pattern, by any matcher',
    'a match depends on what other matchers loaded before',
    r'''
def hits(order):
    m = PatternMatcher()
    for p in order:
        m.load(p, meta=p)
    return sorted(n.meta for n in m.match('http://h/x/a-b.html'))
p = '/x/[\\-a-z]+[\\.]html'
want = hits([p])
check(want == [p], want)
other = PatternMatcher()
other.load('/[\\-a-z]{3}[\\.]html/x')
check(hits(['/x/[\\-a-z]{3}[\\.]html']) == ['/x/[\\-a-z]{3}[\\.]html'])
''')

bug('c10-key-cap', 'C10',
    [('pattern_matcher.py', "                 for u in reversed(self.pattern_units)]",
      "                 for u in self.pattern_units[:-13:-1]]")],
    'a component of more than twelve units whose patterns differ only in the first of them',
    'the ranking of two patterns is lost, so the best match depends on the load order',
    r'''
url = 'http://h/' + '-'.join('abcdefgh') 
ps = ['/' + 'a[\\-]b[\\-]c[\\-]d[\\-]e[\\-]f[\\-]g[\\-][a-z]', '/' + '[a-z][\\-]b[\\-]c[\\-]d[\\-]e[\\-]f[\\-]g[\\-][a-z]']
best = []
for order in (ps, ps[::-1]):
    m = PatternMatcher()
    for p in order:
        m.load(p, meta=p)
    r = m.match(url)
    check(len(r) == 2, [n.meta for n in r])
    best.append(sorted(r)[-1].meta)
check(best == [ps[0], ps[0]], best)
''')

bug('c12-lower-memo', 'C12',
    [('parse_utils.py', "    def parse(self, piece):", "    _memo = {}\n\n    def parse(self, piece):\n        key = (len(piece), piece.swapcase().lower(), piece.isupper(), piece.islower(), piece[:2], piece[-2:])\n        if key not in self._memo:\n            self._memo[key] = self._parse(piece)\n        return self._memo[key]\n\n    def _parse(self, piece):")],
    'two components equal but for the case of letters inside, parsed one after the other in one process',
    'the second component gets the runs of the first',
    r'''
a = parse('http://h/aabBaa')[1][0]
b = parse('http://h/aaBbaa')[1][0]
check(a.pieces == ('aab', 'B', 'aa') and b.pieces == ('aa', 'B', 'baa'), (a.pieces, b.pieces))
''')
