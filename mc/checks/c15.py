"""C15: refused input leaves no trace.

Every history of good loads with refused loads inserted at every position is
executed on the real objects and compared with the history without them.
"""
import itertools

from .. import impl, scale, universe

ID = 'C15'
BOUNDS = {
    'quick': '7 good histories x every refused load (46: no path, misplaced &, '
             'illegal character at every position, patterns, metas without '
             'hash) at every position, with and without makes in between, '
             'every pair of them and repeated up to 129 times; 6 pattern histories '
             'x every refused pattern (45: malformed unit at every position, '
             'URLs, relative texts) likewise, with refused match calls in '
             'between',
    'thorough': 'every ordered triple of refused inputs',
}
ASSUMPTIONS = ['accepted meta objects are strings; refused ones have no '
               'hash']

H = universe.H
GOOD_URLS = [
    ([H + '/a', H + '/b', H + '/cc'], 2),
    ([H + '/a/1', H + '/b/2', H + '/a/2'], 2),
    ([H + '/a?k=1', H + '/a?k=2', H + '/b?k=1'], 2),
    ([H + '/a#1', H + '/a#2', H + '/a#a'], 2),
    ([H + '/a-b', H + '/b-a', H + '/c-d', H + '/a'], 3),
    ([H + '/x?k=1&j=a#f', H + '/x?k=2&j=a#f', H + '/x?k=2&j=b#f'], 2),
    ([H + '/', H + '/a', H + '/a'], 2),
]
BAD_URLS = ['', 'http://h', 'h', 'http:', 'http://h?a', 'http://h#a',
            H + '/a?&', H + '/a?&a', H + '/a?a&', H + '/a?a&&b',
            H + '/a?k=1&', H + '/a?&k=1',
            H + '/a`', H + '/`', H + '/a/`', H + '/`/1', H + '/a b',
            H + '/a?k=`', H + '/a?k=1`', H + '/a?`=1', H + '/a?`',
            H + '/a#`', H + '/a#1`', H + '/\u00e9', H + '/b-\u3042',
            H + '/x?k=1&j=`#f', H + '/x?k=1&j=a#`', H + '/x?k=1&`=a#f',
            '/a', '/[a-z]', '/[a-z]+[\\?]k=[0-9]', '/', '/[', '//a/b']


class Unhashable(object):
    """A meta that cannot be kept in a set of metas."""
    __slots__ = ()

    def __hash__(self):
        raise ValueError('no hash')

    def __bool__(self):
        return False


# refused for its meta: the URL itself is fine (known, new in a known
# structure, of a new structure)
BAD_METAS = [(H + u, m) for u in ('/a', '/zz', '/a/b/c?k=1#f', '/a?k=1')
             for m in ([], {'a': 1}, Unhashable())]
BAD_LOADS = [(u, 'bad') for u in BAD_URLS] + BAD_METAS
GOOD_PATS = [
    ['/a', '/[a-z]', '/[a-z]+'],
    ['/a/[0-9]', '/[a-z]/1', '/[a-z]+/[0-9]+'],
    ['/[a-z][0-9]', '/[0-9a-z]{2}', '/a1'],
    ['/[a-z]+[\\.]html', '/[a-z]{2}[\\.]html', '/[\\-a-z]+[\\.]html'],
    ['/x[\\?]k=[0-9]', '/x[\\?]k=1', '/x[\\?]k=[0-9]+#f'],
    ['/a/b/[a-z]', '/a/[a-z]/c', '/[a-z]/b/c'],
]
PROBES = [H + x for x in ('/a', '/b', '/ab', '/a/1', '/a/2', '/b/22', '/a1',
                          '/b2', '/ab.html', '/a-b.html', '/x?k=1', '/x?k=2',
                          '/x?k=1#f', '/a/b/c', '/a/c/c', '/', '/a/')]
MALFORMED = ['[', '[a-z', '[a]', '[]', '[a-z]{0}', '[0-9a-z]', '[a-z]{',
             '[a-z]{x}', '-', '[a-Z]', 'a.']
BAD_PATS = ['/' + x for x in MALFORMED] + \
    ['/a/' + x for x in MALFORMED] + ['/' + x + '/1' for x in MALFORMED] + \
    ['/a/b/' + x for x in MALFORMED] + \
    ['/x[\\?]k=' + x for x in MALFORMED] + \
    ['/x[\\?]k=1&', '/x[\\?]&k=1', '/x[\\?]k=1#' + '[', '/a#-',
     'a', '', 'http://h/a', 'http://h/a/1', H + '/`', '[a-z]', 'x[\\?]k=1',
     '/[a-z]+/[0-9]{2}x-', '/\u00e9', '/a/`', '/a1[0-9a-z]',
     '/[a-z]/b/[c]', '/a/[b]/c']


def tasks(tier):
    q = tier == 'quick'
    out = []
    for i in range(len(GOOD_URLS)):
        for b in range(len(BAD_LOADS)):
            out.append(('MAKER', i, b, q))
    for i in range(len(GOOD_PATS)):
        for b in range(len(BAD_PATS)):
            out.append(('MATCH', i, b, q))
    for n in scale.steps(tier, 129 if q else 1025):
        out.append(('REPEAT', n))
    return out


def cases(task):
    if task[0] == 'REPEAT':
        n = task[1]
        for kind, good, bads in (('MAKER', GOOD_URLS, BAD_LOADS),
                                 ('MATCH', GOOD_PATS, BAD_PATS)):
            for i in range(len(good)):
                for b in range(i % 3, len(bads), 3 if n < 22 else 9):
                    yield {'kind': kind, 'i': i, 'insert': [[1, b]] * n}
        return
    kind, i, b, q = task
    bads = BAD_LOADS if kind == 'MAKER' else BAD_PATS
    good = (GOOD_URLS[i][0] if kind == 'MAKER' else GOOD_PATS[i])
    n = len(good)
    for pos in range(n + 1):
        yield {'kind': kind, 'i': i, 'insert': [[pos, b]]}
        yield {'kind': kind, 'i': i, 'insert': [[pos, b], [pos, b]]}
        if kind == 'MAKER':
            yield {'kind': kind, 'i': i, 'insert': [[pos, b]],
                   'makes': True}
    yield {'kind': kind, 'i': i, 'insert': [[p, b] for p in range(n + 1)]}
    for c in range(len(bads)):
        for p1, p2 in ((0, 0), (0, n), (1, 1), (n, 0)):
            yield {'kind': kind, 'i': i, 'insert': [[p1, b], [p2, c]]}
        if not q:
            for d in range(len(bads)):
                yield {'kind': kind, 'i': i,
                       'insert': [[0, b], [1, c], [n, d]]}


def maker_run(i, insert, bad, st, makes=False):
    urls, mcn = GOOD_URLS[i]
    pm = impl.PatternMaker(impl.config(mcn))
    news = []
    for pos in range(len(urls) + 1):
        for p, b in insert:
            if p == pos:
                st.transitions += 1
                try:
                    pm.load(BAD_LOADS[b][0], meta=BAD_LOADS[b][1])
                    bad.append('maker accepts %r' % (BAD_LOADS[b],))
                except Exception:
                    pass
        if makes:
            news.append(impl.canon(impl.make(pm)))
        if pos < len(urls):
            st.transitions += 1
            news.append(bool(pm.load(urls[pos], meta=urls[pos])[1]))
    subs = sorted(repr((m.url_meta.path_depth, tuple(m.url_meta.query_keys),
                        m.url_meta.has_fragment)) for m in pm.makers)
    combined = sorted((str(r.value), r.count) for _, r in
                      pm.make(combine=True))
    return news, subs, combined, impl.canon(impl.make(pm))


def matcher_run(i, insert, bad, st, makes=False):
    pats = GOOD_PATS[i]
    m = impl.PatternMatcher()
    seen = []
    for pos in range(len(pats) + 1):
        for p, b in insert:
            if p == pos:
                st.transitions += 1
                try:
                    m.load(BAD_PATS[b], meta='bad')
                    bad.append('matcher accepts %r as pattern' % BAD_PATS[b])
                except Exception:
                    pass
                try:
                    m.match(H + '/a`')
                except Exception:
                    pass
        if pos < len(pats):
            st.transitions += 1
            seen.append(bool(m.load(pats[pos], meta=pats[pos])[1]))
        seen.append([sorted(n.meta for n in m.match(u)) for u in PROBES])
    return seen


_BASE = {}


def evaluate(case, st):
    bad = []
    run = maker_run if case['kind'] == 'MAKER' else matcher_run
    makes = case.get('makes', False)
    key = (case['kind'], case['i'], makes)
    if key not in _BASE:
        _BASE[key] = run(case['i'], [], bad, st, makes)
    got = run(case['i'], case['insert'], bad, st, makes)
    st.states += 1
    st.traces += 1
    st.outcome(got)
    if got != _BASE[key] and not bad:
        bads = BAD_LOADS if case['kind'] == 'MAKER' else BAD_PATS
        bad.append('refused %r changes the outcome: %r instead of %r' % (
            [(p, bads[b]) for p, b in case['insert']], got, _BASE[key]))
    return bad
