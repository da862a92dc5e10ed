"""C09: every loaded pattern that fits is reported, whatever else is loaded."""
import itertools

from .. import forms, groups, impl, ref, scale, universe

ID = 'C09'
BOUNDS = {
    'quick': 'every generated-form pattern alone, and all patterns of a '
             'bucket together in 4 load orders, against every text of 9 '
             'alphabets (<= 3..4 characters) at 7 URL positions (exact '
             'oracle); every ordered pair and every ordered triple of pools '
             'of <= 14 patterns with all re-loads (exact oracle, metas, '
             'is_new); every subset of 8-pattern pools; products of forms '
             'over 2-3 components in 3 orders; sizes 1..21 and 33 more up to 257 '
             'of 14 kinds of text, levels, keys and patterns per bucket, '
             'together and alone',
    'thorough': '12 alphabets (<= 3..5 characters), all 11 positions, pools '
                'of 24 (pairs) and 12 (triples), 10-pattern subsets, wider '
                'products',
}
ASSUMPTIONS = ['the generated forms are those of mc/forms.py; other '
               'hand-written patterns are only required to behave as alone']
CASE_SECONDS = 120

# pools for histories: (context, texts whose forms are pooled, probe texts)
POOLS = [
    ('path', ['a1', 'b1'], ['a1', 'b1', 'a2', 'aa1', '1a', 'b22']),
    ('path', ['a-b', 'b-a'], ['a-b', 'b-a', 'c-d', 'a--b', '-ab', 'aa-b']),
    ('path', ['a.b', 'a..b'], ['a.b', 'a..b', 'c.d', 'a.cc', '.ab', 'aa.b']),
    ('path', ['a1.b', '1a.b'], ['a1.b', '1a.b', 'a1.c', 'aa1.b', 'a.1b']),
    ('path', ['a-b.c', '-ab.c'], ['a-b.c', '-ab.c', 'a-b.d', 'b-a.c', 'ab-.c']),
    ('path', ['a-1.mp3', '1-a.mp3'], ['a-1.mp3', '1-a.mp3', 'b-2.mp3',
                                      'a-1.mp4']),
    ('path', ['aaa', 'bb'], ['aaa', 'bb', 'ccc', 'dd', 'e', 'eeee']),
    ('mid', ['a1-b', '1a-b'], ['a1-b', '1a-b', 'a2-b', 'a1-c', 'aa1-b']),
    ('query', ['a1', '1a'], ['a1', '1a', 'b2', 'aa1', '11a', 'a1a']),
    ('keyless', ['a%b', '%ab'], ['a%b', '%ab', 'b%a', 'a%%b', 'aa%b']),
    ('frag', ['a-b', 'ab-'], ['a-b', 'ab-', 'c-d', 'a--b', '-ab']),
    ('dir', ['aB1', 'B1a'], ['aB1', 'B1a', 'aC2', 'aaB1', '1aB']),
]
PRODUCTS = [
    ('/%s/%s', ['a1', 'b2', '1a'], ['a', 'b', 'cc']),
    ('/%s/%s', ['a', 'bb'], ['a.b', 'b.a', 'a..b']),
    ('/%s/%s', ['a-b', 'b-c'], ['a1', '1a']),
    ('/%s?k=%s', ['a', 'bb'], ['a1', '1a', 'b2']),
    ('/x?i=%s&j=%s', ['a', 'bb'], ['1', '22']),
    ('/%s#%s', ['a1', '1a'], ['a', 'bb']),
    ('/%s?%s', ['a.b', 'c.d'], ['a-b', '-ab']),
    ('/%s/%s/%s', ['a', 'bb'], ['1', '22'], ['a', 'b']),
    ('/%s/%s?k=%s', ['a', 'bb'], ['1', '22'], ['a', 'b']),
]
# non canonical patterns: only "as alone" is required
HAND = ['/[a-z0-9]{2}', '/[0-9a-z]{2}', '/[a-z0-9]+', '/[0-9a-z]+', '/a1',
        '/a[0-9]', '/[a-z]1', '/[a-z]{1}1', '/[a-z]+[0-9]+', '/[0-9][a-z]']
HAND3 = ['/[a-z0-9]{3}', '/[0-9a-z]{3}', '/a[0-9]{2}', '/[a-z]{2}[0-9]',
         '/[a-z]{2}1', '/aa1', '/[a-z]+1', '/[a-z]{2}[0-9]{1}']


def pool(idx, size):
    ctx, ts, probes = POOLS[idx]
    pats = []
    per = []
    for t in ts:
        p = ref.parse(universe.CONTEXTS[ctx] % t)
        per.append(groups.one_forms(p, t))
    for tup in itertools.zip_longest(*per):
        for x in tup:
            if x is not None and x not in pats:
                pats.append(x)
    if len(pats) > size:          # spread over all kinds of forms
        stepping = len(pats) / float(size)
        pats = [pats[int(i * stepping)] for i in range(size)]
    urls = []
    for t in probes:
        u = universe.CONTEXTS[ctx] % t
        p = ref.parse(u)
        urls.append((u, frozenset(groups.one_forms(p, t))))
    return pats, urls


def tasks(tier):
    q = tier == 'quick'
    out = []
    ctxs = ['path', 'mid', 'dir', 'query', 'query2', 'keyless', 'frag'] \
        if q else list(universe.CONTEXTS)
    for ctx in ctxs:
        for a, n in (groups.QUICK if q else groups.THOROUGH):
            for b in range(len(groups.buckets(ctx, a, n))):
                out.append(('GROUP', ctx, a, n, b))
    for i in range(len(POOLS)):
        for f in range(14 if q else 24):
            out.append(('PAIRS', i, 14 if q else 24, f))
        for f in range(9 if q else 12):
            out.append(('TRIPLES', i, 9 if q else 12, f))
        out.append(('SUBSETS', i, 8 if q else 10))
    for i in range(len(PRODUCTS)):
        out.append(('PROD', i, q))
    out.append(('HAND', 0))
    out.append(('HAND', 1))
    for n in scale.steps(tier, 129 if q else 1025):
        if n > 3:
            out.append(('HANDN', n))
    for ts in scale.match_tasks(tier):
        out.extend(ts)
    return out


def cases(task):
    kind = task[0]
    if kind == 'GROUP':
        _, ctx, a, n, b = task
        for pat in groups.buckets(ctx, a, n)[b][1]:
            yield {'kind': 'one', 'ctx': ctx, 'alphabet': a, 'n': n, 'b': b,
                   'pattern': pat}
        for order in ('short', 'long', 'alpha', 'evenodd'):
            yield {'kind': 'all', 'ctx': ctx, 'alphabet': a, 'n': n, 'b': b,
                   'order': order}
    elif kind == 'PAIRS':
        _, i, size, f = task
        pats, _ = pool(i, size)
        if f >= len(pats):
            return
        x = pats[f]
        for y in pats:
            if x == y:
                continue
            for h in ([x, y], [x, y, x], [x, x, y], [x, y, y], [x, y, x, y]):
                yield {'kind': 'hist', 'pool': i, 'loads': h}
        yield {'kind': 'hist', 'pool': i, 'loads': [x]}
        yield {'kind': 'hist', 'pool': i, 'loads': [x, x]}
    elif kind == 'TRIPLES':
        _, i, size, f = task
        pats, _ = pool(i, size)
        if f >= len(pats):
            return
        for t in itertools.permutations([p for p in pats if p != pats[f]], 2):
            yield {'kind': 'hist', 'pool': i, 'loads': [pats[f]] + list(t)}
    elif kind == 'SUBSETS':
        _, i, size = task
        pats, _ = pool(i, size)
        for mask in range(1, 1 << len(pats)):
            sel = [p for j, p in enumerate(pats) if mask >> j & 1]
            yield {'kind': 'hist', 'pool': i, 'loads': sel}
            yield {'kind': 'hist', 'pool': i, 'loads': sel[::-1]}
    elif kind == 'PROD':
        for order in ('fwd', 'rev', 'mix'):
            yield {'kind': 'prod', 'i': task[1], 'order': order,
                   'cap': 6 if task[2] else 12}
    elif kind == 'SCALE':
        for name, ctx, ts in task[1]:
            for order in ('fwd', 'rev', 'each'):
                yield {'kind': 'scale', 'ctx': ctx, 'texts': ts,
                       'order': order}
    elif kind == 'DEEP':
        for u in task[1]:
            for order in ('fwd', 'rev', 'each'):
                yield {'kind': 'deep', 'url': u, 'order': order}
    elif kind == 'CROWD':
        pats, urls = task[1]
        yield {'kind': 'crowd', 'patterns': pats, 'urls': urls}
        yield {'kind': 'crowd', 'patterns': pats[::-1], 'urls': urls}
    elif kind == 'HANDN':
        n = task[1]
        ps = handn(n)
        for t in itertools.permutations(ps, 2):
            yield {'kind': 'hand', 'loads': list(t), 'n': n}
        yield {'kind': 'hand', 'loads': ps, 'n': n}
        yield {'kind': 'hand', 'loads': ps[::-1], 'n': n}
    else:
        ps = (HAND, HAND3)[task[1]]
        for n in (2, 3):
            for t in itertools.permutations(ps, n):
                yield {'kind': 'hand', 'loads': list(t)}


def handn(n):
    return ['/[a-z0-9]{%d}' % n, '/[0-9a-z]{%d}' % n, '/[a-z0-9]+',
            '/[0-9a-z]+', '/a[0-9]{%d}' % (n - 1), '/a[0-9]+', '/[a-z]+[0-9]+',
            '/[a-z][0-9]{%d}' % (n - 1), '/a' + '1' * (n - 1)]


def orders(pats, order):
    if order == 'each':
        return [[x] for x in pats]
    return [pats[::-1] if order == 'rev' else pats]


def load_all(loads, bad, st):
    m = impl.PatternMatcher()
    last, seen = {}, set()
    for i, x in enumerate(loads):
        _, new = m.load(x, meta=(i, x))
        st.transitions += 1
        if bool(new) != (x not in seen):
            bad.append('load %d of %r reports is_new=%r' % (i, loads, new))
        seen.add(x)
        last[x] = (i, x)
    return m, last


def compare(m, last, url, want, bad, what, st):
    got = [n.meta for n in m.match(url)]
    st.outcome((url, sorted(got)))
    st.incr('reported', len(got))
    exp = sorted(last[x] for x in want)
    if sorted(got) != exp:
        bad.append('%s: matching %s gives %r, expected %r'
                   % (what, url, sorted(got)[:6], exp[:6]))


def evaluate(case, st):
    bad = []
    kind = case['kind']
    if kind in ('one', 'all'):
        members, pats = groups.buckets(case['ctx'], case['alphabet'],
                                       case['n'])[case['b']]
        if kind == 'one':
            pats = [case['pattern']]
        elif case['order'] == 'long':
            pats = pats[::-1]
        elif case['order'] == 'alpha':
            pats = sorted(pats)
        elif case['order'] == 'evenodd':
            pats = pats[1::2] + pats[0::2]
        m, last = load_all(pats, bad, st)
        have = frozenset(pats)
        for u, p, f in members:
            st.states += 1
            st.transitions += 1
            compare(m, last, u, f & have, bad, '%d patterns loaded (%s)' % (
                len(pats), pats[0]), st)
            if len(bad) > 3:
                break
    elif kind == 'hist':
        loads = case['loads']
        m, last = load_all(loads, bad, st)
        for u, f in pool(case['pool'], 1)[1]:
            st.states += 1
            st.transitions += 1
            compare(m, last, u, [x for x in last if x in f], bad,
                    'after loading %r' % loads, st)
    elif kind == 'hand':
        loads = case['loads']
        m, last = load_all(loads, bad, st)
        n = case.get('n')
        ts = ('a1', 'b2', '1a', 'aa1', 'a11', 'a1a', '1aa', 'aa11')
        if n:
            ts = ('a' + '1' * (n - 1), 'a' + '1' * n, '1' * (n - 1) + 'a',
                  scale.alt('a1', n), scale.alt('a1', n + 1),
                  'a' * n + '1', 'b' + '2' * (n - 1))
        for t in ts:
            u = universe.H + '/' + t
            want = [x for x in last if alone(x, u)]
            st.states += 1
            st.transitions += 1
            compare(m, last, u, want, bad, 'after loading %r' % loads,
                    st)
    elif kind in ('scale', 'deep'):
        if kind == 'scale':
            ms = scale.member_forms(case['ctx'], case['texts'])
            urls = [(u, f) for u, p, f in ms]
            pats = sorted(frozenset().union(*[f for u, f in urls]))
        else:
            fit, no = scale.deep_forms(case['url'])
            urls = [(case['url'], frozenset(fit))]
            pats = list(fit) + list(no)
        for ps in orders(pats, case['order']):
            m, last = load_all(ps, bad, st)
            for u, f in urls:
                st.states += 1
                st.transitions += 1
                compare(m, last, u, f.intersection(ps), bad,
                        '%d patterns loaded (%s)' % (len(ps), ps[0]), st)
            if len(bad) > 3:
                break
    elif kind == 'crowd':
        m, last = load_all(case['patterns'], bad, st)
        for u, want in case['urls']:
            st.states += 1
            st.transitions += 1
            compare(m, last, u, want, bad, '%d patterns loaded' % len(last),
                    st)
    else:
        fmt, axes = PRODUCTS[case['i']][0], PRODUCTS[case['i']][1:]
        pats, urls = [], []
        for t in itertools.product(*axes):
            u = universe.H + fmt % t
            p = ref.parse(u)
            n = len(p.levels)
            per = []
            for i, c in enumerate(p.components):
                fs = forms.component_forms(c, i == n - 1)
                if c == 'x':
                    fs = fs[:1]
                if len(fs) > case['cap']:
                    k = len(fs) / float(case['cap'])
                    fs = [fs[int(j * k)] for j in range(case['cap'])]
                per.append(fs)
            f = [forms.url_pattern(p, c) for c in itertools.product(*per)]
            urls.append(u)
            pats.extend(x for x in f if x not in pats)
        if case['order'] == 'rev':
            pats = pats[::-1]
        elif case['order'] == 'mix':
            pats = pats[1::2] + pats[0::2]
        m, last = load_all(pats, bad, st)
        have = frozenset(pats)
        for u in urls:
            st.states += 1
            st.transitions += 1
            want = have & frozenset(forms.url_forms(ref.parse(u)))
            compare(m, last, u, want, bad, '%d patterns loaded' % len(pats),
                    st)
    st.traces += 1
    return bad[:4]


_ALONE = {}


def alone(x, u):
    if (x, u) not in _ALONE:
        _ALONE[x, u] = bool(impl.matcher([x]).match(u))
    return _ALONE[x, u]
