"""C06: enough similar URLs are generalised to the documented pattern.

Closed-form families of populations; every parameter combination within the
bounds is clustered by the real code and compared with the expected pattern.
"""
import itertools

from .. import impl, ref, scale, universe

ID = 'C06'
BOUNDS = {
    'quick': 'all combinations of 11 URL positions, 16 literal frames around '
             'the varying run, 3 character classes, lengths 1..12 and 50, '
             'min_cluster_num 2..5, populations mcn..2*mcn (fixed length); '
             'every set of >= mcn lengths out of 1..5 with 1 or 3 values '
             'each (wildcard); every >=mcn-subset of 6 run orders (mixed); '
             'one outlier of every other length (noise); two positions '
             'varying together or as a full grid; lengths, length sets, '
             'populations and thresholds over the size sweep (1..257)',
    'thorough': 'as quick with lengths 1..20 and 50/99/100/101, '
                'min_cluster_num 2..8, populations up to 3*mcn, lengths '
                'subsets of 1..6, 8 run orders, populations in other buckets '
                'around',
}
ASSUMPTIONS = ['only the populations whose pattern the documentation fixes '
               'are judged; populations which the algorithm may or may not '
               'split are not']

H = universe.H
C = universe.CONTEXTS
# literal frames around a varying run: the run is not next to its own class
FRAMES = {
    'l': ['%s', '%s.html', '1%s', '%s1', '1%s2', 'A%sB', '-%s-', 'x-%s',
          '%s-x', 'x_%s_y', '%s..x', 'x--%s', '%%%s', 'x.%s.y', '[%s]',
          '%s\\x'],
    'u': ['%s', '%s.html', '1%s', '%s1', '1%s2', 'a%sb', '-%s-', 'x-%s',
          '%s-x', 'x_%s_y', '%s..x', 'x--%s', '%%%s', 'x.%s.y', '{%s}',
          '%s"'],
    'd': ['%s', '%s.html', 'a%s', '%sa', 'a%sb', 'A%sB', '-%s-', 'x-%s',
          '%s-x', 'x_%s_y', '%s..x', 'x--%s', '%%%s', 'x.%s.y', '(%s)',
          'x+%s'],
}
CHARS = {'l': universe.ref.LOWER, 'u': universe.ref.UPPER,
         'd': universe.ref.DIGIT}
ORDERS = ['a1b2', '1a2b', 'ab12', '12ab', 'a12b', '1ab2', 'abc1', '1abc']
ORDERS2 = ['aB1%', 'B1%a', '1%aB', '%aB1', 'Ba%1', '1B%a', 'a%1B', '%1aB']


def rng(tier):
    q = tier == 'quick'
    return {
        'mcns': (2, 3, 4, 5) if q else (2, 3, 4, 5, 6, 8),
        'lens': (list(range(1, 13)) + [50]) if q else
        (list(range(1, 21)) + [50, 99, 100, 101]),
        'lmax': 5 if q else 6,
        'orders': 6 if q else 8,
        'kmul': 2 if q else 3,
    }


def words(c, n, k):
    """k distinct words of class c, length n (None: not that many)."""
    w = universe.words(c, min(n, 3), k)
    if len(w) < k:
        return None
    return [CHARS[c][3] * (n - len(x)) + x for x in w]


def tasks(tier):
    out = []
    for ctx in C:
        for c in 'lud':
            for f in FRAMES[c]:
                out.append(('FIX', tier, ctx, c, f))
                out.append(('WILD', tier, ctx, c, f))
            out.append(('NOISE', tier, ctx, c))
        out.append(('MIX', tier, ctx))
        for c in 'lud':
            out.append(('SIZE', tier, ctx, c))
    for pair in range(len(PAIRS)):
        out.append(('PAIR', tier, pair))
    return out


PAIRS = [(H + '/%s/%s', 'path'), (H + '/%s/%s/', 'path'),
         (H + '/%s?k=%s', 'q'), (H + '/x?k=%s&j=%s', 'q'), (H + '/%s#%s', 'f'),
         (H + '/x?k=%s#%s', 'f'), (H + '/%s/x/%s.html', 'path'),
         (H + '/%s-1/%s', 'path')]


def literal_with(text, subst):
    """Literal pattern of a text which holds placeholder chars."""
    out = ''
    buf = ''
    for ch in text:
        if ch in subst:
            out += ref.literal(buf) + subst[ch]
            buf = ''
        else:
            buf += ch
    return out + ref.literal(buf)


def expected(fmt, rules):
    marks = ['\ue000', '\ue001'][:len(rules)]
    subst = dict(zip(marks, rules))
    url = fmt % tuple(marks)
    path, query, fragment = ref.split_url(url)
    s = '/' + '/'.join(literal_with(p, subst) for p in path.split('/')[1:])
    if query is not None:
        keys, values = ref.parse_query(query)
        s += '[\\?]' + '&'.join(ref.key_text(k) + literal_with(v, subst)
                                for k, v in zip(keys, values))
    if fragment is not None:
        s += '#' + literal_with(fragment, subst)
    return s


def fixed(c, n):
    return '[%s]' % ref.rule(c) + ('' if n == 1 else '{%d}' % n)


def splittable(fmt_piece, c, n, mcn):
    """The documented run-wise generalisation applies: few runs, or the
    mixed view does not merge at least mcn runs."""
    text = fmt_piece % (CHARS[c][0] * n,)
    rs = ref.runs(text)
    if len(rs) <= 3:
        return True
    merged, last = 0, None
    for k, _ in rs:
        m = k in 'lud%'
        if not (m and last):
            merged += 1
        last = m
    return len(rs) - merged < mcn


def cases(task):
    kind, tier = task[0], task[1]
    r = rng(tier)
    if kind == 'FIX':
        _, _, ctx, c, f = task
        fmt = C[ctx].replace('%s', f)
        if ref.try_parse(fmt % (CHARS[c][0],)) is None:
            return
        for mcn in r['mcns']:
            for n in r['lens']:
                if not splittable(f, c, n, mcn):
                    continue
                for k in range(mcn, r['kmul'] * mcn + 1):
                    ws = words(c, n, k)
                    if ws is None:
                        continue
                    yield {'mcn': mcn, 'urls': [fmt % (w,) for w in ws],
                           'expect': [expected(fmt, [fixed(c, n)])]}
    elif kind == 'WILD':
        _, _, ctx, c, f = task
        fmt = C[ctx].replace('%s', f)
        if ref.try_parse(fmt % (CHARS[c][0],)) is None:
            return
        for mcn in r['mcns']:
            if not splittable(f, c, 1, mcn):
                continue
            for m in range(mcn, r['lmax'] + 1):
                for ls in itertools.combinations(range(1, r['lmax'] + 1), m):
                    for per in (1, 3):
                        urls = []
                        for n in ls:
                            urls += [fmt % (w,) for w in words(c, n, per)]
                        yield {'mcn': mcn, 'urls': urls,
                               'expect': [expected(fmt, ['[%s]+'
                                                         % ref.rule(c)])]}
    elif kind == 'NOISE':
        _, _, ctx, c = task
        fmt = C[ctx]
        for mcn in r['mcns']:
            if mcn < 3:
                continue
            for n in r['lens'][:10]:
                for o in r['lens'][:10]:
                    if o == n:
                        continue
                    for k in (mcn, mcn + 1, 2 * mcn):
                        ws = words(c, n, k)
                        if ws is None:
                            continue
                        out = fmt % (words(c, o, 1)[0],)
                        if ref.try_parse(out) is None:
                            continue
                        yield {'mcn': mcn,
                               'urls': [fmt % (w,) for w in ws] + [out],
                               'expect': [expected(fmt, [fixed(c, n)]),
                                          ref.parse(out).literal_pattern]}
    elif kind == 'MIX':
        _, _, ctx = task
        fmt = C[ctx]
        for orders in (ORDERS[:r['orders']], ORDERS2[:r['orders']]):
            for mcn in r['mcns']:
                for m in range(mcn, len(orders) + 1):
                    for ws in itertools.combinations(orders, m):
                        n = len(ws[0])
                        yield {'mcn': mcn, 'urls': [fmt % (w,) for w in ws],
                               'expect': [expected(fmt, [
                                   '[%s]{%d}' % (ref.fuzzy(ws[0]), n)])]}
        for mcn in (2, 3):
            for ws in (['aB', 'Ba'], ['aBB', 'BBa', 'BaB'],
                       ['ab1', '1ab', 'a1b'], ['%1', '1%'],
                       ['%1%', '1%%', '%%1']):
                if len(ws) >= mcn:
                    yield {'mcn': mcn, 'urls': [fmt % (w,) for w in ws],
                           'expect': [expected(fmt, ['[%s]{%d}' % (
                               ref.fuzzy(ws[0]), len(ws[0]))])]}
    elif kind == 'SIZE':
        _, _, ctx, c = task
        for f in FRAMES[c] if ctx in ('path', 'query') else FRAMES[c][:2]:
            fmt = C[ctx].replace('%s', f)
            if ref.try_parse(fmt % (CHARS[c][0],)) is None or \
                    not splittable(f, c, 1, 3):
                continue
            wild = '[%s]+' % ref.rule(c)
            for n in scale.steps(tier):
                # one length
                ws = words(c, n, 3)
                yield {'mcn': 3, 'urls': [fmt % (w,) for w in ws],
                       'expect': [expected(fmt, [fixed(c, n)])]}
                # neighbouring and distant lengths
                for ls in ((n, n + 1, n + 2), (1, n + 1, 2 * n + 1)):
                    for per in (1, 3):
                        yield {'mcn': 3, 'urls': [
                            fmt % (w,) for k in ls for w in words(c, k, per)],
                            'expect': [expected(fmt, [wild])]}
                # the noise left alone
                if f == '%s':
                    for o in (n + 1, n + 7, 2 * n + 9, 1 if n > 1 else 2):
                        out = fmt % (words(c, o, 1)[0],)
                        yield {'mcn': 3,
                               'urls': [fmt % (w,) for w in words(c, n, 4)] +
                               [out],
                               'expect': [expected(fmt, [fixed(c, n)]),
                                          ref.parse(out).literal_pattern]}
                # the population, and the threshold
                for mcn in sorted({2, 3, max(2, min(n, 70))}):
                    if n < mcn or f != '%s' and mcn > 5:
                        continue
                    ws = words(c, 3, n)
                    if ws is not None:
                        yield {'mcn': mcn, 'urls': [fmt % (w,) for w in ws],
                               'expect': [expected(fmt, [fixed(c, 3)])]}
                    if n <= 66:
                        yield {'mcn': mcn, 'urls': [
                            fmt % (words(c, k, 1)[0],)
                            for k in range(1, n + 1)],
                            'expect': [expected(fmt, [wild])]}
    elif kind == 'PAIR':
        fmt = PAIRS[task[2]][0]
        for mcn in r['mcns']:
            for c1, c2 in itertools.product('lud', repeat=2):
                for n1, n2 in itertools.product((1, 2, 10), repeat=2):
                    for k in (mcn, mcn + 1, 2 * mcn):
                        a, b = words(c1, n1, k), words(c2, n2, k)
                        if a is None or b is None:
                            continue
                        exp = [expected(fmt, [fixed(c1, n1), fixed(c2, n2)])]
                        yield {'mcn': mcn, 'urls': [fmt % p
                                                    for p in zip(a, b)],
                               'expect': exp}
                        if k <= mcn + 1:
                            yield {'mcn': mcn,
                                   'urls': [fmt % p for p in
                                            itertools.product(a, b)],
                                   'expect': exp}


def evaluate(case, st):
    urls, mcn = case['urls'], case['mcn']
    clusters = impl.cluster(urls, mcn)
    st.states += 1
    st.transitions += len(urls) + 1
    got = sorted(c.pattern for c in clusters)
    st.outcome(got)
    st.traces += 1
    bad = []
    if got != sorted(case['expect']):
        bad.append('%d URLs %r with min_cluster_num %d became %r, expected %r'
                   % (len(urls), urls[:6], mcn, got[:5],
                      sorted(case['expect'])))
    else:
        for c in clusters:
            want = len(urls) if len(case['expect']) == 1 else (
                1 if c.pattern == case['expect'][1] else len(urls) - 1)
            if c.count != want or len(c.members) != want:
                bad.append('cluster %r holds %d of the %d URLs (count %d)'
                           % (c.pattern, len(c.members), want, c.count))
    return bad
