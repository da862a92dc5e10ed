"""One-dimensional sweeps of size: the small behaviours again at every length,
depth, number of keys, runs, URLs, lengths, clusters and patterns of STEPS, so
that a limit or a number with several digits anywhere is crossed."""
import itertools

from . import forms, groups, ref, universe

H = universe.H


def steps(tier, cap=10 ** 9):
    s = list(range(1, 22)) + [24, 25, 31, 32, 33, 40, 47, 48, 49, 50, 51, 63,
                              64, 65, 66, 80, 99, 100, 101, 110, 127, 128,
                              129, 150, 199, 200, 201, 255, 256, 257]
    if tier != 'quick':
        s = list(range(1, 132)) + [150, 199, 200, 201, 255, 256, 257, 300,
                                   499, 500, 501, 512, 513, 999, 1000, 1001,
                                   1024, 1025]
    return [n for n in s if n <= cap]


def alt(a, n, shift=0):
    """n characters, alternating over the texts of a."""
    return ''.join(a[(i + shift) % len(a)] for i in range(n))


def values(n):
    """name -> component texts of size n (all of one bucket)."""
    out = {
        'fixed': ['a' * (n - 1) + c for c in 'bcde'] + ['a' * n + 'b',
                                                        'a' * n + 'c'],
        'wild': ['a' * (n + i) for i in range(5)],
        'far': [c * n for c in '123'] + [c * (n + 7) for c in '123'],
        'one': ['B' * n, 'C' * n, 'D' * n, 'B' * (n + 1)],
        'sign': [c + '-' * n + 'b' for c in 'abcd'] + ['a' + '-' * (n + 1)
                                                       + 'b'],
        'onlysign': ['.' * n, '.' * (n + 1), '.' * (n + 2)],
        'run2': ['a' * n + c for c in '1234'] + ['a' * (n + 1) + '1',
                                                 '1' + 'a' * n],
        'sep': [c * n + '_' + d for c in 'ab' for d in 'cde'],
        'html': [c * n + '-1.html' for c in 'abcd'] + ['-a1' + 'a' * n
                                                       + '.html'],
        'ext': ['a-%s.%s' % (c, 'x' * n) for c in 'bcd'] +
               ['-ab.' + 'x' * n, '-ab.' + 'y' * n],
        'pct': ['%' * n + c for c in 'ABC'] + ['A' + '%' * n],
    }
    if n >= 3:
        out['mix'] = [alt('a1', n), alt('a1', n, 1), 'a1' + 'a' * (n - 2),
                      'a' * (n - 1) + '1', '1' + 'b' * (n - 1)]
        out['runs'] = [alt('a1B', n)[:-1] + c for c in (
            'xyz' if n % 3 == 1 else '456' if n % 3 == 2 else 'XYZ')]
        out['segs'] = ['-'.join('abc'[(i + s) % 3] for i in range(n))
                       for s in (0, 1, 2)] + ['-'.join('a' * n)]
        out['mixsegs'] = ['_'.join(alt('a1', 3, s) for i in range(
            max(2, n // 4))) for s in (0, 1)] + \
            ['_'.join(['a1'] * max(2, n // 4)), 'a1_' * 2 + 'b2b']
    return out


CTX = ('path', 'mid', 'query', 'frag')


def url_sets(tier):
    """(name, urls, mcns)"""
    q = tier == 'quick'
    for n in steps(tier):
        for name, ts in values(n).items():
            if name in ('runs', 'segs', 'mixsegs', 'mix') and \
                    n > (66 if q else 150):
                continue
            for ctx in CTX if n < 34 or not q else ('path', 'query'):
                us = [universe.CONTEXTS[ctx] % t for t in ts]
                yield '%s:%s%d' % (ctx, name, n), us, (2, 3)
    for n in steps(tier, 66 if q else 150):
        base = [['x'] * n for _ in range(4)]
        for where in sorted({0, n // 2, n - 1}):
            us = [list(b) for b in base]
            for i, c in enumerate('abcd'):
                us[i][where] = c
            yield 'depth%d@%d' % (n, where), [H + '/' + '/'.join(u)
                                              for u in us], (2, 3)
            yield 'depth2%d@%d' % (n, where), [H + '/' + '/'.join(u)
                                               for u in us[:2]], (2, 3)
            for i, c in enumerate(('a', '1', 'a1', 'A')):
                us[i][where] = c
            yield 'spaces%d@%d' % (n, where), [H + '/' + '/'.join(u)
                                               for u in us], (2,)
        yield 'depthall%d' % n, [H + '/' + '/'.join([c] * n)
                                 for c in 'abcd'], (3,)
        yield 'dir%d' % n, [H + '/' + '/'.join(['x'] * (n - 1) + [c]) + '/'
                            for c in 'abcd'], (3,)
        ks = ['k' * (i // 9 + 1) + str(i % 9) for i in range(n)]
        for where in sorted({0, n // 2, n - 1}):
            yield 'keys%d@%d' % (n, where), [
                H + '/x?' + '&'.join('%s=%s' % (k, c if i == where else '0')
                                     for i, k in enumerate(ks))
                for c in '1234'], (3,)
            yield 'keys2%d@%d' % (n, where), [
                H + '/x?' + '&'.join('%s=%s' % (k, c if i == where else '0')
                                     for i, k in enumerate(ks))
                for c in '12'], (3,)
            yield 'keyspaces%d@%d' % (n, where), [
                H + '/x?' + '&'.join('%s=%s' % (k, c if i == where else '0')
                                     for i, k in enumerate(ks))
                for c in ('1', 'a', 'a1')], (2,)
        yield 'keysall%d' % n, [H + '/x?' + '&'.join(
            '%s=%s' % (k, c) for k in ks) for c in 'abcd'], (3,)
        yield 'samekey%d' % n, [H + '/x?' + '&'.join(['k=' + c] * n)
                                for c in 'abc'], (3,)
        yield 'bare%d' % n, [H + '/x?' + '&'.join(ks) + '&z=' + c
                             for c in 'abc'], (3,)
    for n in steps(tier):
        yield 'key%d' % n, [H + '/x?%s=%s' % ('k' * n, c)
                            for c in 'abc'], (3,)
        yield 'keysign%d' % n, [H + '/x?k%s=%s' % ('_' * n, c)
                                for c in 'abc'], (3,)
        w = universe.words('l', 3, n + 1)
        mcns = sorted({2, 3, n // 2 + 1, n, n + 1} - {1})
        yield 'pop%d' % n, [H + '/' + x for x in w[:n]], mcns
        yield 'pop1%d' % n, [H + '/' + x for x in w[:n]] + [
            H + '/aaaa', H + '/bbbbb'], (3,)
        yield 'popq%d' % n, [H + '/x?k=' + x for x in w[:n]], (3,)
        yield 'poptree%d' % n, [H + '/%s/%s' % (w[i // 3], 'abc'[i % 3])
                                for i in range(n)], (2, 3)
        yield 'popwide%d' % n, [H + '/%s/%s' % ('abc'[i % 3], w[i // 3])
                                for i in range(n)], (3,)
        yield 'poprun%d' % n, [H + '/%s-1.html' % x for x in w[:n]], (3,)
        if n <= 66:
            yield 'lens%d' % n, [H + '/' + 'a' * (i + 1)
                                 for i in range(n)], mcns
            yield 'lens2%d' % n, [H + '/' + c * (i + 1) for i in range(n)
                                  for c in 'ab'], (3,)
            yield 'digests%d' % n, [H + '/' + ''.join(
                c for j, c in enumerate('a1A-_.,') if (i + 1) >> j & 1)
                for i in range(n)], (2,)
            # many clusters side by side in one digest
            yield 'many%d' % n, [H + '/%s/%s' % ('x' * (i + 1), c)
                                 for i in range(n) for c in 'abc'], (3,)


def tasks(tier):
    out = []
    for name, us, mcns in url_sets(tier):
        us = [u for u in dict.fromkeys(us) if ref.try_parse(u)]
        if us:
            out.append((name, us, mcns))
    big = [t for t in out if len(t[1]) > 30]
    small = [t for t in out if len(t[1]) <= 30]
    return [('Z', small[i:i + 12]) for i in range(0, len(small), 12)] + \
        [('Z', [t]) for t in big]


def cases(task):
    for name, us, mcns in task[1]:
        for mcn in mcns:
            yield {'universe': name, 'mcn': mcn, 'urls': us}


# ---- the same for the matching checks ------------------------------------


def text_groups(tier):
    """(name, ctx, texts): the texts of neighbouring sizes."""
    q = tier == 'quick'
    for n in steps(tier):
        nxt = values(n + 1)
        for name, ts in values(n).items():
            if n > (66 if q else 150) and name in ('runs', 'segs', 'mixsegs',
                                                   'mix'):
                continue
            for ctx in ('path', 'query') if n < 34 or not q else ('path',):
                yield ('%s:%s%d' % (ctx, name, n), ctx,
                       list(dict.fromkeys(ts + nxt[name])))


def member_forms(ctx, ts):
    """[(url, parsed, forms)]"""
    out = []
    for t in dict.fromkeys(ts):
        u = universe.CONTEXTS[ctx] % t
        p = ref.try_parse(u)
        if p is not None:
            out.append((u, p, frozenset(groups.one_forms(p, t, 3))))
    return out


def deep_urls(tier):
    """(url, component forms fitting it, forms of its shape not fitting) for
    many levels and keys."""
    for n in steps(tier, 66 if tier == 'quick' else 150):
        for u in (H + '/' + '/'.join(['a'] * n),
                  H + '/' + '/'.join(['a'] * n) + '/',
                  H + '/x?' + '&'.join('k%s=a' % ('k' * i)
                                       for i in range(n))):
            yield u, deep_forms(u)


def deep_forms(u):
    """(fitting, not fitting): pattern -> components"""
    p = ref.parse(u)
    m = len(p.components)
    lit = [ref.literal(c) for c in p.components]
    full = [i for i in range(m) if p.components[i]]
    fit, bad = [lit], []
    for x in ('[a-z]', '[a-z]+'):
        fit.append([x if i in full else '' for i in range(m)])
    for i in sorted({full[0], full[len(full) // 2], full[-1]}):
        for x, good in (('[a-z]', True), ('[a-z]+', True),
                        ('b', False), ('[a-z]{2}', False)):
            c = list(lit)
            c[i] = x
            (fit if good else bad).append(c)
    return ({forms.url_pattern(p, c): c for c in fit},
            {forms.url_pattern(p, c): c for c in bad})


def crowds(tier):
    """(patterns, [(url, those that fit)]): many patterns in one bucket."""
    for n in steps(tier):
        w = universe.words('l', 3, n)
        for fmt, pf in ((H + '/%s', '/%s'), (H + '/x?k=%s', '/x[\\?]k=%s'),
                        (H + '/%s/y', '/%s/y')):
            extra = [pf % '[a-z]{3}', pf % '[a-z]+']
            yield (extra[:1] + [pf % x for x in w] + extra[1:],
                   [(fmt % x, [pf % x] + extra) for x in w] +
                   [(fmt % 'zzz', extra), (fmt % 'zzzz', extra[1:])])
        if n <= 66:
            # as many lengths
            pats = ['/[a-z]{%d}' % i if i > 1 else '/[a-z]'
                    for i in range(1, n + 1)] + ['/[a-z]+']
            yield pats, [(H + '/' + 'q' * i, [pats[i - 1], pats[-1]])
                         for i in range(1, n + 1)] + \
                [(H + '/' + 'q' * (n + 1), pats[-1:])]
            # as many mixed forms: a literal run and a fixed or wild one
            pats = ['/%s[0-9]{2}' % x for x in w[:n]] + \
                   ['/%s[0-9]+' % x for x in w[:n]] + \
                   ['/[a-z]{3}[0-9]+', '/[0-9a-z]{5}', '/[0-9a-z]+']
            yield pats, [(H + '/%s12' % x, ['/%s[0-9]{2}' % x,
                                            '/%s[0-9]+' % x] + pats[-3:])
                         for x in w[:n]] + \
                [(H + '/%s1' % x, ['/%s[0-9]+' % x, pats[-3], pats[-1]])
                 for x in w[:n]]


def match_tasks(tier):
    """Slices for the matching checks."""
    gs = list(text_groups(tier))
    ds = list(deep_urls(tier))
    cs = list(crowds(tier))
    return [('SCALE', gs[i:i + 6]) for i in range(0, len(gs), 6)], \
        [('DEEP', [u for u, _ in ds[i:i + 6]])
         for i in range(0, len(ds), 6)], \
        [('CROWD', c) for c in cs]
