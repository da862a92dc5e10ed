"""C10: the best match is the most specific one, in any load order."""
import itertools

from .. import forms, groups, impl, lang, ref, scale, universe

ID = 'C10'
BOUNDS = {
    'quick': 'for every text of <= 3..4 characters over 8 alphabets and 36 '
             'realistic shapes at 6 URL positions: all its generated forms '
             'matched together in 3 load orders, all pairs of results '
             'compared both ways, every strict language inclusion (decided '
             'exactly on automata) respected; products of forms over 2-3 '
             'components, all pairs; the same for texts of 14 kinds and for '
             'URLs of as many levels or keys, sizes 1..21 and 33 more up to '
             '257',
    'thorough': '12 alphabets (<= 3..5 characters), all 11 positions, 5 load '
                'orders, wider products',
}
ASSUMPTIONS = ['inclusion is judged between the generated forms of one URL']
CASE_SECONDS = 200

PRODUCTS = [
    ('/%s/%s', ['a1', 'a'], ['a1', 'b', 'a.b', 'a-b.c']),
    ('/%s/%s/', ['a1', 'a-b'], ['a', 'a1']),
    ('/%s?k=%s', ['a1', 'a.b'], ['a', 'a1', 'a-b']),
    ('/x?i=%s&j=%s', ['a', 'a1'], ['1', 'a-b']),
    ('/%s#%s', ['a1', 'a.mp3'], ['a', 'a1']),
    ('/%s?%s', ['a.b'], ['a1', 'a-b']),
    ('/%s/%s/%s', ['a', '1'], ['a', 'a1'], ['a', 'a.b']),
    ('/%s/%s?k=%s', ['a'], ['a', 'a.b'], ['1', 'a1']),
    ('/%s?k=%s#%s', ['a'], ['1', 'a1'], ['a', '1']),
]


def tasks(tier):
    q = tier == 'quick'
    ctxs = ['path', 'mid', 'dir', 'query', 'keyless', 'frag'] if q else \
        list(universe.CONTEXTS)
    out = []
    for i in range(len(PRODUCTS)):
        for t in itertools.product(*PRODUCTS[i][1:]):
            out.append(('PROD', i, list(t), 6 if q else 10))
    for ctx in ctxs:
        for a, n in (groups.QUICK if q else groups.THOROUGH):
            ts = groups.texts(a, n)
            for lo in range(0, len(ts), 24):
                out.append(('TEXT', ctx, a, n, lo, 3 if q else 5))
    text, deep, crowd = scale.match_tasks(tier)
    return out + text + deep


def cases(task):
    if task[0] == 'PROD':
        yield {'kind': 'prod', 'i': task[1], 'texts': task[2], 'cap': task[3],
               'orders': 3}
    elif task[0] == 'SCALE':
        for name, ctx, ts in task[1]:
            for t in ts:
                yield {'kind': 'text', 'ctx': ctx, 'text': t, 'orders': 2,
                       'maxparts': 3, 'cap': 40 if len(t) < 34 else 12}
    elif task[0] == 'DEEP':
        for u in task[1]:
            yield {'kind': 'deep', 'url': u, 'orders': 3}
    else:
        _, ctx, a, n, lo, orders = task
        for t in groups.texts(a, n)[lo:lo + 24]:
            yield {'kind': 'text', 'ctx': ctx, 'text': t, 'orders': orders}


def orders(xs, n):
    out = [xs, xs[::-1], xs[1::2] + xs[0::2]]
    k = len(xs) // 2
    out += [xs[k:] + xs[:k], sorted(xs)]
    return out[:n]


def split_head(comp):
    """(head, dots, rest) of a last-dot form whose head may hold dots too:
    there a text has exactly one decomposition, other than in the regex."""
    ts = ref.tokens_component(comp)
    if len(ts) > 1 and len(ts[0][1]) > 1 and '.' in ts[0][1]:
        return ts[0][0], ts[1][0], ''.join(t[0] for t in ts[2:])
    return None


def included(p, q):
    a, b = split_head(p), split_head(q)
    if a and b:
        return all(lang.included(x, y) for x, y in zip(a, b))
    return lang.included(p, q)


def narrower(p, q):
    return all(included(x, y) for x, y in zip(p, q)) and \
        not all(included(y, x) for x, y in zip(p, q))


def evaluate(case, st):
    bad = []
    if case['kind'] == 'deep':
        url = case['url']
    elif case['kind'] == 'text':
        url = universe.CONTEXTS[case['ctx']] % case['text']
    else:
        url = universe.H + PRODUCTS[case['i']][0] % tuple(case['texts'])
    p = ref.try_parse(url)
    if p is None:
        return bad
    if case['kind'] == 'deep':
        comps = scale.deep_forms(url)[0]
    else:
        n = len(p.levels)
        per = []
        cap = case.get('cap', 90)
        for i, c in enumerate(p.components):
            fs = forms.component_forms(c, i == n - 1, case.get('maxparts', 6))
            if case['kind'] == 'text' and c != case['text']:
                fs = fs[:1]
            elif len(fs) > cap:
                k = len(fs) / float(cap)
                fs = [fs[int(j * k)] for j in range(cap)]
            per.append(fs)
        combos = list(itertools.product(*per))
        comps = {forms.url_pattern(p, c): c for c in combos}
    pats = list(comps)
    first = None
    for order in orders(pats, case['orders']):
        nodes = impl.matcher(order).match(url)
        st.transitions += len(order) + 1
        st.states += 1
        ranked = sorted(nodes, reverse=True)
        names = [x.meta for x in ranked]
        if first is None:
            first = names
            for i, j in itertools.combinations(range(len(ranked)), 2):
                hi, lo = ranked[i], ranked[j]
                if not hi > lo or lo > hi or hi < lo or not lo < hi:
                    bad.append('%s: %s and %s are not strictly ordered as '
                               'sorted' % (url, hi.meta, lo.meta))
                y, x = comps[lo.meta], comps[hi.meta]
                if narrower(y, x):
                    bad.append('%s: %s ranks above the narrower %s'
                               % (url, hi.meta, lo.meta))
                st.incr('pairs')
                if len(bad) > 3:
                    return bad
            lit = p.literal_pattern
            if lit in names and names[0] != lit:
                bad.append('%s: the literal pattern %s is not the best match '
                           'but %s' % (url, lit, names[0]))
        elif names != first:
            d = [i for i in range(min(len(names), len(first)))
                 if names[i] != first[i]]
            bad.append('%s: the ranking depends on the load order (%s)' % (
                url, [first[d[0]], names[d[0]]] if d else 'length'))
    st.traces += 1
    st.outcome(first)
    return bad
