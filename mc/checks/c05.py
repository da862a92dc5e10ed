"""C05: min_cluster_num is the least size of a generalised cluster; clusters
are stable under re-clustering."""
from .. import impl, ref, universe

ID = 'C05'
BOUNDS = {
    'quick': 'all subsets of the standard universes (see C01), '
             'min_cluster_num 2..5; plus every population 1..12 of same/'
             'different length words for min_cluster_num 2..12',
    'thorough': 'as C01 thorough; populations 1..24, min_cluster_num 2..24',
}
ASSUMPTIONS = ['min_cluster_num >= 2 (1 is refused by the algorithm and '
               'outside the property)']

SHAPES = ['/%s', '/x/%s.html', '/%s/x', '/x?k=%s', '/x#%s', '/a1-%s', '/%s-1a',
          '/%s/']


def tasks(tier):
    q = tier == 'quick'
    n = 12 if q else 24
    out = [('N', s, k, n) for s in range(len(SHAPES)) for k in range(1, n + 1)]
    return out + [('C', t) for t in universe.cluster_tasks(tier)]


def cases(task):
    if task[0] == 'C':
        for c in universe.cluster_cases(task[1]):
            yield c
    else:
        _, s, k, n = task
        same = universe.words('l', 2, k)
        diff = ['a' * i for i in range(1, k + 1)]
        half = universe.words('l', 1, k // 2) + \
            universe.words('l', 2, k - k // 2)
        for mcn in range(2, n + 1):
            for ws in (same, diff, half):
                yield {'mcn': mcn, 'urls': ['http://h' + SHAPES[s] % w
                                            for w in ws]}


def evaluate(case, st):
    bad = []
    urls, mcn = case['urls'], case['mcn']
    clusters = impl.cluster(urls, mcn)
    st.states += 1
    st.transitions += len(urls) + 1
    per = {}
    for u in urls:
        p = ref.parse(u)
        per.setdefault(p.bucket, set()).add(p.text)
    for c in clusters:
        pm = ref.PatternModel(c.pattern)
        texts = set(ref.parse(u).text for u in c.members)
        if pm.literal:
            if len(texts) != 1:
                bad.append('literal pattern %r for %d URLs %r'
                           % (c.pattern, len(texts), sorted(texts)[:4]))
        else:
            if len(texts) < mcn:
                bad.append('generalised pattern %r for only %d URLs %r with '
                           'min_cluster_num %d' % (c.pattern, len(texts),
                                                   sorted(texts), mcn))
            if len(per.get(pm.bucket, ())) < mcn:
                bad.append('%r generalised although only %d such URLs exist'
                           % (c.pattern, len(per.get(pm.bucket, ()))))
        if len(clusters) > 1:
            again = impl.canon(impl.cluster(c.members, mcn))
            st.transitions += len(c.members) + 1
            if again != impl.canon([c]):
                bad.append('cluster %r is not stable: alone its members %r '
                           'become %r' % (c.pattern, sorted(c.members)[:6],
                                          again[:4]))
    st.traces += 1
    st.outcome(sorted(c.pattern for c in clusters))
    return bad
