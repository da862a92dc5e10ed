"""C03: clustering partitions the loaded URLs and conserves their metas."""
import itertools

from .. import impl, ref, scale, universe

ID = 'C03'
BOUNDS = {
    'quick': 'all subsets of the standard universes (see C01); all load '
             'sequences with repetition of length <= 4 over 5 pools of 5 '
             'loads (same text, other host, other meta, no meta, other '
             'structure); all pairs/triples of 23 different structures; 1..257 metas, '
             'repeated loads and URLs',
    'thorough': 'as C01 thorough; load sequences of length <= 6; all '
                '4-subsets of the structures',
}
ASSUMPTIONS = ['metas are hashable']

POOLS = [
    [('http://h/a', 'm1'), ('http://h/a', 'm2'), ('http://g/a', 'm1'),
     ('http://h/b', 'm1'), ('http://h/a', None)],
    [('http://h/a', 1), ('http://h/aa', 1), ('https://x:1/b', 0),
     ('http://h/1', ''), ('http://h//a', 2)],
    [('http://h/a/b', 'x'), ('http://h/a//b', 'y'), ('http://h/a/c', 'x'),
     ('http://h/b/b', 'z'), ('http://h/a/b?', 'x')],
    [('http://h/x?k=1', 'p'), ('http://h/x?k=2', 'q'), ('http://h/x;s?k=1', 'r'),
     ('http://h/x?k=1#', 'p'), ('http://h/y?k=1', 'p')],
    [('http://h/a-1.html', 'p'), ('http://h/b-2.html', 'p'),
     ('http://h/c-33.html', 'q'), ('http://h/1-c.html', 'r'),
     ('http://h/a-1.htm', 's')],
]


def tasks(tier):
    q = tier == 'quick'
    out = [('C', t) for t in universe.cluster_tasks(tier)]
    for i in range(len(POOLS)):
        for mcn in (2, 3):
            for first in range(5):
                out.append(('L', i, mcn, first, 4 if q else 6))
    n = len(universe.STRUCTURES)
    for i in range(n):
        out.append(('X', i, 3 if q else 4))
    for k in scale.steps(tier):
        out.append(('N', k))
    return out


def cases(task):
    if task[0] == 'C':
        for c in universe.cluster_cases(task[1]):
            yield {'mcn': c['mcn'], 'loads': [[u, u] for u in c['urls']]}
    elif task[0] == 'L':
        _, i, mcn, first, n = task
        for k in range(0, n):
            for seq in itertools.product(POOLS[i], repeat=k):
                yield {'mcn': mcn,
                       'loads': [list(POOLS[i][first])] + [list(s) for s in
                                                           seq]}
    elif task[0] == 'N':
        # one URL with n metas, loaded n times with one meta, n URLs loaded
        # twice with and without a meta
        n = task[1]
        us = ['http://h/' + w for w in universe.words('l', 3, n)]
        for loads in ([['http://h/a', i] for i in range(n)],
                      [['http://h/a', 0]] * n,
                      [['http://h/a', None]] * n + [['http://h/a', 1]],
                      [[u, i % 2] for i in range(n)
                       for u in ('http://h/a', 'http://h/b', 'http://h/c')],
                      [[u, None] for u in us] + [[u, u] for u in us],
                      [[u, 'm'] for u in us] + [[u, 'm'] for u in us[::-1]]):
            yield {'mcn': 3, 'loads': loads}
    else:
        _, i, n = task
        S = universe.STRUCTURES
        for k in range(0, n):
            for rest in itertools.combinations(S[i + 1:], k):
                for mcn in (2, 3):
                    yield {'mcn': mcn, 'loads': [[u, u] for u in
                                                 (S[i],) + rest]}


def evaluate(case, st):
    bad = []
    mcn = case['mcn']
    pm = impl.PatternMaker(impl.config(mcn))
    model = {}     # text -> set of metas
    bucket = {}
    for url, meta in case['loads']:
        p = ref.parse(url)
        if meta is None:
            r = pm.load(url)
        else:
            r = pm.load(url, meta=meta)
        st.transitions += 1
        is_new = p.text not in model
        if bool(r[1]) != is_new:
            bad.append('load(%r) said is_new=%r, expected %r'
                       % (url, r[1], is_new))
        model.setdefault(p.text, set())
        bucket[p.text] = p
        if meta is not None:
            model[p.text].add(meta)
    st.states += 1
    st.transitions += 1
    left = dict(model)
    total = 0
    for url_meta, root in pm.make():
        c = impl.read_cluster(url_meta, root)
        texts = []
        for nodes in impl.dump_tree(root):
            comps = [n.piece for n in nodes[1:]]
            s = impl.parse_utils.pack(url_meta, comps)
            texts.append((s, nodes[-1].meta))
        if len(set(t for t, _ in texts)) != len(texts):
            bad.append('a URL occurs twice in cluster %r' % c.pattern)
        for s, metas in texts:
            hit = [t for t in left if bucket[t].literal_pattern == s]
            if not hit:
                bad.append('cluster %r contains %r which was not loaded or '
                           'is in two clusters' % (c.pattern, s))
                continue
            t = hit[0]
            want = left.pop(t)
            got = list(metas) if metas is not None else []
            if sorted(map(repr, got)) != sorted(map(repr, want)):
                bad.append('metas of %r are %r, loaded were %r'
                           % (t, got, sorted(map(repr, want))))
        if c.count != len(texts):
            bad.append('cluster %r reports count %r but has %d distinct URLs'
                       % (c.pattern, c.count, len(texts)))
        total += c.count
    if left:
        bad.append('lost URLs: %r' % sorted(left)[:5])
    if total != len(model):
        bad.append('counts sum to %d, distinct URLs loaded: %d'
                   % (total, len(model)))
    st.traces += 1
    st.outcome((total, sorted(model)))
    return bad
