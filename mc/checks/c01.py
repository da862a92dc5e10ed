"""C01: generated patterns match back the URLs they were generated from."""
from .. import impl, universe

ID = 'C01'
BOUNDS = {
    'quick': 'all subsets of every standard universe (mc/universe.py: 31 '
             'component shapes, 11 URL positions, each of the 32 signs, 17 '
             'grids of 2-3 varying components, 6 block universes up to ~25 '
             'URLs), min_cluster_num 2..5; all triples of same-bucket '
             'components of length <= 3 over 6 three-letter alphabets; '
             'pairs of shapes of <= 4 characters with siblings; every '
             'population (0, 1, 3, 4 URLs) of 6 values in 8 layouts; size '
             'sweeps',
    'thorough': 'the same with 10-item universes, 8-item universes at every '
                'position, min_cluster_num 2..7 and triples/4-sets over 10 '
                'alphabets up to length 5',
}
ASSUMPTIONS = ['texts outside the enumerated alphabets behave like the '
               'enumerated ones of the same character classes']
tasks = universe.cluster_tasks
cases = universe.cluster_cases


def evaluate(case, st):
    bad = []
    urls, mcn = case['urls'], case['mcn']
    clusters = impl.cluster(urls, mcn)
    st.states += 1
    st.transitions += len(urls) + 1
    home = {}
    for c in clusters:
        for u in c.members:
            home[u] = c.pattern
    m = impl.PatternMatcher()
    for c in clusters:
        try:
            m.load(c.pattern, meta=c.pattern)
        except Exception as e:
            bad.append('generated pattern %r of %s cannot be loaded: %r'
                       % (c.pattern, sorted(c.members)[:4], e))
    if bad:
        return bad
    for u in urls:
        if u not in home:
            bad.append('%s is in no cluster' % u)
            continue
        got = [n.meta for n in m.match(u)]
        st.transitions += 1
        if home[u] not in got:
            bad.append('%s is not matched by its own pattern %r (matched: %r)'
                       % (u, home[u], got))
    st.traces += 1
    st.outcome(sorted(home.values()))
    return bad
