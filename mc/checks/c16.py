"""C16: working per fuzzy digest equals working all-in-one."""
import itertools

from .. import forms, impl, ref, scale, universe

ID = 'C16'
BOUNDS = {
    'quick': 'all <= 4-subsets of 23 structure-varied URLs, all subsets of 9 '
             'mixed pools (8-9 items of several digests), all subsets of the '
             'standard block universes and 6-item shape universes, '
             'min_cluster_num 2,3: low-level makers per digest, in 2 orders, '
             'and each digest alone, against the all-in-one maker; the '
             'patterns of the result and their generalisations distributed '
             'over low-level matchers against the all-in-one matcher; the size '
             'sweep',
    'thorough': '5-subsets, 10-item pools, min_cluster_num 2..4',
}
ASSUMPTIONS = []
CASE_SECONDS = 60

H = universe.H
POOLS = {
    'm1': [H + x for x in ('/a', '/b', '/c', '/1', '/2', '/3', '/a1', '/b2',
                           '/A', '/aA')],
    'm2': [H + x for x in ('/a/1', '/b/1', '/a/2', '/a', '/b', '/a/b', '/b/b',
                           '/1/1', '/a/', '/b/')],
    'm3': [H + x for x in ('/x?k=1', '/x?k=2', '/x?j=1', '/x?j=2', '/x?k=a',
                           '/x?k=b', '/x?k=1&j=1', '/x?j=1&k=1', '/x?1',
                           '/x?2')],
    'm4': [H + x for x in ('/x#1', '/x#2', '/x#a', '/x#b', '/x', '/y', '/x?#1',
                           '/x?#2', '/x?k=#1', '/x?k=#2')],
    'm5': [H + x for x in ('/a.html', '/b.html', '/c.html', '/1.html',
                           '/2.html', '/a1.html', '/b2.html', '/a-b.html',
                           '/b-c.html', '/a.htm')],
    'm6': [H + x for x in ('/a-b', '/b-c', '/a_b', '/b_c', '/a.b', '/b.c',
                           '/a', '/b', '/a%b', '/b%c')],
    'm7': [H + x for x in ('/x?a', '/x?b', '/x?a=', '/x?b=', '/x?a&b', '/x?',
                           '/y?', '/x?a=1', '/x?b=1', '/x?a&b=1')],
    'm8': [H + x for x in ('/a/b/1', '/a/c/2', '/b/b/3', '/a/1/b', '/b/2/c',
                           '/a/b', '/a/c', '/1/2/3', '/4/5/6', '/a/b/')],
    'm9': ['http://g/a', 'http://h/a', 'https://h/b', 'http://h/b;p',
           'http://h/c', 'http://h//c', 'http://g/1', 'http://h/2',
           'http://h/1'],
}


def tasks(tier):
    q = tier == 'quick'
    out = []
    mcns = (2, 3) if q else (2, 3, 4)
    st = universe.STRUCTURES
    for k in range(1, 5 if q else 6):
        for first in range(len(st)):
            out.append(('COMB', k, first))
    for name, urls in POOLS.items():
        n = 9 if q else 10
        for mcn in mcns:
            us = [[u] for u in urls[:n]]
            for lo in range(1, 1 << len(us), 64):
                out.append(('SUB', name, us, mcn, lo,
                            min(1 << len(us), lo + 64)))
    for u in universe.universes(tier, size=6, contexts=False, signs=False):
        items = u.items if u.name.startswith('b_') else u.items[:6]
        for mcn in mcns:
            for lo in range(1, 1 << len(items), 64):
                out.append(('SUB', u.name, items, mcn, lo,
                            min(1 << len(items), lo + 64)))
    return out + scale.tasks(tier)


def cases(task):
    if task[0] == 'COMB':
        _, k, first = task
        st = universe.STRUCTURES
        for t in itertools.combinations(range(first + 1, len(st)), k - 1):
            yield {'mcn': 2, 'urls': [st[first]] + [st[i] for i in t]}
    elif task[0] == 'Z':
        for c in scale.cases(task):
            yield c
    else:
        for c in universe.subset_cases(task[1:]):
            yield c


def evaluate(case, st):
    bad = []
    urls, mcn = case['urls'], case['mcn']
    cfg = impl.config(mcn)
    pm = impl.load(urls, mcn)
    n_sub = len(list(pm.makers))
    all_in_one = impl.make(pm)
    whole = impl.canon(all_in_one)
    st.states += 1
    st.transitions += len(urls) + 1

    def distribute(seq, cfg=(cfg,)):
        makers = {}
        for u in seq:
            meta, pieces = impl.parse(u)
            d = impl.fuzzy_digest(meta, pieces)
            if d not in makers:
                makers[d] = impl.Maker(meta, *cfg)
            makers[d].load(pieces, meta=u)
        st.transitions += len(seq) + len(makers)
        return makers, impl.canon(
            [impl.read_cluster(m.url_meta, r) for d, m in makers.items()
             for r in m.make()])

    makers, low = distribute(urls)
    if low != whole:
        bad.append('per digest %r, all-in-one %r' % (low[:5], whole[:5]))
    if n_sub != len(makers):
        bad.append('%d digests but %d sub makers' % (len(makers), n_sub))
    _, low = distribute(urls[::-1])
    if low != whole:
        bad.append('per digest (reversed) %r, all-in-one %r' % (
            low[:5], whole[:5]))
    if mcn == 3:                  # the default, without a configuration
        _, low = distribute(urls, ())
        if low != whole:
            bad.append('per digest without configuration %r, all-in-one %r'
                       % (low[:5], whole[:5]))
        got = impl.canon(impl.make(impl.load(urls,
                                             maker=impl.PatternMaker())))
        if got != whole:
            bad.append('without configuration %r, with the default one %r' % (
                got[:5], whole[:5]))
    # each digest alone
    by = {}
    for u in urls:
        by.setdefault(impl.fuzzy_digest(u), []).append(u)
    if len(set(ref.parse(u).bucket for u in urls)) != len(by):
        bad.append('%d digests for %d structures/spaces' % (
            len(by), len(set(ref.parse(u).bucket for u in urls))))
    if len(by) > 1:
        parts = []
        for us in by.values():
            parts += impl.canon(impl.cluster(us, mcn))
            st.transitions += len(us) + 1
        if sorted(parts) != whole:
            bad.append('URLs of other digests change the clusters: %r alone, '
                       '%r together' % (sorted(parts)[:5], whole[:5]))
    # matching
    pats = [c.pattern for c in all_in_one]
    for u in urls[:4]:
        p = ref.parse(u)
        pats.append(forms.url_pattern(
            p, ['[%s]+' % ref.fuzzy(c) if c else '' for c in p.components]))
    m = impl.matcher(pats)
    low = {}
    for x in pats:
        meta, parsed = impl.parse(x)
        d = impl.fuzzy_digest(meta, parsed)
        if d not in low:
            low[d] = impl.Matcher(meta)
        low[d].load(parsed, meta=x)
    for u in urls:
        meta, pieces = impl.parse(u)
        d = impl.fuzzy_digest(meta, pieces)
        st.transitions += 2
        a = sorted(n.meta for n in m.match(u))
        b = sorted(n.meta for n in low[d].match(pieces)) if d in low else []
        if a != b:
            bad.append('matching %s all-in-one gives %r, per digest %r' % (
                u, a, b))
    st.traces += 1
    st.outcome(whole)
    return bad[:4]
