"""C02: patterns are regexes that describe their members tightly."""
import re

from .. import impl, ref, universe

ID = 'C02'
BOUNDS = {
    'quick': 'all subsets of the standard universes (see C01), '
             'min_cluster_num 2..5; all triples of short same-bucket '
             'components',
    'thorough': 'as C01 thorough',
}
ASSUMPTIONS = ["Python's re module decides regex acceptance"]
tasks = universe.cluster_tasks
cases = universe.cluster_cases


def evaluate(case, st):
    bad = []
    clusters = impl.cluster(case['urls'], case['mcn'])
    st.states += 1
    st.transitions += len(case['urls']) + 1
    seen = {}
    for c in clusters:
        if c.pattern in seen:
            bad.append('two clusters share the pattern %r' % c.pattern)
        seen[c.pattern] = c
        try:
            rx = re.compile(c.pattern)
        except re.error as e:
            bad.append('%r is no regex: %s' % (c.pattern, e))
            continue
        try:
            pm = ref.PatternModel(c.pattern)
        except ref.Reject as e:
            bad.append('%r is no URL pattern: %s' % (c.pattern, e))
            continue
        ps = [ref.parse(u) for u in c.members]
        for u, p in zip(c.members, ps):
            if not rx.fullmatch(p.text):
                bad.append('regex %r does not accept %r (%s)'
                           % (c.pattern, p.text, u))
            if pm.structure != p.structure:
                bad.append('%r has structure %r, member %s has %r'
                           % (c.pattern, pm.structure, u, p.structure))
            elif pm.space != p.space:
                bad.append('%r names spaces %r, member %s has %r'
                           % (c.pattern, pm.space, u, p.space))
            elif not pm.accepts(p):
                bad.append('%r does not accept %s component-wise'
                           % (c.pattern, u))
        if bad or not ps:
            continue
        for i in range(len(pm.components)):
            vals = set(p.components[i] for p in ps)
            if len(vals) == 1 and not pm.is_literal(i):
                bad.append('component %d of %r is not literal but all '
                           'members have %r' % (i, c.pattern, vals))
            if len(vals) > 1 and pm.is_literal(i):
                bad.append('component %d of %r is literal but members have '
                           '%r' % (i, c.pattern, sorted(vals)[:4]))
        st.traces += 1
    st.outcome(sorted(seen))
    return bad
