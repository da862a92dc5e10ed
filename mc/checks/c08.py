"""C08: matching is strict: a reported pattern really fits the URL."""
import itertools

from .. import groups, impl, ref, scale, universe

ID = 'C08'
BOUNDS = {
    'quick': 'every generated-form pattern of every text of 9 alphabets '
             '(<= 3..4 characters) at 7 URL positions against every text of '
             'the alphabet; every pattern of <= 3 units (path) / <= 2 units '
             '(query, key-less, fragment) out of 20 hand-written units, '
             'canonical or not, against all texts of <= 3 characters over '
             'a1-. and 14 others; all patterns of a bucket loaded together; '
             'sizes 1..21 and 33 more up to 257 of 14 kinds of text, levels, '
             'keys and patterns per bucket; '
             '24x24 structure-varied URLs against each other\'s literal and '
             'generalised patterns',
    'thorough': '12 alphabets (<= 3..5 characters), all 11 positions, <= 3 '
                'units everywhere, texts of <= 4 characters',
}
ASSUMPTIONS = ['regexes are judged by Python\'s re on each component']
CASE_SECONDS = 120

UNITS = ['a', 'b', '1', '[a-z]', '[a-z]{2}', '[a-z]+', '[0-9a-z]+',
         '[a-z0-9]{2}', '[0-9]+', '[\\-]', '[\\-]+', '[\\-]{2}',
         '[\\-a-z]+', '[\\-a-z]{3}', '[\\.]', '[\\.]+', '[0-9a-z]{3}',
         '[\\.a-z]+', '[%]', '[%a-z]+']
EXTRA = ['ab', 'ab1', 'a%b', 'ba', 'b', 'bb-', 'b.b', '%', '%a', 'aa%', '1%',
         'ab-', 'A', 'aA']
PFMT = {'path': '/%s', 'mid': '/x/%s/y', 'query': '/x[\\?]k=%s',
        'frag': '/x#%s', 'keyless': '/x[\\?]%s'}
STRUCT = universe.STRUCTURES + [universe.H + '/a1/b?c=d']


def tasks(tier):
    q = tier == 'quick'
    out = []
    ctxs = ['path', 'mid', 'dir', 'query', 'query2', 'keyless', 'frag'] \
        if q else list(universe.CONTEXTS)
    for ctx in ctxs:
        for a, n in (groups.QUICK if q else groups.THOROUGH):
            nb = len(groups.buckets(ctx, a, n))
            for b in range(nb):
                out.append(('GROUP', ctx, a, n, b))
    for ctx in PFMT:
        k = 3 if ctx == 'path' or not q else 2
        for u in range(len(UNITS)):
            out.append(('UNITS', ctx, k, u, 3 if q else 4))
    out.append(('STRUCT',))
    for ts in scale.match_tasks(tier):
        out.extend(ts)
    return out


def cases(task):
    if task[0] == 'GROUP':
        _, ctx, a, n, b = task
        pats = groups.buckets(ctx, a, n)[b][1]
        for pat in pats:
            yield {'kind': 'one', 'ctx': ctx, 'alphabet': a, 'n': n, 'b': b,
                   'pattern': pat}
        yield {'kind': 'all', 'ctx': ctx, 'alphabet': a, 'n': n, 'b': b}
    elif task[0] == 'UNITS':
        _, ctx, k, u, n = task
        for m in range(0, k):
            for t in itertools.product(UNITS, repeat=m):
                yield {'kind': 'hand', 'ctx': ctx, 'n': n, 'pattern':
                       PFMT[ctx] % (UNITS[u] + ''.join(t))}
    elif task[0] == 'SCALE':
        for name, ctx, ts in task[1]:
            yield {'kind': 'scale', 'ctx': ctx, 'texts': ts}
    elif task[0] == 'DEEP':
        for u in task[1]:
            yield {'kind': 'deep', 'url': u}
    elif task[0] == 'CROWD':
        yield {'kind': 'crowd', 'patterns': task[1][0],
               'urls': [u for u, _ in task[1][1]]}
    else:
        for u in STRUCT:
            yield {'kind': 'struct', 'of': u}


_POOL = {}


def pool(ctx, n):
    key = (ctx, n)
    if key not in _POOL:
        out = []
        ts = [''.join(t) for k in range(0, n + 1)
              for t in itertools.product('a1-.', repeat=k)] + EXTRA
        for t in ts:
            u = universe.CONTEXTS[ctx] % t
            p = ref.try_parse(u)
            if p:
                out.append((u, p))
        _POOL[key] = out
    return _POOL[key]


def generalise(p):
    """A fully wildcard pattern of the URL."""
    from .. import forms
    return forms.url_pattern(p, ['[%s]+' % ref.fuzzy(c) if c else ''
                                 for c in p.components])


def evaluate(case, st):
    bad = []
    kind = case['kind']
    if kind in ('one', 'all'):
        members, pats = groups.buckets(case['ctx'], case['alphabet'],
                                       case['n'])[case['b']]
        urls = [(u, p) for u, p, _ in members]
        if kind == 'one':
            pats = [case['pattern']]
            # and everything outside the bucket which is close to it
            urls = urls + _others(case)
    elif kind == 'hand':
        pats = [case['pattern']]
        urls = pool(case['ctx'], case['n'])
    elif kind == 'scale':
        ms = scale.member_forms(case['ctx'], case['texts'])
        pats = sorted(frozenset().union(*[f for _, _, f in ms]))
        urls = [(u, p) for u, p, _ in ms]
    elif kind == 'deep':
        fit, no = scale.deep_forms(case['url'])
        pats = list(fit) + list(no)
        u = case['url']
        urls = [(x, ref.parse(x)) for x in (
            u, u + 'a', u.replace('a', 'b'), u + '/', u + '#a')]
    elif kind == 'crowd':
        pats = case['patterns']
        urls = [(u, ref.parse(u)) for u in case['urls']]
    else:
        p = ref.parse(case['of'])
        pats = sorted({p.literal_pattern, generalise(p)})
        urls = [(u, ref.parse(u)) for u in STRUCT]
    m = impl.PatternMatcher()
    for x in pats:
        try:
            m.load(x, meta=x)
        except Exception:
            if kind == 'hand':      # whether it is loadable is C13's matter
                return []
            raise
    models = {}
    hits = []
    for u, p in urls:
        st.states += 1
        st.transitions += 1
        for n in m.match(u):
            x = n.meta
            hits.append((u, x))
            if x not in models:
                models[x] = ref.PatternModel(x)
            if not models[x].accepts(p):
                bad.append('pattern %s is reported for %s which does not fit '
                           'it' % (x, u))
                if len(bad) > 3:
                    return bad
    st.traces += 1
    st.incr('reported', len(hits))
    st.outcome(hits)
    return bad


_OTHERS = {}


def _others(case):
    """One URL of every other bucket of the group."""
    key = (case['ctx'], case['alphabet'], case['n'])
    if key not in _OTHERS:
        _OTHERS[key] = [(b[0][0][0], b[0][0][1])
                        for b in groups.buckets(*key)]
    own = case['b']
    return [x for i, x in enumerate(_OTHERS[key]) if i != own]
