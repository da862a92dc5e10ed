"""C14: makers and matchers have no memory beyond what was loaded.

Exhaustive exploration of operation histories of the real objects; at every
observation the result is compared with that of a fresh object which was only
given the loads of the history.
"""
import itertools

from .. import forms, impl, ref, scale, universe, zygote

ID = 'C14'
BOUNDS = {
    'quick': 'all histories of <= 5 operations over 4 URLs x {load, make, '
             'make abandoned after 1 cluster, combined make, sub-maker make} '
             'on 6 pools and mcn 2 (<= 4 operations with mcn 3); all '
             'histories of <= 5 operations over 3 patterns and 3 URLs of a '
             'matcher on 6 pools; all interleavings of the programs of two '
             'objects (maker/maker with different configurations, '
             'maker/matcher, matcher/matcher) incl. the steps of their '
             'iterators, 8 operations each; histories with one operation or '
             'one short sequence repeated up to 257 times; every ordered '
             'pair of sessions (parse, load + match, make) of 24 texts in 8 '
             'positions and 37 shapes in 11 positions, in turn in one '
             'process, against the session alone in a pristine one',
    'thorough': '<= 6 operations, 9 operations each',
}
ASSUMPTIONS = ['one make of a maker is finished or abandoned before the next '
               'operation on the same maker']
CASE_SECONDS = 60

H = universe.H
MAKER_POOLS = [
    ([H + '/a', H + '/b', H + '/cc', H + '/1'], 2),
    ([H + '/a/1', H + '/b/2', H + '/a/2', H + '/b/33'], 2),
    ([H + '/a1.html', H + '/1a.html', H + '/b2.html', H + '/a1.htm'], 2),
    ([H + '/a?k=1', H + '/a?k=2', H + '/b?k=1', H + '/a?k=33'], 2),
    ([H + '/a-b', H + '/b-a', H + '/ab-', H + '/a--b'], 2),
    ([H + '/a#1', H + '/a#2', H + '/b#3', H + '/a'], 2),
    ([H + '/a', H + '/b', H + '/c', H + '/dd'], 3),
    ([H + '/a1b2', H + '/b2a1', H + '/1a2b', H + '/a1b3'], 3),
]
# second URL sets that are loaded as one operation (crossing thresholds)
BULK = {
    6: [H + '/e', H + '/f', H + '/gg', H + '/hh'],
    7: [H + '/ab12', H + '/12ab', H + '/b1a2'],
}
MAKER_OPS = ['make', 'part', 'combine', 'sub']
MATCH_POOLS = [
    (['/a', '/[a-z]', '/[a-z]+'], [H + '/a', H + '/b', H + '/bb']),
    (['/[a-z]{2}', '/[a-z]+', '/ab'], [H + '/ab', H + '/cd', H + '/abc']),
    (['/[a-z][0-9]', '/[0-9a-z]{2}', '/[a-z]+1'],
     [H + '/a1', H + '/b2', H + '/1a']),
    (['/a/[0-9]', '/[a-z]/1', '/[a-z]+/[0-9]+'],
     [H + '/a/1', H + '/b/1', H + '/a/22']),
    (['/[a-z]+[\\.]html', '/[a-z]{2}[\\.]html', '/[a-z]+[\\.][a-z]+'],
     [H + '/ab.html', H + '/b.html', H + '/ab.htm']),
    (['/x[\\?]k=[0-9]', '/x[\\?]k=1', '/x[\\?]j=1'],
     [H + '/x?k=1', H + '/x?k=2', H + '/x?j=1']),
]


def tasks(tier):
    q = tier == 'quick'
    out = []
    for i, (urls, mcn) in enumerate(MAKER_POOLS):
        ops = len(urls) + len(MAKER_OPS) + (i in BULK)
        depth = (5 if mcn == 2 else 4) + (0 if q else 1)
        for a, b in itertools.product(range(ops), repeat=2):
            out.append(('MAKER', i, [a, b], depth))
        for a in range(ops):
            out.append(('MAKER', i, [a], 1))
    for i in range(len(MATCH_POOLS)):
        for a, b in itertools.product(range(6), repeat=2):
            out.append(('MATCH', i, [a, b], 5 if q else 6))
    for i in range(len(PROGRAMS)):
        for pre in itertools.product((0, 1), repeat=4):
            out.append(('TWO', i, list(pre), 8 if q else 9))
    out.append(('CONFIG',))
    for name in [('text', t) for t in TEXTS] + [
            ('make', p) for p in universe.PIECES]:
        out.append(('PAIR', list(name), len(family(name))))
    for n in scale.steps(tier, 257):
        out.append(('REPEAT', n))
    return out


def cases(task):
    kind = task[0]
    if kind in ('MAKER', 'MATCH'):
        _, i, pre, depth = task
        if kind == 'MAKER':
            n = len(MAKER_POOLS[i][0]) + len(MAKER_OPS) + (i in BULK)
        else:
            n = 6
        for k in range(0, depth - len(pre) + 1):
            for t in itertools.product(range(n), repeat=k):
                yield {'kind': kind, 'pool': i, 'ops': pre + list(t)}
    elif kind == 'TWO':
        _, i, pre, n = task
        for t in itertools.combinations(range(2 * n), n):
            sched = [0 if x in t else 1 for x in range(2 * n)]
            if sched[:4] == pre:
                yield {'kind': 'TWO', 'programs': i, 'n': n, 'sched': sched}
    elif kind == 'PAIR':
        for i in range(task[2]):
            yield {'kind': 'PAIR', 'family': task[1], 'first': i}
    elif kind == 'REPEAT':
        n = task[1]
        for i, (urls, mcn) in enumerate(MAKER_POOLS):
            k = len(urls)
            # the same n times, between loads
            for op in (0, k, k + 1, k + 2, k + 3):
                if n <= 66 or op == 0:
                    yield {'kind': 'MAKER', 'pool': i,
                           'ops': [0, 1] + [op] * n + [2, k, 3]}
            if n <= 66:
                yield {'kind': 'MAKER', 'pool': i,
                       'ops': [j for _ in range(n) for j in (0, k, 1)]}
        for i in range(len(MATCH_POOLS)):
            for op in range(6):
                yield {'kind': 'MATCH', 'pool': i,
                       'ops': [0, 3, 4] + [op] * n + [1, 3, 5, 2]}
            yield {'kind': 'MATCH', 'pool': i,
                   'ops': [j for _ in range(n) for j in (3, 4, 5)] + [0, 1]}
            yield {'kind': 'MATCH', 'pool': i,
                   'ops': [j for _ in range(n) for j in (0, 4, 1, 3)] + [2]}
        yield {'kind': 'GROW', 'n': n, 'what': 'maker'}
        yield {'kind': 'GROW', 'n': n, 'what': 'matcher'}
    else:
        yield {'kind': 'CONFIG'}


def tree_view(root):
    """Order-free view of a combined tree."""
    return (str(root.value), root.count,
            tuple(sorted(tree_view(c) for c in root.children)))


_FRESH = {}


def fresh(what, loaded, mcn):
    key = (what, tuple(loaded), mcn)
    if key not in _FRESH:
        if len(_FRESH) > 20000:
            _FRESH.clear()
        _FRESH[key] = fresh_make(what, loaded, mcn)
    return _FRESH[key]


def fresh_make(what, loaded, mcn):
    pm = impl.load(loaded, mcn)
    if what == 'make':
        return impl.canon(impl.make(pm))
    return sorted(((m.path_depth, tuple(m.query_keys), m.has_fragment),
                   tree_view(r)) for m, r in pm.make(combine=True))


def run_maker(case, st):
    urls, mcn = MAKER_POOLS[case['pool']]
    bulk = BULK.get(case['pool'])
    bad = []
    pm = impl.PatternMaker(impl.config(mcn))
    loaded = []
    pending = []
    ops = list(case['ops']) + [len(urls)]        # a final complete make
    for i, op in enumerate(ops):
        st.transitions += 1
        if op < len(urls) or op >= len(urls) + len(MAKER_OPS):
            for u in ([urls[op]] if op < len(urls) else bulk):
                _, new = pm.load(u, meta=u)
                if bool(new) != (u not in loaded):
                    bad.append('load of %s after %r reports is_new=%r' % (
                        u, loaded, new))
                loaded.append(u)
            continue
        name = MAKER_OPS[op - len(urls)]
        if name == 'make':
            got = impl.canon(impl.make(pm))
            want = fresh('make', loaded, mcn)
        elif name == 'part':
            g = pm.make()
            for m, r in g:
                impl.read_cluster(m, r)
                break
            pending.append(g)                    # abandoned, not closed
            continue
        elif name == 'combine':
            got = sorted(((m.path_depth, tuple(m.query_keys), m.has_fragment),
                          tree_view(r)) for m, r in pm.make(combine=True))
            want = fresh('combine', loaded, mcn)
        else:
            got = impl.canon([impl.read_cluster(k.url_meta, r)
                              for k in pm.makers for r in k.make()])
            want = fresh('make', loaded, mcn)
        if got != want:
            bad.append('%s after the history %s gives %r, a fresh maker gives '
                       '%r' % (name, describe(case), got[:4], want[:4]))
            break
    st.states += 1
    st.traces += 1
    st.outcome(fresh('make', loaded, mcn))
    return bad


def describe(case):
    if case['kind'] == 'MAKER':
        urls, _ = MAKER_POOLS[case['pool']]
        names = ['load ' + u for u in urls] + MAKER_OPS + ['bulk load']
    else:
        pats, urls = MATCH_POOLS[case['pool']]
        names = ['load ' + p for p in pats] + ['match ' + u for u in urls]
    return [names[i] for i in case['ops']]


_MF = {}


def fresh_match(loads, url):
    key = (tuple(loads), url)
    if key not in _MF:
        if len(_MF) > 20000:
            _MF.clear()
        _MF[key] = only_match(loads, url)
    return _MF[key]


def only_match(loads, url):
    m = impl.PatternMatcher()
    for x, meta in loads:
        m.load(x, meta=meta)
    return sorted(n.meta for n in m.match(url))


def run_match(case, st):
    pats, urls = MATCH_POOLS[case['pool']]
    bad = []
    m = impl.PatternMatcher()
    loads = []
    ops = list(case['ops']) + [3, 4, 5]
    for i, op in enumerate(ops):
        st.transitions += 1
        if op < 3:
            meta = '%s@%d' % (pats[op], len([1 for x in loads
                                             if x[0] == pats[op]]))
            m.load(pats[op], meta=meta)
            loads.append((pats[op], meta))
            continue
        got = sorted(n.meta for n in m.match(urls[op - 3]))
        want = fresh_match(loads, urls[op - 3])
        if got != want:
            bad.append('match %s after the history %s gives %r, a fresh '
                       'matcher gives %r' % (urls[op - 3], describe(case),
                                             got, want))
            break
    st.states += 1
    st.traces += 1
    st.outcome(tuple(loads))
    return bad


# ---- two objects at the same time ----------------------------------------
A4 = [H + '/a', H + '/b', H + '/cc', H + '/dd']
B4 = [H + '/a', H + '/e', H + '/ff', H + '/1']
C4 = [H + '/a/1.html', H + '/b/2.html', H + '/a/3.html', H + '/b/a.html']
PROGRAMS = [
    (('maker', A4, 2), ('maker', A4, 3)),
    (('maker', A4, 2), ('maker', B4, 2)),
    (('maker', C4, 2), ('combine', C4, 2)),
    (('maker', A4, 2), ('matcher', ['/a', '/[a-z]', '/[a-z]+', '/[a-z]{2}'],
                        A4)),
    (('matcher', ['/a', '/[a-z]', '/[a-z]+', '/[a-z]{2}'], A4),
     ('matcher', ['/[a-z]+', '/b', '/[a-z]', '/1'], B4)),
]


def steps(prog, n, out):
    """A generator which performs one operation of the program per step."""
    if prog[0] == 'matcher':
        _, pats, urls = prog
        m = impl.PatternMatcher()
        for p in pats:
            m.load(p, meta=p)
            yield
        for u in urls:
            out.append((u, sorted(x.meta for x in m.match(u))))
            yield
        return
    kind, urls, mcn = prog
    pm = impl.PatternMaker(impl.config(mcn))
    for u in urls:
        pm.load(u, meta=u)
        yield
    g = pm.make(combine=kind == 'combine')
    while True:
        try:
            m, r = next(g)
        except StopIteration:
            break
        if kind == 'combine':
            out.append(tree_view(r))
        else:
            c = impl.read_cluster(m, r)
            out.append((c.pattern, c.count, tuple(sorted(c.members))))
        yield


_SOLO = {}


def solo(i, k, n):
    if (i, k) not in _SOLO:
        _SOLO[i, k] = only_program(i, k, n)
    return _SOLO[i, k]


def only_program(i, k, n):
    out = []
    for _ in steps(PROGRAMS[i][k], n, out):
        pass
    return sorted(out)


def run_two(case, st):
    i, n = case['programs'], case['n']
    outs = [[], []]
    gens = [steps(PROGRAMS[i][k], n, outs[k]) for k in (0, 1)]
    for k in case['sched'] + [0] * 9 + [1] * 9:
        st.transitions += 1
        next(gens[k], None)
    bad = []
    for k in (0, 1):
        if sorted(outs[k]) != solo(i, k, n):
            bad.append('schedule %s of the programs %r: object %d yields %r '
                       'instead of %r' % (case['sched'], PROGRAMS[i], k,
                                          sorted(outs[k])[:4],
                                          solo(i, k, n)[:4]))
    st.states += 1
    st.traces += 1
    st.incr('schedules')
    return bad


def run_grow(case, st):
    """n different URLs / patterns, observed again after every load."""
    n = case['n']
    ws = universe.words('l', 3, n)
    bad = []
    if case['what'] == 'maker':
        pm = impl.PatternMaker(impl.config(3))
        for i, w in enumerate(ws):
            pm.load(H + '/' + w, meta=H + '/' + w)
            if n <= 21 or i in (0, 2, n // 2, n - 2, n - 1):
                got = impl.canon(impl.make(pm))
                want = fresh('make', [H + '/' + x for x in ws[:i + 1]], 3)
                st.transitions += 1
                if got != want:
                    bad.append('make after %d loads and earlier makes gives '
                               '%r, a fresh maker %r' % (i + 1, got[:3],
                                                         want[:3]))
                    break
    else:
        m = impl.PatternMatcher()
        m.load('/[a-z]{3}', meta='any')
        for i, w in enumerate(ws):
            u = H + '/' + w
            before = sorted(x.meta for x in m.match(u))
            m.load('/' + w, meta=w)
            after = sorted(x.meta for x in m.match(u))
            first = sorted(x.meta for x in m.match(H + '/' + ws[0]))
            st.transitions += 4
            if before != ['any'] or after != sorted(['any', w]) or \
                    first != sorted(['any', ws[0]]):
                bad.append('%s matches %r before and %r after loading /%s as '
                           'pattern %d; %s matches %r' % (
                               u, before, after, w, i + 2, ws[0], first))
                break
    st.states += 1
    st.traces += 1
    return bad


# ---- one after the other in one process -----------------------------------
TEXTS = ['a', 'ab', '1', 'aB', 'a1', 'a1b', 'a1b2', 'a-b', 'a--b', 'a.b',
         'a-b.html', 'a1.html', 'a1b.mp3', 'a-b.x1y', 'aB1-c.html', 'a.b.c',
         '%E4%BD', 'a%b.c', 'a[b]', 'a{1}', 'a\\b', '.a', 'a-b.', '-']
SCTX = ['path', 'mid', 'first', 'last', 'dir', 'query', 'keyless', 'frag']


def family(name):
    """The sessions of a family: what a program may do with the package."""
    kind, x = name
    out = []
    if kind == 'text':
        for ctx in SCTX:
            url = universe.CONTEXTS[ctx] % x
            p = ref.try_parse(url)
            if p is None:
                continue
            out.append(['url', url])
            i = max(k for k, c in enumerate(p.components) if c == x)
            fs = []
            # also forms that are generated for a last path level only
            for f in forms.component_forms(x, True, 3):
                c = [ref.literal(c) for c in p.components]
                c[i] = f
                fs.append(forms.url_pattern(p, c))
            # the literal, the widest and the others evenly
            for f in dict.fromkeys(fs[:2] + fs[2::max(1, len(fs) // 5)]
                                   + fs[-2:]):
                out.append(['match', [f], [url]])
    else:
        for ctx in universe.CONTEXTS:
            us = [u for u in (universe.CONTEXTS[ctx] % t
                              for t in universe.PIECES[x][:6])
                  if ref.try_parse(u)]
            for part in (us, us[:3]):
                for mcn in (2, 3):
                    out.append(['make', part, mcn])
    return out


def session(s):
    try:
        if s[0] == 'make':
            return fresh_make('make', s[1], s[2])
        if s[0] == 'match':
            m = impl.matcher(s[1])
            return [sorted(impl.matched(m, u)) for u in s[2]]
        meta, ps = impl.parse(s[1])
        return [meta.path_depth, tuple(meta.query_keys),
                bool(meta.has_fragment), [tuple(p.pieces) for p in ps],
                [tuple(p.rules) for p in ps], impl.fuzzy_digest(s[1])]
    except Exception as e:
        return ['raised', type(e).__name__]


def after(first, then):
    """The results of each session right after the first one, in one process;
    without a first one, each in a process of its own."""
    if first is None:
        return [zygote.forked(session, s) for s in then]
    out = []
    for s in then:
        session(first)
        out.append(session(s))
    return out


_ALONE = {}


def run_pair(case, st):
    fam = family(case['family'])
    key = tuple(case['family'])
    if key not in _ALONE:
        _ALONE.clear()
        _ALONE[key] = zygote.ask(after, None, fam)
    first = fam[case['first']]
    got = zygote.ask(after, first, fam)
    bad = []
    for s, g, want in zip(fam, got, _ALONE[key]):
        st.transitions += 1
        if g != want:
            bad.append('%r after %r in the same process gives %r, alone %r' % (
                s, first, g, want))
    st.states += len(fam)
    st.traces += len(fam)
    st.incr('session_pairs', len(fam))
    return bad


def evaluate(case, st):
    zygote.start()
    kind = case['kind']
    if kind == 'PAIR':
        return run_pair(case, st)
    if kind == 'GROW':
        return run_grow(case, st)
    if kind == 'MAKER':
        return run_maker(case, st)
    if kind == 'MATCH':
        return run_match(case, st)
    if kind == 'TWO':
        return run_two(case, st)
    bad = []
    from os_urlpattern.config import get_default_config
    base = impl.canon(impl.make(impl.load(A4, maker=impl.PatternMaker())))
    for mcn in (2, 3, 4, 7):
        c = get_default_config()
        c.set('make', 'min_cluster_num', str(mcn))
        p1 = impl.load(A4, maker=impl.PatternMaker(c))
        p2 = impl.load(A4, maker=impl.PatternMaker())
        meta, pieces = impl.parse(A4[0])
        low = impl.Maker(meta)
        for u in A4:
            low.load(impl.parse(u)[1], meta=u)
        g1 = impl.canon(impl.make(p1))
        g2 = impl.canon(impl.make(p2))
        g3 = impl.canon([impl.read_cluster(meta, r) for r in low.make()])
        st.states += 1
        st.transitions += 3
        if g2 != base or g3 != base:
            bad.append('a maker with the default configuration is affected '
                       'by another configuration: %r %r %r' % (g2, g3, base))
        if g1 != impl.canon(impl.cluster(A4, mcn)):
            bad.append('configuration %d is not isolated: %r' % (mcn, g1))
    st.traces += 1
    return bad
