"""C20: parsing, digesting, making and matching are re-entrant.

Stateless exploration of the real code under a controlled scheduler: every
schedule of two threads within the preemption bound, each in a fresh process
image, against the results each thread obtains alone.
"""
import sys

sys.modules.setdefault('ete3', None)    # not needed here: smaller forks

from .. import impl, sched  # noqa: E402
from ..core import HarnessError  # noqa: E402

ID = 'C20'
BOUNDS = {
    'quick': 'two threads, 20 operations (parse, digest, own maker with all '
             'formats, own matcher, one shared loaded matcher); all schedules '
             'with one preemption at every executed source line, for every '
             'operation of <= 1100 lines next to itself and 4 others and 6 '
             'pairs of bigger ones; with one preemption at every executed bytecode for '
             'the 6 smallest and 4 others next to themselves; with two preemptions at every pair of lines '
             'for 2 pairs',
    'thorough': 'one preemption for every ordered pair of all operations; '
                'every bytecode for operations of <= 1000 lines; two '
                'preemptions for all pairs of operations of <= 250 lines',
}
ASSUMPTIONS = ['CPython with its global lock: threads switch between '
               'bytecodes', 'preemption inside C code of the standard '
               'library is not explored',
               'operations on one maker or loads into one matcher from '
               'several threads are not promised and not explored']
CASE_SECONDS = 300

SHARED = ['/[a-z]', '/[a-z]+', '/a', '/[0-9a-z]{2}', '/a[0-9]',
          '/[a-z][\\-][a-z]', '/[a-z]+[\\-][a-z]+', '/[a-z]+[\\.]html',
          '/[a-z]{2}[\\.]html', '/x[\\?]k=[0-9]+', '/x[\\?]k=[0-9]',
          '/x[\\?]k=1', '/[a-z]/[a-z]', '/a/[a-z]+']


def setup(names):
    if any(n.startswith('shared') for n in names):
        return impl.matcher(SHARED)


def parse(u):
    def f(shared):
        meta, ps = impl.parse(u)
        return (meta.path_depth, tuple(meta.query_keys),
                bool(meta.has_fragment), [str(p) for p in ps] if
                u.startswith('/') else
                [(p.piece, tuple(p.pieces), tuple(p.rules), p.fuzzy_rule,
                  p.piece_length) for p in ps])
    return f


def digest(u):
    return lambda shared: impl.fuzzy_digest(u)


def make(urls, mcn=3):
    urls = ['http://h/' + u for u in urls]

    def f(shared):
        cfg = impl.get_default_config()
        cfg.set('make', 'min_cluster_num', str(mcn))
        pm = impl.PatternMaker(cfg)
        for u in urls:
            pm.load(u, meta=u)
        out = []
        for meta, root in pm.make():
            out.append((list(impl.pformat('pattern', meta, root)),
                        list(impl.pformat('json', meta, root)),
                        sorted(impl.pformat('cluster', meta, root)),
                        sorted(impl.pformat('inline', meta, root))))
        return sorted(out)
    return f


def matches(m, url):
    nodes = m.match(url)
    return [n.meta for n in sorted(nodes, reverse=True)]


def own(pats, urls):
    def f(shared):
        m = impl.matcher(pats)
        return [matches(m, 'http://h/' + u) for u in urls]
    return f


def shared(url):
    return lambda m: matches(m, 'http://h/' + url)


OPS = {
    'parse1': parse('http://h/a'),
    'parse2': parse('http://h/b1-B'),
    'parse3': parse('http://h/x?k=a1#%.'),
    'parsep': parse('/[a-z]+1'),
    'digest1': digest('http://h/a-1'),
    'digest2': digest('http://h/B'),
    'digestp': digest('/[a-z]{2}[\\.]html'),
    'shared1': shared('a'),
    'shared2': shared('a-b'),
    'shared3': shared('ab.html'),
    'shared4': shared('a1'),
    'shared5': shared('x?k=1'),
    'shared6': shared('a/b'),
    'own1': own(['/a'], ['a']),
    'own2': own(['/[a-z]', '/[a-z]+'], ['b']),
    'own3': own(['/[a-z]+[\\-]1'], ['a-1']),
    'make3': make(['a', 'b', 'c']),
    'make2': make(['1', '2']),
    'makex': make(['a1', 'b2', 'c3', 'c34']),
    'makes': make(['a-b', 'cc-b', 'a-d.html', 'e-f.html'], 2),
}
SIZE_CAP = 1100
PARTNERS = ['parse2', 'digestp', 'shared3', 'own3']
BIG = [('make3', 'make3'), ('make3', 'parse2'), ('make2', 'digest1'),
       ('shared1', 'makes'), ('parse1', 'makex'), ('make3', 'shared1')]
SMALLEST = ['parse1', 'parse2', 'parsep', 'digest2', 'shared1', 'digest1']
MORE = ['shared2', 'shared3', 'shared5', 'own1']
TWO = [('parse1', 'parse1'), ('digest2', 'parse1')]

_ALONE = {}


def alone(name, opcodes=False):
    """(result, number of points) of the operation in a fresh process."""
    k = (name, opcodes)
    if k not in _ALONE:
        status, val = sched.schedule([name], OPS, setup, [(0, None)], opcodes)
        _ALONE[k] = (('died', status), 0) if status else (val[0][0],
                                                          val[1][0])
        if opcodes and not status and val[1][0] <= alone(name)[1]:
            raise HarnessError('no bytecode events')
    return _ALONE[k]


def tasks(tier):
    q = tier == 'quick'
    out = []

    def add(kind, a, b, opcodes, chunk):
        n = alone(a, opcodes)[1]
        for lo in range(0, n + 1, chunk):
            out.append((kind, a, b, opcodes, lo, min(n + 1, lo + chunk)))

    names = list(OPS)
    out.append(('ALONE',))
    for a in names:
        for b in names:
            if q and b not in PARTNERS and a != b and (a, b) not in BIG:
                continue
            if alone(a)[1] > SIZE_CAP or alone(b)[1] > SIZE_CAP:
                if q and (a, b) not in BIG:
                    continue
            add('ONE', a, b, False, 100)
    small = SMALLEST if q else [n for n in names if alone(n)[1] <= 1000]
    for a in small:
        for b in small:
            add('ONE', a, b, True, 100)
    for a in MORE if q else ():
        add('ONE', a, a, True, 100)
    two = TWO if q else [(a, b) for a in names for b in names
                         if alone(a)[1] <= 250 and alone(b)[1] <= 250]
    for a, b in two:
        add('TWO', a, b, False, 4)
    return out


def cases(task):
    if task[0] == 'ALONE':
        for n in OPS:
            yield {'alone': n}
        return
    kind, a, b, opcodes, lo, hi = task
    for k in range(lo, hi):
        yield {'kind': kind, 'a': a, 'b': b, 'opcodes': opcodes, 'at': k}


def judge(case, st, plan, bad):
    status, val = sched.schedule([case['a'], case['b']], OPS, setup,
                                 plan, case['opcodes'])
    st.transitions += 1
    st.incr('schedules')
    if status:
        bad.append('schedule %r: process ended with %d (deadlock or no end)'
                   % (plan, status))
        return
    res, events = val
    st.incr('events', sum(events))
    for name, r, i in ((case['a'], res[0], 0), (case['b'], res[1], 1)):
        want = alone(name)[0]
        if r != want:
            bad.append('%s next to %s, schedule %r: %s, alone %s' % (
                name, case['b' if i == 0 else 'a'], plan, str(r)[:250],
                str(want)[:250]))
    st.outcome((case['a'], case['b'], case['at'], case['kind'], plan[:2]))


def evaluate(case, st):
    bad = []
    if 'alone' in case:
        r = alone(case['alone'])[0]
        again = sched.schedule([case['alone']], OPS, setup, [(0, None)],
                               True)
        if r[0] != 'ok' or again[0] or again[1][0][0] != r:
            bad.append('%s alone: %r and %r' % (case['alone'], r, again))
        return bad
    k = case['at']
    st.states += 1
    if case['kind'] == 'ONE':
        judge(case, st, [(0, k), (1, None), (0, None)], bad)
    else:
        n = alone(case['b'])[1]
        for k2 in range(1, n + 1):
            judge(case, st, [(0, k), (1, k2), (0, None), (1, None)], bad)
            if len(bad) >= 3:
                break
    st.traces += 1
    return bad[:3]
