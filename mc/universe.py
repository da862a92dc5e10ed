"""Bounded universes of URLs for the clustering checks.

A universe is a list of items; an item is a list of URLs (usually one).  The
states explored are all subsets of the items (all sets of URLs reachable by
loading any items), each under every min_cluster_num of the universe.
"""
import itertools

from . import ref

H = 'http://h'

# ---- one-component shapes: every way a component can be viewed ----------
PIECES = {
    'lower': ['a', 'b', 'c', 'aa', 'bb', 'cc', 'aaa', 'bbb', 'dddd', 'eeeee'],
    'upper': ['A', 'B', 'CC', 'DD', 'EE', 'FFF', 'GGGG', 'C', 'HHH'],
    'digit': ['1', '2', '3', '11', '12', '13', '111', '222', '4444', '4'],
    'long': ['a' * 9, 'b' * 9, 'a' * 10, 'b' * 10, 'c' * 10, 'a' * 11,
             'a' * 12, 'b' * 99, 'a' * 100, 'b' * 100],
    'run2': ['a1', 'b2', 'c3', 'aa1', 'bb1', 'a11', 'b22', 'aaa1', 'c1', 'c2'],
    'run2s': ['a1', 'a2', 'a3', '1a', '2a', '11a', 'aa1', '1b', 'a12', '3a'],
    'run3': ['a1b', 'b2c', 'c3d', 'aa1b', 'a1bb', 'a22b', 'a1c', 'a1d', 'b1b',
             '1ab'],
    'mix': ['a1b2', 'b2a1', '1a2b', 'ab12', '12ab', 'a12b', 'a1b2c', 'a1b2c3',
            '1a2b3', 'a1b3'],
    'mixcase': ['aB', 'Ba', 'aBc', 'ABc', 'abC', 'aBcD', 'aCbD', 'AbCd',
                'AB', 'bC'],
    'mix3': ['aB1', 'a1B', 'B1a', '1aB', 'aB1a', 'aaB1', 'aB11', 'bC2', 'aB2',
             'aB3'],
    'mixsep': ['aB1-c', 'aB2-c', 'aB1-d', 'aB1-e', 'a1B-c', 'Ba1-c', 'aB1-cc',
               'Ab1-c', 'aB1-f', 'aB11-c'],
    'mixsep2': ['aB1c2-aB', 'aB2-aC', 'aB1-dE', 'aB1-eF', 'a1B-cD', 'Ba1-c',
                'aB1-ccD', 'Ab1-c', 'aB1-f', 'aB11-cA'],
    'mixsep3': ['a1b2c3_x', 'a2b3c4_x', 'b1a2c3_x', '1a2b3c_x', 'a1b2c3_y',
                'aa1b2c_x', 'a1_x', 'a1b2_x', '1a2b3_x', 'ab12_x'],
    'pct': ['a%b', '%ab', '%%a', 'a%%b', 'b%a', '%a', 'a%', '%aa', 'a%%%b'],
    'pct2': ['%E4%BD', '%4E%BD', '%E4', '%4E', '%E44', '%BD%A0%E5', '%4E%4F',
             '%E5', '%E6'],
    'sep': ['a-b', 'b-a', 'c-d', 'a--b', '-ab', 'ab-', 'aa-b', 'a-bb', 'b--a',
            'a---b'],
    'sep2': ['a-b_c', 'b-c_a', 'c-a_b', 'a_b-c', 'aa-b_c', 'a--b_c', 'a-_bc',
             '-abc_', 'a-b_d'],
    'sepnum': ['t-1-1', 't-2-1', 't-3-1', 't-1-2', 't-11-1', 't-1-11', 'u-1-1',
               't-111-1', 'u-2-2', 'v-1-1'],
    'html': ['a.html', 'b.html', 'c.html', 'aa.html', 'a.htm', 'b.htm',
             'aa.htm', 'ddd.html', 'eeee.html', 'bb.html'],
    'html1': ['a1.html', 'b1.html', 'c1.html', '1a.html', 'a1b.html',
              'aa1.html', 'a11.html', 'b2.htm', '1ab2.html', 'a2.html'],
    'mp3': ['a1b.mp3', 'a2b.mp3', 'a3b.mp3', 'aa1.mp3', '1ab.mp3', '1a.mp3',
            'a.mp3', 'b.mp3', 'c.mp3', 'a1b.mp4'],
    'mp3s': ['a-b.mp3', 'ab-c.mp3', '-abc.mp3', 'a-1.mp3', 'a1-.mp3',
             'b-c.mp3', 'a-b-c.mp3', '1-c.m3', 'c-d.mp3'],
    'ext3': ['ab1.a1b', 'ac1.a1b', '1ac.a1b', 'a1c.a1b', '2a.b1b',
             'a2c2.a1c', 'a3.a1b', 'a4.1a1', 'a.a1b', 'b.a2b'],
    'ext3s': ['a-b.x1y', 'b-a.x1y', '-ab.x1y', 'ab-.x1y', 'a--b.x1y',
              'a-bc.x1y', 'a-b.x1z', '-ba.x1z', 'ab-.1x1', 'a-b.x1y2'],
    'tdot': ['a-b.', 'ab-c.', '-abc.', 'a-.', 'a.', 'aa.', 'b-.', 'bbb.',
             'b-c.'],
    'ldot': ['.a', '.b', '.c', '.aa', '..a', '.a.b', '.html', '.htm', '.b.a',
             '...a'],
    'dots': ['a.b.html', 'b.c.html', 'c.d.html', 'a.bb.html', 'aa..html',
             'ab.html', 'a..html', '.a.html', 'b.b.htm'],
    'sepdot': ['a-b.html', 'b-c.html', 'ab-c.html', 'a-bc.html', 'a--b.html',
               '-ab.html', 'ab-.html', 'a-b.htm', 'a-b-c.html', 'b--c.htm'],
    'dotmixed': ['aB1-c.html', 'a1B-c.html', 'B1a-c.html', 'aB1-cc.html',
                 'aB2-c.html', 'aB3-c.html', 'aB1-c.htm', 'aaB1-c.html',
                 'c-aB1.html'],
    'esc': ['a[b]', 'b[a]', 'c[d]', '[ab]', 'a[]b', 'a[[b]]', 'ab[]', 'a{b}',
            'a[bb]', '][ab'],
    'brace': ['a{1}', 'b{2}', 'c{3}', '{a}1', 'a{11}', 'a{}1', '{1}a', 'a{9}',
              'a1{}'],
    'bsl': ['a\\b', 'b\\a', 'c\\d', 'a\\\\b', '\\ab', 'ab\\', 'aa\\b',
            'd\\e', 'a\\\\\\b'],
    'quote': ['a"b', "a'b", 'a(b)', 'a*b', 'a$b', 'a^b', 'a|b', 'a!b', 'a+b',
              'b+a'],
    'signs': ['-', '--', '---', '-_', '_-', '-_-', '_', '__', '----'],
    'signrun': ['a' + '-' * n + 'b' for n in (1, 2, 3, 9, 10, 11, 12, 20)] +
               ['b-a'],
}

CONTEXTS = {
    'path': H + '/%s',
    'mid': H + '/x/%s/y',
    'first': H + '/%s/x',
    'last': H + '/x/%s',
    'dir': H + '/%s/',
    'query': H + '/x?k=%s',
    'query1': H + '/x?k=%s&j=1',
    'query2': H + '/x?j=1&k=%s',
    'keyless': H + '/x?%s',
    'frag': H + '/x#%s',
    'qfrag': H + '/?k=1#%s',
}


def grid(fmt, *axes):
    return [fmt % t for t in itertools.product(*axes)]


# ---- several components varying together --------------------------------
GRIDS = {
    'g_ll': grid(H + '/%s/%s', ['a', 'b', 'cc'], ['a', 'b', 'cc']),
    'g_ld': grid(H + '/%s/%s', ['a', 'b', 'c'], ['1', '2', '33']),
    'g_dd': grid(H + '/%s/%s', ['1', '2', '3'], ['1', '2', '3']),
    'g_lr': grid(H + '/%s/%s', ['a', 'b', 'c'], ['a1', 'b2', 'aa3']),
    'g_lm': grid(H + '/%s/%s', ['a', 'b', 'cc'], ['a1b2', 'b2a1', '1a2b']),
    'g_lh': grid(H + '/%s/%s', ['a', 'b', 'cc'],
                 ['a.html', 'b.html', 'cc.htm']),
    'g_rl': grid(H + '/%s/%s', ['a1', 'b2', 'aa1'], ['a', 'b', 'cc']),
    'g_q': grid(H + '/%s?k=%s', ['a', 'b', 'cc'], ['1', '2', '33']),
    'g_qq': grid(H + '/x?i=%s&j=%s', ['1', '2', '33'], ['a', 'b', 'cc']),
    'g_f': grid(H + '/%s#%s', ['a', 'b', 'cc'], ['1', '2', '33']),
    'g_qf': grid(H + '/x?k=%s#%s', ['1', '2', '3'], ['a-b', 'b-a', 'a']),
    'g_hq': grid(H + '/%s?k=%s', ['a.html', 'b.html', 'c.htm'],
                 ['a1', '1a', 'b2']),
    'g_3': grid(H + '/%s/%s/%s', ['a', 'b'], ['1', '2'], ['x', 'yy']),
    'g_3b': grid(H + '/%s/%s/%s', ['a', 'bb'], ['c', 'd'], ['1a', 'a1']),
    'g_sep': grid(H + '/%s-%s', ['a', 'b', 'cc'], ['1', '2', '33']),
    'g_dot': grid(H + '/%s.%s', ['a', 'b', 'cc'], ['x', 'y', 'zz']),
    'g_mixdot': grid(H + '/%s.%s', ['a1b2', '1ab2', 'a1'], ['mp3', 'mp4', 'x']),
}

# ---- blocks: larger populations around the thresholds -------------------


def words(c, n, k, start=0):
    """k distinct one-run words of class c and length n."""
    base = {'l': 'abcdefghijklmnopqrstuvwxyz',
            'u': 'ABCDEFGHIJKLMNOPQRSTUVWXYZ', 'd': '0123456789'}[c]
    out = []
    for t in itertools.product(base, repeat=n):
        out.append(''.join(t))
        if len(out) >= start + k:
            break
    return out[start:start + k]


def block(fmt, vals):
    return [fmt % v for v in vals]


BLOCKS = {
    'b_len': [block(H + '/%s', words('l', 1, 3)),
              block(H + '/%s', words('l', 1, 1, 3)),
              block(H + '/%s', words('l', 2, 3)),
              block(H + '/%s', words('l', 2, 2, 3)),
              block(H + '/%s', words('l', 3, 2)),
              block(H + '/%s', words('l', 4, 1)),
              block(H + '/%s', words('l', 5, 4)),
              block(H + '/%s', words('l', 1, 4, 4))],
    'b_tree': [block(H + '/a/%s', words('d', 1, 3)),
               block(H + '/b/%s', words('d', 1, 3)),
               block(H + '/c/%s', words('d', 1, 2)),
               block(H + '/d/%s', words('d', 1, 1)),
               block(H + '/%s/9', words('l', 1, 4)),
               block(H + '/a/%s', words('d', 2, 3)),
               block(H + '/zz/%s', words('d', 2, 4)),
               block(H + '/yyy/%s', words('d', 3, 1))],
    'b_html': [block(H + '/a%s.html', words('d', 2, 3)),
               block(H + '/b%s.html', words('d', 2, 3)),
               block(H + '/%s1.html', words('l', 2, 4)),
               block(H + '/%sa.html', words('d', 2, 3)),
               block(H + '/1%sb.html', words('l', 1, 2)),
               block(H + '/a%s.htm', words('d', 2, 3)),
               block(H + '/ab%s.htm', words('d', 1, 1)),
               block(H + '/1a2b%s.html', words('l', 1, 3))],
    'b_mixed': [block(H + '/a1b2c%s', words('d', 1, 3)),
                block(H + '/1a2b%s', words('l', 1, 3)),
                block(H + '/a1-b%s', words('d', 1, 3)),
                block(H + '/a1b2-c%s', words('d', 1, 3)),
                block(H + '/1b2a-c%s', words('d', 1, 2)),
                block(H + '/a-b1c%s', words('d', 2, 3)),
                block(H + '/a1b2c3d%s', words('d', 2, 2)),
                block(H + '/-a%sb', words('d', 1, 1))],
    'b_query': [block(H + '/x?a=%s', words('d', 1, 3)),
                block(H + '/y?a=%s', words('d', 1, 3)),
                block(H + '/x?a=%s', words('d', 2, 3)),
                block(H + '/%s?a=1', words('l', 1, 3, 3)),
                block(H + '/x?b=%s', words('d', 1, 3)),
                block(H + '/x?a=%s&b=1', words('d', 1, 3)),
                block(H + '/x?%s', words('d', 1, 2)),
                block(H + '/x?a=%s#f', words('d', 1, 3))],
    'b_three': [block(H + '/a/b/%s', words('l', 1, 3)),
                block(H + '/a/%s/c', words('l', 1, 3)),
                block(H + '/%s/b/c', words('l', 1, 3)),
                block(H + '/a/bb/%s', words('l', 2, 3)),
                block(H + '/%s/bb/c', words('l', 2, 2)),
                block(H + '/zz/%s/c', words('l', 2, 4)),
                block(H + '/q/%s/q', words('l', 3, 1))],
}

STRUCTURES = [  # different structures and near misses, for mixed sets
    H + '/', H + '/a', H + '/a/', H + '/a/b', H + '/a?', H + '/a?b',
    H + '/a?b=', H + '/a?b=c', H + '/a?b&c', H + '/a#', H + '/a?#',
    H + '/a#b', H + '/a?b#c', H + '/a?b=c#d', H + '/A', H + '/1', H + '/a1',
    H + '/-', H + '/a;p', H + '//a', H + '/b', H + '/b?b=c', H + '/a?c=c',
]


def singles(urls):
    return [[u] for u in urls if ref.try_parse(u)]


class Universe(object):
    def __init__(self, name, items, mcns):
        self.name, self.items, self.mcns = name, items, mcns


def universes(tier, size=None, contexts=True, signs=True, grids=True,
              blocks=True):
    """The standard universes.  size caps the number of items."""
    q = tier == 'quick'
    out = []
    n0 = size or (9 if q else 10)
    for name, ps in PIECES.items():
        out.append(Universe('path:' + name,
                            singles(CONTEXTS['path'] % p for p in ps[:n0]),
                            (2, 3, 4)))
    if contexts:
        n1 = min(size or 99, 6 if q else 8)
        for ctx in CONTEXTS:
            if ctx == 'path':
                continue
            for name, ps in PIECES.items():
                out.append(Universe(ctx + ':' + name,
                                    singles(CONTEXTS[ctx] % p
                                            for p in ps[:n1]),
                                    (2, 3) if q else (2, 3, 4)))
    if signs:
        for c in ref.SIGNS:
            ps = ['a' + c, 'b' + c, 'c' + c, c + 'a', 'aa' + c, 'a' + c + c]
            if not q:
                ps += [c, c + c]
            for ctx in ('path', 'query', 'frag') if q else CONTEXTS:
                out.append(Universe('%s:sign%r' % (ctx, c),
                                    singles(CONTEXTS[ctx] % p for p in ps),
                                    (2, 3)))
    if grids:
        for name, urls in GRIDS.items():
            out.append(Universe(name, singles(urls)[:size or 99], (2, 3, 4)))
    if blocks:
        for name, items in BLOCKS.items():
            out.append(Universe(name, [[u for u in b if ref.try_parse(u)]
                                       for b in items],
                                (2, 3, 4, 5) if q else (2, 3, 4, 5, 6, 7)))
    return [u for u in out if u.items]


CHUNK = 128


def subset_tasks(us):
    """Tasks (universe, mcn, lo, hi) covering all non-empty subsets."""
    tasks = []
    for u in us:
        n = 1 << len(u.items)
        for mcn in u.mcns:
            for lo in range(1, n, CHUNK):
                tasks.append((u.name, u.items, mcn, lo, min(n, lo + CHUNK)))
    return tasks


def subset_cases(task):
    name, items, mcn, lo, hi = task
    for mask in range(lo, hi):
        urls = []
        for i, it in enumerate(items):
            if mask >> i & 1:
                urls.extend(it)
        yield {'universe': name, 'mcn': mcn, 'urls': urls}


# ---- all small sets of all short components ------------------------------


def same_space_groups(alphabet, maxlen, ctx='path'):
    """All component texts over the alphabet up to maxlen, grouped by bucket
    (structure and character spaces)."""
    groups = {}
    for n in range(1, maxlen + 1):
        for t in itertools.product(alphabet, repeat=n):
            url = CONTEXTS.get(ctx, ctx) % ''.join(t)
            p = ref.try_parse(url if ctx != '%s' else H + '/' + url)
            if p is not None:
                groups.setdefault(p.bucket, []).append(url)
    return [groups[k] for k in groups]


def tuple_tasks(alphabet, maxlen, k, mcns, ctx='path', cap=None):
    """All k-subsets of every group; a task fixes the first element."""
    tasks = []
    for g in same_space_groups(alphabet, maxlen, ctx):
        if len(g) < k:
            continue
        for i in range(len(g) - k + 1):
            for mcn in mcns:
                tasks.append(('tuples:%s%d' % (alphabet, maxlen), g, mcn, k, i))
    return tasks


def tuple_cases(task):
    name, g, mcn, k, i = task
    for rest in itertools.combinations(g[i + 1:], k - 1):
        yield {'universe': name, 'mcn': mcn, 'urls': [g[i]] + list(rest)}


# ---- every pair of short shapes, alone and with siblings -----------------

SIBLING = {ord(c): d for c, d in zip('aB1', 'bC2')}


def shape_tasks(tier):
    """Every pair of component texts of one bucket over the alphabet, each
    text alone or together with its sibling (same shape, other texts)."""
    q = tier == 'quick'
    out = []
    for alphabet, n, ctxs in (
            [('a1-.', 4, ('path',)), ('aB1%', 4, ('path',))] if q else
            [('a1-.', 5, ('path', 'query')), ('aB1%', 5, ('path',)),
             ('a1_-', 4, ('path', 'mid', 'frag')), ('aB1-', 5, ('path',)),
             ('aB1.', 5, ('path',))]):
        for ctx in ctxs:
            for g in same_space_groups(alphabet, n, '%s'):
                size = max(1, 600 // len(g))
                for i in range(0, len(g), size):
                    out.append(('H', ctx, g, i, min(len(g), i + size)))
    return out


def shape_cases(task):
    _, ctx, g, lo, hi = task
    f = CONTEXTS[ctx]
    for i in range(lo, hi):
        t, t2 = g[i], g[i].translate(SIBLING)
        for u in g[i:]:
            u2 = u.translate(SIBLING)
            for ts, mcns in (((t, u), (2,)), ((t, t2, u), (2, 3)),
                             ((t, u, u2), (3,)), ((t, t2, u, u2), (2, 3))):
                ts = list(dict.fromkeys(ts))
                if len(ts) < 2 or t == u and len(mcns) == 1:
                    continue
                for mcn in mcns:
                    yield {'universe': 'shapes:' + ctx, 'mcn': mcn,
                           'urls': [f % x for x in ts]}


# ---- how many URLs share each value: every population -------------------

POPS = {
    'length': ('aa', 'bb', 'a', 'b', 'aaa', 'bbb'),
    'sep': ('a-b', 'c-d', 'a--b', 'c--d', 'aa-b', 'cc-d'),
    'runs': ('a1', 'b2', '1a', '2b', 'a1a', 'b2b'),
    'dot': ('a.x', 'b.x', 'aa.x', 'bb.x', 'a.y', 'b.y'),
    'mix': ('a1b2', 'c3d4', '1a2b', '3c4d', 'a12b', 'c34d'),
}
LAYOUTS = {'post': H + '/%s/%s', 'pre': H + '/%s/%s', 'query': H + '/%s?k=%s'}
POP_ROWS = [('length', 'post'), ('length', 'pre'), ('length', 'query'),
            ('sep', 'post'), ('runs', 'post'), ('dot', 'post'),
            ('dot', 'pre'), ('mix', 'post')]


def pop_tasks(tier, mults=(0, 1, 2, 3, 5), mcns=(3, 5)):
    """Six values of one component, three shapes with two texts each; every
    number of URLs for each of the values (up to the exchange of the texts of
    a shape)."""
    if tier != 'quick':
        mults, mcns = (0, 1, 2, 3, 4, 5, 7), (2, 3, 4, 5, 6)
    pairs = [(a, b) for a in mults for b in mults if a >= b]
    return [('N', f, lay, mcn, p, pairs) for f, lay in POP_ROWS
            for mcn in mcns for p in pairs]


def pop_cases(task):
    _, f, lay, mcn, p, pairs = task
    for q in pairs:
        for r in pairs:
            urls = []
            for v, n in zip(POPS[f], tuple(p) + tuple(q) + tuple(r)):
                for x in 'xyzuvwt'[:n]:
                    urls.append(LAYOUTS[lay] % (
                        (x, v) if lay == 'pre' else (v, x)))
            if len(urls) > 1:
                yield {'universe': 'pop:%s:%s' % (f, lay), 'mcn': mcn,
                       'urls': urls}


def cluster_tasks(tier, **kw):
    """The standard exploration of the clustering properties."""
    q = tier == 'quick'
    tasks = [('S',) + t for t in subset_tasks(universes(tier, **kw))]
    tup = []
    for alphabet, n, k, mcns in (
            [('ab1', 3, 3, (2, 3)), ('aB1', 3, 3, (2, 3)),
             ('a1.', 3, 3, (2, 3)), ('a-.', 3, 3, (2, 3)),
             ('a1%', 3, 3, (2, 3)), ('a[\\', 3, 3, (2,))] if q else
            [('ab12', 3, 3, (2, 3)), ('aB1.', 3, 3, (2, 3)),
             ('ab.-', 3, 3, (2, 3)), ('a1.-', 3, 3, (2, 3)),
             ('a1%', 4, 3, (2, 3)), ('a[\\', 4, 3, (2, 3)),
             ('a{1', 4, 3, (2, 3)), ('aB1', 3, 4, (2, 3, 4)),
             ('a.', 5, 3, (2, 3)), ('a1', 4, 4, (3, 4))]):
        tup += [('T',) + t for t in tuple_tasks(alphabet, n, k, mcns)]
    # pack small tuple tasks together
    packed = []
    for i in range(0, len(tup), 8):
        packed.append(('P', tup[i:i + 8]))
    from . import scale
    return tasks + packed + scale.tasks(tier) + shape_tasks(tier) + \
        (pop_tasks(tier, (0, 1, 3, 4), (3, 4)) if q else pop_tasks(tier))


def cluster_cases(task):
    if task[0] == 'S':
        return subset_cases(task[1:])
    if task[0] == 'T':
        return tuple_cases(task[1:])
    if task[0] == 'Z':
        from . import scale
        return scale.cases(task)
    if task[0] == 'H':
        return shape_cases(task)
    if task[0] == 'N':
        return pop_cases(task)
    return itertools.chain.from_iterable(cluster_cases(t) for t in task[1])
