"""C04: clusters depend only on the set of URLs and the configuration."""
import itertools
import json
import os
import subprocess
import sys

from .. import impl, ordset, ref, scale, universe

ID = 'C04'
BOUNDS = {
    'quick': 'every permutation of every subset with <= 4 URLs of the 6 '
             'first items of every path/grid universe (mcn 2), and every '
             'rotation and reversal of every subset of the standard '
             'universes of 6 items (mcn 2,3); every permutation of the '
             'blocks of every <=4-subset of the block universes; every '
             'duplication of one URL; 6 scheme/host/params decorations in '
             'every assignment for <= 4 URLs; 3 other orders, a repeated load '
             'and 2 set orders for the size sweeps (up to 70 URLs); 4 controlled set iteration '
             'orders; 3 orders of every population (0, 1, 2, 3, 5 URLs for '
             'each of 6 values of a component, 8 layouts, mcn 3 and 5); 16 '
             'hash seeds in fresh processes',
    'thorough': 'permutations up to 5 URLs, 8-item universes, 5-block '
                'permutations, 64 hash seeds',
}
ASSUMPTIONS = ['hash-ordered containers of the code are created through the '
               'builtin set in its modules (other orders are covered by the '
               'hash seeds only)']

DECOR = ['http://h', 'https://h', 'http://g.example.com', 'ftp://u@h:8080',
         'http://h', 'HTTP://H.org']
PARAMS = ';p=1'


def _us(tier, n):
    return [u for u in universe.universes(tier, size=n, contexts=False,
                                          signs=False)]


def tasks(tier):
    q = tier == 'quick'
    out = []
    n = 6 if q else 8
    kmax = 4 if q else 5
    for u in _us(tier, n):
        blocks = u.name.startswith('b_')
        items = u.items if blocks else u.items[:n]
        for k in range(2, kmax + 1):
            for first in range(len(items)):
                out.append(('PERM', u.name, items, k, first,
                            (2, 3) if blocks else (2,)))
        if not blocks:
            for mcn in (2, 3):
                for lo in range(1, 1 << len(items), 32):
                    out.append(('ROT', u.name, items, mcn, lo,
                                min(1 << len(items), lo + 32)))
            out.append(('DECOR', u.name, items))
    for name in ('query:run2', 'query2:sep', 'keyless:mix', 'frag:sepdot',
                 'mid:html', 'dir:mp3'):
        ctx, p = name.split(':')
        items = universe.singles(universe.CONTEXTS[ctx] % x
                                 for x in universe.PIECES[p][:6])
        for k in range(2, kmax + 1):
            for first in range(len(items)):
                out.append(('PERM', name, items, k, first, (2, 3)))
    for t in scale.tasks(tier):
        ts = [x for x in t[1] if len(x[1]) <= (70 if q else 300)]
        if ts:
            out.append(('SCALE', ts))
    out += universe.pop_tasks(tier)
    seeds = 16 if q else 64
    for s in range(seeds):
        out.append(('SEED', s, 1 if q else 4))
    return out


def cases(task):
    kind = task[0]
    if kind == 'PERM':
        _, name, items, k, first, mcns = task
        for comb in itertools.combinations(range(len(items)), k):
            if comb[0] != first:
                continue
            for mcn in mcns:
                yield {'kind': 'perm', 'universe': name, 'mcn': mcn,
                       'items': [items[i] for i in comb]}
    elif kind == 'ROT':
        _, name, items, mcn, lo, hi = task
        for mask in range(lo, hi):
            sel = [items[i] for i in range(len(items)) if mask >> i & 1]
            yield {'kind': 'rot', 'universe': name, 'mcn': mcn, 'items': sel}
    elif kind == 'SCALE':
        for c in scale.cases(task):
            yield {'kind': 'scale', 'universe': c['universe'],
                   'mcn': c['mcn'], 'items': [[u] for u in c['urls']]}
    elif kind == 'N':
        for c in universe.pop_cases(task):
            yield {'kind': 'pop', 'universe': c['universe'],
                   'mcn': c['mcn'], 'items': [[u] for u in c['urls']]}
    elif kind == 'DECOR':
        _, name, items = task
        for comb in itertools.combinations(items[:4], 3):
            yield {'kind': 'decor', 'universe': name, 'mcn': 2,
                   'items': list(comb)}
        yield {'kind': 'decor', 'universe': name, 'mcn': 3,
               'items': items[:4]}
    else:
        yield {'kind': 'seed', 'seed': task[1], 'scale': task[2]}


def shape(clusters):
    """(pattern, count, member texts), host independent."""
    return sorted((c.pattern, c.count,
                   tuple(sorted(set(ref.parse(u).text for u in c.members))))
                  for c in clusters)


def seed_result(scale):
    """Runs in a fresh process under another PYTHONHASHSEED."""
    out = []
    for u in universe.universes('quick', size=7, contexts=False, signs=False):
        n = len(u.items)
        masks = [(1 << n) - 1, 0x55 & ((1 << n) - 1) or 1]
        if scale > 1:
            masks += [(1 << n) - 1 - (1 << i) for i in range(n)]
        for mask in masks:
            urls = [x for i in range(n) if mask >> i & 1 for x in u.items[i]]
            if not urls:
                continue
            for mcn in (2, 3):
                out.append([u.name, mask, mcn,
                            impl.canon(impl.cluster(urls, mcn))])
    return out


_SEED0 = {}


def run_seed(seed, scale):
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    p = subprocess.run(
        [sys.executable, '-W', 'ignore', '-c',
         'import json,sys\nfrom mc.checks import c04\n'
         'print(json.dumps(c04.seed_result(%d)))' % scale],
        cwd=os.path.dirname(os.path.dirname(os.path.dirname(
            os.path.abspath(__file__)))),
        env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise AssertionError('clustering failed under hash seed %s: %s'
                             % (seed, p.stderr.decode()[-300:]))
    return json.loads(p.stdout.decode())


def evaluate(case, st):
    bad = []
    if case['kind'] == 'seed':
        scale = case['scale']
        if scale not in _SEED0:
            _SEED0[scale] = json.loads(json.dumps(seed_result(scale)))
        got = run_seed(case['seed'], scale)
        for a, b in zip(_SEED0[scale], got):
            st.states += 1
            st.transitions += 1
            if a != b:
                bad.append('hash seed %s changes the clusters of %s: %r != %r'
                           % (case['seed'], a[:3], b[3][:4], a[3][:4]))
        st.traces += 1
        st.incr('hash_seeds')
        return bad
    mcn, items = case['mcn'], case['items']
    flat = [u for it in items for u in it]
    base = shape(impl.cluster(flat, mcn))
    st.states += 1
    st.transitions += len(flat) + 1
    st.outcome(base)

    def same(urls, what):
        got = shape(impl.cluster(urls, mcn))
        st.transitions += len(urls) + 1
        st.traces += 1
        if got != base:
            bad.append('%s: loading %r gives %r, loading %r gives %r'
                       % (what, urls, got, flat, base))

    if case['kind'] == 'perm':
        for perm in itertools.permutations(items):
            urls = [u for it in perm for u in it]
            if urls != flat:
                same(urls, 'load order matters')
            if bad:
                return bad
        if any(len(i) > 1 for i in items):
            same([u for it in items for u in it[::-1]], 'load order matters')
            same([u for it in items[::-1] for u in it[::-1]],
                 'load order matters')
    elif case['kind'] == 'scale':
        n = len(flat)
        same(flat[::-1], 'load order matters')
        same(flat[n // 2:] + flat[:n // 2], 'load order matters')
        same(flat[1::2] + flat[::2], 'load order matters')
        same(flat + flat[:1], 'repeated loads matter')
        for mode in ordset.MODES[:2]:
            with ordset.controlled(mode):
                same(flat, 'set iteration order (%s) matters' % mode)
    elif case['kind'] == 'pop':
        n = len(flat)
        same(flat[::-1], 'load order matters')
        same(flat[n // 2:] + flat[:n // 2], 'load order matters')
    elif case['kind'] == 'rot':
        for i in range(1, len(flat)):
            same(flat[i:] + flat[:i], 'load order matters')
        rev = flat[::-1]
        for i in range(0, len(flat), 2):
            same(rev[i:] + rev[:i], 'load order matters')
        same(flat + flat, 'repeated loads matter')
        for i in range(len(flat)):
            same(flat + [flat[i]], 'repeated loads matter')
            same([flat[i]] + flat, 'repeated loads matter')
        for mode in ordset.MODES:
            with ordset.controlled(mode):
                same(flat, 'set iteration order (%s) matters' % mode)
    else:
        def deco(u, i):
            rest = u[len(universe.H):]
            if i == 4:
                p, sep, tail = rest, '', ''
                for s in '?#':
                    if s in p:
                        j = p.index(s)
                        p, tail = p[:j], p[j:] + tail
                rest = p + PARAMS + tail
            return DECOR[i] + rest
        for idx in itertools.product(range(len(DECOR)), repeat=len(flat)):
            if len(flat) > 3 and len(set(idx)) > 2:
                continue
            same([deco(u, i) for u, i in zip(flat, idx)],
                 'scheme/host/params matter')
            if bad:
                return bad
        # the same texts under several hosts are one and the same URL
        same([deco(u, i) for i in (0, 1, 2) for u in flat],
             'the host makes a URL different')
    return bad[:3]
