"""C17: all output formats describe the same clusters."""
import json

from .. import impl, ref, scale, universe

ID = 'C17'
BOUNDS = {
    'quick': 'all subsets of 6-item shape universes (6 contexts), grids, '
             'blocks of <= 8 populations and 23 structure-varied URLs taken '
             '<= 3 at a time, min_cluster_num 2,3; every cluster in all 6 '
             'formats with 7 assignments of metas (URL; two per URL; ints; '
             'loaded twice; on every other URL; none; empty and odd texts); '
             'every combined tree against the clusters, and its ete drawing; '
             'the size sweep',
    'thorough': '8-item universes, all contexts, min_cluster_num 2..4',
}
ASSUMPTIONS = ['metas are hashable and differ from URL to URL',
               'ete3 draws a given tree of names correctly']
CASE_SECONDS = 120
KINDS = ['url', 'two', 'int', 'dup', 'some', 'none', 'odd']


def tasks(tier):
    q = tier == 'quick'
    us = universe.universes(tier, size=6 if q else 8, signs=False)
    out = []
    for u in us:
        if q and u.name.split(':')[0] in (
                'mid', 'first', 'last', 'query1', 'keyless'):
            continue
        for mcn in u.mcns:
            if q and mcn > 3:
                continue
            n = 1 << len(u.items)
            for lo in range(1, n, 32):
                out.append((u.name, u.items, mcn, lo, min(n, lo + 32)))
    st = universe.STRUCTURES
    for i in range(0, len(st) - 2):
        out.append(('structures', [[x] for x in st[i:i + 7]], 2, 1,
                    1 << len(st[i:i + 7])))
    return out + scale.tasks(tier)


def cases(task):
    if task[0] == 'Z':
        return scaled(task)
    return universe.subset_cases(task)


def scaled(task):
    for c in scale.cases(task):
        if len(c['urls']) > 100 or len(max(c['urls'], key=len)) > 150:
            c['kinds'] = ['url', 'two']
        else:
            c['kinds'] = ['url', 'int', 'dup']
        yield c


def metas(kind, urls):
    """[(url, meta)] in load order."""
    out = []
    for i, u in enumerate(urls):
        if kind == 'url':
            out.append((u, u))
        elif kind == 'two':
            out += [(u, u + ' first'), (u, u + ' second')]
        elif kind == 'int':
            out.append((u, i))
        elif kind == 'dup':
            out += [(u, u), (u, u)]
        elif kind == 'some':
            out.append((u, u if i % 2 else None))
        elif kind == 'none':
            out.append((u, None))
        elif kind == 'odd':
            out += [(u, 'x\ty %d' % i), (u, '' if i == 0 else '\u4f60%d' % i)]
    return out


def paths(node, prefix=()):
    """Independent walk of a tree: (node, ...) below the root per leaf."""
    kids = list(node.children)
    if not kids:
        yield prefix
    for k in kids:
        for p in paths(k, prefix + (k,)):
            yield p


def label(meta, level, text, count):
    keys = list(meta.query_keys)
    d, k = meta.path_depth, len(keys)
    pre = ''
    if d < level <= d + k:
        pre = '[\\?]' if level == d + 1 else '&'
        pre += keys[level - d - 1]
    elif level == d + k + 1:
        pre = '#'
    return ' %s%s(%d) ' % (pre, text, count)


def draw(meta, root):
    from ete3 import Tree

    def add(node, level):
        t = Tree(name=label(meta, level, str(node.value), node.count))
        for c in node.children:
            t.add_child(add(c, level + 1))
        return t
    return add(root, 0).get_ascii(show_internal=True)


def join(meta, parts):
    keys = list(meta.query_keys)
    d, k = meta.path_depth, len(keys)
    s = '/' + '/'.join(parts[:d])
    if k:
        s += '[\\?]' + '&'.join(a + b for a, b in zip(keys, parts[d:d + k]))
    if len(parts) > d + k:
        s += '#' + '/'.join(parts[d + k:])
    return s


def evaluate(case, st):
    bad = []
    urls, mcn = case['urls'], case['mcn']
    cfg = impl.config(mcn)
    ident = dict((u, ref.parse(u)) for u in urls)
    keyof = dict((u, (p.structure, tuple(p.components)))
                 for u, p in ident.items())
    base = None
    st.states += 1
    for kind in case.get('kinds', KINDS):
        pm = impl.PatternMaker(cfg)
        seq = metas(kind, urls)
        for u, m in seq:
            pm.load(u, meta=m)
        st.transitions += len(seq)
        owner = dict((str(m), u) for u, m in seq if m is not None)
        seen = []
        pats = []
        by_maker = []
        for maker in pm.makers:
            meta = maker.url_meta
            mine = []
            for root in maker.make():
                out = dict((f, list(impl.pformat(f, meta, root))) for f in
                           ('pattern', 'cluster', 'inline', 'json', 'null'))
                out['PATTERN'] = list(impl.pformat('PATTERN', meta, root))
                st.transitions += 6
                if len(out['pattern']) != 1 or out['PATTERN'] != out[
                        'pattern']:
                    bad.append('pattern format gives %r / %r' % (
                        out['pattern'], out['PATTERN']))
                    continue
                p = out['pattern'][0]
                pats.append(p)
                inside = []
                for nodes in paths(root):
                    inside += [str(x) for x in nodes[-1].meta or ()]
                seen += inside
                want = sorted('\t' + x for x in inside)
                if out['cluster'][:1] != [p] or sorted(
                        out['cluster'][1:]) != want:
                    bad.append('%s metas: cluster format gives %r for the '
                               'cluster %s %r' % (kind, out['cluster'], p,
                                                  inside))
                if sorted(out['inline']) != [p + x for x in want]:
                    bad.append('%s metas: inline format gives %r for the '
                               'cluster %s %r' % (kind, out['inline'], p,
                                                  inside))
                if out['null']:
                    bad.append('null format gives %r' % out['null'])
                try:
                    js = [json.loads(x) for x in out['json']]
                except ValueError:
                    js = None
                n = root.count
                if kind in ('url', 'two', 'int', 'dup', 'odd'):
                    n = len(set(keyof[owner[x]] for x in inside
                                if x in owner))
                if js != [{'ptn': p, 'cnt': n}]:
                    bad.append('%s metas: json format gives %r for the '
                               'cluster %s of %d URLs' % (kind, out['json'],
                                                          p, n))
                mine.append((p, n))
            by_maker.append((meta, mine))
        if sorted(seen) != sorted(owner):
            bad.append('%s metas: loaded %r, shown %r' % (
                kind, sorted(owner), sorted(seen)))
        if base is None:
            base = sorted(pats)
        elif base != sorted(pats):
            bad.append('patterns depend on metas: %r, %r' % (
                base, sorted(pats)))
        if kind != 'url' and (kind != 'none' or len(urls) > 3):
            continue
        # combined
        pc = impl.PatternMaker(cfg)
        for u, m in seq:
            pc.load(u, meta=m)
        got = list(pc.make(combine=True))
        st.transitions += len(seq) + len(got)
        if len(got) != len(by_maker):
            bad.append('%d combined trees for %d digests' % (len(got),
                                                             len(by_maker)))
        trees = {}
        for meta, root in got:
            sums = {}
            for nodes in paths(root):
                p = join(meta, [str(n.value) for n in nodes])
                sums[p] = sums.get(p, 0) + nodes[-1].count
            key = tuple(sorted(sums.items()))
            trees[key] = trees.get(key, 0) + 1

            def balance(node, level):
                kids = list(node.children)
                if kids and sum(c.count for c in kids) != node.count:
                    bad.append('combined tree node %s counts %d, below %r' % (
                        node.value, node.count, [c.count for c in kids]))
                if len(set(str(c.value) for c in kids)) != len(kids):
                    bad.append('combined tree has equal siblings below %s'
                               % node.value)
                for c in kids:
                    balance(c, level + 1)
            balance(root, 0)
            ete = list(impl.pformat('ete', meta, root))
            st.transitions += 1
            want = draw(meta, root)
            if ete != [want]:
                bad.append('ete draws\n%s\nexpected\n%s' % (
                    '\n'.join(ete), want))
        want = {}
        for meta, mine in by_maker:
            sums = {}
            for p, n in mine:
                sums[p] = sums.get(p, 0) + n
            key = tuple(sorted(sums.items()))
            want[key] = want.get(key, 0) + 1
        if want != trees:
            bad.append('combined trees hold %r, the clusters are %r' % (
                sorted(trees), sorted(want)))
    st.traces += 1
    st.outcome(base)
    return bad[:4]
