"""C07: same fuzzy digest iff same structure and same character spaces."""
import itertools
import json
import os
import subprocess
import sys

from .. import forms, groups, impl, ref, scale, universe

ID = 'C07'
CASE_SECONDS = 400
BOUNDS = {
    'quick': 'digests of all URLs over 7 alphabets (http://h/ + every string '
             'of <= 5..7 characters incl. / ? # & = ;) compared pairwise '
             'through one table each; one representative per subset of the '
             'character classes at 11 positions (all 1- to 3-subsets of the '
             '35 classes); every generated-form pattern of every text of the '
             'standard groups at every position; all pairs of spellings of '
             'the queries over 3 keys; the size sweep; the digests of 6524 '
             'URLs and patterns in 8 processes with other hash seeds',
    'thorough': 'one more character in every alphabet, 4-subsets of the '
                'classes, larger groups',
}
ASSUMPTIONS = ['MD5 does not collide on the explored inputs']

ALPHA = [('a/?#&=;', 7, 8), ('a1/?#=', 7, 8), ('a-z0/?#', 7, 8),
         ('a[]\\?=/', 6, 7), ('a?&=', 8, 9), ('aA1./', 7, 8),
         ('0-9a-z?=&', 6, 7)]
CLASSES = ['a', 'A', '1'] + list(ref.SIGNS)


def tasks(tier):
    q = tier == 'quick'
    out = [('TABLE', a, n if q else m) for a, n, m in ALPHA]
    out = out[:]
    for ctx in universe.CONTEXTS:
        out.append(('SPACES', ctx, 3 if q else 4))
        for a, n in (groups.QUICK if q else groups.THOROUGH):
            out.append(('FORMS', ctx, a, n))
    out.append(('QUERIES', 4 if q else 5))
    gs = list(scale.text_groups(tier))
    for i in range(0, len(gs), 20):
        out.append(('LONG', gs[i:i + 20]))
    out.append(('SIZES', tier))
    for seed in range(1, 9 if q else 33):
        out.append(('SEED', seed))
    return out


def seed_texts():
    """URLs and patterns whose digests are compared between processes."""
    out = []
    for ctx in universe.CONTEXTS:
        for ps in universe.PIECES.values():
            out += [universe.CONTEXTS[ctx] % t for t in ps[:6]]
    out += urls_of({'kind': 'QUERIES', 'args': [3]})
    out = [u for u in out if ref.try_parse(u)]
    pats = []
    for u in out:
        p = ref.parse(u)
        pats.append(p.literal_pattern)
        pats.append(forms.url_pattern(p, [
            c and '[%s]+' % ref.fuzzy(c) for c in p.components]))
    return out + list(dict.fromkeys(pats))


def seed_digests():
    return [impl.fuzzy_digest(x) for x in seed_texts()]


_OWN = []


def cases(task):
    if task[0] == 'FORMS':
        _, ctx, a, n = task
        for t in groups.texts(a, n):
            yield {'kind': 'forms', 'ctx': ctx, 'text': t}
    elif task[0] == 'LONG':
        for name, ctx, ts in task[1]:
            for t in ts:
                yield {'kind': 'forms', 'ctx': ctx, 'text': t, 'maxparts': 3}
    else:
        yield {'kind': task[0], 'args': list(task[1:])}


def urls_of(case):
    if case['kind'] == 'TABLE':
        alphabet, n = case['args']
        for k in range(0, n):
            for t in itertools.product(alphabet, repeat=k):
                yield 'http://h/' + ''.join(t)
    elif case['kind'] == 'SPACES':
        ctx, k = case['args']
        for m in range(0, k + 1):
            for t in itertools.combinations(CLASSES, m):
                yield universe.CONTEXTS[ctx].replace('%s', ''.join(t))
                if m in (2, 3):
                    yield universe.CONTEXTS[ctx].replace(
                        '%s', ''.join(t[::-1]) + t[0])
    elif case['kind'] == 'SIZES':
        for name, us, _ in scale.url_sets(case['args'][0]):
            for u in us[:40]:
                yield u
    elif case['kind'] == 'QUERIES':
        items = ['a', 'b', 'a=', 'b=', 'a=1', 'b=1', 'a=b', '=1', 'a==', '-',
                 'a-=', 'A=1', 'aa=1']
        for m in range(1, case['args'][0]):
            for t in itertools.product(items, repeat=m):
                for f in ('', '#', '#1'):
                    yield 'http://h/x?' + '&'.join(t) + f


def evaluate(case, st):
    bad = []
    if case['kind'] == 'SEED':
        # digests are compared between processes and machines
        env = dict(os.environ, PYTHONHASHSEED=str(case['args'][0]))
        p = subprocess.run(
            [sys.executable, '-W', 'ignore', '-c',
             'import json\nfrom mc.checks import c07\n'
             'print(json.dumps(c07.seed_digests()))'],
            cwd=os.path.dirname(os.path.dirname(os.path.dirname(
                os.path.abspath(__file__)))),
            env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode:
            raise AssertionError(p.stderr.decode()[-300:])
        if not _OWN:
            _OWN.extend(seed_digests())
        for x, a, b in zip(seed_texts(), _OWN, json.loads(p.stdout.decode())):
            st.states += 1
            st.transitions += 1
            if a != b and len(bad) < 3:
                bad.append('the digest of %s differs between two processes '
                           '(hash seed %s)' % (x, case['args'][0]))
        st.traces += 1
        st.incr('hash_seeds')
        return bad
    if case['kind'] == 'forms':
        url = universe.CONTEXTS[case['ctx']] % case['text']
        p = ref.try_parse(url)
        if p is None:
            return bad
        d = impl.fuzzy_digest(url)
        meta, pieces = impl.parse(url)
        if impl.fuzzy_digest(meta, pieces) != d:
            bad.append('digest of %s differs from that of its parsed form'
                       % url)
        pats = groups.one_forms(p, case['text'], case.get('maxparts', 6))
        pats.append(p.literal_pattern)
        for pat in pats:
            st.states += 1
            st.transitions += 1
            if impl.fuzzy_digest(pat) != d:
                bad.append('pattern %s has another digest than the URL %s it '
                           'describes' % (pat, url))
            m2, p2 = impl.parse(pat)
            if impl.fuzzy_digest(m2, p2) != impl.fuzzy_digest(pat):
                bad.append('digest of %s differs from that of its parsed form'
                           % pat)
        st.traces += 1
        return bad
    table, back = {}, {}
    for url in urls_of(case):
        p = ref.try_parse(url)
        if p is None:
            continue
        d = impl.fuzzy_digest(url)
        st.states += 1
        st.transitions += 1
        if d in table and table[d][0] != p.bucket:
            bad.append('%s and %s have the same digest but differ in '
                       'structure or character spaces' % (table[d][1], url))
        table.setdefault(d, (p.bucket, url))
        if p.bucket in back and back[p.bucket][0] != d:
            bad.append('%s and %s have the same structure and spaces but '
                       'different digests' % (back[p.bucket][1], url))
        back.setdefault(p.bucket, (d, url))
        if len(bad) > 4:
            break
    st.incr('buckets', len(back))
    st.traces += 1
    st.outcome(len(back))
    return bad
