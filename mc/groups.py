"""Groups of URLs (all texts over a small alphabet at one URL position) with
all generated-form patterns of each of them; shared by the matching checks."""
import itertools
from functools import lru_cache

from . import forms, ref, universe

# (alphabet, longest text)
QUICK = [('ab1', 3), ('aB1', 3), ('a1.', 4), ('a-.', 4), ('a1%', 4),
         ('a1-.', 3), ('a[\\', 3), ('a{1', 3), ('a.mp3', 0)]
THOROUGH = [('ab1', 4), ('aB1', 4), ('a1.', 5), ('a-.', 5), ('a1%', 5),
            ('a1-.', 4), ('a[\\', 4), ('a{1', 4), ('aB1.', 4), ('a1-_', 4),
            ('a.mp3', 0), ('a"(', 3)]
# extra texts with realistic shapes, used when the length is 0
SHAPES = ['a.mp3', 'b.mp3', 'aa.mp3', 'a.mp4', 'a1.mp3', '1a.mp3', 'a-b.mp3',
          'b-a.mp3', '-ab.mp3', 'a.3mp', 'a-1.mp3', 'aB1-c.html',
          'a1B-c.html', 'a-b.', 'a-b.html', 'a.html', 'b.html', 'aa.htm',
          't-1-1.html', 't-2-1.html', 'aB-1.aB', 'a.b.c', 'a..b', 'a%b.c',
          '%E4%BD', '%E4%BD.html', 'a' * 10 + '.html', '1' * 12,
          'a' + '-' * 10 + 'b', 'a1b2c3_x', 'a1b2c3-x.mp3', 'a-b.a1b',
          'aB1', 'aB1C2', '..a', '.a', 'a.1.b', 'a_b.tar.gz']


@lru_cache(maxsize=None)
def texts(alphabet, n):
    if n == 0:
        return tuple(SHAPES)
    return tuple(''.join(t) for k in range(1, n + 1)
                 for t in itertools.product(alphabet, repeat=k))


@lru_cache(maxsize=4)
def group(ctx, alphabet, n):
    """[(url, parsed, frozenset of forms)] with only the text generalised in
    all its forms and the other components literal."""
    out = []
    for t in texts(alphabet, n):
        url = universe.CONTEXTS[ctx] % t
        p = ref.try_parse(url)
        if p is None:
            continue
        out.append((url, p, frozenset(one_forms(p, t))))
    return out


def one_forms(p, t, maxparts=6):
    i = [k for k, c in enumerate(p.components) if c == t]
    if not i:
        return []
    i = i[0] if len(i) == 1 else [k for k in i][-1]
    comps = [ref.literal(c) for c in p.components]
    out = []
    for f in forms.component_forms(t, i == len(p.levels) - 1, maxparts):
        c = list(comps)
        c[i] = f
        out.append(forms.url_pattern(p, c))
    return out


@lru_cache(maxsize=4)
def buckets(ctx, alphabet, n):
    """bucket -> (list of members of the group, sorted patterns)"""
    by = {}
    for u in group(ctx, alphabet, n):
        by.setdefault(u[1].bucket, []).append(u)
    out = []
    for b in sorted(by, key=repr):
        pats = set()
        for _, _, f in by[b]:
            pats |= f
        out.append((by[b], sorted(pats, key=lambda s: (len(s), s))))
    return out
