"""The pattern forms the tool generates for one component, and for a URL.

For a component text the generated forms are
  literal   : the text itself, signs bracketed
  runs      : every maximal run literal, [c]{n} or [c]+
  groups    : neighbouring letter/digit/% runs merged, each group literal,
              [set]{n} or [set]+, signs literal or [s]+
  last dot  : (last path level) head.ext split at the last dot, the head
              literal, [set]{n} or [set]+, the dot literal or +, ext literal
  whole     : [set]{n} or [set]+
"""
import itertools

from . import ref

MAJOR = 'lud%'


def part(text, group):
    """Choices for one part (a run or a merged group) of a component."""
    f = ref.fuzzy(text)
    n = len(text)
    out = [ref.literal(text)]
    fixed = '[%s]' % f if n == 1 else '[%s]{%d}' % (f, n)
    for x in (fixed, '[%s]+' % f):
        if x not in out:
            out.append(x)
    return out


def groups(text):
    out = []
    last = None
    for k, t in ref.runs(text):
        m = k in MAJOR
        if m and last:
            out[-1] += t
        else:
            out.append(t)
        last = m
    return out


def last_dot(text):
    """head, dots, ext of the documented last-dot split, or None."""
    rs = ref.runs(text)
    for i in range(1, 4):
        if len(rs) - i < 0:
            break
        if rs[-i][0] == '.':
            d = len(rs) - i
            tail = rs[d + 1:]
            if any(k not in 'lud' for k, _ in tail) or d == 0:
                return None
            return (''.join(t for _, t in rs[:d]), rs[d][1],
                    ''.join(t for _, t in tail))
    return None


def views(text, is_last_path):
    """[(name, list of part texts)]"""
    rs = [t for _, t in ref.runs(text)]
    out = [('runs', rs)]
    g = groups(text)
    if g != rs:
        out.append(('groups', g))
    if is_last_path:
        ld = last_dot(text)
        if ld:
            p = [x for x in ld if x]
            if p not in (rs, g):
                out.append(('lastdot', p))
    if [text] not in [x for _, x in out]:
        out.append(('whole', [text]))
    return out


def component_forms(text, is_last_path=False, maxparts=6):
    """All generated-form patterns accepting the component."""
    if text == '':
        return ['']
    out = []

    def add(x):
        if x not in out:
            out.append(x)
    add(ref.literal(text))
    for name, parts in views(text, is_last_path):
        choices = [part(p, name) for p in parts]
        if len(parts) > maxparts:      # too many: one part at a time, or all
            lit = [c[0] for c in choices]
            for k in (1, -1):
                add(''.join(c[min(k, len(c) - 1)] for c in choices))
                for i in sorted({0, len(parts) // 2, len(parts) - 1}):
                    c = list(lit)
                    c[i] = choices[i][min(k, len(choices[i]) - 1)]
                    add(''.join(c))
            continue
        if name == 'lastdot' and len(parts) == 3:
            choices[2] = choices[2][:1]       # the extension stays literal
        for t in itertools.product(*choices):
            add(''.join(t))
    return out


def url_pattern(parsed, comps):
    s = '/' + '/'.join(comps[:len(parsed.levels)])
    i = len(parsed.levels)
    if parsed.keys:
        j = i + len(parsed.keys)
        s += '[\\?]' + '&'.join(k + v for k, v in zip(parsed.keys, comps[i:j]))
        i = j
    if parsed.fragment is not None:
        s += '#' + comps[i]
    return s


def url_forms(parsed, limit=None):
    """All combinations of component forms of a URL."""
    n = len(parsed.levels)
    per = [component_forms(c, i == n - 1) for i, c in
           enumerate(parsed.components)]
    for i, t in enumerate(itertools.product(*per)):
        if limit is not None and i >= limit:
            return
        yield url_pattern(parsed, t)
