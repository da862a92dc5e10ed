"""C13: pattern strings round-trip, and malformed ones are refused."""
import itertools

from .. import impl, ref, scale, universe

ID = 'C13'
BOUNDS = {
    'quick': 'round trip of all URLs of <= 6 characters over 6 alphabets; '
             'every string of <= 6..7 characters over 6 alphabets of pattern '
             'syntax and every sequence of <= 3 (component) / <= 4 (whole '
             'pattern) tokens out of 41/17 decided by the reference grammar, '
             'with the units and their meaning compared when accepted; '
             'rules of every legal character, counts 0..130 and of every digit '
             'outside ASCII; the size sweep',
    'thorough': 'one or two more characters, one more token everywhere',
}
ASSUMPTIONS = ['query keys of a pattern are plain text, they are not judged']

ROUND = [('a/?#&=;', 6, 8), ('a1-/?#', 6, 8), ('a[]\\/', 6, 8),
         ('a{}1?=', 6, 8), ('A.%+?&', 6, 7), ('()*^$|', 6, 7)]
SYNTAX = [('a[]{}+2', 6, 8), ('a-z[]\\+', 6, 8), ('0a-9[]1', 6, 7),
          ('/a[\\?]&=', 6, 7), ('a/#=&[]', 6, 7), ('[\\]+-.', 7, 8)]
TOKENS = ['a', 'B', '1', '[a-z]', '[0-9]', '[A-Z]+', '[a-z]{2}', '[0-9a-z]',
          '[0-9a-z]{2}', '[0-9a-z]+', '[\\-]', '[\\-]{3}', '[\\[]', '[\\]]',
          '[\\\\]', '[%]', '[', ']', '{2}', '{', '}', '+', '-', '\\', '[a]',
          '[a-z]{0}', '[a-z]{10}', '[]', '[^a-z]', '[a-z-]', '[a-Z]', '[z-a]',
          '[a-z]*', '[a-z]?', '.', '[a-z]{2,3}', '[a-z]{ 2}', '[a-z]{-1}',
          '[\\d]', '[\\.', '[\\.\\.]{2}']
WHOLE = ['a', '[a-z]+', '[=]', '[&]', '[#]', '[/]', '[\\?]', '/', '&', '=',
         '#', '[\\-]', '1', '?', ';', '[', '[\\?]{2}']


def tasks(tier):
    q = tier == 'quick'
    out = []
    for a, n, m in ROUND:
        for c in a:
            out.append(('ROUND', a, c, (n if q else m) - 1))
    for a, n, m in SYNTAX:
        for c in itertools.product(a, repeat=2):
            out.append(('SYNTAX', a, ''.join(c), (n if q else m) - 2))
        out.append(('SHORT', a))
    for t in TOKENS:
        out.append(('TOK', t, 3 if q else 4))
    for t in WHOLE:
        out.append(('WHOLE', t, 4 if q else 5))
    out.append(('RULES',))
    gs = list(scale.text_groups(tier))
    for i in range(0, len(gs), 10):
        out.append(('FORMS', gs[i:i + 10]))
    out += scale.tasks(tier)
    for u, (fit, no) in scale.deep_urls(tier):
        out.append(('DEEP', list(fit) + list(no)))
    return out


def cases(task):
    kind = task[0]
    if kind == 'ROUND':
        _, a, c, n = task
        for k in range(0, n):
            for t in itertools.product(a, repeat=k):
                yield {'url': 'http://h/' + c + ''.join(t)}
    elif kind == 'SYNTAX':
        _, a, c, n = task
        for k in range(0, n + 1):
            for t in itertools.product(a, repeat=k):
                yield {'pattern': '/' + c + ''.join(t)}
    elif kind == 'SHORT':
        for c in task[1]:
            yield {'pattern': '/' + c}
    elif kind == 'TOK':
        _, t, n = task
        for k in range(0, n):
            for u in itertools.product(TOKENS, repeat=k):
                s = t + ''.join(u)
                yield {'pattern': '/' + s}
                if k < 2:
                    for f in ('/%s/x', '/x/%s', '/x[\\?]k=%s', '/x[\\?]%s',
                              '/x#%s', '/x[\\?]k=1&j=%s#1'):
                        yield {'pattern': f.replace('%s', s)}
    elif kind == 'FORMS':
        for name, ctx, ts in task[1]:
            ps = set()
            for t in ts:
                yield {'url': universe.CONTEXTS[ctx] % t}
            for _, _, f in scale.member_forms(ctx, ts):
                ps |= f
            for x in sorted(ps):
                for y in (x, x + '{2}', x + '[', x + 'a]', x + '-'):
                    yield {'pattern': y}
    elif kind == 'DEEP':
        for x in task[1]:
            yield {'pattern': x}
            yield {'pattern': x + '['}
            yield {'pattern': x + '&'}
    elif kind == 'Z':
        for name, us, _ in task[1]:
            for u in us:
                yield {'url': u}
    elif kind == 'WHOLE':
        _, t, n = task
        for k in range(0, n):
            for u in itertools.product(WHOLE, repeat=k):
                yield {'pattern': '/' + t + ''.join(u)}
    else:
        for c in map(chr, range(0x20, 0x100)):
            for body in (c, '\\' + c, 'a-z' + c, c + 'a-z', '\\' + c + '0-9'):
                for tail in ('', '+', '{2}', '{3}'):
                    yield {'pattern': '/x#[%s]%s' % (body, tail)}
            yield {'pattern': '/x#a' + c}
        for i in range(0x80, 0x20000):
            if chr(i).isdigit() or chr(i).isnumeric():
                yield {'pattern': '/[a-z]{%s}' % chr(i)}
                yield {'pattern': '/[a-z]{2%s}' % chr(i)}
                yield {'pattern': '/x[\\?]k=a[\\-]{%s}1' % chr(i)}
        for n in list(range(0, 131)) + [999, 1000]:
            for body in ('a-z', '0-9a-z', '\\-', '%0-9A-Za-z', '\\}', '\\]'):
                yield {'pattern': '/[%s]{%d}' % (body, n)}
                yield {'pattern': '/x[\\?]k=a[%s]{%d}1' % (body, n)}


def merge(tokens):
    """Units of the implementation: neighbouring letters/digits of one class
    are one literal unit."""
    out = []
    for text, ks, num in tokens:
        if not text.startswith('[') and out and not out[-1][0].startswith(
                '[') and out[-1][1] == ks:
            out[-1] = (out[-1][0] + text, ks, out[-1][2] + 1)
        else:
            out.append((text, ks, num))
    return out


def evaluate(case, st):
    bad = []
    st.states += 1
    if 'url' in case:
        p = ref.try_parse(case['url'])
        if p is None:
            return bad
        meta, pieces = impl.parse(case['url'])
        text = impl.parse_utils.pack(meta, [x.piece for x in pieces])
        st.transitions += 3
        if text != p.literal_pattern:
            bad.append('%r is packed as %r, expected %r' % (
                case['url'], text, p.literal_pattern))
        m2, pats = impl.parse(text)
        if (m2.path_depth, tuple(m2.query_keys), bool(m2.has_fragment)) != \
                (meta.path_depth, tuple(meta.query_keys),
                 bool(meta.has_fragment)):
            bad.append('%r packed and analysed again has the structure %r'
                       % (case['url'], m2))
        if tuple(str(x) for x in pats) != tuple(x.piece for x in pieces):
            bad.append('%r packed and analysed again has the components %r'
                       % (case['url'], pats))
        if impl.parse_utils.pack(m2, pats) != text:
            bad.append('%r is not stable under packing: %r' % (
                text, impl.parse_utils.pack(m2, pats)))
        st.traces += 1
        return bad
    text = case['pattern']
    try:
        model = ref.PatternModel(text)
    except ref.Reject:
        model = None
    try:
        impl.PatternMatcher().load(text)
        err = None
    except Exception as e:
        err = e
    st.transitions += 1
    st.traces += 1
    if model is None:
        st.incr('refused')
        if err is None:
            bad.append('malformed pattern %r is accepted' % text)
        return bad
    st.incr('accepted')
    if err is not None:
        return ['valid pattern %r is refused: %r' % (text, err)]
    meta, pats = impl.parse(text)
    if (meta.path_depth, tuple(meta.query_keys),
            bool(meta.has_fragment)) != model.structure:
        bad.append('%r has the structure %r, expected %r' % (
            text, meta, model.structure))
    if tuple(str(p) for p in pats) != model.texts:
        bad.append('%r has the components %r, expected %r' % (
            text, pats, model.texts))
        return bad
    for p, c, t in zip(pats, model.components, model.texts):
        units = p.pattern_units
        if ''.join(u.pattern_unit_string for u in units) != t:
            bad.append('the units of %r do not concatenate to it: %r' % (
                t, units))
        want = [(a, ''.join(sorted(ref.rule(k) for k in b)),
                 -1 if n is None else n) for a, b, n in merge(c)]
        got = [(u.pattern_unit_string, u.fuzzy_rule, u.num) for u in units]
        if t and got != want:
            bad.append('%r has the units %r, expected %r' % (t, got, want))
    return bad[:4]
