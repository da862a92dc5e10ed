"""C12: components are split into maximal character-space runs."""
import itertools
import re

from .. import impl, ref, scale

ID = 'C12'
BOUNDS = {
    'quick': 'every text of <= 6..8 characters over 9 alphabets with at least '
             'one member of each character space and all bracket, brace, '
             'backslash and escaped signs; every pair of legal characters; '
             'every code point up to 0x2fff and 12 others; runs of 1..130 '
             'and 999..1001 of each of the 35 classes, alone and between '
             'others; texts of 1..257 runs; as fragment, as path level, query value and query key',
    'thorough': 'one more character in every alphabet; every triple of legal '
                'characters of the signs',
}
ASSUMPTIONS = ['regexes are judged by Python\'s re']

ALPHA = [('aA1-', 7, 8), ('a[]', 8, 9), ('a{}1', 7, 8), ('[]{}\\', 6, 7),
         ('a\\[', 8, 9), ('a.+*', 6, 7), ('1{2}', 7, 8), ('\\"\'(', 6, 7),
         ('%a1.', 6, 7)]
PAIRS = ref.LEGAL


def tasks(tier):
    q = tier == 'quick'
    out = []
    for a, n, m in ALPHA:
        for c in a:
            out.append(('STR', a, c, (n if q else m) - 1))
    for c in PAIRS:
        out.append(('PAIR', c))
    for lo in range(0, 0x3000, 0x200):
        out.append(('CHARS', lo))
    for c in 'aA1' + ref.SIGNS:
        out.append(('RUNS', c))
    for n in scale.steps(tier):
        out.append(('SIZE', n))
    if not q:
        for c in ref.SIGNS:
            out.append(('TRIPLE', c))
    return out


def cases(task):
    if task[0] == 'STR':
        _, a, c, n = task
        for k in range(0, n + 1):
            for t in itertools.product(a, repeat=k):
                yield {'text': c + ''.join(t)}
    elif task[0] == 'PAIR':
        for c in PAIRS:
            yield {'text': task[1] + c}
            yield {'text': task[1] + c + task[1]}
    elif task[0] == 'TRIPLE':
        for t in itertools.product(ref.SIGNS + 'a1', repeat=2):
            yield {'text': task[1] + ''.join(t)}
    elif task[0] == 'CHARS':
        for i in range(task[1], task[1] + 0x200):
            yield {'text': 'a' + chr(i) + 'b'}
    elif task[0] == 'SIZE':
        n = task[1]
        for ts in scale.values(n).values():
            for t in ts:
                yield {'text': t}
                yield {'text': t + '`'}
                yield {'text': t[:n // 2] + '\u00e9' + t[n // 2:]}
        for a in ('ab-', 'aA', '1a', '-.', '[]', '{1}', '\\a', '%41', '\\['):
            yield {'text': scale.alt(a, n)}
            yield {'text': scale.alt(a, n) + a[0]}
    else:
        c = task[1]
        for n in list(range(1, 131)) + [999, 1000, 1001]:
            yield {'text': c * n}
            yield {'text': 'x' + c * n + 'y-'}
            yield {'text': c * n + '[' * (n % 7) + '{' + c * n}


def observe(url, i):
    try:
        return impl.parse(url)[1][i]
    except Exception as e:
        return e


def evaluate(case, st):
    text = case['text']
    bad = []
    try:
        rs = ref.runs(text)
    except ref.Reject:
        rs = None
    places = [('http://h/x#' + text, -1)]
    if rs is not None and not set(text) & set('/?#;'):
        places.append(('http://h/' + text + '/y', 0))
        places.append(('http://h/y/' + text, 1))
    if rs is not None and not set(text) & set('#&'):
        places.append(('http://h/x?k=' + text, 1))
    for url, i in places:
        st.states += 1
        st.transitions += 1
        p = observe(url, i)
        if rs is None:
            if not isinstance(p, Exception):
                bad.append('%r holds an illegal character but is accepted'
                           % url)
            continue
        if isinstance(p, Exception):
            bad.append('%r is refused: %r' % (url, p))
            continue
        want = tuple(t if k in ref.RULES else ref.sign_text(k, len(t))
                     for k, t in rs)
        if tuple(p.pieces) != want:
            bad.append('%r is split into %r, expected %r' % (
                text, p.pieces, want))
            continue
        if tuple(p.rules) != tuple(ref.rule(k) for k, _ in rs):
            bad.append('%r has the rules %r' % (text, p.rules))
        if p.piece != ''.join(want):
            bad.append('%r has the piece %r' % (text, p.piece))
        if p.piece_length != len(text):
            bad.append('%r has the length %r' % (text, p.piece_length))
        if p.fuzzy_rule != ref.fuzzy(text):
            bad.append('%r has the character space %r, expected %r' % (
                text, p.fuzzy_rule, ref.fuzzy(text)))
        if len(text) < 500 and not re.fullmatch(p.piece, text):
            bad.append('%r is not accepted by its own piece %r as a regex'
                       % (text, p.piece))
    if rs is not None and not set(text) & set('#&='):
        url = 'http://h/x?%s=1' % text
        st.transitions += 1
        try:
            key = impl.parse(url)[0].query_keys
        except Exception as e:
            key = e
        if key != (ref.literal(text) + '=',):
            bad.append('key of %r is %r' % (url, key))
    st.traces += 1
    return bad[:4]
