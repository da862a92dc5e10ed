"""C11: a URL is decomposed into the documented structure without loss."""
import itertools

from .. import impl, ref, scale, universe

ID = 'C11'
BOUNDS = {
    'quick': 'every string of <= 6..8 characters over 6 alphabets of '
             'separators and letters after http://h (2.9 M URLs); every '
             'string of <= 4 characters after 9 other prefixes (schemes, '
             'hosts, ports, users, none); each of 0x20-0x17f and 19 other '
             'code points at 14 places of a URL; the size sweep',
    'thorough': '<= 7..9 characters, prefixes with <= 5 characters',
}
ASSUMPTIONS = ['control characters or blanks before the URL are left out: the '
               'standard library removes them before the package sees them', 'schemes are http, https, ftp or none']

ALPHA = [('a/?#&=;', 7, 8), ('a1/?#=-', 7, 7), ('ab?&=', 8, 9),
         ('a/;?#', 8, 9), ('[a]/?=\\', 6, 7), ('a\t/?#&=', 5, 6)]
PREFIX = ['http://h', 'https://h', 'ftp://h', 'HTTP://H.ORG', 'http://h:80',
          'http://u:p@h', 'http://', 'http:', 'h', '']
PLACES = ['/%s', '/a%s', '/%sa', '/a%sb/c', '/x?%s', '/x?%s=1', '/x?a%s=1',
          '/x?k=%s', '/x?k=a%sb', '/x?a=1&%s=2', '/x?a=1&b=%s', '/x#%s',
          '/x#a%s', '/x?a=1#%sb']
POINTS = [chr(c) for c in range(0x21, 0x180)] + [' ', '\u0660', '\u2028',
          '\u3042', '\uff10', '\uff21', '\U0001d7d8', '\u0301', '\ufeff',
          '\u00aa', '\x7f', '\x1b', '\x00', '\t', '\r', '\n', '\x0b', '\x0c',
          '\x85']


def tasks(tier):
    q = tier == 'quick'
    out = []
    for a, n, m in ALPHA:
        k = n if q else m
        # not in the host
        pre = 'http://h/' if '[' in a or '\t' in a else 'http://h'
        for first in itertools.product(a, repeat=2):
            out.append(('STR', pre, a, ''.join(first), k - 2))
        out.append(('SHORT', pre, a))
    for pre in PREFIX:
        for c in 'a/?#&=;':
            out.append(('STR', pre, 'a/?#&=;', c, 3 if q else 4))
    for pl in PLACES:
        out.append(('PLACE', pl))
    for t in scale.tasks(tier):
        out.append(t)
    for n in scale.steps(tier):
        out.append(('SIZE', n))
    return out


def cases(task):
    if task[0] == 'STR':
        _, pre, a, first, n = task
        if not pre and first == '/':
            return
        for k in range(0, n + 1):
            for t in itertools.product(a, repeat=k):
                yield {'url': pre + first + ''.join(t)}
    elif task[0] == 'Z':
        for name, us, _ in task[1]:
            for u in us:
                yield {'url': u}
                yield {'url': u + '#'}
            yield {'url': us[-1] + '`'}
            yield {'url': us[-1] + '&'}
    elif task[0] == 'SIZE':
        n = task[1]
        for u in ('/' * n, '/a' + '/' * n + 'b', '/a' + ';' * n, ';' * n,
                  '/a?' + '=' * n, '/a?' + '&' * n, '/a#' + '#' * n,
                  '/a?' + '?' * n, '/a?k' + '=' * n + 'v', '/a;' + 'p' * n,
                  '/' + 'a' * n + '`', '/a?' + 'k' * n + '`', '/a/' * n + '`',
                  '/a?' + 'a&' * n + 'b', '/a?' + 'a=&' * n + 'b=',
                  '/a?' + 'a&' * n, '/a?k=' + 'a' * n + '`b',
                  '/' + 'a;p/' * n, '/' + 'a;p/' * n + 'b;c', '/a?k=v' +
                  '/' * n, '/a?k=v' + ';' * n, '/a#' + '?' * n + '&', '/a#' +
                  '/b' * n, '/a#' + 'b' * n + '`'):
            yield {'url': 'http://h' + u}
            yield {'url': 'http://' + 'h' * n + ':80' + u}
    elif task[0] == 'SHORT':
        yield {'url': task[1]}
        for c in task[2]:
            yield {'url': task[1] + c}
    else:
        for c in POINTS:
            yield {'url': 'http://h' + task[1].replace('%s', c)}
            yield {'url': 'http://h' + task[1].replace('%s', c + c)}


def observe(url):
    try:
        meta, pieces = impl.parse(url)
        return (meta.path_depth, tuple(meta.query_keys),
                bool(meta.has_fragment), tuple(p.piece for p in pieces))
    except Exception as e:
        return e


def evaluate(case, st):
    url = case['url']
    if url.startswith('/'):
        return []                        # a pattern, not a URL
    p = ref.try_parse(url)
    got = observe(url)
    st.states += 1
    st.transitions += 1
    st.traces += 1
    if p is None:
        if not isinstance(got, Exception):
            return ['%r should be refused but is parsed as %r' % (url, got)]
        st.incr('refused')
        return []
    want = (len(p.levels), p.keys, p.fragment is not None,
            tuple(ref.literal(c) for c in p.components))
    st.incr('accepted')
    st.outcome(want[:3])
    if isinstance(got, Exception):
        return ['%r should be accepted but is refused: %r' % (url, got)]
    if got != want:
        return ['%r is parsed as %r, expected %r' % (url, got, want)]
    if meta_depth(url) != len(p.components):
        return ['depth of %r is %r, expected %d' % (
            url, meta_depth(url), len(p.components))]
    return []


def meta_depth(url):
    return impl.parse(url)[0].depth
