"""Boring reference model of the documented behaviour, written from the README
and the docstrings; it shares no code with os_urlpattern and does not use
urllib, so it is an independent oracle.

Vocabulary
  char class  : 'l' (a-z), 'u' (A-Z), 'd' (0-9) or the sign itself
  component   : one path level / one query value / the fragment (raw text)
  structure   : (path levels, query keys in order, has fragment)
"""
import re

LOWER = 'abcdefghijklmnopqrstuvwxyz'
UPPER = LOWER.upper()
DIGIT = '0123456789'
ALNUM = LOWER + UPPER + DIGIT
# every printable ASCII char but space and '`'
SIGNS = ''.join(c for c in map(chr, range(0x21, 0x7f))
                if c not in ALNUM and c != '`')
LEGAL = ALNUM + SIGNS
# signs which are written with a backslash inside [...]
ESCAPED = '.+\\"\'()[]{}*$^?|!-'
RULES = {'l': 'a-z', 'u': 'A-Z', 'd': '0-9'}


class Reject(Exception):
    """The reference says the input must be refused."""


def cls(c):
    if c in LOWER:
        return 'l'
    if c in UPPER:
        return 'u'
    if c in DIGIT:
        return 'd'
    if c in SIGNS and len(c) == 1:
        return c
    raise Reject('illegal char %r' % c)


def rule(k):
    """Text of a class inside a [...] rule."""
    if k in RULES:
        return RULES[k]
    return '\\' + k if k in ESCAPED else k


def classes(text):
    return frozenset(cls(c) for c in text)


def fuzzy(text):
    """The text of the character-space set of a component."""
    return ''.join(sorted(rule(k) for k in classes(text)))


def runs(text):
    """Maximal runs of one character class: [(class, text)]."""
    out = []
    for c in text:
        k = cls(c)
        if out and out[-1][0] == k:
            out[-1][1] += c
        else:
            out.append([k, c])
    return [tuple(r) for r in out]


def sign_text(k, n):
    r = '[%s]' % rule(k)
    return r if n == 1 else '%s{%d}' % (r, n)


def literal(text):
    """The literal pattern of a component."""
    return ''.join(t if k in RULES else sign_text(k, len(t))
                   for k, t in runs(text))


# ---------------------------------------------------------------- URL --


def split_url(url):
    """-> (path, query or None, fragment or None) of scheme://netloc/..."""
    m = re.match(r'[A-Za-z][A-Za-z0-9+.\-]*:', url)
    rest = url[m.end():] if m else url
    if rest.startswith('//'):
        rest = rest[2:]
        i = min([rest.find(c) for c in '/?#' if c in rest] or [len(rest)])
        rest = rest[i:]
    fragment = query = None
    if '#' in rest:
        rest, fragment = rest.split('#', 1)
    if '?' in rest:
        rest, query = rest.split('?', 1)
    # <params> belong to the last path segment and are ignored
    head, sep, last = rest.rpartition('/')
    if ';' in last:
        last = last.split(';', 1)[0]
    return head + sep + last, query, fragment


def parse_query(query):
    if query is None:
        return (), ()
    if query == '':
        return ('',), ('',)
    keys, values = [], []
    for item in query.split('&'):
        if item == '':
            raise Reject("misplaced '&'")
        k, eq, v = item.partition('=')
        keys.append(k + eq)
        values.append(v)
    if len(keys) == 1 and not keys[0].endswith('='):
        keys, values = [''], [keys[0]]   # key-less
    return tuple(keys), tuple(values)


def key_text(key):
    """Normalized key: signs are bracketed, the final '=' is kept."""
    if key.endswith('='):
        return literal(key[:-1]) + '='
    return literal(key)


class Parsed(object):
    """The documented structure of one URL."""

    def __init__(self, url):
        path, query, fragment = split_url(url)
        levels = path.split('/')[1:]
        if not levels:
            raise Reject('no path')
        levels = [p for p in levels[:-1] if p] + levels[-1:]
        raw_keys, values = parse_query(query)
        self.levels = tuple(levels)
        self.keys = tuple(key_text(k) for k in raw_keys)
        self.raw_keys = raw_keys
        self.values = values
        self.fragment = fragment
        comps = tuple(levels) + values
        if fragment is not None:
            comps += (fragment,)
        self.components = comps
        for c in comps:
            classes(c)  # reject illegal chars
        self.structure = (len(levels), self.keys, fragment is not None)
        self.space = tuple(classes(c) for c in comps)
        # same bucket <=> same structure and same character spaces
        self.bucket = (self.structure, self.space)

    @property
    def text(self):
        """Canonical text which the URL pattern, as a regex, must accept."""
        s = '/' + '/'.join(self.levels)
        if self.raw_keys:
            s += '?' + '&'.join(k + v for k, v in
                                zip(self.raw_keys, self.values))
        if self.fragment is not None:
            s += '#' + self.fragment
        return s

    @property
    def literal_pattern(self):
        s = '/' + '/'.join(literal(x) for x in self.levels)
        if self.keys:
            s += '[\\?]' + '&'.join(k + literal(v) for k, v in
                                    zip(self.keys, self.values))
        if self.fragment is not None:
            s += '#' + literal(self.fragment)
        return s


def parse(url):
    return Parsed(url)


def try_parse(url):
    try:
        return Parsed(url)
    except Reject:
        return None


# ------------------------------------------------------------ pattern --

UNIT = re.compile(
    r'\[(?P<body>(?:\\.|[^\]\\])+)\](?:\{(?P<num>[0-9]+)\}|(?P<plus>\+))?'
    r'|(?P<lit>[A-Za-z]|[0-9])', re.S)
BODY = re.compile(r'a-z|A-Z|0-9|\\.|[^\\A-Za-z0-9]', re.S)
UNRULE = {'a-z': 'l', 'A-Z': 'u', '0-9': 'd'}


def tokens_component(component):
    """(text, classes, num) of the units of one component pattern; num is
    None for '+', else the fixed count."""
    i, out = 0, []
    while i < len(component):
        m = UNIT.match(component, i)
        if not m:
            raise Reject('bad pattern %r at %d' % (component, i))
        if m.group('lit') is not None:
            c = m.group('lit')
            out.append((c, frozenset([cls(c)]), 1))
        else:
            body = m.group('body')
            parts = BODY.findall(body)
            if ''.join(parts) != body:
                raise Reject('bad rule %r' % body)
            ks = []
            for p in parts:
                k = UNRULE[p] if p in UNRULE else p[-1]
                if rule(k) != p:
                    raise Reject('bad rule %r' % p)
                cls(p[-1])
                ks.append(k)
            num = None if m.group('plus') else int(m.group('num') or 1)
            if num is not None and num < max(1, len(set(ks))):
                raise Reject('insufficient count in %r' % m.group(0))
            out.append((m.group(0), frozenset(ks), num))
        i = m.end()
    return out


class PatternModel(object):
    """A URL pattern string read by the reference grammar: the path levels
    are separated by '/', the query starts at the first '[\\?]', its items are
    separated by '&' and their keys end with the first '=' (all signs inside
    a component are bracketed and none of these can occur there), the
    fragment starts at the first '#'."""

    def __init__(self, pattern):
        if not pattern.startswith('/'):
            raise Reject('must start with /')
        rest, query, fragment = pattern, None, None
        if '#' in rest:
            rest, fragment = rest.split('#', 1)
        if '[\\?]' in rest:
            rest, query = rest.split('[\\?]', 1)
        levels = rest.split('/')[1:]
        levels = [p for p in levels[:-1] if p] + levels[-1:]
        keys, values = parse_query(query)
        texts = list(levels) + list(values)
        if fragment is not None:
            texts.append(fragment)
        self.texts = tuple(texts)
        self.components = comps = [tokens_component(t) for t in texts]
        self.structure = (len(levels), tuple(keys), fragment is not None)
        self.space = tuple(frozenset().union(*[t[1] for t in c])
                           for c in comps)
        self.bucket = (self.structure, self.space)

    def component_text(self, i):
        return self.texts[i]

    def is_literal(self, i):
        """A component which stands for exactly one text."""
        return all(not text.startswith('[') or
                   (num is not None and len(ks) == 1
                    and not (ks & {'l', 'u', 'd'}))
                   for text, ks, num in self.components[i])

    @property
    def literal(self):
        return all(self.is_literal(i) for i in range(len(self.components)))

    def accepts(self, parsed):
        """Strict matching, by definition: same structure, same character
        space at every position, every component accepted as a regex."""
        if self.bucket != parsed.bucket:
            return False
        return all(re.fullmatch(self.component_text(i), c)
                   for i, c in enumerate(parsed.components))
