"""Thin driver of the real os_urlpattern (imported from /repo/src)."""
import os
import sys

REPO_SRC = os.environ.get('MC_REPO_SRC', '/repo/src')
if REPO_SRC not in sys.path:
    sys.path.insert(0, REPO_SRC)

import os_urlpattern  # noqa: E402
assert os.path.dirname(os.path.abspath(os_urlpattern.__file__)).startswith(
    os.path.abspath(REPO_SRC)), os_urlpattern.__file__
from os_urlpattern import parse_utils  # noqa: E402
from os_urlpattern import parser as parser_mod  # noqa: E402
from os_urlpattern.config import get_default_config  # noqa: E402
from os_urlpattern.formatter import pformat  # noqa: E402
from os_urlpattern.parser import fuzzy_digest, parse  # noqa: E402
from os_urlpattern.pattern import Pattern  # noqa: E402
from os_urlpattern.pattern_maker import Maker, PatternMaker  # noqa: E402
from os_urlpattern.pattern_matcher import Matcher, PatternMatcher  # noqa: E402
from os_urlpattern.utils import dump_tree  # noqa: E402

_CFG = {}


def config(mcn):
    """Config object with the given min_cluster_num (cached, read only)."""
    if mcn not in _CFG:
        c = get_default_config()
        if mcn is not None:
            c.set('make', 'min_cluster_num', str(mcn))
        _CFG[mcn] = c
    return _CFG[mcn]


class Cluster(object):
    __slots__ = ('meta', 'pattern', 'members', 'paths', 'count', 'structure')

    def __repr__(self):
        return '<%s %s %s>' % (self.pattern, self.count, sorted(self.members))


def read_cluster(url_meta, root):
    c = Cluster()
    c.meta = url_meta
    ps = list(pformat('pattern', url_meta, root))
    c.pattern = ps[0] if len(ps) == 1 else None
    if len(ps) != 1:
        raise AssertionError('%d patterns for one cluster: %r' % (len(ps), ps))
    c.members = []
    c.paths = 0
    for nodes in dump_tree(root):
        c.paths += 1
        if nodes[-1].meta is not None:
            c.members.extend(nodes[-1].meta)
    c.count = root.count
    c.structure = (url_meta.path_depth, tuple(url_meta.query_keys),
                   bool(url_meta.has_fragment))
    return c


def load(urls, mcn=3, maker=None):
    pm = PatternMaker(config(mcn)) if maker is None else maker
    for u in urls:
        pm.load(u, meta=u)
    return pm


def make(pm):
    return [read_cluster(m, r) for m, r in pm.make()]


def cluster(urls, mcn=3):
    return make(load(urls, mcn))


def canon(clusters):
    """Order-free view of a clustering result."""
    return sorted((c.pattern, c.count, tuple(sorted(c.members)))
                  for c in clusters)


def matcher(patterns):
    m = PatternMatcher()
    for p in patterns:
        m.load(p, meta=p)
    return m


def matched(m, url):
    return [n.meta for n in m.match(url)]
