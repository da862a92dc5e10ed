"""A set whose iteration order is decided by the harness (insertion order,
reversed insertion order or sorted by a salt), to own the nondeterminism of
hash-ordered containers of the code under test."""
import contextlib
import sys

MODE = ['insertion']


class OSet(set):
    """Iterates in a controlled order; otherwise a plain set."""

    def __init__(self, *a):
        self._seq = {}
        set.__init__(self)
        if a:
            for x in a[0]:
                self.add(x)

    def add(self, x):
        set.add(self, x)
        self._seq.setdefault(x, len(self._seq))

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def discard(self, x):
        set.discard(self, x)
        self._seq.pop(x, None)

    def remove(self, x):
        set.remove(self, x)
        self._seq.pop(x, None)

    def __iter__(self):
        xs = [x for x in self._seq if set.__contains__(self, x)]
        if len(xs) != set.__len__(self):     # mutated behind our back
            xs = list(set.__iter__(self))
        mode = MODE[0]
        if mode == 'reversed':
            xs.reverse()
        elif mode == 'rotated' and xs:
            k = len(xs) // 2
            xs = xs[k:] + xs[:k]
        elif mode == 'evenodd':
            xs = xs[1::2] + xs[0::2]
        return iter(xs)

    __hash__ = None


MODES = ('insertion', 'reversed', 'rotated', 'evenodd')


@contextlib.contextmanager
def controlled(mode):
    """Let the modules of os_urlpattern create OSet instead of set."""
    mods = [m for n, m in list(sys.modules.items())
            if n.startswith('os_urlpattern.') and m is not None
            and n.rsplit('.', 1)[1] in ('pattern_cluster', 'utils',
                                        'piece_pattern_node',
                                        'pattern_maker')]
    saved = []
    for m in mods:
        saved.append((m, m.__dict__.get('set', None), 'set' in m.__dict__))
        m.__dict__['set'] = OSet
    MODE[0] = mode
    try:
        yield
    finally:
        MODE[0] = 'insertion'
        for m, old, had in saved:
            if had:
                m.__dict__['set'] = old
            else:
                m.__dict__.pop('set', None)
