"""Exact inclusion of the languages of component patterns (finite automata
over representative characters)."""
from functools import lru_cache

from . import ref

POOL = {'l': ref.LOWER, 'u': ref.UPPER, 'd': ref.DIGIT}


@lru_cache(maxsize=None)
def units(component):
    """[(frozenset of classes or a literal char, count or None)]"""
    out = []
    for t in ref.tokens_component(component):
        text, ks, num = t
        if text.startswith('['):
            out.append((ks, num))
        else:
            out.append((text, 1))
    return tuple(out)


@lru_cache(maxsize=None)
def nfa(component):
    """Linear NFA: list of (label, loop) steps; state i is before step i."""
    steps = []
    for label, num in units(component):
        if num is None:
            steps.append((label, True))      # one or more
        else:
            steps.extend([(label, False)] * num)
    return tuple(steps)


def fits(label, ch):
    if isinstance(label, str):
        return label == ch
    return ref.cls(ch) in label


def step(steps, states, ch):
    out = set()
    for s in states:
        if s < len(steps) and fits(steps[s][0], ch):
            out.add(s + 1)
        if s > 0 and steps[s - 1][1] and fits(steps[s - 1][0], ch):
            out.add(s)
    return frozenset(out)


def alphabet(*components):
    lits, ks = set(), set()
    for c in components:
        for label, _ in units(c):
            if isinstance(label, str):
                lits.add(label)
                ks.add(ref.cls(label))
            else:
                ks |= label
    out = set(lits)
    for k in ks:
        if k in POOL:
            out.add([x for x in POOL[k] if x not in lits][0])
        else:
            out.add(k)
    return sorted(out)


@lru_cache(maxsize=1 << 18)
def included(p, q):
    """L(p) is a subset of L(q)."""
    a, b = nfa(p), nfa(q)
    sigma = alphabet(p, q)
    start = (frozenset([0]), frozenset([0]))
    seen = {start}
    todo = [start]
    while todo:
        x, y = todo.pop()
        if len(a) in x and len(b) not in y:
            return False
        for ch in sigma:
            nx = step(a, x, ch)
            if not nx:
                continue
            n = (nx, step(b, y, ch))
            if n not in seen:
                seen.add(n)
                todo.append(n)
    return True

