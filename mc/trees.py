"""Rooted trees (one or two colours) and their order conditions. A tree is (colour, sorted tuple of subtrees)."""
import functools
import numpy as np


@functools.lru_cache(None)
def trees(n, colors=1):
    """All rooted trees with n vertices, each vertex coloured 0..colors-1"""
    return tuple((c, f) for c in range(colors) for f in forests(n - 1, colors, None))


@functools.lru_cache(None)
def forests(n, colors, maxkey):
    """All multisets (non-increasing tuples) of trees with n vertices in total, each tree <= maxkey"""
    if n == 0:
        return ((),)
    out = []
    for k in range(n, 0, -1):
        for t in trees(k, colors):
            key = (k, t)
            if maxkey is not None and key > maxkey:
                continue
            for rest in forests(n - k, colors, key):
                out.append((t,) + rest)
    return tuple(out)


@functools.lru_cache(None)
def size(t):
    return 1 + sum(size(s) for s in t[1])


@functools.lru_cache(None)
def gamma(t):
    g = size(t)
    for s in t[1]:
        g *= gamma(s)
    return g


def name(t):
    return "." + "".join("abcdef"[t[0]] if t[0] else "" for _ in (0,)) + ("[" + "".join(name(s) for s in t[1]) + "]" if t[1] else "")


def inner(t, As, cache):
    """vector of prod over children of A^{(colour of child)} inner(child)"""
    if t not in cache:
        v = np.ones(As[0].shape[0], dtype=As[0].dtype)
        for s in t[1]:
            v = v * (As[s[0]] @ inner(s, As, cache))
        cache[t] = v
    return cache[t]


def residual(t, As, bs, cache):
    return bs[t[0]] @ inner(t, As, cache) - As[0].dtype.type(1) / gamma(t)


assert [len(trees(k)) for k in range(1, 8)] == [1, 1, 2, 4, 9, 20, 48]
assert [len(trees(k, 2)) for k in range(1, 5)] == [2, 4, 14, 52]
