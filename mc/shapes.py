"""Tree shapes and deviation enumeration shared by the layout checks."""
from itertools import combinations, product


def forests(n, depth):
    """All ordered forests with n nodes and at most the given depth."""
    if n == 0:
        yield ()
        return
    if depth == 0:
        return
    for first in range(1, n + 1):
        for kids in forests(first - 1, depth - 1):
            for rest in forests(n - first, depth):
                yield (kids,) + rest


def trees(n, depth):
    """All ordered trees with n nodes and at most the given depth (1 = root only)."""
    for kids in forests(n - 1, depth - 1):
        yield kids


def paths(tree, at=()):
    yield at
    for i, k in enumerate(tree):
        yield from paths(k, at + (i,))


def subtree(tree, path):
    for i in path:
        tree = tree[i]
    return tree


def is_leaf(tree, path):
    return subtree(tree, path) == ()


def make(tree, styles, path=(), intrinsics=None):
    """Spec of the shape with styles[path] (and intrinsics[path])."""
    return (dict(styles.get(path, {})), dict((intrinsics or {}).get(path, {})),
            [make(k, styles, path + (i,), intrinsics) for i, k in enumerate(tree)])


def deviations(options, k):
    """All sets of at most k assignments out of options = [(slot, value), ...], one
    value per slot, smallest first."""
    for n in range(k + 1):
        for c in combinations(options, n):
            slots = [s for s, _ in c]
            if len(set(slots)) == len(slots):
                yield c
