"""Exhaustive generators of small expression trees."""
import itertools

INT_OPS = ["+", "-", "*", "/", "%"]
A, B, C, X, Y, Z = (("v", n) for n in "abcxyz")
I = lambda n: ("i", n)  # noqa: E731

VALS = [0, 1, -1, 2, -3, 7, -8, 46341, 2 ** 31 - 1, -2 ** 31]


def int_trees(n, leaves, ops=INT_OPS, unary=("neg",)):
    """All integer expression trees with exactly n operators."""
    if n == 0:
        yield from leaves
        return
    for u in unary:
        for t in int_trees(n - 1, leaves, ops, unary):
            yield (u, t)
    for k in range(n):
        ls = list(int_trees(k, leaves, ops, unary))
        rs = list(int_trees(n - 1 - k, leaves, ops, unary))
        for op in ops:
            for l in ls:
                for r in rs:
                    yield (op, l, r)


def uses(e, name):
    if e[0] == "v":
        return e[1] == name
    return any(uses(x, name) for x in e[1:] if isinstance(x, tuple))


def pairs(vals, k=None):
    return [{"a": a, "b": b} for a, b in itertools.product(vals, vals)]


# A small set of pairs that separates the operators and operand orders and
# exercises wrap-around.
PAIRS8 = [{"a": a, "b": b} for a, b in [
    (7, 3), (-7, 3), (7, -3), (-8, -3), (2 ** 31 - 1, 2), (-2 ** 31, -1),
    (46341, 46341), (5, -2 ** 31)]]
PAIRS20 = PAIRS8 + [{"a": a, "b": b} for a, b in [
    (0, 1), (1, 0), (0, 0), (1, 1), (-1, 1), (2, -1), (2 ** 31 - 1, 2 ** 31 - 1),
    (-2 ** 31, 2 ** 31 - 1), (100, 7), (-100, -7), (3, 100), (65536, 65536)]]
