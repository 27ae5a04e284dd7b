"""C03: variables hold what was last assigned to them - and only that:
assignment, augmented assignment, references, swap."""
import itertools

from .. import cases, gen, prog
from ..prog import I, OUT, V
from ..lang import pb

ME = __name__
X, Y, R, Z = V("x"), V("y"), V("r"), V("z")
OUTS = [OUT(n, V(n)) for n in "xyz"]
INPUTS = [{"a": a, "b": b} for a, b in [
    (7, 3), (-7, 2), (5, -4), (2 ** 31 - 1, 6), (-2 ** 31, 3), (1, 1)]]
INIT = [("let", "x", V("a")), ("let", "y", V("b")), ("def", "z", "int", I(9))]


def batch(chunk, st):
    cs = []
    for i, body in enumerate(chunk):
        cs.append(prog.mk(" ; ".join(pb(body, 0)), [], INIT + body + OUTS,
                          ("a", "b"), INPUTS, i))
    cases.run_batch(cs, st)


def rhs():
    yield from (Y, X, I(4), ("+", X, I(1)), ("-", I(2), X), ("*", X, Y),
                ("-", Y, X), ("/", Y, X), ("neg", X),
                ("*", ("+", X, Y), ("-", X, Y)),
                ("-", ("*", Y, I(3)), ("%", Y, X)))


def stmts(lvs, rs):
    for lv in lvs:
        for r in rs:
            yield ("set", lv, r)
            for op in "+-*/%":
                yield ("aug", op, lv, r)


def folded(e):
    """Is a part of it computed by the compiler (that is for C07)?"""
    sub = [x for x in e[1:] if isinstance(x, tuple)]
    return bool(sub) and (all(x[0] == "i" for x in sub)
                          or any(map(folded, sub)))


def items(chk):
    # every operator with every small right-hand side mentioning the target
    for n in (0, 1, 2):
        for e in gen.int_trees(n, [X, Y, I(3)] if n < 2 else [X, Y]):
            for op in [None] + list("+-*/%"):
                yield [("set", X, e) if op is None else ("aug", op, X, e)]
    # literals at the ends of the range
    for k in (-2 ** 31, 1 - 2 ** 31, -1, 0, 1, 2 ** 31 - 1):
        for n in range(3 if chk.thorough else 2):
            for e in gen.int_trees(n, [X, I(k)]):
                if n and folded(e):
                    continue
                for op in [None] + list("+-*/%"):
                    yield [("set", X, e) if op is None else ("aug", op, X, e)]
    for e in gen.int_trees(3, [X, Y], ops=["+", "-", "*", "/"], unary=()):
        yield [("set", X, e)]
        if chk.thorough:
            for op in "+-*/%":
                yield [("aug", op, X, e)]
    # references are aliases: r -> x, and a reference to a reference
    rr = list(rhs())
    rref = [R if e is X else e for e in rr] + [
        ("-", R, X), ("*", R, ("-", X, I(1)))]
    for refs in ([("ref", "r", X)], [("ref", "r", Y)],
                 [("ref", "w", X), ("ref", "r", V("w"))]):
        for s in stmts([X, R], rref):
            yield refs + [s]
            yield refs + [s, ("aug", "+", R, Y), ("set", Z, R)]
    # sequences over a small alphabet (order, aliasing, stale copies)
    alpha = [("set", X, Y), ("set", Y, ("-", X, Y)), ("aug", "*", R, ("+", X, I(2))),
             ("swap", X, Y), ("swap", R, Y), ("aug", "-", Y, ("-", Y, X)),
             ("set", Z, ("*", R, ("+", Y, Z))), ("aug", "+", X, I(5)),
             ("set", R, ("neg", R)), ("swap", Z, R),
             ("let", "t", ("+", X, Y)), ("aug", "%", X, I(4)),
             ("set", ("scb", "u", "io"), X), ("aug", "-", ("scb", "u", "io"), ("*", Y, R)),
             ]
    depth = 4 if chk.thorough else 3
    for n in range(1, depth + 1):
        for seq in itertools.product(alpha, repeat=n):
            yield_ok = sum(1 for s in seq if s[0] == "let") <= 1
            if not yield_ok:
                continue
            if any(s[0] == "aug" and s[2][0] == "scb" for s in seq) and not any(
                    s[0] == "set" and s[1][0] == "scb" for s in seq):
                continue
            yield [("ref", "r", X)] + list(seq)


def check(chk):
    chk.bounds = {"sequence length": 4 if chk.thorough else 3,
                  "right-hand sides": "all trees of <=2 (aug) / 3 (=) operators"}
    chk.map(ME, "batch", items(chk), 120)
