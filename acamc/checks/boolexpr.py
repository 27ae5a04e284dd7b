"""C02: boolean expressions and comparisons."""
import itertools

from .. import cases, gen, lang
from ..gen import A, B, I
from ..lang import pe, pb

ME = __name__
P, Q = ("v", "p"), ("v", "q")
CMPOPS = ["==", "!=", "<", ">", "<=", ">="]
PRE = ['a := scb("a", "io")', 'b := scb("b", "io")',
       'p := scb("p", "io") == 1', 'q := scb("q", "io") == 1']

MAX, MIN = 2 ** 31 - 1, -2 ** 31


def inputs(avals, bvals, pq=((0, 0), (0, 1), (1, 0), (1, 1))):
    return [{"a": a, "b": b, "p": p, "q": q}
            for a in avals for b in bvals for p, q in pq]


def run_body(body, inp):
    it = lang.Interp(scb={})
    env = lang.Env()
    for k, v in inp.items():
        env.d[k] = lang.Cell(bool(v) if k in "pq" else v)
    env.d["r"] = lang.Cell()
    try:
        it.block(body, env)
    except lang.Skip:
        return None
    return {k[0]: c.v for k, c in it.scb.items()}


OUT = lambda n, e: ("set", ("scb", n, "io"), e)  # noqa: E731


def mk(key, body, inps):
    return {"key": key, "defs": "", "body": PRE + pb(body, 0),
            "inputs": inps,
            "expect": [run_body(body, dict(i)) for i in inps]}


def sinks(e, sink):
    """Put the boolean expression `e` into a context."""
    if sink == "let":
        return [("let", "r", e), OUT("r", ("toint", ("v", "r")))]
    if sink == "int":
        return [OUT("r", ("toint", e))]
    if sink == "intsum":
        return [OUT("r", ("+", ("*", ("toint", e), I(3)), ("toint", P)))]
    if sink == "setp":
        return [("set", P, e), OUT("r", ("toint", P)), OUT("s", ("toint", Q))]
    if sink == "if":
        return [OUT("r", I(0)), ("if", [(e, [OUT("r", I(1))])], None)]
    if sink == "ifnot":
        return [OUT("r", I(0)), ("if", [(e, [])], [OUT("r", I(1))])]
    if sink == "ifelse":
        # both branches invalidate whatever the condition was computed from
        flip = [("set", P, ("not", P)), ("set", Q, ("not", Q)),
                ("aug", "+", A, I(1)), ("aug", "*", B, I(-1))]
        return [("let", "n", I(0)),
                ("if", [(e, [("aug", "+", ("v", "n"), I(1))] + flip)],
                 [("aug", "+", ("v", "n"), I(10))] + flip),
                OUT("r", ("v", "n"))]
    if sink == "elif":
        return [OUT("r", I(0)),
                ("if", [(P, [OUT("r", I(1)), ("set", P, ("b", False))]),
                        (e, [OUT("r", I(2)), ("set", Q, ("not", Q))])],
                 [OUT("r", I(3))])]
    raise AssertionError(sink)


def batch(chunk, st):
    cs = []
    for e, sink, inps in chunk:
        c = mk(sink + ": " + pe(e, True), sinks(e, sink), inps)
        cs.append(c)
    cases.run_batch(cs, st)


def atoms():
    yield from (P, Q, ("b", True), ("b", False))
    yield ("cmp", A, "<", B)
    yield ("cmp", A, "==", I(0))
    yield ("cmp", A, ">", I(-1))
    yield ("cmp", I(1), "!=", A)


def bool_trees(n, leaves):
    """n connectives (not / and / or / == / !=)."""
    if n == 0:
        yield from leaves
        return
    for t in bool_trees(n - 1, leaves):
        yield ("not", t)
    for k in range(n):
        ls = list(bool_trees(k, leaves))
        rs = list(bool_trees(n - 1 - k, leaves))
        for l in ls:
            for r in rs:
                yield ("and", [l, r])
                yield ("or", [l, r])
                yield ("cmp", l, "==", r)
                yield ("cmp", l, "!=", r)


SINKS = ["let", "int", "intsum", "setp", "if", "ifnot", "ifelse", "elif"]


def items(chk):
    wide = [0, 1, -1, 5, MAX, MIN]
    wi = inputs(wide, wide, ((0, 1),))
    small = inputs([0, 1, -1], [0])
    # 1. comparisons: every operator, every operand kind
    ops = [A, B, I(0), I(1), I(-1), I(MAX), I(MIN), ("+", A, B), ("*", A, I(3)),
           ("scb", "a", "io"), ("neg", B)]
    cmps = [("cmp", l, op, r) for l in ops for op in CMPOPS for r in ops]
    for e in cmps:
        for s in ("let", "if", "ifnot"):
            yield e, s, wi
    # 2. chained comparisons (implicit conjunction; range merging)
    edge = inputs([MIN, MIN + 1, -1, 0, 1, 2, 3, MAX - 1, MAX], [0, 2],
                  ((0, 1),))
    cl = [A, B, I(0), I(2), I(MAX), I(MIN)]
    for x, y, z in itertools.product(cl, [A, B], cl):
        for o1, o2 in itertools.product(CMPOPS, CMPOPS):
            yield ("cmp", x, o1, y, o2, z), "let", edge
    rng = [("cmp", A, op, I(n)) for op in CMPOPS for n in (0, 2, MAX, MIN)]
    for x, y in itertools.product(rng, rng):
        yield ("and", [x, y]), "let", edge
        yield ("not", ("or", [x, y])), "let", edge
    for x, y, z in itertools.product(rng[::2], rng[1::2], rng[::3]):
        yield ("and", [("and", [x, y]), z]), "if", edge
        yield ("and", [x, ("and", [y, z])]), "let", edge
    # 3. connectives
    at = list(atoms())
    for n in (0, 1):
        for e in bool_trees(n, at):
            for s in SINKS:
                yield e, s, small
    for e in bool_trees(2, [P, Q, at[4], at[6], ("b", True)]):
        for s in ("let", "setp", "ifelse"):
            yield e, s, small
    # equality of two compound operands
    comp = [(k, [x, y]) for k in ("and", "or") for x, y in
            ((P, Q), (at[4], P), (Q, at[6]))] + [("not", P), at[4], at[7]]
    for x, y in itertools.product(comp, comp):
        for op in ("==", "!="):
            for s in ("let", "setp", "ifelse"):
                yield ("cmp", x, op, y), s, small
                yield ("cmp", ("not", x), op, y), s, small
    # 3 operands in one group
    for x, y, z in itertools.product(at, at, at):
        for k in ("and", "or"):
            yield (k, [x, y, z]), "let", small
    if chk.thorough:
        for e in bool_trees(2, at):
            for s in SINKS:
                yield e, s, small
        for e in bool_trees(3, [P, Q, at[6]]):
            yield e, "setp", small
            yield e, "ifelse", small


def check(chk):
    chk.bounds = {"connectives": 3 if chk.thorough else 2,
                  "chained comparisons": "2 operators",
                  "contexts": SINKS}
    chk.map(ME, "batch", items(chk), 150)
