"""C04: if / elif / else and while run exactly the branches and iterations
their conditions select, whatever the bodies do to the condition."""
import itertools

from .. import cases, prog
from ..prog import I, OUT, V
from ..lang import pb

ME = __name__
X, Y, N, P, Q = V("x"), V("y"), V("n"), V("p"), V("q")
NAMES = ("a", "b", "p", "q")
OUTS = [OUT("n", N), OUT("x", X), OUT("y", Y), OUT("p", ("toint", P)),
        OUT("q", ("toint", Q))]
INIT = [("let", "x", V("a")), ("let", "y", V("b")), ("let", "n", I(0)),
        ("def", "u", "bool", ("b", False)), ("def", "k", "int", I(0))]
INPUTS = [{"a": a, "b": b, "p": p, "q": q}
          for a, b in ((0, 3), (3, 0), (2, 2), (-1, 1)) for p, q in
          ((0, 0), (0, 1), (1, 0), (1, 1))]

# functions used inside conditions; they leave their scratch scores dirty
FUNCS = [
    ("func", "pos§", "", [("k", "", "int", None)], "bool",
     [("let", "t", ("-", ("*", V("k"), I(2)), ("+", V("k"), V("k")))),
      ("result", ("cmp", ("+", V("k"), V("t")), ">", I(0)))]),
    ("func", "dbl§", "", [("k", "", "int", None)], "int",
     [("result", ("+", V("k"), V("k")))]),
    ("func", "ipos§", "inline", [("k", "", "int", None)], "bool",
     [("let", "t", ("*", V("k"), V("k"))),
      ("result", ("and", [("cmp", V("k"), ">", I(0)),
                          ("cmp", V("t"), "!=", I(0))]))]),
    ("func", "bump§", "", [], None, [("aug", "+", V("g§"), I(1))]),
]
GLOB = [("let", "g§", I(0))]


def T(n):
    return ("aug", "+", N, I(n))


CONDS = [
    P, ("not", P), ("cmp", X, ">", I(0)), ("cmp", X, "!=", Y),
    ("and", [P, ("cmp", X, ">", I(0))]), ("or", [P, Q]),
    ("cmp", P, "==", Q), ("cmp", I(0), "<", X, "<=", Y),
    ("cmp", ("*", X, I(2)), ">", Y), ("b", True), ("b", False),
    ("call", "pos§", [X]), ("not", ("call", "pos§", [X])),
    ("cmp", ("call", "dbl§", [X]), ">", Y), ("call", "ipos§", [X]),
    ("and", [("call", "pos§", [X]), Q]), ("not", ("or", [P, ("cmp", X, "<", Y)])),
    ("or", [("call", "pos§", [X]), ("call", "pos§", [Y])]),
    ("cmp", V("g§"), "==", I(0)),
    ("and", [("cmp", V("g§"), "<", I(1)), ("not", Q)]),
]
# bodies that invalidate conditions
MUT = [
    [("set", P, ("not", P))],
    [("set", X, ("-", I(1), X))],
    [("set", P, ("b", False)), ("set", Q, ("b", True)), ("set", X, I(0))],
    [("swap", X, Y), ("swap", P, Q)],
    [("set", V("u"), ("call", "pos§", [("-", Y, X)])), ("aug", "-", X, I(2)),
     ("if", [(V("u"), [T(1000)])], None)],
    [("if", [(("cmp", X, ">", I(0)), [("set", P, ("b", False)),
                                       ("aug", "-", X, I(1))])],
      [("set", P, ("b", True)), ("aug", "+", X, I(1))])],
    # a function that changes a variable the condition reads
    [("expr", ("call", "bump§", [])), ("expr", ("call", "bump§", [])),
     ("set", P, ("cmp", X, ">", V("g§")))],
    [],
]


def if_programs():
    for c in CONDS:
        for m1, m2 in itertools.product(MUT, MUT):
            yield [("if", [(c, [T(1)] + m1)], [T(10)] + m2)]
        for m in MUT:
            yield [("if", [(c, m + [T(1)])], None), T(100)]
            yield [("if", [(c, [])], m + [T(1)]), T(100)]
            yield [("if", [(c, m)], None)]
    cs = CONDS[:9] + CONDS[11:12] + CONDS[14:16]
    for c1, c2 in itertools.product(cs, cs):
        for m in MUT[:5]:
            yield [("if", [(c1, [T(1)] + m), (c2, [T(10)] + m)],
                    [T(100)] + m)]
            yield [("if", [(c1, [T(1), ("if", [(c2, m + [T(10)])],
                                        [T(100)] + m), T(1000)])], m)]
        yield [("if", [(c1, [T(1)]), (c2, [T(10)])], None)]
        yield [("if", [(c1, []), (c2, [T(10)] + MUT[0])], [])]


DEC = [("aug", "-", X, I(1))]
LOOP_CONDS = [
    ("cmp", X, ">", I(0)), ("and", [("cmp", X, ">", I(0)), ("cmp", N, "<", I(5))]),
    ("cmp", ("+", X, I(0)), ">=", I(1)),
    ("not", ("cmp", X, "<=", I(0))),
    ("or", [("cmp", X, ">", I(0)), ("cmp", Y, ">", I(2))]),
    ("cmp", I(0), "<", X, "<", I(9)),
    ("call", "pos§", [X]), ("not", ("call", "pos§", [("neg", X)])),
    ("cmp", ("call", "dbl§", [X]), ">", I(1)), ("call", "ipos§", [X]),
    ("and", [P, ("call", "pos§", [X])]), P, ("not", P), ("b", False),
    ("not", ("or", [("cmp", X, "<", I(1)), P])),
    ("cmp", ("toint", ("cmp", X, ">", I(0))), "==", I(1)),
]
LOOP_BODIES = [
    [T(1)] + DEC,
    DEC + [("set", P, ("not", P)), T(1)],
    [("if", [(("cmp", X, ">", Y), [T(10)])], [T(1)])] + DEC
    + [("aug", "-", Y, I(1))],
    [("if", [(P, [("set", P, ("b", False)), T(5)])],
      [("set", P, ("b", True)), T(7)])] + DEC + [("aug", "-", Y, I(1))],
    DEC + [("set", V("u"), ("call", "pos§", [X])),
           ("aug", "-", Y, ("call", "dbl§", [I(1)])),
           ("if", [(V("u"), [T(10)])], None), ("set", P, V("u"))],
    [("set", V("k"), I(2)), ("while", ("cmp", V("k"), ">", I(0)),
                          [("aug", "-", V("k"), I(1)), T(1)])] + DEC
    + [("aug", "-", Y, I(3))],
    [("set", V("k"), X), ("while", ("call", "pos§", [V("k")]),
                       [("aug", "-", V("k"), I(1)), T(1)])] + DEC
    + [("set", P, ("b", False)), ("aug", "-", Y, I(3))],
    DEC + [("aug", "-", Y, I(1)), ("expr", ("call", "bump§", [])),
           ("set", P, ("cmp", V("g§"), "==", I(0)))],
]


def while_programs():
    for c in LOOP_CONDS:
        for b in LOOP_BODIES:
            yield [("while", c, b)]
            yield [T(1000), ("while", c, b), T(100), ("set", X, I(1)),
                   ("set", P, ("b", False)), ("while", ("cmp", X, ">", I(0)), b)]
            yield [("if", [(Q, [("while", c, b)])], [("while", c, DEC)])]
    # a loop whose body is empty but whose condition has an effect
    yield [("while", ("call", "dec§", []), [])]
    yield [("while", ("call", "dec§", []), [T(1)])]
    yield [("while", ("not", ("call", "dec§", [])), [("set", V("h§"), I(2))]),
           T(3)]


DECF = [("let", "h§", I(4)),
        ("func", "dec§", "", [], "bool",
         [("aug", "-", V("h§"), I(1)),
          ("result", ("cmp", V("h§"), ">", I(0)))])]


def names(o):
    if isinstance(o, str):
        return {o}
    if isinstance(o, (tuple, list)):
        r = set()
        for x in o:
            r |= names(x)
        return r
    if isinstance(o, dict):
        return names(list(o.values()))
    return set()


def batch(chunk, st):
    cs = []
    for i, body in enumerate(chunk):
        used = names(body)
        mod = []
        if "dec§" in used:
            mod += DECF
        if "g§" in used or "bump§" in used:
            mod += GLOB
        mod += [f for f in FUNCS if f[1] in used]
        outs = list(OUTS)
        pre = list(INIT)
        if "g§" in used or "bump§" in used:
            pre.append(("set", V("g§"), I(0)))
            outs.append(OUT("g", V("g§")))
        if "dec§" in used:
            pre.append(("set", V("h§"), I(4)))
            outs.append(OUT("h", V("h§")))
        cs.append(prog.mk("\n".join(pb(body, 0)), mod, pre + body + outs,
                          NAMES, INPUTS, i))
    cases.run_batch(cs, st)


def items(chk):
    yield from if_programs()
    yield from while_programs()
    if chk.thorough:
        # three-level nesting
        cs = CONDS[:6] + CONDS[11:12] + CONDS[14:15]
        for c1, c2, c3 in itertools.product(cs, cs, cs):
            for m in MUT[:4]:
                yield [("if", [(c1, m + [T(1)]), (c2, m + [T(10)]),
                               (c3, m + [T(100)])], m + [T(1000)])]
                yield [("if", [(c1, [("if", [(c2, [("if", [(c3, m + [T(1)])],
                                                    m + [T(10)])])],
                                      m + [T(100)])])], m + [T(1000)])]
        for c, b in itertools.product(LOOP_CONDS, LOOP_BODIES):
            for c2, b2 in itertools.product(LOOP_CONDS[:9], LOOP_BODIES[:4]):
                yield [("let", "x0", X), ("let", "z", I(2)),
                       ("while", ("cmp", V("z"), ">", I(0)),
                        [("aug", "-", V("z"), I(1)), ("set", X, V("x0")),
                         ("while", c, b), ("set", X, I(2)),
                         ("while", c2, b2)])]


def check(chk):
    chk.bounds = {"nesting": 3 if chk.thorough else 2,
                  "conditions": len(CONDS) + len(LOOP_CONDS),
                  "inputs": len(INPUTS)}
    chk.assumptions = ["runs longer than 3000 model statements are not judged"]
    chk.map(ME, "batch", items(chk), 80)
