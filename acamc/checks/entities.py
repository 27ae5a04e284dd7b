"""C12: entity variables are references; every entity has its own fields;
constructors create exactly the described entity."""
import itertools

from .. import cases, core, ents, lang
from ..lang import pb
from ..prog import I, V

ME = __name__
PLAYER = [["player", {"name": "Steve", "pos": [5, 64, 5]}]]


def at(e, *names):
    for n in names:
        e = ("attr", e, n)
    return e


def OUT(n, e):
    return ("set", ("scb", n, "io"), e)


SELF = ("self",)
MODULE = [
    ("struct", "P§_", [], [("u", "int"), ("v", "bool")]),
    ("entity", "Z§", [], [("x", "int"), ("f", "bool")], [
        ("", ("func", "bump", "", [("k", "", "int", None)], "int", [
            ("let", "old", at(SELF, "x")),
            ("aug", "+", at(SELF, "x"), V("k")), ("result", V("old"))])),
        ("", ("func", "ib", "inline", [("r", "&", "int", None)], None, [
            ("swap", at(SELF, "x"), V("r"))])),
    ], ("", [("a", "", "int", None)], [
        ("newstmt", None, ("armor_stand", (1.5, 2.0, 3.5), "nm")),
        ("set", at(SELF, "x"), V("a")),
        ("set", at(SELF, "f"), ("cmp", V("a"), ">", I(2)))])),
    ("entity", "A§", ["Z§"], [], [
        ("", ("func", "take", "", [("o", "", "Z§", None)], None, [
            ("aug", "+", at(SELF, "x"), at(V("o"), "x")),
            ("set", at(V("o"), "f"), ("not", at(SELF, "f")))])),
        ("", ("func", "me", "", [], "Z§", [("result", SELF)])),
        ("", ("func", "ime", "inline", [], "Z§", [("result", SELF)])),
        ("", ("func", "iset", "inline", [("o", "&", "Z§", None)], None, [
            ("set", V("o"), SELF), ("aug", "+", at(V("o"), "x"), I(4))])),
        ("", ("func", "icp", "inline", [("o", "", "Z§", None)], "int", [
            ("let", "z", SELF), ("aug", "+", at(V("z"), "x"), at(V("o"), "x")),
            ("set", V("o"), V("z")), ("aug", "+", at(V("o"), "x"), I(1)),
            ("result", ("-", at(V("o"), "x"), at(SELF, "x")))])),
    ], None),
    ("entity", "B§", ["A§"], [("y", "int"), ("s", "P§_")], [],
     ("", [("a", "", "int", None), ("b", "", "int", I(7))], [
         ("newstmt", "A§", [("+", V("a"), V("b"))]),
         ("set", at(SELF, "y"), V("b")),
         ("set", at(SELF, "s", "u"), ("-", V("b"), V("a"))),
         ("set", at(SELF, "s", "v"), at(SELF, "f"))])),
    ("entity", "C§", ["A§"], [("y", "int")], [],
     ("inline", [("a", "", "int", None)], [
         ("set", V("a"), ("*", V("a"), I(2))),
         ("newstmt", "A§", [V("a")]),
         ("set", at(SELF, "y"), ("+", at(SELF, "x"), I(1)))])),
    ("entity", "D§", ["C§"], [("z", "int")], [], None),
    ("func", "pick§", "", [("p", "", "Z§", None), ("q", "", "Z§", None)],
     "Z§", [("if", [(("cmp", at(V("p"), "x"), ">", at(V("q"), "x")),
                     [("result", V("p"))])], [("result", V("q"))])]),
    ("func", "mod§", "", [("p", "", "Z§", None), ("q", "", "Z§", None)],
     "int", [("aug", "+", at(V("p"), "x"), I(100)), ("set", V("p"), V("q")),
             ("aug", "-", at(V("p"), "x"), I(50)),
             ("result", at(V("p"), "x"))]),
    ("func", "ir§", "inline", [("p", "&", "Z§", None), ("q", "", "Z§", None)],
     None, [("swap", V("p"), V("q")), ("aug", "+", at(V("q"), "x"), I(9))]),
    ("func", "mk§", "", [("k", "", "int", None)], "B§", [
        ("let", "n", ("new", "B§", [V("k"), I(1)])), ("result", V("n"))]),
]
STRUCTS = {"P§_": {"u": "int", "v": "bool"}}
a, b, c = V("e1"), V("e2"), V("b1")
AV = V("a")
INIT = [
    ("let", "a1", ("new", "A§", [I(5)])),
    ("let", "e1", ("new", "Z§", [AV])),
    ("def", "e2", "Z§", ("new", "A§", [("-", AV, I(1))])),
    ("let", "b1", ("new", "B§", [I(3), AV])),
]


def call(f, *args):
    return ("call", f + "§", list(args))


def mc_(e, m, *args):
    return ("mcall", e, m, list(args))


def new(t, *args):
    return ("new", t + "§", list(args))


SRC = [a, b, c, mc_(V("a1"), "ime"), mc_(c, "ime"), call("pick", a, b), call("pick", b, c), call("pick", c, a),
       mc_(c, "me"), V("a1"), mc_(V("a1"), "me")]
ALPHA = (
    [("set", x, v) for x in (a, b) for v in SRC if v != x]
    + [("set", x, v) for x in (a, b) for v in (
        new("A", I(40)), new("B", I(1)), new("C", at(x, "x")),
        new("A", at(x, "x")), new("B", at(a, "x"), at(b, "x")),
        new("D", at(c, "y")), call("mk", at(x, "x")))]
    + [("swap", a, b), ("set", c, call("mk", at(c, "y"))),
       ("set", c, new("B", at(c, "x"), at(c, "s", "u"))),
       ("swap", at(a, "x"), at(b, "x")), ("swap", at(a, "f"), at(c, "f")),
       ("swap", at(a, "x"), at(c, "y"))]
    + [("set", at(x, "x"), e) for x, y in ((a, b), (b, a), (a, c), (c, b))
       for e in (at(y, "x"), ("-", I(10), at(y, "x")),
                 ("-", ("*", at(y, "x"), I(2)), at(x, "x")),
                 ("+", at(c, "y"), ("*", at(x, "x"), at(y, "x"))))]
    + [("aug", op, at(x, "x"), e) for op in "+-*" for x, y in
       ((a, b), (b, c)) for e in (at(y, "x"), ("-", I(1), at(y, "x")),
                                  at(x, "x"))]
    + [("set", at(x, "f"), e) for x, y in ((a, b), (b, c)) for e in (
        ("not", at(y, "f")), ("cmp", at(x, "x"), "<", at(y, "x")),
        ("and", [at(y, "f"), ("cmp", at(x, "x"), ">", I(3))]),
        ("or", [("not", at(y, "f")), at(x, "f")]),
        ("cmp", at(x, "f"), "==", at(y, "f")), ("not", at(x, "f")))]
    + [("set", at(c, "s", "u"), ("-", at(a, "x"), at(c, "s", "u"))),
       ("set", at(c, "s"), ("struct", "P§_", {
           "u": at(c, "y"), "v": ("not", at(c, "s", "v"))})),
       ("set", at(c, "s", "v"), at(a, "f")),
       ("set", at(a, "x"), call("mod", a, b)),
       ("set", at(c, "y"), call("mod", c, c)),
       ("set", at(b, "x"), call("mod", c, a)),
       ("expr", call("ir", a, b)), ("expr", call("ir", b, a)),
       ("set", V("a1"), c), ("set", V("a1"), new("C", at(a, "x"))),
       ("expr", mc_(V("a1"), "take", b)), ("expr", mc_(V("a1"), "take", V("a1"))),
       ("expr", mc_(c, "iset", a)), ("expr", mc_(V("a1"), "iset", b)),
       ("expr", mc_(V("a1"), "iset", V("a1"))),
       ("set", at(a, "x"), mc_(c, "icp", b)),
       ("set", at(b, "x"), mc_(V("a1"), "icp", V("a1"))),
       ("expr", mc_(c, "take", mc_(c, "ime"))),
       ("expr", mc_(c, "take", a)), ("expr", mc_(V("a1"), "take", c)),
       ("expr", mc_(a, "bump", at(b, "x"))),
       ("set", at(b, "x"), mc_(c, "bump", I(5))),
       ("set", at(c, "y"), ("-", mc_(a, "bump", I(2)),
                            mc_(b, "bump", I(3)))),
       ("expr", mc_(c, "take", mc_(c, "me"))),
       ("expr", mc_(call("pick", a, b), "bump", I(11))),
       ("set", at(call("pick", a, c), "x"), I(77)),
       ("expr", mc_(a, "ib", at(b, "x"))), ("expr", mc_(c, "ib", at(c, "y"))),
       ("expr", mc_(b, "ib", at(b, "x"))),
       ("if", [(("cmp", at(a, "x"), ">", at(b, "x")),
                [("set", a, b), ("aug", "+", at(a, "x"), I(1))])],
        [("set", b, a), ("aug", "-", at(a, "x"), I(1))]),
       ("if", [(at(a, "f"), [("set", at(a, "f"), ("b", False)),
                             ("aug", "+", at(b, "x"), I(1))])],
        [("aug", "+", at(b, "x"), I(20))]),
       ("if", [(at(a, "f"), [("set", a, c), ("aug", "+", at(a, "x"), I(1)),
                             ("set", at(c, "f"), ("not", at(b, "f")))])],
        [("set", a, b), ("set", at(a, "x"), I(0))]),
       ("while", ("cmp", at(a, "x"), "<", I(6)),
        [("aug", "+", at(a, "x"), I(2)), ("swap", a, b)])])


def outs():
    o = []
    for n, e in (("a", a), ("b", b), ("c", c), ("d", V("a1"))):
        o += [OUT(n + "x", at(e, "x")), OUT(n + "f", ("toint", at(e, "f")))]
    return o + [OUT("cy", at(c, "y")), OUT("cu", at(c, "s", "u")),
                OUT("cv", ("toint", at(c, "s", "v")))]


INPUTS = [{"a": 3}, {"a": 9}, {"a": 2}]


def make(body, n):
    """One case; the inputs are successive activations in one world."""
    full = INIT + body + outs()
    it, run = ents.evaluator(MODULE, STRUCTS)
    exp = []
    for i in INPUTS:
        try:
            exp.append(run(full, i))
        except lang.Skip:
            return None
    exp = [dict(e) for e in exp]
    exp[-1]["#ents"] = sorted(
        [["player", "Steve", [5.0, 64.0, 5.0], "overworld"]]
        + [[e.type, e.name, [float(x) for x in e.pos], "overworld"]
           for e in it.ents], key=repr)
    sub = lambda s: s.replace("§", str(n))  # noqa: E731
    return {"key": "\n".join(pb(body, 0)),
            "defs": "\n".join(sub(x) for x in pb(MODULE, 0)),
            "body": ['a := scb("a", "io")'] + [sub(x) for x in pb(full, 0)],
            "inputs": INPUTS, "expect": exp, "world": PLAYER}


def batch(chunk, st):
    cs = []
    for i, body in enumerate(chunk):
        cs.append(make(body, i))
    st.count("skipped", sum(x is None for x in cs))
    cases.run_batch([x for x in cs if x], st)


def items(chk):
    for x in ALPHA:
        yield [x]
    alias = [("set", a, b), ("set", a, c), ("set", b, c)]
    for al in alias:
        for x in ALPHA:
            yield [al, x]
    for x, y in itertools.product(ALPHA if chk.thorough else ALPHA[::2],
                                  ALPHA):
        yield [x, y]
    if chk.thorough:
        for al in alias:
            for x, y in itertools.product(ALPHA[::2], ALPHA[::2]):
                yield [al, x, y]


def check(chk):
    chk.map(ME, "batch", items(chk), 12)
