"""C11: structures are values: assigning, passing, returning and swapping
them copies every field, and nothing else changes."""
import itertools

from .. import cases, prog
from ..lang import pb
from ..prog import I, OUT, V

ME = __name__

DEFS = [
    ("struct", "P§_", [], [("x", "int"), ("y", "int"), ("f", "bool")]),
    ("struct", "S§_", ["P§_"], [("z", "int")]),
    ("struct", "M§_", [], [("w", "int")]),
    ("struct", "Q§_", ["M§_"], [("p", "P§_"), ("k", "int"), ("r", "P§_")]),
]
STRUCTS = {
    "P§_": {"x": "int", "y": "int", "f": "bool"},
    "S§_": {"x": "int", "y": "int", "f": "bool", "z": "int"},
    "M§_": {"w": "int"},
    "Q§_": {"p": "P§_", "k": "int", "r": "P§_", "w": "int"},
}


def at(e, *names):
    for n in names:
        e = ("attr", e, n)
    return e


def st(name, **f):
    return ("struct", name + "§_", f)


def call(f, *args, **kw):
    return ("call", f + "§_", list(args), kw)


p, r, s, q, t = (V(n) for n in "prsqt")
A, B = V("a"), V("b")

FUNCS = [
    ("func", "mk§_", "", [("i", "", "int", None), ("j", "", "int", None)],
     "P§_", [("def", "o", "P§_", None), ("set", at(V("o"), "x"), V("i")),
             ("set", at(V("o"), "y"), V("j")),
             ("set", at(V("o"), "f"), ("cmp", V("i"), "<", V("j"))),
             ("result", V("o"))]),
    ("func", "flip§_", "", [("i", "", "P§_", None)], "P§_",
     [("swap", at(V("i"), "x"), at(V("i"), "y")),
      ("set", at(V("i"), "f"), ("not", at(V("i"), "f"))),
      ("result", V("i"))]),
    ("func", "con§_", "", [("i", "", "P§_", None)], "P§_",
     [("result", ("struct", "P§_", {"x": at(V("i"), "y"), "f": at(V("i"), "f"),
                                    "y": ("-", at(V("i"), "x"), I(1))}))]),
    ("func", "sum§_", "", [("i", "", "P§_", None), ("j", "", "P§_", None)],
     "int", [("aug", "*", at(V("i"), "x"), I(10)),
             ("result", ("-", at(V("i"), "x"), at(V("j"), "x")))]),
    ("func", "nest§_", "", [("i", "", "Q§_", None)], "Q§_",
     [("set", at(V("i"), "p"), ("call", "flip§_", [at(V("i"), "p")])),
      ("aug", "+", at(V("i"), "k"), at(V("i"), "p", "x")),
      ("result", V("i"))]),
    ("func", "iref§_", "inline", [("i", "&", "P§_", None),
                                  ("j", "", "P§_", None)], None,
     [("aug", "+", at(V("i"), "x"), at(V("j"), "y")),
      ("aug", "+", at(V("i"), "y"), at(V("j"), "x")),
      ("set", at(V("j"), "x"), I(0))]),
    ("func", "ival§_", "inline", [("i", "", "P§_", None)], "P§_",
     [("aug", "-", at(V("i"), "x"), I(5)), ("result", V("i"))]),
    ("func", "isel§_", "inline", [("i", "&", "Q§_", None)], "&P§_",
     [("aug", "+", at(V("i"), "k"), I(1)),
      ("result", at(V("i"), "p"), "&")]),
]

PVALS = [p, r, s, at(q, "p"), at(q, "r"), call("mk", A, at(p, "x")),
         call("flip", p), call("flip", at(q, "p")), call("con", r),
         call("flip", call("con", p)), call("ival", p), call("flip", s),
         st("P", x=at(p, "y"), y=at(p, "x"), f=("not", at(p, "f"))),
         st("P", x=at(r, "x"), y=at(q, "p", "y"), f=at(s, "f")),
         st("P", y=at(q, "r", "x"), x=at(q, "r", "y"), f=("b", True))]
PLVS = [p, r, at(q, "p"), at(q, "r")]

ALPHA = (
    [("set", lv, v) for lv in PLVS for v in PVALS]
    + [("let", "t", v) for v in PVALS]
    + [("swap", x, y) for x, y in itertools.combinations(PLVS, 2)]
    + [("swap", at(p, "x"), at(p, "y")), ("swap", at(p, "x"), at(q, "p", "x")),
       ("set", q, call("nest", q)),
       ("set", q, st("Q", p=at(q, "r"), r=at(q, "p"), k=at(q, "w"),
                     w=at(q, "k"))),
       ("set", q, st("Q", p=p, r=call("flip", p), k=I(4), w=at(p, "x"))),
       ("set", s, st("S", x=at(s, "y"), y=at(s, "z"), z=at(s, "x"),
                     f=("not", at(s, "f")))),
       ("set", at(p, "x"), call("sum", p, r)),
       ("set", at(p, "x"), call("sum", p, p)),
       ("set", at(s, "z"), ("-", call("sum", s, p), call("sum", r, s))),
       ("expr", call("iref", p, r)), ("expr", call("iref", p, p)),
       ("expr", call("iref", at(q, "p"), s)), ("expr", call("iref", s, p)),
       ("set", r, call("isel", q)), ("set", call("isel", q), r),
       ("set", p, call("ival", call("ival", p))),
       ("aug", "+", at(call("isel", q), "x"), I(3)),
       ("aug", "-", at(p, "x"), ("-", at(p, "y"), at(q, "k"))),
       ("set", at(p, "f"), ("cmp", at(p, "x"), ">", at(s, "z"))),
       ("if", [(("cmp", at(p, "x"), "<", at(r, "x")),
                [("set", p, call("flip", p))])], [("swap", p, r)]),
       ("set", at(q, "k"), ("+", at(call("mk", A, B), "x"),
                            at(call("mk", B, A), "x")))])
REFS = [[("ref", "t", lv)] for lv in PLVS]


def init():
    out = []
    for n, base in (("p", 10), ("r", 20), ("s", 30)):
        out.append(("def", n, ("S§_" if n == "s" else "P§_"), None))
        out.append(("set", at(V(n), "x"), ("+", A, I(base))))
        out.append(("set", at(V(n), "y"), ("-", B, I(base))))
        out.append(("set", at(V(n), "f"), ("b", n == "r")))
    out += [("set", at(s, "z"), I(33)), ("def", "q", "Q§_", None),
            ("set", at(q, "k"), I(40)), ("set", at(q, "w"), B)]
    for n, base in (("p", 50), ("r", 60)):
        out.append(("set", at(q, n, "x"), ("+", B, I(base))))
        out.append(("set", at(q, n, "y"), ("-", A, I(base))))
        out.append(("set", at(q, n, "f"), ("b", n == "p")))
    return out


def outs(has_t):
    o = []
    vs = [("p", p), ("r", r), ("s", s), ("qp", at(q, "p")),
          ("qr", at(q, "r"))]
    if has_t:
        vs.append(("t", t))
    for n, e in vs:
        o += [OUT(n + "x", at(e, "x")), OUT(n + "y", at(e, "y")),
              OUT(n + "f", ("toint", at(e, "f")))]
    return o + [OUT("sz", at(s, "z")), OUT("qk", at(q, "k")),
                OUT("qw", at(q, "w"))]


INPUTS = [{"a": 3, "b": 8}, {"a": 9, "b": -2}]


def need(body):
    from .control import names
    got, todo = set(), set(names(body))
    while todo:
        x = todo.pop()
        for f in FUNCS:
            if f[1] == x and x not in got:
                got.add(x)
                todo |= names(f[5])
    return [f for f in FUNCS if f[1] in got]


def batch(chunk, stt):
    cs = []
    for i, body in enumerate(chunk):
        has_t = any(x[0] in ("let", "ref") and x[1] == "t" for x in body)
        cs.append(prog.mk("\n".join(pb(body, 0)), DEFS + need(body),
                          init() + body + outs(has_t), ("a", "b"), INPUTS, i,
                          structs=STRUCTS))
    cases.run_batch(cs, stt)


def items(chk):
    def ok(seq):
        return sum(1 for x in seq if x[0] in ("let", "ref")
                   and x[1] == "t") <= 1
    for a in ALPHA:
        yield [a]
        for ref in REFS:
            if ok(ref + [a]):
                yield ref + [a, ("aug", "+", at(t, "x"), I(7))]
    small = ALPHA if chk.thorough else ALPHA[::2] + ALPHA[-12::2]
    for a, b in itertools.product(small, ALPHA):
        if ok((a, b)):
            yield [a, b]
    if chk.thorough:
        for seq in itertools.product(ALPHA[3::7], ALPHA[1::4], ALPHA[::4]):
            if ok(seq):
                yield list(seq)


ERR = [
    ("x := P0_(zz=1)", None), ("x := P0_(x=True)", None),
    ("x := P0_(1)", None), ("x: P0_ = 3", None), ("x: P0_\nx.zz = 1", None),
    ("x: P0_\ny: S0_\ny = x", None), ("x: P0_\ny: M0_\ny = x", None),
    ("x: P0_\ny: S0_\nswap(x, y)", None), ("x: P0_\nx += x", None),
    ("x: P0_\ny := x < x", None), ("x: P0_\ny: Q0_\ny.p = y", None),
    ("const c = P0_(x=1)", None),
    ("struct D0 extends P0_, S0_:\n    pass", None),
    ("struct D0 extends P0_:\n    x: int", None),
    ("struct D0:\n    x: int\n    x: int", None),
    ("struct D0 extends int:\n    x: int", None), ("struct D0:\n    x: str", None),
    ("struct D0:\n    x: D0", None),
]


def batch_err(chunk, stt):
    cs = []
    for src, want in chunk:
        cs.append({"key": src, "defs": "\n".join(
            pb(DEFS + FUNCS[:1], 0)).replace("§", "0"),
            "body": src.split("\n"), "inputs": [], "expect": [],
            "want": "error"})
    cases.run_batch(cs, stt)


def check(chk):
    chk.bounds = {"statements": len(ALPHA), "sequence length":
                  "2 (quick: half of the first statements) / 3"}
    chk.assumptions = ["fields that were never given a value are not judged"]
    chk.map(ME, "batch", items(chk), 60)
    chk.map(ME, "batch_err", ERR, 5)
