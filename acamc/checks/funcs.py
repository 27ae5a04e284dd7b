"""C05: run-time functions; C06: inline functions and ports."""
import itertools

from .. import callshape, callsite, cases, core, gen, mc, prog
from ..prog import I, OUT, V
from ..lang import pb
from .control import names

ME = __name__
X, Y, N, P, Q, A, B = (V(n) for n in "xynpqab")
NAMES = ("a", "b", "p", "q")
INIT = [("let", "x", A), ("let", "y", B), ("let", "n", I(0)),
        ("let", "c", P)]
OUTS = [OUT("n", N), OUT("x", X), OUT("y", Y), OUT("c", ("toint", V("c")))]
INPUTS = [{"a": a, "b": b, "p": p, "q": q}
          for a, b in ((7, 3), (-5, 2), (2, -9)) for p, q in
          ((0, 0), (0, 1), (1, 0), (1, 1))]


def call(f, *args, **kw):
    return ("call", f, list(args), kw)


def fun(name, params, rtype, *body, kind=""):
    ps = []
    for p in params:
        p = tuple(p) + (None,) * (4 - len(p))
        ps.append(p)
    return ("func", name, kind, ps, rtype, list(body))


GLOB = [("let", "g§", I(0))]
# module level functions; every body leaves as many scratch scores dirty as
# it can and some call one another
FUNCS = [
    fun("one§", [], "int", ("result", I(1))),
    fun("inc§", [("k", "", "int")], "int", ("result", ("+", V("k"), I(1)))),
    fun("sq§", [("k", "", "int")], "int",
        ("let", "t", ("*", ("+", V("k"), I(1)), ("-", V("k"), I(1)))),
        ("result", ("+", V("t"), I(1)))),
    fun("sub§", [("u", "", "int"), ("v", "", "int", I(2))], "int",
        ("result", ("-", V("u"), ("*", V("v"), I(3))))),
    fun("tri§", [("u", "", None, I(100)), ("v", "", None, I(20)),
                  ("w", "", None, I(3))], "int",
        ("result", ("-", ("-", ("*", V("u"), I(10)), ("*", V("v"), I(2))),
                    V("w")))),
    fun("sel§", [("r", "", "bool"), ("u", "", "int"), ("v", "", "int")], "int",
        ("if", [(V("r"), [("result", V("u"))])], [("result", V("v"))])),
    fun("neg§", [("r", "", "bool", ("b", False))], "bool",
        ("result", ("not", V("r")))),
    fun("ror§", [("r", "", "bool"), ("s", "", "bool")], "bool",
        ("let", "t", ("or", [("and", [V("r"), V("s")]), V("r"), V("s")])),
        ("if", [(("or", [V("t"), V("s")]), [("result", V("t"))])],
         [("result", ("b", False))])),
    fun("pos§", [("k", "", "int")], "bool",
        ("result", ("or", [("cmp", V("k"), ">", I(0)),
                           ("cmp", ("*", V("k"), I(2)), ">", I(7))]))),
    fun("fact§", [("k", "", "int")], "int",
        ("let", "r", I(1)),
        ("while", ("cmp", V("k"), ">", I(1)),
         [("aug", "*", V("r"), V("k")), ("aug", "-", V("k"), I(1))]),
        ("result", V("r"))),
    fun("two§", [("k", "", "int")], "int",
        ("result", ("+", call("sq§", V("k")),
                    ("*", call("inc§", V("k")), call("sq§", I(3)))))),
    fun("last§", [("k", "", "int")], "int",
        ("result", I(5)), ("result", V("k")), ("aug", "+", V("g§"), I(1))),
    fun("bump§", [("k", "", "int", I(1))], None,
        ("set", V("g§"), ("+", ("*", V("g§"), I(10)), V("k")))),
    fun("tick§", [("k", "", "int")], "int",
        ("set", V("g§"), ("+", ("*", V("g§"), I(10)), V("k"))),
        ("result", V("k"))),
    fun("par§", [("k", "", "int")], "int",  # parameter is a local copy
        ("aug", "+", V("k"), I(5)), ("swap", V("k"), V("g§")),
        ("result", V("k"))),
    fun("nest§", [("k", "", "int")], "int",
        ("let", "z", ("*", V("k"), I(2))),
        fun("in§", [("m", "", "int")], "int",
            ("result", ("-", V("z"), V("m")))),
        ("result", ("-", call("in§", V("k")), call("in§", I(1))))),
    fun("if§", [("k", "", "int")], "int",
        ("if", [(("cmp", V("k"), ">", I(2)), [("result", I(1))]),
                (("cmp", V("k"), "<", I(-2)), [("result", I(2))])],
         [("result", I(3))])),
]
BYNAME = {f[1]: f for f in FUNCS}


def module_for(body):
    used = set()
    todo = list(names(body))
    while todo:
        n = todo.pop()
        if n in BYNAME and n not in used:
            used.add(n)
            todo += names(BYNAME[n])
    mod = []
    if "g§" in names(body) or any("g§" in names(BYNAME[u]) for u in used):
        mod += GLOB
    return mod + [f for f in FUNCS + IFUNCS if f[1] in used]


def batch(chunk, st):
    cs = []
    for i, item in enumerate(chunk):
        mod, body = item if isinstance(item, tuple) else (None, item)
        if mod is None:
            mod = module_for(body)
        pre, outs = list(INIT), list(OUTS)
        if GLOB[0] in mod:
            pre.append(("set", V("g§"), I(0)))
            outs.append(OUT("g", V("g§")))
        key = "\n".join(pb(body, 0))
        if item is not body:
            key = "\n".join(pb(mod, 0)) + "\n" + key
        cs.append(prog.mk(key, mod, pre + body + outs, NAMES, INPUTS, i))
    cases.run_batch(cs, st)


def set_(e):
    return ("set", X, e)


INT_CALLS = [
    call("one§"), call("inc§", X), call("sq§", Y), call("sub§", X, Y),
    call("sub§", X), call("tri§"), call("tri§", X), call("tri§", v=Y),
    call("tri§", X, w=Y), call("tri§", w=X, u=Y), call("sub§", v=X, u=Y),
    call("sel§", P, X, Y), call("sel§", ("or", [P, Q]), ("+", X, Y), I(4)),
    call("fact§", I(4)), call("fact§", X), call("two§", X), call("last§", X),
    call("tick§", I(1)), call("tick§", I(2)), call("par§", X), call("nest§", X),
    call("if§", X), call("sub§", Y, X), call("inc§", call("inc§", X)),
    call("sub§", call("inc§", X), call("inc§", Y)),
    call("sub§", call("sub§", X, Y), call("sub§", Y, X)),
    call("sel§", call("pos§", X), call("sq§", X), call("sq§", Y)),
    call("tri§", call("inc§", X), call("inc§", Y), call("inc§", I(3))),
    call("sub§", ("*", ("+", X, Y), ("-", X, Y)), ("-", X, call("sq§", X))),
    call("sel§", ("not", P), X, Y), call("fact§", call("fact§", I(3))),
]
BOOL_CALLS = [
    call("neg§"), call("neg§", P), call("ror§", P, Q), call("pos§", X),
    call("neg§", ("or", [P, Q])), call("neg§", call("neg§", P)),
    call("ror§", ("and", [P, Q]), ("not", Q)),
    call("ror§", call("pos§", X), call("pos§", Y)),
    call("neg§", ("cmp", ("+", X, Y), ">", I(3))),
    call("ror§", s=("not", P), r=("cmp", X, "<", Y)),
]
INT_EAGER = [
    ("toint", P), ("toint", ("or", [P, Q])), ("toint", ("not", ("and", [P, Q]))),
    ("toint", ("cmp", X, ">", Y)), ("+", ("toint", ("or", [P, Q])), X),
    ("*", ("-", X, I(1)), ("+", Y, I(1))), ("/", Y, I(3)), ("-", I(3), Y),
    ("neg", X), X, I(5),
]
BOOL_EAGER = [
    P, ("not", P), ("or", [P, Q]), ("and", [P, Q]), ("cmp", X, ">", Y),
    ("cmp", ("+", X, Y), ">=", I(1)), ("cmp", P, "==", Q), ("cmp", P, "!=", Q),
    ("cmp", ("or", [P, Q]), "==", ("and", [P, Q])),
    ("not", ("or", [P, ("cmp", X, "<", Y)])),
    ("cmp", ("or", [P, Q]), "!=", ("cmp", X, ">", I(0))),
]


def items5(chk):
    for c in INT_CALLS:
        yield [set_(c)]
        yield [("expr", c)]
        yield [("let", "z", c), set_(("+", V("z"), c))]
        yield [set_(("neg", c))]
        for op in "+-*/%":
            yield [("aug", op, X, c)]
    for c in BOOL_CALLS:
        yield [("set", V("c"), c)]
        yield [("set", V("c"), ("not", c))]
        yield [("if", [(c, [set_(I(1))])], [set_(I(2))])]
        yield [set_(("toint", c))]
    # a call beside anything else in one expression
    for c, e in itertools.product(INT_CALLS, INT_EAGER):
        for op in ("+", "-", "*", "/") if not chk.thorough else "+-*/%":
            yield [set_((op, e, c))]
            yield [set_((op, c, e))]
        yield [("set", V("c"), ("cmp", e, "<", c))]
        yield [("set", V("c"), ("cmp", c, "!=", e))]
        yield [set_(call("sub§", e, c))]
        yield [set_(call("sub§", c, e))]
        yield [set_(("-", ("*", e, c), e))]
    for c, d in itertools.product(INT_CALLS, INT_CALLS):
        for op in "-" if not chk.thorough else "-*/":
            yield [set_((op, c, d))]
        yield [("set", V("c"), ("cmp", c, ">", d))]
    for c, e in itertools.product(BOOL_CALLS, BOOL_EAGER + BOOL_CALLS):
        for x, y in ((c, e), (e, c)):
            yield [("set", V("c"), ("and", [x, y]))]
            yield [("set", V("c"), ("or", [x, y]))]
            yield [("set", V("c"), ("cmp", x, "==", y))]
            yield [("set", V("c"), ("not", ("or", [x, y])))]
            yield [set_(("-", ("toint", x), ("*", ("toint", y), I(2))))]
            yield [set_(call("sel§", x, I(1), ("toint", y)))]
    for c, e in itertools.product(INT_CALLS[:12], BOOL_EAGER):
        yield [set_(("+", ("toint", e), c))]
        yield [set_(("+", c, ("toint", e)))]
        yield [set_(call("sel§", e, c, X))]
        yield [("set", V("c"), ("or", [e, ("cmp", c, ">", I(0))]))]
        yield [("set", V("c"), ("and", [("cmp", c, ">", I(0)), e]))]
        yield [("set", V("c"), ("cmp", e, "==", ("cmp", c, ">", I(0))))]
    # three calls
    sub = INT_CALLS[1:4] + INT_CALLS[14:15] + INT_CALLS[17:18]
    for c, d, e in itertools.product(sub, sub, sub):
        yield [set_(("-", ("*", c, d), e))]
        yield [set_(("-", c, ("-", d, e)))]
        yield [set_(call("tri§", c, d, e))]
    # order of effects
    t = lambda n: call("tick§", I(n))  # noqa: E731
    b = lambda n: ("expr", call("bump§", I(n)))  # noqa: E731
    yield [set_(("-", t(1), ("*", t(2), t(3))))]
    yield [set_(("-", ("*", t(1), t(2)), t(3)))]
    yield [set_(call("tri§", t(1), t(2), t(3)))]
    yield [set_(call("tri§", w=t(1), v=t(2), u=t(3)))]
    yield [set_(call("tri§", call("sub§", t(1), t(2)), call("sub§", t(3), t(4))))]
    for seq in itertools.product([b(1), ("expr", call("bump§")), ("expr", t(2)),
                                  set_(("-", X, t(3))), ("aug", "-", X, t(4)),
                                  set_(call("par§", X))],
                                 repeat=3 if not chk.thorough else 4):
        yield list(seq)
    # a function used in several places, in branches and loops
    for c in INT_CALLS:
        yield [("let", "i", I(0)), ("while", ("cmp", V("i"), "<", I(3)),
               [("aug", "+", X, c), ("aug", "+", V("i"), I(1))])]
        yield [("if", [(P, [set_(c)])], [("set", Y, c)]), ("aug", "+", N, c)]
        # called from another function, and from a nested one
        mod = module_for([set_(c)] + ([("expr", call("sub§", X, Y))]))
        w = fun("wrap§", [("x", "", "int"), ("y", "", "int"), ("p", "", "bool"),
                          ("q", "", "bool")], "int",
                ("let", "z", c), ("result", ("-", ("*", V("z"), I(3)), c)))
        yield mod + [w], [set_(call("wrap§", X, Y, P, Q)),
                          ("set", Y, call("wrap§", Y, X, Q, P))]
        yield mod + [w], [set_(("-", call("wrap§", X, Y, P, Q),
                                call("wrap§", Y, X, Q, P)))]
    # all int trees over calls
    calls = [call("sq§", X), call("sub§", Y, X), call("tick§", I(3)), Y]
    for n in (2, 3) if chk.thorough else (2,):
        for e in gen.int_trees(n, calls, ops=["+", "-", "*"]):
            yield [set_(e)]


def check_C05(chk):
    chk.bounds = {"functions": len(FUNCS),
                  "calls per expression": 3, "argument shapes": len(INT_CALLS)}
    chk.assumptions = ["a function that changes a variable read elsewhere in "
                       "the same expression is not judged"]
    chk.map(ME, "batch", items5(chk), 60)
    chk.map(callshape.__name__, "batch", callshape.items(
        "C05", chk.thorough), 40)
    chk.map(callsite.__name__, "batch", list(callsite.items("C05")), 40)


# ---------------------------------------------------------------------------
# C06: inline functions

def inl(name, params, rtype, *body):
    return fun(name, params, rtype, *body, kind="inline")


def err(e, *t):
    return ("ERR", e, t)


IFUNCS = [
    inl("val§", [("k", "", "int")], "int",
        ("aug", "+", V("k"), I(5)), ("result", ("*", V("k"), I(2)))),
    inl("ref§", [("k", "&", "int")], "int",
        ("aug", "+", V("k"), I(5)), ("result", ("*", V("k"), I(2)))),
    inl("con§", [("k", "const", "int")], "const int",
        ("result", ("-", ("*", V("k"), I(2)), I(1)))),
    inl("conv§", [("k", "const", "int"), ("m", "", "int", I(3))], "int",
        ("result", ("-", ("*", V("k"), V("m")), V("k")))),
    inl("pick§", [("u", "&", "int"), ("v", "&", "int")], "&int",
        ("result", V("v"), "&")),
    inl("same§", [("u", "&", "int")], "&int",
        ("set", V("u"), ("-", V("u"), I(1))), ("result", V("u"), "&")),
    inl("sw§", [("u", "&", "int"), ("v", "&", "int")], None,
        ("swap", V("u"), V("v"))),
    inl("mv§", [("u", "&", "int"), ("v", "", "int")], None,
        ("set", V("u"), ("-", V("v"), V("u"))),
        ("aug", "*", V("v"), I(3)), ("aug", "+", V("u"), V("v"))),
    inl("cond§", [("r", "", "bool"), ("u", "", "int"), ("v", "", "int")],
        "int",
        ("if", [(V("r"), [("result", V("u"))])], [("result", V("v"))])),
    inl("bnot§", [("r", "", "bool", ("b", True))], "bool",
        ("result", ("not", V("r")))),
    inl("bset§", [("r", "&", "bool"), ("s", "", "bool")], None,
        ("set", V("r"), ("and", [("not", V("r")), V("s")]))),
    inl("loop§", [("u", "", "int"), ("n", "const", "int", I(3))], "int",
        ("let", "i", I(0)), ("let", "s", I(0)),
        ("while", ("cmp", V("i"), "<", V("n")),
         [("aug", "+", V("s"), V("u")), ("aug", "+", V("i"), I(1))]),
        ("result", V("s"))),
    inl("over§", [("u", "", "int")], "int",
        ("result", I(1)), ("if", [(("cmp", V("u"), ">", I(2)),
                                   [("result", V("u"))])], None)),
    inl("glob§", [("u", "", "int")], "int",
        ("set", V("g§"), ("+", ("*", V("g§"), I(10)), V("u"))),
        ("result", V("u"))),
    inl("two2§", [("u", "", "int")], "int",
        ("let", "t", call("val§", V("u"))),
        ("result", ("-", call("val§", V("t")), call("sq§", V("u"))))),
    inl("rr§", [("u", "&", "int")], "int",
        ("expr", call("ref§", V("u"))),
        ("result", ("-", call("ref§", V("u")), V("u")))),
    inl("none§", [("u", "&", "int")], None, ("set", V("u"), I(77))),
    inl("dk§", [("u", "", "int"), ("v", "", "int", I(10)),
                ("w", "const", "int", I(100))], "int",
        ("result", ("-", ("-", V("w"), ("*", V("u"), I(2))), V("v")))),
    inl("shad§", [("x", "", "int"), ("y", "", "int")], "int",
        ("set", V("x"), ("-", V("y"), V("x"))), ("result", V("x"))),
    inl("untyped§", [("u", "", None)], "int",
        ("result", ("-", V("u"), I(1)))),
    inl("dflt§", [("u", "&", "int", V("g§"))], None,
        ("aug", "+", V("u"), I(1))),
    inl("infn§", [("u", "", "int")], "int",
        fun("deep§", [("w", "", "int")], "int",
            ("result", ("*", V("w"), I(3)))),
        ("result", ("-", call("deep§", V("u")), I(1)))),
    inl("caps§", [("k", "const", "int")], "int",
        ("let", "z", V("k")),
        inl("inner§", [("m", "&", "int")], "int",
            ("aug", "+", V("m"), V("k")), ("result", ("+", V("m"), V("z")))),
        ("expr", call("inner§", V("z"))),
        ("result", call("inner§", V("z")))),
]
BYNAME.update({f[1]: f for f in IFUNCS})

I_INT = [
    call("val§", X), call("val§", ("+", X, Y)), call("val§", I(4)),
    call("val§", call("val§", X)), call("con§", I(4)),
    call("con§", call("con§", I(2))), call("conv§", I(4)),
    call("conv§", I(4), X), call("conv§", m=Y, k=I(2)),
    call("conv§", call("con§", I(3)), call("val§", Y)),
    call("cond§", P, X, Y), call("cond§", ("or", [P, Q]), ("+", X, Y), I(3)),
    call("cond§", ("cmp", X, ">", I(0)), call("val§", X), call("sq§", Y)),
    call("loop§", X), call("loop§", Y, I(2)), call("over§", X),
    call("glob§", I(3)), call("two2§", X), call("dk§", X),
    call("dk§", X, Y), call("dk§", X, w=I(7)), call("dk§", w=I(7), u=Y, v=X),
    call("shad§", X, Y), call("shad§", Y, X), call("untyped§", X),
    call("untyped§", ("*", X, Y)), call("infn§", X), call("caps§", I(4)),
    call("val§", ("toint", ("or", [P, Q]))), call("sq§", call("val§", X)),
]
I_BOOL = [call("bnot§"), call("bnot§", P), call("bnot§", ("or", [P, Q])),
          call("bnot§", call("bnot§", Q)),
          call("bnot§", ("cmp", call("val§", X), ">", I(10)))]
I_STMT = [
    ("expr", call("sw§", X, Y)), ("expr", call("sw§", X, X)),
    ("expr", call("mv§", X, Y)), ("expr", call("mv§", X, X)),
    ("expr", call("mv§", X, ("-", X, Y))), ("expr", call("mv§", Y, call("val§", X))),
    ("expr", call("none§", X)), ("expr", call("none§", u=Y)),
    ("expr", call("bset§", P, Q)), ("expr", call("bset§", P, ("not", P))),
    ("expr", call("bset§", V("c"), ("cmp", X, ">", Y))),
    ("set", call("pick§", X, Y), I(9)), ("set", call("pick§", u=Y, v=X), Y),
    ("aug", "-", call("pick§", X, Y), X),
    ("aug", "*", call("same§", X), ("-", X, Y)),
    ("set", call("pick§", call("same§", X), call("same§", Y)), ("+", X, Y)),
    ("ref", "r", call("pick§", Y, X)),
    ("swap", call("pick§", X, Y), X),
    ("set", X, call("ref§", Y)), ("set", Y, call("ref§", Y)),
    ("set", X, call("rr§", Y)), ("let", "z", call("rr§", Y)),
    ("expr", call("ref§", call("pick§", X, Y))),
    ("expr", call("dflt§")), ("expr", call("dflt§", X)),
    ("set", ("scb", "n", "io"), I(3)), ("aug", "+", call("pick§", Y, N), I(3)),
]
# programs that must be refused: (body, error types)
I_ERR = [
    ([set_(call("con§", X))], "ARG_NOT_CONST"),
    ([set_(call("conv§", ("+", X, I(1))))], "ARG_NOT_CONST"),
    ([set_(call("dk§", X, Y, X))], "ARG_NOT_CONST"),
    ([("expr", call("ref§", I(3)))], "CANT_REF_ARG"),
    ([("expr", call("ref§", ("+", X, Y)))], "CANT_REF_ARG"),
    ([("expr", call("ref§", call("val§", X)))], "CANT_REF_ARG"),
    ([("expr", call("sw§", X, I(1)))], "CANT_REF_ARG"),
    ([("set", call("val§", X), I(1))], "INVALID_ASSIGN_TARGET"),
    ([("set", call("con§", I(1)), I(1))], "INVALID_ASSIGN_TARGET"),
    ([("aug", "+", call("val§", X), I(1))], "INVALID_ASSIGN_TARGET"),
    ([("ref", "r", call("val§", X))], "CANT_REF"),
    ([("const", "r", call("val§", I(1)))], "NOT_CONST"),
    ([("expr", call("ref§", P))], "WRONG_ARG_TYPE"),
    ([("expr", call("val§", P))], "WRONG_ARG_TYPE"),
    ([("expr", call("con§", ("b", True)))], "WRONG_ARG_TYPE"),
    ([("expr", call("val§"))], "MISSING_ARG"),
    ([("expr", call("val§", X, Y))], "TOO_MANY_ARGS"),
    ([("expr", call("val§", X, k=Y))], "ARG_MULTIPLE_VALUES"),
    ([("expr", call("val§", X, z=Y))], "UNEXPECTED_KEYWORD_ARG"),
    ([inl("e§", [("u", "", "int")], "int", ("pass",)),
      ("expr", call("e§", X))], "NEVER_RESULT"),
    ([inl("e§", [("u", "", "int")], "bool", ("result", V("u"))),
      ("expr", call("e§", X))], "WRONG_RESULT_TYPE"),
    ([inl("e§", [("u", "", "int")], None, ("result", V("u"))),
      ("expr", call("e§", X))], "WRONG_RESULT_TYPE"),
    ([inl("e§", [("u", "", "int")], "&int", ("result", ("+", V("u"), I(1)))),
      ("expr", call("e§", X))], "CANT_REF_RESULT"),
    ([inl("e§", [("u", "&", "int")], "&int", ("result", V("u")),
          ("result", V("u"))), ("expr", call("e§", X))], "MULTIPLE_RESULTS"),
    ([inl("e§", [("u", "", "int")], "const int", ("result", V("u"))),
      ("expr", call("e§", X))], "RESULT_NOT_CONST"),
    ([inl("e§", [("u", "const", "int")], "const int", ("result", V("u")),
          ("result", I(1))), ("expr", call("e§", I(2)))], "MULTIPLE_RESULTS"),
    ([inl("e§", [("u", "const", "int")], "int", ("set", V("u"), I(1)),
          ("result", I(1))), ("expr", call("e§", I(2)))],
     "INVALID_ASSIGN_TARGET"),
    ([inl("e§", [("u", "", "int", X)], "int", ("result", V("u")))],
     "NONREF_ARG_DEFAULT_NOT_CONST"),
    ([inl("e§", [("u", "&", "int", I(1))], "int", ("result", V("u")))],
     "CANT_REF_ARG"),
]


def items6(chk):
    for c in I_INT:
        yield [set_(c)]
        yield [("expr", c)]
        yield [("let", "z", c), ("set", Y, ("-", V("z"), c))]
        for op in "+-*/%":
            yield [("aug", op, X, c)]
        yield [("let", "i", I(0)), ("while", ("cmp", V("i"), "<", I(3)),
               [("aug", "+", X, c), ("aug", "+", V("i"), I(1))])]
        yield [("if", [(P, [set_(c)])], [("set", Y, c)]), ("aug", "+", N, c)]
        w = fun("wrap§", [("x", "", "int"), ("y", "", "int"), ("p", "", "bool"),
                          ("q", "", "bool")], "int",
                ("let", "z", c), ("result", ("-", ("*", V("z"), I(3)), c)))
        yield module_for([set_(c)]) + [w], [
            set_(("-", call("wrap§", X, Y, P, Q), call("wrap§", Y, X, Q, P)))]
        wi = w[:2] + ("inline",) + w[3:]
        yield module_for([set_(c)]) + [wi], [
            set_(("-", call("wrap§", X, Y, P, Q), call("wrap§", Y, X, Q, P)))]
    for c in I_BOOL:
        yield [("set", V("c"), c)]
        yield [("if", [(c, [set_(I(1))])], [set_(I(2))])]
        yield [("let", "i", I(0)), ("while",
               ("and", [("or", [c, ("not", c)]), ("cmp", V("i"), "<", I(3))]),
               [("aug", "+", V("i"), I(1)), ("aug", "+", X, I(1)),
                ("set", P, ("not", P))])]
        for d in I_BOOL + BOOL_CALLS + BOOL_EAGER:
            yield [("set", V("c"), ("and", [c, d]))]
            yield [("set", V("c"), ("or", [d, c]))]
            yield [("set", V("c"), ("cmp", d, "==", c))]
            yield [set_(("-", ("toint", c), ("toint", d)))]
    for c, e in itertools.product(I_INT, INT_EAGER + INT_CALLS[:14:3]):
        yield [set_(("-", e, c))]
        yield [set_(("-", c, e))]
        yield [("set", V("c"), ("cmp", e, "<", c))]
        yield [set_(call("sub§", e, c))]
        yield [set_(call("cond§", P, e, c))]
        yield [set_(call("shad§", c, e))]
    for c, d in itertools.product(I_INT, I_INT):
        yield [set_(("-", c, d))]
        if chk.thorough:
            yield [set_(("*", ("-", c, d), c))]
            yield [set_(call("shad§", c, d))]
            yield [("set", V("c"), ("cmp", c, "<=", d))]
    for s in I_STMT:
        yield [s]
        yield [("if", [(P, [s])], None)]
        yield [("let", "i", I(0)), ("while", ("cmp", V("i"), "<", I(2)),
               [s, ("aug", "+", V("i"), I(1))])]
        if s[0] not in ("ref", "let"):
            w = inl("wrap§", [("x", "&", "int"), ("y", "", "int"),
                              ("p", "&", "bool"), ("q", "", "bool"),
                              ("c", "", "bool"), ("n", "", "int", I(0))],
                    "int", s, ("result", ("-", X, ("*", Y, I(3)))))
            yield module_for([s]) + [w], [
                ("set", N, call("wrap§", Y, X, Q, P, P))]
    alpha = [s for s in I_STMT if s[0] not in ("let",)]
    for n in (2, 3) if chk.thorough else (2,):
        for seq in itertools.product(alpha, repeat=n):
            if sum(1 for s in seq if s[0] == "ref") > 1:
                continue
            seq = list(seq)
            if seq[0][0] == "ref":
                seq.append(("aug", "-", V("r"), ("-", X, Y)))
            yield seq


def batch_err(chunk, st):
    cs = []
    for i, (body, want) in enumerate(chunk):
        mod = module_for(body)
        key = "\n".join(pb(body, 0))
        src = mod + INIT[:0]
        cs.append({"key": key, "defs": "\n".join(pb(src, 0)).replace("§", "0"),
                   "body": [ln.replace("§", "0") for ln in
                            prog.read_inputs(NAMES) + pb(INIT + body, 0)],
                   "inputs": [], "expect": [], "want": "error:" + want})
    cases.run_batch(cs, st)


# Where the result of a function may be set

RES_PRELUDE = """entity Ent:
    new():
        new("pig", Pos(0.0, 1.0, 0.0))
/summon player
e1 := Ent()
e2 := Ent()
g2 := Engroup[Ent]()
g2.add(e1)
g2.add(e2)
g0 := Engroup[Ent]()
g := 0
"""
RES_SHAPES = {
    "p": "{r}", "c": "if c:|>{r}", "n": "if c:|>pass|else:|>{r}",
    "0": "for i in {{}}:|>{r}", "1": "for i in {{30}}:|>{ri}",
    "2": "for i in {{40, 50}}:|>{ri}",
    "2c": "for i in {{40, 50}}:|>if c:|>>{ri}",
    "c2": "if c:|>for i in {{60, 70}}:|>>{ri}",
    "22": "for i in {{1, 2}}:|>for j in {{10, 20}}:|>>{rij}",
    "x2": "for i in {{80, 90}}:|>if i == 80:|>>{ri}|>else:|>>pass",
    "g0": "for e in g0:|>{r}", "g2": "n = 0|for e in g2:|>n += 1|>{rn}",
}


def res_lines(shape, base):
    r = {"r": "result %d" % base, "ri": "result %d + i" % base,
         "rij": "result %d + i + j" % base, "rn": "result %d + n" % base}
    return [ln.replace(">", "    ") for ln in
            RES_SHAPES[shape].format(**r).split("|")]


def res_static(shape):
    return {"0": 0, "2": 2, "2c": 2, "c2": 2, "22": 4, "x2": 1}.get(shape, 1)


def res_value(shape, base, c):
    return {"p": base, "c": base if c else None, "n": None if c else base,
            "0": None, "1": base + 30, "2": base + 50,
            "2c": base + 50 if c else None, "c2": base + 70 if c else None,
            "22": base + 22, "x2": base + 80, "g0": None,
            "g2": base + 2}[shape]


def res_case(kind, shapes):
    if kind == "ref":
        head = "inline def f(c: bool) -> &int:"
    else:
        head = "%sdef f(c: bool) -> int:" % kind
    body = ["v1 := 1"] if kind == "ref" else []
    body += [head, "    n := 0"]
    exp = []
    for c in (0, 1):
        r = None
        for i, s in enumerate(shapes):
            x = res_value(s, 100 * (i + 1), c)
            r = x if x is not None else r
        exp.append({"r": r} if r is not None else {})
    static = sum(map(res_static, shapes))
    for i, s in enumerate(shapes):
        for ln in res_lines(s, 100 * (i + 1)):
            if kind == "ref" and "result" in ln:
                ln = ln[:ln.index("result")] + "result v1"
            body.append("    " + ln)
    want = "ok"
    if kind == "ref":
        body += ["f(c0) = 5", 'scb("r", "io") = v1']
        exp = [{"r": 5}, {"r": 5}]
        if static != 1:
            want = "error:NEVER_RESULT" if not static else \
                "error:MULTIPLE_RESULTS"
    else:
        body += ["x := f(c0)", 'scb("r", "io") = x']
        if kind == "inline " and not static:
            want = "error:NEVER_RESULT"
    return {"key": "results %s%s" % (kind, "+".join(shapes)), "defs": "",
            "body": ['c1 := scb("p", "io")', "c0 := c1 != 0"] + body,
            "inputs": [{"p": 0}, {"p": 1}], "expect": exp, "want": want}


def result_batch(chunk, st):
    cs = [res_case(*x) for x in chunk]
    cases.run_batch([c for c in cs if c["want"] == "ok"], st, RES_PRELUDE)
    cases.run_batch([c for c in cs if c["want"] != "ok"], st, RES_PRELUDE)


def result_items(lv):
    for kind in ("", "inline ", "ref"):
        for n in range(1, (4 if lv else 3) if kind != "ref" else 3):
            for w in itertools.product([
                    s for s in RES_SHAPES if s != "x2" or kind != "ref"],
                    repeat=n):
                yield kind, w


# -- entities passed to inline functions

EPRE = """entity E:
    n: int
    new(k: int):
        new("pig", Pos(0, 0, 0))
        self.n = k
    def bump():
        self.n += 3
"""
EPOST = """last: E
x := E(10)
y := E(20)
last = y
def g() -> E:
    result x
inline def same(a: E) -> E:
    result a
inline def rsame(&a: E) -> &E:
    result a
"""
EOPS = {
    "A": "a = last", "N": "a.n += 5", "L": "last = a", "W": "swap(a, last)",
    "R": "&c# = a\nc# = last", "C": "c# := a\nc# = last\nc#.n += 7",
    "M": "a.bump()", "T": "act2(a)", "U": "act3(a)",
}
# source: (text or None for self, may be a reference, `last` is visible)
ESRC = {"var": ("x", 1, 1), "function": ("g()", 0, 1),
        "inline": ("same(x)", 0, 1), "reference": ("rsame(x)", 1, 1),
        "new entity": ("E(30)", 1, 1), "cast": ("upcast(z, E)", 1, 1),
        "new": (None, 0, 0), "inline new": (None, 0, 1),
        "method": (None, 0, 0), "inline method": (None, 0, 1),
        "virtual": (None, 0, 0), "inline virtual": (None, 0, 1)}


def ent_program(src, port, ops):
    text, can, late = ESRC[src]
    body = []
    for i, o in enumerate(ops):
        body += EOPS[o].replace("#", str(i)).split("\n")
    act = ["inline def act2(b):", "    b = last", "    b.n += 11",
           "inline def act3(&b):", "    b.n += 13", "    b = last"]
    act += ["inline def act(%sa):" % port] + ["    " + b for b in body]
    acts = "\n".join(act) + "\n"
    if text:
        z = "entity F extends E:\n    pass\nz := F(40)\n" \
            if src == "cast" else ""
        return EPRE + acts + EPOST + z + "act(%s)\n" % text
    run = ["act(self)", "self.n += 1000"]
    kind, what = src, src.split()[-1]
    kind = "inline" if "inline" in src else ""
    ent = EPRE
    if what == "new":
        # not run for the other entities
        ent = ent.replace("new(k: int):", "%snew(%sk: int):" % (
            kind + " " if kind else "", "const " if kind else ""), 1).replace(
            "= k\n", "= k\n        if k == 40:\n" + "".join(
                "            %s\n" % r for r in run))
    else:
        ent += "    %s%sdef m():\n" % (
            "virtual " if "virtual" in src else "",
            "inline " if "inline" in kind else "") + "".join(
                "        %s\n" % r for r in run)
    # `last` has to be defined when the method is
    t = ent + acts + EPOST if ESRC[src][2] else acts + ent + EPOST
    return t + "z := E(40)\n" + ("z.m()\n" if what != "new" else "")


def ent_expect(src, port, ops):
    """{entity: n}, {variable: entity} or None if it must be refused"""
    if port and not ESRC[src][1]:
        return None
    n = {"x": 10, "y": 20, "z": 40, "new": 30}
    v = {"last": "y"}
    own = {"var": "x", "function": "x", "inline": "x", "reference": "x",
           "new entity": "new"}.get(src, "z")
    v["a"] = own
    for o in ops:
        if o in "AR":
            v["a"] = v["last"]
        elif o in "N":
            n[v["a"]] += 5
        elif o == "L":
            v["last"] = v["a"]
        elif o == "W":
            v["a"], v["last"] = v["last"], v["a"]
        elif o == "C":
            n[v["last"]] += 7
        elif o == "M":
            n[v["a"]] += 3
        elif o == "T":
            n[v["last"]] += 11
        elif o == "U":
            n[v["a"]] += 13
            v["a"] = v["last"]
    if own == "z" and src != "cast":
        n["z"] += 1000
    v["x"] = v["a"] if port and own == "x" else "x"
    v["y"] = "y"
    v["z"] = "z"
    return n, v


def ent_judge(item, st):
    src, port, ops = item
    text = ent_program(src, port, ops)
    want = ent_expect(src, port, ops)
    zs = ["z"] if "z := " in text else []
    for q in ["x", "y", "last"] + zs:
        text += 'scb("%s", "io") = %s.n\n' % (q, q)
    out = core.compile_files({"main.aca": text})
    st.programs += 1
    st.states += 1
    bad = None
    if out.crash:
        bad = "crash: " + out.crash
    elif want is None:
        if out.etype != "CANT_REF_ARG":
            bad = "%s instead of CANT_REF_ARG" % out.etype
    elif not out.ok:
        bad = "refused: %s" % out.error
    else:
        p, w = mc.Program(out.files), mc.World()
        w.budget = 20000
        w.add_objective("io")
        w.spawn("player")
        if p.malformed:
            bad = "malformed command %r" % (p.malformed[0],)
        else:
            p.run(w, "main")
            st.transitions += w.ncmds
            n, v = want
            exp = {q: n[v[q]] for q in ["x", "y", "last"] + zs}
            got = {q: w.scores["io"].get(q) for q in exp}
            st.outcome(repr(got))
            if got != exp:
                bad = "%r instead of %r" % (got, exp)
    return bad and core.Violation({
        "kind": "funcs", "key": "%s %s%s" % (src, port, " ".join(ops)),
        "what": bad + "\n" + text, "item": [src, port, list(ops)]})


def ent_batch(chunk, st):
    for item in chunk:
        v = ent_judge(item, st)
        if v:
            st.violations.append(v)


def ent_items(lv):
    for n in range(1, 4 if lv else 3):
        for ops in itertools.product(EOPS, repeat=n):
            for src in ESRC:
                # (what a cast gives keeps its template: E cannot be stored)
                if (src == "cast" or not ESRC[src][2]) and \
                        set(ops) - set("NM"):
                    continue
                for port in ("", "&"):
                    yield src, port, ops


# -- an int given to a const parameter of type float becomes a float

FNUM = {"3": 3.0, "-7": -7.0, "four": 4.0, "(1 + 2)": 3.0, "twice(5)": 10.0,
        "2.5": 2.5, "half": 0.5}
FBODY = {"x / 2": lambda x, y: x / 2, "x / y": lambda x, y: x / y,
         "x": lambda x, y: x, "y * x - 1": lambda x, y: y * x - 1,
         "g(x)": lambda x, y: x / 4, "g(y=x)": lambda x, y: x / 4,
         "g(x) + g(y=y)": lambda x, y: x / 4 + y / 4}
FCALL = ["f({0}, {1})", "f({0}, y={1})", "f(x={0}, y={1})", "f(y={1}, x={0})",
         "v.f({0}, y={1})"]


def conv_batch(chunk, st):
    for body in chunk:
        lines, want = [], []
        for a, b in itertools.product(FNUM, FNUM):
            for c in FCALL:
                lines.append("/say ${%s}" % c.format(a, b))
                want.append("say %s" % FBODY[body](FNUM[a], FNUM[b]))
        f = ("inline def f(const x: float, const y: float) -> const float:\n"
             "    result %s\n" % body)
        t = ("const four = 4\nconst half = 0.5\n"
             "const def twice(x: int) -> int:\n    result 2 * x\n"
             "inline def g(const y: float) -> const float:\n"
             "    result y / 4\n" + f +
             "entity V:\n" + "".join("    %s\n" % x for x in f.replace(
                 "inline", "static inline").splitlines())
             + "\n".join(lines).replace("v.f(", "V.f(") + "\n")
        out = core.compile_files({"main.aca": t})
        st.programs += 1
        st.states += len(lines)
        got = [x for f in out.files.values() for x in f.split("\n")
               if x.startswith("say ")] if out.ok else []
        bad = [(a, b, c) for a, b, c in itertools.zip_longest(
            lines, want, got) if b != c]
        st.outcome(repr(got))
        if bad:
            st.violations.append(core.Violation({
                "kind": "funcs", "key": "conversion " + body, "body": body,
                "what": "%s: %r instead of %r (%s)\n%s" % (
                    bad[0][0], bad[0][2], bad[0][1], out.error or out.crash,
                    t[:900])}))


def replay(v):
    if "body" in v:
        st = core.Stats()
        conv_batch([v["body"]], st)
        print(st.violations[0]["what"] if st.violations else "no violation")
        return int(bool(st.violations))
    r = ent_judge(v["item"], core.Stats())
    print(r["what"] if r else "no violation")
    return int(bool(r))


def check_C06(chk):
    chk.bounds = {"inline functions": len(IFUNCS),
                  "statement sequences": 3 if chk.thorough else 2}
    chk.assumptions = ["a function that changes a variable read elsewhere in "
                       "the same expression is not judged"]
    chk.map(ME, "batch", items6(chk), 60)
    chk.map(ME, "batch_err", I_ERR, 8)
    chk.map(callshape.__name__, "batch", callshape.items(
        "C06", chk.thorough), 40)
    chk.map(callsite.__name__, "batch", list(callsite.items("C06")), 40)
    chk.map(ME, "result_batch", list(result_items(chk.thorough)), 40)
    chk.map(ME, "conv_batch", list(FBODY), 1)
    chk.map(ME, "ent_batch", list(ent_items(chk.thorough)), 30)
