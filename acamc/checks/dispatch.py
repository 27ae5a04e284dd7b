"""C13: which implementation a method call runs, and which sets of templates
are legal, for every small class hierarchy."""
import itertools

from .. import cases, core, ents, lang, mc
from ..lang import pb
from ..prog import I, V
from .entities import OUT, PLAYER, SELF, at

ME = __name__
# bases of every template, in order of definition
SHAPES = {
    "chain2": [(), (0,)],
    "chain3": [(), (0,), (1,)],
    "roots": [(), (), (0, 1)],
    "roots2": [(), (), (1, 0), (2,)],
    "fork": [(), (0,), (0,)],
    "diamond": [(), (0,), (0,), (1, 2)],
    "longdia": [(), (0,), (1,), (0,), (2, 3)],
    "mixed": [(), (), (0,), (2, 1)],
    "tri": [(), (0,), (0, 1)],           # no linear order
    "dup": [(), (0, 0)],
}
QUAL = [None] + [(q, k) for q in ("", "virtual", "override", "static")
                 for k in ("", "inline")]
KINDS = [None] + [(q, "") for q in ("", "virtual", "override", "static")]
SUPER = [None, ("", ""), ("", "inline"), ("virtual", ""),
         ("virtual", "inline"), ("override", ""), ("override", "inline")]


def T(i):
    return "T%d§" % i


def w(e, i):
    return at(e, "w%d" % i)


def method(i, q, kind, name="m", sup=()):
    """sup: templates whose implementation is called on self (a cast)"""
    res = ("+", ("*", V("k"), I(10)), I(i))
    for b in sup:
        res = ("+", res, ("*", ("mcall", ("upcast", SELF, T(b)), "m",
                                [("+", V("k"), I(1))]), I(3)))
    if q == "static":
        body = [("result", res)]
    else:
        body = [("aug", "+", w(SELF, i), V("k")),
                ("result", ("+", ("*", w(SELF, i), I(100)), res))]
    return (q, ("func", name, kind, [("k", "", "int", None)], "int", body))


def hierarchy(shape, quals, extra=None, sup=None):
    """-> module nodes of the templates; sup: the reference model of the same
    hierarchy, for methods that call the implementations of the bases."""
    out = []
    for i, bases in enumerate(SHAPES[shape]):
        ms = []
        if quals[i]:
            ms.append(method(i, *quals[i], sup=[
                b for b in bases
                if sup and sup.t[T(b)].kind.get("m") not in (None, "static")]))
        if extra:
            ms += extra(i)
        new = None
        if not bases:
            new = ("", [], [("newstmt", None,
                             ("armor_stand", (1.5, 2.0, 3.5)))])
        out.append(("entity", T(i), [T(b) for b in bases],
                    [("w%d" % i, "int")], ms, new))
    return out


def anc(shape, i):
    r = [i]
    for b in SHAPES[shape][i]:
        r += [x for x in anc(shape, b) if x not in r]
    return sorted(r)


def program(shape, quals, it):
    """Body that calls m in every possible way; it: the reference model with
    the templates loaded."""
    n = len(SHAPES[shape])
    body = []
    outs = []

    def out(e):
        outs.append(OUT("r%d" % len(outs), e))
        body.append(outs[-1])
    for j in range(n):
        body.append(("let", "o%d" % j, ("new", T(j), [])))
        for i in anc(shape, j):
            body.append(("set", w(V("o%d" % j), i), I(2 + i)))
    for j in range(n):
        o = V("o%d" % j)
        for i in anc(shape, j):
            kind = it.t[T(i)].kind.get("m")
            if kind is None:
                continue
            if i == j:
                v = o
            else:
                v = V("v%d%d" % (j, i))
                body.append(("def", v[1], T(i), o))
            out(("mcall", v, "m", [I(1)]))
            out(("mcall", ("upcast", o, T(i)), "m", [I(2)]))
            if kind == "static":
                out(("tcall", T(i), "m", [I(3)]))
    # run-time choice of the entity behind one variable
    for i in range(n):
        desc = [j for j in range(n) if i in anc(shape, j)]
        if len(desc) < 2 or it.t[T(i)].kind.get("m") is None:
            continue
        u = V("u%d" % i)
        body.append(("def", u[1], T(i), V("o%d" % desc[0])))
        body.append(("if", [(("cmp", V("a"), "==", I(k)),
                             [("set", u, V("o%d" % j))])
                            for k, j in enumerate(desc)], None))
        out(("mcall", u, "m", [("+", V("a"), I(4))]))
        # compound use of two calls on one variable
        out(("-", ("mcall", u, "m", [I(5)]),
             ("mcall", u, "m", [("*", V("a"), V("a"))])))
    for j in range(n):
        for i in anc(shape, j):
            out(w(V("o%d" % j), i))
    return body


INPUTS = [{"a": i} for i in range(4)]


def finish_case(key, module, body, inputs, it, run, n, want=None):
    sub = lambda s: s.replace("§", str(n))  # noqa: E731
    case = {"key": key, "defs": "\n".join(sub(x) for x in pb(module, 0)),
            "body": ['a := scb("a", "io")'] + [sub(x) for x in pb(body, 0)],
            "inputs": inputs, "world": PLAYER}
    if want:
        case.update(want=want, inputs=[], expect=[])
    else:
        try:
            case["expect"] = [dict(run(body, i)) for i in inputs]
        except lang.Skip:
            return None
    return case


def make(item, n):
    shape, quals, sup = item
    module = hierarchy(shape, quals)
    key = shape + " " + " ".join(
        "-" if q is None else (q[1] + " " + (q[0] or "simple")).strip()
        for q in quals)
    try:
        it, run = ents.evaluator(module)
    except ents.Invalid:
        if sup:
            return None
        return finish_case(key, module, [], [], None, None, n, want="error")
    if sup:
        if not any(q and bs and q[0] != "static"
                   for q, bs in zip(quals, SHAPES[shape])):
            return None
        module = hierarchy(shape, quals, sup=it)
        it, run = ents.evaluator(module)
        key += " super"
    return finish_case(key, module, program(shape, quals, it), INPUTS, it,
                       run, n)


def batch(chunk, st):
    cs = [make(x, i) for i, x in enumerate(chunk)]
    st.count("refused", sum(bool(x and x.get("want")) for x in cs))
    cases.run_batch([x for x in cs if x], st)


def items(chk):
    for s in SHAPES:
        n = len(SHAPES[s])
        if n <= 3 or (chk.thorough and n == 4):
            dom = QUAL
        elif n == 4 or chk.thorough:
            dom = KINDS
        else:
            dom = [None, ("", ""), ("virtual", ""), ("override", "")]
        for q in itertools.product(dom, repeat=n):
            if any(q):
                yield s, q, False
        for q in itertools.product(SUPER, repeat=n):
            if n > 1 and q[0] and s not in ("tri", "dup"):
                yield s, q, True


# -- sequences of calls over a fixed family ------------------------------------

X = at(SELF, "x")
K = V("k")


def fn(name, kind, params, rtype, body):
    return ("func", name, kind, params, rtype, body)


PK = [("k", "", "int", None)]
PO = [("o", "", "R§", None)]
# (a template is not visible inside its own definition, hence two of them)
FAMILY = [
    ("entity", "R§", [], [("x", "int"), ("f", "bool")], [
        ("virtual", fn("get", "", PK, "int", [
            ("aug", "+", X, K), ("result", ("*", X, I(2)))])),
        ("virtual", fn("inl", "inline", [("r", "&", "int", None)], "int", [
            ("aug", "+", V("r"), X), ("result", ("+", V("r"), I(1)))])),
        ("virtual", fn("big", "", [], "bool", [
            ("result", ("cmp", X, ">", I(4)))])),
    ], ("", [("a", "", "int", None)], [
        ("newstmt", None, ("armor_stand", (1.5, 2.0, 3.5))),
        ("set", X, V("a"))])),
    ("entity", "Z§", ["R§"], [], [
        ("virtual", fn("act", "", PO, None, [
            ("aug", "+", at(V("o"), "x"), X)])),
        ("", fn("twice", "", PK, "int", [
            ("let", "p", ("mcall", SELF, "get", [K])),
            ("result", ("-", ("mcall", SELF, "get", [("+", K, I(1))]),
                        V("p")))])),
        ("virtual", fn("who", "", [], "R§", [("result", SELF)])),
        ("", fn("name", "", [], "int", [("result", I(1))])),
    ], None),
    ("entity", "A§", ["Z§"], [], [
        ("override", fn("get", "", PK, "int", [
            ("result", ("+", ("mcall", ("upcast", SELF, "Z§"), "get",
                              [("*", K, I(2))]), I(100)))])),
        ("override", fn("act", "", PO, None, [
            ("swap", X, at(V("o"), "x"))])),
        ("", fn("name", "", [], "int", [("result", I(2))])),
    ], None),
    ("entity", "B§", ["A§"], [("y", "int")], [
        ("override", fn("get", "inline", PK, "int", [
            ("aug", "-", at(SELF, "y"), K), ("aug", "+", X, at(SELF, "y")),
            ("result", ("-", at(SELF, "y"), X))])),
        ("override", fn("inl", "inline", [("r", "&", "int", None)], "int", [
            ("swap", V("r"), at(SELF, "y")), ("result", ("*", X, I(3)))])),
        ("override", fn("big", "", [], "bool", [
            ("result", ("not", ("mcall", ("upcast", SELF, "Z§"), "big",
                                [])))])),
    ], ("", [("a", "", "int", None)], [
        ("newstmt", "A§", [("*", V("a"), I(2))]),
        ("set", at(SELF, "y"), I(50))])),
    ("entity", "C§", ["Z§"], [], [
        ("override", fn("act", "", PO, None, [
            ("expr", ("mcall", V("o"), "get", [X])),
            ("aug", "+", X, I(1))])),
        ("override", fn("inl", "inline", [("r", "&", "int", None)], "int", [
            ("set", V("r"), ("-", X, V("r"))), ("result", V("r"))])),
    ], None),
    ("func", "via§", "", [("p", "", "Z§", None), ("k", "", "int", None)],
     "int", [("result", ("mcall", V("p"), "get", [("-", V("k"), I(1))]))]),
]
e1, e2, b1 = V("e1"), V("e2"), V("b1")
EINIT = [
    ("let", "a1", ("new", "A§", [I(5)])),
    ("let", "b1", ("new", "B§", [I(3)])),
    ("def", "e1", "Z§", ("new", "Z§", [I(1)])),
    ("def", "e2", "Z§", ("new", "C§", [I(2)])),
    ("set", at(b1, "f"), ("b", True)), ("let", "n", I(7)),
    ("def", "rr", "R§", b1),
    ("if", [(("cmp", V("a"), "==", I(1)), [("set", e1, V("a1"))]),
            (("cmp", V("a"), "==", I(2)), [("set", e1, b1)]),
            (("cmp", V("a"), "==", I(3)), [("set", e1, e2)])], None),
    ("if", [(("cmp", V("b"), "==", I(1)), [("set", e2, V("a1"))]),
            (("cmp", V("b"), "==", I(2)), [("set", e2, b1)]),
            (("cmp", V("b"), "==", I(3)), [("set", e2, e1)])], None),
]


def mcl(e, m, *args):
    return ("mcall", e, m, list(args))


N = V("n")
CALLS = []
for _p, _q in ((e1, e2), (e2, e1), (b1, e1), (V("a1"), e2)):
    CALLS += [
        mcl(_p, "get", I(1)), mcl(_p, "get", ("*", N, N)),
        mcl(_p, "get", at(_q, "x")), mcl(_p, "get", mcl(_q, "get", I(1))),
        mcl(_p, "twice", I(3)), mcl(_p, "twice", mcl(_q, "twice", N)),
        mcl(_p, "name"), mcl(_p, "inl", N), mcl(_p, "inl", at(_q, "x")),
        mcl(mcl(_p, "who"), "get", I(2)),
        mcl(("upcast", _p, "Z§"), "get", N),
        ("call", "via§", [_p, ("*", at(_p, "x"), I(2))]),
    ]
STMTS = (
    [("set", N, c) for c in CALLS]
    + [("set", at(e1, "x"), c) for c in CALLS[::3]]
    + [("set", N, ("-", x, y)) for x in CALLS[:12:2]
       for y in CALLS[12:24:2]]
    + [("expr", mcl(p, "act", q)) for p in (e1, e2, b1)
       for q in (e1, e2, V("a1"))]
    + [("set", V("rr"), mcl(e2, "who")),
       ("set", N, mcl(V("rr"), "get", mcl(e1, "get", N))), ("swap", e1, e2), ("set", e1, b1),
       ("set", N, ("toint", mcl(e1, "big"))),
       ("set", at(e2, "f"), mcl(e1, "big")),
       ("if", [(mcl(e1, "big"), [("expr", mcl(e1, "act", e2))])],
        [("set", N, mcl(e2, "get", N))]),
       ("if", [(("and", [mcl(e1, "big"), mcl(e2, "big")]),
                [("set", N, I(0))])], [("aug", "+", N, I(1))]),
       ("while", ("cmp", N, "<", I(30)),
        [("aug", "+", N, I(9)), ("expr", mcl(e1, "get", N)),
         ("swap", e1, e2)]),
       ("aug", "+", N, mcl(e1, "get", ("+", N, at(e1, "x")))),
       ("aug", "-", at(e1, "x"), mcl(e2, "get", I(1))),
       ("set", at(mcl(e1, "who"), "x"), I(8)),
       ("expr", mcl(e1, "act", mcl(e2, "who")))])
EINPUTS = [{"a": i, "b": j} for i in range(4) for j in range(4)]


def emake(body, n):
    outs = [OUT("n", N), OUT("y", at(b1, "y"))]
    for v in ("a1", "b1", "e1", "e2", "rr"):
        outs += [OUT(v, at(V(v), "x")), OUT("f" + v, ("toint",
                                                      at(V(v), "f")))]
    full = EINIT[:4] + [("set", at(V(v), "f"), ("b", False))
                        for v in ("a1", "e1", "e2")] + EINIT[4:] + body + outs
    it, run = ents.evaluator(FAMILY)
    c = finish_case("\n".join(pb(body, 0)), FAMILY, full, EINPUTS, it, run, n)
    if c:
        c["body"].insert(1, 'b := scb("b", "io")')
    return c


def ebatch(chunk, st):
    cs = [emake(x, i) for i, x in enumerate(chunk)]
    st.count("skipped", sum(x is None for x in cs))
    cases.run_batch([x for x in cs if x], st)


def eitems(chk):
    for x in STMTS:
        yield [x]
    p, q = (STMTS, STMTS) if chk.thorough else (STMTS[::2], STMTS[1::2])
    for x, y in itertools.product(p, q):
        yield [x, y]


# -- systems of virtual methods that call each other ---------------------------

# two families; family 1 is defined (and its variable made) before family 0
METHODS = [(0, "p"), (1, "p"), (0, "q"), (1, "q")]     # a call goes rightwards
EDGES = [(i, j) for i in range(4) for j in range(i + 1, 4)]
ORDERS = [[0], [1, 0], [3, 2, 1, 0], [0, 1, 2, 3], [2, 0, 2], [3, 0, 1, 0]]


def gmake(item, n):
    """edges: bits of EDGES; inl: bits of METHODS that are inline in the base;
    over: bits of METHODS overridden in the derived template; dyn: whether
    the derived implementations are inline."""
    edges, inl, over, dyn, order = item
    inline = {}
    for m in range(4):
        inline[m, 0] = inl >> m & 1
        inline[m, 1] = dyn
    calls = {}
    text = []
    for fam in (1, 0):
        for sub in (0, 1):
            text.append("entity F%d%d§%s:" % (
                fam, sub, " extends F%d0§" % fam if sub else ""))
            if not sub:
                text += ["    new():", '        new("armor_stand", '
                         "Pos(1.5, 2.0, 3.5))"]
            done = not sub
            for m, (f, name) in enumerate(METHODS):
                if f != fam or sub and not over >> m & 1:
                    continue
                done = True
                inn = inline[m, sub]
                text.append("    %s %sdef %s():" % (
                    "override" if sub else "virtual",
                    "inline " if inn else "", name))
                text.append('        scb("t", "io") = scb("t", "io") * 7 + %d'
                            % (1 + m + 4 * sub))
                calls[m, sub] = []
                for k, (x, y) in enumerate(EDGES):
                    if x != m or not edges >> k & 1:
                        continue
                    g, callee = METHODS[y]
                    if g == fam:
                        v = "self" if k % 2 or not inn else "x%d§" % g
                    elif inn or g == 1:
                        v = "x%d§" % g
                    else:
                        continue
                    calls[m, sub].append(y)
                    text.append("        %s.%s()" % (v, callee))
            if not done:
                text.append("    pass")
        text.append("x%d§: F%d0§" % (fam, fam))

    def trace(t, m, kind):
        sub = 1 if kind[METHODS[m][0]] and over >> m & 1 else 0
        t = mc.wrap(t * 7 + 1 + m + 4 * sub)
        for y in calls[m, sub]:
            t = trace(t, y, kind)
        return t
    body = []
    for fam in (0, 1):
        body += ['if scb("k%d", "io") == 1:' % fam,
                 "    x%d§ = F%d1§()" % (fam, fam), "else:",
                 "    x%d§ = F%d0§()" % (fam, fam)]
    body += ["x%d§.%s()" % METHODS[m] for m in order]
    expect = []
    inputs = [{"k0": a, "k1": b, "t": 0} for a in (0, 1) for b in (0, 1)]
    for k in inputs:
        t = 0
        for m in order:
            t = trace(t, m, (k["k0"], k["k1"]))
        expect.append({"t": t})
    sub = lambda s: s.replace("§", str(n))  # noqa: E731
    return {"key": "virtual calls %s" % (item,),
            "defs": "\n".join(map(sub, text)), "body": list(map(sub, body)),
            "inputs": inputs, "expect": expect, "world": PLAYER}


def gbatch(chunk, st):
    cases.run_batch([gmake(x, i) for i, x in enumerate(chunk)], st)


def gitems(chk):
    n = 0
    for edges in range(64):
        for inl in range(16):
            for over in range(16):
                n += 1
                if over not in (0, 5, 10, 15) and not chk.thorough:
                    continue
                for dyn in (0, 1):
                    if not over and dyn:
                        continue
                    for k, o in enumerate(ORDERS):
                        if chk.thorough and over in (0, 6, 9, 15) or \
                                k == (n + inl + dyn + over) % 6:
                            yield edges, inl, over, dyn, o


def check(chk):
    chk.map(ME, "batch", items(chk), 12)
    chk.map(ME, "ebatch", eitems(chk), 8)
    chk.map(ME, "gbatch", gitems(chk), 12)
