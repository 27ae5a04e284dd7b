"""A reference grammar of Acacia and a breadth-first recogniser for it.

A configuration is (symbols still expected, productions used so far); reading
a token replaces a set of configurations by those that can go on. The grammar
has no left recursion, so the sets are finite, and a sequence of tokens is the
beginning of a program just when its set is not empty. The productions used
give the tree."""

G = {}


def rule(nt, *alts):
    for a in alts:
        syms, act = a if isinstance(a, tuple) else (a, None)
        G.setdefault(nt, []).append((tuple(syms.split()), act or (
            lambda *xs: xs)))


def first(*xs):
    return xs[0] if xs else None


def lists(nt, item, sep=","):
    """nt: item (sep item)*"""
    tail = nt[:-1] + "'>"
    rule(nt, (item + " " + tail, lambda x, t: [x] + t))
    rule(tail, ("", lambda: []),
         ("%s %s %s" % (sep, item, tail), lambda _, x, t: [x] + t))


def plists(nt, item):
    """nt: (item ,)* item?"""
    more = nt[:-1] + "+>"
    rule(nt, ("", lambda: []), (item + " " + more, lambda x, t: [x] + t))
    rule(more, ("", lambda: []), (", " + nt, lambda _, t: t))


def binop(nt, sub, ops):
    tail = nt[:-1] + "'>"
    rule(nt, ("%s %s" % (sub, tail), lambda x, t: t(x)))
    rule(tail, ("", lambda: lambda x: x), *[
        ("%s %s %s" % (op, sub, tail),
         lambda o, y, t, name=name: lambda x: t(("BinOp", x, name, y)))
        for op, name in ops])


# -- expressions
rule("<expr>", ("<e8>", first))


def boolop(nt, sub, op):
    lists(nt + "l>", sub, op)
    rule(nt, (nt + "l>", lambda xs: xs[0] if len(xs) == 1 else (
        "BoolOp", op + "_", xs)))


boolop("<e8>", "<e7>", "or")
boolop("<e7>", "<e6>", "and")
rule("<e6>", ("not <e6>", lambda _, x: ("UnaryOp", "not_", x)),
     ("<e5>", first))
rule("<e5>", ("<e4> <cmps>", lambda x, t: (
    "CompareOp", x, [o for o, _ in t], [y for _, y in t]) if t else x))
rule("<cmps>", ("", lambda: []), *[
    (op + " <e4> <cmps>", lambda _, y, t, name=name: [(name, y)] + t)
    for op, name in (("==", "equal_to"), ("!=", "unequal_to"),
                     (">", "greater"), ("<", "less"),
                     (">=", "greater_equal"), ("<=", "less_equal"))])
binop("<e4>", "<e3>", (("+", "add"), ("-", "minus")))
binop("<e3>", "<e2>", (("*", "multiply"), ("/", "divide"), ("%", "mod")))
rule("<e2>", ("+ <e2>", lambda _, x: ("UnaryOp", "positive", x)),
     ("- <e2>", lambda _, x: ("UnaryOp", "negative", x)), ("<e1>", first))
rule("<e1>", ("<e0> <posts>", lambda x, t: t(x)))
rule("<posts>", ("", lambda: lambda x: x),
     (". ID <posts>", lambda _, n, t: lambda x: t(("Attribute", x, n))),
     ("<call> <posts>", lambda c, t: lambda x: t(("Call", x, c))),
     ("[ <exprs> ] <posts>",
      lambda _, xs, __, t: lambda x: t(("Subscript", x, xs))))
plists("<exprs>", "<expr>")
rule("<call>", ("( <args> )", lambda _, xs, __: ("Args", xs)))
plists("<args>", "<arg>")
rule("<arg>", ("<expr>", lambda x: (None, x)),
     ("ID = <expr>", lambda n, _, x: (n, x)))
rule("<e0>", ("( <expr> )", lambda _, x, __: x),
     ("NUM", lambda v: ("Literal", v)),
     ("True", lambda _: ("Literal", True)),
     ("False", lambda _: ("Literal", False)),
     ("None", lambda _: ("Literal", None)),
     ("ID", lambda n: ("Identifier", n)), ("self", lambda _: ("Self",)),
     ("<strs>", lambda xs: ("StrLiteral", ("FormattedStr", xs))),
     ("{ <exprs> }", lambda _, xs, __: ("ListDef", xs)),
     ("{ : }", lambda *_: ("MapDef", [], [])),
     ("{ <pair> <pairs+> }", lambda _, p, ps, __: (
         "MapDef", [k for k, _ in [p] + ps], [v for _, v in [p] + ps])))
rule("<pair>", ("<expr> : <expr>", lambda k, _, v: (k, v)))
plists("<pairs>", "<pair>")
# strings: "x", or "x${ expr }y${ expr }z"
rule("<strs>", ("<str> <strs'>", lambda x, t: x + t))
rule("<strs'>", ("", lambda: []), ("<str> <strs'>", lambda x, t: x + t))
rule("<str>", ("STR", lambda s: [s] if s else []),
     ("STR${ <expr> <strt>", lambda s, x, t: ([s] if s else []) + [x] + t))
rule("<strt>", ('}STR', lambda s: [s] if s else []),
     ("}STR${ <expr> <strt>",
      lambda s, x, t: ([s] if s else []) + [x] + t))

# -- statements
rule("<module>", ("<stmts> END", lambda x, _: ("Module", x)))
rule("<stmts>", ("", lambda: []), ("<stmt> <stmts>", lambda x, t: [x] + t))
rule("<block>", ("NL INDENT <stmt> <stmts> DEDENT",
                 lambda _, __, x, t, ___: [x] + t))
rule("<body>", ("BODY", lambda _: [("Pass",)]), ("<block>", first))
rule("<stmt>", ("<simple> NL", first), ("<compound>", first))
rule("<simple>", ("pass", lambda _: ("Pass",)),
     ("result <expr>", lambda _, x: ("Result", x)),
     ("new <call>", lambda _, c: ("NewCall", None, c)),
     ("<expr> . new <call>", lambda x, _, __, c: ("NewCall", x, c)),
     ("<expr>", lambda x: ("ExprStatement", x)),
     ("<expr> = <expr>", lambda x, _, y: ("Assign", x, y)),
     *[("<expr> %s <expr>" % op, lambda x, _, y, name=name: (
         "AugmentedAssign", x, name, y))
       for op, name in (("+=", "add"), ("-=", "minus"), ("*=", "multiply"),
                        ("/=", "divide"), ("%=", "mod"))],
     ("<expr> := <expr>", lambda x, _, y: ("AutoVarDef", x, y)),
     ("<expr> : <expr>", lambda x, _, t: ("VarDef", x, t, None)),
     ("<expr> : <expr> = <expr>",
      lambda x, _, t, __, v: ("VarDef", x, t, v)),
     ("& <cdecl>", lambda _, d: ("ReferenceDef",) + d),
     ("const <cdecls>", lambda _, d: ("ConstDef", d)),
     ("const ( <cdeclp> )", lambda _, __, d, ___: ("ConstDef", d)),
     ("import <meta> <alias>", lambda _, m, a: ("Import", m, a or m[-1])),
     ("from <meta> import *", lambda _, m, __, ___: ("FromImportAll", m)),
     ("from <meta> import <names>",
      lambda _, m, __, xs: ("FromImport", m, xs)),
     ("from <meta> import ( <namep> )",
      lambda _, m, __, ___, xs, ____: ("FromImport", m, xs)),
     ("CMD", lambda s: ("Command", ("FormattedStr", [s] if s else []))),
     ("CMD${ <expr> <cmdt>", lambda s, x, t: (
         "Command", ("FormattedStr", ([s] if s else []) + [x] + t))))
rule("<cmdt>", ("}CMD", lambda s: [s] if s else []),
     ("}CMD${ <expr> <cmdt>",
      lambda s, x, t: ([s] if s else []) + [x] + t))
rule("<cdecl>", ("ID = <expr>", lambda n, _, x: (n, None, x)),
     ("ID : <expr> = <expr>", lambda n, _, t, __, x: (n, t, x)))
lists("<cdecls>", "<cdecl>")
plists("<cdeclp>", "<cdecl>")
rule("<meta>", (". <meta>", lambda _, m: (m[0] + 1,) + m[1:]),
     ("<path>", lambda p: (0,) + tuple(p)))
lists("<path>", "ID", ".")
rule("<alias>", ("", lambda: None), ("as ID", lambda _, n: n))
rule("<name>", ("ID <alias>", lambda n, a: (n, a or n)))
lists("<names>", "<name>")
plists("<namep>", "<name>")

rule("<compound>",
     ("if <expr> : <body> <else>",
      lambda _, c, __, b, e: ("If", c, b, e)),
     ("while <expr> : <body>", lambda _, c, __, b: ("While", c, b)),
     ("for ID in <expr> : <body>",
      lambda _, n, __, x, ___, b: ("For", n, x, b)),
     ("IFACE : <body>", lambda p, _, b: ("InterfaceDef", p, b)),
     ("<def>", first),
     ("entity ID <extends> : NL INDENT <member> <members> DEDENT",
      lambda _, n, x, __, ___, ____, m, ms, _____: (
          "EntityTemplateDef", n, x, [m] + ms)),
     ("struct ID <extends> : NL INDENT <field> <fields> DEDENT",
      lambda _, n, x, __, ___, ____, m, ms, _____: (
          "StructDef", n, x, [m] + ms)))
rule("<else>", ("", lambda: []), ("else : <body>", lambda _, __, b: b),
     ("elif <expr> : <body> <else>",
      lambda _, c, __, b, e: [("If", c, b, e)]))
rule("<extends>", ("", lambda: []), ("extends <exprl>", lambda _, x: x))
lists("<exprl>", "<expr>")
rule("<def>",
     ("def ID <func>", lambda _, n, f: ("FuncDef", n, "Normal", f)),
     ("inline def ID <ifunc>", lambda _, __, n, f: (
         "FuncDef", n, "Inline", f)),
     ("const def ID <cfunc>", lambda _, __, n, f: (
         "FuncDef", n, "Const", f)))
for nt, par in (("<func>", "<par>"), ("<ifunc>", "<ipar>"),
                ("<cfunc>", "<par>")):
    ps = par[:-1] + "s>"
    port = "<port> " if nt == "<ifunc>" else ""
    rule(nt, ("( %s ) : <body>" % ps,
              lambda _, a, __, ___, b: (a, None, b)),
         ("( %s ) -> %s<expr> : <body>" % (ps, port),
          (lambda _, a, __, ___, q, r, ____, b: (a, (q, r), b)) if port else
          (lambda _, a, __, ___, r, ____, b: (a, ("by_value", r), b))))
rule("<port>", ("", lambda: "by_value"), ("&", lambda _: "by_reference"),
     ("const", lambda _: "const"))
rule("<par>", ("ID <ptype> <pdef>", lambda n, t, d: (n, "by_value", t, d)))
rule("<ipar>", ("<port> ID <ptype> <pdef>",
                lambda q, n, t, d: (n, q, t, d)))
rule("<ptype>", ("", lambda: None), (": <expr>", lambda _, x: x))
rule("<pdef>", ("", lambda: None), ("= <expr>", lambda _, x: x))
plists("<pars>", "<par>")
plists("<ipars>", "<ipar>")
rule("<members>", ("", lambda: []),
     ("<member> <members>", lambda x, t: [x] + t))
rule("<member>", ("<field>", first),
     ("new <func>", lambda _, f: ("NewMethod", "Normal", f)),
     ("inline new <ifunc>", lambda _, __, f: ("NewMethod", "Inline", f)),
     ("<def>", lambda d: ("EntityMethod", d, "none")),
     *[(q + " <def>", lambda _, d, q=q: ("EntityMethod", d, q))
       for q in ("virtual", "override", "static")])
rule("<field>", ("pass NL", lambda *_: ("Pass",)),
     ("ID : <expr> NL", lambda n, _, t, __: ("Field", n, t)))
rule("<fields>", ("", lambda: []),
     ("<field> <fields>", lambda x, t: [x] + t))


def start():
    return [((("<module>"), None), None)]


def closure(configs):
    """Configurations whose next symbol is a terminal."""
    res, todo = [], list(configs)
    while todo:
        stack, used = todo.pop()
        sym, rest = stack
        alts = G.get(sym)
        if alts is None:
            res.append((stack, used))
            continue
        for k, (syms, _) in enumerate(alts):
            s = rest
            for x in reversed(syms):
                s = (x, s)
            todo.append((s, ((sym, k), used)))
    return res


def step(closed, tok):
    return closure([(stack[1], used) for stack, used in closed
                    if stack[0] == tok and stack[1] is not None])


def expected(closed):
    return {stack[0] for stack, _ in closed}


def accept(closed, values):
    """The trees of the tokens read, followed by the end of the program."""
    res = []
    for stack, used in closed:
        if stack[0] != "END":
            continue
        prods = []
        while used:
            prods.append(used[0])
            used = used[1]
        prods.reverse()
        pi, vi = iter(prods), iter(list(values) + [None])

        def build(sym):
            if sym not in G:
                return next(vi)
            nt, k = next(pi)
            assert nt == sym
            syms, act = G[nt][k]
            return act(*[build(s) for s in syms])
        res.append(build("<module>"))
    return res
