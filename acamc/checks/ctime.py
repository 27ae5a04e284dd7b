"""C07: what is computed at compile time (constant folding, const functions)
is what the same program means at run time - or is refused."""
import itertools

from .. import callshape, cases, gen, lang, prog
from ..lang import pb, pe
from ..prog import I, V
from . import assign, boolexpr, control, funcs
from .control import names

ME = __name__
X, Y, N, P, Q = (V(n) for n in "xynpq")
LITS = [I(n) for n in (0, 1, -1, 2, 7, -3, 46341, 2 ** 31 - 1, -2 ** 31)]
CT_ERR = "error:INT_OVERFLOW|CONST_ARITHMETIC"


# -- A: expressions made of literals ----------------------------------------

def fold_case(e, kind, n=0):
    it = lang.Interp(ct=True)
    src = pe(e, True)
    try:
        v = it.ev(e, lang.Env())
        want, exp = "ok", [{"r": int(v)}]
    except lang.CTError:
        want, exp = CT_ERR, []
    as_int = "int(%s)" % src if kind in ("bool",) else src
    body = ['scb("r", "io") = ' + as_int]
    return {"key": src, "defs": "", "body": body, "inputs": [{}],
            "expect": exp, "want": want}


def fold_batch(chunk, st):
    cases.run_batch([fold_case(e, k) for e, k in chunk], st)


def fold_items(chk):
    for n in (0, 1):
        for e in gen.int_trees(n, LITS, unary=("neg", "pos")):
            yield e, "int"
    small = [I(n) for n in (3, -7, 2 ** 30, 0)]
    for e in gen.int_trees(2, LITS if chk.thorough else small):
        yield e, "int"
    if chk.thorough:
        for e in gen.int_trees(3, [I(3), I(-7)]):
            yield e, "int"
    ints = [I(n) for n in (-1, 0, 2, 2 ** 31 - 1, -2 ** 31)]
    for a, op, b in itertools.product(ints, boolexpr.CMPOPS, ints):
        yield ("cmp", a, op, b), "bool"
    for a, o1, b, o2, c in itertools.product(ints[:3], boolexpr.CMPOPS,
                                             ints[:3], boolexpr.CMPOPS,
                                             ints[:3]):
        yield ("cmp", a, o1, b, o2, c), "bool"
    T, F = ("b", True), ("b", False)
    atoms = [T, F, ("not", T), ("cmp", I(1), "<", I(2)), ("cmp", T, "==", F),
             ("cmp", T, "!=", F)]
    for k in ("and", "or"):
        for a, b in itertools.product(atoms, repeat=2):
            yield (k, [a, b]), "bool"
            yield ("not", (k, [a, b])), "bool"
            for j, c in itertools.product(("and", "or"), atoms):
                yield (j, [(k, [a, b]), c]), "bool"
                yield ("cmp", (k, [a, b]), "==", c), "bool"
                yield ("cmp", c, "!=", (j, [a, b])), "bool"


# -- B: programs inside a const function -------------------------------------

def const_of(f):
    _, name, kind, params, rtype, body = f
    return ("func", name, "const", [(n, "", t, d) for n, _, t, d in params],
            rtype, body)


HELPERS = [const_of(f) for f in funcs.FUNCS if "g§" not in names(f)
           and f[1] not in ("nest§",)]
HELPERS += [const_of(f) for f in control.FUNCS if "g§" not in names(f)
            and f[1] not in {h[1] for h in HELPERS}]
HELPERS += [
    ("func", "clob§", "const", [("k", "", "int", None)], "int",
     [("aug", "+", V("k"), I(5)), ("aug", "*", V("k"), I(2)),
      ("result", ("+", V("k"), I(1)))]),
    ("func", "late§", "const", [("k", "", "int", None)], "int",
     [("let", "t", V("k")), ("result", V("t")), ("set", V("t"), I(99)),
      ("set", V("k"), I(98))]),
    ("func", "latep§", "const", [("k", "", "int", None)], "int",
     [("result", V("k")), ("set", V("k"), I(98))]),
    ("func", "ident§", "const", [("k", "", "int", None)], "int",
     [("result", V("k"))]),
    ("func", "lp§", "const", [("k", "", "int", None)], "int",
     [("let", "s", I(0)),
      ("while", ("cmp", V("k"), ">", I(0)),
       [("let", "d", ("*", V("k"), I(2))), ("aug", "+", V("s"), V("d")),
        ("aug", "-", V("k"), I(1))]),
      ("result", V("s"))]),
]
HN = {h[1]: h for h in HELPERS}
OUTV = ("list", [X, Y, N, V("z"), ("toint", P), ("toint", Q)])
KEYS = ["x", "y", "n", "z", "p", "q"]
INPUTS = [(a, b, p, q) for a, b in ((0, 3), (3, 0), (2, 2), (-7, 2))
          for p, q in ((False, True), (True, False))]
INPUTS2 = [(7, 3, True, True), (-7, 2, False, True), (2 ** 31 - 1, 6, True,
                                                     False)]


def lit(v):
    return ("b", v) if isinstance(v, bool) else I(v)


def prog_case(body, inputs, i):
    pre = [("let", "x", V("a")), ("let", "y", V("b")), ("let", "n", I(0)),
           ("let", "z", I(9)),
           ("let", "u", ("b", False)), ("let", "k", I(0))]
    full = pre + body + [("result", OUTV)]
    main = ("func", "main§", "const",
            [("a", "", "int", None), ("b", "", "int", None),
             ("p", "", "bool", None), ("q", "", "bool", None)], "list", full)
    used, todo = set(), list(names(body))
    while todo:
        n = todo.pop()
        if n in HN and n not in used:
            used.add(n)
            todo += names(HN[n])
    mod = [h for h in HELPERS if h[1] in used] + [main]
    exp, lines, bad = {}, [], []
    for j, inp in enumerate(inputs):
        call = ("call", "main§", [lit(v) for v in inp])
        it = lang.Interp(ct=True)
        g = lang.Env()
        it.block(mod, g)
        try:
            r = it.ev(call, g)
        except lang.Skip:
            continue
        except lang.CTError:
            bad.append(call)
            continue
        lines.append("const r%d = %s" % (j, pe(call)))
        for k, (name, v) in enumerate(zip(KEYS, r)):
            lines.append('scb("%s%d", "io") = r%d[%d]' % (name, j, j, k))
            exp[name + str(j)] = int(v)
    key = "\n".join(pb(body, 0))
    sub = lambda s: s.replace("§", str(i))  # noqa: E731
    defs = sub("\n".join(pb(mod, 0)))
    if exp:
        yield {"key": key, "defs": defs, "body": [sub(x) for x in lines],
               "inputs": [{}], "expect": [exp]}
    for call in bad[:1]:
        yield {"key": key + " / " + pe(call), "defs": defs,
               "body": [sub("const r = " + pe(call))], "inputs": [{}],
               "expect": [], "want": CT_ERR}


def prog_batch(chunk, st):
    cs = []
    for i, (body, inputs) in enumerate(chunk):
        cs.extend(prog_case(body, inputs, i))
    cases.run_batch(cs, st)


BANNED = {"swap", "scb", "g§", "bump§", "dec§", "h§", "ipos§"}


def usable(body):
    return not (BANNED & names(body)) and not any(
        n.endswith("§") and n not in HN for n in names(body))


CALLS = [c for c in funcs.INT_CALLS if usable(("expr", c))] + [
    funcs.call("clob§", X), funcs.call("late§", X), funcs.call("latep§", Y),
    funcs.call("ident§", X), funcs.call("lp§", I(3)), funcs.call("lp§", X),
    funcs.call("clob§", funcs.call("ident§", X)),
    funcs.call("sub§", funcs.call("clob§", X), X),
]


def prog_items(chk):
    for body in control.if_programs():
        if usable(body):
            yield body, INPUTS
    for body in control.while_programs():
        if usable(body):
            yield body, INPUTS
    for body in assign.items(chk):
        if usable(body):
            yield body, INPUTS2
    for c in CALLS:
        yield [("set", X, c)], INPUTS2
        yield [("let", "w", c), ("aug", "-", V("z"), V("w"))], INPUTS2
        yield [("ref", "r", X), ("set", V("z"), c), ("aug", "+", V("r"), I(1)),
               ("aug", "-", Y, c)], INPUTS2
        yield [("set", V("z"), c), ("aug", "+", V("z"), I(1))], INPUTS2
        yield [("let", "i", I(0)), ("while", ("cmp", V("i"), "<", I(3)),
               [("let", "w", c), ("set", N, ("-", V("w"), N)),
                ("aug", "+", V("i"), I(1))])], INPUTS2
        for d in CALLS:
            yield [("set", N, ("-", c, d)), ("set", V("z"), c)], INPUTS2
    # three and more operands
    atoms = [P, Q, ("not", P), ("cmp", X, ">", I(0)), ("b", True)]
    for k in ("and", "or"):
        for bs in itertools.product(atoms, repeat=3):
            yield [("set", P, (k, list(bs)))], INPUTS
        for bs in itertools.product([P, Q, ("cmp", X, ">", Y)], repeat=4):
            yield [("set", Q, (k, list(bs)))], INPUTS
    cmps = boolexpr.CMPOPS
    for o1, o2 in itertools.product(cmps, repeat=2):
        yield [("set", P, ("cmp", X, o1, Y, o2, I(2)))], INPUTS2
        yield [("set", Q, ("cmp", X, o1, I(2), o2, Y, "<", I(5)))], INPUTS2
    # compile-time for loops
    lst = [I(3), I(-1), I(4)]
    bodies = [[("aug", "+", X, V("e"))], [("set", N, ("-", V("e"), N))],
              [("let", "w", ("*", V("e"), I(2))), ("aug", "-", Y, V("w"))],
              [("if", [(("cmp", V("e"), ">", I(0)), [("aug", "+", N, V("e"))])],
                [("aug", "*", N, I(10))])],
              [("for", "f", [I(1), X], [("set", X, ("-", V("f"), ("+", X, V("e"))))])]]
    for n in (1, 2):
        for bs in itertools.product(bodies, repeat=n):
            if n == 2 and bs[0] is bs[1] is bodies[2]:
                continue
            yield [("for", "e", lst, sum(bs, []))], INPUTS2
            yield [("for", "e", [X, Y], sum(bs, []))], INPUTS2


# -- C: floats, strings and formatted strings ---------------------------------

FL = [0.0, 1.5, -2.25, 3.0, 0.1, 1e10]
IN = [0, 2, -3]


def text_cases(chk):
    """Values seen through a command: expected text is exact."""
    def num(v):
        return ("(%r)" if v < 0 else "%r") % v
    py = {"+": lambda a, b: a + b, "-": lambda a, b: a - b,
          "*": lambda a, b: a * b, "/": lambda a, b: a / b,
          "%": lambda a, b: a % b}
    for a, b in itertools.product(FL + IN, repeat=2):
        if isinstance(a, int) and isinstance(b, int):
            continue
        for op in "+-*/%":
            src = "%s %s %s" % (num(a), op, num(b))
            try:
                yield src, str(py[op](float(a), float(b)))
            except ZeroDivisionError:
                yield src, None
            for c in (2, 0.5):
                src2 = "(%s) - %r" % (src, c)
                try:
                    yield src2, str(py[op](float(a), float(b)) - c)
                except ZeroDivisionError:
                    yield src2, None
    for a in FL:
        yield "-%s" % num(a), str(-a)
        yield "+%s" % num(a), str(a)
    for a in IN:
        yield "float(%s)" % num(a), str(float(a))
        yield "%s" % num(a), str(a)
        yield "-%s" % num(a), str(-a)
    S = ["", "a", "b c", "x'y"]
    for a, b in itertools.product(S, repeat=2):
        yield '"%s" + "%s"' % (a, b), a + b
        yield '"%s" + ("%s" + "%s")' % (a, b, a), a + b + a
        yield '"%s${%s}-${"%s"}"' % (a, "1 + 2", b), a + "3-" + b
    for b in (True, False):
        yield "%s" % b, "true" if b else "false"


def text_batch(chunk, st):
    """One program per batch; compare the emitted command text."""
    from .. import core
    for mode in ("direct", "const", "func"):
        lines = []
        good = []
        for i, (src, exp) in enumerate(chunk):
            if exp is None:
                continue
            good.append((i, src, exp))
            if mode == "direct":
                lines.append("/say [%d ${%s}]" % (i, src))
            elif mode == "const":
                lines.append("const c%d = %s" % (i, src))
                lines.append("/say [%d ${c%d}]" % (i, i))
            else:
                lines.append("const def f%d() -> Any:" % i)
                lines.append("    result " + src)
                lines.append("/say [%d ${f%d()}]" % (i, i))
        text = "\n".join(lines) + "\n"
        out = core.compile_files({"main.aca": text}, cfg={"optimizer": False})
        st.programs += len(good)
        got = {}
        if out.ok:
            for f in out.files.values():
                for ln in f.splitlines():
                    if ln.startswith("say ["):
                        n, _, v = ln[5:-1].partition(" ")
                        got[int(n)] = v
        for i, src, exp in good:
            st.states += 1
            st.transitions += 1
            st.outcome((src, got.get(i)))
            if got.get(i) != exp:
                one = [(src, exp)]
                st.violations.append(core.Violation(
                    key="text:%s:%s" % (mode, src), kind="ctime",
                    what="%s context: `%s` must be %r, got %r %s" % (
                        mode, src, exp, got.get(i),
                        "" if out.ok else out.error or out.crash),
                    chunk=one if out.ok else chunk))
                if not out.ok:
                    break
        for src, exp in chunk:
            if exp is None:
                one = core.compile_files(
                    {"main.aca": "/say ${%s}\n" % src})
                st.programs += 1
                st.states += 1
                if one.etype != "CONST_ARITHMETIC":
                    st.violations.append(core.Violation(
                        key="text:err:" + src, kind="ctime",
                        what="`%s` must be refused: %s" % (
                            src, one.error or one.crash or "accepted"),
                        chunk=[(src, exp)]))


def replay(v):
    from .. import core
    st = core.Stats()
    text_batch([tuple(x) for x in v["chunk"]], st)
    for x in st.violations:
        print(x["what"])
    return 1 if st.violations else 0


def check(chk):
    chk.bounds = {"literal operators": 3 if chk.thorough else 2,
                  "const programs": "the bodies of C03 and C04"}
    chk.map(ME, "fold_batch", fold_items(chk), 150)
    chk.map(ME, "prog_batch", prog_items(chk), 60)
    chk.map(ME, "text_batch", text_cases(chk), 60)
    chk.map(callshape.__name__, "batch", callshape.items(
        "C07", chk.thorough), 40)
