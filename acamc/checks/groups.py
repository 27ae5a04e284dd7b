"""C14: entity groups are sets of entities."""
import itertools

from .. import cases, core, ents, groups, lang, mc
from ..lang import pb
from ..prog import I, V
from .entities import OUT, SELF, at

ME = __name__
GZ, GB = "Engroup[Z§]", "Engroup[B§]"
WORLD = [["player", {"name": "Steve", "pos": [5, 64, 5], "tags": ["t1"]}],
         ["pig", {"name": "pg", "pos": [1, 2, 3], "tags": ["t1"]}]]


def extra():
    res = []
    for i, (t, k) in enumerate(WORLD):
        e = ents.Ent(1000 + i)
        e.type, e.name = t, k["name"]
        e.tags = k["tags"]
        res.append(e)
    return res


def gc(g, m, *args):
    return ("gcall", g, m, list(args))


X = at(SELF, "x")
MODULE = [
    ("entity", "R§", [], [("x", "int")], [
        ("virtual", ("func", "inc", "", [("k", "", "int", None)], "int", [
            ("aug", "+", X, V("k")), ("result", X)])),
        ("", ("func", "poke", "inline", [], None, [
            ("aug", "+", X, I(1000))]))],
     ("", [("a", "", "int", None)], [
         ("newstmt", None, ("armor_stand", (1.5, 2.0, 3.5), "zz")),
         ("set", X, V("a"))])),
    ("entity", "Z§", ["R§"], [], [], None),
    ("entity", "B§", ["Z§"], [("y", "int")], [
        ("override", ("func", "inc", "", [("k", "", "int", None)], "int", [
            ("aug", "-", X, V("k")), ("result", ("*", X, I(2)))]))],
     ("", [("a", "", "int", None)], [
         ("newstmt", None, ("husk", (1.5, 2.0, 3.5), "bb")),
         ("set", X, V("a")), ("set", at(SELF, "y"), I(5))])),
    ("func", "cnt§", "", [("g", "", GZ, None), ("e", "", "Z§", None)], "int",
     [("expr", gc(V("g"), "add", V("e"))), ("result", gc(V("g"), "size"))]),
    ("func", "mk§", "", [("g", "", GZ, None)], GZ, [
        ("let", "h", ("gnew", "Z§")), ("expr", gc(V("h"), "extend", V("g"))),
        ("gfor", "q", V("g"), [
            ("if", [(("cmp", at(V("q"), "x"), ">", I(2)),
                     [("expr", gc(V("h"), "remove", V("q")))])], None)]),
        ("result", V("h"))]),
    ("func", "clr§", "inline", [("g", "&", GZ, None), ("h", "", GZ, None)],
     None, [("expr", gc(V("g"), "clear")),
            ("expr", gc(V("h"), "clear"))]),
]
g1, g2, h = V("g1"), V("g2"), V("h")
z, b, e = V("z1"), V("b1"), V("e")
BITS = (V("z1"), V("b1"), V("b2"))
INIT = [
    ("let", "z1", ("new", "Z§", [I(1)])),
    ("let", "b1", ("new", "B§", [I(2)])),
    ("let", "b2", ("new", "B§", [I(3)])),
    ("let", "g1", ("gnew", "Z§")), ("let", "g2", ("gnew", "Z§")),
    ("let", "h", ("gnew", "B§")),
    ("expr", gc(h, "add", b)),
    ("def", "e", "Z§", z), ("let", "n", I(10)),
] + [
    ("if", [(("cmp", ("%", ("/", V(v), I(1 << k)), I(2)), "==", I(1)),
             [("expr", gc(V(g), "add", x))])], None)
    for v, g in (("a", "g1"), ("b", "g2")) for k, x in enumerate(BITS)
] + [
    ("if", [(("cmp", ("%", ("+", V("a"), V("b")), I(3)), "==", I(k)),
             [("set", e, x)])], None) for k, x in enumerate(BITS)]
N = V("n")


def flt(src, pred):
    groups.FILTERS[src] = pred
    return ("flt", src)


FLT = [
    flt('Enfilter().is_type("husk")', lambda x: x.type == "husk"),
    flt('Enfilter().is_name("zz")', lambda x: x.name == "zz"),
    flt('Enfilter().has_tag("t1")', lambda x: "t1" in getattr(
        x, "tags", ())),
    flt('Enfilter().is_not_type("husk", "pig").has_no_tag("t1")',
        lambda x: x.type not in ("husk", "pig") and "t1" not in getattr(
            x, "tags", ())),
    flt('Enfilter().is_type("husk").is_type("pig")', lambda x: False),
]
f = V("q")
OPS = (
    [("expr", gc(x, m, y)) for x in (g1, g2) for y in (g1, g2, h)
     for m in ("extend", "subtract", "intersect")]
    + [("expr", gc(x, m, y)) for x in (g1, g2) for y in (e, z, b)
       for m in ("add", "remove")]
    + [("expr", gc(g1, m, e, b)) for m in ("add", "remove")]
    + [("expr", gc(h, m, V("b2"))) for m in ("add", "remove")]
    + [("aug", op, x, y) for op in "+-" for x, y in ((g1, g2), (g1, g1),
                                                     (g2, h))]
    + [("expr", gc(x, "clear")) for x in (g1, h)]
    + [("expr", gc(g1, m, fl)) for m in ("select", "drop", "filter")
       for fl in FLT]
    + [("set", g1, x) for x in (
        g2, h, ("gnew", "Z§"), gc(g2, "copy"), gc(gc(g1, "copy"), "extend",
                                                  g2),
        gc(gc(g2, "copy"), "subtract", g1), gc(g1, "extend", g2),
        gc(gc(g1, "clear"), "add", e), ("call", "mk§", [g1]),
        ("call", "mk§", [g2]), ("call", "mk§", [h]), gc(h, "copy"))]
    + [("swap", g1, g2), ("swap", g1, g1),
       ("expr", gc(gc(g2, "add", e), "remove", z)),
       ("expr", gc(g1, "extend", gc(g2, "remove", b))),
       ("expr", gc(g1, "intersect", gc(gc(g2, "copy"), "add", z))),
       ("expr", ("call", "clr§", [g1, g2])),
       ("set", N, ("call", "cnt§", [g1, e])),
       ("set", N, ("-", ("call", "cnt§", [g1, e]),
                   ("call", "cnt§", [g2, z]))),
       ("set", N, gc(g1, "size")), ("set", N, ("-", N, gc(g1, "size"))),
       ("set", N, ("-", gc(g1, "size"), ("*", gc(g2, "size"), N))),
       ("set", N, ("-", I(5), gc(gc(g1, "copy"), "size"))),
       ("aug", "*", N, gc(g2, "size")),
       ("set", at(e, "x"), gc(g1, "size")),
       ("set", at(e, "x"), ("-", at(e, "x"), gc(g1, "size"))),
       ("set", N, ("toint", gc(g1, "is_empty"))),
       ("set", N, ("toint", ("not", gc(g1, "has", e)))),
       ("set", N, ("toint", ("and", [("not", gc(g1, "is_empty")),
                                     gc(g2, "has", e)]))),
       ("set", N, ("toint", ("cmp", gc(g1, "size"), "==",
                             gc(g2, "size")))),
       ("set", N, ("toint", ("cmp", gc(g1, "has", z), "==",
                             gc(g2, "has", z)))),
       ("if", [(gc(g1, "has", e), [("expr", gc(g1, "remove", e)),
                                   ("aug", "+", N, I(1))])],
        [("expr", gc(g1, "add", e))]),
       ("if", [(gc(g1, "is_empty"), [("expr", gc(g1, "add", z)),
                                     ("expr", gc(g1, "add", b))])],
        [("expr", gc(g1, "clear")), ("aug", "-", N, I(1))]),
       ("while", ("not", gc(g1, "is_empty")),
        [("aug", "+", N, gc(g1, "size")),
         ("if", [(gc(g1, "has", z), [("expr", gc(g1, "remove", z))])],
          [("expr", gc(g1, "clear"))])])]
    + [("gfor", "q", x, body) for x in (g1, h, gc(g2, "copy")) for body in (
        [("aug", "+", at(f, "x"), I(10))],
        [("aug", "+", N, at(f, "x"))],
        [("expr", ("mcall", f, "inc", [I(5)]))],
        [("aug", "+", N, ("mcall", f, "inc", [at(f, "x")]))],
        [("expr", gc(g2, "remove", f))],
        [("expr", gc(g1, "remove", f)), ("aug", "+", at(f, "x"),
                                         gc(g1, "size")),
         ("aug", "-", at(f, "x"), gc(g1, "size"))],
        [("expr", gc(g2, "add", f)), ("expr", ("mcall", f, "poke", []))],
        [("if", [(gc(g2, "has", f), [("aug", "+", N, I(1))])],
          [("expr", gc(g2, "add", f)), ("aug", "+", N, I(100))])],
        [("gfor", "p", g2, [("aug", "+", N, ("*", at(f, "x"),
                                              at(V("p"), "x")))])],
        [("if", [(("cmp", at(f, "x"), "==", I(2)), [("set", e, f)])],
          None)],
        [("let", "loc", ("*", at(f, "x"), I(3))),
         ("aug", "+", N, V("loc"))],
    )]
    + [("set", e, gc(g1, "to_single")),
       ("set", at(gc(g1, "to_single"), "x"), I(42)),
       ("set", N, at(gc(g2, "to_single"), "x")),
       ("expr", gc(g2, "add", gc(g1, "to_single"))),
       ("expr", gc(g1, "remove", gc(g1, "to_single"))),
       ("set", N, ("toint", gc(g2, "has", gc(g1, "to_single")))),
       ("set", N, ("mcall", gc(g1, "to_single"), "inc", [I(3)])),
       ("set", e, gc(gc(g1, "intersect", g2), "to_single"))]
)
x1, rs = V("x1"), V("rs")
EXT = [
    [("let", "x1", ("gnew", None)), ("expr", gc(x1, "select", fl))] + ops
    for fl in (FLT[2], flt('Enfilter().is_type("pig")',
                           lambda v: v.type == "pig"))
    for ops in (
        [("set", N, gc(x1, "size"))],
        [("let", "rs", gc(x1, "resolve", "B§")),
         ("set", N, gc(rs, "size"))],
        [("let", "rs", gc(x1, "resolve", "B§")),
         ("gfor", "q", rs, [("set", at(f, "x"), I(6)),
                            ("aug", "+", N, ("mcall", f, "inc", [I(1)]))])],
        [("set", g1, gc(x1, "resolve", "Z§")),
         ("gfor", "q", g1, [("set", at(f, "x"), I(7)),
                            ("aug", "+", N, ("mcall", f, "inc", [I(1)]))]),
         ("expr", gc(x1, "clear"))],
        [("gfor", "q", x1, [("aug", "+", N, I(1)),
                            ("expr", gc(x1, "remove", f)),
                            ("aug", "+", N, ("*", gc(x1, "size"), I(10)))]),
         ("if", [(gc(x1, "is_empty"), [("aug", "+", N, I(100))])], None)],
        [("let", "x2", gc(x1, "copy")), ("expr", gc(x1, "drop", FLT[4])),
         ("expr", gc(x1, "clear")), ("set", N, gc(V("x2"), "size"))],
    )]
INPUTS = [{"a": i, "b": j} for i in range(8) for j in range(8)]


def make(body, n):
    outs = [OUT("n", N)]
    for gn in ("g1", "g2", "h"):
        outs.append(OUT(gn, gc(V(gn), "size")))
        outs.append(OUT(gn + "e", ("toint", gc(V(gn), "is_empty"))))
        for x in BITS if gn != "h" else BITS[1:]:
            outs.append(OUT(gn + x[1], ("toint", gc(V(gn), "has", x))))
    for x in ("z1", "b1", "b2", "e"):
        outs.append(OUT("x" + x, at(V(x), "x")))
    full = INIT + body + outs
    exp = []
    for i in INPUTS:
        try:
            exp.append(groups.evaluate(MODULE, full, i, extra())[0])
        except lang.Skip:
            exp.append(None)
    if not any(exp):
        return None
    sub = lambda s: s.replace("§", str(n))  # noqa: E731
    return {"key": "\n".join(pb(body, 0)),
            "defs": "\n".join(sub(x) for x in pb(MODULE, 0)),
            "body": ['a := scb("a", "io")', 'b := scb("b", "io")']
            + [sub(x) for x in pb(full, 0)],
            "inputs": INPUTS, "expect": exp, "world": WORLD, "fresh": True}


def batch(chunk, st):
    cs = [make(x, i) for i, x in enumerate(chunk)]
    st.count("skipped", sum(x is None for x in cs))
    cases.run_batch([x for x in cs if x], st)


def items(chk):
    for x in OPS:
        yield [x]
    for x in EXT:
        yield x
    p, q = (OPS, OPS) if chk.thorough else (OPS[::3], OPS[1::3])
    for x, y in itertools.product(p, q):
        yield [x, y]


# Histories: every state reachable by any sequence of executions of one
# program's interfaces and of changes of the world between them.

F1, FN = 'Enfilter().has_tag("t1")', 'Enfilter().has_no_tag("t1")'
HDEF = """
g := Engroup[Entity]()
k := Engroup[Entity]()
const f1 = Enfilter().has_tag("t1")
def keep(x: Engroup[Entity]) -> Engroup[Entity]:
    x.filter(f1)
    result x
def lose(x: Engroup[Entity]) -> Engroup[Entity]:
    new_x := x.copy()
    new_x.drop(f1)
    result new_x
inline def both(&x: Engroup[Entity], y: Engroup[Entity]):
    y.filter(f1)
    x.extend(y)
inline def ext() -> Engroup[Entity]:
    t := Engroup[Entity]()
    t.select(f1)
    result t
"""
# name: (body, function of (tagged, all, g, k) -> (g, k[, n]))
HOPS = {
    "sel": ("g.select(f1)", lambda t, a, g, k: (g | t, k)),
    "seln": ("k.select(%s)" % FN, lambda t, a, g, k: (g, k | a - t)),
    "flt": ("g.filter(f1)", lambda t, a, g, k: (g & t, k)),
    "fltn": ("k.filter(%s)" % FN, lambda t, a, g, k: (g, k - t)),
    "flt2": ("g.filter(f1).filter(f1)\nk.filter(f1)",
             lambda t, a, g, k: (g & t, k & t)),
    "drop": ("g.drop(f1)", lambda t, a, g, k: (g - t, k)),
    "keep": ("g = keep(k)", lambda t, a, g, k: (k & t, k)),
    "keep2": ("k = keep(g)\ng = keep(k)",
              lambda t, a, g, k: (g & t, g & t)),
    "lose": ("g = lose(k)", lambda t, a, g, k: (k - t, k)),
    "both": ("both(g, k)", lambda t, a, g, k: (g | k & t, k)),
    "ext": ("k = ext()", lambda t, a, g, k: (g, t)),
    "lim": ("g.filter(Enfilter().nearest_from(Pos(0.0, 0.0, 0.0)))",
            lambda t, a, g, k: (frozenset(sorted(g)[:1]), k)),
    "lim2": ("g.filter(f1.nearest_from(Pos(0.0, 0.0, 0.0)))\n"
             "k.drop(f1.farthest_from(Pos(0.0, 0.0, 0.0)))",
             lambda t, a, g, k: (frozenset(sorted(g & t)[:1]),
                                 k - frozenset(sorted(k & t)[-1:]))),
    "lim3": ("k.filter(Enfilter().nearest_from(Pos(0.0, 0.0, 0.0), 2)"
             ".has_tag(\"t1\"))",
             lambda t, a, g, k: (g, frozenset(sorted(k)[:2]) & t)),
    "swap": ("swap(g, k)", lambda t, a, g, k: (k, g)),
    "copy": ("g = k.copy()", lambda t, a, g, k: (k, k)),
    "cap": ("g.intersect(k)", lambda t, a, g, k: (g & k, k)),
    "for": ("for x in g:\n    if world.is_entity(x, f1):\n"
            "        k.remove(x)\n    else:\n        k.add(x)",
            lambda t, a, g, k: (g, (k - (g & t)) | (g - t))),
    "new": ("h := Engroup[Entity]()\nh.select(f1)\nh.subtract(k)\n"
            "g.extend(h)", lambda t, a, g, k: (g | t - k, k)),
    "is": ("x: Engroup[Entity]\nfor y in k:\n    x.add(y)\n    g = x",
           None),
}
del HOPS["is"]
HOBS = ('for x in g:\n    /tag ${x} add og\nfor x in k:\n'
        '    /tag ${x} add ok\nscb("n", "io") = g.size() * 10 + k.size()')


def hist_source(names):
    src = "import world\n" + HDEF
    for n, body in [(n, HOPS[n][0]) for n in names] + [("obs", HOBS)]:
        src += "interface h/%s:\n" % n + "".join(
            "    %s\n" % x for x in body.split("\n"))
    return src


def hist_run(names, cfg, st, limit, trace=None):
    """-> None or (what, trace, files)"""
    out = core.compile_files({"main.aca": hist_source(names)}, cfg=cfg)
    st.programs += 1
    if not out.ok:
        return ("does not compile: %s" % (out.error or out.crash), [],
                out.files)
    prog = mc.Program(out.files)
    bad = cases.check_output(prog)
    if bad:
        return bad, [], out.files
    w0 = cases.base_world(prog, cfg)
    ids = [w0.spawn("pig", pos=(float(i), 0.0, 0.0)) for i in range(3)]
    w0.entities[ids[0]].tags.add("t1")
    allents = frozenset(ids)

    def step(w, g, k, op):
        w = w.copy()
        w.ncmds = 0
        if op[0] == "toggle":
            w.entities[op[1]].tags ^= {"t1"}
        elif op[0] == "call":
            t = frozenset(i for i in ids if "t1" in w.entities[i].tags)
            prog.run(w, "h/" + op[1])
            g, k = HOPS[op[1]][1](t, allents, g, k)
        st.transitions += 1
        o = w.copy()
        prog.run(o, "h/obs")
        got = [frozenset(i for i in ids if x in o.entities[i].tags)
               for x in ("og", "ok")]
        if got != [g, k] or o.scores["io"].get("n") != \
                len(g) * 10 + len(k):
            return w, g, k, "groups hold %r, expected %r" % (
                [sorted(x) for x in got], [sorted(g), sorted(k)])
        return w, g, k, None
    e = frozenset()
    if trace is not None:
        w, g, k = w0, e, e
        for op in trace:
            w, g, k, what = step(w, g, k, op)
            if what:
                return what, trace, out.files
        return None
    ops = [("toggle", i) for i in ids] + [("call", n) for n in names]
    seen = {w0.key()}
    todo = [(w0, e, e, ())]
    while todo:
        nxt = []
        for w, g, k, path in todo:
            for op in ops:
                w2, g2, k2, what = step(w, g, k, op)
                if what:
                    return what, path + (op,), out.files
                key = w2.key()
                if key in seen or len(seen) >= limit:
                    continue
                seen.add(key)
                st.states += 1
                nxt.append((w2, g2, k2, path + (op,)))
        todo = nxt
    st.outcome(repr(len(seen)))
    return None


def hist_violation(names, cfg, r):
    what, path, files = r
    return core.Violation({
        "key": "history %s %s" % (" ".join(names), " ".join(
            "%s:%s" % op for op in path)), "kind": "groups",
        "what": what + " after " + " ".join("%s:%s" % op for op in path),
        "names": list(names), "trace": [list(x) for x in path], "cfg": cfg,
        "source": hist_source(names), "output": files})


def hist(chunk, st):
    for names, cfg, limit in chunk:
        r = hist_run(names, cfg, st, limit)
        if r:
            # attribute it to as few operations as possible
            used = [n for n in names if ("call", n) in r[1]] or names
            r2 = hist_run(used, cfg, st, limit)
            st.violations.append(hist_violation(used, cfg, r2) if r2 else
                                 hist_violation(names, cfg, r))


def replay(v):
    if "trace" not in v:
        return cases.replay(v)
    r = hist_run(v["names"], v["cfg"], core.Stats(), 1,
                 [tuple(x) for x in v["trace"]])
    print(r[0] if r else "no violation")
    return 1 if r else 0


def hist_items(chk):
    names = list(HOPS)
    n = 4000 if chk.thorough else 600
    for a, b in itertools.combinations(names, 2):
        if chk.thorough or (names.index(a) + names.index(b)) % 3 == 0:
            yield [a, b], None, n
    yield names, None, n * 4
    yield names, {"optimizer": False}, n


def check(chk):
    chk.map(ME, "hist", hist_items(chk), 4)
    chk.map(ME, "batch", items(chk), 4)
