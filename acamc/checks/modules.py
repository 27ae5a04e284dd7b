"""C16: modules.

Programs of four files (main, a module, a module in a package, a module
written in Python) with every combination of bounded import statements - form,
place, order, repetition - compared with an interpreter in which a module is
one set of names and its body runs when the first import of it since the last
reload is reached."""
import itertools
import json

from .. import cases, core, lang, mc
from ..lang import Cell, Env, Skip, pb, pe
from ..prog import I, OUT, V

ME = __name__


class Module:
    def __init__(self, file, body):
        self.file = file
        self.body = body
        self.env = Env()
        self.loaded = False
        self.hidden = set()

    def names(self):
        return [n for n in self.env.d
                if n not in self.hidden and not n.startswith("_")]

    def member(self, n):
        if "." in n or n not in self.names():
            raise KeyError(n)
        return self.env.d[n]


class MInterp(lang.Interp):
    def __init__(self, files, **k):
        super().__init__(**k)
        self.m = {f: Module(f, b) for f, b in files.items()}
        self.cur = None

    def reload(self):
        for m in self.m.values():
            m.loaded = False
        self.load("main")

    def load(self, name):
        m = self.m[name]
        if not m.loaded:
            m.loaded = True
            for s in m.body:
                self.st(s, m.env)
        return m

    def owner(self, env):
        for m in self.m.values():
            if m.env is env:
                return m

    def bind(self, env, name, v):
        env.d[name] = v
        o = self.owner(env)
        if o:
            o.hidden.add(name)

    def st(self, s, env):
        k = s[0]
        if k == "import":
            m = self.load(s[1])
            self.bind(env, s[3] or s[1].split("/")[-1], m)
        elif k == "from":
            m = self.load(s[1])
            for n, alias in s[3]:
                self.bind(env, alias or n, m.member(n))
        elif k == "star":
            m = self.load(s[1])
            for n in m.names():
                self.bind(env, n, m.member(n))
        elif k == "interface":
            env.d["\0i " + s[1]] = (s[2], env)
        elif k == "let" and isinstance(env.d.get(s[1]), Cell):
            env.d[s[1]].v = self.ev(s[2], env)
        elif k == "pyinit":
            if "v" not in env.d:
                env.d["v"] = Cell()
            env.d["v"].v = 30
            lv = self.lv(LOGV, env)
            lv.v = lang.wrap(lv.v * 5 + 3)
        else:
            super().st(s, env)


def ps_ext(s, ind):
    p = "    " * ind
    if s[0] == "import":
        return [p + "import " + s[2] + (" as " + s[3] if s[3] else "")]
    if s[0] == "from":
        names = ", ".join(n + (" as " + a if a else "") for n, a in s[3])
        if len(s[3]) == 3:
            names = "(" + names + ")"
        return ["%sfrom %s import %s" % (p, s[2], names)]
    if s[0] == "star":
        return ["%sfrom %s import *" % (p, s[2])]
    if s[0] == "interface":
        return ["%sinterface %s:" % (p, s[1])] + pb(s[2], ind + 1)
    return None


lang.EXT_STMT.append(ps_ext)

LOGV = ("scb", "log", "io")


def LOG(k):
    return ("set", LOGV, ("+", ("*", LOGV, I(5)), I(k)))


X = V("x")
A = [
    LOG(1),
    ("let", "x", I(10)), ("let", "_p", I(4)), ("const", "K", I(3)),
    ("ref", "r", X),
    ("func", "f", "", [("k", "", "int", None)], "int",
     [("aug", "+", X, V("k")), ("result", X)]),
    ("func", "g", "inline", [("k", "", "int", None)], "int",
     [("aug", "-", X, V("k")), ("aug", "+", V("_p"), I(1)),
      ("result", ("+", ("*", X, I(2)), V("_p")))]),
    ("func", "_h", "", [], "int", [("result", V("_p"))]),
    ("func", "hh", "", [], "int", [("result", ("call", "_h", []))]),
    ("interface", "am/go", [("aug", "+", X, I(1)), OUT("am", V("r"))]),
]


def imp(t, alias=None, dot=""):
    return ("import", t, dot + t.replace("/", "."), alias)


def frm(t, *names, dot=""):
    return ("from", t, dot + t.replace("/", "."),
            [n if isinstance(n, tuple) else (n, None) for n in names])


def star(t, dot=""):
    return ("star", t, dot + t.replace("/", "."))


ANAMES = ("x", "K", "r", "f", "g", "hh")


def B(variant):
    y, h = V("y"), None
    head, ax, af = [], None, None
    if variant == 1:
        head, ax, af = [imp("a")], "a.x", "a.f"
    elif variant == 2:
        head, ax, af = [frm("a", "x", ("f", "ff"))], "x", "ff"
    elif variant == 3:
        head, ax, af = [star("a", ".")], "x", "f"
    elif variant == 5:
        head, ax, af = [imp("c"), frm("a", ("x", "xx"), "f")], "xx", "f"
    body = [("let", "y", ("+", V(ax), I(1)) if ax else I(20))]
    h = [("result", ("+", y, ("call", af, [I(1)]) if af else I(5)))]
    if variant == 4:
        h = [imp("a", "aa"), LOG(4),
             ("result", ("+", y, ("call", "aa.f", [I(1)])))]
    return head + [LOG(2)] + body + [("func", "h", "", [], "int", h),
                                     ("let", "_q", I(1))]


C_PY = '''
from acaciamc.objects import IntVar, BuiltModule
from acaciamc.mccmdgen.cmds import (
    ScbSetConst, ScbSlot, ScbOperation, ScbOp, ScbAddConst)

def acacia_build(compiler):
    v = IntVar.new(compiler)
    t = IntVar.new(compiler)
    return BuiltModule({"v": v}, [
        ScbSetConst(t.slot, 5),
        ScbOperation(ScbOp.MUL_EQ, ScbSlot("log", "io"), t.slot),
        ScbAddConst(ScbSlot("log", "io"), 3),
        ScbSetConst(v.slot, 30)])
'''

# (statement, names bound, role -> name)
FORMS = [
    (imp("a"), ["a"], {n: "a." + n for n in ANAMES}),
    (imp("a", "q"), ["q"], {n: "q." + n for n in ANAMES}),
    (imp("a", "d", "."), ["d"], {n: "d." + n for n in ANAMES}),
    (frm("a", "x", "f"), ["x", "f"], {"x": "x", "f": "f"}),
    (frm("a", ("x", "z"), ("g", "gg"), "K"), ["z", "gg", "K"],
     {"x": "z", "g": "gg", "K": "K"}),
    (frm("a", "r", dot="..src."), ["r"], {"r": "r"}),
    (star("a"), list(ANAMES), {n: n for n in ANAMES}),
    (imp("p/b"), ["b"], {"y": "b.y", "h": "b.h"}),
    (imp("p/b", "bb", "."), ["bb"], {"y": "bb.y", "h": "bb.h"}),
    (frm("p/b", "y", ("h", "k")), ["y", "k"], {"y": "y", "h": "k"}),
    (star("p/b", "..src."), ["y", "h"], {"y": "y", "h": "h"}),
    (imp("c"), ["c"], {"v": "c.v"}),
    (frm("c", ("v", "w")), ["w"], {"v": "w"}),
]
COND = ("cmp", ("scb", "in", "io"), ">", I(0))


def uses(roles, n):
    u = lambda r: V(roles[r])  # noqa: E731
    o = lambda e, c: OUT("o%d%s" % (n, c), e)  # noqa: E731
    res = []
    if "x" in roles:
        res += [o(u("x"), "x"), ("aug", "+", u("x"), I(7))]
    if "f" in roles:
        res.append(o(("call", roles["f"], [I(2)]), "f"))
    if "g" in roles:
        res.append(o(("call", roles["g"], [I(3)]), "g"))
    if "hh" in roles:
        res.append(o(("call", roles["hh"], []), "hh"))
    if "K" in roles:
        res.append(o(("*", u("K"), I(2)), "K"))
    if "r" in roles:
        res += [("aug", "*", u("r"), I(2)), o(u("r"), "r")]
    if "y" in roles:
        res += [o(u("y"), "y"), ("set", u("y"), I(5))]
    if "h" in roles:
        res.append(o(("call", roles["h"], []), "h"))
    if "v" in roles:
        res += [("aug", "+", u("v"), I(1)), o(u("v"), "v")]
    return res


PLACES = ("top", "if", "func", "inline", "for", "while", "iface")


def place(form, where, n):
    """-> (statements of main, statements of the interface, scope of names)"""
    st, _, roles = form
    u = uses(roles, n)
    f = "fn%d" % n
    if where == "top":
        return [st] + u, u, 0
    if where == "if":
        return [("if", [(COND, [st] + u)], [LOG(0)])], u, 0
    if where in ("func", "inline"):
        return ([("func", f, "" if where == "func" else "inline", [], None,
                  [st] + u),
                 ("if", [(COND, [("expr", ("call", f, []))])], None)],
                [("expr", ("call", f, []))], n + 1)
    if where == "for":
        return [("for", "i", [I(1), I(2)], [st, LOG(3)] + u)], [], n + 1
    if where == "while":
        return [("let", "n%d" % n, I(0)),
                ("while", ("cmp", V("n%d" % n), "<", I(2)),
                 [("aug", "+", V("n%d" % n), I(1)), st, LOG(4)] + u)], u, 0
    if where == "iface":
        return [], [st] + u, 99
    raise AssertionError(where)


def program(acts, bvar):
    """-> (main statements, interface body, error expected or None)"""
    main, body, scopes = [LOG(0)], [], {}
    for n, (form, where) in enumerate(acts):
        m, b, sc = place(form, where, n)
        names = scopes.setdefault(sc, set())
        for x in form[1]:
            if x in names:
                return None, None, "error:SHADOWED_NAME"
            names.add(x)
        main += m
        body += b
    return main, body, None


def files_of(acts, bvar):
    main, body, err = program(acts, bvar)
    if err:
        main, body = [], []
        for n, (form, where) in enumerate(acts):
            m, b, _ = place(form, where, n)
            main += m
            body += b
    src = {"main": main + [("interface", "t/c0", body)], "a": A,
           "p/b": B(bvar), "c": [("pyinit",)]}
    text = {k + ".aca": "\n".join(pb(v, 0)) + "\n"
            for k, v in src.items() if k != "c"}
    text["c.py"] = C_PY
    return src, text, err


def run(it, name):
    m = it.m[name[0]]
    body, env = m.env.d["\0i " + name[1]]
    e = Env(env)
    it.block(body, e)


STEPS = ("main", "t/c0", "am/go", "t/c0", "main", "t/c0")


def expected(src, inp):
    """-> list of observations after each step (None: unspecified)"""
    it = MInterp(src)
    res = []
    io = it.scb
    for k, v in inp.items():
        io[(k, "io")] = Cell(v)
    for s in STEPS:
        try:
            io[("log", "io")] = Cell(0)
            it.fuel = 3000
            if s == "main":
                it.reload()
            elif s == "t/c0":
                run(it, ("main", s))
            elif "\0i am/go" in it.m["a"].env.d:
                run(it, ("a", s))
            else:
                raise Skip
        except (Skip, KeyError):
            return res
        res.append({k[0]: c.v for k, c in io.items()
                    if c.v is not lang.UNSET and c.v is not None})
    return res


def verify(acts, bvar, st):
    src, text, err = files_of(acts, bvar)
    st.programs += 1
    out = core.compile_files(text)
    if err:
        st.states += 1
        st.outcome(err)
        if out.crash:
            return "crash: " + out.crash, text, out
        if out.ok or out.etype != err.split(":")[1] or out.loc[1] is None:
            return "%s, but must be rejected as %s" % (
                out.error if not out.ok else "accepted", err), text, out
        return None
    if not out.ok:
        return "refused: %s" % (out.error or out.crash), text, out
    prog = mc.Program(out.files)
    bad = cases.check_output(prog)
    if bad:
        return bad, text, out
    for inp in ({"in": 0}, {"in": 1}):
        exp = expected(src, inp)
        w = mc.World()
        w.budget = 50000
        w.add_objective("io")
        io = w.scores["io"]
        io.update(inp)
        for n, (s, e) in enumerate(zip(STEPS, exp)):
            io["log"] = 0
            if s in prog.files:
                prog.run(w, s)
            st.states += 1
            st.transitions += w.ncmds
            w.ncmds = 0
            got = dict(io)
            st.outcome(repr(sorted(got.items())))
            if got != e:
                return "input %r, step %d (%s): expected %r got %r" % (
                    inp, n, s, {k: v for k, v in e.items()
                                if got.get(k) != v},
                    {k: v for k, v in got.items() if e.get(k) != v}), \
                    text, out
    return None


def violation(key, what, text, out, **more):
    return core.Violation(dict(
        key=key, kind="modules", what="%s\n%s" % (what, "\n".join(
            "--- %s\n%s" % x for x in text.items())),
        output=out.files, **more))


def batch(chunk, st):
    for acts, bvar in chunk:
        a = [(FORMS[i], w) for i, w in acts]
        r = verify(a, bvar, st)
        if r:
            st.violations.append(violation(
                "%s b%d" % ("; ".join("%s@%s" % (" ".join(pb([FORMS[i][0]],
                                                             0)), w)
                                      for i, w in acts), bvar),
                *r, acts=acts, bvar=bvar))


def items(chk):
    n = range(len(FORMS))
    for i in n:
        for w in PLACES:
            for b in range(6):
                yield [(i, w)], b
    k = 0
    for i, w, j, v in itertools.product(n, PLACES, n, PLACES):
        for b in range(6):
            k += 1
            if FORMS[i][0][1] == "c" and FORMS[j][0][1] == "c" and b:
                continue
            if chk.thorough or k % 6 == 0:
                yield [(i, w), (j, v)], b


# -- names, paths, errors ----------------------------------------------------

AX = "x := 10\n_p := 4\nconst K = 3\nstruct S:\n    u: int\n" \
    "def f(k: int) -> int:\n    x += k\n    result x\n"
E = "scb(\"o\", \"io\") = "
CASES = [
    # (key, files, want: value of o after running main | 'error:TYPE@file')
    ("struct type of a module", {"main": "import a\ns := a.S(u=4)\nt: a.S\n"
     "t = s\n" + E + "t.u", "a": AX}, 4),
    ("struct type imported", {"main": "from a import S as Q\ns: Q\ns.u = 6\n"
     + E + "s.u", "a": AX}, 6),
    ("struct passed across", {"main": "import a\nimport b\ns := a.S(u=4)\n"
     + E + "b.g(s)", "a": AX, "b": "import a\ndef g(s: a.S) -> int:\n"
     "    result s.u * 2"}, 8),
    ("entity across", {"main": "import a\nimport b\nb.mk()\n" + E
     + "b.e.v", "a": "entity T:\n    v: int\n    def up():\n"
     "        self.v += 1",
     "b": "import a\ne: a.T\ndef mk():\n    e = a.T(\"pig\", "
     "Pos(0.0, 0.0, 0.0))\n    e.v = 4\n    e.up()"}, 5),
    ("extend across", {"main": "import a\nentity U extends a.T:\n"
     "    override def up():\n        self.v += 10\n"
     "u := U(\"pig\", Pos(0.0, 0.0, 0.0))\nu.v = 4\nt: a.T = u\n"
     "a.go(t)\n" + E + "u.v", "a": "entity T:\n    v: int\n"
     "    virtual def up():\n        self.v += 1\n"
     "def go(t: T):\n    t.up()"}, 14),
    ("same names do not collide", {"main": "import a\nimport b\nx := 1\n"
     "a.x = 2\nb.x = 3\n" + E + "x + a.x * 10 + b.x * 100",
     "a": "x := 5", "b": "x := 5"}, 321),
    ("same file through two paths", {"main": "import a\nimport .a as b\n"
     "a.x = 5\n" + E + "b.x", "a": AX}, 5),
    ("same file through three paths", {"main": "import a\n"
     "import ...src.a as c\nimport ..src.a as b\nimport .a as d\n"
     "a.x = 5\n" + E + "b.x + d.x", "a": AX}, "error:MODULE_NOT_FOUND@"
     "main:2:1"),
    ("same file through two paths 2", {"main": "import ..src.a as b\n"
     "import p.m\n" + E + "b.x + m.x * 10", "a": "x := 1\n" + "x += 1",
     "p/m": "import a\na.x += 3\nx := a.x"}, 55),
    ("one name imported as two", {"main": "from a import x, x as y\n"
     "y = 4\n" + E + "x * 10 + y", "a": AX}, 44),
    ("constant in a constant", {"main": "import a\nconst L = {a.K, 2}\n" + E
     + "L[0]", "a": AX}, 3),
    ("package in a package", {"main": "import p.q.m\n" + E + "m.x",
     "p/q/m": "x := 9"}, 9),
    ("package next to a module", {"main": "import p\nimport p.m\n" + E
     + "p.x * 10 + m.x", "p": "x := 1", "p/m": "x := 2"}, 12),
    ("relative to the main file", {"main": "import p.m\n" + E + "m.k.x",
     "p/m": "import .k\nx := 1", "k": "x := 7"}, "error:HAS_NO_ATTRIBUTE@"
     "main:2:20"),
    ("relative to the main file 2", {"main": "import p.m\n" + E + "m.y",
     "p/m": "import .k\ny := k.x", "k": "x := 7", "p/k": "x := 8"}, 7),
    ("diamond", {"main": "import b\nimport d\n" + E + "d.y * 100 + b.y",
     "b": "from a import x\nx += 1\ny := x", "d":
     "from a import x\nx *= 2\ny := x", "a": "x := 3"}, 804),
    ("builtin beats user file", {"main": "import math\n" + E
     + "math.min(3, 4)", "math": "x := 1"}, 3),
    ("user file by dot", {"main": "import .math as q\n" + E + "q.x",
     "math": "x := 1"}, 1),
    ("no such module", {"main": "x := 1\nimport zz"},
     "error:MODULE_NOT_FOUND@main:2:1"),
    ("no such module 2", {"main": "import p.zz", "p/m": "x := 1"},
     "error:MODULE_NOT_FOUND@main:1:1"),
    ("a package is no module", {"main": "import p", "p/m": "x := 1"},
     "error:MODULE_NOT_FOUND@main:1:1"),
    ("no such module inside", {"main": "import a", "a": "x := 1\nimport zz"},
     "error:MODULE_NOT_FOUND@a:2:1"),
    ("no such name", {"main": "import a\nfrom a import f, nope",
                      "a": AX}, "error:MODULE_NO_ATTRIBUTE@main:2:1"),
    ("private name", {"main": "from a import _p", "a": AX},
     "error:MODULE_NO_ATTRIBUTE@main:1:1"),
    ("private attribute", {"main": "import a\nx := a._p", "a": AX},
     "error:HAS_NO_ATTRIBUTE@main:2:6"),
    ("private by star", {"main": "from a import *\nx2 := _p", "a": AX},
     "error:NAME_NOT_DEFINED@main:2:7"),
    ("imported names are not exported", {"main": "import b\ny := b.x",
     "b": "from a import x", "a": AX}, "error:HAS_NO_ATTRIBUTE@main:2:6"),
    ("imported aliases are not exported", {
        "main": "from b import z", "b": "from a import x as z", "a": AX},
     "error:MODULE_NO_ATTRIBUTE@main:1:1"),
    ("imported modules are not exported", {
        "main": "from b import a", "b": "import a", "a": AX},
     "error:MODULE_NO_ATTRIBUTE@main:1:1"),
    ("star names are not exported", {
        "main": "import b\ny := b.x", "b": "from a import *", "a": AX},
     "error:HAS_NO_ATTRIBUTE@main:2:6"),
    ("star is not transitive", {
        "main": "from b import *\ny := x", "b": "from a import *", "a": AX},
     "error:NAME_NOT_DEFINED@main:2:6"),
    ("the package is not bound", {"main": "import p.m\nx := p.m.x",
     "p/m": "x := 1"}, "error:NAME_NOT_DEFINED@main:2:6"),
    ("the alias replaces the name", {"main": "import a as b\nx := a.x",
     "a": AX}, "error:NAME_NOT_DEFINED@main:2:6"),
    ("the alias replaces the name 2", {
        "main": "from a import x as y\nz := x", "a": AX},
     "error:NAME_NOT_DEFINED@main:2:6"),
    ("names imported in a function stay there", {
        "main": "def g():\n    import a\nx := a.x", "a": AX},
     "error:NAME_NOT_DEFINED@main:3:6"),
    ("locals of a module function", {"main": "import a\nx := a.q",
     "a": "def f():\n    q := 1"}, "error:HAS_NO_ATTRIBUTE@main:2:6"),
    ("module names are not main names", {"main": "z := 1\nimport a",
     "a": "y := z"}, "error:NAME_NOT_DEFINED@a:1:6"),
    ("circular", {"main": "import a", "a": "import b", "b": "import a"},
     "error:CIRCULAR_PARSE@b:1:1"),
    ("circular through another path", {
        "main": "import a", "a": "import ..src.a as b"},
     "error:CIRCULAR_PARSE@a:1:1"),
    ("circular main through another path", {
        "main": "import a", "a": "import ..src.main as b"},
     "error:CIRCULAR_PARSE@a:1:1"),
    ("circular main", {"main": "import a", "a": "x := 1\nimport main"},
     "error:CIRCULAR_PARSE@a:2:1"),
    ("circular self", {"main": "import main"},
     "error:CIRCULAR_PARSE@main:1:1"),
    ("circular in function", {"main": "import a", "a": "def f():\n"
                              "    import b", "b": "\nimport a"},
     "error:CIRCULAR_PARSE@b:2:1"),
    ("module is no value", {"main": "import a\nb := a", "a": AX},
     "error:UNSUPPORTED_VAR_TYPE@main:2:1"),
    ("module cannot be assigned", {"main": "import a\na = 1", "a": AX},
     "error:INVALID_ASSIGN_TARGET@main:2:1"),
    ("const of a module", {"main": "import a\na.K = 1", "a": AX},
     "error:INVALID_ASSIGN_TARGET@main:2:1"),
    ("syntax error in a module", {"main": "\nimport a", "a": "x := )"},
     "error:UNMATCHED_BRACKET@a:1:6"),
    ("error in a body", {"main": "import a\na.f(True)", "a": AX},
     "error:WRONG_ARG_TYPE@main:2:5"),
]


def deep_cases():
    """The main file lies in a directory of depth n; a module of the same
    name in every directory above and below; `import` with k dots."""
    dirs = ["a", "b", "c", "d", "e"]
    for n in range(len(dirs) + 1):
        base = dirs[:n]
        files = {"/".join(dirs[:i] + ["m"]): "x := %d" % (i + 1)
                 for i in range(len(dirs) + 1)}
        files.update({"/".join(dirs[:i] + ["p", "q"]): "x := %d" % (i + 11)
                      for i in range(len(dirs) + 1)})
        main = "/".join(base + ["main"])
        for k in range(n + 3):
            dots = "." * k
            up = n if k == 0 else n - k + 1
            for mod, add in (("m", 1), ("p.q", 11)):
                if up >= 0:
                    want = up + add
                else:
                    want = "error:MODULE_NOT_FOUND@%s:1:1" % main
                alias = " as z"
                yield ("depth %d, %d dots, %s" % (n, k, mod),
                       dict(files, **{main: "import %s%s%s\n" % (
                           dots, mod, alias) + E + "z.x", "@": main}), want)
                yield ("depth %d, %d dots, %s, from" % (n, k, mod),
                       dict(files, **{main: "from %s%s import x\n" % (
                           dots, mod) + E + "x", "@": main}), want)
                # the same from a module elsewhere: dots are relative to
                # the main file
                if n and k and up >= 0:
                    yield ("depth %d, %d dots, %s, in a module" % (n, k, mod),
                           dict(files, **{
                               main: "import t.s\n" + E + "s.y",
                               "/".join(base + ["t", "s"]):
                               "from %s%s import x\ny := x" % (dots, mod),
                               "@": main}), want)


def cases_batch(chunk, st):
    for key, files, want in chunk:
        text = {k + ".aca": v + "\n" for k, v in files.items() if k != "@"}
        out = core.compile_files(text, files.get("@", "main") + ".aca")
        st.programs += 1
        st.states += 1
        st.outcome(str(want))
        what = None
        if out.crash:
            what = "crash: " + out.crash
        elif isinstance(want, str):
            et, loc = want[6:].split("@")
            f, line, col = loc.split(":")
            if out.ok:
                what = "accepted, but must be rejected as " + want
            elif out.etype != et or out.loc[0] != f + ".aca" \
                    or out.loc[1] is None or out.loc[1][0] != int(line):
                what = "%s at %r, expected %s" % (out.error, out.loc, want)
        elif not out.ok:
            what = "refused: " + out.error
        else:
            prog = mc.Program(out.files)
            what = cases.check_output(prog)
            if not what:
                w = mc.World()
                w.add_objective("io")
                w.spawn("player", name="Steve")
                prog.run(w, "main")
                st.transitions += w.ncmds
                if w.scores["io"].get("o") != want:
                    what = "o is %r, expected %r" % (
                        w.scores["io"].get("o"), want)
        if what:
            st.violations.append(violation(key, what, text, out, case=[
                key, files, want]))


def replay(v):
    st = core.Stats()
    if "case" in v:
        cases_batch([v["case"]], st)
    else:
        batch([([tuple(x) for x in v["acts"]], v["bvar"])], st)
    for x in st.violations:
        print(x["what"])
    if not st.violations:
        print("no violation")
    return 1 if st.violations else 0


def check(chk):
    chk.map(ME, "cases_batch", CASES + list(deep_cases()), 6)
    chk.map(ME, "batch", items(chk), 20)
