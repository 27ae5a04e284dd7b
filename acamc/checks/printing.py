"""C24: what is printed is what was asked for.

Part 1: every format pattern over a small alphabet against a reference parser.
Part 2: every pair of values of all kinds, combined in every way (formats,
sums, nested fonts, separate texts shown together) and shown in every kind of
place; the text shown, with scores read when it is shown, against a reference.
Part 3: every tree of fonts and texts; the style of every character shown.
Part 4: tell, title and title_clear with every option."""
import itertools
import re

from .. import cases, core, mc

ME = __name__

# ---------------------------------------------------------------------------
# Part 1: patterns

PAT_ALPHA = "%0193{}ax "
ARGS = ["7", "s"]
KW = {"a": "A", "x": "12"}
TOKEN = re.compile(r"%%|%\{[^}]*\}|%\{|%[0-9]|%|[^%]+", re.S)


def ref_format(pat):
    """-> text or None (refused)"""
    res = []
    for m in TOKEN.finditer(pat):
        t = m.group()
        if t == "%%":
            res.append("%")
        elif t == "%" or t[0] != "%":
            res.append(t)
        else:
            if t == "%{":
                return None
            name = t[2:-1] if t[1] == "{" else t[1]
            if re.fullmatch("[0-9]+", name):
                if int(name) >= len(ARGS):
                    return None
                res.append(ARGS[int(name)])
            elif name in KW:
                res.append(KW[name])
            else:
                return None
    return "".join(res)


def tell(text, who=()):
    return ["tellraw", list(who), text]


def pattern_case(pat):
    want = ref_format(pat)
    c = {"key": "pattern %r" % pat, "defs": "", "inputs": [{}],
         "body": ['print.tell(print.format("%s", %s, "%s", a="%s", x=%s))' % (
             pat, ARGS[0], ARGS[1], KW["a"], KW["x"])],
         "expect": [{"#log": [tell(want)]}]}
    if want is None:
        c["want"] = "error"
        c["expect"] = [None]
    return c


def pattern_batch(chunk, st):
    todo = []
    for head, n in chunk:
        for w in itertools.product(PAT_ALPHA, repeat=n):
            pat = head + "".join(w)
            todo.append(pattern_case(pat))
    for i in range(0, len(todo), 200):
        cases.run_batch(todo[i:i + 200], st, "import print\n")
        if st.violations:
            return


def pattern_items(top):
    yield "", 0
    for n in range(1, top + 1):
        for h in itertools.product(PAT_ALPHA, repeat=max(0, n - 3)):
            yield "".join(h), min(n, 3)


# ---------------------------------------------------------------------------
# Part 2: values

PRELUDE = """import print
import math
const CS = "cs"
const CI = 4
const CF = print.format("{%0}", 8)
struct St:
    x: int
    y: bool
entity Q:
    hp: int
    ok: bool
    new():
        new("pig", Pos(0.0, 1.0, 0.0))
        self.hp = 9
        self.ok = True
def f(k: int) -> int:
    result k * 10
def fb(k: int) -> bool:
    result k > 2
def fe(k: int) -> int:
    /say e
    result k + 1
inline def g(k: int) -> int:
    k += 5
    result k
inline def gb(&k: int) -> bool:
    result k != 3
const def cf(k: int) -> int:
    result k * k
gl := 21
"""
INPUTS = [{"a": 3, "b": 7, "p": 1}, {"a": -4, "b": -4, "p": 0},
          {"a": 2147483647, "b": -2147483648, "p": 1}]
B = lambda x: str(int(bool(x)))  # noqa: E731
Wr = lambda x: str(mc.wrap(x))  # noqa: E731
# name: (expression, text shown, statements before)
VALUES = {
    "int": ("7", lambda a, b, p: "7"),
    "negative": ("-3", lambda a, b, p: "-3"),
    "min": ("-2147483647 - 1", lambda a, b, p: "-2147483648"),
    "const": ("CI * 2", lambda a, b, p: "8"),
    "var": ("a", lambda a, b, p: str(a)),
    "sum": ("a + 1", lambda a, b, p: Wr(a + 1)),
    "expr": ("a * 2 - b", lambda a, b, p: Wr(Wri(a * 2) - b)),
    "minus": ("-a", lambda a, b, p: Wr(-a)),
    "call": ("f(a)", lambda a, b, p: Wr(a * 10)),
    "call 2": ("f(2) + f(3)", lambda a, b, p: "50"),
    "effect": ("fe(a)", lambda a, b, p: ("say e", Wr(a + 1))),
    "inline": ("g(b)", lambda a, b, p: Wr(b + 5)),
    "inline bool": ("gb(a)", lambda a, b, p: B(a != 3)),
    "const call": ("cf(5)", lambda a, b, p: "25"),
    "True": ("True", lambda a, b, p: "1"),
    "False": ("False", lambda a, b, p: "0"),
    "bool": ("p", lambda a, b, p: B(p)),
    "not": ("not p", lambda a, b, p: B(not p)),
    "compare": ("a > b", lambda a, b, p: B(a > b)),
    "compare 2": ("a == 3", lambda a, b, p: B(a == 3)),
    "and or": ("p and a > b or not p", lambda a, b, p:
               B(p and a > b or not p)),
    "bool call": ("fb(a)", lambda a, b, p: B(a > 2)),
    "not call": ("not fb(a)", lambda a, b, p: B(not a > 2)),
    "score": ('scb("b", "io")', lambda a, b, p: str(b)),
    "global": ("gl", lambda a, b, p: "21"),
    "str": ('"s"', lambda a, b, p: "s"),
    "empty": ('""', lambda a, b, p: ""),
    "percent": ('"%0%%%{a}"', lambda a, b, p: "%0%%%{a}"),
    "quote": ('"\\"\\\\{}"', lambda a, b, p: '"\\{}'),
    "const str": ("CS + \"t\"", lambda a, b, p: "cst"),
    "interpolated": ('"${CS}${CI}"', lambda a, b, p: "cs4"),
    "format": ('print.format("<%0>", a)', lambda a, b, p: "<%d>" % a),
    "format expr": ('print.format("<%0>", a - b)', lambda a, b, p:
                    "<%s>" % Wr(a - b)),
    "format 2": ('print.format("<%0|%x|%{x}>", a + 2, x=b * 2)',
                 lambda a, b, p: "<%s|%%x|%s>" % (Wr(a + 2), Wr(b * 2))),
    "format bool": ('print.format("%0", a >= b)', lambda a, b, p: B(a >= b)),
    "const format": ("CF", lambda a, b, p: "{8}"),
    "translate": ('print.translate("k.l")', lambda a, b, p:
                  "{translate:k.l}"),
    "field": ("s.x", lambda a, b, p: str(b), ["s := St(x=b, y=p)"]),
    "bool field": ("not s.y", lambda a, b, p: B(not p),
                   ["s := St(x=b, y=p)"]),
    "entity field": ("e.hp", lambda a, b, p: "9", ["e := Q()"]),
    "entity field 2": ("e.hp + e.hp * a", lambda a, b, p: Wr(9 + 9 * a),
                       ["e := Q()"]),
    "entity bool": ("e.ok", lambda a, b, p: "1", ["e := Q()"]),
    "minimum": ("math.min(a - 1, b * 2, 9)", lambda a, b, p:
                str(min(Wri(a - 1), Wri(b * 2), 9))),
    "power": ("math.pow(a, 3)", lambda a, b, p: Wr(a ** 3)),
    "modulo": ("math.mod(a, 5)", lambda a, b, p: str(a % 5)),
    "element": ("{7, CI, 3}[1]", lambda a, b, p: "4"),
}
Wri = mc.wrap
# values no text can be made of
BAD = {"entity": ("e", ["e := Q()"]), "struct": ("s", ["s := St(x=1, y=p)"]),
       "group": ("h", ["h := Engroup[Q]()"]), "list": ("{1, 2}", []),
       "function": ("f", []), "type": ("St", []), "module": ("print", [])}

# how two fstrings are shown together: (statements, shown), x and y being
# their values, as texts
COMBINE = {
    "format": (["print.tell(print.format(\"%0,%1\", X, Y))"], ["{x},{y}"]),
    "format reversed": (["print.tell(print.format(\"%1,%0,%1\", X, Y))"],
                        ["{y},{x},{y}"]),
    "by name": (["print.tell(print.format(\"%{u}%{v}\", v=Y, u=X))"],
                ["{x}{y}"]),
    "separate": (["const c = print.format(\"%0\", X)",
                  "const d = print.format(\"%0\", Y)",
                  "print.tell(c)", "print.tell(d)", "print.tell(c)"],
                 ["{x}", "{y}", "{x}"]),
    "sum": (["const c = print.format(\"%0;\", X)",
             "const d = print.format(\"%0.\", Y)",
             "print.tell(c + d)", "print.tell(d + c + d)"],
            ["{x};{y}.", "{y}.{x};{y}."]),
    "sum with str": (["const c = print.format(\"%0\", X)",
                      "print.tell(\"u\" + c + \"v\" + print.format("
                      "\"%0\", Y))"], ["u{x}v{y}"]),
    "nested": (["const c = print.format(\"%0\", X)",
                "const d = print.format(\"(%1|%0)\", c, Y)",
                "print.tell(print.format(\"%0%1\", d, c))"],
               ["({y}|{x}){x}"]),
    "unused": (["const c = print.format(\"no\", X)",
                "print.tell(print.format(\"%{1}\", X, Y))"],
               ["{y}"]),
    "title": (["print.title(print.format(\"%0 %1\", X, Y))"],
              ["#title {x} {y}"]),
    "font": (["const c = print.with_font(print.format(\"%0\", X), \"red\")",
              "print.tell(c + print.format(\"%0\", Y))"],
             ["\xa7c{x}\xa7r{y}"]),
    "between": (["const c = print.format(\"%0 %1\", X, Y)",
                 "z := a * 3 + b * 5",
                 "scb(\"z\", \"io\") = z * z - a * (b + 1)",
                 "print.tell(c)"], ["{x} {y}"]),
    "in const inline": (["pc(print.format(\"%0\", X), "
                         "print.format(\"%0\", Y))"], ["{x}/{y}"]),
    "in a list": (["for t in {print.format(\"%0\", X), "
                   "print.format(\"%0\", Y)}:", "    print.tell(t)"],
                  ["{x}", "{y}"]),
    "in a map": (["const m = {1: print.format(\"%0\", X), "
                  "2: print.format(\"%0\", Y)}",
                  "print.tell(m[2] + m[1])"], ["{y}{x}"]),
    "in a condition": (["const c = print.format(\"%0\", X)",
                        "if p:", "    print.tell(c)", "else:",
                        "    print.tell(print.format(\"%0\", Y))"], None),
    "in a loop": (["i := 0", "const c = print.format(\"%0 %1\", X, Y)",
                   "while i < 2:", "    i += 1",
                   "    print.tell(print.format(\"%0: %1\", i, c))"],
                  ["1: {x} {y}", "2: {x} {y}"]),
}
HELPERS = """inline def pc(const t, const u):
    print.tell(t + "/" + u)
"""


def shown(s):
    if s.startswith("#title "):
        return ["titleraw", None, "title", s[7:]]
    return ["tellraw", None, s]


def value_case(x, y, how):
    vx, vy = VALUES[x], VALUES[y]
    stmts, outs = COMBINE[how]
    pre = []
    for v in (vx, vy):
        for s in v[2] if len(v) > 2 else ():
            if s not in pre:
                pre.append(s)
    body = ['a := scb("a", "io")', 'b := scb("b", "io")',
            'p := scb("p", "io") == 1'] + pre
    body += [re.sub(r"\b[XY]\b", lambda m: {"X": vx, "Y": vy}[m.group()][0],
                    ln) for ln in stmts]
    # functions calls keep their meaning wherever the text is shown, but
    # are made where the expression stands
    expect = []
    for i in INPUTS:
        log = []
        t = []
        for v in (vx, vy):
            r = v[1](i["a"], i["b"], i["p"])
            if isinstance(r, tuple):
                log.append("effect")
                r = r[1]
            t.append(r)
        o = outs
        if how == "in a condition":
            o = ["{x}"] if i["p"] else ["{y}"]
        want = [shown(ln.replace("{x}", "\0").replace("{y}", t[1])
                      .replace("\0", t[0])) for ln in o]
        expect.append({"#shown": want, "#effects": len(log)})
    return {"key": "%s, %s: %s" % (x, y, how), "defs": "", "body": body,
            "inputs": [dict(i) for i in INPUTS], "expect": expect,
            "world": [["player", {"name": "pl"}]], "fresh": True,
            "effects": how}


def bad_case(x, how):
    expr, pre = BAD[x]
    return {"key": "bad %s %s" % (x, how), "defs": "", "inputs": [{}],
            "body": ['p := True'] + pre + [how.replace("X", expr)],
            "expect": [None], "want": "error"}


def run_values(cs, st, cfg):
    """Like cases.run_batch, for observations of its own."""
    src = cases.source(cs, PRELUDE + HELPERS)
    out = core.compile_files({"main.aca": src}, cfg=cfg)
    st.programs += len(cs)
    if not out.ok:
        if len(cs) > 1:
            for c in cs:
                run_values([c], st, cfg)
                if len(st.violations) > 5:
                    return
            return
        bad(cs[0], st, cfg, "valid program refused: %s\n%s" % (
            out.error or out.crash, "\n".join(cs[0]["body"])))
        return
    prog = mc.Program(out.files)
    if prog.malformed:
        bad(cs[0], st, cfg, "malformed %r" % (prog.malformed[0],))
        return
    root, main, init = cases.layout(cfg)
    base = mc.World()
    base.budget = 20000
    base.add_objective("io")
    for p in (init, main):
        if p and p in prog.files:
            prog.run(base, p)
    for i, c in enumerate(cs):
        for inp, exp in zip(c["inputs"], c["expect"]):
            w = base.copy()
            cases.populate(w, c["world"])
            w.scores["io"].update(inp)
            st.states += 1
            prog.run(w, root + "t/c%d" % i)
            st.transitions += w.ncmds
            got = [[e[0], None] + list(e[2:]) for e in w.log
                   if e[0] in ("tellraw", "titleraw")]
            st.outcome(repr(got))
            eff = len([e for e in w.log if e[0] == "raw"])
            # an effect happens once, where the value is given
            if got != exp["#shown"]:
                what = "shown %r, expected %r" % (got, exp["#shown"])
            elif exp["#effects"] and "in a condition" not in c["key"] and \
                    eff < exp["#effects"]:
                what = "a function was not called"
            else:
                what = None
                for f in w.faults:
                    what = f
            if what:
                if len(cs) > 1:
                    n = len(st.violations)
                    run_values([c], st, cfg)
                    if len(st.violations) > n:
                        break
                    what = "only in a larger program: " + what
                bad(c, st, cfg, "%s; input %r\n%s" % (
                    what, inp, "\n".join(c["body"])), cs, i)
                break
        if len(st.violations) > 8:
            return


def bad(c, st, cfg, what, cs=None, i=0):
    d = {"kind": "values", "key": c["key"], "what": what, "cfg": cfg,
         "case": c}
    if cs and len(cs) > 1:
        d["batch"] = cs
    st.violations.append(core.Violation(d))


def value_batch(chunk, st):
    groups = {}
    for x, y, how, cname in chunk:
        groups.setdefault(cname, []).append(value_case(x, y, how))
    for cname, cs in groups.items():
        for i in range(0, len(cs), 40):
            run_values(cs[i:i + 40], st, CFGS[cname])
            if len(st.violations) > 8:
                return


CFGS = {"": {}, "plain": {"optimizer": False},
        "inline": {"max_inline_file_size": 100}}


def value_items(level):
    names = list(VALUES)
    for how in COMBINE:
        for x, y in itertools.product(names, names):
            if not level and how not in ("format", "separate", "sum") and \
                    (names.index(x) + names.index(y)) % 5:
                continue
            if "effect" in (x, y) and how == "in a condition":
                continue
            for cname in CFGS if level else ("",):
                yield x, y, how, cname


def bad_batch(chunk, st):
    cases.run_batch([bad_case(*x) for x in chunk], st, PRELUDE)


def bad_items():
    for x in BAD:
        for how in ('print.tell(X)', 'print.tell(print.format("%0", X))',
                    'print.tell(print.format("%{k}", k=X))',
                    'print.tell(print.format("%1", "a", X) + "b")',
                    'print.tell("a" + X)', 'print.title(X)',
                    'print.tell(print.with_font(X))',
                    'print.tell(print.format("a") + X)'):
            yield x, how


# ---------------------------------------------------------------------------
# Part 3: fonts

STYLES = {
    "green": ('color="green"', ("a", "")),
    "bold": ("bold=True", ("", "l")),
    "none": ("", ("", "")),
    "all": ('"red", bold=True, italic=True, obfuscated=True', ("c", "lok")),
    "italic blue": ('italic=True, color="blue"', ("9", "o")),
    "obfuscated": ('obfuscated=True', ("", "k")),
    "reset": ('"default", False, False, False', ("", "")),
}


def trees(fonts, leaves, styles):
    """All trees with exactly that many font nodes and leaves, leaf kinds
    text and score; nodes: ("t"), ("s"), ("f", style, tree), ("c", [trees])"""
    if fonts == 0 and leaves == 1:
        yield ("t",)
        yield ("s",)
        return
    if fonts:
        for s in styles:
            for t in trees(fonts - 1, leaves, styles):
                yield ("f", s, t)
    # concatenations: two or more parts that are not concatenations
    for parts in partitions(fonts, leaves, styles):
        yield ("c",) + parts


def partitions(fonts, leaves, styles, least=2):
    for f1 in range(fonts + 1):
        for l1 in range(1, leaves + 1):
            if leaves - l1 < (least - 1 if least > 1 else 0):
                continue
            firsts = [t for t in trees(f1, l1, styles)
                      if t[0] != "c"] if (f1, l1) != (fonts, leaves) or \
                least <= 1 else []
            if not firsts:
                continue
            if (f1, l1) == (fonts, leaves):
                for t in firsts:
                    yield (t,)
                continue
            for rest in partitions(fonts - f1, leaves - l1, styles,
                                   max(1, least - 1)):
                for t in firsts:
                    yield (t,) + rest


def render_tree(t, how, count):
    """-> source, [(text, style)]"""
    if t[0] == "t":
        count[0] += 1
        s = "abcdefg"[count[0]]
        return '"%s"' % s, [(s, ("", ""))]
    if t[0] == "s":
        count[0] += 1
        k = count[0] + 1
        return 'print.format("%%0", %s)' % (
            "n * %d" % k if count[0] % 2 else "n"), [
                (str(5 * k if count[0] % 2 else 5), ("", ""))]
    if t[0] == "f":
        src, shown_ = render_tree(t[2], how, count)
        args, style = STYLES[t[1]]
        return "print.with_font(%s%s)" % (src, ", " + args if args else ""), \
            [(x, s if s is not None and marked else style)
             for x, s, marked in _mark(shown_, t[2])]
    parts = [render_tree(x, how, count) for x in t[1:]]
    out = [y for p in parts for y in p[1]]
    if how == "+":
        return " + ".join(
            ['print.format("")'] * all(x[0] == "t" for x in t[1:])
            + [p[0] for p in parts]), out
    return 'print.format("%s", %s)' % (
        "".join("%%%d" % i for i in range(len(parts))),
        ", ".join(p[0] for p in parts)), out


def _mark(shown_, t):
    """Which pieces already have a font of their own?"""
    flags = []

    def go(x):
        if x[0] in "ts":
            flags.append(False)
        elif x[0] == "f":
            n = len(flags)
            go(x[2])
            for i in range(n, len(flags)):
                flags[i] = True
        else:
            for y in x[1:]:
                go(y)
    go(t)
    return [(x, s, f) for (x, s), f in zip(shown_, flags)]


def styled(text):
    """Text with formatting codes -> [(char, (color, codes))]"""
    res, color, codes = [], "", ""
    i = 0
    while i < len(text):
        c = text[i]
        if c == "\xa7" and i + 1 < len(text):
            k = text[i + 1]
            if k == "r":
                color, codes = "", ""
            elif k in "lok":
                codes = "".join(x for x in "lok" if x in codes + k)
            else:
                color = k
            i += 2
            continue
        res.append((c, (color, codes)))
        i += 1
    return res


def font_batch(chunk, st):
    for i in range(0, len(chunk), 60):
        part = chunk[i:i + 60]
        body = ["import print", "n := 5"]
        wants = []
        for k, (t, how) in enumerate(part):
            src, want = render_tree(t, how, [-1])
            body += ["interface t/c%d:" % k, "    print.tell(%s)" % src]
            wants.append([(c, s) for x, s in want for c in x])
        out = core.compile_files({"main.aca": "\n".join(body) + "\n"})
        st.programs += len(part)
        if not out.ok:
            if len(part) > 1:
                for x in part:
                    font_batch([x], st)
                continue
            st.violations.append(font_violation(
                part[0], "valid program refused: %s\n%s" % (
                    out.error or out.crash, "\n".join(body))))
            return
        prog = mc.Program(out.files)
        w0 = mc.World()
        if "main" in prog.files:
            prog.run(w0, "main")
        for k, x in enumerate(part):
            w = w0.copy()
            prog.run(w, "t/c%d" % k)
            st.states += 1
            st.transitions += w.ncmds
            texts = [e[2] for e in w.log if e[0] == "tellraw"]
            got = [styled(t) for t in texts]
            st.outcome(repr(got))
            if got != [wants[k]]:
                st.violations.append(font_violation(
                    x, "shown %r, expected %r (character, (color, style))"
                    "\n%s" % (texts, wants[k], body[3 + 2 * k])))
                if len(st.violations) > 5:
                    return


def font_violation(x, what):
    return core.Violation({"kind": "font", "key": "font %r" % (x,),
                           "what": what, "args": x})


def font_items(level):
    sizes = [(1, n, tuple(STYLES)) for n in (1, 2)] + [
        (1, 3, ("green", "bold")), (2, 1, tuple(STYLES)),
        (2, 2, ("green", "bold", "none", "all")), (2, 3, ("green", "bold")),
        (3, 1, ("green", "bold", "none", "all")),
        (3, 2, ("green", "bold", "none"))]
    if level:
        sizes += [(3, 3, ("green", "bold")), (2, 3, ("green", "none", "all")),
                  (4, 2, ("green", "bold")), (3, 2, tuple(STYLES)[:5])]
    for f, n, styles in sizes:
        for t in trees(f, n, styles):
            yield t, "format"
            yield t, "+"


# ---------------------------------------------------------------------------
# Part 4: the commands

GAME = """import print
g := Engroup[Entity]()
"""
TARGETS = {None: ("p1", "p2"), "g": ("p1",)}
DEFAULT_TIMES = [10, 70, 20]


def option_cases():
    modes = {None: "title", "print.TITLE": "title",
             "print.SUBTITLE": "subtitle", "print.ACTIONBAR": "actionbar",
             '"subtitle"': "subtitle"}
    n = 0
    setup = ['g.select(Enfilter().is_name("p1"))']
    world = [["player", {"name": "p1"}], ["player", {"name": "p2"}],
             ["pig", {"name": "p1"}]]

    def mk(key, line, want, **k):
        d = {"key": key, "defs": "", "body": setup + [line], "inputs": [{}],
             "expect": [{"#log": want}], "world": world, "fresh": True}
        d.update(k)
        return d
    ids = {"p1": 1, "p2": 2}
    for tname, who in TARGETS.items():
        w = [ids[x] for x in who]
        for kw in (False, True):
            targ = "" if tname is None else (
                ", target=g" if kw else ", g")
            yield mk("tell %s %s" % (tname, kw), 'print.tell("x"%s)' % targ,
                     [["tellraw", w, "x"]])
            yield mk("clear %s %s" % (tname, kw),
                     'print.title_clear(%s)' % targ[2:],
                     [["titleraw", w, "clear"]])
            for m, mode in modes.items():
                for times in itertools.product(
                        (None, 10, 0), (None, 70, 3), (None, 20, 21)):
                    args = targ
                    if m:
                        args += ", mode=" + m
                    for name, v in zip(("fade_in", "stay_time", "fade_out"),
                                       times):
                        if v is not None:
                            args += ", %s=%d" % (name, v)
                    if kw and any(times):
                        continue
                    full = [d if v is None else v
                            for v, d in zip(times, DEFAULT_TIMES)]
                    yield dict(mk("title %s" % args,
                                  'print.title("x"%s)' % args, None),
                               times=full, who=w, mode=mode)
            n += 1
    for bad_ in ('print.tell("x", Enfilter())', 'print.tell("x", target=1)',
                 'print.title("x", Entity)', 'print.title_clear(4)',
                 'print.title("x", mode="x")', 'print.title("x", fade_in="a")',
                 'print.title()', 'print.tell()', 'print.tell("a", g, 1)',
                 'print.title(7)', 'print.translate(1)',
                 'print.with_font("a", "nocolor")',
                 'print.with_font("a", bold=1)', 'print.with_font("a", 4)',
                 'print.format(1)', 'print.format()',
                 'print.tell(print.format("%{0}"))',
                 'print.tell("a" - print.format("b"))',
                 'print.tell(print.format("b") * 2)'):
        yield {"key": bad_, "defs": "", "body": setup + [bad_], "inputs": [{}],
               "expect": [None], "want": "error"}


def option_batch(chunk, st):
    for c in chunk:
        if "times" not in c:
            continue
        # the times in force when the title is shown, and afterwards
        v = run_title(c, st)
        if v:
            st.violations.append(v)
    rest = [c for c in chunk if "times" not in c]
    if rest:
        cases.run_batch(rest, st, GAME)


def run_title(c, st):
    src = cases.source([c], GAME)
    out = core.compile_files({"main.aca": src})
    st.programs += 1
    st.states += 1
    what = None
    if not out.ok:
        what = "valid program refused: %s" % (out.error or out.crash)
    else:
        prog = mc.Program(out.files)
        w = mc.World()
        cases.populate(w, c["world"])
        prog.run(w, "main")
        del w.log[:]
        prog.run(w, "t/c0")
        st.transitions += w.ncmds
        times = {i: list(DEFAULT_TIMES) for i in w.entities}
        shown_ = []
        for e in w.log:
            if e[0] != "titleraw":
                shown_.append(e)
            elif e[2] == "times":
                for i in e[1]:
                    times[i] = list(e[3])
            elif e[2] == "reset":
                for i in e[1]:
                    times[i] = list(DEFAULT_TIMES)
            else:
                shown_ += [(i, e[2], e[3:], times[i]) for i in e[1]]
        want = [(i, c["mode"], ("x",), c["times"]) for i in c["who"]]
        st.outcome(repr(want))
        # copies of the lists: later changes make new lists
        if shown_ != want:
            what = "titles %r, expected %r" % (shown_, want)
        elif any(t != DEFAULT_TIMES for t in times.values()):
            what = "times left at %r" % times
    if what:
        return core.Violation({"kind": "title", "key": c["key"],
                               "what": what + "\n" + src, "case": c})


def color_batch(chunk, st):
    for color, code, version in chunk:
        src = 'import print\nprint.tell(print.with_font("x", "%s"))\n' % color
        out = core.compile_files({"main.aca": src},
                                 cfg={"mc_version": version})
        st.programs += 1
        st.states += 1
        new = code and code in "hijmnpqstu"
        what = None
        if new and version < (1, 19, 80):
            if out.crash or out.ok:
                what = "not refused for %r" % (version,)
        elif not out.ok:
            what = "refused: %s" % (out.error or out.crash)
        else:
            prog = mc.Program(out.files)
            w = mc.World()
            prog.run(w, "main")
            got = [styled(e[2]) for e in w.log]
            st.outcome(repr(got))
            if got != [[("x", (code, ""))]]:
                what = "shown %r" % got
        if what:
            st.violations.append(core.Violation(
                {"kind": "color", "key": "%s %r" % (color, version),
                 "what": what + "\n" + src, "args": [color, code, version]}))


COLORS = {
    "black": "0", "dark_blue": "1", "dark_green": "2", "dark_aqua": "3",
    "dark_red": "4", "dark_purple": "5", "gold": "6", "gray": "7",
    "dark_gray": "8", "blue": "9", "green": "a", "aqua": "b", "red": "c",
    "light_purple": "d", "yellow": "e", "white": "f", "minecoin_gold": "g",
    "material_quartz": "h", "material_iron": "i", "material_netherite": "j",
    "material_redstone": "m", "material_copper": "n", "material_gold": "p",
    "material_emerald": "q", "material_diamond": "s", "material_lapis": "t",
    "material_amethyst": "u", "default": ""}


def color_items():
    for c, code in COLORS.items():
        for v in ((1, 19, 50), (1, 19, 79), (1, 19, 80), (1, 20, 0),
                  (1, 21, 30)):
            yield c, code, v


def check(chk):
    lv = chk.thorough
    chk.map(ME, "pattern_batch", pattern_items(6 if lv else 4), 1)
    chk.map(ME, "value_batch", value_items(lv), 160)
    chk.map(ME, "bad_batch", bad_items(), 10)
    chk.map(ME, "font_batch", font_items(lv), 600)
    chk.map(ME, "option_batch", option_cases(), 30)
    chk.map(ME, "color_batch", color_items(), 20)
    chk.bounds = {"patterns": "length <= %d over %r" % (
        6 if lv else 4, PAT_ALPHA),
        "values": "all pairs of %d kinds in %d combinations" % (
            len(VALUES), len(COMBINE)),
        "fonts": "up to %d nested or adjacent fonts, %d texts" % (
            4 if lv else 3, 3)}
    chk.assumptions = [
        "a text in nested fonts has the font of the innermost one only",
        "values do not change between the making and the showing of a text"]


def replay(v):
    st = core.Stats()
    k = v["kind"]
    if k == "case":
        return cases.replay(v)
    if k == "values":
        run_values(v.get("batch") or [v["case"]], st, v["cfg"])
    elif k == "font":
        def tup(x):
            return tuple(map(tup, x)) if isinstance(x, list) else x
        font_batch([tup(v["args"])], st)
    elif k == "title":
        r = run_title(v["case"], st)
        st.violations = [r] if r else []
    else:
        color_batch([[v["args"][0], v["args"][1], tuple(v["args"][2])]], st)
    for x in st.violations:
        print(x["what"])
    return int(bool(st.violations))
