"""C23: scheduled tasks and loops run at the ticks they were asked for.

Every program holds tasks and registered loops. Its reachable states (world x
reference state) are explored to the fixpoint under the operations: a game
tick, `after`, `cancel`, a change of the variable delays are computed from, a
second run of the start-up function, requests for and arrivals of loaded
areas. In every state the observable actions of the operation are compared
with a reference scheduler."""
import itertools
import json
import re

from .. import core, mc, cases

ME = __name__

# Targets. name: (definitions, argument list, effects when called,
#                 needs an earlier task "t0")
# effects:
#   ("say", text)          a command reaching the log
#   ("io", holder, value)  a score set
#   ("arm", task, delay) ("cancel", task)   task None: itself
#   ("n", value)           the shared variable is set
#   ("ion", holder)        the score is set to the shared variable
#   ("has", task, [effects], [effects])
S = lambda t: ("say", t)  # noqa: E731
TARGETS = {
    "plain": ("def f§():\n    /say f§", "f§", [S("f§")]),
    "two commands": ("def f§():\n    /say f§\n    /say g§", "f§",
                     [S("f§"), S("g§")]),
    "inline": ("inline def f§():\n    /say f§\n    /say g§\n    n = n",
               "f§", [S("f§"), S("g§")]),
    "literal": ("def f§(k: int):\n    scb(\"f§\", \"io\") = k\n    /say f§",
                "f§, 7", [("io", "f§", 7), S("f§")]),
    "keyword": ("def f§(k: int, m: int, z=5):\n"
                "    scb(\"f§\", \"io\") = k * 100 + m * 10 + z",
                "f§, m=2, k=1", [("io", "f§", 125)]),
    "mixed": ("def f§(k: int, m: int, z=5):\n"
              "    scb(\"f§\", \"io\") = k * 100 + m * 10 + z",
              "f§, 4, z=1, m=3", [("io", "f§", 431)]),
    "variable": ("def f§(k: int, b: bool):\n"
                 "    scb(\"f§\", \"io\") = k\n"
                 "    if b:\n        /say y§",
                 "f§, K, B", [("io", "f§", 3), S("y§")]),
    "expression": ("def f§(k: int, b: bool):\n"
                   "    scb(\"f§\", \"io\") = k\n"
                   "    if b:\n        /say y§\n"
                   "    else:\n        /say n§",
                   "f§, K * 2 + K % 2 - 9, K > 2 and not B",
                   [("io", "f§", -2), S("n§")]),
    "call result": ("def g§(k: int) -> int:\n    result k * 5\n"
                    "def f§(k: int, m: int):\n"
                    "    scb(\"f§\", \"io\") = k * 100 + m",
                    "f§, g§(2), g§(3)", [("io", "f§", 1015)]),
    "compound": ("struct P§:\n    x: int\n    y: bool\n"
                 "p§ := P§(x=4, y=True)\n"
                 "def f§(k: P§, l: bool):\n"
                 "    scb(\"f§\", \"io\") = k.x\n"
                 "    if k.y:\n        if l:\n            /say y§",
                 "f§, p§, p§.y or B", [("io", "f§", 4), S("y§")]),
    "inline arguments": ("inline def f§(k: int, &m: int, const s):\n"
                         "    k += 1\n    m += k\n"
                         "    scb(\"f§\", \"io\") = m\n"
                         "    m -= k\n    /say ${s}",
                         "f§, 1, L, \"w§\"", [("io", "f§", 8), S("w§")]),
    "const function": ("const def c§(x: int) -> int:\n    result x + 1\n"
                       "def f§(k: int):\n    scb(\"f§\", \"io\") = k",
                       "f§, c§(8)", [("io", "f§", 9)]),
    "reads n": ("def f§():\n    scb(\"f§\", \"io\") = n\n    /say f§", "f§",
                [("ion", "f§"), S("f§")]),
    "sets n": ("def f§():\n    n = 2\n    /say f§", "f§",
               [("n", 2), S("f§")]),
    "method": ("entity Q§:\n    h: int\n    new():\n        new(\"pig\", Pos(0.0, 1.0, 0.0))\n"
               "        self.h = 6\n"
               "    def go(k: int):\n"
               "        scb(\"f§\", \"io\") = self.h + k\n"
               "e§ := Q§()", "e§.go, 1", [("io", "f§", 7)]),
    "virtual method": ("entity R§:\n    virtual def go(k: int):\n"
                       "        /say r§\n"
                       "entity Q§ extends R§:\n    h: int\n"
                       "    new():\n        new(\"pig\", Pos(0.0, 1.0, 0.0))\n"
                       "        self.h = 6\n"
                       "    override def go(k: int):\n"
                       "        scb(\"f§\", \"io\") = self.h + k\n"
                       "e§ : R§ = Q§()", "e§.go, 1", [("io", "f§", 7)]),
    "static method": ("entity Q§:\n    static def go(k: int):\n"
                      "        scb(\"f§\", \"io\") = k", "Q§.go, k=1",
                      [("io", "f§", 1)]),
    "builtin": ("", "print.tell, \"t§\"", [("tell", "t§")]),
    "builtin text": ("", "print.tell, print.format(\"%0 %{x}\", \"t§\", x=3)",
                     [("tell", "t§ 3")]),
    "nothing": ("def f§():\n    pass", "f§", []),
    "conditional": ("def f§():\n    if n == 1:\n        /say one§\n"
                    "    else:\n        /say other§", "f§",
                    [("if n", 1, [S("one§")], [S("other§")])]),
    "while": ("def f§():\n    i := 0\n    while i < 2:\n        /say f§\n"
              "        i += 1", "f§", [S("f§"), S("f§")]),
}
# targets that talk to the task itself; the task is found by name when the
# inline method is finally compiled
OWN = {
    "again 0": ("t§.after(0)", [("arm", None, 0)]),
    "again 1": ("t§.after(1)", [("arm", None, 1)]),
    "again 2": ("t§.after(2)", [("arm", None, 2)]),
    "again n": ("t§.after(n)", [("armn", None)]),
    "own cancel": ("t§.cancel()", [("cancel", None)]),
    "again then cancel": ("t§.after(1)\nt§.cancel()",
                          [("arm", None, 1), ("cancel", None)]),
    "again twice": ("t§.after(2)\nt§.after(1)", [("arm", None, 1)]),
    "again if n": ("if n == 1:\n    t§.after(0)",
                   [("if n", 1, [("arm", None, 0)], [])]),
}
for _k, (_src, _eff) in OWN.items():
    TARGETS[_k] = (
        "entity Q§:\n    new():\n        new(\"pig\", Pos(0.0, 1.0, 0.0))\n"
        "    virtual inline def go():\n        /say f§\n"
        + "".join("        %s\n" % x for x in _src.split("\n"))
        + "e§ := Q§()", "e§.go", [S("f§")] + _eff)
# targets that talk to the first task of the program
OTHER = {
    "arm 0": ("t0.after(0)", [("arm", 0, 0)]),
    "arm 1": ("t0.after(1)", [("arm", 0, 1)]),
    "arm n": ("t0.after(n)", [("armn", 0)]),
    "arm 2n+1": ("t0.after(n * 2 + 1)", [("arm2n1", 0)]),
    "cancel": ("t0.cancel()", [("cancel", 0)]),
    "arm if none": ("if not t0.has_schedule():\n    t0.after(1)\n"
                    "else:\n    /say busy§",
                    [("has", 0, [S("busy§")], [("arm", 0, 1)])]),
}
REFERS0 = set()
for _k, (_src, _eff) in OTHER.items():
    TARGETS[_k] = ("def f§():\n    /say f§\n" + "".join(
        "    %s\n" % x for x in _src.split("\n")).rstrip("\n"), "f§",
        [S("f§")] + _eff)
    REFERS0.add(_k)
TARGETS["bound after"] = ("", "t0.after, 1", [("arm", 0, 1)])
TARGETS["bound after kw"] = ("", "t0.after, delay=0", [("arm", 0, 0)])
TARGETS["bound cancel"] = ("", "t0.cancel", [("cancel", 0)])
REFERS0 |= {"bound after", "bound after kw", "bound cancel"}
NEEDS_N = {"reads n", "sets n", "conditional", "again n", "again if n",
           "arm n", "arm 2n+1", "inline"}

# intervals of loops: (source, value given n)
INTERVALS = {
    "1": (None, lambda n: 1),
    "1 written": ("1", lambda n: 1),
    "2": ("2", lambda n: 2),
    "3": ("3", lambda n: 3),
    "const": ("J", lambda n: 2),
    "expr of literals": ("J * 2 - 1", lambda n: 3),
    "variable": ("K", lambda n: 3),
    "n": ("n", lambda n: n),
    "n + 1": ("n + 1", lambda n: n + 1),
    "2n + 1": ("n * 2 + 1", lambda n: 2 * n + 1),
    "4 - n": ("4 - n", lambda n: 4 - n),
    "K - 1": ("K - 1", lambda n: 2),
    "K / 2": ("(K + n) / 2", lambda n: (3 + n) // 2),
}
CFGS = {
    "": {},
    "plain": {"optimizer": False},
    "split": {"split_init": True},
    "deep": {"root_folder": "r", "internal_folder": "in/ner",
             "max_inline_file_size": 0, "debug_comments": True},
    "big": {"max_inline_file_size": 100, "mc_version": (1, 20, 20)},
    "old": {"mc_version": (1, 19, 0), "education_edition": True},
}
AREAS = {
    "area": ("on_area_loaded(Pos(1.0, 2.0, 3.0), Offset(4, 5, 6))",
             ("area", (1.0, 2.0, 3.0), (5.0, 7.0, 9.0))),
    "area kw": ("on_area_loaded(offset=Offset(), origin=Pos(-1.0, 0.5, 8.0))",
                ("area", (-1.0, 0.5, 8.0), (-1.0, 0.5, 8.0))),
    "circle": ("on_circle_loaded(Pos(1.0, 2.0, 3.0), 4)",
               ("circle", (1.0, 2.0, 3.0), 4)),
    "tickingarea": ("on_tickingarea(\"ab\")", ("tickingarea", "ab")),
    "tickingarea 2": ("on_tickingarea(\"a b\")", ("tickingarea", "a b")),
}


def decode_request(args, ctx):
    """What a `schedule on_area_loaded` command waits for."""
    toks = args.split(" ", 3)
    c = mc.Ctx(*ctx)
    if toks[:2] != ["on_area_loaded", "add"]:
        return args
    if toks[2] == "tickingarea":
        rd = mc.Reader(toks[3])
        return ("tickingarea", rd.string())
    toks = args.split(" ")[2:]
    if toks[0] == "circle":
        return ("circle", c.resolve([mc.parse_coord(x) for x in toks[1:4]]),
                int(toks[4]))
    cs = [mc.parse_coord(x) for x in toks]
    return ("area", c.resolve(cs[:3]), c.resolve(cs[3:6]))


# ---------------------------------------------------------------------------
# Programs

def program(comps, areas, form):
    """comps: [("task", target) | ("loop", target, interval)]; -> files,
    {operation: interface}"""
    out = ["import schedule", "import print", "const J = 2", "K := 3",
           "B := True", "L := 6", "n := 1"]
    tasks = [i for i, c in enumerate(comps) if c[0] == "task"]
    for i, c in enumerate(comps):
        defs, args, _ = TARGETS[c[1]]
        sub = lambda s: s.replace("§", str(i))  # noqa: E731
        if defs:
            out.append(sub(defs))
        if c[0] == "task":
            out.append("const t%d = schedule.Task(%s)" % (i, sub(args)))
        else:
            iv = INTERVALS[c[2]][0]
            a = sub(args).split(", ", 1)
            # positional arguments come after the interval
            pos = len(a) > 1 and not re.match(r"\w+=[^=]", a[1])
            if pos:
                a.insert(1, iv or "1")
            elif iv is not None:
                a.append("interval=" + iv)
            out.append("schedule.register_loop(%s)" % ", ".join(a))
    files = {}
    if form == "module":
        files["m.aca"] = "\n".join(out) + "\n"
        out = ["from m import *"]
    ops = {}

    def iface(name, *lines):
        ops[name] = "o/p%d" % len(ops)
        out.append("interface %s:" % ops[name])
        out.extend("    " + ln for ln in lines)
    for i in tasks:
        for d in (0, 1, 2):
            iface(("after", i, d), "t%d.after(%d)" % (i, d))
        iface(("aftern", i), "t%d.after(n)" % i)
        iface(("after2n1", i), "t%d.after(delay=2 * n + 1)" % i)
        iface(("cancel", i), "t%d.cancel()" % i)
        iface(("both", i), "t%d.after(2)" % i, "if n == 1:",
              "    t%d.cancel()" % i, "t%d.after(1)" % tasks[0])
        for a in areas:
            iface(("area", i, a), "t%d.%s" % (i, AREAS[a][0]))
    iface(("n", 0), "n = 0")
    iface(("n", 1), "n = 1")
    iface(("n", 2), "n = 2")
    q = []
    for i in tasks:
        q += ["scb(\"h%d\", \"io\") = 0" % i, "if t%d.has_schedule():" % i,
              "    scb(\"h%d\", \"io\") = 1" % i,
              "b%d := t%d.has_schedule()" % (i, i),
              "if not b%d:" % i, "    scb(\"h%d\", \"io\") += 10" % i,
              "scb(\"v%d\", \"io\") = t%d._timer" % (i, i)]
    if q:
        iface("has", *q)
    files["main.aca"] = "\n".join(out) + "\n"
    return files, ops


# ---------------------------------------------------------------------------
# Reference scheduler. State: (n, timers of tasks, timers of loops, pending)

class Ref:
    def __init__(self, comps):
        self.comps = comps
        self.n = 1
        self.timer = [-1 if c[0] == "task" else 0 for c in comps]
        self.pending = ()
        self.log, self.io = [], {}

    def copy(self):
        r = Ref(self.comps)
        r.n, r.timer, r.pending = self.n, list(self.timer), self.pending
        return r

    def key(self):
        return (self.n, tuple(self.timer), self.pending)

    def call(self, i):
        self.effects(TARGETS[self.comps[i][1]][2], i)

    def effects(self, eff, i):
        sub = lambda s: s.replace("§", str(i))  # noqa: E731
        for e in eff:
            k = e[0]
            t = None
            if k in ("arm", "armn", "arm2n1", "cancel", "has"):
                t = i if e[1] is None else e[1]
            if k == "say":
                self.log.append("say " + sub(e[1]))
            elif k == "tell":
                self.log.append("tell " + sub(e[1]))
            elif k == "io":
                self.io[sub(e[1])] = e[2]
            elif k == "ion":
                self.io[sub(e[1])] = self.n
            elif k == "n":
                self.n = e[1]
            elif k == "if n":
                self.effects(e[2] if self.n == e[1] else e[3], i)
            elif k == "arm":
                self.timer[t] = e[2]
            elif k == "armn":
                self.timer[t] = self.n
            elif k == "arm2n1":
                self.timer[t] = 2 * self.n + 1
            elif k == "cancel":
                self.timer[t] = -1
            elif k == "has":
                self.effects(e[2] if self.timer[t] >= 0 else e[3], i)

    def tick(self):
        for i, c in enumerate(self.comps):
            if c[0] == "loop":
                # the timer says how many ticks have to pass yet
                if self.timer[i] <= 0:
                    self.call(i)
                    self.timer[i] = INTERVALS[c[2]][1](self.n)
                self.timer[i] = max(self.timer[i] - 1, 0)
            elif self.timer[i] == 0:
                self.timer[i] = -1
                self.call(i)
                if self.timer[i] > 0:
                    self.timer[i] -= 1
            elif self.timer[i] > 0:
                self.timer[i] -= 1

    def do(self, op):
        self.log, self.io = [], {}
        if op == "tick":
            self.tick()
        elif op == "main":
            for i, c in enumerate(self.comps):
                self.timer[i] = -1 if c[0] == "task" else 0
            self.n = 1
        elif op == "loaded":
            for i, a in self.pending:
                self.call(i)
            self.pending = ()
        elif op[0] == "n":
            self.n = op[1]
        elif op[0] == "after":
            self.timer[op[1]] = op[2]
        elif op[0] == "aftern":
            self.timer[op[1]] = self.n
        elif op[0] == "after2n1":
            self.timer[op[1]] = 2 * self.n + 1
        elif op[0] == "cancel":
            self.timer[op[1]] = -1
        elif op[0] == "both":
            self.timer[op[1]] = 2
            if self.n == 1:
                self.timer[op[1]] = -1
            first = next(i for i, c in enumerate(self.comps)
                         if c[0] == "task")
            self.timer[first] = 1
        elif op[0] == "area":
            self.pending += ((op[1], op[2]),)


def text_of(e):
    """An entry of the log -> text."""
    if e[0] == "raw":
        return e[1]
    if e[0] in ("tellraw",):
        return "tell " + "".join(
            x if isinstance(x, str) else repr(x) for x in flat(e))
    return repr(e)


def flat(e):
    v = e[2]
    if isinstance(v, str):
        return [v]
    return [x[1] if isinstance(x, (list, tuple)) else x for x in v]


def explore(comps, cfg, areas, form, st, cap):
    """-> (what, path of operations) or None"""
    files, ops = program(comps, areas, form)
    src = "".join(files.values())
    out = core.compile_files(files, cfg=cfg)
    st.programs += 1
    if not out.ok:
        return "valid program refused: %s" % (out.error or out.crash), [], src
    prog = mc.Program(out.files)
    if prog.malformed:
        return "malformed command %r" % (prog.malformed[0],), [], src
    root, main, init = cases.layout(cfg)
    ticks = json.loads(out.extra["tick.json"])["values"] \
        if "tick.json" in out.extra else []
    has = ops.pop("has", None)
    uses_n = any(c[1] in NEEDS_N or (len(c) > 2 and "n" in c[2])
                 for c in comps)
    names = ["tick"]
    if not any("entity" in TARGETS[c[1]][0] for c in comps):
        names.append("main")        # would create entities without end
    if areas:
        names.append("loaded")
    for o in ops:
        if o[0] == "n" and not uses_n:
            continue
        names.append(o)

    def run(w, op):
        w.log = []
        w.scores["io"].clear()
        if op == "tick":
            for p in ticks:
                if p in prog.files:
                    prog.run(w, p)
        elif op == "main":
            for p in (init, main):
                if p and p in prog.files:
                    prog.run(w, p)
        elif op == "loaded":
            todo, w.scheduled = w.scheduled, []
            for _args, path, _ctx in todo:
                if path in prog.files:
                    prog.run(w, path)
        elif op == "has":
            prog.run(w, root + has)
        else:
            p = root + ops[op]
            if p in prog.files:
                prog.run(w, p)
        st.transitions += w.ncmds

    w0 = mc.World()
    w0.budget = 20000
    w0.add_objective("io")
    w0.spawn("player", name="p")
    run(w0, "main")
    r0 = Ref(comps)
    seen = {(w0.key(), r0.key())}
    todo = [(w0, r0, [])]
    while todo:
        nxt = []
        for w, r, path in todo:
            if has is not None:
                w2 = w.copy()
                run(w2, "has")
                want = {}
                for i, c in enumerate(comps):
                    if c[0] == "task":
                        want["h%d" % i] = 1 if r.timer[i] >= 0 else 10
                        want["v%d" % i] = r.timer[i]
                if w2.scores["io"] != want:
                    return ("has_schedule and _timer say %r, expected %r" % (
                        w2.scores["io"], want), path, src)
            for op in names:
                if op[0] == "area" and r.pending:
                    continue
                if op == "loaded" and not r.pending:
                    continue
                w2, r2 = w.copy(), r.copy()
                try:
                    run(w2, op)
                except mc.Runaway:
                    return "runaway execution", path + [op], src
                r2.do(op)
                for f in w2.faults:
                    if "missing function" in f:
                        return f, path + [op], src
                got = ([text_of(e) for e in w2.log], dict(w2.scores["io"]))
                if got != (r2.log, r2.io):
                    return ("actions and scores %r, expected %r" % (
                        got, (r2.log, r2.io)), path + [op], src)
                st.outcome(repr(got))
                if areas:
                    got = [decode_request(a, c) for a, _f, c in w2.scheduled]
                    want = [AREAS[a][1] for _i, a in r2.pending]
                    if got != want:
                        return ("waits for %r, expected %r" % (got, want),
                                path + [op], src)
                k = (w2.key(), r2.key(), tuple(map(repr, w2.scheduled)))
                if k not in seen:
                    seen.add(k)
                    nxt.append((w2, r2, path + [op]))
        if len(seen) > cap:
            st.count("capped", 1)
            break
        todo = nxt
    st.states += len(seen)
    return None


def batch(chunk, st):
    for comps, cname, areas, form, cap in chunk:
        bad = explore(comps, CFGS[cname], areas, form, st, cap)
        if bad:
            what, path, src = bad
            st.violations.append(core.Violation(
                {"kind": "sched",
                 "key": "%r %s %s: %s" % (comps, cname, areas,
                                          what.split(" ")[0]),
                 "what": "after %s: %s\n%s" % (
                     ", ".join(map(str, path)), what, src),
                 "args": [comps, cname, areas, form, cap]}))
            if len(st.violations) > 10:
                return


def items(level):
    thorough = level
    cap = 20000
    own = [t for t in TARGETS if t not in REFERS0]
    res = []

    def add(comps, cname="", areas=(), form=""):
        res.append((tuple(comps), cname, tuple(areas), form, cap))
    T = lambda t: ("task", t)  # noqa: E731
    # every target as a task and as a loop
    for t in own:
        for cname in CFGS if thorough else ("", "plain"):
            add([T(t)], cname)
            if t not in OWN:
                for iv in ("1", "2"):
                    add([("loop", t, iv)], cname)
        if t not in OWN:
            add([("loop", t, "2n + 1")])
    # every interval
    for iv in INTERVALS:
        for t in ("plain", "two commands", "inline", "keyword", "sets n",
                  "reads n", "builtin"):
            if t in ("sets n", "reads n", "inline") or thorough or \
                    t == "plain":
                add([("loop", t, iv)])
                add([("loop", t, iv), T("plain")])
    for cname in CFGS:
        for iv in ("2", "n + 1", "4 - n"):
            add([("loop", "inline", iv), T("again n")], cname)
    # tasks that talk to each other, in both orders
    for t in sorted(REFERS0):
        for first in ("plain", "reads n", "again 1", "again if n", "inline"):
            add([T(first), T(t)])
            for iv in ("1", "2", "3", "n + 1"):
                add([T(first), ("loop", t, iv)])
    # pairs
    few = ("plain", "inline", "literal", "call result", "method", "again 0",
           "again 2", "sets n", "reads n", "expression", "builtin")
    for a, b in itertools.product(few, few):
        add([T(a), T(b)])
        if b not in OWN:
            add([T(a), ("loop", b, "2")])
            if a not in OWN and thorough:
                add([("loop", a, "3"), ("loop", b, "2"), T("reads n")])
    # areas
    for t in own if thorough else few:
        for a in AREAS if t != "nothing" else ():
            add([T(t)], "", [a])
    for t in ("again 1", "reads n", "plain"):
        for cname in CFGS:
            add([T(t)], cname, ["area", "circle", "tickingarea"])
    # everything in a module
    for t in own if thorough else few:
        for cname in ("", "split"):
            add([T(t), ("loop", "plain", "2")], cname, (), "module")
    if level > 1:
        for a, b, c in itertools.product(few[:9], ("arm n", "arm 1", "cancel",
                                                   "bound after"), few[:9]):
            add([T(a), T(b), T(c)])
            if c not in OWN:
                add([T(a), ("loop", b, "2"), ("loop", c, "3")])
        names = [t for t in TARGETS if t not in REFERS0]
        for a, b in itertools.product(names, TARGETS):
            for cname in CFGS:
                add([T(a), T(b)], cname)
                if b not in OWN:
                    add([T(a), ("loop", b, "n + 1")], cname)
        for a, b, c in itertools.product(few, TARGETS, sorted(REFERS0)):
            add([T(a), T(b), T(c)])
    elif level:
        few = few[:5]
        for a, b, c in itertools.product(few, ("arm n", "cancel",
                                               "bound after"), few):
            add([T(a), T(b), T(c)])
    return res


def check(chk):
    chk.map(ME, "batch", items(1 + chk.thorough), 4)
    if chk.stats.counts.get("capped"):
        chk.exhaustive = False
    chk.stats.sample({"source": program((("task", "again 1"),), (),
                                        "")[0]})
    chk.bounds = {"targets": sorted(TARGETS), "intervals": sorted(INTERVALS),
                  "configurations": sorted(CFGS),
                  "tasks and loops per program": 3,
                  "depth": "fixpoint of the reachable states"}
    chk.assumptions = [
        "the tick function is run once per game tick",
        "a request made while the game is between ticks for a delay of d "
        "is served by the (d+1)-th tick that follows, one made by the task "
        "itself d ticks later (0 and 1 both mean the next tick)",
        "tasks and loops are served in the order of their creation",
        "registrations of loops that depend on a run-time condition are "
        "outside the property"]


def replay(v):
    comps, cname, areas, form, cap = v["args"]
    comps = tuple(tuple(c) for c in comps)
    bad = explore(comps, CFGS[cname], tuple(areas), form, core.Stats(), cap)
    if bad:
        print("after %s: %s" % (bad[1], bad[0]))
        return 1
    print("no violation")
    return 0
