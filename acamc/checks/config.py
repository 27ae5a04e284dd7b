"""C08: optimiser, inlining limit, file layout and naming options never
change what a program does.

Every configuration compiles the same bounded corpora as the semantic checks
(control flow, calls, assignments ...), so the oracle is the reference
interpreter rather than another run of the compiler; on top of those, a
grammar of programs whose branches change the condition they depend on
through raw commands, references and calls - what an inliner must notice."""
import importlib
import itertools

from .. import cases, prog
from ..lang import pb
from ..prog import I, OUT, V

ME = __name__

CONFIGS = {
    "noopt": {"optimizer": False},
    "inline0": {"max_inline_file_size": 0},
    "inline1": {"max_inline_file_size": 1},
    "inline2": {"max_inline_file_size": 2},
    "inlineall": {"max_inline_file_size": 100000},
    "names": {"optimizer": False, "split_init": True, "init_file": "setup/go",
              "root_folder": "a/b", "internal_folder": "zz/in",
              "main_file": "begin", "scoreboard": "my sb",
              "entity_tag": "tg", "debug_comments": True},
    "names-opt": {"split_init": True, "init_file": "start",
                  "root_folder": "lib", "internal_folder": "k",
                  "main_file": "m/main", "scoreboard": "x.y",
                  "debug_comments": True, "max_inline_file_size": 3,
                  "education_edition": True, "mc_version": [1, 20, 50]},
}
QUICK = ["noopt", "inline0", "inlineall", "names", "names-opt"]


def run_family(chunk, st):
    """chunk: [(module, batch function, config name, items)]"""
    for mod, func, cname, items in chunk:
        m = importlib.import_module(mod)
        cases.DEFAULT_CFG = CONFIGS[cname]
        n = len(st.violations)
        try:
            getattr(m, func)(items, st)
        finally:
            cases.DEFAULT_CFG = None
        for v in st.violations[n:]:
            v["key"] = "%s: %s" % (cname, v["key"])
        st.count("runs in " + cname, len(items))


# -- programs an inliner must not break --------------------------------------

S, T, N = ("scb", "s", "io"), ("scb", "t", "io"), ("scb", "n", "io")
X, P = V("x"), V("p")
INPUTS = [{"s": s, "t": t} for s, t in
          itertools.product((-1, 0, 1, 2), (0, 1, 2))]


def bump(k):
    return ("aug", "+", N, I(k))


FUNCS = [
    ("func", "fs§", "", [], None,
     [("cmd", "scoreboard players add s io 1", [("aug", "+", S, I(1))])]),
    ("func", "fx§", "", [("k", "", "int", None)], "int",
     [("cmd", "scoreboard players operation s io -= t io",
       [("aug", "-", S, T)]),
      ("result", ("-", V("k"), S))]),
    ("func", "fi§", "inline", [("k", "&", "int", None)], None,
     [("set", V("k"), ("-", I(1), V("k")))]),
    ("func", "fr§", "", [], None, [("expr", ("call", "fs§", [])),
                                   ("aug", "+", S, T)]),
]
CONDS = [
    ("cmp", S, ">", I(0)), ("cmp", S, "==", T), ("cmp", S, "!=", T),
    ("and", [("cmp", S, ">", I(0)), ("cmp", T, "<", I(2))]),
    ("and", [("cmp", S, "<=", T), ("cmp", S, "!=", I(1))]),
    ("or", [("cmp", S, "==", I(0)), ("cmp", T, "==", I(0))]),
    ("cmp", X, "==", I(1)), P, ("not", P), ("not", ("cmp", S, "<", T)),
]
ACTS = [
    ("cmd", "scoreboard players set s io 0", [("set", S, I(0))]),
    ("cmd", "scoreboard players operation s io >< t io", [("swap", S, T)]),
    ("cmd", "execute if score t io matches 1.. run scoreboard players add s "
     "io 2", [("if", [(("cmp", T, ">=", I(1)), [("aug", "+", S, I(2))])],
                None)]),
    ("cmd", "scoreboard players random s io 3 3", [("set", S, I(3))]),
    ("set", X, ("-", I(1), X)), ("set", P, ("not", P)),
    ("set", S, ("-", T, S)), bump(1),
    ("expr", ("call", "fs§", [])), ("set", X, ("call", "fx§", [T])),
    ("expr", ("call", "fi§", [S])), ("expr", ("call", "fr§", [])),
    ("swap", S, T), ("swap", T, S),
]


def opt_programs(thorough):
    tail = bump(100)
    # how many references a function has, and where
    for f in ("fs§", "fr§"):
        act = [("expr", ("call", f, []))]
        for c in (CONDS[0], CONDS[6]):
            for i, j, k in itertools.product(range(4), repeat=3):
                yield (act * i + [("if", [(c, act * j + [bump(1)])],
                                   act * k + [bump(10)])])
                yield [("if", [(c, act * i)], act * j)] + act * k
    for c in CONDS:
        for a in ACTS:
            yield [("if", [(c, [a])], None)]
            yield [("if", [(c, [a])], [bump(1)])]
            yield [("if", [(c, [bump(1)])], [a, bump(10)])]
        for a, b in itertools.product(ACTS, ACTS):
            yield [("if", [(c, [a, b, bump(10)])], None), tail]
            yield [("if", [(c, [a])], [b]), tail]
            yield [("if", [(c, [bump(1), a])], [b, bump(10)]), tail]
        for c2 in CONDS[::2]:
            for a in ACTS:
                yield [("if", [(c, [("if", [(c2, [a, bump(10)])], [bump(5)]),
                                    bump(1)])], [a])]
                yield [("if", [(c, [a, ("if", [(c2, [bump(10), a])], None),
                                    bump(1)])], None), tail]
        if thorough:
            for seq in itertools.product(ACTS, repeat=3):
                yield [("if", [(c, list(seq) + [bump(1)])], [bump(10)])]
            for c2 in CONDS:
                for a, b in itertools.product(ACTS, ACTS):
                    yield [("if", [(c, [a, ("if", [(c2, [b, bump(10)])], [a]),
                                        bump(1)])], [b])]


def batch(chunk, st):
    from .control import names
    cs = []
    for i, body in enumerate(chunk):
        used = names(body)
        need = set()
        todo = set(used)
        while todo:
            x = todo.pop()
            for f in FUNCS:
                if f[1] == x and x not in need:
                    need.add(x)
                    todo |= names(f[5])
        mod = [f for f in FUNCS if f[1] in need]
        pre = [("set", N, I(0)), ("let", "x", S),
               ("let", "p", ("cmp", S, ">", T))]
        full = pre + body + [OUT("x", X), OUT("p", ("toint", P))]
        inputs = INPUTS
        c = prog.mk("\n".join(pb(body, 0)), mod, full, (), [], i)
        c["inputs"] = inputs
        c["expect"] = [evaluate(mod, full, inp) for inp in inputs]
        cs.append(c)
    cases.run_batch(cs, st)


# -- conditions on fields of entity variables ---------------------------------
# What `e.f` stands for changes whenever e is made to mean another entity.

DYN_DEFS = """entity T§:
    f: int
    new():
        new("pig", Pos(0, 0, 0))
    inline def up():
        self.f += 1
    def dbl():
        self.f += self.f
e§: T§
x§: int
def move§(to: T§):
    e§ = to
inline def byref§(&which: T§, to: T§):
    which = to
"""
DYN_START = ['a := T§()', 'a.f = scb("s", "io")', 'b := T§()',
             'b.f = scb("t", "io")', 'e§ = a', 'h: T§', 'h = b',
             'x§ = 1', 'scb("n", "io") = 0']
DYN_END = ['scb("ef", "io") = e§.f', 'scb("hf", "io") = h.f',
           'scb("af", "io") = a.f', 'scb("bf", "io") = b.f',
           'scb("x", "io") = x§']


class Dyn:
    """e, h: which of the entities 0 and 1; f: their fields"""

    def __init__(self, s, t):
        self.e, self.h, self.x, self.n, self.f = 0, 1, 1, 0, [s, t]

    ef = property(lambda d: d.f[d.e])
    hf = property(lambda d: d.f[d.h])


def _set(name, fn):
    def act(d):
        setattr(d, name, fn(d))
    return act


def _field(which, fn):
    def act(d):
        d.f[which(d)] = fn(d)
    return act


def _swap(d):
    d.e, d.h = d.h, d.e


def _swap_f(d):
    u, v = d.ef, d.hf
    d.f[d.e] = v
    d.f[d.h] = u


DYN_CONDS = [
    ("e§.f == x§", lambda d: d.ef == d.x),
    ("x§ != e§.f", lambda d: d.ef != d.x),
    ("e§.f > h.f", lambda d: d.ef > d.hf),
    ("e§.f <= 1", lambda d: d.ef <= 1),
    ("e§.f == x§ and x§ < 2", lambda d: d.ef == d.x and d.x < 2),
    ("x§ == 1 and e§.f < 2", lambda d: d.x == 1 and d.ef < 2),
    ("e§.f == 0 or x§ == h.f", lambda d: d.ef == 0 or d.x == d.hf),
    ("not (x§ >= e§.f)", lambda d: d.x < d.ef),
]
DYN_ACTS = [
    ("e§ = h", _set("e", lambda d: d.h)),
    ("e§ = b", _set("e", lambda d: 1)),
    ("h = a", _set("h", lambda d: 0)),
    ("swap(e§, h)", _swap),
    ("swap(e§.f, h.f)", _swap_f),
    ("move§(h)", _set("e", lambda d: d.h)),
    ("byref§(e§, b)", _set("e", lambda d: 1)),
    ("e§.f += 1", _field(lambda d: d.e, lambda d: d.ef + 1)),
    ("e§.up()", _field(lambda d: d.e, lambda d: d.ef + 1)),
    ("e§.dbl()", _field(lambda d: d.e, lambda d: d.ef * 2)),
    ("b.f = 1", _field(lambda d: 1, lambda d: 1)),
    ("x§ = h.f", _set("x", lambda d: d.hf)),
    ("x§ += 1", _set("x", lambda d: d.x + 1)),
]


def _n(k):
    return ('scb("n", "io") += %d' % k, _set("n", lambda d: d.n + k))


def dyn_programs(thorough):
    """[(form, condition, actions)]: if / if-else / while / nested if"""
    k = len(DYN_ACTS)
    for c in range(len(DYN_CONDS)):
        for i in range(k):
            for form in ("if", "else", "while"):
                yield form, c, (i,)
            for j in range(k):
                yield "if", c, (i, j)
                if thorough or (i + j + c) % 4 == 0:
                    yield "else", c, (i, j)
                    yield "while", c, (i, j)
                    yield "nest", c, (i, j)
        if thorough:
            for t in itertools.product(range(k), repeat=3):
                yield "if", c, t


def dyn_case(form, c, acts, n):
    src, cond = DYN_CONDS[c]
    steps = [DYN_ACTS[i] for i in acts]
    if form == "if":
        lines = ["if %s:" % src] + ["    " + a[0] for a in steps + [_n(10)]]
    elif form == "else":
        lines = ["if %s:" % src] + ["    " + a[0] for a in steps[:1] + [_n(10)]]
        lines += ["else:"] + ["    " + a[0] for a in steps[1:] + [_n(1)]]
    elif form == "while":
        lines = ["while %s and scb(\"n\", \"io\") < 3:" % (
            "(%s)" % src)] + ["    " + a[0] for a in [_n(1)] + steps]
    else:
        lines = ["if %s:" % src, "    " + steps[0][0],
                 "    if %s:" % src, "        " + steps[1][0],
                 "        " + _n(5)[0], "    " + _n(10)[0]]
    lines.append(_n(100)[0])
    inputs = [{"s": s, "t": t} for s in range(3) for t in range(3)
              if (s, t) != (2, 2)]
    expect = []
    for inp in inputs:
        d = Dyn(inp["s"], inp["t"])
        if form == "while":
            while cond(d) and d.n < 3:
                for a in [_n(1)] + steps:
                    a[1](d)
        elif form == "nest":
            if cond(d):
                steps[0][1](d)
                if cond(d):
                    for a in (steps[1], _n(5)):
                        a[1](d)
                d.n += 10
        elif cond(d):
            for a in (steps[:1] if form == "else" else steps) + [_n(10)]:
                a[1](d)
        elif form == "else":
            for a in steps[1:] + [_n(1)]:
                a[1](d)
        expect.append({"n": d.n + 100, "ef": d.ef, "hf": d.hf,
                       "af": d.f[0], "bf": d.f[1], "x": d.x})
    return {"key": "%s %s | %s" % (form, src, "; ".join(a[0] for a in steps)),
            "defs": DYN_DEFS.replace("§", str(n)),
            "body": [l.replace("§", str(n))
                     for l in DYN_START + lines + DYN_END],
            "inputs": inputs, "expect": expect,
            "fresh": True, "world": [
                ["player", {"name": "Steve", "pos": [5, 64, 5]}]]}


def dyn_batch(chunk, st):
    cases.run_batch([dyn_case(*p, i) for i, p in enumerate(chunk)], st)


def evaluate(mod, body, inp):
    from .. import lang
    it = lang.Interp()
    for k, v in inp.items():
        it.scb[(k, "io")] = lang.Cell(v)
    g = lang.Env()
    try:
        it.block(mod, g)
        it.block(body, lang.Env(g))
    except lang.Skip:
        return None
    return {k[0]: int(c.v) for k, c in it.scb.items() if c.v is not None}


def families(chk):
    """(module, batch, items, stride in the quick tier)"""
    from . import assign, control, funcs
    sub = type("Sub", (), {"thorough": False})()
    yield ME, "batch", list(opt_programs(chk.thorough)), 1
    yield ME, "dyn_batch", list(dyn_programs(chk.thorough)), 1
    yield control.__name__, "batch", list(control.items(sub)), 2
    yield funcs.__name__, "batch", list(funcs.items5(sub)), 8
    yield funcs.__name__, "batch", list(funcs.items6(sub)), 6
    yield assign.__name__, "batch", list(assign.items(sub)), 40


def check(chk):
    names = list(CONFIGS) if chk.thorough else QUICK
    chk.bounds = {"configurations": names,
                  "inliner programs": "branches of <=2 actions (quick) / 3, "
                  "nesting 2, 12 start states",
                  "conditions on fields of entity variables": "8 conditions, "
                  "branches of <=2 (3) of 13 actions that rebind the entities "
                  "or change the fields"}
    jobs = []
    for mod, func, items, stride in families(chk):
        for n, cname in enumerate(names):
            its = items if chk.thorough or mod == ME else items[n % stride::stride]
            for i in range(0, len(its), 60):
                jobs.append((mod, func, cname, its[i:i + 60]))
    chk.map(ME, "run_family", jobs, 2)
