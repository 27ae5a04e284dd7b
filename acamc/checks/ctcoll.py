"""C10: compile-time lists, maps, strings and for loops.

A: all expressions of a bounded grammar over list/map constructors and
   methods, evaluated by the compiler in both of its evaluators (constants at
   run-time level, const functions), against Python values.
B: state exploration of const functions that mutate a list and a map: every
   sequence of operations to a depth, plus one representative history of
   every reachable (list, map, number) state times every operation.
C: for loops unrolled into run-time code, against the reference interpreter.
"""
import itertools

from .. import cases, lang, prog
from ..lang import pb
from ..prog import I, OUT, V

ME = __name__


class Err(Exception):
    pass


class M:
    """A map: ordered [(key, value)]; keys are equal if type and value are."""

    def __init__(self, items=()):
        self.d = {}
        for k, v in items:
            self.set(k, v)

    def set(self, k, v):
        kk = ident(k)
        self.d[kk] = (self.d[kk][0] if kk in self.d else k, v)

    def get(self, k, *dflt):
        kk = ident(k)
        if kk in self.d:
            return self.d[kk][1]
        if dflt:
            return dflt[0]
        raise Err

    def keys(self):
        return [k for k, _ in self.d.values()]

    def values(self):
        return [v for _, v in self.d.values()]

    def copy(self):
        return M(self.d.values())


def ident(k):
    if isinstance(k, list):
        return ("list",) + tuple(ident(x) for x in k)
    if k is None or isinstance(k, M):
        raise Err
    return (type(k).__name__, k)


def lit(v):
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, list):
        return "{%s}" % ", ".join(lit(x) for x in v)
    if isinstance(v, M):
        return "{%s}" % (", ".join("%s: %s" % (lit(a), lit(b))
                                   for a, b in v.d.values()) or ":")
    if v == lang.INT_MIN and type(v) is int:
        return "int.MIN"
    return str(v)


TYPE = {int: "int", bool: "bool", str: "str", float: "float", list: "list",
        M: "map"}


def observe(src, v, name, lines, exp, depth=0):
    """Lines that publish the constant `src`, which must be `v`."""
    if isinstance(v, bool):
        lines.append('scb("%s", "io") = int(%s)' % (name, src))
        exp[name] = int(v)
    elif isinstance(v, int):
        lines.append('scb("%s", "io") = %s' % (name, src))
        exp[name] = v
    elif isinstance(v, (str, float)):
        # a string becomes part of the name of the score
        lines.append('scb("%s=${%s}", "io") = 1' % (name, src))
        exp["%s=%s" % (name, v)] = 1
    elif v is None:
        lines.append('const none_%s = {%s, None}.size()' % (name, src))
    elif isinstance(v, list):
        c = "v_" + name
        lines.append("const %s = %s" % (c, src))
        lines.append('scb("%s.n", "io") = %s.size()' % (name, c))
        exp[name + ".n"] = len(v)
        for i, x in enumerate(v):
            idx = i - len(v) if i % 2 else i
            observe("%s[%d]" % (c, idx), x, "%s%d" % (name, i), lines, exp,
                    depth + 1)
        if all(type(x) is int for x in v):
            lines.append('scb("%s.d", "io") = 7' % name)
            lines.append('for e in %s:' % c)
            lines.append('    scb("%s.d", "io") = scb("%s.d", "io") * 31 + e'
                         % (name, name))
            d = 7
            for x in v:
                d = lang.wrap(lang.wrap(d * 31) + x)
            exp[name + ".d"] = d
    elif isinstance(v, M):
        c = "v_" + name
        lines.append("const %s = %s" % (c, src))
        observe(c + ".keys()", v.keys(), name + "k", lines, exp, depth + 1)
        observe(c + ".values()", v.values(), name + "v", lines, exp, depth + 1)
        for i, (k, x) in enumerate(v.d.values()):
            observe("%s[%s]" % (c, lit(k)), x, "%se%d" % (name, i), lines,
                    exp, depth + 1)
        lines.append('scb("%s.n", "io") = %s.size()' % (name, c))
        exp[name + ".n"] = len(v.d)
    else:
        raise AssertionError(v)


# -- A -----------------------------------------------------------------------

def attempt(f, *a):
    try:
        return f(*a)
    except Err:
        return Err


def geometric(s, r, n):
    out = []
    for _ in range(n):
        out.append(s)
        s *= r
    if any(not lang.INT_MIN <= x <= lang.INT_MAX for x in out):
        raise Err
    return out


def pyrange(*a):
    if len(a) == 3 and a[2] == 0:
        raise Err
    return list(range(*a))


def pyslice(v, *a):
    if len(a) == 3 and a[2] == 0:
        raise Err
    return v[slice(*a)]


def args(a):
    return ", ".join(lit(x) for x in a)


LITS = [[], [1], [3, 1, 2], [True, 1], ["a", "b", "a"], [[1], [2, 3], []],
        [4, 5, 6, 7, 8]]
MAPS = ["{:}", "{1: 2}", "{1: 5, 2: 6, 1: 7}", '{"a": 1, True: 2, 1: 3, 1.0: 4}',
        "{{1, 2}: 3, {1}: 4, {True}: 5}", "{3: {1, 2}, 4: {5: 6}}"]
MAPV = [M(), M([(1, 2)]), M([(1, 5), (2, 6), (1, 7)]),
        M([("a", 1), (True, 2), (1, 3), (1.0, 4)]),
        M([([1, 2], 3), ([1], 4), ([True], 5)]),
        M([(3, [1, 2]), (4, M([(5, 6)]))])]


def lists0():
    for v in LITS:
        yield lit(v), v, 0
    for n in range(-1, 4):
        yield "list.range(%d)" % n, pyrange(n), 0
        yield "list.repeat(5, %d)" % n, [5] * n, 0
    for a in itertools.product((-1, 0, 3), repeat=2):
        yield "list.range(%d, %d)" % a, pyrange(*a), 0
    for a in itertools.product((-1, 0, 3), (-2, 0, 4), (-2, -1, 0, 1, 2)):
        yield "list.range(%s)" % args(a), attempt(pyrange, *a), 0
    for a in itertools.product((1, -3, 0), (2, -2, 1, 0), (-1, 0, 1, 4)):
        yield "list.geometric(%s)" % args(a), attempt(geometric, *a), 0
    for a in ((65536, 256, 2), (65536, 256, 3), (1, 2, 31), (1, 2, 32),
              (-1, 2, 32), (-1, 2, 33)):
        yield "list.geometric(%s)" % args(a), attempt(geometric, *a), 0
    yield "list.repeat({1, 2}, 2)", [[1, 2], [1, 2]], 0
    yield "list(list.range(3))", [0, 1, 2], 0
    for s, m in zip(MAPS, MAPV):
        yield "list(%s)" % s, m.keys(), 0


def list_ops(src, v, wide):
    """(source, value, 1 if only for constants at run-time level)"""
    if v is Err:
        return
    yield src + ".copy()", v, 0
    yield "list(%s)" % src, v, 0
    if wide:
        ends = (None, 0, 1, 2, 9, -1, -2, -9)
        for a in ends[1:]:
            yield "%s.slice(%d)" % (src, a), v[:a], 0
        for a in itertools.product(ends, ends):
            yield "%s.slice(%s)" % (src, args(a)), v[slice(*a)], 0
        for a in itertools.product(ends, ends, (-1, 1, 2, -3, 0)):
            yield "%s.slice(%s)" % (src, args(a)), attempt(pyslice, v, *a), 0
        yield src + ".slice(None)", Err, 0
    else:
        yield src + ".slice(1)", v[:1], 0
        yield src + ".slice(1, None)", v[1:], 0
        yield src + ".slice(None, None, -1)", v[::-1], 0
        yield src + ".slice(-2, 9, 2)", v[-2:9:2], 0
    for n in (-1, 0, 1, 2, 3):
        yield "%s.cycle(%d)" % (src, n), v * n if n >= 0 else Err, 0
        yield "%s * %d" % (src, n), v * n, 1
    yield "%s + {7, 8}" % src, v + [7, 8], 1
    yield "{7} + %s" % src, [7] + v, 1
    yield "%s + %s" % (src, src), v + v, 1
    for i in range(-len(v) - 1, len(v) + 1):
        ok = -len(v) <= i < len(v)
        yield "%s[%d]" % (src, i), v[i] if ok else Err, 0
    yield src + ".size()", len(v), 0
    if all(not isinstance(x, M) and x is not None for x in v):
        yield "map.from_keys(%s, 4)" % src, M((k, 4) for k in v), 0
        yield "map(%s, list.range(9))" % src, M(zip(v, range(9))), 0
    yield "map({1, 2, 3}, %s)" % src, M(zip((1, 2, 3), v)), 0


def map_ops(src, m):
    yield src + ".copy()", m, 0
    yield src + ".keys()", m.keys(), 0
    yield src + ".values()", m.values(), 0
    yield src + ".size()", len(m.d), 0
    for k in (1, 2, 3, True, False, "a", "b", 1.0, [1, 2], [1], [True], []):
        yield "%s[%s]" % (src, lit(k)), attempt(m.get, k), 0
        yield "%s.get(%s)" % (src, lit(k)), m.get(k, None), 0
        yield "%s.get(%s, 77)" % (src, lit(k)), m.get(k, 77), 0
        yield "%s.get(default=77, key=%s)" % (src, lit(k)), m.get(k, 77), 0
        yield "%s.has(%s)" % (src, lit(k)), ident(k) in m.d, 0
    yield src + ".has(None)", Err, 0
    yield "%s[{:}]" % src, Err, 0


def floats():
    vals = [1.5, -2.0, 0.25, 3, -7]
    ops = {"+": lambda a, b: a + b, "-": lambda a, b: a - b,
           "*": lambda a, b: a * b, "/": lambda a, b: a / b}
    for a, b in itertools.product(vals, vals):
        if isinstance(a, int) and isinstance(b, int):
            continue
        for o, f in ops.items():
            yield "%s %s %s" % (lit(a), o, lit(b)), float(f(a, b)), 0
            yield "-(%s %s %s)" % (lit(a), o, lit(b)), -float(f(a, b)), 0
    yield "1.5 / 0", Err, 0
    yield "float(3)", 3.0, 0
    yield "float(3) + 0.5", 3.5, 0


def strings():
    atoms = [("\"a\"", "a"), ('""', ""), ('"b${1 + 1}c"', "b2c"),
             ('"${True}${"x"}"', "truex"), ('"${0.5}\\${"', "0.5${")]
    for (a, x), (b, y) in itertools.product(atoms, atoms):
        yield "%s + %s" % (a, b), x + y, 0
        yield '"<${%s + %s}>"' % (a, b), "<%s%s>" % (x, y), 0
    yield '"a" + 1', Err, 0
    yield '"a" * 2', Err, 0


def exprs(thorough):
    l0 = list(lists0())
    for src, v, rt in l0:
        yield src, v, rt
        wide = src in ("{3, 1, 2}", "{4, 5, 6, 7, 8}", "{}") or thorough
        l1 = list(list_ops(src, v, wide))
        for s1, v1, r1 in l1:
            yield s1, v1, r1
        if src in [lit(x) for x in LITS] or thorough:
            for s1, v1, r1 in list_ops(src, v, False):
                if isinstance(v1, list):
                    par = "(%s)" % s1 if r1 else s1
                    for s2, v2, r2 in list_ops(par, v1, False):
                        yield s2, v2, r1 or r2
    for src, m in zip(MAPS, MAPV):
        yield src, m, 0
        yield from map_ops(src, m)
        for s1, v1, r1 in map_ops(src, m):
            if isinstance(v1, M):
                yield from map_ops(s1, v1)
            elif isinstance(v1, list):
                yield from list_ops(s1, v1, False)
    yield from floats()
    yield from strings()


def expr_cases(item, i):
    src, v, rt_only = item
    for ctx in ("rt", "ct"):
        if ctx == "ct" and rt_only:
            continue
        key = "%s: %s" % (ctx, src)
        if ctx == "rt":
            defs, use = "", src
        else:
            t = TYPE.get(type(v), "int")
            defs = "const def f%d() -> %s:\n    result %s" % (i, t, src)
            if t == "str":      # strings cannot be declared as a result
                defs = "const def f%d() -> list:\n    result {%s}" % (i, src)
            if v is None:
                defs = "const def f%d() -> int:\n    x := %s\n    result 0" % (
                    i, src)
            use = "f%d()" % i + ("[0]" if t == "str" else "")
        if v is Err:
            yield {"key": key, "defs": defs, "body": ["const v = " + use],
                   "inputs": [], "expect": [], "want": "error"}
            continue
        lines, exp = [], {}
        if v is None:
            lines.append('const v = {%s, None}' % use)
            lines.append('scb("ok", "io") = v.size()')
            exp["ok"] = 2
        else:
            observe(use, v, "r", lines, exp)
        yield {"key": key, "defs": defs, "body": lines, "inputs": [{}],
               "expect": [exp]}


def batch_expr(chunk, st):
    cs = []
    for i, it in enumerate(chunk):
        cs += expr_cases(it, i)
    cases.run_batch(cs, st)


# -- B: mutation in const functions ------------------------------------------
# an operation: (source lines, python function on the state dict)

def pop(v, i):
    if not -len(v) <= i < len(v):
        raise Err
    return v.pop(i)


def at(v, i):
    if not -len(v) <= i < len(v):
        raise Err
    return i


def num(n):
    if not lang.INT_MIN <= n <= lang.INT_MAX:
        raise Err
    return n


def op_insert(i):
    def f(s):
        at(s["l"], i)
        s["l"].insert(i, 8)
    return f


def op_each(s):
    for i in range(len(s["l"])):
        s["l"][i] += i


def op_sum(s):
    for x in s["l"]:
        s["n"] = s["n"] * 3 + x


def op_keys(s):
    for k in s["m"].keys():
        s["n"] += k * s["m"].get(k)


def op_copy(s):
    k = s["l"][:]
    k.append(1)
    k[0] = 99
    s["n"] += len(k)


def op_mcopy(s):
    k = s["m"].copy()
    k.set(1, 88)
    k.set(9, 1)
    s["n"] += len(k.d)


def op_filter(s):
    s["l"] = [x + 1 for x in s["l"] if x > 3]


def setdef(m, k, v):
    if ident(k) not in m.d:
        m.set(k, v)
    return m.get(k)


def mpop(m, k, *d):
    if ident(k) in m.d:
        return m.d.pop(ident(k))[1]
    if d:
        return d[0]
    raise Err


def mset(m, k, v):
    m.get(k)
    m.set(k, v)


def op_eat(s):
    s["n"] += sum(s["l"])
    s["l"][:] = []


def op_grow(s):
    # every element there when the loop begins, with its value when its turn
    # comes
    for i in range(len(s["l"])):
        s["l"].append(s["l"][i] + 1)
        s["l"][0] += 1


def op_last(s):
    for i in range(len(s["l"])):
        s["l"][-1] = s["l"][i] + 2


def op_meat(s):
    for k in s["m"].keys():
        s["n"] += mpop(s["m"], k)
        setdef(s["m"], k + 1, k)


def put(s, k, v):
    s[k] = v


OPS = [
    ("l.append(n + 1)", lambda s: s["l"].append(s["n"] + 1)),
    ("l.append(7)", lambda s: s["l"].append(7)),
    ("l.extend({4, 5})", lambda s: s["l"].extend([4, 5])),
    ("l.extend(l)", lambda s: s["l"].extend(s["l"])),
    ("l.extend(m)", lambda s: s["l"].extend(s["m"].keys())),
    ("l.insert(0, 8)", op_insert(0)),
    ("l.insert(-1, 8)", op_insert(-1)),
    ("l.insert(1, 8)", op_insert(1)),
    ("l.reverse()", lambda s: s["l"].reverse()),
    ("n = l.pop(0)", lambda s: put(s, "n", pop(s["l"], 0))),
    ("n = l.pop(-1)", lambda s: put(s, "n", pop(s["l"], -1))),
    ("l[0] = 9", lambda s: s["l"].__setitem__(at(s["l"], 0), 9)),
    ("l[-1] += 10", lambda s: s["l"].__setitem__(
        at(s["l"], -1), s["l"][-1] + 10)),
    ("l[0] = l[1]", lambda s: (at(s["l"], 1), s["l"].__setitem__(
        0, s["l"][1]))),
    ("l[0] += l[-1]", lambda s: (at(s["l"], 0), s["l"].__setitem__(
        0, s["l"][0] + s["l"][-1]))),
    ("&r§ = l[0]\nr§ = 50", lambda s: s["l"].__setitem__(at(s["l"], 0), 50)),
    ("k§ := l[0]\nk§ = 51", lambda s: at(s["l"], 0)),
    ("k§ := l.copy()\nk§.append(1)\nk§[0] = 99\nn += k§.size()", op_copy),
    ("l = l.slice(1, None)", lambda s: put(s, "l", s["l"][1:])),
    ("l = l.slice(None, None, -1)\nl.append(1)", lambda s: put(
        s, "l", s["l"][::-1] + [1])),
    ("l = {n, 2}", lambda s: put(s, "l", [s["n"], 2])),
    ("for x in l:\n    n = n * 3 + x", op_sum),
    ("for i in list.range(l.size()):\n    l[i] += i", op_each),
    ("k§ := {0}\nk§.pop(0)\nfor x in l:\n    if x > 3:\n"
     "        k§.append(x + 1)\nl = k§", op_filter),
    ("for x in l.copy():\n    l.append(x)",
     lambda s: s["l"].extend(list(s["l"]))),
    ("for x in l:\n    l.pop(0)\n    n += x", op_eat),
    ("for x in l:\n    l.append(x + 1)\n    l[0] += 1", op_grow),
    ("for x in l:\n    l[-1] = x + 2", op_last),
    ("for k in m:\n    n += m.pop(k)\n    m.set_default(k + 1, k)", op_meat),
    ("m.update({1: 50, 3: n})", lambda s: (s["m"].set(1, 50),
                                           s["m"].set(3, s["n"]))),
    ("m[1] = 3", lambda s: mset(s["m"], 1, 3)),
    ("m[2] += 4", lambda s: mset(s["m"], 2, s["m"].get(2) + 4)),
    ("n = m.pop(1)", lambda s: put(s, "n", mpop(s["m"], 1))),
    ("n += m.pop(9, 4)", lambda s: put(s, "n", s["n"] + mpop(s["m"], 9, 4))),
    ("n += m.pop(2, 5)", lambda s: put(s, "n", s["n"] + mpop(s["m"], 2, 5))),
    ("n += m.set_default(1, 60)", lambda s: put(
        s, "n", s["n"] + setdef(s["m"], 1, 60))),
    ("n += m.set_default(5, n)", lambda s: put(
        s, "n", s["n"] + setdef(s["m"], 5, s["n"]))),
    ("m.clear()", lambda s: put(s, "m", M())),
    ("n += m.get(1, 100) - m.get(7, 1)", lambda s: put(
        s, "n", s["n"] + s["m"].get(1, 100) - s["m"].get(7, 1))),
    ("for k in m:\n    n += k * m[k]", op_keys),
    ("k§ := m.copy()\nk§.update({1: 88, 9: 1})\nn += k§.size()", op_mcopy),
    ("m = map.from_keys(l, n)", lambda s: put(
        s, "m", M((k, s["n"]) for k in s["l"]))),
    ("m = map(l, m.values())", lambda s: put(
        s, "m", M(zip(s["l"], s["m"].values())))),
    ("l = m.values()", lambda s: put(s, "l", list(s["m"].values()))),
    ("l = m.keys()\nl.append(6)", lambda s: put(s, "l", s["m"].keys() + [6])),
    ("if m.has(5):\n    n = 1\nelse:\n    l.append(n)", lambda s: (
        put(s, "n", 1) if ident(5) in s["m"].d else s["l"].append(s["n"]))),
    ("while l.size() < 3:\n    l.append(l.size() + n)", lambda s: [
        s["l"].append(len(s["l"]) + s["n"]) for _ in range(3 - len(s["l"]))]),
]


def start():
    return {"l": [3, 1], "m": M([(1, 10), (2, 20)]), "n": 5}


def apply(seq):
    """State after a sequence, or Err, or None (outside of 32 bits)."""
    s = start()
    for i in seq:
        try:
            OPS[i][1](s)
        except Err:
            return Err
        allv = [s["n"]] + s["l"] + s["m"].keys() + s["m"].values()
        if any(not -10 ** 9 <= x <= 10 ** 9 for x in allv) \
                or len(s["l"]) > 12:
            return None
    return s


def skey(s):
    return (tuple(s["l"]), tuple(s["m"].keys()), tuple(s["m"].values()),
            s["n"])


def hist_case(seq, i):
    s = apply(seq)
    if s is None:
        return None
    lines = ["const def f%d() -> list:" % i, "    l := {3, 1}",
             "    m := {1: 10, 2: 20}", "    n := 5"]
    for j, o in enumerate(seq):
        lines += ["    " + x for x in
                  OPS[o][0].replace("§", str(j)).split("\n")]
    lines.append("    result {l, m, n}")
    key = "; ".join(OPS[o][0].replace("\n", " | ") for o in seq)
    if s is Err:
        return {"key": key, "defs": "\n".join(lines),
                "body": ["const v = f%d()" % i], "inputs": [], "expect": [],
                "want": "error"}
    body, exp = [], {}
    observe("f%d()" % i, [s["l"], s["m"], s["n"]], "r", body, exp)
    return {"key": key, "defs": "\n".join(lines), "body": body,
            "inputs": [{}], "expect": [exp]}


def default_case(seq, i):
    """The state is given by defaults: every call begins with them."""
    s = apply(seq)
    if s is None or s is Err:
        return None
    c = hist_case(seq, i)
    lines = c["defs"].split("\n")
    lines[:4] = ["const def f%d(l: list = {3, 1}, m: map = {1: 10, 2: 20}, "
                 "n: int = 5) -> list:" % i]
    k = s["l"], s["m"], s["n"]
    lines += ["const def g%d() -> list:" % i,
              "    a := f%d()" % i, "    a[0].append(70)", "    a[1].clear()",
              "    b := f%d()" % i,
              "    b.append(a[2])", "    result b"]
    body, exp = [], {}
    observe("f%d()" % i, list(k), "r", body, exp)
    observe("g%d()" % i, list(k) + [s["n"]], "s", body, exp)
    observe("f%d(n=5)" % i, list(k), "t", body, exp)
    return dict(c, key="defaults: " + c["key"], defs="\n".join(lines),
                body=body, expect=[exp])


def batch_default(chunk, st):
    cs = [default_case(seq, i) for i, seq in enumerate(chunk)]
    cases.run_batch([c for c in cs if c], st)


def batch_hist(chunk, st):
    cs = [hist_case(seq, i) for i, seq in enumerate(chunk)]
    cases.run_batch([c for c in cs if c], st)


def histories(chk):
    n = len(OPS)
    for k in (1, 2):
        yield from itertools.product(range(n), repeat=k)
    if chk.thorough:
        yield from itertools.product(range(n), repeat=3)
    # breadth-first: one history per reachable state, then every operation
    seen = {skey(start())}
    frontier = [()]
    limit = 40000 if chk.thorough else 2500
    total = 0
    for depth in range(1, 9):
        nxt = []
        for h in frontier:
            for o in range(n):
                h2 = h + (o,)
                s = apply(h2)
                if s is None:
                    continue
                if s is Err:
                    if depth > 2:
                        total += 1
                        if total % 8 == 0 or chk.thorough:
                            yield h2
                    continue
                k = skey(s)
                if k in seen:
                    continue
                seen.add(k)
                nxt.append(h2)
                if depth > 2:
                    total += 1
                    yield h2
                if total > limit:
                    return
        frontier = nxt


# -- C: for loops over constants in run-time code ------------------------------

A, N, X, Y = V("a"), V("n"), V("x"), V("y")
ITERS = [[], [I(2)], [I(3), I(-1)], [I(1), I(1), I(4)]]


def T(e):
    return ("set", N, ("+", ("*", N, I(3)), e))


def call(f, *a):
    return ("call", f + "§", list(a))


FUNCS = [
    ("func", "fr§", "", [("k", "", "int", None)], "int",
     [("let", "s", I(0)),
      ("for", "i", [I(1), I(2), I(3)], [
          ("if", [(("cmp", V("k"), ">", V("i")),
                   [("set", V("s"), ("+", ("*", V("s"), I(2)), V("i")))])],
           None)]),
      ("result", V("s"))]),
    ("func", "fi§", "inline", [("k", "&", "int", None)], None,
     [("for", "i", [I(5), I(7)], [("let", "t", ("*", V("k"), V("i"))),
                                  ("set", V("k"), ("-", V("t"), I(1)))])]),
    ("func", "fl§", "", [("k", "", "int", None)], "int",
     [("for", "i", [I(1), I(2)], [("result", ("+", V("k"), V("i")))])]),
]
BODY = [
    T(X), ("if", [(("cmp", A, ">", X), [T(A)])], [T(X)]),
    ("set", A, ("-", A, X)), ("let", "t", ("+", A, X)), T(V("t")),
    ("while", ("cmp", A, ">", X), [("aug", "-", A, I(1)), T(I(1))]),
    ("set", A, call("fr", X)), ("expr", call("fi", A)),
    ("set", A, call("fl", ("+", A, X))),
    ("ref", "q", A), ("set", V("q"), ("+", V("q"), X)),
    ("func", "loc§", "", [], "int", [("result", ("+", A, X))]),
    T(call("loc")), ("const", "c", ("*", X, I(2))), T(V("c")),
    ("if", [(("cmp", X, ">", I(1)), [T(I(1))])], [T(I(2))]),
]


def uses(seq):
    from .control import names
    return names(seq)


def fine(seq):
    """Names are defined before they are used, once."""
    defined = {"let": "t", "ref": "q", "const": "c"}
    have = set()
    for s in seq:
        d = {"func": "loc§"}.get(s[0]) or (
            defined.get(s[0]) if s[0] in defined else None)
        need = {x for x in ("t", "q", "c", "loc§")
                if x in uses([s[2] if s[0] in ("let", "ref", "const") else s])}
        need -= {d}
        if not need <= have:
            return False
        if d:
            if d in have:
                return False
            have.add(d)
    return True


def loops(thorough):
    bodies = [[s] for s in BODY if fine([s])]
    bodies += [list(p) for p in itertools.product(BODY, repeat=2) if fine(p)]
    three = [list(p) for p in itertools.product(BODY, repeat=3) if fine(p)]
    bodies += three if thorough else three[::9]
    for b in bodies:
        for it in ITERS[2:] if len(b) > 1 else ITERS:
            yield [("for", "x", it, b), T(A)]
    small = bodies[:60] if not thorough else bodies[:250]
    for b in small:
        if any(s[0] in ("func",) for s in b):
            continue
        # nested loops: the inner loop sees both variables
        yield [("for", "y", [I(1), I(2)],
                [("for", "x", [Y, I(3), ("*", Y, I(2))], b), T(Y)])]
        yield [("if", [(("cmp", A, ">", I(0)), [("for", "x", ITERS[2], b)])],
                [("for", "x", ITERS[3], b)]), T(A)]
        yield [("set", V("z"), I(2)),
               ("while", ("cmp", V("z"), ">", I(0)),
                [("for", "x", ITERS[2], b), ("aug", "-", V("z"), I(1))])]


def batch_loop(chunk, st):
    cs = []
    for i, body in enumerate(chunk):
        u = uses(body)
        fs = [f for f in FUNCS if f[1] in u]
        cs.append(prog.mk(
            "\n".join(pb(body, 0)), fs,
            [("let", "n", I(1)), ("let", "z", I(0))] + body
            + [OUT("n", N), OUT("a", A)],
            ("a",), [{"a": v} for v in (-2, 0, 1, 2, 5)], i))
    cases.run_batch(cs, st)


def check(chk):
    es = list(exprs(chk.thorough))
    chk.bounds = {
        "expressions": len(es), "method nesting": 2,
        "mutation histories": "all of length <=%d over %d operations, plus "
        "every reachable state breadth-first" % (3 if chk.thorough else 2,
                                                 len(OPS)),
        "histories over default arguments": "length <=2, every call from "
        "run-time code and from const functions, repeated",
        "loop bodies": "<=2 statements (quick) / 3, nesting 2"}
    chk.assumptions = [
        "list and map methods mean what Python's methods of the same name "
        "mean", "no claim about two names for one mutable list"]
    chk.map(ME, "batch_expr", es, 60)
    chk.map(ME, "batch_hist", histories(chk), 50)
    n = range(len(OPS))
    chk.map(ME, "batch_default", [(x,) for x in n] + list(
        itertools.product(n, repeat=2))[::1 if chk.thorough else 3], 50)
    chk.map(ME, "batch_loop", loops(chk.thorough), 60)
