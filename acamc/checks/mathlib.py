"""C25: the functions of the math module.

Part 1: every function on every pair of boundary values, as variables and as
literals, in functions and in const functions. Part 2: every expression of
two of the functions or operators over variables, literals, calls, with every
destination, including the variables it reads. Part 3: randint with every
outcome of the random choice."""
import itertools

from .. import cases, core, mc

ME = __name__
wrap = mc.wrap
MIN, MAX = -2 ** 31, 2 ** 31 - 1
EDGE = (MIN, MIN + 1, -2 ** 30 - 1, -2 ** 30, -65536, -46341, -1000, -10, -7,
        -3, -2, -1, 0, 1, 2, 3, 5, 10, 31, 32, 46340, 46341, 65536,
        2 ** 30 - 1, 2 ** 30, 2 ** 30 + 1, 2 ** 30 + 7, MAX - 1, MAX)
FEW = (MIN, -2 ** 30 - 1, -10, -3, -1, 0, 1, 3, 10, 31, 2 ** 30 + 1, MAX)


def power(x, y):
    return None if y < 0 else wrap(pow(x, y, 2 ** 32))


def floordiv(x, y):
    return None if y == 0 else x // y


def mod(x, y):
    return None if y == 0 else x % y


FUNCS = {"min": min, "max": max, "mod": mod, "floordiv": floordiv,
         "pow": power}


def lit(x):
    return str(x) if x > MIN else "(-2147483647 - 1)"


def edge_batch(chunk, st):
    cs = []
    for name, xs in chunk:
        f = FUNCS[name]
        inputs, expect = [], []
        for y in EDGE:
            for x in xs:
                if name == "pow" and y > 1000:
                    continue
                v = f(x, y)
                inputs.append({"x": x, "y": y})
                expect.append(None if v is None else {"z": wrap(v)})
        cs.append({"key": "%s %r" % (name, xs), "defs": "",
                   "body": ['scb("z", "io") = math.%s(scb("x", "io"), '
                            'scb("y", "io"))' % name],
                   "inputs": inputs, "expect": expect})
    cases.run_batch(cs, st, PRELUDE)


def literal_batch(chunk, st):
    """Literals: one of them, both of them, in a const function."""
    cs = []
    for name, x in chunk:
        f = FUNCS[name]
        for y in FEW:
            v = None if name == "pow" and abs(x) > 1 and y > 31 else f(x, y)
            if name == "pow" and y >= 0 and (y < 32 or abs(x) < 2):
                v = x ** (y if abs(x) > 1 else y % 2 + 2 * (y > 1))
            over = v is not None and not MIN <= v <= MAX or \
                v is None and name == "pow" and y >= 0
            bad = v is None and not over
            call = "math.%s(%s, %s)" % (name, lit(x), lit(y))
            for form, (defs, body) in (
                    ("both", ("", ['scb("z", "io") = %s'])),
                    ("const", ("const K§ = %s", ['scb("z", "io") = K§'])),
                    ("const def", ("const def k§() -> int:\n    result %s",
                                   ['scb("z", "io") = k§()']))):
                n = len(cs)
                sub = lambda s: (s.replace("§", str(n))  # noqa: E731
                                 % ((call,) * s.count("%s")))
                cs.append({"key": "%s: %s" % (form, call), "defs": sub(defs),
                           "body": [sub(b) for b in body], "inputs": [{}],
                           "expect": [{"z": v}],
                           "want": "error:INT_OVERFLOW" if over else
                           "error" if bad else "ok"})
            # one literal, one variable
            if bad or (name == "pow" and y > 64):
                continue
            w = f(x, y)
            if w is None:
                continue
            for form in ("math.%s(%s, q)" % (name, lit(x)),
                         "math.%s(q, %s)" % (name, lit(y))):
                if form.endswith("q)") and name == "pow" and y > 1000:
                    continue
                q = y if form.endswith("q)") else x
                cs.append({"key": "%s q=%d" % (form, q), "defs": "",
                           "body": ['q := scb("q", "io")',
                                    'scb("z", "io") = ' + form],
                           "inputs": [{"q": q}],
                           "expect": [{"z": wrap(w)}]})
    for i in range(0, len(cs), 200):
        cases.run_batch(cs[i:i + 200], st, PRELUDE)


PRELUDE = """import math
def f(k: int) -> int:
    i := 2
    while i > 0:
        k += 3
        i -= 1
    result k
inline def g(k: int) -> int:
    m := k * 2
    k = m - 5
    result k
struct S:
    u: int
gs := S(u=4)
"""


# ---------------------------------------------------------------------------
# Part 2: expressions.  ("name") | (op, x, y)

def cdiv(x, y):
    return None if y == 0 else mc.c_div(x, y)


OPS = {
    "+": ("%s + %s", lambda x, y: x + y),
    "-": ("%s - %s", lambda x, y: x - y),
    "*": ("%s * %s", lambda x, y: x * y),
    "min": ("math.min(%s, %s)", min),
    "max": ("math.max(%s, %s)", max),
    "min3": ("math.min(%s, 5, %s)", lambda x, y: min(x, y, 5)),
    "max4": ("math.max(%s, -4, %s, b)", None),
    "mod": ("math.mod(%s, %s)", mod),
    "floordiv": ("math.floordiv(y=%[1]s, x=%[0]s)", floordiv),
    "pow2": ("math.pow(%s, 2) + %s", lambda x, y: x * x + y),
    "pow5": ("math.pow(%s, 5) - %s", lambda x, y: x ** 5 - y),
    "pow": ("math.pow(%s, math.mod(%s, 4))",
            lambda x, y: power(x, y % 4)),
    "rpow": ("%s - math.pow(%s, 3)", lambda x, y: x - y ** 3),
    "pow6": ("math.pow(%s, 6) * math.pow(%s, 3)",
             lambda x, y: x ** 6 * y ** 3),
}
LEAVES = {
    "a": lambda e: e["a"], "b": lambda e: e["b"],
    "3": lambda e: 3, "-2": lambda e: -2,
    "f(a)": lambda e: wrap(e["a"] + 6),
    "g(b)": lambda e: wrap(wrap(e["b"] * 2) - 5),
    "s.u": lambda e: e["s"], 'scb("c", "io")': lambda e: e["c"],
}
INPUTS = ({"a": 7, "b": -3, "c": 2, "s": 5},
          {"a": -5, "b": 4, "c": -9, "s": 5},
          {"a": MAX, "b": MIN, "c": 1, "s": 5},
          {"a": 0, "b": 1, "c": 2 ** 30 + 3, "s": 5})
DESTS = {
    "new": (["z := E"], "z", False), "io": (['scb("z", "io") = E'], None,
                                            False),
    "a": (["a = E"], "a", False), "b": (["b = E"], "b", False),
    "field": (["s.u = E"], "s.u", False),
    "+=": (["b += E"], "b", lambda old, v: old + v),
    "*=": (["a *= E"], "a", lambda old, v: old * v),
    "-= field": (["s.u -= E"], "s.u", lambda old, v: old - v),
    "argument": (["z := idf(E)"], "z", False),
    "condition": (["z := 0", "if E > 2:", "    z = 1"], "z", "cond"),
    "equal": (["z := 0", "if b == E or a != E:", "    z = 1"], "z", "eq"),
}
DEFS2 = """def idf(k: int) -> int:
    result k + 1
"""


def src_of(t):
    if isinstance(t, str):
        return t
    x, y = src_of(t[1]), src_of(t[2])
    if t[0] in "+-*":
        if not isinstance(t[1], str):
            x = "(%s)" % x
        if not isinstance(t[2], str) or y[0] == "-":
            y = "(%s)" % y
        return OPS[t[0]][0] % (x, y)
    pat = OPS[t[0]][0]
    if "[1]" in pat:
        return pat.replace("%[1]s", y).replace("%[0]s", x)
    if t[0] in ("pow2", "pow5", "pow6", "rpow"):
        if not isinstance(t[2], str):
            y = "(%s)" % y if t[0] in ("pow2", "pow5") else y
        if t[0] == "rpow" and not isinstance(t[1], str):
            x = "(%s)" % x
        return "(%s)" % (pat % (x, y))
    return pat % (x, y)


def value(t, e):
    if isinstance(t, str):
        return LEAVES[t](e)
    x, y = value(t[1], e), value(t[2], e)
    if x is None or y is None:
        return None
    if t[0] == "max4":
        v = max(x, -4, y, e["b"])
    else:
        v = OPS[t[0]][1](x, y)
    return None if v is None else wrap(v)


def constant(t):
    """Every part known at compile time: no wrap-around there."""
    if isinstance(t, str):
        return t in ("3", "-2")
    return constant(t[1]) and constant(t[2])


def has_constant(t):
    if isinstance(t, str):
        return False
    return constant(t) or has_constant(t[1]) or has_constant(t[2])


def expr_case(t, dest):
    lines, var, upd = DESTS[dest]
    body = ['a := scb("a", "io")', 'b := scb("b", "io")', "s := S(u=5)"]
    body += [ln.replace("E", src_of(t)) for ln in lines]
    if var:
        body.append('scb("z", "io") = ' + var)
    expect = []
    for e in INPUTS:
        v = value(t, e)
        if v is not None:
            if upd == "cond":
                v = int(v > 2)
            elif upd == "eq":
                v = int(e["b"] == v or e["a"] != v)
            elif upd:
                v = wrap(upd(e[var[-1] if var != "s.u" else "s"], v))
            elif dest == "argument":
                v = wrap(v + 1)
        expect.append(None if v is None else {"z": v})
    return {"key": "%s: %s" % (dest, src_of(t)), "defs": "", "body": body,
            "inputs": [{k: x for k, x in e.items() if k != "s"}
                       for e in INPUTS], "expect": expect}


def expr_batch(chunk, st):
    cs = []
    for t, dests in chunk:
        if has_constant(t):
            continue
        for d in dests:
            cs.append(expr_case(t, d))
    for i in range(0, len(cs), 120):
        cases.run_batch(cs[i:i + 120], st, PRELUDE + DEFS2)
        if st.violations:
            return


def expr_items(level):
    some = ("a", "b", "3", "f(a)")
    most = tuple(LEAVES)
    for op in OPS:
        for x, y in itertools.product(most, most):
            yield (op, x, y), tuple(DESTS)
    new = [o for o in OPS if o not in "+-*"]
    dests = tuple(DESTS)
    n = 0
    for o1, o2 in itertools.product(OPS, OPS):
        if o1 not in new and o2 not in new:
            continue
        for x, y, z in itertools.product(most if level else some, repeat=3):
            n += 1
            for t in ((o1, (o2, x, y), z), (o1, z, (o2, x, y))):
                if level:
                    yield t, dests
                else:
                    # every destination with every shape of tree, and a
                    # part of them with all leaves
                    yield t, ("b", dests[n % len(dests)])


# ---------------------------------------------------------------------------
# Part 3: random numbers, wrong uses

RAND = {(0, 0), (0, 1), (-1, 1), (-3, -1), (5, 9), (MIN, MIN + 1),
        (MAX - 2, MAX), (-2, 2)}


def rand_batch(chunk, st):
    for lo, hi in chunk:
        for form, want in (
                ("math.randint(%s, %s)", lambda v: v),
                ("math.randint(max=%[1]s, min=%[0]s)", lambda v: v),
                ("math.randint(%s, %s) + 1", lambda v: wrap(v + 1)),
                ("b - math.randint(%s, %s)", lambda v: wrap(4 - v)),
                ("f(math.randint(%s, %s))", lambda v: wrap(v + 6)),
                ("math.max(b, math.randint(%s, %s))", lambda v: max(4, v)),
                ("math.pow(math.randint(%s, %s), 3)",
                 lambda v: wrap(v ** 3))):
            call = form.replace("%[1]s", lit(hi)).replace("%[0]s", lit(lo)) \
                if "[1]" in form else form % (lit(lo), lit(hi))
            src = PRELUDE + "interface t:\n    b := 4\n" \
                "    scb(\"z\", \"io\") = %s\n" % call
            out = core.compile_files({"main.aca": src})
            st.programs += 1
            if not out.ok:
                what = "refused: %s" % (out.error or out.crash)
            else:
                what = rand_run(out, lo, hi, want, st)
            if what:
                st.violations.append(core.Violation(
                    {"kind": "rand", "key": call, "what": what + "\n" + src,
                     "args": [lo, hi]}))


def rand_run(out, lo, hi, want, st):
    prog = mc.Program(out.files)
    if prog.malformed:
        return "malformed %r" % (prog.malformed[0],)
    w0 = mc.World()
    w0.add_objective("io")
    prog.run(w0, "main")
    got = set()
    n = hi - lo + 1
    sizes = set()
    for k in range(n):
        w = w0.copy()

        def choose(m, what):
            sizes.add(m)
            return min(k, m - 1)
        w.choose = choose
        prog.run(w, "t")
        st.states += 1
        st.transitions += w.ncmds
        got.add(w.scores["io"].get("z"))
        if w.faults:
            return w.faults[0]
    st.outcome(repr(sorted(got)))
    exp = {want(v) for v in range(lo, hi + 1)}
    if got != exp or (sizes and sizes != {n}):
        return "results %r, expected %r (choices of %r)" % (
            sorted(got), sorted(exp), sizes)


BAD = ["math.min()", "math.max()", "math.pow(a, -1)", "math.pow(2, -1)",
       "math.mod(1, 0)", "math.floordiv(1, 0)", "math.min(True)",
       "math.max(a, True)", 'math.min("a")', "math.pow(a)", "math.pow()",
       "math.mod(a)", "math.floordiv(a, 1, 2)", "math.randint(a, 3)",
       "math.randint(1)", "math.randint(1, b)", "math.pow(a, True)",
       "math.mod(a, y=b, x=a)", "math.min(k=a)", "math.pow(a, 2, 3)",
       "math.randint(True, 2)", "math.pow(None, 2)", "math.nothing(1)",
       "math.mod(1.5, 2)"]
GOOD = [("math.pow(base=a, exp=3)", lambda a, b: a ** 3),
        ("math.pow(exp=b, base=a)", lambda a, b: a ** b),
        ("math.min(a)", lambda a, b: a),
        ("math.max(2)", lambda a, b: 2),
        ("math.min(a, b, a, b, 100, 7)", lambda a, b: min(a, b, 7)),
        ("math.max(3, 1, 2)", lambda a, b: 3),
        ("math.min(1, a, 2)", lambda a, b: min(1, a)),
        ("math.mod(y=3, x=a)", lambda a, b: a % 3),
        ("math.pow(a, 0)", lambda a, b: 1),
        ("math.pow(a, 1)", lambda a, b: a),
        ("math.min(%s, a)" % lit(MIN), lambda a, b: MIN),
        ("math.min(%s, a)" % lit(MAX), lambda a, b: a),
        ("math.max(%s, a)" % lit(MIN), lambda a, b: a),
        ("math.max(%s, a)" % lit(MAX), lambda a, b: MAX)] + [
        ("math.pow(a, %d)" % k, lambda a, b, k=k: a ** k)
        for k in range(2, 40)] + [
        ("math.pow(%d, b)" % k, lambda a, b, k=k: k ** b)
        for k in range(-3, 12)]


def misc_batch(chunk, st):
    cs = []
    for kind, i in chunk:
        pre = ['a := scb("a", "io")', 'b := scb("b", "io")']
        if kind == "bad":
            cs.append({"key": BAD[i], "defs": "",
                       "body": pre + ["z := " + BAD[i]],
                       "inputs": [{}], "expect": [None], "want": "error"})
        else:
            e, f = GOOD[i]
            ins = [(3, 4), (-5, 2), (7, 0), (-2, 31), (1, 9), (0, 0)]
            for how in ("z", "a", "b"):
                cs.append({
                    "key": "%s = %s" % (how, e), "defs": "",
                    "body": pre + ["%s %s %s" % (
                        how, ":=" if how == "z" else "=", e),
                        'scb("z", "io") = ' + how],
                    "inputs": [{"a": a, "b": b} for a, b in ins],
                    "expect": [{"z": wrap(f(a, b))} for a, b in ins]})
    cases.run_batch(cs, st, PRELUDE)


def check(chk):
    lv = chk.thorough
    chk.map(ME, "edge_batch", [(f, (x,)) for f in FUNCS for x in EDGE], 6)
    chk.map(ME, "literal_batch", [(f, x) for f in FUNCS
                                  for x in (EDGE if lv else FEW)], 1)
    chk.map(ME, "misc_batch", [("bad", i) for i in range(len(BAD))]
            + [("good", i) for i in range(len(GOOD))], 10)
    chk.map(ME, "rand_batch", sorted(RAND), 1)
    chk.map(ME, "expr_batch", expr_items(lv), 200)
    chk.bounds = {"values": list(EDGE), "expressions": "all of depth 2 over "
                  "%d operations, %d leaves, %d destinations" % (
                      len(OPS), 8 if lv else 4, len(DESTS))}
    chk.assumptions = [
        "pow with a negative exponent, division by zero and INT_MIN // -1 "
        "are not judged at run time (the last wraps)"]


def replay(v):
    if v["kind"] == "case":
        return cases.replay(v)
    st = core.Stats()
    rand_batch([v["args"]], st)
    for x in st.violations:
        print(x["what"])
    return int(bool(st.violations))
