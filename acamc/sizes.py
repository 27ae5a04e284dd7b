"""Families of programs with one dimension that grows.

The exhaustive families of the checks are bounded to small shapes (few
operands, branches, parameters, members ...).  Here every shape is taken at
every size from 1 to N, so that nothing that begins at a certain number
(a second digit, the fifth parameter, the eleventh branch) lies outside of the
bounds.  One family yields one program per size; the oracle is arithmetic in
Python.

items(id, thorough) -> [(id, family, size)]; batch runs them.
"""
import itertools

from . import cases, mc

FAM = {}            # property -> {name: (function, quick sizes, thorough)}
ME = "acamc.sizes"


def fam(prop, quick=16, thorough=40, step=1):
    def deco(f):
        FAM.setdefault(prop, {})[f.__name__] = (
            f, range(1, quick + 1, step), range(1, thorough + 1, step))
        return f
    return deco


def items(prop, thorough):
    return [(prop, name, n) for name, (f, q, t) in sorted(FAM[prop].items())
            for n in (t if thorough else q)]


def build(item, i):
    prop, name, n = item
    c = FAM[prop][name][0](n)
    s = "%d" % i

    def sub(x):
        return x.replace("§", s)
    return dict(c, key="size %d of %s" % (n, name),
                defs=sub("\n".join(c.get("defs", []))),
                body=[sub(x) for ln in c["body"] for x in ln.split("\n")])


def batch(chunk, st):
    cases.run_batch([build(x, i) for i, x in enumerate(chunk)], st)


# -- C08: every shape under other options --------------------------------------

CFGS = [{"optimizer": False}, {"max_inline_file_size": 1},
        {"max_inline_file_size": 100, "debug_comments": True},
        {"split_init": True, "root_folder": "r", "entity_tag": "e",
         "scoreboard": "s"}, {"mc_version": (1, 19, 10)}]


def batch_cfg(chunk, st):
    for k, its in chunk:
        cases.run_batch([build(x, i) for i, x in enumerate(its)], st,
                        cfg=CFGS[k])


def check_cfg(chk):
    sizes = range(1, 31) if chk.thorough else (3, 7, 12)
    its = [(prop, name, n) for prop in FAM if prop not in
           ("C16", "C17", "C23", "C30") for name, (f, q, t) in
           sorted(FAM[prop].items()) for n in sizes if n in t
           and (chk.thorough or n in q)]
    chk.bounds["growing shapes"] = \
        "all of acamc/sizes.py at %d sizes under %d configurations" % (
            len(sizes), len(CFGS))
    chunks = [its[i:i + 8] for i in range(0, len(its), 8)]
    chk.map(ME, "batch_cfg", [(k, c) for k in range(len(CFGS))
                              for c in chunks], 1)


def check(chk, prop=None):
    prop = prop or chk.id
    its = items(prop, chk.thorough)
    chk.bounds["growing shapes"] = "%d shapes, every size up to %s" % (
        len(FAM[prop]), "/".join(str(x) for x in sorted(
            {max(t if chk.thorough else q)
             for _, q, t in FAM[prop].values()})))
    chk.map(ME, "batch", its, 6)


# -- helpers -------------------------------------------------------------------

def io(x):
    return 'scb("%s", "io")' % x


def load(names):
    """Module variables cannot be shared by cases: locals of the interface."""
    return ["%s := %s" % (x, io(x)) for x in names]


def store(*pairs):
    return ["%s = %s" % (io(k), v) for k, v in pairs]


def vals(k, salt=0):
    """k numbers that tell positions apart."""
    return [(j * 7 + salt * 3) % 23 - 5 + j for j in range(k)]


def two(names, salts=(0, 1)):
    return [dict(zip(names, vals(len(names), s))) for s in salts]


def V(n, p="v"):
    return ["%s%d" % (p, j) for j in range(n)]


def case(body, inputs, expect, defs=(), **k):
    return dict(k, defs=list(defs), body=list(body), inputs=inputs,
                expect=expect)


def comma(xs):
    return ", ".join(str(x) for x in xs)


W = mc.wrap
div, rem = mc.c_div, mc.c_rem


# -- C01 integers --------------------------------------------------------------

def opchain(ops):
    """v0 op v1 op v2 ... by precedence, left to right."""
    def f(n):
        names = V(n + 1)
        seq = [ops[j % len(ops)] for j in range(n)]
        src = names[0] + "".join(" %s %s" % p for p in zip(seq, names[1:]))

        def value(env):
            terms, signs = [env[names[0]]], []
            for o, x in zip(seq, names[1:]):
                x = env[x]
                if o in "+-":
                    signs.append(o)
                    terms.append(x)
                else:
                    terms[-1] = W({"*": lambda a: a * x, "/": lambda a: div(
                        a, x), "%": lambda a: rem(a, x)}[o](terms[-1]))
            t = terms[0]
            for o, x in zip(signs, terms[1:]):
                t = W(t + x if o == "+" else t - x)
            return t
        ins = [{k: v or 1 for k, v in e.items()} for e in two(names)]
        return case(load(names) + store(("r", src)) + store(
            *[("c" + x, x) for x in names]), ins,
            [dict({"r": value(e)}, **{"c" + x: e[x] for x in names})
             for e in ins])
    return f


for _i, _ops in enumerate(["+", "-", "*+", "-*", "+*-", "*/", "+/-%", "%*"]):
    _f = opchain(_ops)
    _f.__name__ = "chain of " + _ops
    fam("C01", 14, 40)(_f)


@fam("C01", 14, 40)
def nested_right(n):
    """v0 - (v1 - (v2 - ...))"""
    names = V(n + 1)
    src, ins = names[-1], two(names)
    for x in reversed(names[:-1]):
        src = "%s - (%s)" % (x, src)
    return case(load(names) + store(("r", src)), ins, [
        {"r": W(sum((-1) ** j * e[x] for j, x in enumerate(names)))}
        for e in ins])


@fam("C01", 14, 40)
def nested_literals(n):
    """Literals of growing number of digits, on both sides."""
    names = ["a"]
    src, f = "a", []
    for j in range(n):
        k = int("123456789123"[:1 + j % 9])
        src = "(%d - %s)" % (k, src) if j % 2 else "(%s * %d)" % (src, k)
        f.append((k, j % 2))
    ins = [{"a": 3}, {"a": -70000}]

    def value(a):
        for k, odd in f:
            a = W(k - a if odd else a * k)
        return a
    return case(load(names) + store(("r", src)), ins,
                [{"r": value(e["a"])} for e in ins])


@fam("C01", 14, 40)
def minus_signs(n):
    src = "-" * (n % 2) + "a"
    for j in range(n):
        src = "-(%s)" % src if j % 2 else "+(%s)" % src
    k = n % 2 + n // 2
    return case(load("a") + store(("r", src)), [{"a": 7}, {"a": -7}],
                [{"r": 7 * (-1) ** k}, {"r": -7 * (-1) ** k}])


# -- C02 booleans --------------------------------------------------------------

def bools(n):
    names = V(n)
    ins = [dict.fromkeys(names, 1)] + [
        {x: int(x != y) for x in names} for y in names] + [
        {x: int(x == y) for x in names} for y in names] + [
        dict.fromkeys(names, 0)]
    return names, ins


def junction(op, f, neg):
    def g(n):
        names, ins = bools(n)
        cs = []
        for j, x in enumerate(names):
            c = [x + " > 0", "0 < %s" % x, "%s == 1" % x, "b%d" % j][j % 4]
            if neg and j % 3 == 1:
                c = "not (%s)" % c
            cs.append(c)
        src = (" %s " % op).join(cs)

        def val(e):
            return int(f(bool(e[x]) != (neg and j % 3 == 1)
                         for j, x in enumerate(names)))
        body = load(names) + ["b%d := v%d != 0" % (j, j) for j in range(n)
                              if j % 4 == 3]
        body += store(("r", "int(%s)" % src)) + [
            "k := %s" % src, io("s") + " = 0", io("t") + " = 0",
            "if %s:\n    %s = 1" % (src, io("s")),
            "if not (%s):\n    %s = 1" % (src, io("t"))]
        body += store(("k", "int(k)"))
        return case(body, ins, [
            {"r": val(e), "s": val(e), "t": 1 - val(e), "k": val(e)}
            for e in ins])
    g.__name__ = op + (" negated" if neg else "")
    return g


for _op, _f in (("and", all), ("or", any)):
    for _neg in (False, True):
        fam("C02", 12, 24)(junction(_op, _f, _neg))


@fam("C02", 12, 24)
def alternating(n):
    """a and (b or (c and (...)))"""
    names, ins = bools(n)
    src = "(%s == 1)" % names[-1]
    for j, x in reversed(list(enumerate(names[:-1]))):
        src = "(%s == 1 %s %s)" % (x, ("and", "or")[j % 2], src)

    def val(e):
        v = bool(e[names[-1]])
        for j, x in reversed(list(enumerate(names[:-1]))):
            v = (bool(e[x]) and v) if j % 2 == 0 else (bool(e[x]) or v)
        return int(v)
    return case(load(names) + store(("r", "int(%s)" % src)), ins,
                [{"r": val(e)} for e in ins])


@fam("C02", 10, 24)
def comparison_chain(n):
    names = V(n + 1)
    base = {x: j for j, x in enumerate(names)}
    ins = [base] + [dict(base, **{x: base[x] + d}) for x in names
                    for d in (-2, 1, 2)]
    ops = ["<", "<=", "!="]
    seq = [ops[j % 3] for j in range(n)]
    src = names[0] + "".join(" %s %s" % p for p in zip(seq, names[1:]))
    fn = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
          "!=": lambda a, b: a != b}
    return case(load(names) + store(("r", "int(%s)" % src)), ins, [
        {"r": int(all(fn[o](e[a], e[b]) for o, a, b in zip(
            seq, names, names[1:])))} for e in ins])


@fam("C02", 12, 24)
def nots(n):
    src = "a > 0"
    for _ in range(n):
        src = "not (%s)" % src
    return case(load("a") + ["b := " + src] + store(
        ("r", "int(%s)" % src), ("s", "int(b)")), [{"a": 1}, {"a": 0}],
        [{"r": n % 2 == 0, "s": n % 2 == 0}, {"r": n % 2, "s": n % 2}])


# -- C03 assignments -----------------------------------------------------------

@fam("C03", 14, 40)
def rotation(n):
    names = V(n + 1)
    ins = two(names)
    body = load(names) + ["t := " + names[0]]
    body += ["%s = %s" % p for p in zip(names, names[1:])] + [
        "%s = t" % names[-1]]
    return case(body + store(*[(x, x) for x in names]), ins, [
        {x: e[names[(j + 1) % (n + 1)]] for j, x in enumerate(names)}
        for e in ins])


@fam("C03", 14, 40)
def swaps(n):
    names = V(n + 1)
    ins = two(names)
    body = load(names) + ["swap(%s, %s)" % p for p in zip(names, names[1:])]
    return case(body + store(*[(x, x) for x in names]), ins, [
        {x: e[names[(j + 1) % (n + 1)]] for j, x in enumerate(names)}
        for e in ins])


@fam("C03", 14, 40)
def aliases(n):
    """References to references, assigned through each of them."""
    body = load("ab") + ["&r0 = a"] + [
        "&r%d = r%d" % (j + 1, j) for j in range(n)]
    body += ["r%d += %d" % (j, j + 1) for j in range(n + 1)]
    body += ["&q%d = %s" % (j, io("q%d" % j)) for j in range(n)]
    body += ["q%d = r%d + %d" % (j, n, j) for j in range(n)]
    t = (n + 1) * (n + 2) // 2
    return case(body + store(("a", "a"), ("b", "b")), [{"a": 5, "b": 9}], [
        dict({"a": 5 + t, "b": 9},
             **{"q%d" % j: 5 + t + j for j in range(n)})])


@fam("C03", 14, 40)
def augmented(n):
    names = V(n + 1)
    ins = two(names)
    body, ops = load(names), ["+=", "-=", "*="]
    body += ["%s %s %s" % (names[0], ops[j % 3], x)
             for j, x in enumerate(names[1:])]

    def val(e):
        a = e[names[0]]
        for j, x in enumerate(names[1:]):
            a = W([a + e[x], a - e[x], a * e[x]][j % 3])
        return a
    return case(body + store(*[(x, x) for x in names]), ins, [
        dict(e, **{names[0]: val(e)}) for e in ins])


# -- C04 if and while ----------------------------------------------------------

@fam("C04", 16, 40)
def elifs(n):
    body = load("a") + ["r := 0", "if a == 0:\n    r += 1\n    a = 1"]
    for j in range(1, n):
        body.append("elif a == %d:\n    r += %d\n    a = %d"
                    % (j, 10 + j, j + 1))
    body.append("else:\n    r += 1000")
    ins = [{"a": j} for j in range(-1, n + 2)]
    return case(body + store(("r", "r")), ins, [
        {"r": 1 if e["a"] == 0 else 10 + e["a"] if 0 < e["a"] < n else 1000}
        for e in ins])


@fam("C04", 14, 40)
def nested_ifs(n):
    body, ind = load("a") + ["r := 0"], ""
    for j in range(n):
        body += [ind + "if a > %d:" % j, ind + "    r += 1"]
        ind += "    "
    for j in reversed(range(n)):
        ind = "    " * j
        body += [ind + "    r += 100", ind + "else:", ind + "    r += 10000"]
    ins = [{"a": j} for j in range(0, n + 2)]
    return case(body + store(("r", "r")), ins, [
        {"r": min(e["a"], n) * 101 + (10000 if e["a"] < n else 0)}
        for e in ins])


@fam("C04", 6, 8)
def nested_whiles(n):
    body, ind = ["r := 0"], ""
    for j in range(n):
        body += [ind + "i%d := 0" % j, ind + "while i%d < 2:" % j]
        ind += "    "
        body += [ind + "i%d += 1" % j]
    body += [ind + "r += 1"]
    return case(body + store(("r", "r")), [{}] * 2, [{"r": 2 ** n}] * 2)


@fam("C04", 14, 40)
def long_while(n):
    """Many statements; each changes the condition."""
    body = load("a") + ["r := 0", "while a > 0:"]
    for j in range(n):
        body += ["    if a == %d:\n        r += %d" % (j + 1, 2 ** (j % 20)),
                 "    a -= 1"]
    ins = [{"a": v} for v in (0, 1, n, n + 1, 2 * n)]

    def run(a):
        r = 0
        while a > 0:
            for j in range(n):
                r += 2 ** (j % 20) if a == j + 1 else 0
                a -= 1
        return r
    return case(body + store(("r", "r"), ("a", "a")), ins, [
        {"r": run(e["a"]), "a": -(-e["a"] % n) if e["a"] > 0 else e["a"]}
        for e in ins])


@fam("C04", 16, 60)
def iterations(n):
    body = load("a") + ["r := 0", "while a > 0 and r < 1000:",
                        "    a -= 1", "    r += 1"]
    return case(body + store(("r", "r")), [{"a": n}], [{"r": n}])


# -- C05, C06 functions --------------------------------------------------------

def functions(inline):
    def params(n):
        """Parameters by position, by name, by default."""
        ps = V(n, "p")
        ds = ["%s: int%s" % (p, " = %d" % (j + 50) if j >= n // 2 else "")
              for j, p in enumerate(ps)]
        sm = " + ".join("%s * %d" % (p, j + 1) for j, p in enumerate(ps))
        defs = ["%sdef f§(%s) -> int:\n    result %s"
                % (inline, comma(ds), sm)]
        names = V(n)
        kw = ["%s=%s" % (p, x) for p, x in zip(ps, names)]
        calls = [comma(names), comma(reversed(kw)),
                 comma(names[:n // 2] + kw[n // 2:][::-1]),
                 comma(names[:n // 2]),
                 comma(names[:n // 2] + kw[n // 2:][::2])]
        ins = two(names)
        body = load(names) + store(
            *[("r%d" % j, "f§(%s)" % c) for j, c in enumerate(calls)])

        def total(vs):
            return sum(v * (j + 1) for j, v in enumerate(vs))
        exp = []
        for e in ins:
            v = [e[x] for x in names]
            d = [j + 50 for j in range(n)]
            h = n // 2
            exp.append({"r0": total(v), "r1": total(v), "r2": total(v),
                        "r3": total(v[:h] + d[h:]),
                        "r4": total(v[:h] + [
                            v[j] if (j - h) % 2 == 0 else d[j]
                            for j in range(h, n)])})
        return case(body, ins, exp, defs)

    def chain(n):
        """Functions that call the one before, twice."""
        defs = ["%sdef f§_0(a: int) -> int:\n    result a + 1" % inline]
        for j in range(1, n + 1):
            defs.append("%sdef f§_%d(a: int) -> int:\n    t := f§_%d(a - 1)\n"
                        "    result t * 2 - %s" % (
                            inline, j, j - 1,
                            "f§_%d(a)" % (j - 1) if n < 7 else "a"))

        def f(j, a):
            if j == 0:
                return a + 1
            return W(f(j - 1, a - 1) * 2 - (f(j - 1, a) if n < 7 else a))
        ins = [{"a": 3}, {"a": -8}]
        return case(load("a") + store(("r", "f§_%d(a)" % n)), ins,
                    [{"r": f(n, e["a"])} for e in ins], defs)

    def calls(n):
        """Many calls in one expression; arguments that are calls."""
        defs = ["%sdef f§(a: int, b: int) -> int:\n    c := a * 2\n"
                "    result c - b" % inline]
        nest = "a"
        for j in range(n):
            nest = "f§(%d, %s)" % (j, nest) if j % 2 else "f§(%s, %d)" % (
                nest, j)
        flat = " - ".join("f§(a, %d)" % j for j in range(n))

        def val(a):
            for j in range(n):
                a = W(2 * j - a if j % 2 else 2 * a - j)
            return a

        def fl(a):
            vs = [2 * a - j for j in range(n)]
            return W(vs[0] - sum(vs[1:]))
        ins = [{"a": 3}, {"a": -8}]
        return case(load("a") + store(("r", nest), ("s", flat)), ins,
                    [{"r": val(e["a"]), "s": fl(e["a"])} for e in ins], defs)

    def results(n):
        defs = ["%sdef f§(a: int) -> int:\n    result 0\n" % inline + "\n".join(
            "    if a > %d:\n        result %d + a" % (j, j * 10)
            for j in range(n))]
        ins = [{"a": j} for j in range(n + 1)]
        return case(load("a") + store(("r", "f§(a)")), ins, [
            {"r": (e["a"] - 1) * 10 + e["a"] if e["a"] else 0}
            for e in ins], defs)
    return params, chain, calls, results


for _f in functions(""):
    fam("C05", 12, 30)(_f)
for _f in functions("inline "):
    fam("C06", 12, 30)(_f)


@fam("C06", 12, 30)
def ports(n):
    """Ports of every kind, in turn."""
    kinds = ["", "&", "const "]
    ps = ["%sp%d: int" % (kinds[j % 3], j) for j in range(n)]
    lines, args, names = [], [], V(n)
    for j in range(n):
        if j % 3 < 2:
            lines.append("    p%d += %d" % (j, j + 1))
        args.append("v%d" % j if j % 3 < 2 else str(j * 3))
    sm = " + ".join("p%d * %d" % (j, j + 1) for j in range(n))
    defs = ["inline def f§(%s) -> int:\n%s\n    result %s" % (
        comma(ps), "\n".join(lines) or "    pass", sm)]
    ins = two(names)
    exp = []
    for e in ins:
        r = sum((j + 1) * (e["v%d" % j] + j + 1 if j % 3 < 2 else j * 3)
                for j in range(n))
        exp.append(dict({"r": r}, **{x: e[x] + (j + 1 if j % 3 == 1 else 0)
                                     for j, x in enumerate(names)}))
    return case(load(names) + store(("r", "f§(%s)" % comma(args)))
                + store(*[(x, x) for x in names]), ins, exp, defs)


@fam("C06", 12, 30)
def reference_chain(n):
    defs = ["inline def f§_0(&a: int):\n    a += 1"]
    defs += ["inline def f§_%d(&b: int) -> &int:\n    f§_%d(b)\n    b *= 2\n"
             "    result b" % (j, j - 1) for j in range(1, n + 1)]
    body = load("a") + ["&r = f§_%d(a)" % n, "r += 100"]
    return case(body + store(("a", "a")), [{"a": 1}, {"a": -5}],
                [{"a": W((v + 1) * 2 ** n) + 100} for v in (1, -5)], defs)


# -- C07 compile time and run time ---------------------------------------------

@fam("C07", 14, 40)
def const_expression(n):
    """The same expression over literals, in a const function, at run time."""
    names = V(n + 1)
    e = two(names)[0]
    e = {k: v or 3 for k, v in e.items()}
    ops = ["+", "-", "*", "/", "%"]
    src = names[0]
    for j, x in enumerate(names[1:]):
        src = "(%s %s %s)" % ((x, "-", src) if j % 4 == 1 else (
            src, ops[(j * 2) % 5], x))

    def f():
        a = e[names[0]]
        for j, x in enumerate(names[1:]):
            b = e[x]
            o = ops[(j * 2) % 5]
            if j % 4 == 1:
                a = b - a
            else:
                a = {"+": lambda: a + b, "-": lambda: a - b,
                     "*": lambda: a * b, "/": lambda: div(a, b),
                     "%": lambda: rem(a, b)}[o]()
            if not -2 ** 31 < a < 2 ** 31:
                return None
        return a
    v = f()
    if v is None:
        return case(["pass"], [], [])
    lit = src
    for x in reversed(names):
        lit = lit.replace(x, "(%d)" % e[x])
    defs = ["const def f§(%s) -> int:\n    result %s" % (
        comma(names), src)]
    return case(load(names) + store(("r", src), ("s", lit), (
        "t", "f§(%s)" % comma(e[x] for x in names))), [e],
        [{"r": v, "s": v, "t": v}], defs)


@fam("C07", 14, 40)
def const_loop(n):
    """The same loop in a const function and in a run-time function."""
    body = ("    i := 0\n    s := 1\n    while i < k:\n        if i % 3 == 1:\n"
            "            s = s * 3 - i\n        else:\n            s += i\n"
            "        i += 1\n    result s")
    defs = ["const def f§(k: int) -> int:\n" + body,
            "def g§(k: int) -> int:\n" + body]
    s = 1
    for i in range(min(n, 30)):
        s = s * 3 - i if i % 3 == 1 else s + i
    n = min(n, 30)
    return case(load("a") + store(("r", "f§(%d)" % n), ("s", "g§(%d)" % n),
                                  ("t", "g§(a)")), [{"a": n}],
                [{"r": s, "s": s, "t": s}], defs)


# -- C10 lists, maps, strings, for ---------------------------------------------

@fam("C10", 24, 60)
def lists(n):
    v = vals(n)
    defs = ["const L§ = {%s}" % comma(v)]
    body = store(*[("r%d" % j, "L§[%d]" % j) for j in range(n)])
    body += store(*[("s%d" % j, "L§[-%d]" % (j + 1)) for j in range(n)])
    body += store(("size", "L§.size()"))
    body += ["t := 0", "for x in L§:\n    t = t * 3 + x",
             "u := 0", "for x in L§.slice(None, None, -1):\n    u = u * 3 + x"]
    body += store(("t", "t"), ("u", "u"))

    def fold(v):
        t = 0
        for x in v:
            t = W(t * 3 + x)
        return t
    exp = {"r%d" % j: v[j] for j in range(n)}
    exp.update({"s%d" % j: v[-1 - j] for j in range(n)})
    exp.update({"size": n, "t": fold(v), "u": fold(v[::-1])})
    return case(body, [{}], [exp], defs)


@fam("C10", 24, 60)
def maps(n):
    v = vals(n)
    keys = ['"k%d"' % j if j % 3 == 0 else str(j) if j % 3 == 1 else
            "{%d, %d}" % (j, n) for j in range(n)]
    defs = ["const M§ = {%s}" % comma(
        "%s: %d" % p for p in zip(keys, v))]
    body = store(*[("r%d" % j, "M§[%s]" % k) for j, k in enumerate(keys)])
    body += store(("size", "M§.size()"), ("no", "M§.get(%d, 77)" % (3 * n)))
    body += ["t := 0", "for k in M§:\n    t = t * 3 + M§[k]"]
    body += store(("t", "t"))
    t = 0
    for x in v:
        t = W(t * 3 + x)
    return case(body, [{}], [dict({"r%d" % j: v[j] for j in range(n)},
                                  size=n, no=77, t=t)], defs)


@fam("C10", 24, 60)
def built_list(n):
    """Built, changed and searched step by step in a const function."""
    defs = ["const def f§(n: int) -> list:\n    l := {0}\n    m := {0: 0}\n"
            "    i := 1\n    while i < n:\n        l.append(i * i)\n"
            "        m.update({i: l[i - 1] + m[i - 1]})\n"
            "        if i % 4 == 0:\n            l.insert(1, i)\n"
            "            l.pop(2)\n"
            "        i += 1\n    s := 0\n    for x in l:\n        s += x\n"
            "    for k in m:\n        s = s + k * m[k]\n"
            "    result {s, l.size(), m.size(), l[-1], m[n - 1]}"]
    l, m = [0], {0: 0}
    for i in range(1, n):
        l.append(i * i)
        m[i] = l[i - 1] + m[i - 1]
        if i % 4 == 0:
            l.insert(1, i)
            l.pop(2)
    s = sum(l) + sum(k * v for k, v in m.items())
    r = [s, len(l), len(m), l[-1], m[n - 1]]
    return case(["const v = f§(%d)" % n] + store(
        *[("r%d" % j, "v[%d]" % j) for j in range(5)]), [{}],
        [{"r%d" % j: x for j, x in enumerate(r)}], defs)


@fam("C10", 8, 12)
def nested_list(n):
    src = "1"
    for j in range(n):
        src = "{%s, %d}" % (src, j + 2)
    defs = ["const L§ = " + src]
    return case(store(("r", "L§" + "[0]" * n)) + store(
        *[("s%d" % j, "L§%s[1]" % ("[0]" * j)) for j in range(n)]), [{}],
        [dict({"r": 1}, **{"s%d" % j: n - j + 1 for j in range(n)})], defs)


@fam("C10", 6, 8)
def nested_fors(n):
    body, ind = ["r := 0"], ""
    for j in range(n):
        body.append(ind + "for x%d in {%d, %d}:" % (j, j, j + 2))
        ind += "    "
    body.append(ind + "r = r * 3 + " + " + ".join(V(n, "x")))
    r = 0
    for p in itertools.product(*[(j, j + 2) for j in range(n)]):
        r = W(r * 3 + sum(p))
    return case(body + store(("r", "r")), [{}], [{"r": r}])


@fam("C10", 24, 60)
def strings(n):
    s = "".join("abcdefghij"[j % 10] for j in range(n))
    pieces = " + ".join('"%s"' % c for c in s)
    inter = "".join("${%d}" % j for j in range(n))
    text = "%s|%s|%s|%s" % (s, s, "".join(map(str, range(n))),
                             s + s + "".join(map(str, range(n))))
    return case(['const a = "%s"' % s, "const b = " + pieces,
                 'const c = "%s"' % inter, 'const d = "${a}${b}${c}"',
                 "/tellraw @a {\"rawtext\":[{\"text\":\"${a}|${b}|${c}|${d}\"}]}"],
                [{}], [{"#log": [["tellraw", [], text]]}])


# -- C11 structures ------------------------------------------------------------

@fam("C11", 14, 40)
def many_fields(n):
    fs = V(n, "f")
    defs = ["struct S§:\n" + "\n".join("    %s: int" % f for f in fs)]
    names = V(n)
    ins = two(names)
    body = load(names) + [
        "s := S§(%s)" % comma("%s=%s" % p for p in zip(fs, names)),
        "t := S§(%s)" % comma("%s=%d" % (f, 100 + j)
                              for j, f in enumerate(fs)),
        "u := s", "swap(s, t)", "u.%s += 1000" % fs[-1]]
    body += store(*[("%s%d" % (x, j), "%s.%s" % (x, f)) for x in "stu"
                    for j, f in enumerate(fs)])
    exp = []
    for e in ins:
        d = {}
        for j, x in enumerate(names):
            d["t%d" % j] = d["u%d" % j] = e[x]
            d["s%d" % j] = 100 + j
        d["u%d" % (n - 1)] += 1000
        exp.append(d)
    return case(body, ins, exp, defs)


@fam("C11", 10, 25)
def struct_chain(n):
    """Every structure extends the one before and holds one of it."""
    defs = ["struct S§_0:\n    f0: int"]
    for j in range(1, n + 1):
        defs.append("struct S§_%d extends S§_%d:\n    f%d: int\n    g%d: S§_%d"
                    % (j, j - 1, j, j, j - 1))
    body = load("a") + ["s := S§_%d()" % n, "t := S§_%d()" % n]
    # fields at the top, and along the chain of nested ones
    path, exp = "", {}
    for j in range(n, -1, -1):
        body.append("s%s.f%d = a + %d" % (path, 0, j))
        if j:
            body.append("s%s.f%d = a * %d" % (path, j, j))
        path += ".g%d" % j
    body += ["t = s"]
    path = ""
    out = []
    for j in range(n, -1, -1):
        out += [("x%d" % j, "t%s.f0" % path)]
        exp["x%d" % j] = ("+", j)
        if j:
            out += [("y%d" % j, "t%s.f%d" % (path, j))]
            exp["y%d" % j] = ("*", j)
        path += ".g%d" % j
        body.append("s%s = s%s" % ("", ""))
    ins = [{"a": 3}, {"a": -4}]
    return case(body + store(*out), ins, [
        {k: e["a"] + j if o == "+" else e["a"] * j
         for k, (o, j) in exp.items()} for e in ins], defs)


@fam("C11", 10, 25)
def struct_variables(n):
    defs = ["struct S§:\n    a: int\n    b: int",
            "def f§(%s) -> S§:\n%s\n    result p0" % (
                comma("p%d: S§" % j for j in range(n)),
                "\n".join("    p0.a += p%d.b" % j for j in range(n)))]
    names = V(n)
    ins = two(names)
    body = load(names) + ["s%d := S§(a=%s, b=%s * 2)" % (j, x, x)
                          for j, x in enumerate(names)]
    body += ["r := f§(%s)" % comma(V(n, "s"))]
    body += store(*[("a%d" % j, "s%d.a" % j) for j in range(n)])
    body += store(("ra", "r.a"), ("rb", "r.b"))
    return case(body, ins, [dict(
        {"a%d" % j: e[x] for j, x in enumerate(names)},
        ra=W(e["v0"] + 2 * sum(e.values())), rb=2 * e["v0"])
        for e in ins], defs)


# -- C12, C13 entities ---------------------------------------------------------

WORLD = [["player", {"name": "p"}]]


@fam("C12", 12, 25)
def entity_fields(n):
    fs = V(n, "f")
    defs = ["entity T§:\n" + "\n".join("    %s: int" % f for f in fs)
            + '\n    new():\n        new("pig", Pos(0, 0, 0))\n'
            + "\n".join("        self.%s = %d" % (f, j)
                        for j, f in enumerate(fs))]
    body = load("a") + ["x := T§()", "y := T§()", "z := x"]
    body += ["z.%s += a" % f for f in fs]
    body += store(*[("%s%d" % (v, j), "%s.%s" % (v, f)) for v in "xy"
                    for j, f in enumerate(fs)])
    return case(body, [{"a": 7}, {"a": -3}], [
        dict({"x%d" % j: j + a for j in range(n)},
             **{"y%d" % j: j for j in range(n)}) for a in (7, -3)],
        defs, world=WORLD)


@fam("C12", 10, 20)
def entity_chain(n):
    """Fields along a chain of templates."""
    defs = ['entity T§_0:\n    f0: int\n    new():\n'
            '        new("pig", Pos(0, 0, 0))\n        self.f0 = 1']
    defs += ["entity T§_%d extends T§_%d:\n    f%d: int\n    new():\n"
             '        new("pig", Pos(0, 0, 0))\n%s' % (
                 j, j - 1, j, "\n".join("        self.f%d = %d" % (k, k + 1)
                                        for k in range(j + 1)))
             for j in range(1, n + 1)]
    body = load("a") + ["x := T§_%d()" % n, "y := T§_0()"]
    body += ["y = x"] + ["x.f%d += a" % j for j in range(n + 1)]
    body += store(*[("x%d" % j, "x.f%d" % j) for j in range(n + 1)])
    body += store(("y", "y.f0"))
    return case(body, [{"a": 7}], [dict(
        {"x%d" % j: j + 8 for j in range(n + 1)}, y=8)], defs, world=WORLD)


@fam("C12", 12, 25)
def entity_variables(n):
    """Names passed around."""
    defs = ['entity T§:\n    f: int\n    new(k: int):\n'
            '        new("pig", Pos(0, 0, 0))\n        self.f = k']
    body = ["e%d := T§(%d)" % (j, j) for j in range(n + 1)] + ["t := e0"]
    body += ["e%d = e%d" % (j, j + 1) for j in range(n)] + ["e%d = t" % n]
    body += ["e%d.f += 100" % j for j in range(0, n + 1, 2)]
    body += store(*[("r%d" % j, "e%d.f" % j) for j in range(n + 1)])
    return case(body, [{}, {}], [
        {"r%d" % j: (j + 1) % (n + 1) + (100 if j % 2 == 0 else 0)
         for j in range(n + 1)}] * 2, defs, world=WORLD)


def _virtual(n, base):
    """Templates that all override one method; base(j) is the parent of j."""
    defs = ['entity T§_0:\n    new():\n        new("pig", Pos(0, 0, 0))\n'
            "    virtual def f(a: int) -> int:\n        result a"]
    for j in range(1, n + 1):
        m = ("    override def f(a: int) -> int:\n        result a * %d + %d"
             % (j + 1, j)) if j % 3 != 2 else "    k%d: int" % j
        defs.append("entity T§_%d extends T§_%d:\n%s" % (j, base(j), m))

    def impl(j):
        while j and j % 3 == 2:
            j = base(j)
        return j
    body = load("a") + ["x := T§_0()"]
    exp = {}
    for j in range(n + 1):
        body += ["e%d := T§_%d()" % (j, j), "x = e%d" % j]
        body += store(("r%d" % j, "x.f(a)"))
        exp["r%d" % j] = impl(j)
    ins = [{"a": 5}, {"a": -2}]
    return case(body, ins, [
        {k: e["a"] * (j + 1) + j if j else e["a"] for k, j in exp.items()}
        for e in ins], defs, world=WORLD)


@fam("C13", 12, 24)
def virtual_chain(n):
    return _virtual(n, lambda j: j - 1)


@fam("C13", 12, 24)
def virtual_wide(n):
    return _virtual(n, lambda j: 0)


@fam("C13", 12, 24)
def virtual_tree(n):
    return _virtual(n, lambda j: (j - 1) // 2)


@fam("C13", 12, 24)
def many_methods(n):
    """Virtual, plain and static methods next to each other."""
    kind = ["virtual def", "def", "static def", "virtual inline def"]
    over = ["override def", "def", "static def", "override inline def"]

    def methods(ks, c):
        return "\n".join("    %s m%d(a: int) -> int:\n        result a * %d + "
                         "%d" % (ks[j % 4], j, j + 1, c) for j in range(n))
    defs = ['entity A§:\n    new():\n        new("pig", Pos(0, 0, 0))\n'
            + methods(kind, 0)]
    ok = [j for j in range(n)]
    defs += ["entity B§ extends A§:\n" + methods(over, 7)]
    body = load("a") + ["x := A§()", "y := B§()", "z := A§()", "z = y"]
    exp = {}
    for j in ok:
        for v, c in (("x", 0), ("y", 7), ("z", 7 if j % 4 in (0, 3) else 0)):
            body += store(("%s%d" % (v, j), "%s.m%d(a)" % (v, j)))
            exp["%s%d" % (v, j)] = (j, c)
    return case(body, [{"a": 4}], [
        {k: 4 * (j + 1) + c for k, (j, c) in exp.items()}],
        defs, world=WORLD)


@fam("C13", 8, 16)
def many_bases(n):
    defs = ['entity O§:\n    new():\n        new("pig", Pos(0, 0, 0))\n'
            '    def m(a: int) -> int:\n        result a']
    for j in range(n):
        defs.append("entity B§_%d extends O§:\n    def b%d(a: int) -> int:\n"
                    "        result a + %d\n%s" % (
                        j, j, j, "    def m(a: int) -> int:\n        result a "
                        "+ %d" % (100 + j) if j == n // 2 else ""))
    defs.append("entity C§ extends %s:\n    pass" % comma(
        "B§_%d" % j for j in range(n)))
    body = load("a") + ["c := C§()"] + store(
        *[("r%d" % j, "c.b%d(a)" % j) for j in range(n)]) + store(
        ("m", "c.m(a)"))
    return case(body, [{"a": 4}], [dict(
        {"r%d" % j: 4 + j for j in range(n)}, m=104 + n // 2)],
        defs, world=WORLD)


# -- C14, C15 groups and filters -----------------------------------------------

@fam("C14", 12, 25)
def members(n):
    defs = ['entity T§:\n    f: int\n    new(k: int):\n'
            '        new("pig", Pos(0, 0, 0))\n        self.f = k']
    body = ["g := Engroup[T§]()", "h := Engroup[T§]()", "g.clear()",
            "h.clear()"]
    body += ["e%d := T§(%d)" % (j, 2 ** (j % 25)) for j in range(n)]
    body += ["g.add(e%d)" % j for j in range(n)]
    body += ["h.add(e%d)" % j for j in range(0, n, 2)]
    body += store(("g", "g.size()"), ("h", "h.size()"))
    body += ["s := 0", "for e in g:\n    s += e.f",
             "k := g.copy()", "k.subtract(h)",
             "t := 0", "for e in k:\n    t += e.f", "k.extend(h)"]
    body += store(("s", "s"), ("t", "t"), ("k", "k.size()"))
    body += ["g.remove(e%d)" % j for j in range(1, n, 2)]
    body += ["u := 0", "for e in g:\n    u += e.f"]
    body += store(("u", "u"))
    f = [2 ** (j % 25) for j in range(n)]
    return case(body, [{}, {}], [
        {"g": n, "h": (n + 1) // 2, "s": sum(f), "t": sum(f[1::2]), "k": n,
         "u": sum(f[::2])}] * 2, defs, world=WORLD)


@fam("C14", 12, 25)
def many_groups(n):
    defs = ['entity T§:\n    f: int\n    new(k: int):\n'
            '        new("pig", Pos(0, 0, 0))\n        self.f = k']
    body = ["x := T§(1)", "y := T§(2)"]
    for j in range(n):
        body += ["g%d := Engroup[T§]()" % j, "g%d.clear()" % j,
                 "g%d.add(%s)" % (j, "xy"[j % 2])]
    body += ["g%d.extend(g%d)" % (j, j + 1) for j in range(0, n - 1, 3)]
    exp = {}
    for j in range(n):
        m = {j % 2} | ({1 - j % 2} if j % 3 == 0 and j < n - 1 else set())
        body += store(("s%d" % j, "g%d.size()" % j),
                      ("x%d" % j, "int(g%d.has(x))" % j),
                      ("y%d" % j, "int(g%d.has(y))" % j))
        exp.update({"s%d" % j: len(m), "x%d" % j: int(0 in m),
                    "y%d" % j: int(1 in m)})
    return case(body, [{}, {}], [exp] * 2, defs, world=WORLD)


@fam("C15", 12, 25)
def steps(n):
    """n tags required or forbidden in turn; one mob for every way to fail."""
    f = "Enfilter()" + "".join(
        '.has_tag("t%d")' % j if j % 2 == 0 else '.has_no_tag("t%d")' % j
        for j in range(n))

    def tags(k):
        return ["t%d" % j for j in range(n) if (j % 2 == 0) != (j == k)]
    world = [["pig", {"name": "m%d" % k, "tags": tags(k)}] for k in range(n)]
    world += [["pig", {"name": "all", "tags": tags(-1)}]]
    body = ["g := Engroup[Entity]()", "g.clear()", "g.select(%s)" % f]
    return case(body + store(("n", "g.size()")) + [
        "for e in g:\n    /tag ${e} add ok"],
        [{}], [{"n": 1, "#tags:ok": ["all"]}], world=world)


@fam("C15", 8, 20)
def limits(n):
    """Limits in a row: nearest n, of these the farthest n - 1, ..."""
    world = [["player", {"name": "p", "pos": (0, 0, 0)}]] + [
        ["pig", {"name": "m%d" % j, "pos": (j + 1, 0, 0)}]
        for j in range(2 * n)]
    f = 'Enfilter().is_type("pig")'
    left = list(range(2 * n))
    for j in range(n):
        k = 2 * n - 1 - j
        if j % 2:
            f += ".farthest_from(Pos(0, 0, 0), %d)" % k
            left = left[-k:]
        else:
            f += ".nearest_from(Pos(0, 0, 0), %d)" % k
            left = left[:k]
    body = ["g := Engroup[Entity]()", "g.clear()", "g.select(%s)" % f,
            "for e in g:\n    /tag ${e} add ok"] + store(("n", "g.size()"))
    return case(body, [{}], [{"n": len(left), "#tags:ok": sorted(
        "m%d" % j for j in left)}], world=world, ctx="p")


# -- C24 printing --------------------------------------------------------------

PRINT = "from print import tell, format, with_font, title"


def told(*texts):
    return [["tellraw", [], t] for t in texts]


def prints(n, lines, texts, ins, defs=()):
    return case(["import print"] + lines, ins,
                [{"#log": told(*t)} for t in texts], defs)


@fam("C24", 24, 60)
def format_arguments(n):
    names = V(n)
    ins = two(names)
    if n > 10:
        pat = "".join("<%%{%d}>" % j for j in range(n))
    else:
        pat = "".join("<%%%d>" % j for j in range(n))
    back = "".join("%%{%d}" % j for j in reversed(range(n)))
    kw = "".join("%%{k%d}," % j for j in range(n))
    return prints(n, load(names) + [
        'print.tell(print.format("%s", %s))' % (pat, comma(names)),
        'print.tell(print.format("%s", %s))' % (back, comma(
            '"%s"' % x if j % 2 else x for j, x in enumerate(names))),
        'print.tell(print.format("%s", %s))' % (kw, comma(
            "k%d=%s" % (j, x) for j, x in reversed(list(enumerate(names)))))],
        [["".join("<%d>" % e[x] for x in names),
          "".join(x if j % 2 else str(e[x])
                  for j, x in reversed(list(enumerate(names)))),
          "".join("%d," % e[x] for x in names)] for e in ins], ins)


@fam("C24", 24, 60)
def nested_formats(n):
    names = V(n)
    ins = two(names)
    src, total = '""', '""'
    for x in names:
        src = 'print.format("(%%0 %%1)", %s, %s)' % (x, src)
        total = '%s + print.format("%%0;", %s)' % (total, x)

    def t(e):
        s = ""
        for x in names:
            s = "(%d %s)" % (e[x], s)
        return s
    return prints(n, load(names) + ["print.tell(%s)" % src,
                                    "print.tell(%s)" % total],
                  [[t(e), "".join("%d;" % e[x] for x in names)]
                   for e in ins], ins)


@fam("C24", 12, 30)
def nested_fonts(n):
    """Every font around all the inner ones."""
    cs = [("red", "c"), ("blue", "9"), ("gold", "6"), ("green", "a")]
    src, parts = '"x"', [("x", None)]
    for j in range(n):
        name, code = cs[j % 4]
        src = ('print.with_font(print.format("a%%0b", %s), color="%s")'
               % (src, name))
        parts = [("a", None)] + parts + [("b", None)]
        parts = [(t, c or code) for t, c in parts]
    return case(["import print", "print.tell(%s)" % src], [{}],
                [{"#styled": [list(p) for p in merge(parts)]}])


def merge(parts):
    out = []
    for t, c in parts:
        if out and out[-1][1] == c:
            out[-1] = (out[-1][0] + t, c)
        else:
            out.append((t, c))
    return out


def styled(w):
    """The last text told, as runs of one colour."""
    text = w.log[-1][2]
    out, cur, i = [], None, 0
    while i < len(text):
        if text[i] == "\xa7":
            cur = None if text[i + 1] == "r" else text[i + 1]
            i += 2
        else:
            out.append((text[i], cur))
            i += 1
    return [list(p) for p in merge(out)]


cases.OBSERVERS["#styled"] = styled


# -- C25 math ------------------------------------------------------------------

@fam("C25", 16, 40)
def extremes(n):
    names = V(n + 1)
    base = two(names)
    ins = base + [dict.fromkeys(names, 3)] + [
        {x: (9 if x == y else 1) for x in names} for y in names]
    lits = [x if j % 2 else str(j) for j, x in enumerate(names)]

    def lv(e):
        return [e[x] if j % 2 else j for j, x in enumerate(names)]
    return case(["import math"] + load(names) + store(
        ("a", "math.min(%s)" % comma(names)),
        ("b", "math.max(%s)" % comma(names)),
        ("c", "math.min(%s)" % comma(lits)),
        ("d", "math.max(%s)" % comma(lits)),
        ("e", "math.max(%s)" % comma(range(n + 1)))), ins, [
        {"a": min(e.values()), "b": max(e.values()), "c": min(lv(e)),
         "d": max(lv(e)), "e": n} for e in ins])


@fam("C25", 34, 70)
def powers(n):
    ins = [{"a": 2}, {"a": -3}, {"a": 0}, {"a": 1}]
    body = ["import math"] + load("a") + ["e := %d" % n] + store(
        ("r", "math.pow(a, %d)" % n), ("s", "math.pow(a, e)"),
        ("t", "math.pow(3, e)"))
    return case(body, ins, [{"r": W(e["a"] ** n), "s": W(e["a"] ** n),
                             "t": W(3 ** n)} for e in ins])


# -- C26 places ----------------------------------------------------------------

@fam("C26", 16, 40)
def offsets(n):
    """Chains of steps, each changing a single coordinate."""
    src, p = "Pos(0, 0, 0)", [0.5, 0.0, 0.5]
    for j in range(n):
        k = j % 3
        d = [0, 0, 0]
        d[k] = j + 1
        src += ".apply(Offset().offset(%s))" % comma(d) if j % 2 else \
            ".offset(%s)" % comma(d)
        p[k] += j + 1
    off = "Offset()" + "".join(".offset(%d, %d, %d)" % (1, j, -j)
                               for j in range(n))
    s = n - 1.0     # each sets the coordinate anew
    world = [["pig", {"name": "m"}], ["cow", {"name": "c"}]]
    body = ["import world"]
    for t, at in (("pig", src), ("cow", "Pos(0, 0, 0).apply(%s)" % off)):
        body += ["%s := Engroup[Entity]()" % t, "%s.clear()" % t,
                 '%s.select(Enfilter().is_type("%s"))' % (t, t),
                 "world.tp(%s, %s)" % (t, at)]
    return case(body, [{}], [{"#ents": sorted([
        ["pig", "m", p, "overworld"],
        ["cow", "c", [1.5, s, 0.5 - s], "overworld"]],
        key=repr)}], world=world)


# -- C28 names -----------------------------------------------------------------

@fam("C28", 12, 30)
def nested_scopes(n):
    """One name in n nested loops, each with its own, read on the way out."""
    body, ind = ["x := 0"], ""
    for j in range(1, n + 1):
        body += [ind + "for i%d in {%d}:" % (j, j)]
        ind += "    "
        body += [ind + "x := %d" % j]
    for j in range(n, 0, -1):
        ind = "    " * j
        body += [ind + "x += 100", ind + "%s = x" % io("r%d" % j)]
    body += ["x += 100"] + store(("r0", "x"))
    return case(body, [{}, {}], [
        {"r%d" % j: 100 + j for j in range(n + 1)}] * 2)


@fam("C28", 16, 40)
def many_names(n):
    """Names that share their beginnings, as variables, constants, functions,
    aliases."""
    ns = ["a" * (j + 1) for j in range(n)]
    body, exp = [], {}
    for j, x in enumerate(ns):
        body.append(["%s := %d" % (x, j), "const %s = %d" % (x, j),
                     "&%s = %s" % (x, ns[j - 1] if j % 4 == 2 and j > 2
                                   else io("q%d" % j)),
                     "inline def %s() -> const int:\n    result %d" % (x, j)
                     ][j % 4 if j % 4 != 2 else 0])
    for j, x in enumerate(ns):
        body += store(("r%d" % j, x + "()" if j % 4 == 3 else x))
        exp["r%d" % j] = j
    return case(body, [{}, {}], [exp] * 2)


@fam("C28", 12, 30)
def inline_scopes(n):
    """Inline functions that call each other, all with the same names."""
    defs = ["x§ := 1000",
            "inline def f§_0(a: int) -> int:\n    b := a + x§\n    result b"]
    defs += ["inline def f§_%d(a: int) -> int:\n    b := a + 1\n"
             "    a = f§_%d(b)\n    result a * 2 + b" % (j, j - 1)
             for j in range(1, n + 1)]

    def f(j, a):
        if j == 0:
            return a + 1000
        b = a + 1
        return W(f(j - 1, b) * 2 + b)
    body = load("a") + ["b := 5"] + store(("r", "f§_%d(a)" % n), ("b", "b"),
                                          ("a", "a"))
    return case(body, [{"a": 3}], [{"r": f(n, 3), "b": 5, "a": 3}], defs)


# -- C30 templates -------------------------------------------------------------

def ladder(n, first, last, good):
    """A chain of n templates: members at the first and at the last one."""
    src = ["entity T§_0:\n    " + first]
    for j in range(1, n):
        src.append("entity T§_%d extends T§_%d:\n    pass" % (j, j - 1))
    src.append("entity T§_%d extends T§_%d:\n    %s" % (n, n - 1, last))
    return case(["pass"], [], [], src, want="ok" if good else "error")


LADDERS = [
    ("virtual def m() -> int:\n        result 1",
     "override def m() -> int:\n        result 2", True),
    ("virtual def m() -> int:\n        result 1",
     "override def m() -> bool:\n        result True", False),
    ("virtual def m() -> int:\n        result 1",
     "virtual def m() -> int:\n        result 1", False),
    ("virtual def m() -> int:\n        result 1",
     "def m() -> int:\n        result 1", False),
    ("virtual def m() -> int:\n        result 1",
     "static def m() -> int:\n        result 1", False),
    ("def m() -> int:\n        result 1",
     "override def m() -> int:\n        result 1", False),
    ("def m() -> int:\n        result 1",
     "def m() -> bool:\n        result True", True),
    ("m: int", "m: int", False), ("m: int", "k: int", True),
    ("m: int", "def m():\n        pass", False),
    ("def m():\n        pass", "m: int", False),
    ("pass", "override def m():\n        pass", False),
    ("static def m():\n        pass", "static def m():\n        pass", True),
    ("static def m():\n        pass", "def m():\n        pass", False),
]
for _k, (_a, _b, _g) in enumerate(LADDERS):
    _f = (lambda a, b, g: lambda n: ladder(n, a, b, g))(_a, _b, _g)
    _f.__name__ = "ladder %d" % _k
    fam("C30", 8, 24)(_f)


# -- C16, C17, C23: projects ---------------------------------------------------
# case["project"] = {file: text}; case["steps"] = interfaces or "#tick" to run
# one after another, with the scores expected after each of them.

def project(files, steps, expect, only=None):
    return {"project": files, "steps": steps, "expect": expect, "body": [],
            "inputs": [], "only": only}


def run_project(c, key, st, cfg=None):
    import json
    from . import core
    out = core.compile_files(c["project"], cfg=cfg)
    st.programs += 1
    if not out.ok:
        return "refused: %s" % (out.error or out.crash)
    prog = mc.Program(out.files)
    bad = cases.check_output(prog)
    if bad:
        return bad
    if c["only"] is not None:
        got = sorted(p for p in out.files if not p.startswith("_acacia/"))
        if got != sorted(c["only"]):
            return "files %s instead of %s" % (got, sorted(c["only"]))
    w = cases.base_world(prog, cfg)
    ticks = json.loads(out.extra["tick.json"])["values"] \
        if "tick.json" in out.extra else []
    for k, (step, exp) in enumerate(zip(c["steps"], c["expect"])):
        st.states += 1
        if step == "#tick":
            for t in ticks:
                prog.run(w, t)
        elif step != "main":        # has run
            prog.run(w, step)
        st.transitions += w.ncmds
        if w.faults:
            return "step %d (%s): %s" % (k, step, w.faults[0])
        got = {x: w.scores["io"].get(x) for x in exp}
        st.outcome(repr(got))
        if got != exp:
            return "step %d (%s): %s instead of %s" % (k, step, {
                x: got[x] for x in exp if got[x] != exp[x]}, {
                x: exp[x] for x in exp if got[x] != exp[x]})


def batch_projects(chunk, st):
    from . import core
    for item in chunk:
        prop, name, n = item
        c = FAM[prop][name][0](n)
        bad = run_project(c, name, st)
        if bad:
            st.violations.append(core.Violation({
                "kind": "sizes", "key": "size %d of %s" % (n, name),
                "what": "%s\n%s" % (bad, "\n".join(
                    "--- %s\n%s" % p for p in sorted(c["project"].items()))),
                "item": list(item)}))


def replay(v):
    from . import core
    prop, name, n = v["item"]
    r = run_project(FAM[prop][name][0](n), name, core.Stats())
    print(r or "no violation")
    return int(bool(r))


@fam("C16", 14, 30)
def module_chain(n):
    """Every module imports the next, and all those after the next."""
    files = {}
    for j in range(n):
        later = range(j + 1, n)
        files["m%d.aca" % j] = "".join("import m%d\n" % k for k in later) + (
            "%s += 1\n%s = %s\nv := %d\ndef f() -> int:\n    result v%s\n" % (
                io("n"), io("at%d" % j), io("n"), 2 ** (j % 20),
                " + m%d.f()" % (j + 1) if j < n - 1 else ""))
    files["main.aca"] = "%s = 0\nimport m0\n%s = m0.f()\n" % (
        io("n"), io("r"))
    return project(files, ["main"], [dict(
        {"at%d" % j: n - j for j in range(n)}, n=n,
        r=sum(2 ** (j % 20) for j in range(n)))])


@fam("C16", 14, 30)
def many_importers(n):
    """All share the state of one module."""
    files = {"s.aca": "v := 1\n%s += 1\n" % io("runs")}
    for j in range(n):
        files["p%d/m.aca" % j] = (
            "import s\ndef up():\n    s.v = s.v * 2\n" if j % 2 else
            "from s import v as w\ndef up():\n    w += 3\n")
    main = ["%s = 0" % io("runs")] + [
        "import p%d.m as m%d" % (j, j) for j in range(n)] + ["import s"]
    main += ["m%d.up()" % j for j in range(n)] + store(("v", "s.v"))
    v = 1
    for j in range(n):
        v = W(v * 2 if j % 2 else v + 3)
    files["main.aca"] = "\n".join(main) + "\n"
    return project(files, ["main"], [{"runs": 1, "v": v}])


@fam("C16", 14, 30)
def many_exports(n):
    """Names taken one by one, renamed, and all together."""
    names = ["a%d" % j for j in range(n)]
    mod = "".join("%s := %d\n_%s := 0\n" % (x, j, x)
                  for j, x in enumerate(names))
    pick = "from m import %s\n" % comma(
        "%s as b%d" % (x, j) if j % 2 else x for j, x in enumerate(names))
    main = pick + "\n".join(store(
        *[("p%d" % j, "b%d" % j if j % 2 else x)
          for j, x in enumerate(names)]))
    star = "from m import *\ndef get() -> int:\n    result %s\n" % " + ".join(
        names)
    return project(
        {"m.aca": mod, "k.aca": star, "main.aca": main + "\nimport k\n"
         "%s = k.get()\n" % io("sum")}, ["main"],
        [dict({"p%d" % j: j for j in range(n)}, sum=n * (n - 1) // 2)])


@fam("C16", 12, 20)
def deep_packages(n):
    files = {"main.aca": "import %s.m\nfrom %s.m import f as g\n%s = m.f()\n"
             "%s = g()\n" % (".".join(V(n, "p")), ".".join(V(n, "p")),
                             io("r"), io("s"))}
    files["main.aca"] = files["main.aca"].replace(
        ".m\nfrom", ".m as m\nfrom")
    for j in range(n + 1):
        files["/".join(V(j, "p") + ["m.aca"])] = (
            "def f() -> int:\n    result %d\n" % j)
    return project(files, ["main"], [{"r": n, "s": n}])


@fam("C17", 24, 60)
def many_interfaces(n):
    """Paths of growing number and depth; each is called twice."""
    paths = ["/".join(["d%d" % (j % 3)] * (j % 5) + ["i%d" % j])
             for j in range(n)]
    src, steps, exp = "x := 0\n", [], []
    for j, p in enumerate(paths):
        src += "interface %s:\n    x += %d\n    %s = x\n" % (
            p if j % 2 else '"%s"' % p, j + 1, io("x"))
    x = 0
    for j in list(range(n)) + list(reversed(range(n))):
        x += j + 1
        steps.append(paths[j])
        exp.append({"x": x})
    return project({"main.aca": src}, steps, exp, ["main"] + paths)


@fam("C17", 16, 40)
def interfaces_in_modules(n):
    files = {"main.aca": "".join("import m%d\n" % j for j in range(n))
             + "".join("interface main%d:\n    m%d.up()\n" % (j, j)
                       for j in range(n))}
    for j in range(n):
        files["m%d.aca" % j] = (
            "v := %d\ndef up():\n    v += 10\n    %s = v\n"
            "interface mod%d/a:\n    up()\n" % (j, io("v"), j))
    steps, exp = [], []
    for j in range(n):
        steps += ["main%d" % j, "mod%d/a" % j]
        exp += [{"v": j + 10}, {"v": j + 20}]
    return project(files, steps, exp)


@fam("C23", 12, 24)
def many_tasks(n):
    """Task j waits j ticks; loop j runs every j + 1 ticks."""
    src = "import schedule\n"
    for j in range(n):
        src += ("def t%d(k: int):\n    %s += k\n"
                "def l%d():\n    %s += 1\n"
                "const T%d = schedule.Task(t%d, %d)\n"
                "schedule.register_loop(l%d, %d)\n" % (
                    j, io("t%d" % j), j, io("l%d" % j), j, j, j + 1, j,
                    j + 1))
    src += "\n".join("%s = 0" % io(x) for x in V(n, "t") + V(n, "l")) + "\n"
    src += "interface go:\n" + "".join("    T%d.after(%d)\n" % (j, j)
                                       for j in range(n))
    src += "interface stop:\n" + "".join("    T%d.cancel()\n" % j
                                         for j in range(0, n, 2))
    steps, exp = ["go"], [{}]
    for k in range(1, 2 * n + 3):
        steps.append("#tick")
        exp.append(dict(
            {"t%d" % j: (j + 1) * (k >= j + 1) for j in range(n)}))
    at = n // 2
    steps += ["go"] + ["#tick"] * at + ["stop"] + ["#tick"] * (n + 1)
    exp += [{}] * (1 + at + 1 + n)
    exp += [{"t%d" % j: (j + 1) * (1 if j % 2 == 0 and j >= at else 2)
             for j in range(n)}]
    return project({"main.aca": src}, steps, exp)


@fam("C23", 12, 24)
def long_delays(n):
    """Delays and intervals beyond a digit, read when they count."""
    src = ("import schedule\nd := %d\ndef f():\n    %s += 1\n"
           "const T = schedule.Task(f)\n%s = 0\n%s = 0\n"
           "def g():\n    %s += 1\n"
           "schedule.register_loop(g, %d)\n"
           "interface go:\n    T.after(d * 3)\n" % (
               n, io("f"), io("f"), io("g"), io("g"), n * 3))
    steps = ["go"] + ["#tick"] * (6 * n + 2)
    exp = [{}] + [{"f": int(k > 3 * n)} for k in range(1, 6 * n + 3)]
    # the loop: equal distances of 3 n ticks
    return project({"main.aca": src}, steps, exp)


def check_projects(chk):
    its = items(chk.id, chk.thorough)
    chk.bounds["growing projects"] = "%d shapes, every size up to %s" % (
        len(FAM[chk.id]), max(max(t if chk.thorough else q)
                              for _, q, t in FAM[chk.id].values()))
    chk.map(ME, "batch_projects", its, 6)


def extend(chk):
    """The growing shapes of a property, after its own families."""
    if chk.id == "C08":
        check_cfg(chk)
    elif chk.id in ("C16", "C17", "C23"):
        check_projects(chk)
    elif chk.id in FAM:
        check(chk)
