"""C28: every name means the definition its place prescribes.

All programs of up to a number of statements from an alphabet of definitions,
assignments, references, calls and blocks over two names, against a reference
resolver: either the program is refused, with the right error at the right
statement, or every read yields the value of the right definition when run.

Part 2: the same inside a constant function, whose surroundings hold a
constant, a variable or nothing of the name, and a parameter or none."""
import itertools
import re

from .. import core, mc

ME = __name__

# kinds of statement: (kind, names...) ; blocks: (kind, name or None, body)
LEAVES1 = ("D", "W", "U", "R", "C", "E", "V", "M", "S")
LEAVES2 = ("A", "Y", "Q")
BLOCKS1 = ("F", "I", "L")
BLOCKS0 = ("K", "B")


class Refused(Exception):
    def __init__(self, types, node):
        super().__init__(types)
        self.types = types
        self.node = node


class Cell:
    n = 0

    def __init__(self, v=None):
        self.v = v


class Scope:
    def __init__(self, outer=None):
        self.d = {}
        self.outer = outer

    def find(self, n):
        s = self
        while s is not None:
            if n in s.d:
                return s.d[n]
            s = s.outer
        return ("builtin",) if n in ("Pos", "int") else None


class Node:
    """Statement with its number"""
    __slots__ = ("k", "n", "m", "body", "id", "probes", "line")

    def __init__(self, k, n=None, m=None, body=None):
        self.k, self.n, self.m, self.body = k, n, m, body
        self.probes = ()


def build(t, ids):
    k = t[0]
    if k in BLOCKS1 or k in BLOCKS0:
        nd = Node(k, t[1])
        nd.id = next(ids)
        nd.body = [build(x, ids) for x in t[2]]
    else:
        nd = Node(k, t[1], t[2] if len(t) > 2 else None)
        nd.id = next(ids)
    return nd


class Ref:
    """Reference: resolves names and yields the code to run"""

    def __init__(self, nodes):
        self.top = nodes
        self.interfaces = []
        self.endprobes = ()
        self.static = 0

    def compile(self):
        self.scope = Scope()
        self.depth = 0
        code, _ = self.block(self.top, self.scope, True)
        self.endprobes = self.readable(self.scope)
        return code + self.probe("top", self.endprobes, self.scope)

    def readable(self, scope):
        return tuple(n for n in self.names if (scope.find(n) or ("",))[0]
                     in ("var", "const"))

    def probe(self, tag, names, scope):
        res = []
        for n in names:
            res.append(("put", "p%s%s" % (tag, n), scope.find(n)))
        return res

    def define(self, scope, nd, b):
        if nd.n in scope.d:
            raise Refused("SHADOWED_NAME", nd)
        scope.d[nd.n] = b

    def get(self, scope, n, nd):
        b = scope.find(n)
        if b is None:
            raise Refused("NAME_NOT_DEFINED", nd)
        return b

    def block(self, nodes, scope, probes):
        code = []
        for nd in nodes:
            code += self.stmt(nd, scope, probes)
        return code, scope

    def call(self, b, nd):
        """-> code, result binding"""
        if b[0] == "builtin":
            raise Refused("*", nd)
        if b[0] == "struct":
            return [], ("obj",)
        if b[0] == "fun":
            return [("run", b[1])], ("none",)
        if b[0] == "inline":
            self.depth += 1
            if self.depth > 6:
                raise Refused("*", nd)
            code, _ = self.block(b[1].body, Scope(b[2]), False)
            self.depth -= 1
            return code, ("none",)
        raise Refused("UNCALLABLE", nd)

    def stmt(self, nd, scope, probes):
        k, n, m = nd.k, nd.n, nd.m
        v = nd.id * 10 + 7
        if k == "D":
            c = Cell()
            self.define(scope, nd, ("var", c))
            return [("set", c, v)]
        if k in ("W", "U"):
            b = self.get(scope, n, nd)
            if b[0] != "var":
                raise Refused("INVALID_ASSIGN_TARGET", nd)
            return [("set" if k == "W" else "add", b[1], v)]
        if k == "R":
            b = self.get(scope, n, nd)
            if b[0] not in ("var", "const"):
                raise Refused("WRONG_ASSIGN_TYPE", nd)
            return [("put", "h%d" % nd.id, b)]
        if k == "C":
            self.define(scope, nd, ("const", v))
            return []
        if k == "M":
            self.define(scope, nd, ("module",))
            return []
        if k == "S":
            self.define(scope, nd, ("struct",))
            return []
        if k == "A":
            b = self.get(scope, m, nd)
            if b[0] == "obj":
                self.define(scope, nd, b)
                return []
            if b[0] != "var":
                raise Refused("CANT_REF", nd)
            self.define(scope, nd, b)
            return []
        if k == "Y":
            b = self.get(scope, m, nd)
            if b[0] == "obj":
                self.define(scope, nd, ("obj",))
                return []
            if b[0] not in ("var", "const"):
                raise Refused("UNSUPPORTED_VAR_TYPE", nd)
            c = Cell()
            self.define(scope, nd, ("var", c))
            return [("copy", c, b)]
        if k == "Q":
            b = self.get(scope, m, nd)
            if b[0] in ("var", "obj"):
                raise Refused("NOT_CONST", nd)
            self.define(scope, nd, b)
            return []
        if k in ("E", "V"):
            b = self.get(scope, n, nd)
            code, r = self.call(b, nd)
            if k == "V":
                raise Refused("WRONG_ASSIGN_TYPE", nd)
            return code
        if k == "B":
            return self.block(nd.body, scope, probes)[0]
        if k == "L":
            code = []
            for i in (1, 2):
                s = Scope(scope)
                s.d[n] = ("const", v + i)
                c, _ = self.block(nd.body, s, probes)
                code += c
                if probes:
                    nd.probes = self.readable(s)
                    code += self.probe(nd.id, nd.probes, s)
            return code
        if k == "F":
            s = Scope(scope)
            code, _ = self.block(nd.body, s, probes)
            if probes:
                nd.probes = self.readable(s)
                code += self.probe(nd.id, nd.probes, s)
            self.define(scope, nd, ("fun", code))
            return []
        if k == "I":
            self.define(scope, nd, ("inline", nd, scope))
            return []
        if k == "K":
            if self.depth and nd in self.done:
                raise Refused("DUPLICATE_INTERFACE", nd)
            self.done.append(nd)
            if any(x is nd for x in self.done[:-1]):
                raise Refused("DUPLICATE_INTERFACE", nd)
            s = Scope(scope)
            code, _ = self.block(nd.body, s, probes)
            if probes:
                nd.probes = self.readable(s)
                code += self.probe(nd.id, nd.probes, s)
            self.interfaces.append((nd, code))
            return []
        raise AssertionError(k)


def execute(code, io):
    for c in code:
        if c[0] == "set":
            c[1].v = c[2]
        elif c[0] == "add":
            c[1].v = None if c[1].v is None else c[1].v + c[2]
        elif c[0] == "copy":
            c[1].v = val(c[2])
        elif c[0] == "put":
            io[c[1]] = val(c[2])
        else:
            execute(c[1], io)


def val(b):
    return b[1].v if b[0] == "var" else b[1]


def write(nodes, out, ind, end=None):
    """source lines; nd.line is set"""
    p = "    " * ind
    for nd in nodes:
        k, n, m, v = nd.k, nd.n, nd.m, nd.id * 10 + 7
        nd.line = len(out) + 1
        simple = {
            "D": "%s := %d" % (n, v), "W": "%s = %d" % (n, v),
            "U": "%s += %d" % (n, v),
            "R": 'scb("h%d", "io") = %s' % (nd.id, n),
            "C": "const %s = %d" % (n, v), "E": "%s()" % n,
            "V": 'scb("h%d", "io") = %s()' % (nd.id, n),
            "M": "import math as %s" % n, "A": "&%s = %s" % (n, m),
            "Y": "%s := %s" % (n, m), "Q": "const %s = %s" % (n, m),
        }.get(k)
        if simple:
            out.append(p + simple)
            continue
        head = {"S": "struct %s:" % n, "B": "if True:", "F": "def %s():" % n,
                "I": "inline def %s():" % n, "K": "interface k%d:" % nd.id,
                "L": "for %s in {%d, %d}:" % (n, v + 1, v + 2)}[k]
        out.append(p + head)
        if k == "S":
            out.append(p + "    fld: int")
            continue
        write(nd.body, out, ind + 1)
        for q in nd.probes:
            out.append(p + '    scb("p%d%s", "io") = %s' % (nd.id, q, q))
    return out


def names_of(t):
    res = []
    for x in t:
        for y in x[1:]:
            if isinstance(y, (tuple, list)):
                res += names_of(y)
            elif y is not None:
                res.append(y)
    return res


def blocks(n, names, leaves, depth):
    """All lists of statements of n nodes in total"""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for first in stmts(k, names, leaves, depth):
            for rest in blocks(n - k, names, leaves, depth):
                yield (first,) + rest


def stmts(n, names, leaves, depth):
    if n == 1:
        for k in leaves:
            if k in LEAVES1:
                for x in names:
                    yield (k, x)
            elif k in LEAVES2:
                for x, y in itertools.permutations(names, 2):
                    yield (k, x, y)
                yield (k, names[0], names[0])
        return
    if depth == 0:
        return
    for k in leaves:
        if k in BLOCKS1:
            for x in names:
                for b in blocks(n - 1, names, leaves, depth - 1):
                    yield (k, x, b)
        elif k in BLOCKS0:
            for b in blocks(n - 1, names, leaves, depth - 1):
                yield (k, None, b)


ALL = "DWURCEVMSAYQFILKB"


def judge(t, names, st):
    """-> violation or None"""
    ids = itertools.count(1)
    nodes = [build(x, ids) for x in t]
    ref = Ref(nodes)
    ref.names = names
    ref.done = []
    refused = None
    try:
        code = ref.compile()
    except Refused as e:
        refused = e
    src = write(nodes, [], 0)
    if not refused:
        for q in ref.endprobes:
            src.append('scb("ptop%s", "io") = %s' % (q, q))
    text = "\n".join(src) + "\n"
    out = core.compile_files({"main.aca": text})
    st.programs += 1
    st.states += 1
    what = None
    if out.crash:
        what = "compiler crashed:\n%s" % out.crash
    elif refused:
        st.outcome(refused.types)
        if out.ok:
            what = "accepted, but %s must be reported at line %d" % (
                refused.types, refused.node.line)
        elif refused.types != "*" and (
                out.etype != refused.types
                or not out.loc or out.loc[1] is None
                or out.loc[1][0] != refused.node.line):
            what = "%s at line %s reported instead of %s at line %d" % (
                out.etype, out.loc[1], refused.types, refused.node.line)
    elif not out.ok:
        what = "valid program refused: %s" % out.error
    else:
        io = {}
        execute(code, io)
        for nd, c in ref.interfaces:
            execute(c, io)
        prog = mc.Program(out.files)
        w = mc.World()
        w.budget = 20000
        w.add_objective("io")
        if prog.malformed:
            what = "malformed command %r" % (prog.malformed[0],)
        else:
            prog.run(w, "main")
            for nd, c in ref.interfaces:
                p = "k%d" % nd.id
                if p in prog.files:
                    prog.run(w, p)
                elif c:
                    what = "interface %s has no file" % p
            got = w.scores["io"]
            want = {k: v for k, v in io.items() if v is not None}
            st.transitions += w.ncmds
            for k, v in want.items():
                if got.get(k) != v:
                    what = "%s is %r instead of %r" % (k, got.get(k), v)
    if what:
        return {"key": " / ".join(s.strip() for s in src), "kind": "scope",
                "what": what + "\n" + text, "tree": list(t),
                "names": list(names)}


def batch(chunk, st):
    for head, n, names, leaves in chunk:
        for rest in blocks(n, names, leaves, 3):
            t = head + rest
            used = names_of(t)
            # the names are interchangeable
            if names[1] not in ("Pos",) and used and used[0] != names[0]:
                continue
            v = judge(t, names, st)
            if v:
                st.violations.append(v)
                if len(st.violations) > 40:
                    return


def items(n, names, leaves):
    """Split by the first statement"""
    for k in range(1, n + 1):
        for first in stmts(k, names, leaves, 3):
            if names[1] != "Pos" and names_of([first])[:1] not in (
                    [], [names[0]]):
                continue
            yield (first,), n - k, names, leaves


# -- part 2: constant functions

CLEAVES1 = ("D", "W", "U", "R")
CONFS = [("", 0), ("c", 0), ("c", 1), ("v", 0), ("v", 1), ("", 1)]


class Interp:
    """Runs the body of a constant function"""

    def __init__(self, glob, param):
        self.log = []
        self.probes = {}
        g = Scope()
        if glob:
            g.d["x"] = ("const", 3) if glob == "c" else ("rt",)
        self.scope = Scope(g)
        if param:
            self.scope.d["y"] = ("var", Cell(4))

    def value(self, n, bad):
        b = self.scope.find(n)
        if b is None:
            bad.append("NAME_NOT_DEFINED")
        elif b[0] == "rt":
            bad.append("NOT_CONST_NAME")
        else:
            return b

    def define(self, n, b, bad):
        if n in self.scope.d:
            bad.append("SHADOWED_NAME")
        if not bad:
            self.scope.d[n] = b

    def block(self, nodes, where):
        for nd in nodes:
            self.stmt(nd)
        ps = [n for n in ("x", "y")
              if (self.scope.find(n) or ("rt",))[0] != "rt"]
        old = self.probes.setdefault(where, ps)
        assert old == ps
        for n in ps:
            self.log.append(val(self.scope.find(n)))

    def stmt(self, nd):
        k, n, m = nd.k, nd.n, nd.m
        v = nd.id * 10 + 7
        bad = []
        if k == "D":
            self.define(n, ("var", Cell(v)), bad)
        elif k in "WU":
            b = self.value(n, bad)
            if b and b[0] != "var":
                bad.append("INVALID_ASSIGN_TARGET")
            elif b:
                b[1].v = v if k == "W" else b[1].v + v
        elif k == "R":
            b = self.value(n, bad)
            if b:
                self.log.append(val(b))
        elif k == "A":
            b = self.value(m, bad)
            if b and b[0] != "var":
                bad.append("CANT_REF")
            self.define(n, b, bad)
        elif k == "Y":
            b = self.value(m, bad)
            self.define(n, ("var", Cell(val(b))) if b else None, bad)
        elif k == "G":
            self.log.append(3)
        elif k == "L":
            for i in (1, 2):
                self.scope = Scope(self.scope)
                self.scope.d[n] = ("const", v + i)
                self.block(nd.body, nd.id)
                self.scope = self.scope.outer
        elif k == "B":
            self.block(nd.body, nd.id)
        else:
            raise AssertionError(k)
        if bad:
            raise Refused("|".join(bad), nd)


def cwrite(nodes, out, ind, probes, where):
    p = "    " * ind
    for nd in nodes:
        k, n, m, v = nd.k, nd.n, nd.m, nd.id * 10 + 7
        nd.line = len(out) + 1
        simple = {"D": "%s := %d" % (n, v), "W": "%s = %d" % (n, v),
                  "U": "%s += %d" % (n, v), "R": "lg.append(%s)" % n,
                  "A": "&%s = %s" % (n, m), "Y": "%s := %s" % (n, m),
                  "G": "lg.append(g())"}.get(k)
        if simple:
            out.append(p + simple)
            continue
        out.append(p + {"B": "if True:", "L": "for %s in {%d, %d}:" % (
            n, v + 1, v + 2)}[k])
        cwrite(nd.body, out, ind + 1, probes, nd.id)
    for n in probes.get(where, ()):
        out.append(p + "lg.append(%s)" % n)
    if not nodes and not probes.get(where):
        out.append(p + "pass")


def cjudge(t, conf, st):
    glob, param, *name = conf
    ids = itertools.count(1)
    nodes = [build(x, ids) for x in t]
    it = Interp(glob, param)
    refused = None
    try:
        it.block(nodes, 0)
    except Refused as e:
        refused = e
    src = {"": [], "c": ["const x = 3"], "v": ["x := 3"]}[glob]
    if glob == "c":
        src = src + ["const def g() -> int:", "    result x"]
    src = src + ["const def f(%s) -> list:" % ("y: int" if param else ""),
                 "    lg := {}"]
    cwrite(nodes, src, 1, it.probes, 0)
    src.append("    result lg")
    arg = "4" if param else ""
    src += ["const r1 = f(%s)" % arg, "const r2 = f(%s)" % arg]
    if not refused:
        for r in ("r1", "r2"):
            src.append('scb("%s", "io") = %s.size()' % (r, r))
            for i in range(len(it.log)):
                src.append('scb("%s_%d", "io") = %s[%d]' % (r, i, r, i))
    text = "\n".join(src) + "\n"
    if name:                            # called like something builtin
        text = re.sub(r"\bx\b", name[0], text)
    out = core.compile_files({"main.aca": text})
    st.programs += 1
    st.states += 1
    what = None
    if out.crash:
        what = "compiler crashed:\n%s" % out.crash
    elif refused:
        st.outcome(refused.types)
        if out.ok:
            what = "accepted, but %s must be reported at line %d" % (
                refused.types, refused.node.line)
        elif out.etype not in refused.types.split("|") or not out.loc or \
                out.loc[1] is None or out.loc[1][0] != refused.node.line:
            what = "%s at %s reported instead of %s at line %d" % (
                out.etype, out.loc, refused.types, refused.node.line)
    elif not out.ok:
        what = "valid program refused: %s" % out.error
    else:
        prog = mc.Program(out.files)
        w = mc.World()
        w.budget = 20000
        w.add_objective("io")
        prog.run(w, "main")
        got = w.scores["io"]
        st.transitions += w.ncmds
        for r in ("r1", "r2"):
            vals = [got.get("%s_%d" % (r, i)) for i in range(len(it.log))]
            if got.get(r) != len(it.log) or vals != it.log:
                what = "%s is %r (of %r values) instead of %r" % (
                    r, vals, got.get(r), it.log)
    if what:
        return {"key": " / ".join(s.strip() for s in src), "kind": "cscope",
                "what": what + "\n" + text, "tree": list(t),
                "conf": list(conf)}


def cstmts(n, depth, conf):
    if n == 1:
        for k in CLEAVES1:
            for x in "xy":
                yield (k, x)
        for k in "AY":
            yield from ((k, "x", "y"), (k, "y", "x"), (k, "x", "x"))
        if conf[0] == "c":
            yield ("G", None)
        return
    if depth:
        for b in cblocks(n - 1, depth - 1, conf):
            yield ("L", "x", b)
            yield ("L", "y", b)
            yield ("B", None, b)


def cblocks(n, depth, conf):
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for first in cstmts(k, depth, conf):
            for rest in cblocks(n - k, depth, conf):
                yield (first,) + rest


def cbatch(chunk, st):
    for n, conf, first in chunk:
        for rest in cblocks(n, 2, conf):
            t = (first,) + rest
            if conf == ("", 0) and names_of(t)[:1] == ["y"]:
                continue
            v = cjudge(t, conf, st)
            if v:
                st.violations.append(v)
                if len(st.violations) > 40:
                    return


def citems(lv):
    for n in range(1, 5 if lv else 4):
        for i, conf in enumerate(CONFS):
            if n == 3 and i > 3 and not lv or n == 4 and i > 2:
                continue
            for k in range(1, n + 1):
                for first in cstmts(k, 2, conf):
                    yield (n - k, conf, first)
                    if conf[0] and n < 3 + lv:
                        yield (n - k, conf + ("Pos",), first)


def check(chk):
    lv = chk.thorough
    its = []
    for n in range(1, 4):
        its += items(n, ("x", "y"), ALL)
    for n in range(1, 4 if lv else 3):
        its += items(n, ("x", "Pos"), ALL)
    if not lv:
        its += items(3, ("x", "Pos"), "DWRCAFIL")
    few = "DWRCEAFILK"
    its += items(4, ("x", "y"), few if lv else "DWREFIL")
    if lv:
        its += items(5, ("x", "y"), "DRFIE")
    chk.map(ME, "batch", [x for x in its if x[1] > 1], 1)
    chk.map(ME, "batch", [x for x in its if x[1] <= 1], 40)
    chk.map(ME, "cbatch", list(citems(lv)), 4)
    chk.bounds = {"statements": "all of %d kinds up to 3, %d kinds up to 4"
                  % (len(ALL), len(few if lv else "DWREFIL")),
                  "names": "two, one of them also a builtin"}


def replay(v):
    st = core.Stats()

    def tup(x):
        return tuple(tup(y) if isinstance(y, list) else y for y in x)
    if v["kind"] == "cscope":
        r = cjudge(tup(v["tree"]), tuple(v["conf"]), st)
    else:
        r = judge(tup(v["tree"]), tuple(v["names"]), st)
    if r:
        print(r["what"])
    return int(bool(r))
