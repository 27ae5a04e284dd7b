"""C30: template and structure definitions are refused exactly when they are
inconsistent, and self/new/result are allowed exactly where they mean
something.

Every assignment of members of one name to the templates of small hierarchies
(and of fields to structures) is compiled and compared with a reference."""
import itertools

from .. import core, mc

ME = __name__

# bases of every template, in order of definition
SHAPES = {
    "one": [()],
    "chain2": [(), (0,)],
    "chain3": [(), (0,), (1,)],
    "roots": [(), (), (0, 1)],
    "fork": [(), (0,), (0,)],
    "dup": [(), (0, 0)],
    "tri": [(), (0,), (0, 1)],
    "ok3": [(), (0,), (1, 0)],
    "chain4": [(), (0,), (1,), (2,)],
    "roots2": [(), (), (1, 0), (2,)],
    "diamond": [(), (0,), (0,), (1, 2)],
    "mixed": [(), (), (0,), (2, 1)],
    "cross": [(), (), (0, 1), (0, 1)],
    "longdia": [(), (0,), (1,), (0,), (2, 3)],
    "order": [(), (), (0, 1), (1, 0), (2, 3)],
}

# code -> (kind, result type, text); # is the number of the template
MEMBERS = {
    "-": (None, None, "pass"),
    "f": ("field", "int", "m: int"),
    "g": ("field", "bool", "m: bool"),
    "s": ("simple", "int", "def m() -> int:\n    result #"),
    "i": ("simple", "int", "inline def m() -> int:\n    result #"),
    "v": ("virtual", "int", "virtual def m() -> int:\n    result #"),
    "V": ("virtual", "bool", "virtual def m() -> bool:\n    result True"),
    "w": ("virtual", "Pos", "virtual inline def m() -> const Pos:\n"
          "    result Pos(1, 2, #)"),
    "E": ("virtual", "Entity", "virtual def m() -> Entity:\n    result self"),
    "o": ("override", "int", "override def m() -> int:\n    result #"),
    "I": ("override", "int", "override inline def m() -> int:\n    result #"),
    "O": ("override", "bool", "override def m() -> bool:\n    result False"),
    "P": ("override", "Pos", "override inline def m() -> const Pos:\n"
          "    result Pos(1, 2, #)"),
    "R": ("override", "@", "override def m() -> @:\n    result self"),
    "B": ("virtual", "@", "virtual def m() -> @:\n    result self"),
    "Q": ("override", "Entity",
          "override def m() -> Entity:\n    result self"),
    "t": ("static", "int", "static def m() -> int:\n    result #"),
    "T": ("static", "int", "static inline def m() -> int:\n    result #"),
    "c": ("static", "int", "static const def m() -> int:\n    result #"),
}
SOME = "-fsvVoORBtE"
FEW = "-fsvot"


class Bad(Exception):
    pass


def mro(i, shape, done):
    seqs = [list(done[b]) for b in shape[i]] + [list(shape[i])]
    res = [i]
    while any(seqs):
        seqs = [s for s in seqs if s]
        for s in seqs:
            if not any(s[0] in t[1:] for t in seqs):
                break
        else:
            raise Bad({"MRO"})
        c = s[0]
        res.append(c)
        seqs = [[x for x in t if x != c] for t in seqs]
    return res


def subtype(done, a, b):
    """whether a result of type a serves where b is promised"""
    if a == b:
        return True
    if b == "Entity":
        return a[0] == "T"
    if a[0] == "T" and b[0] == "T":
        return int(b[1:]) in done[int(a[1:])]
    return False


def base(i, shape):
    return "T%d" % shape[i][0] if shape[i] else "Entity"


def check_template(i, shape, mem, done, info):
    """info[i]: what m is in template i: (kind, root).  Raises Bad with all
    reasons for refusing template i."""
    errs = set()
    kind, rtype, _ = MEMBERS[mem[i]]
    if rtype == "@":
        rtype = base(i, shape)
    done[i] = mro(i, shape, done)
    inherited = [info[a] for a in done[i][1:]]
    fields = {x[1] for x in inherited if x and x[0] == "field"}
    kinds = {x[0] for x in inherited if x}
    if kind == "field":
        fields.add(i)
    if len(fields) > 1:
        errs.add("EFIELD_MULTIPLE_DEFS")
    if fields and (kinds - {"field"} or kind not in (None, "field")):
        errs.add("METHOD_ATTR_CONFLICT")
    if len(kinds - {"field"}) > 1:
        errs.add("EMETHOD_MULTIPLE_DEFS")
    roots = {x[1] for x in inherited if x and x[0] == "virtual"}
    if len(roots) > 1:
        errs.add("MULTIPLE_VIRTUAL_METHOD")
    res = None
    if kind == "field":
        res = ("field", i)
    elif kind:
        if roots:
            if kind != "override":
                errs.add("OVERRIDE_QUALIFIER")
        elif kind == "override":
            errs.add("NOT_OVERRIDING")
        if "static" in kinds and kind != "static":
            errs.add("INST_OVERRIDE_STATIC")
        if "simple" in kinds and kind == "static":
            errs.add("STATIC_OVERRIDE_INST")
        if "simple" in kinds and kind == "virtual":
            errs.add("VIRTUAL_OVERRIDE_SIMPLE")
        if kind in ("virtual", "override"):
            if rtype == "Pos":
                errs.add("OVERRIDE_RESULT_UNSTORABLE")
            for r in roots:
                promised = MEMBERS[mem[r]][1]
                if promised == "@":
                    promised = base(r, shape)
                if not subtype(done, rtype, promised):
                    errs.add("OVERRIDE_RESULT_MISMATCH")
            res = ("virtual", min(roots) if roots else i)
        else:
            res = (kind, i)
    else:
        for a in done[i][1:]:
            if info[a]:
                res = info[a]
                break
    info[i] = res
    if errs:
        raise Bad(errs)


def verdict(shape, mem):
    """-> (index of the refused template or None, errors)"""
    done, info = {}, {}
    for i in range(len(shape)):
        try:
            check_template(i, shape, mem, done, info)
        except Bad as e:
            return i, e.args[0], info
    return None, set(), info


def indent(s, n=1):
    return "\n".join("    " * n + x for x in s.split("\n"))


def source(shape, mem, upto):
    out = []
    lines = []
    for i in range(upto):
        start = sum(x.count("\n") + 1 for x in out) + 1
        head = "entity T%d" % i
        if shape[i]:
            head += " extends " + ", ".join("T%d" % b for b in shape[i])
        body = MEMBERS[mem[i]][2].replace("#", str(i)).replace(
            "@", base(i, shape))
        if not shape[i]:
            body += '\nnew():\n    new("pig", Pos(1, 2, 3))'
        out.append(head + ":\n" + indent(body))
        lines.append((start, sum(x.count("\n") + 1 for x in out)))
    return out, lines


def uses(shape, info, mem):
    """Uses that are fine for an accepted hierarchy"""
    out = []
    for i in range(len(shape)):
        x = info[i]
        out.append("o%d := T%d()" % (i, i))
        if not x:
            continue
        if x[0] == "field":
            t = MEMBERS[mem[x[1]]][1]
            out.append("o%d.m = %s" % (i, {"int": "5", "bool": "True"}[t]))
        else:
            out.append("o%d.m()" % i)
            if x[0] == "static":
                out.append("T%d.m()" % i)
    return out


def judge(key, src, errs, lines, st):
    """lines: where the refusal is reported"""
    src = "\n".join(src) + "\n"
    out = core.compile_files({"main.aca": src})
    st.programs += 1
    st.states += 1
    st.transitions += 1
    what = None
    if out.crash:
        what = "compiler crashed:\n%s" % out.crash
    elif out.ok:
        st.outcome("accepted")
        if errs:
            what = "accepted, but it must be refused (%s)" \
                % " or ".join(sorted(errs))
        else:
            prog = mc.Program(out.files)
            if prog.malformed:
                what = "malformed command %r" % (prog.malformed[0],)
    else:
        st.outcome(out.etype)
        line = out.loc[1][0] if out.loc and out.loc[1] else None
        if not errs:
            what = "must be accepted, but: %s" % out.error
        elif out.etype not in errs:
            what = "refused for the wrong reason: %s instead of %s" % (
                out.etype, " or ".join(sorted(errs)))
        elif lines and (line is None
                        or not lines[0] <= line <= lines[1]):
            what = "refused at line %s instead of %d to %d" \
                % ((line,) + tuple(lines))
    if what:
        st.violations.append({"key": key, "kind": "classrule",
                              "what": what + "\n" + src, "src": src,
                              "errs": sorted(errs), "lines": lines})


def tbatch(chunk, st):
    for name, mem in chunk:
        shape = SHAPES[name]
        bad, errs, info = verdict(shape, mem)
        n = len(shape) if bad is None else bad + 1
        src, lines = source(shape, mem, n)
        key = "%s %s" % (name, mem[:n])
        if bad is None:
            judge(key, src + uses(shape, info, mem), set(), None, st)
        else:
            judge(key, src, errs, lines[bad], st)


def titems(level):
    for name, shape in SHAPES.items():
        n = len(shape)
        dom = {1: MEMBERS, 2: MEMBERS, 3: MEMBERS, 4: SOME, 5: FEW}[n]
        if level and n == 4:
            dom = MEMBERS
        if level and n == 5:
            dom = SOME

        def rec(mem):
            if len(mem) == n:
                yield name, mem
                return
            for c in dom:
                m = mem + c
                k = len(m)
                if verdict(shape[:k], m)[0] is not None:
                    yield name, m + "-" * (n - k)
                else:
                    yield from rec(m)
        yield from rec("")


# ---------------------------------------------------------------------------
# Structures

SFIELDS = {"-": "pass", "f": "f: int", "g": "g: bool", "h": "f: bool",
           "fg": "f: int\ng: bool", "ff": "f: int\nf: int",
           "s": "f: T0", "e": "f: Entity", "l": "f: Engroup[Entity]"}


def sverdict(shape, mem):
    fields = []
    for i in range(len(shape)):
        code = mem[i]
        if code == "s" and i == 0:
            return i, {"NAME_NOT_DEFINED"}, None
        own = [x.split(":")[0] for x in SFIELDS[code].split("\n")
               if ":" in x]
        for b in shape[i]:
            own += fields[b]
        if len(set(own)) < len(own):
            return i, {"SFIELD_MULTIPLE_DEFS"}, None
        fields.append(own)
    return None, set(), fields


def sbatch(chunk, st):
    for name, mem in chunk:
        shape = SHAPES[name]
        bad, errs, fields = sverdict(shape, mem)
        n = len(shape) if bad is None else bad + 1
        src = []
        for i in range(n):
            start = sum(x.count("\n") + 1 for x in src) + 1
            head = "struct T%d" % i
            if shape[i]:
                head += " extends " + ", ".join("T%d" % b for b in shape[i])
            src.append(head + ":\n" + indent(SFIELDS[mem[i]]))
            lines = start, sum(x.count("\n") + 1 for x in src)
        key = "struct %s %s" % (name, " ".join(mem[:n]))
        if bad is None:
            for i in range(n):
                src.append("o%d := T%d()" % (i, i))
                for f in fields[i]:
                    src.append("o%d.%s = o%d.%s" % (i, f, i, f))
            lines = None
        judge(key, src, errs, lines, st)


def sitems(level):
    for name, shape in SHAPES.items():
        n = len(shape)
        dom = SFIELDS if n <= (3 if not level else 4) else ("-", "f", "g")

        def rec(mem):
            if len(mem) == n:
                yield name, mem
                return
            for c in dom:
                m = mem + (c,)
                k = len(m)
                if sverdict(shape[:k], m)[0] is not None:
                    yield name, m + ("-",) * (n - k)
                else:
                    yield from rec(m)
        yield from rec(())


# ---------------------------------------------------------------------------
# Places for self, new and result

# frame -> (text with % for the body, what is there: function state, has
# self, has new)
FRAMES = {
    "module": ("%", None, 0, 0),
    "def": ("def x() -> int:\n    %\n    result 1", "int", 0, 0),
    "defnone": ("def x():\n    %", "None", 0, 0),
    "inline": ("inline def x() -> int:\n    %\n    result 1\nx()", "int", 0,
               0),
    "interface": ("interface a/b:\n    %", None, 0, 0),
    "method": ("entity X:\n    n: int\n    def k() -> int:\n        result 1\n"
               "    def x() -> int:\n        %\n        result 1",
               "int", 1, 0),
    "imethod": ("entity X:\n    n: int\n    new():\n"
                '        new("pig", Pos(1, 2, 3))\n'
                "    def k() -> int:\n        result 1\n"
                "    inline def x() -> int:\n        %\n        result 1\n"
                "o := X()\no.x()", "int", 1, 0),
    "virtual": ("entity X:\n    n: int\n    def k() -> int:\n        result 1\n"
                "    virtual def x() -> int:\n        %\n        result 1",
                "int", 1, 0),
    "override": ("entity X:\n    n: int\n    def k() -> int:\n        result 1\n"
                 "    virtual def x() -> int:\n        result 2\n"
                 "entity Y extends X:\n"
                 "    override def x() -> int:\n        %\n        result 1",
                 "int", 1, 0),
    "static": ("entity X:\n    n: int\n    def k() -> int:\n        result 1\n"
               "    static def x() -> int:\n        %\n        result 1",
               "int", 0, 0),
    "new": ("entity X:\n    n: int\n    def k() -> int:\n        result 1\n"
            "    new():\n        %\n        pass", "None", 1, 1),
    "inew": ("entity X:\n    n: int\n    def k() -> int:\n        result 1\n"
             "    inline new():\n        %\n        pass\no := X()", "None", 1,
             1),
}
# wrappers inside of the frame -> (text, type of result if it is a function)
WRAPS = {
    "": ("%", None),
    "if": ("if b:\n    %", None),
    "while": ("while b:\n    %", None),
    "for": ("for q in {1, 2}:\n    %", None),
    "group": ("for q in g:\n    %", None),
    "fun": ("def h() -> bool:\n    %\n    result True\nh()", "bool"),
    "ifun": ("inline def h() -> bool:\n    %\n    result True\nh()", "bool"),
}
STMTS = {
    "self": ("self", "S"), "selfn": ("self.n += 1", "S"),
    "selfk": ("self.k()", "S"),
    "selfv": ("j: Entity = self", "S"),
    "new": ('new("pig", Pos(1, 2, 3))', "N"),
    "newT": ('Entity.new("pig", Pos(1, 2, 3))', "N"),
    "result": ("result 5", "Rint"), "resultb": ("result True", "Rbool"),
    "resultN": ("result None", "RNone"),
    "resultS": ("result self", "SRent"),
}


def put(frame, text):
    out = []
    for line in frame.split("\n"):
        if line.strip() == "%":
            p = line[:-1]
            out += [p + x for x in text.split("\n")]
        else:
            out.append(line)
    return "\n".join(out)


def pverdict(frame, wraps, stmt):
    _, ret, has_self, has_new = FRAMES[frame]
    for w in wraps:
        ret = WRAPS[w][1] or ret
    kind = STMTS[stmt][1]
    errs = set()
    if "S" in kind and not has_self:
        errs.add("SELF_OUT_OF_SCOPE")
    if kind == "N" and not has_new:
        errs.add("NEW_OUT_OF_SCOPE")
    if "R" in kind:
        if ret is None:
            errs.add("RESULT_OUT_OF_SCOPE")
        elif kind.split("R")[1] != ret:
            errs.add("WRONG_RESULT_TYPE")
    return errs


def pbatch(chunk, st):
    for frame, wraps, stmt in chunk:
        text = STMTS[stmt][0]
        for w in reversed(wraps):
            text = put(WRAPS[w][0], text)
        src = "g := Engroup[Entity]()\nb := True\n" + put(
            FRAMES[frame][0], text)
        judge("place %s %s %s" % (frame, " ".join(wraps), stmt), [src],
              pverdict(frame, wraps, stmt), None, st)


def pitems(level):
    for f in FRAMES:
        for n in range(0, 4 if level else 3):
            for w in itertools.product([w for w in WRAPS if w], repeat=n):
                if sum(WRAPS[x][1] is not None for x in w) > 1:
                    continue
                for s in STMTS:
                    yield f, w, s


def check(chk):
    chk.map(ME, "tbatch", list(titems(chk.thorough)), 50)
    chk.map(ME, "sbatch", list(sitems(chk.thorough)), 50)
    chk.map(ME, "pbatch", list(pitems(chk.thorough)), 50)
    chk.bounds = {
        "hierarchies": "%d shapes of up to 5 templates, every assignment of "
        "%d kinds of member (fewer for the large shapes) up to the first "
        "refusal" % (len(SHAPES), len(MEMBERS)),
        "structures": "the same shapes, %d sets of fields" % len(SFIELDS),
        "places": "%d statements in %d bodies under up to %d blocks" % (
            len(STMTS), len(FRAMES), 3 if chk.thorough else 2)}


def replay(v):
    st = core.Stats()
    judge(v["key"], v["src"].rstrip("\n").split("\n"), set(v["errs"]),
          v["lines"], st)
    for x in st.violations:
        print(x["what"])
    return int(bool(st.violations))
