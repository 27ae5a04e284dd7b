"""C18: the commands generated are well formed, closed, and carry the texts of
the program unchanged.

Part 1 puts every string over a small alphabet of troublesome characters into
every parameter that takes free text, and decodes the argument from the output
at the place where a plain string appears in an otherwise equal program.
Part 2 compiles the corpora of all checks under the product of configurations
and game versions, parses every line and resolves every reference."""
import itertools
import json

from .. import core, corpus, mc

ME = __name__

MARK = "Zq7"

# name: (statement, how the text appears)
#   q  a command string, quoted if needed
#   j  a string in JSON
#   v  verbatim, up to the end of the line
APIS = {
    "scb holder": ('x := scb(S, "io")', "q"),
    "scb objective": ('x := scb("p", S)', "q"),
    "scb holder set": ('scb(S, "io") = 3', "q"),
    "scb in condition": ('if scb(S, "io") == 3:\n    /say y', "q"),
    "scb objective of entity": ("x := scb(e, S)", "q"),
    "tag_add": ("world.tag_add(e, S)", "q"),
    "tag_remove": ("world.tag_remove(e, S)", "q"),
    "has_tag": ("g.select(Enfilter().has_tag(S))", "q"),
    "has_tag 2": ('g.select(Enfilter().has_tag("u", S))', "q"),
    "has_no_tag": ("g.select(Enfilter().has_no_tag(S))", "q"),
    "name": ("g.select(Enfilter().is_name(S))", "q"),
    "not name": ("g.select(Enfilter().is_not_name(S))", "q"),
    "summon name": ('world.summon("pig", P, name=S)', "q"),
    "rider name": ('world.summon_rider(e, "pig", name=S)', "q"),
    "ride name": ('world.summon_ride(e, "pig", name=S)', "q"),
    "entity name": ("f := Q()", "q"),
    "say": ("world.msg_say(e, S)", "v"),
    "tell": ("world.msg_tell(e, e, S)", "v"),
    "me": ("world.msg_me(e, S)", "v"),
    "kick": ("world.kick(S)", "q"),
    "kick reason": ('world.kick("x", S)', "v"),
    "tickingarea": ("tsk.on_tickingarea(S)", "q"),
    "print": ("print.tell(S)", "j"),
    "format": ('print.tell(print.format("%0", S))', "j"),
    "format by name": ('print.tell(print.format("%{x}", x=S))', "j"),
    "font": ('print.tell(print.with_font(S))', "j"),
    "fstring sum": ('print.tell(print.format("p") + S)', "j"),
    "title": ("print.title(S)", "j"),
    "translate": ("print.tell(print.translate(S))", "j"),
    "print score": ('print.tell(print.format("%0", scb(S, "io")))', "j"),
    "print objective": ('print.tell(print.format("%0", scb("p", S)))', "j"),
    "item blocks": ('world.replaceitem_block(P, 1, '
                    'world.Item("a", can_destroy={S}))', "j"),
    "item blocks 2": ('world.replaceitem_block(P, 1, '
                      'world.Item("a", can_place_on={"b", S}))', "j"),
    "raw command": ("/say ${S}", "v"),
    "raw command 2": ("/execute run say ${S}", "v"),
    "block command": ("/*\nsay\n${S}*/", "v"),
    "interpolated": ('world.msg_say(e, "${S}")', "v"),
    "literal": (None, "v"),
}
ALPHABET = ("a", " ", '"', "\\", "'", "@", "*", "!", ",", "=", "[", "]", "{",
            "}", "~", "^", "/", "#", "%", "$", "&", "+", "-", "5", ":", ";",
            ".", "\u00e9", "\u4e2d", "\U0001f600", "\u00a7", "<", ">", "|",
            "`", "(", ")", "?", "\t", "\n", "\r", "\u2028")
ESC = {"\\": "\\\\", '"': '\\"', "\n": "\\x0a", "\r": "\\x0d", "$": "\\$",
       "\u2028": "\\u2028"}


def literal(s):
    return '"%s"' % "".join(ESC.get(c, c) for c in s)


def program(s, name):
    stmt, _ = APIS[name]
    if stmt is None:
        stmt = "world.msg_say(e, %s)" % literal(s)
    lines = ["import world", "import print", "import schedule",
             "const S = " + literal(s), "const P = Pos(1.0, 2.0, 3.0)",
             "entity Q:", "    new():", '        new("pig", P%s)' % (
                 ", name=S" if name == "entity name" else ""),
             "def u():", "    /say u", "const tsk = schedule.Task(u)",
             "e := Q()", "g := Engroup[Q]()", "interface t:"]
    return "\n".join(lines + ["    " + ln for ln in stmt.split("\n")]) + "\n"


def allowed(name, s):
    kind = APIS[name][1]
    if name in ("format by name", "format", "print", "title", "font",
                "fstring sum") and s == "":
        return False        # nothing to print
    if kind == "v" and (s == "" or s != s.strip()):
        return False        # spaces at the ends of a line mean nothing
    if name in ("scb holder", "scb holder set", "scb in condition"):
        return s[:1] != "@" and s != "*"    # a selector or wildcard
    if name in ("print score",):
        return s[:1] != "@" and s != "*"
    return True


def lines_of(out):
    return {p: [ln for ln in t.split("\n") if ln.strip()
                and not ln.startswith("#")] for p, t in out.files.items()}


def fill(x, s):
    """MARK replaced by s in a JSON value."""
    if isinstance(x, str):
        return x.replace(MARK, s)
    if isinstance(x, list):
        return [fill(y, s) for y in x]
    if isinstance(x, dict):
        return {k: fill(y, s) for k, y in x.items()}
    return x


def compare(base, line, s, kind):
    """Does `line` equal `base` with MARK replaced by the text s?"""
    if kind == "j" and MARK in base:
        k = base.index("{")
        if line[:k] != base[:k]:
            return "expected %r" % base[:k]
        try:
            got = json.loads(line[k:])
        except ValueError as err:
            return "not JSON: %s" % err
        want = fill(json.loads(base[k:]), s)
        return None if got == want else "expected %r" % want
    parts = base.split(MARK)
    i = 0
    for k, part in enumerate(parts):
        if k:
            # the text
            if kind == "v":
                if line[i:] != s + "".join(parts[k:]):
                    return "text is %r" % line[i:]
                return None
            rd = mc.Reader(line)
            rd.i = i
            try:
                got = rd.string()
            except mc.Malformed as err:
                return "malformed at %r: %s" % (line[i:], err)
            i = rd.i
            if got != s:
                return "text is %r" % got
        if not line.startswith(part, i):
            return "expected %r at %r" % (part, line[i:])
        i += len(part)
    return None if i == len(line) else "trailing %r" % line[i:]


_base = {}


def baseline(name):
    if name not in _base:
        out = core.compile_files({"main.aca": program(MARK, name)})
        _base[name] = lines_of(out) if out.ok else "refused: %s" % (
            out.error or out.crash)
        if out.ok and not any(
                MARK in ln for ls in _base[name].values() for ln in ls):
            _base[name] = "the text %s does not appear" % MARK
    return _base[name]


def text_case(name, s):
    src = program(s, name)
    out = core.compile_files({"main.aca": src})
    if out.crash:
        return "compiler crashed: %s\n%s" % (out.crash, src)
    breaks = "\n" in s or "\r" in s
    kind = APIS[name][1]
    if not out.ok:
        if breaks and kind != "j" and out.loc[0] and out.loc[1]:
            return None
        if breaks and name.startswith("print ") and out.loc[1]:
            return None     # a score holder or objective
        return "refused: %s\n%s" % (out.error, src)
    base, got = baseline(name), lines_of(out)
    if isinstance(base, str):
        return base
    if set(base) != set(got):
        return "files %r instead of %r" % (sorted(got), sorted(base))
    for p in base:
        if len(base[p]) != len(got[p]):
            return "%s has %d commands instead of %d: %r\n%s" % (
                p, len(got[p]), len(base[p]), got[p], src)
        for b, g in zip(base[p], got[p]):
            r = compare(b, g, s, kind)
            if r:
                return "%s: %r, %s\n%s" % (p, g, r, src)


def text_batch(chunk, st):
    for name, s in chunk:
        st.programs += 1
        st.states += 1
        st.transitions += len(s)
        st.outcome((name, s))
        bad = text_case(name, s)
        if bad:
            st.violations.append(core.Violation(
                {"kind": "commands", "key": "text %r in %s" % (s, name),
                 "what": "%r given to %s: %s" % (s, name, bad),
                 "args": [name, s]}))


def texts(thorough):
    yield ""
    yield from ALPHABET
    for a, b in itertools.product(ALPHABET, repeat=2):
        if thorough or a in 'a"\\ ' or b in 'a"\\ ':
            yield a + b
    for w in itertools.product('a"\\ ', repeat=3):
        yield "".join(w)
    if thorough:
        for w in itertools.product('a"\\ ', repeat=4):
            yield "".join(w)
    yield from ("true", "null", "@e", "@a[tag=x]", "a b c", "*x", "-1.5", "~1",
                "x" * 300, "${S}", "%0", "{n}", "1..2", "run say x",
                '"] run say x', "a\\nb")


def text_items(chk):
    for name in APIS:
        yield (name, MARK)
    for s in texts(chk.thorough):
        for name in APIS:
            if allowed(name, s):
                yield (name, s)


# -- part 2 ------------------------------------------------------------------

VERSIONS = [[1, 19, 50], [1, 19, 70], [1, 19, 80], [1, 20, 0], [1, 20, 10],
            [1, 20, 50], [1, 21, 100]]
LAYOUTS = [
    {}, {"optimizer": False}, {"debug_comments": True},
    {"max_inline_file_size": 0}, {"max_inline_file_size": 100000},
    {"split_init": True, "root_folder": "r/s", "internal_folder": "k",
     "scoreboard": "x.y", "entity_tag": "T"},
    {"education_edition": True, "debug_comments": True, "optimizer": False,
     "scoreboard": "a b", "entity_tag": "c.d"}]


def config_case(p, cfg, st=None):
    cfg = dict(p["cfg"], **cfg)
    src = p["files"].get(p["main"], "")
    out = core.compile_files(p["files"], p["main"], cfg)
    if out.crash:
        # totality is the matter of another property
        return None
    if not out.ok:
        return None
    if out.outside:
        return "writes %r outside" % out.outside
    prog = mc.Program(out.files)
    if st is not None:
        st.states += 1
        st.transitions += prog.ncommands
    if prog.malformed:
        return "malformed command %r in %s: %s" % (
            prog.malformed[0][2], prog.malformed[0][0], prog.malformed[0][3])
    for f, refs in prog.refs.items():
        for r in refs:
            if r not in out.files:
                return "%s refers to a missing function %s" % (f, r)
    sb = cfg.get("scoreboard", "acacia")
    added = set()
    for t in out.files.values():
        for ln in t.split("\n"):
            if ln.startswith("scoreboard objectives add "):
                rd = mc.Reader(ln)
                for _ in range(3):
                    rd.word()
                rd.ws()
                added.add(rd.string())
    for o in prog.objectives_used:
        if o.startswith(sb) and o not in added:
            return "objective %r is used but never added" % o
        if not o.startswith(sb) and ('"%s"' % o) not in src \
                and o not in src and len(p["files"]) == 1:
            return "objective %r comes from nowhere" % o
    for f, t in out.files.items():
        for ln in t.split("\n"):
            if "\r" in ln:
                return "carriage return in %s" % f
            if not cfg.get("debug_comments") and ln.startswith("#") \
                    and "Usage" not in ln and "Execute this" not in ln:
                return "comment %r in %s" % (ln, f)
    return None


def config_batch(chunk, st):
    for p, cfg in chunk:
        st.programs += 1
        bad = config_case(p, cfg, st)
        st.outcome((p["name"], repr(cfg)))
        if bad:
            st.violations.append(core.Violation(
                {"kind": "commands", "key": "%s %r" % (p["name"], cfg),
                 "what": "%s\nin %s under %r\n%s" % (
                     bad, p["name"], cfg, p["files"].get(p["main"], "")),
                 "project": p, "cfg": cfg}))


def config_items(chk):
    ps = list(corpus.files())
    for m, f in corpus.SOURCES:
        ps += corpus.harvest(m, f, limit=16 if chk.thorough else 3)
    for i, p in enumerate(ps):
        if chk.thorough:
            for c in LAYOUTS:
                for v in VERSIONS:
                    yield (p, dict(c, mc_version=v))
        else:
            for k, c in enumerate(LAYOUTS):
                yield (p, dict(c, mc_version=VERSIONS[(i + k) % 7]))


def check(chk):
    chk.map(ME, "text_batch", text_items(chk), 200)
    chk.map(ME, "config_batch", config_items(chk), 8)
    chk.stats.sample({"program": program('a "b', "tag_add")})
    chk.bounds = {"parameters": list(APIS), "alphabet": list(ALPHABET),
                  "text length": "1, 2 (3, 4 over four characters)",
                  "versions": VERSIONS, "layouts": LAYOUTS}
    chk.assumptions = [
        "identifiers of the game (entity, block, item, effect names) are "
        "outside: they are passed on as they are written, like the tag prefix",
        "texts of messages do not begin or end with a space"]


def replay(v):
    r = text_case(*v["args"]) if "args" in v else config_case(
        v["project"], v["cfg"])
    print(r or "no violation")
    return int(bool(r))
