"""C15: an entity filter selects what its steps, applied in order, leave.

Every pipeline of bounded length over the filter methods is compiled in every
place that takes a filter and run in worlds of six entities; random selection
is resolved in every possible way, and the set of outcomes compared with the
set the specification allows."""
import itertools
import json

from .. import cases, core, mc

ME = __name__
P0 = ("Pos(0.0, 0.0, 0.0)", lambda w: (0.0, 0.0, 0.0))
P1 = ("Pos(2.5, 1.0, -1.5)", lambda w: (2.5, 1.0, -1.5))
PB = ("Pos(b.to_single())", lambda w: next(
    e.pos for e in w.entities.values() if e.name == "Bob"))

WORLD = [
    ["player", {"name": "Ann", "pos": [0, 0, 0], "tags": ["t1"],
                "rot": [-20, 10], "scores": {"pts": 1, "my pts": 3},
                "attrs": {"m": "creative", "level": 3, "perms": ["fly"],
                          "items": [["apple", 0, "slot.armor", 2, 2]]}}],
    ["player", {"name": "Bob", "pos": [3, 0, 0.25], "tags": ["t2"],
                "rot": [0, 90], "scores": {"pts": 5},
                "attrs": {"m": "survival", "level": 10,
                          "perms": ["fly", "walk"],
                          "items": [["apple", 1, "slot.hotbar", 0, 3],
                                    ["apple", 0, "slot.hotbar", 5, 1]]}}],
    ["player", {"name": "Cat", "pos": [10, 5, 0.5], "tags": ["t1", "t2"],
                "rot": [45, -90], "scores": {"pts": 2, "my pts": -1},
                "attrs": {"m": "survival", "level": 0}}],
    ["pig", {"name": "a b", "pos": [1, 1.5, 0], "tags": ["t1"],
             "rot": [5, 45], "scores": {"pts": 2}}],
    ["pig", {"name": "pp", "pos": [6, 0, 0.75], "rot": [-90, 180],
             "tags": ["t 3"]}],
    ["armor_stand", {"name": "st", "pos": [0, 0, 4], "tags": ["t2"],
                     "scores": {"pts": 0}}],
]


def mutate(w):
    """The second world: other tags, places, scores, properties."""
    for e in w.entities.values():
        t = e.tags & {"t1", "t2"}
        e.tags -= t
        e.tags |= {"t1", "t2"} - t
        e.pos = (e.pos[0] * 0.5 - 1, e.pos[2], -e.pos[1])
        if "level" in e.attrs:
            e.attrs["level"] = 10 - e.attrs["level"]
            e.attrs["m"] = {"creative": "survival",
                            "survival": "creative"}[e.attrs["m"]]
        d = w.scores["pts"]
        if e.id in d:
            d[e.id] = 4 - d[e.id]


def pred(src, f, known=None):
    return (src, "pred", f, known)


def D(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b)) ** 0.5


def near(p, lo, hi):
    def f(w, e):
        d = D(e.pos, p[1](w))
        return (lo is None or d >= lo - 1e-9) and (hi is None
                                                   or d <= hi + 1e-9)
    return f


def box(p, *size):
    def f(w, e):
        for x, o, s in zip(e.pos, p[1](w), size):
            lo, hi = (o, o + s + 1) if s >= 0 else (o + s, o + 1)
            if not lo - 1e-9 <= x < hi:
                return False
        return True
    return f


def score(obj, ok):
    return lambda w, e: (e.id in w.scores[obj] and ok(w.scores[obj][e.id]))


def player(f):
    return lambda w, e: e.type == "player" and f(e.attrs)


def items_(f):
    """number of the apples accepted by f, to be tested"""
    return lambda e: sum(n for i, d, loc, s, n in e.attrs.get("items", ())
                         if i == "apple" and f(d, loc, s))


def limit(p, n):
    """n > 0: nearest n; n < 0: farthest"""
    def f(w, pool):
        q = sorted(pool, key=lambda i: D(w.entities[i].pos, p[1](w)))
        if n < 0:
            q.reverse()
        return [frozenset(q[:abs(n)])]
    return f


def rnd(n, type_=None):
    def f(w, pool, known):
        t = type_ or known
        q = [i for i in pool if w.entities[i].type == t]
        return [frozenset(c) for c in itertools.combinations(
            q, min(n, len(q)))]
    return f


PL = "player"
OPS = [
    pred('has_tag("t1")', lambda w, e: "t1" in e.tags),
    pred('has_tag("t1", "t2")', lambda w, e: {"t1", "t2"} <= e.tags),
    pred('has_tag("t 3")', lambda w, e: "t 3" in e.tags),
    pred('has_tag()', lambda w, e: True),
    pred('has_no_tag("t1")', lambda w, e: "t1" not in e.tags),
    pred('has_no_tag("t1", "t 3")', lambda w, e: not {"t1", "t 3"} & e.tags),
    pred('distance_from(%s, max=4.0)' % P0[0], near(P0, None, 4)),
    pred('distance_from(%s, 2)' % P0[0], near(P0, 2, None)),
    pred('distance_from(%s, 0.5, 4)' % PB[0], near(PB, .5, 4)),
    pred('distance_from(%s)' % P1[0], lambda w, e: True),
    pred('is_type("pig")', lambda w, e: e.type == "pig", "pig"),
    pred('is_type("player")', lambda w, e: e.type == PL, PL),
    pred('is_not_type("pig", "player")',
         lambda w, e: e.type not in ("pig", PL)),
    pred('is_not_type("armor_stand")', lambda w, e: e.type != "armor_stand"),
    pred('is_not_type()', lambda w, e: True),
    pred('inside(%s, 3, 2.0, 4)' % P0[0], box(P0, 3, 2, 4)),
    pred('inside(%s, -3.0, 1.0, -3.0)' % PB[0], box(PB, -3, 1, -3)),
    pred('inside(%s, dz=3.5)' % P0[0], box(P0, 0, 0, 3.5)),
    pred('rot_vertical(-30.0, 10.0)', lambda w, e: -30 <= e.rot[0] <= 10),
    pred('rot_vertical(max=5)', lambda w, e: -90 <= e.rot[0] <= 5),
    pred('rot_horizontal(0.0, 90.0)', lambda w, e: 0 <= e.rot[1] <= 90),
    pred('rot_horizontal(min=20)', lambda w, e: 20 <= e.rot[1] <= 180),
    pred('is_name("Ann")', lambda w, e: e.name == "Ann"),
    pred('is_name("a b")', lambda w, e: e.name == "a b"),
    pred('is_not_name("Ann", "a b")',
         lambda w, e: e.name not in ("Ann", "a b")),
    pred('has_item("apple")', lambda w, e: items_(lambda *a: True)(e) >= 1),
    pred('has_item("apple", "!2")',
         lambda w, e: items_(lambda *a: True)(e) != 2),
    pred('has_item("apple", 3, data=1)',
         lambda w, e: items_(lambda d, loc, s: d == 1)(e) == 3),
    pred('has_item("apple", "..3", slot_type="slot.hotbar")',
         lambda w, e: items_(lambda d, loc, s: loc == "slot.hotbar")(e) <= 3),
    pred('has_item("apple", slot_type="slot.hotbar", slot_num="4..7")',
         lambda w, e: items_(lambda d, loc, s: loc == "slot.hotbar"
                             and 4 <= s <= 7)(e) >= 1),
    pred('scores("pts", 2)', score("pts", lambda v: v == 2)),
    pred('scores("pts", "..3")', score("pts", lambda v: v <= 3)),
    pred('scores("pts", "!2")', score("pts", lambda v: v != 2)),
    pred('scores("pts", " 2 .. 5")', score("pts", lambda v: 2 <= v <= 5)),
    pred('scores("pts", "!1..2")', score("pts", lambda v: not 1 <= v <= 2)),
    pred('scores("my pts", "-1..")', score("my pts", lambda v: v >= -1)),
    pred('level(2)', player(lambda a: a["level"] >= 2), PL),
    pred('level(max=5)', player(lambda a: a["level"] <= 5), PL),
    pred('level(3, 9)', player(lambda a: 3 <= a["level"] <= 9), PL),
    pred('is_game_mode("creative")',
         player(lambda a: a["m"] == "creative"), PL),
    pred('is_game_mode("survival")',
         player(lambda a: a["m"] == "survival"), PL),
    pred('is_not_game_mode("creative", "adventure")',
         player(lambda a: a["m"] not in ("creative", "adventure")), PL),
    pred('has_permission("fly")',
         lambda w, e: "fly" in e.attrs.get("perms", ()), PL),
    pred('has_no_permission("walk")',
         lambda w, e: "walk" not in e.attrs.get("perms", ()), PL),
    pred('all_players()', lambda w, e: e.type == PL, PL),
    ('random("pig")', "rnd", rnd(1, "pig"), "pig"),
    ('random("player", limit=2)', "rnd", rnd(2, PL), PL),
    ('random()', "rnd", rnd(1), None),
    ('random(limit=2)', "rnd", rnd(2), None),
    ('nearest_from(%s)' % P0[0], "lim", limit(P0, 1), None),
    ('nearest_from(%s, 3)' % PB[0], "lim", limit(PB, 3), None),
    ('farthest_from(%s, limit=2)' % P0[0], "lim", limit(P0, -2), None),
    ('farthest_from(%s)' % P1[0], "lim", limit(P1, -1), None),
]
# Values at the edges, used on their own.
PE = ("Pos(3.0, 0.0, 0.25)", lambda w: (3.0, 0.0, 0.25))
EDGE = [
    pred('distance_from(%s, max=0)' % PE[0], near(PE, None, 0)),
    pred('distance_from(%s, 0, 0)' % PE[0], near(PE, 0, 0)),
    pred('distance_from(%s, 0.0, 3.5)' % PE[0], near(PE, 0, 3.5)),
    pred('distance_from(%s, max=0.125)' % PE[0], near(PE, None, .125)),
    pred('inside(%s, 0, 0, 0)' % PE[0], box(PE, 0, 0, 0)),
    pred('inside(%s, -0.5)' % PE[0], box(PE, -.5, 0, 0)),
    pred('rot_vertical(0, 0)', lambda w, e: e.rot[0] == 0),
    pred('rot_vertical(0)', lambda w, e: 0 <= e.rot[0] <= 90),
    pred('rot_vertical(max=0)', lambda w, e: -90 <= e.rot[0] <= 0),
    pred('rot_horizontal(0, 0)', lambda w, e: e.rot[1] == 0),
    pred('rot_horizontal(max=0)', lambda w, e: -180 <= e.rot[1] <= 0),
    pred('rot_horizontal(180)', lambda w, e: e.rot[1] == 180),
    pred('has_item("apple", 0)',
         lambda w, e: items_(lambda *a: True)(e) == 0),
    pred('has_item("apple", "0")',
         lambda w, e: items_(lambda *a: True)(e) == 0),
    pred('has_item("apple", "0..1")',
         lambda w, e: items_(lambda *a: True)(e) <= 1),
    pred('has_item("apple", "..0")',
         lambda w, e: items_(lambda *a: True)(e) <= 0),
    pred('has_item("apple", data=0)',
         lambda w, e: items_(lambda d, loc, s: d == 0)(e) >= 1),
    pred('has_item("apple", 4, data=-1)',
         lambda w, e: items_(lambda *a: True)(e) == 4),
    pred('has_item("apple", slot_type="slot.hotbar", slot_num=0)',
         lambda w, e: items_(lambda d, loc, s: loc == "slot.hotbar"
                             and s == 0)(e) >= 1),
    pred('has_item("apple", slot_type="slot.hotbar", slot_num="..0")',
         lambda w, e: items_(lambda d, loc, s: loc == "slot.hotbar"
                             and s <= 0)(e) >= 1),
    pred('scores("pts", 0)', score("pts", lambda v: v == 0)),
    pred('scores("pts", -1)', score("pts", lambda v: v == -1)),
    pred('scores("my pts", -1)', score("my pts", lambda v: v == -1)),
    pred('scores("pts", "0..")', score("pts", lambda v: v >= 0)),
    pred('scores("pts", "..0")', score("pts", lambda v: v <= 0)),
    pred('scores("pts", "!0")', score("pts", lambda v: v != 0)),
    pred('scores("my pts", "-5..-1")', score("my pts",
                                             lambda v: -5 <= v <= -1)),
    pred('scores("pts", "-2147483648..2147483647")',
         score("pts", lambda v: True)),
    pred('level(0, 0)', player(lambda a: a["level"] == 0), PL),
    pred('level(max=0)', player(lambda a: a["level"] <= 0), PL),
    pred('level(0)', player(lambda a: True), PL),
    ('random("pig", limit=100)', "rnd", rnd(100, "pig"), "pig"),
    ('nearest_from(%s, 100)' % PE[0], "lim", limit(PE, 100), None),
    ('farthest_from(%s, 100)' % PE[0], "lim", limit(PE, -100), None),
]
PAIRED = len(OPS)
OPS += EDGE
CORE = [0, 4, 6, 8, 10, 15, 22, 28, 32, 36, 40, 44, 45, 46, 48, 49, 50, 51]


def known(ops):
    """-> (type the filter is known to select, valid?) """
    t = None
    for src, kind, f, k in ops:
        if kind == "rnd":
            if k is None and t is None:
                return None, "error"
            if k is not None and t is not None and k != t:
                return None, "error"
        if k is not None:
            if t is not None and k != t:
                t = "conflict"      # nothing is claimed about a later random
            else:
                t = k
        if t == "conflict" and any(o[1] == "rnd" for o in ops):
            return None, "skip"
    return t, "ok"


def run_ops(w, pool, ops):
    """-> set of possible results"""
    cur = {frozenset(pool)}
    t = None
    for src, kind, f, k in ops:
        new = set()
        for s in cur:
            if kind == "pred":
                new.add(frozenset(i for i in s if f(w, w.entities[i])))
            elif kind == "lim":
                new.update(f(w, s))
            else:
                new.update(f(w, s, t))
        if k is not None:
            t = k
        cur = new
    return cur


def with_tag(w, t):
    return frozenset(e.id for e in w.entities.values() if t in e.tags)


ALLE = "Enfilter()"
T1 = 'Enfilter().has_tag("t1")'
MODES = {
    "select": (["g := ExternEngroup()", "g.select(%s)"],
               lambda w, ops: run_ops(w, w.entities, ops)),
    "select+": (["g := ExternEngroup()", "g.select(%s)" % T1,
                 "g.select(%s)"],
                lambda w, ops: {with_tag(w, "t1") | r
                                for r in run_ops(w, w.entities, ops)}),
    "drop": (["g := ExternEngroup()", "g.select(%s)" % ALLE, "g.drop(%s)"],
             lambda w, ops: {frozenset(w.entities) - r
                             for r in run_ops(w, w.entities, ops)}),
    "drop1": (["g := ExternEngroup()", "g.select(%s)" % T1, "g.drop(%s)"],
              lambda w, ops: {with_tag(w, "t1") - r for r in
                              run_ops(w, with_tag(w, "t1"), ops)}),
    "filter": (["g := ExternEngroup()", "g.select(%s)" % T1,
                "g.filter(%s)"],
               lambda w, ops: run_ops(w, with_tag(w, "t1"), ops)),
    "const": (["const f = %s", "g := ExternEngroup()", "g.select(f)",
               "g.filter(f.has_no_tag(\"t2\"))"],
              lambda w, ops: {frozenset(i for i in r2 if "t2" not in
                                        w.entities[i].tags)
                              for r in run_ops(w, w.entities, ops)
                              for r2 in run_ops(w, r, ops)}),
    "is": (["h := ExternEngroup()", "h.select(%s)" % ALLE,
            "g := ExternEngroup()", "for q in h:",
            "    if world.is_entity(q, %s):",
            "        g.add(q)"],
           lambda w, ops: run_ops(w, w.entities, ops)),
}
TAIL = ["for x in g:", "    /tag ${x} add out"]
HEAD = ["b := ExternEngroup()", 'b.select(Enfilter().is_name("Bob"))']


# steps of other filters made of the same one
SIBLINGS = ["distance_from(Pos(90, 0, 90), max=1)",
            "inside(Pos(70, 0, 70), dx=1.0)", 'is_name("Nobody")',
            "nearest_from(Pos(80, 0, 80), limit=1)", 'scores("pts", "7")',
            'is_not_type("zork")', "rot_vertical(3.0, 4.0)",
            'has_item("zork")', "all_players()"]


def derived(use):
    """the last step makes a second filter, both exist when one is used"""
    def f(ops):
        src = "".join("." + o[0] for o in ops[:-1])
        return ["const f = Enfilter()" + src,
                "const d = f." + ops[-1][0],
                'const d2 = f.has_no_tag("t2")',
                'const d3 = d.has_tag("t1")',
                *("const e%d = %s.%s" % (i, b, o) for i, (b, o) in enumerate(
                    itertools.product("fd", SIBLINGS))),
                "g := ExternEngroup()", "g.select(%s)" % use]
    return f


MODES["base"] = (derived("f"),
                 lambda w, ops: run_ops(w, w.entities, ops[:-1]))
MODES["derived"] = (derived("d"), lambda w, ops: run_ops(w, w.entities, ops))


def body(ops, mode):
    if callable(MODES[mode][0]):
        return HEAD + MODES[mode][0](ops) + TAIL
    src = "Enfilter()" + "".join("." + o[0] for o in ops)
    res = [x % src if "%s" in x else x for x in MODES[mode][0]]
    return HEAD + res + TAIL


def explore(prog, path, w, st):
    """Run in every way -> set of resulting sets; w becomes one result."""
    script, results, last = [], set(), None
    while True:
        pos = [0]
        sizes = []

        def choose(n, what):
            k = pos[0]
            pos[0] += 1
            sizes.append(n)
            if k == len(script):
                script.append(0)
            return script[k]
        x = w.copy()
        x.choose = choose
        x.ncmds = 0
        prog.run(x, path)
        st.transitions += x.ncmds
        st.states += 1
        results.add(frozenset(e.id for e in x.entities.values()
                              if "out" in e.tags))
        last = x
        while script and script[-1] + 1 >= sizes[len(script) - 1]:
            script.pop()
        if not script:
            break
        script[-1] += 1
    for e in last.entities.values():
        e.tags.discard("out")
    return results, last


def verify(prog, base, i, ops, mode, st):
    """-> None or description"""
    w = base.copy()
    cases.populate(w, json.loads(json.dumps(WORLD)))
    for step in range(3):
        want = MODES[mode][1](w, ops)
        got, w = explore(prog, "t/c%d" % i, w, st)
        st.outcome(repr(sorted(map(sorted, got))))
        if got != want:
            nm = {e.id: e.name for e in w.entities.values()}
            f = lambda z: sorted(sorted(nm[i] for i in s)  # noqa: E731
                                 for s in z)
            return "run %d selects %r, expected %r" % (step, f(got), f(want))
        if step < 2:
            mutate(w)
    return None


def source(pairs):
    return "import world\n" + cases.source(
        [{"body": body([OPS[k] for k in ks], m)} for ks, m in pairs])


def compile_(pairs, cfg):
    out = core.compile_files({"main.aca": source(pairs)}, cfg=cfg)
    return out


def single(ks, mode, cfg, st):
    ops = [OPS[k] for k in ks]
    out = compile_([(ks, mode)], cfg)
    st.programs += 1
    want = expected(ks, cfg)
    what = None
    if want == "error":
        if out.crash:
            what = "compiler crashed: " + out.crash
        elif out.ok:
            what = "accepted, but must be rejected"
        elif out.loc[1] is None:
            what = "error without location: " + out.error
    elif not out.ok:
        what = "valid program refused: %s" % (out.error or out.crash)
    else:
        prog = mc.Program(out.files)
        what = cases.check_output(prog) or verify(
            prog, cases.base_world(prog, cfg, ("io", "pts", "my pts")), 0,
            ops, mode, st)
    if what:
        return core.Violation({
            "key": "%s %s %s" % (mode, ".".join(o[0] for o in ops),
                                 json.dumps(cfg)),
            "kind": "filters", "what": what, "ks": list(ks), "mode": mode,
            "cfg": cfg, "source": source([(ks, mode)]),
            "output": out.files})
    return None


def expected(ks, cfg):
    ops = [OPS[k] for k in ks]
    if cfg and tuple(cfg.get("mc_version", (1, 20, 10))) < (1, 19, 80) \
            and any("permission" in o[0] for o in ops):
        return "error"
    return known(ops)[1]


def batch(chunk, st):
    """chunk: [(op indexes, mode, config)] with one configuration"""
    cfg = chunk[0][2]
    good = []
    for ks, mode, c in chunk:
        e = expected(ks, cfg)
        if e == "ok":
            good.append((ks, mode))
        elif e == "error":
            st.states += 1
            v = single(ks, mode, cfg, st)
            if v:
                st.violations.append(v)
    if not good:
        return
    out = compile_(good, cfg)
    prog = mc.Program(out.files) if out.ok else None
    if prog is not None and not prog.malformed:
        st.programs += len(good)
        st.sample({"source": source(good[:1])})
        base = cases.base_world(prog, cfg, ("io", "pts", "my pts"))
        for i, (ks, mode) in enumerate(good):
            what = verify(prog, base, i, [OPS[k] for k in ks], mode, st)
            if what:
                v = single(ks, mode, cfg, st) or core.Violation({
                    "key": "batch %s %s" % (mode, ks), "kind": "filters",
                    "what": "only in a larger program: " + what,
                    "ks": list(ks), "mode": mode, "cfg": cfg,
                    "chunk": [list(x) for x in good]})
                st.violations.append(v)
        return
    n = len(st.violations)
    for ks, mode in good:
        v = single(ks, mode, cfg, st)
        if v:
            st.violations.append(v)
    if len(st.violations) == n:
        st.violations.append(core.Violation({
            "key": "batch %r" % (good[0],), "kind": "filters",
            "what": "only as one program: %s" % (out.error or out.crash),
            "ks": list(good[0][0]), "mode": good[0][1], "cfg": cfg,
            "chunk": [list(x) for x in good]}))


def replay(v):
    st = core.Stats()
    if v.get("chunk"):
        batch([(ks, m, v["cfg"]) for ks, m in v["chunk"]], st)
        r = st.violations[0] if st.violations else None
    else:
        r = single(v["ks"], v["mode"], v["cfg"], st)
    print(r["what"] if r else "no violation")
    return 1 if r else 0


LEGACY = {"mc_version": [1, 19, 0]}
NEW = {"mc_version": [1, 20, 50], "optimizer": False}


def jobs(chk):
    n = range(len(OPS))
    singles = [(k,) for k in n]
    pairs = list(itertools.product(range(PAIRED), repeat=2))
    core_ = CORE if chk.thorough else CORE[::2]
    triples = list(itertools.product(core_, repeat=3))
    for m in MODES:
        if m == "is":
            ok = [ks for ks in singles + pairs[::(1 if chk.thorough else 9)]
                  if all(OPS[k][1] != "rnd" for k in ks)]
        elif m in ("const", "base", "derived"):
            ok = singles + pairs[::(1 if chk.thorough else 7)]
        elif m == "select":
            ok = singles + pairs + triples
        elif chk.thorough:
            ok = singles + pairs
        else:
            ok = singles + pairs[1::5]
        for ks in ok:
            yield ks, m, None
    for cfg in (LEGACY, NEW):
        for ks in singles + (pairs if chk.thorough else pairs[::13]):
            yield ks, "filter", cfg
    if chk.thorough:
        for ks in itertools.product(CORE[::3], repeat=4):
            yield ks, "drop1", None


def check(chk):
    by = {}
    for j in jobs(chk):
        by.setdefault(json.dumps(j[2]), []).append(j)
    for js in by.values():
        chk.map(ME, "batch", js, 24)
