"""C27: every function of the world module does what it documents.

Part 1: every function with every combination of argument values (from small
domains, with every optional argument left out or given, positionally and by
name) under several versions; the commands run, decoded into what they act on
(entities, places, blocks, items, numbers, texts), against an independent
table.  Part 2: every argument replaced by every unsuitable value, missing,
repeated or unknown arguments: refused.  Part 3: functions that answer a
question, in every kind of condition."""
import itertools
import json
import re

from .. import cases, core, mc
from . import geometry as geo

ME = __name__
CFGS = [{"mc_version": (1, 20, 20), "education_edition": True},
        {"mc_version": (1, 20, 10)},
        {"mc_version": (1, 19, 80)},
        {"mc_version": (1, 19, 70), "education_edition": True},
        {"mc_version": (1, 19, 60)}]

PRELUDE = """import world
entity A:
    new():
        new("pig", Pos(0.0, 1.0, 0.0))
entity B:
    new():
        new("cow", Pos(0.0, 1.0, 0.0))
/summon player
ea := A()
eb := B()
/tp @e[type=pig] 10.25 4.5 -7.75 30 10
/execute in nether run tp @e[type=cow] -3.5 60 2.75 -120 -25
/tp @e[type=player] 0 64 0 0 0
g := Engroup[Entity]()
g.add(ea)
g.add(eb)
gp := ExternEngroup()
gp.select(Enfilter().is_type("player"))
gp.select(Enfilter().is_type("pig"))
g0 := Engroup[A]()
v := 3
vb := v > 2
const CI = 7
"""
# In this world: pig = ea, cow = eb, player

WHO = [("ea", ["pig"]), ("g", ["cow", "pig"]), ("gp", ["pig", "player"]),
       ("g0", [])]
PLAYERS = [("gp", ["player"]), ("ea", []), ("g", [])]
ENTS = [("ea", ["pig"]), ("eb", ["cow"])]


def st(src):
    for s, f in geo.BASES:
        if s == src:
            return f(geo.start(), geo.ENTS)
    raise KeyError(src)


POS = [("Pos(1, 2, 3)", st("Pos(1, 2, 3)")),
       ("Pos(eb)", st("Pos(eb, \"feet\")")),
       ("Pos(ea).local(Rot(90, 30), front=2)",
        geo.local(((10.25, 4.5, -7.75), (30., 90.), "overworld", False),
                  (0, 0, 2)))]
POS2 = POS[1:]
OFF = [("Offset(1, 2, -3)", lambda s: geo.shift(s, (
           geo.R_(1), geo.R_(2), geo.R_(-3)))),
       ("Offset(y_abs=5)", lambda s: geo.shift(s, (
           geo.Z, geo.A_(5), geo.Z))),
       ("Offset.local(1, 2, 3)", lambda s: geo.local(s, (1, 2, 3))),
       ("AbsPos(7, 8, 9)", lambda s: geo.shift(s, (
           geo.A_(7.5), geo.A_(8), geo.A_(9.5))))]
OFF2 = OFF[1:3]
BLOCK = [('"stone"', ["stone", {}]),
         ('world.Block("log", {"axis": "y", "n": 2, "lit": True, '
          '"dead": False})', ["log", {"axis": "y", "n": 2, "lit": True,
                                      "dead": False}])]
ITEM = [('"apple"', ["apple", 0, {}]),
        ('world.Item("log", 2)', ["log", 2, {}]),
        ('world.Item("axe", keep_on_death=True, can_destroy={"a", "b c"}, '
         'lock="lock_in_slot")', ["axe", 0, {
             "minecraft:keep_on_death": {},
             "minecraft:can_destroy": {"blocks": ["a", "b c"]},
             "minecraft:item_lock": {"mode": "lock_in_slot"}}]),
        ('world.Item("i", 32767, False, {}, {"é"}, "lock_in_inventory")',
         ["i", 32767, {"minecraft:can_place_on": {"blocks": ["é"]},
                       "minecraft:item_lock": {
                           "mode": "lock_in_inventory"}}])]
ITEM2 = ITEM[:3]
WORDS = [('"speed"', "speed"), ('"minecraft:wither"', "minecraft:wither")]
NAMES = [('"bob"', "bob"), ('"the \\"big\\" one, ok"', 'the "big" one, ok'),
         ('"a\\\\b"', "a\\b"), ('"@x"', "@x")]
TEXTS = [('"hello world"', "hello world"), ('"say \\"hi\\" 100%"',
                                            'say "hi" 100%')]
BOOLS = [("True", True), ("False", False)]
NONE = ("None", None)


def ints(*vs):
    return [(str(v) if v > -2 ** 31 else "(-2147483647 - 1)", v) for v in vs]


def enum(*vs):
    return [('"%s"' % v, v) for v in vs]


# --------------------------------------------------------------------------
# Decoding of commands

class Bad(Exception):
    pass


def num(x):
    if not re.fullmatch(r"[+-]?[0-9]+(\.[0-9]+)?", x):
        raise Bad("not a number: %r" % x)
    return float(x)


def integer(x):
    if not re.fullmatch(r"[+-]?[0-9]+", x):
        raise Bad("not an integer: %r" % x)
    return int(x)


class Decoder:
    def __init__(self, w, text, key, version):
        self.w, self.rd, self.version = w, mc.Reader(text), version
        ent, pos, rot, dim, anchor = key
        self.c = mc.Ctx(ent, tuple(pos), tuple(rot), dim, anchor)

    def word(self):
        return self.rd.word()

    def text(self):
        s = self.rd.string()
        self.rd.expect_end_or_space()
        return s

    def who(self):
        t = mc.parse_target(self.rd)
        if not isinstance(t, mc.Selector):
            raise Bad("not a selector %r" % (t,))
        return sorted(self.w.entities[i].type
                      for i in self.w.select(t, self.c))

    def me(self):
        return self.w.entities[self.c.ent].type if self.c.ent is not None \
            else None

    def pos(self):
        return [[geo.rd(x) for x in self.c.resolve(mc.parse_pos(self.rd))],
                self.c.dim]

    def block(self):
        name = self.word()
        states = {}
        self.rd.ws()
        if self.rd.peek() == "[":
            rd = self.rd
            rd.i += 1
            eq = "=" if self.version >= (1, 20, 10) else ":"
            if rd.peek() != "]":
                while True:
                    if rd.peek() != '"':
                        raise Bad("state name not quoted")
                    k = rd.quoted()
                    if rd.peek() != eq:
                        raise Bad("%r instead of %r" % (rd.peek(), eq))
                    rd.i += 1
                    if rd.peek() == '"':
                        val = rd.quoted()
                    else:
                        m = re.compile(r"true|false|-?[0-9]+").match(
                            rd.s, rd.i)
                        if not m:
                            raise Bad("bad state value")
                        rd.i = m.end()
                        val = {"true": True, "false": False}.get(m.group())
                        if val is None:
                            val = int(m.group())
                    if k in states:
                        raise Bad("state given twice")
                    states[k] = val
                    if rd.peek() != ",":
                        break
                    rd.i += 1
            if rd.peek() != "]":
                raise Bad("unclosed states")
            rd.i += 1
            rd.expect_end_or_space()
        return [name, states]

    def item(self):
        """<name> <amount> <data> [components]"""
        name, amount, data = self.word(), integer(self.word()), \
            integer(self.word())
        comp = json.loads(self.rd.rest()) if not self.rd.eof() else {}
        return [amount, [name, data, comp]]

    def flag(self):
        return {"true": True, "false": False}[self.word()]

    def oneof(self, *ws):
        x = self.word()
        if x not in ws:
            raise Bad("%r is not one of %r" % (x, ws))
        return x

    def decode(self):
        r = getattr(self, "d_" + self.word())()
        if not self.rd.eof():
            raise Bad("trailing text %r" % self.rd.rest())
        return r

    # every command, by its syntax in the game

    def d_clone(self):
        a, b, d = self.pos(), self.pos(), self.pos()
        mask = self.oneof("replace", "masked", "filtered")
        mode = self.oneof("normal", "force", "move")
        r = ["clone", a, b, d, mask, mode]
        return r + [self.block()] if mask == "filtered" else r

    def d_fill(self):
        r = ["fill", self.pos(), self.pos(), self.block()]
        r.append(self.oneof("destroy", "hollow", "outline", "keep",
                            "replace"))
        if not self.rd.eof():
            if r[-1] != "replace":
                raise Bad("filter without replace")
            r.append(self.block())
        return r

    def d_setblock(self):
        return ["setblock", self.pos(), self.block(),
                self.oneof("replace", "destroy", "keep")]

    def d_damage(self):
        r = ["damage", self.who(), integer(self.word())]
        if not self.rd.eof():
            r.append(self.word())
            if not self.rd.eof():
                self.oneof("entity")
                r.append(self.who())
        return r

    def d_effect(self):
        r = ["effect", self.who(), self.word()]
        if r[-1] != "clear":
            r += [integer(self.word()), integer(self.word()), self.flag()]
        return r

    def d_enchant(self):
        return ["enchant", self.who(), self.word(), integer(self.word())]

    def d_event(self):
        self.oneof("entity")
        return ["event", self.who(), self.word()]

    def d_me(self):
        return ["me", self.me(), self.rd.rest()]

    def d_say(self):
        return ["say", self.me(), self.rd.rest()]

    def d_tell(self):
        return ["tell", self.me(), self.who(), self.rd.rest()]

    def d_replaceitem(self):
        if self.oneof("block", "entity") == "block":
            r = ["replaceitem", self.pos()]
            self.oneof("slot.container")
        else:
            r = ["replaceitem", self.who(), self.word()]
        r += [integer(self.word()), self.oneof("keep", "destroy")]
        return r + self.item()

    def d_ride(self):
        r = ["ride", self.who(), self.word()]
        k = r[-1]
        if k == "start_riding":
            r += [self.who(), self.oneof("teleport_ride", "teleport_rider")]
            if r[-1] == "teleport_rider":
                r.append(self.oneof("if_group_fits", "until_full"))
        elif k in ("summon_rider", "summon_ride"):
            r.append(self.word())
            if k == "summon_ride":
                r.append(self.oneof("skip_riders", "no_ride_change",
                                    "reassign_rides"))
            r.append(self.word())
            if not self.rd.eof():
                r.append(self.text())
        elif k not in ("stop_riding", "evict_riders"):
            raise Bad("bad ride mode")
        return r

    def d_spreadplayers(self):
        a, b = mc.parse_coord(self.word()), mc.parse_coord(self.word())
        p = self.c.resolve([a, ("~", 0.0), b])
        return ["spread", [[geo.rd(p[0]), geo.rd(p[2])], self.c.dim],
                num(self.word()), num(self.word()), self.who()]

    def d_ability(self):
        return ["ability", self.who(), self.word(), self.flag()]

    def d_clear(self):
        r = ["clear", self.who()]
        if not self.rd.eof():
            r += [self.word(), integer(self.word()), integer(self.word())]
        return r

    def d_clearspawnpoint(self):
        return ["clearspawnpoint", self.who()]

    def d_gamemode(self):
        return ["gamemode", self.oneof(
            "survival", "creative", "adventure", "spectator", "default"),
            self.who()]

    def d_give(self):
        return ["give", self.who()] + self.item()

    def d_kick(self):
        r = ["kick", self.text()]
        return r if self.rd.eof() else r + [self.rd.rest()]

    def d_recipe(self):
        r = ["recipe", self.oneof("give", "take"), self.who()]
        if self.rd.s[self.rd.i:].strip() == "*":
            self.rd.rest()
            return r + ["*any*"]
        return r + [self.text()]

    def d_spawnpoint(self):
        return ["spawnpoint", self.who(), self.pos()]

    def d_xp(self):
        x = self.word()
        lv = x.endswith("L")
        return ["xp", "levels" if lv else "points",
                integer(x[:-1] if lv else x), self.who()]


def observer(version):
    def f(w):
        res = []
        for e in w.log:
            if e[0] == "raw":
                try:
                    res.append(Decoder(w, e[1], e[2], version).decode())
                except Exception as x:
                    res.append(["undecodable", e[1], str(x)])
            elif e[0] == "if blocks":
                res.append(["if blocks"] + [
                    [[geo.rd(x) for x in p], e[5]] for p in e[1:4]] + [e[4]])
            elif e[0] in ("kill",):
                pass
            elif e[0] == "summon":
                ent = w.entities.get(e[1])
                res.append(["summon", e[2], e[3], e[4]] + (
                    row(ent)[1:] if ent else []))
            elif e[0] == "tp":
                pass
            else:
                res.append(list(e))
        return res
    return f


def row(e):
    return [e.type, [geo.rd(x) for x in e.pos], geo.rd(e.rot[0]),
            geo.turn(e.rot[1]), e.dim]


def state(w):
    return sorted(row(e) + [sorted(t for t in e.tags
                                   if not t.startswith("acacia")),
                            bool(e.attrs.get("check"))]
                  for e in w.entities.values())


for _c in CFGS:
    _v = _c["mc_version"]
    cases.OBSERVERS["#world%d_%d_%d" % _v] = observer(_v)
cases.OBSERVERS["#state"] = state

START = {"pig": [(10.25, 4.5, -7.75), (10., 30.), "overworld", [], False],
         "cow": [(-3.5, 60., 2.75), (-25., -120.), "nether", [], False],
         "player": [(0., 64., 0.), (0., 0.), "overworld", [], False]}


def state_rows(ents):
    return sorted([t, [geo.rd(x) for x in p], geo.rd(r[0]), geo.turn(r[1]), d,
                   sorted(tags), chk] for t, p, r, d, tags, chk in ents)


# --------------------------------------------------------------------------
# The table: parameters (name, kind, domain, default or REQ) and effect.
# An effect gives the list of decoded commands, or ("state", f) where f
# changes the rows of START, or None: to be refused

REQ = object()
EVENT = [NONE, ('"minecraft:born"', "minecraft:born")]
NAME = [NONE] + NAMES
KEEP = {"aironly": "keep", "all": "replace"}
F = {}


def fun(name, params, effect, when=lambda cfg: True):
    F[name] = (params, effect, when)


def P(s):
    return geo.place(s)


fun("clone", [("origin", "pos", POS, REQ), ("offset", "off", OFF2, REQ),
              ("dest", "off", OFF2, REQ),
              ("mode", "enum?", [NONE] + enum("move", "force"), None),
              ("no_air", "bool", BOOLS, False)],
    lambda c, o, f, d, m, n: [["clone", P(o), P(f(o)), P(d(o)),
                               "masked" if n else "replace", m or "normal"]])
fun("clone_only", [("origin", "pos", POS2, REQ), ("offset", "off", OFF2, REQ),
                   ("dest", "off", OFF2, REQ), ("block", "block", BLOCK, REQ),
                   ("mode", "enum?", [NONE] + enum("move", "force"), None)],
    lambda c, o, f, d, b, m: [["clone", P(o), P(f(o)), P(d(o)), "filtered",
                               m or "normal", b]])
fun("fill", [("origin", "pos", POS, REQ), ("offset", "off", OFF, REQ),
             ("block", "block", BLOCK, REQ),
             ("replacement", "enum", enum("destroy", "hollow", "outline",
                                          "aironly", "all"), "all")],
    lambda c, o, f, b, r: [["fill", P(o), P(f(o)), b, KEEP.get(r, r)]])
fun("fill_replace", [("origin", "pos", POS, REQ), ("offset", "off", OFF, REQ),
                     ("block", "block", BLOCK, REQ),
                     ("replaces", "block", BLOCK, REQ)],
    lambda c, o, f, b, r: [["fill", P(o), P(f(o)), b, "replace", r]])
fun("setblock", [("pos", "pos", POS, REQ), ("block", "block", BLOCK, REQ),
                 ("replacement", "enum", enum("aironly", "destroy", "all"),
                  "all")],
    lambda c, o, b, r: [["setblock", P(o), b, KEEP.get(r, r)]])
fun("damage", [("target", "sel", WHO, REQ),
               ("amount", "int0", ints(0, 5, 2 ** 31 - 1), REQ),
               ("cause", "str?", [NONE] + WORDS, None),
               ("damager", "ent?", [NONE] + ENTS, None)],
    lambda c, t, a, k, d: None if d and not k else
    [["damage", t, a] + ([k] if k else []) + ([d] if d else [])])
fun("effect_give", [("target", "sel", WHO, REQ), ("effect", "str", WORDS, REQ),
                    ("duration", "int0", ints(0, 30), REQ),
                    ("amplifier", "int0-255", ints(0, 1, 255), 0),
                    ("particle", "bool", BOOLS, True)],
    lambda c, t, e, d, a, p: [["effect", t, e, d, a, not p]])
fun("effect_clear", [("target", "sel", WHO, REQ)],
    lambda c, t: [["effect", t, "clear"]])
fun("enchant", [("target", "sel", WHO, REQ),
                ("enchantment", "str", WORDS, REQ),
                ("level", "int1", ints(1, 5), 1)],
    lambda c, t, e, n: [["enchant", t, e, n]])
fun("event_entity", [("target", "sel", WHO, REQ), ("event", "str", WORDS,
                                                   REQ)],
    lambda c, t, e: [["event", t, e]])


def killed(c, t):
    def f(rows):
        for x in t:
            if x != "player":
                del rows[x]
    return ("state", f)


fun("kill", [("target", "sel", WHO, REQ)], killed)
fun("msg_me", [("sender", "ent", ENTS, REQ), ("message", "str", TEXTS, REQ)],
    lambda c, e, m: [["me", e[0], m]])
fun("msg_say", [("sender", "ent", ENTS, REQ), ("message", "str", TEXTS, REQ)],
    lambda c, e, m: [["say", e[0], m]])
fun("msg_tell", [("sender", "ent", ENTS, REQ), ("receiver", "sel", WHO, REQ),
                 ("message", "str", TEXTS, REQ)],
    lambda c, e, t, m: [["tell", e[0], t, m]])
fun("replaceitem_block", [
    ("pos", "pos", POS2, REQ), ("slot", "int", ints(0, 26), REQ),
    ("item", "item", ITEM, REQ), ("amount", "int1", ints(1, 64), 1),
    ("keep_old", "bool", BOOLS, False)],
    lambda c, p, s, i, a, k: [["replaceitem", P(p), s,
                               "keep" if k else "destroy", a, i]])
fun("replaceitem_entity", [
    ("target", "sel", WHO[:3], REQ),
    ("location", "str", enum("slot.hotbar"), REQ),
    ("slot", "int", ints(0, 8), REQ), ("item", "item", ITEM2, REQ),
    ("amount", "int1", ints(1, 64), 1), ("keep_old", "bool", BOOLS, False)],
    lambda c, t, l, s, i, a, k: [["replaceitem", t, l, s,
                                  "keep" if k else "destroy", a, i]])
fun("ride_start_tp_ride", [("rider", "ent", ENTS, REQ),
                           ("ride", "ent", ENTS, REQ)],
    lambda c, a, b: [["ride", a, "start_riding", b, "teleport_ride"]])
fun("ride_start_tp_rider", [("rider", "sel", WHO, REQ),
                            ("ride", "ent", ENTS, REQ),
                            ("fill", "enum", enum("if_group_fits",
                                                  "until_full"),
                             "until_full")],
    lambda c, a, b, f: [["ride", a, "start_riding", b, "teleport_rider", f]])
fun("ride_stop", [("rider", "sel", WHO, REQ)],
    lambda c, a: [["ride", a, "stop_riding"]])
fun("ride_evict_riders", [("ride", "sel", WHO, REQ)],
    lambda c, a: [["ride", a, "evict_riders"]])
fun("summon_rider", [("ride", "sel", WHO, REQ), ("type", "str", WORDS, REQ),
                     ("event", "str?", EVENT, None),
                     ("name", "str?", NAME, None)],
    lambda c, a, t, e, n: [["ride", a, "summon_rider", t, e or "*"]
                           + ([n] if n is not None else [])])
fun("summon_ride", [("rider", "sel", WHO[:3], REQ),
                    ("type", "str", WORDS, REQ),
                    ("event", "str?", EVENT, None),
                    ("name", "str?", NAME[:3], None),
                    ("mode", "enum", enum("skip_riders", "no_ride_change",
                                          "reassign_rides"),
                     "reassign_rides")],
    lambda c, a, t, e, n, m: [["ride", a, "summon_ride", t, m, e or "*"]
                              + ([n] if n is not None else [])])
fun("spread", [("target", "sel", WHO, REQ), ("center", "pos", POS, REQ),
               ("range", "float", [("1.0", 1.), ("2", 2.), ("0.75", .75),
                                   ("1000000000000000000000.0", 1e21)], REQ),
               ("interval", "float", [("0.0", 0.), ("1", 1.), ("0.00001",
                                                              1e-5),
                                      ("-1", -1.), ("1.5", 1.5)], 0.0)],
    lambda c, t, p, r, i: None if r < 1 or i < 0 or i + 1 > r else
    [["spread", [[geo.rd(p[0][0]), geo.rd(p[0][2])], p[2]], i, r, t]])

ROTV = [("Rot(10, 20)", geo.rot_abs(10, 20)), ("Rot(eb)", geo.rot_ent("eb")),
        ("Rot.face_entity(ea)", geo.rot_face("ea"))]


def summoned(c, t, p, e, n, r):
    new = c["mc_version"] >= (1, 19, 70)
    if r is not None and not new:
        return None
    rot = r(p, geo.ENTS)[1] if r is not None else (0., 0.)
    return [["summon", mc.norm_type(t), n, e, [geo.rd(x) for x in p[0]],
             geo.rd(rot[0]), geo.turn(rot[1]), p[2]]]


fun("summon", [("type", "str", WORDS, REQ), ("pos", "pos", POS, REQ),
               ("event", "str?", EVENT, None), ("name", "str?", NAME, None),
               ("rot", "rot", ROTV, None)], summoned)
TAGS = [('"t1"', "t1"), ('"a b"', "a b"), ('"x\\"y"', 'x"y')]


def tagged(add):
    def f(c, t, tag):
        def g(rows):
            for x in t:
                if add:
                    rows[x][3].append(tag)
        return ("state", g)
    return f


fun("tag_add", [("target", "sel", WHO, REQ), ("tag", "str", TAGS, REQ)],
    tagged(True))
fun("tag_remove", [("target", "sel", WHO, REQ), ("tag", "str", TAGS, REQ)],
    tagged(False))


def moved(place, chk=False):
    """place(pos, rot, dim of the entity) -> pos, rot, dim"""
    def f(t):
        def g(rows):
            for x in t:
                p, r, d, tags, _ = rows[x]
                rows[x] = list(place(p, r, d)) + [tags, chk]
        return ("state", g)
    return f


fun("tp", [("target", "sel", WHO, REQ), ("dest", "pos", POS, REQ),
           ("check_for_blocks", "bool", BOOLS, False)],
    lambda c, t, p, k: moved(lambda a, r, d: (p[0], r, p[2]), k)(t))
# (a group facing one of its members turns one by one; that is fine, nobody
# moves)
fun("rotate", [("target", "sel", WHO, REQ), ("rot", "rot", ROTV[:2]
                                             + ROTV[2:], REQ)],
    lambda c, t, r: ("seq", t, r))
FL = [("0.0", 0.), ("1", 1.), ("-2.25", -2.25)]
FL2 = [("0.0", 0.), ("12345678.0", 12345678.), ("0.0004", 0.)]
fun("move", [("target", "sel", WHO, REQ), ("x", "float", FL, 0.),
             ("y", "float", FL2, 0.), ("z", "float", FL, 0.),
             ("check_for_blocks", "bool", BOOLS, False)],
    lambda c, t, x, y, z, k: moved(lambda p, r, d: (
        (p[0] + x, p[1] + y, p[2] + z), r, d), k)(t))
fun("move_local", [("target", "sel", WHO, REQ), ("left", "float", FL, 0.),
                   ("up", "float", FL, 0.), ("front", "float", FL, 0.),
                   ("check_for_blocks", "bool", BOOLS, False)],
    lambda c, t, x, y, z, k: moved(lambda p, r, d: (
        geo.local((p, r, d, False), (x, y, z))[0], r, d), k)(t))
fun("ability", [("player", "psel", PLAYERS, REQ), ("ability", "str", WORDS,
                                                   REQ),
                ("value", "bool", BOOLS, REQ)],
    lambda c, t, a, b: [["ability", t, a, b]],
    lambda cfg: bool(cfg.get("education_edition")))
fun("clear_inventory", [("player", "psel", PLAYERS, REQ)],
    lambda c, t: [["clear", t]])
fun("clear", [("player", "psel", PLAYERS, REQ), ("item_id", "str", WORDS, REQ),
              ("item_data", "int-1", ints(-1, 0, 5), -1),
              ("max_count", "int-1", ints(-1, 0, 64), -1)],
    lambda c, t, i, d, m: [["clear", t, i, d, m]])
fun("spawnpoint_clear", [("player", "psel", PLAYERS, REQ)],
    lambda c, t: [["clearspawnpoint", t]])
fun("gamemode", [("player", "psel", PLAYERS, REQ),
                 ("gamemode", "enum", enum("survival", "creative",
                                           "adventure", "spectator",
                                           "default"), REQ)],
    lambda c, t, m: [["gamemode", m, t]])
fun("give", [("player", "psel", PLAYERS, REQ), ("item", "item", ITEM, REQ),
             ("amount", "int1-32767", ints(1, 64, 32767), 1)],
    lambda c, t, i, a: [["give", t, a, i]])
fun("kick", [("player_name", "str", NAMES, REQ),
             ("reason", "str?", [NONE] + TEXTS, None)],
    lambda c, n, r: [["kick", n] + ([r] if r is not None else [])])
fun("recipe", [("player", "psel", PLAYERS, REQ),
               ("recipe", "str", WORDS + [('"*"', "*any*")], REQ),
               ("unlock", "bool", BOOLS, REQ)],
    lambda c, t, r, u: [["recipe", "give" if u else "take", t, r]])
fun("spawnpoint_set", [("player", "psel", PLAYERS, REQ), ("pos", "pos", POS,
                                                          REQ)],
    lambda c, t, p: [["spawnpoint", t, P(p)]])
fun("xp_add_levels", [("player", "psel", PLAYERS, REQ),
                      ("amount", "int", ints(-5, 0, 2 ** 31 - 1), REQ)],
    lambda c, t, a: [["xp", "levels", a, t]])
fun("xp_add_points", [("player", "psel", PLAYERS, REQ),
                      ("amount", "int0", ints(0, 9), REQ)],
    lambda c, t, a: [["xp", "points", a, t]])


def base_state():
    return {k: [v[0], v[1], v[2], list(v[3]), v[4]] for k, v in START.items()}


def want_of(name, vals, cfg):
    params, effect, when = F[name]
    if not when(cfg):
        return None
    r = effect(cfg, *vals)
    obs = "#world%d_%d_%d" % cfg["mc_version"]
    rows = base_state()
    log = []
    if r is None:
        return None
    if isinstance(r, tuple) and r[0] == "state":
        r[1](rows)
    elif isinstance(r, tuple):
        for x in r[1]:
            p, rt, d = rows[x][:3]
            rows[x][1] = r[2]((p, rt, d, False), {
                "ea": tuple(rows["pig"][:3]),
                "eb": tuple(rows["cow"][:3])})[1]
    else:
        log = r
    exp = {obs: log}
    if name != "summon":
        exp["#state"] = state_rows([(t,) + tuple(v)
                                    for t, v in rows.items()])
    return exp


def forms(params, picks):
    """Sources of the argument list. picks: per parameter (src, val) or None"""
    given = [i for i, p in enumerate(picks) if p is not None]
    # as many positionally as possible, the rest by name
    pos = []
    for i in range(len(params)):
        if picks[i] is None:
            break
        pos.append(picks[i][0])
    rest = ["%s=%s" % (params[i][0], picks[i][0]) for i in given
            if i >= len(pos)]
    yield ", ".join(pos + rest)
    if given:
        yield ", ".join("%s=%s" % (params[i][0], picks[i][0])
                        for i in reversed(given))


def combos(params):
    doms = []
    for n, kind, dom, default in params:
        d = list(dom)
        if default is not REQ:
            d = [None] + d
        doms.append(d)
    return itertools.product(*doms)


def call_cases(name, cfg, lv):
    params = F[name][0]
    todo = []
    for k, picks in enumerate(combos(params)):
        vals = [p[1] if p is not None else params[i][3]
                for i, p in enumerate(picks)]
        fs = list(forms(params, picks))
        if not lv and len(fs) == 2:
            fs = [fs[k % 2]]
        for args in fs:
            exp = want_of(name, vals, cfg)
            c = {"key": "world.%s(%s)" % (name, args),
                 "body": ["world.%s(%s)" % (name, args)],
                 "inputs": [{}], "expect": [exp]}
            if exp is None:
                c["want"] = "error"
            todo.append(c)
    return todo


BADV = {
    "pos": ["1", "Offset(1)", "ea", "None", '"a"'],
    "off": ["1", "Pos(1, 2, 3)", "None"],
    "rot": ["1", "Pos(ea)", '"a"'],
    "block": ["1", 'world.Item("a")', "None", "v"],
    "item": ["1", 'world.Block("a")', "None"],
    "str": ["1", "None", "v", "True"],
    "str?": ["1", "v", "ea"],
    "enum": ['"nosuch"', "1", "None", '""'],
    "enum?": ['"nosuch"', "1", '""', '"normal"'],
    "bool": ["1", "vb", '"true"', "None"],
    "int": ["v", "1.0", "None", '"1"', "True"],
    "int0": ["v", "1.5", "None", "-1"],
    "int1": ["v", "1.5", "None", "0", "-1"],
    "int-1": ["v", "1.5", "None", "-2"],
    "int0-255": ["v", "None", "-1", "256"],
    "int1-32767": ["v", "None", "0", "32768"],
    "float": ["v", "None", '"1"', "True"],
    "sel": ["1", "None", '"@a"', "Pos(ea)"],
    "psel": ["1", "None", '"@a"', "Pos(ea)"],
    "ent": ["1", "None", '"@a"', "g"],
    "ent?": ["1", '"@a"', "g"],
}


def bad_cases(name, cfg):
    params = F[name][0]
    todo = []

    def refuse(args):
        todo.append({"key": "refused: world.%s(%s)" % (name, args),
                     "body": ["world.%s(%s)" % (name, args)],
                     "inputs": [{}], "expect": [None], "want": "error"})
    good = [p[2][-1][0] if p[1] in ("enum?", "str?", "ent?") else p[2][0][0]
            for p in params]
    if name == "spread":
        good[2] = "2"
    for i, p in enumerate(params):
        if not (p[1] == "rot" and name == "summon"
                and cfg["mc_version"] < (1, 19, 70)):
            for b in BADV[p[1]]:
                refuse(", ".join(good[:i] + [b] + good[i + 1:]))
        if p[3] is REQ:
            refuse(", ".join("%s=%s" % (q[0], g) for q, g in zip(params, good)
                             if q is not p))
        refuse(", ".join(good + ["%s=%s" % (p[0], good[i])]))
    refuse(", ".join(good + ["1"]))
    refuse(", ".join(good + ["nosuch=1"]))
    return todo


BAD_OBJ = ['Item("a", -1)', 'Item("a", 32768)', 'Item(1)', 'Item()',
           'Item("a", v)', 'Item("a", lock="x")', 'Item("a", lock=1)',
           'Item("a", keep_on_death=1)', 'Item("a", can_destroy="x")',
           'Item("a", can_destroy={1})', 'Item("a", can_place_on={v})',
           'Block()', 'Block(1)', 'Block("a", 1)', 'Block("a", {"x": v})',
           'Block("a", {1: 1})', 'Block("a", {"x": 1.5})',
           'Block("a", {"x": None})', 'Block("a", {"x"})']


# --------------------------------------------------------------------------
# Questions

def question_cases():
    todo = []
    places = [("Pos(1, 2, 3)", [1, 2, 3]), ("Pos(ea)", None),
              ("Pos(eb)", None)]
    blocks = BLOCK + [('"air"', ["air", {}])]
    shapes = [
        ("if", lambda q: ["if %s:" % q, '    scb("r", "io") = 1',
                          "else:", '    scb("r", "io") = 0'], bool),
        ("not", lambda q: ["if not %s:" % q, '    scb("r", "io") = 1',
                           "else:", '    scb("r", "io") = 0'],
         lambda x: not x),
        ("var", lambda q: ["z := %s" % q, "if z:", '    scb("r", "io") = 1',
                           "else:", '    scb("r", "io") = 0'], bool),
        ("and", lambda q: ["if vb and %s:" % q, '    scb("r", "io") = 1',
                           "else:", '    scb("r", "io") = 0'], bool),
        ("or", lambda q: ["if %s or not vb:" % q, '    scb("r", "io") = 1',
                          "else:", '    scb("r", "io") = 0'], bool),
        ("while", lambda q: ['scb("r", "io") = 0', "while %s:" % q,
                             '    scb("r", "io") += 1',
                             "    %s"], None)]
    for (i, (ps, _)), (bs, bv), (cs, cv) in itertools.product(
            enumerate(places), blocks, blocks):
        for sn, sf, res in shapes:
            q = "world.is_block(%s, %s)" % (ps, cs)
            yes = bv == cv
            body = ["world.setblock(%s, %s)" % (ps, bs)] + sf(q)
            if sn == "while":
                # change the block inside the loop
                body[-1] = "    world.setblock(%s, \"gold\")" % ps
                r = int(yes)
            else:
                r = int(res(yes))
            todo.append({"key": "%s %s after %s" % (sn, q, bs), "body": body,
                         "inputs": [{}], "expect": [{"r": r}]})
    # other places stay what they were
    for ps, d in (("Pos(ea)", "y=1"), ("Pos(ea)", "x=-1"),
                  ("Pos(eb)", "z=1")):
        todo.append({"key": "neighbour %s %s" % (ps, d), "body": [
            "world.setblock(%s, \"stone\")" % ps,
            "if world.is_block(%s.offset(%s), \"stone\"):" % (ps, d),
            '    scb("r", "io") = 1',
            "elif world.is_block(%s, \"stone\"):" % ps,
            '    scb("r", "io") = 2'],
            "inputs": [{}], "expect": [{"r": 2}]})
    return todo


def area_cases(cfg):
    todo = []
    obs = "#world%d_%d_%d" % cfg["mc_version"]
    for (ps, p), (fs, f), (os_, o), a in itertools.product(
            POS, OFF, OFF, (None, True, False)):
        q = "world.is_same_area(%s, %s, %s%s)" % (
            ps, fs, os_, "" if a is None else ", ignore_air=%s" % a)
        want = ["if blocks", P(p), P(f(p)), P(o(p)),
                "masked" if a else "all"]
        todo.append({"key": q, "body": [
            "if %s:" % q, '    scb("r", "io") = 1'],
            "inputs": [{"r": 0}], "expect": [{obs: [want], "r": 0}]})
    return todo


# --------------------------------------------------------------------------

def batch(chunk, st_):
    for what, name, k, lv in chunk:
        cfg = CFGS[k]
        if what == "call":
            todo = call_cases(name, cfg, lv)
        elif what == "bad":
            todo = bad_cases(name, cfg)
        elif what == "obj":
            todo = [{"key": "refused: " + x, "body": [
                "const bad = world." + x], "inputs": [{}], "expect": [None],
                "want": "error"} for x in BAD_OBJ]
        elif what == "question":
            todo = question_cases()
        else:
            todo = area_cases(cfg)
        for i in range(0, len(todo), 60):
            cases.run_batch(todo[i:i + 60], st_, PRELUDE, cfg)
            if len(st_.violations) > 30:
                return


def check(chk):
    lv = chk.thorough
    ks = range(len(CFGS))
    quick = {"summon", "setblock", "fill_replace", "ability"}
    its = []
    for n in F:
        for k in ks:
            if lv or k == 0 or n in quick:
                its.append(("call", n, k, lv))
                its.append(("bad", n, k, lv))
            elif k == 2:
                its.append(("call", n, k, lv))
    for k in ks:
        its += [("question", "", k, lv), ("area", "", k, lv)] \
            if lv or k in (0, 2) else []
    its.append(("obj", "", 0, lv))
    size = {}
    for it in its:
        n = 1
        if it[0] == "call":
            for p in F[it[1]][0]:
                n *= len(p[2]) + (p[3] is not REQ)
        size[it] = n
    its.sort(key=lambda x: -size[x])
    chk.map(ME, "batch", its, 1)
    chk.bounds = {"functions": len(F) + 2, "configurations": len(CFGS),
                  "combinations": "all of the argument domains"}
    chk.assumptions = [
        "the syntax of the commands of the game is the one transcribed in "
        "the decoder of the check"]


def replay(v):
    return cases.replay(v)
