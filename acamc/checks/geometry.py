"""C26: positions, rotations and offsets denote the places they describe.

Part 1: every position expression - a base and every chain of operations up to
a depth - used by a command; the place (and dimension) the command acts on,
executed on the machine, against an independent evaluator.
Part 2: every rotation expression, put on an entity, used for a summon and for
a local offset.
Part 3: every way of building an offset, and what is refused.
Part 4: values carried through constants, functions, lists, methods; the
operations never change the value they start from."""
import itertools
import math
import re

from .. import cases, core, mc

ME = __name__
CFG = {"mc_version": (1, 20, 20)}
EYE = 1.62

PRELUDE = """import world
entity B:
    new():
        new("cow", Pos(0.0, 1.0, 0.0))
entity A:
    new():
        new("pig", Pos(0.0, 1.0, 0.0))
    def here():
        world.setblock(Pos(self).local(Rot(self), front=2), "stone")
    def there(o: B):
        world.setblock(Pos(self).local(Rot.face_entity(o), front=2), "stone")
    inline def there2(o: B):
        world.setblock(Pos(o).local(Rot.face_entity(self), front=3), "stone")
    inline def there3(const f: Offset):
        world.setblock(Pos(self).apply(f), "stone")
/summon player
ea := A()
eb := B()
/tp @e[type=pig] 10.25 4.5 -7.75 30 10
/execute in nether run tp @e[type=cow] -3.5 60 2.75 -120 -25
const O1 = Offset(1, y_abs=5)
const O2 = Offset().abs(z=4).offset(x=1.5)
const R1 = Rot(90, 30)
const BIG = 100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000.0
const def moved(p: Pos) -> Pos:
    result p.apply(Offset(1)).align("x")
inline def put(const p: Pos, const o: Offset):
    world.setblock(p.apply(o), "stone")
    world.setblock(p, "stone")
"""
ENTS = {"ea": ((10.25, 4.5, -7.75), (10.0, 30.0), "overworld"),
        "eb": ((-3.5, 60.0, 2.75), (-25.0, -120.0), "nether")}


# --------------------------------------------------------------------------
# Reference evaluator.  A place is (pos, (pitch, yaw), dimension, eyes)

def unit(pitch, yaw):
    """the direction looked at"""
    a, b = math.radians(pitch), math.radians(yaw)
    return (-math.sin(b) * math.cos(a), -math.sin(a), math.cos(b) * math.cos(a))


def cross(u, v):
    return (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2],
            u[0] * v[1] - u[1] * v[0])


def local(st, lu):
    pos, (pitch, yaw), dim, eyes = st
    if eyes:
        pos = (pos[0], pos[1] + EYE, pos[2])
    f = unit(pitch, yaw)
    u = unit(pitch - 90, yaw)
    lf = cross(u, f)
    return (tuple(pos[i] + lu[0] * lf[i] + lu[1] * u[i] + lu[2] * f[i]
                  for i in range(3)), (pitch, yaw), dim, False)


def lookat(st, target):
    pos, rot, dim, eyes = st
    p = (pos[0], pos[1] + (EYE if eyes else 0), pos[2])
    d = [target[i] - p[i] for i in range(3)]
    yaw = math.degrees(math.atan2(-d[0], d[2]))
    pitch = -math.degrees(math.atan2(d[1], math.hypot(d[0], d[2])))
    return (pos, (pitch, yaw), dim, eyes)


def shift(st, offs):
    """offs: 3 x (kind, value)"""
    pos, rot, dim, eyes = st
    return (tuple(v if k == "abs" else pos[i] + v
                  for i, (k, v) in enumerate(offs)), rot, dim, False)


def rot_abs(yaw=None, pitch=None):
    def f(st, ents):
        pos, (p, y), dim, eyes = st
        return (pos, (p if pitch is None else pitch, y if yaw is None else yaw),
                dim, eyes)
    return f


def rot_off(yaw=0.0, pitch=0.0):
    return lambda st, ents: (st[0], (st[1][0] + pitch, st[1][1] + yaw),
                             st[2], st[3])


def rot_ent(name):
    return lambda st, ents: (st[0], ents[name][1], st[2], st[3])


def rot_face(name, eyes=False):
    def f(st, ents):
        p = ents[name][0]
        return lookat(st, (p[0], p[1] + (EYE if eyes else 0), p[2]))
    return f


def seq(*fs):
    def f(st, ents):
        for g in fs:
            st = g(st, ents)
        return st
    return f


def off(*offs):
    return lambda st, ents: shift(st, offs)


def loc(left=0.0, up=0.0, front=0.0):
    return lambda st, ents: local(st, (left, up, front))


def at(name, eyes=False):
    return lambda st, ents: (ents[name][0], ents[name][1], ents[name][2], eyes)


def into(dim):
    return lambda st, ents: (st[0], st[1], dim, st[3])


def floor(axes):
    return lambda st, ents: (tuple(
        float(math.floor(round(v, 6))) if "xyz"[i] in axes else v
        for i, v in enumerate(st[0])), st[1], st[2], st[3])


def A_(v):
    return ("abs", float(v))


def R_(v):
    return ("rel", float(v))


Z = R_(0)
BASES = [
    ("Pos(1, 2, 3)", off(A_(1.5), A_(2), A_(3.5))),
    ("Pos(-1.0, -2.5, 0.25)", off(A_(-1), A_(-2.5), A_(0.25))),
    ("Pos(-1, 0, 2.0)", off(A_(-.5), A_(0), A_(2))),
    ("Pos(ea)", at("ea")),
    ("Pos(eb, \"feet\")", at("eb")),
    ("Pos(eb, \"eyes\")", at("eb", True)),
    ("AbsPos(4, 5, -6)", off(A_(4.5), A_(5), A_(-5.5))),
]
METHODS = [
    (".dim(\"nether\")", into("nether")),
    (".dim(id=\"the_end\")", into("the_end")),
    (".dim(\"overworld\")", into("overworld")),
    (".abs(7)", off(A_(7.5), Z, Z)),
    (".abs(y=2, z=-1)", off(Z, A_(2), A_(-.5))),
    (".abs(1.0, 2, 3.25)", off(A_(1), A_(2), A_(3.25))),
    (".abs(0, 0, 0.0)", off(A_(.5), A_(0), A_(0))),
    (".offset(1)", off(R_(1), Z, Z)),
    (".offset(y=-0.5)", off(Z, R_(-.5), Z)),
    (".offset(1, 2.25, -3)", off(R_(1), R_(2.25), R_(-3))),
    (".offset(None, 3, None)", off(Z, R_(3), Z)),
    (".apply(O1)", off(R_(1), A_(5), Z)),
    (".apply(O2)", off(R_(1.5), Z, A_(4.5))),
    (".apply(O2.offset(z=2))", off(R_(1.5), Z, R_(2))),
    (".apply(Offset.local(1, 2, -3))", loc(1, 2, -3)),
    (".apply(Offset.local(front=2.5))", loc(front=2.5)),
    (".apply(AbsPos(2, 2.5, -2))", off(A_(2.5), A_(2.5), A_(-1.5))),
    (".local(R1, front=2)", seq(rot_abs(90, 30), loc(front=2))),
    (".local(R1.offset(horizontal=15), left=1, up=-1.1)",
     seq(rot_abs(90, 45), loc(1, -1.1))),
    (".local(Rot(ea), 1, 2, 3)", seq(rot_ent("ea"), loc(1, 2, 3))),
    (".local(Rot(eb).abs(0), up=1.5)",
     seq(rot_ent("eb"), rot_abs(0), loc(up=1.5))),
    (".local(Rot.face_entity(ea, \"eyes\"), front=1)",
     seq(rot_face("ea", True), loc(front=1))),
    (".local(rot=Rot.face_entity(eb), front=-4, left=2)",
     seq(rot_face("eb"), loc(2, 0, -4))),
    (".align()", floor("xyz")),
    (".align(\"xz\")", floor("xz")),
    (".align(axis=\"zy\")", floor("yz")),
]
# one operation of every kind
KINDS = [i for i, m in enumerate(METHODS) if m[0] in (
    '.dim("nether")', '.abs(y=2, z=-1)', '.offset(1, 2.25, -3)',
    '.apply(O1)', '.apply(Offset.local(1, 2, -3))',
    '.local(R1, front=2)', '.local(Rot(ea), 1, 2, 3)',
    '.local(Rot.face_entity(ea, "eyes"), front=1)', '.align("xz")')]
AP_BASES = [("AbsPos(4, 5, -6)", (4.5, 5.0, -5.5)),
            ("AbsPos(0.25, -1.5, 0)", (0.25, -1.5, 0.5))]


def start():
    return ((0.0, 0.0, 0.0), (0.0, 0.0), "overworld", False)


class Near(float):
    """equal to what differs by less than the machine's rounding"""

    def __eq__(self, other):
        a, b = float(self), float(other)
        return abs(a - b) < max(0.002, abs(a) * 1e-9)

    def __ne__(self, other):
        return not self == other

    __hash__ = None


def rd(x):
    return Near(x)


def turn(x):
    x = x % 360
    return Near(x if x < 359.999 else x - 360)


def place(st):
    return [[rd(x) for x in st[0]], st[2]]


def where(log):
    """Places that the setblock commands of a log act on"""
    res = []
    for e in log:
        if e[0] == "raw" and re.match(r"setblock\b", e[1]):
            r = mc.Reader(e[1])
            r.word()
            ent, pos, rot, dim, anchor = e[2]
            c = mc.Ctx(ent, tuple(pos), tuple(rot), dim, anchor)
            res.append([[rd(x) for x in c.resolve(mc.parse_pos(r))], dim])
        else:
            res.append(e)
    return res


def rots(w):
    return sorted([e.type, [rd(x) for x in e.pos], rd(e.rot[0]),
                   turn(e.rot[1]), e.dim]
                  for e in w.entities.values() if e.type != "player")


cases.OBSERVERS["#where"] = lambda w: where(cases.observe(w, "#log"))
cases.OBSERVERS["#rots"] = rots


def put(src):
    return "world.setblock(%s, \"stone\")" % src


def pos_case(prefix, st, ms):
    """A prefix kept in a constant, then extended by every method"""
    body, want = ["const q = %s" % prefix], []
    for src, f in ms:
        body.append(put("q" + src))
        want.append(place(f(st, ENTS)))
    body.append(put("q"))
    want.append(place(st))
    return {"key": prefix, "body": body, "inputs": [{}],
            "expect": [{"#where": want}]}


def pos_batch(chunk, st):
    todo = []
    for path in chunk:
        b = BASES[path[0]]
        src, s = b[0], b[1](start(), ENTS)
        for k in path[1:]:
            src += METHODS[k][0]
            s = METHODS[k][1](s, ENTS)
        todo.append(pos_case(src, s, METHODS))
    for i in range(0, len(todo), 20):
        cases.run_batch(todo[i:i + 20], st, PRELUDE, CFG)


# --------------------------------------------------------------------------
# Rotations

ROTS = [
    ("Rot(90, 30)", rot_abs(90, 30)),
    ("Rot(-45.5, 0)", rot_abs(-45.5, 0)),
    ("Rot(5, -80.25)", rot_abs(5, -80.25)),
    ("Rot(ea)", rot_ent("ea")),
    ("Rot(eb)", rot_ent("eb")),
    ("Rot.face_entity(eb)", rot_face("eb")),
    ("Rot.face_entity(ea, \"eyes\")", rot_face("ea", True)),
    ("Rot.face_entity(anchor=\"feet\", target=eb)", rot_face("eb")),
]
RMETH = [
    (".abs(10)", rot_abs(10)),
    (".abs(horizontal=-5.5)", rot_abs(None, -5.5)),
    (".abs(-20, 15)", rot_abs(-20, 15)),
    (".abs()", rot_abs()),
    (".abs(0, 0.0)", rot_abs(0, 0)),
    (".abs(None, 3)", rot_abs(None, 3)),
    (".offset(10.5)", rot_off(10.5)),
    (".offset(horizontal=-3)", rot_off(0, -3)),
    (".offset(1, 2)", rot_off(1, 2)),
    (".offset()", rot_off()),
    (".offset(vertical=None)", rot_off()),
]
RPOS = [("Pos(0.0, 50.0, 0.0)", off(A_(0), A_(50), A_(0))),
        ("Pos(eb, \"eyes\")", at("eb", True)),
        ("Pos(ea).offset(y=2)", seq(at("ea"), off(Z, R_(2), Z)))]


def ent_rows(ents):
    return [[t, [rd(x) for x in p], rd(r[0]), turn(r[1]), d]
            for t, (p, r, d) in ents]


def rot_case(prefix, f):
    todo = []
    for src, g in [("", rot_off())] + RMETH:
        full = "r" + src
        h = seq(f, g)
        # on an entity
        for who in ("ea", "eb"):
            ents = dict(ENTS)
            p, r, d = ents[who]
            ents[who] = (p, h((p, r, d, False), ENTS)[1], d)
            todo.append({
                "key": "rotate %s %s%s" % (who, prefix, src),
                "body": ["const r = %s" % prefix,
                         "world.rotate(%s, %s)" % (who, full)],
                "inputs": [{}], "expect": [{"#rots": sorted(ent_rows(
                    [("pig", ents["ea"]), ("cow", ents["eb"])]))}]})
        # summons and local offsets
        body, rows = ["const r = %s" % prefix], []
        wh = []
        for i, (ps, pf) in enumerate(RPOS):
            s = pf(start(), ENTS)
            body.append("world.summon(\"bat\", %s, rot=%s)" % (ps, full))
            s2 = h(s, ENTS)
            rows.append(("bat", (s[0], s2[1], s[2])))
        todo.append({"key": "summon %s%s" % (prefix, src), "body": body,
                     "inputs": [{}], "expect": [{"#rots": sorted(ent_rows(
                         [("pig", ENTS["ea"]), ("cow", ENTS["eb"])] + rows))}]})
        body = ["const r = %s" % prefix]
        for ps, pf in RPOS:
            s = h(pf(start(), ENTS), ENTS)
            body.append(put("%s.local(%s, 1, 2, 3)" % (ps, full)))
            wh.append(place(local(s, (1, 2, 3))))
        todo.append({"key": "local %s%s" % (prefix, src), "body": body,
                     "inputs": [{}], "expect": [{"#where": wh}]})
    return todo


def rot_batch(chunk, st):
    todo = []
    for path in chunk:
        src, f = ROTS[path[0]]
        fs = [f]
        for k in path[1:]:
            src += RMETH[k][0]
            fs.append(RMETH[k][1])
        todo += rot_case(src, seq(*fs))
    for i in range(0, len(todo), 100):
        cases.run_batch(todo[i:i + 100], st, PRELUDE, CFG)


# --------------------------------------------------------------------------
# Offsets

OFF_M = [("", None), (".abs(2, None, 1.5)", {0: A_(2.5), 2: A_(1.5)}),
         (".abs(y=3)", {1: A_(3)}), (".abs(z=0)", {2: A_(.5)}),
         (".offset(x=2)", {0: R_(2)}), (".offset(1.5, -1, None)",
                                        {0: R_(1.5), 1: R_(-1)}),
         (".offset(z=0)", {2: R_(0)}), (".offset()", {}),
         (".abs(x=0.0)", {0: A_(0)}), (".abs(y=0)", {1: A_(0)}),
         (".abs(0, None, 0.0)", {0: A_(.5), 2: A_(0)}),
         (".offset(0, 0.0)", {0: R_(0), 1: R_(0)})]


def off_cases(todo):
    for combo, zero in itertools.product(
            itertools.product(range(5), repeat=3), (False, True)):
        args, offs, bad = [], [], False
        for ax, k in zip("xyz", combo):
            v = 0 if zero else {"x": 1, "y": 2, "z": -3}[ax]
            if k == 0:
                offs.append(Z)
            elif k == 1:
                args.append("%s=%d" % (ax, v))
                offs.append(R_(v))
            elif k == 2:
                t = "0.0" if zero else "%d.5" % v
                args.append("%s_abs=%s" % (ax, t))
                offs.append(A_(t))
            elif k == 3:
                args.append("%s_abs=%d" % (ax, v))
                offs.append(A_(v))
            else:
                args.append("%s=%d" % (ax, v))
                args.append("%s_abs=%d" % (ax, v))
                bad = True
        ctor = "Offset(%s)" % ", ".join(args)
        if bad:
            todo.append({"key": ctor, "body": ["const o = %s" % ctor],
                         "inputs": [{}], "expect": [None],
                         "want": "error:POS_OFFSET_CTOR_ARG"})
            continue
        body, want = ["const o = %s" % ctor], []
        s = ENTS["ea"][:2] + (ENTS["ea"][2], False)
        for m1, m2 in itertools.product(OFF_M, repeat=2):
            o = dict(enumerate(offs))
            o.update(m1[1] or {})
            o.update(m2[1] or {})
            body.append(put("Pos(ea).apply(o%s%s)" % (m1[0], m2[0])))
            want.append(place(shift(s, [o[i] for i in range(3)])))
        body.append(put("Pos(ea).apply(o)"))
        want.append(place(shift(s, offs)))
        todo.append({"key": ctor, "body": body, "inputs": [{}],
                     "expect": [{"#where": want}]})
    # an offset in local coordinates, changed on single axes, mixes
    # coordinates of two kinds; only all three at once makes sense
    body, want = ["const o = Offset.local(1, 2, 3)"], []
    s = ENTS["ea"][:2] + (ENTS["ea"][2], False)
    for m, o in ((".abs(1, 2, 3)", [A_(1.5), A_(2), A_(3.5)]),
                 (".offset(1, 2, 3)", [R_(1), R_(2), R_(3)])):
        body.append(put("Pos(ea).apply(o%s)" % m))
        want.append(place(shift(s, o)))
    body.append(put("Pos(ea).apply(o)"))
    want.append(place(local(s, (1, 2, 3))))
    todo.append({"key": "Offset.local", "body": body, "inputs": [{}],
                 "expect": [{"#where": want}]})
    # absolute positions
    for src, p in AP_BASES:
        body, want = ["const a = %s" % src], []

        def add(x, st):
            body.append(put(x))
            want.append(place(st))
        for m, o in ((".abs(2)", [A_(2.5), None, None]),
                     (".abs(y=1, z=2.0)", [None, A_(1), A_(2)]),
                     (".abs(2, None, 1)", [A_(2.5), None, A_(1.5)]),
                     (".offset(1, 2, 3)", [R_(1), R_(2), R_(3)]),
                     (".offset(z=-0.5)", [None, None, R_(-.5)]),
                     (".abs(0.0, 0, 0)", [A_(0), A_(0), A_(.5)]),
                     (".abs(y=0)", [None, A_(0), None]),
                     (".offset(0, 0.0)", [R_(0), R_(0), None]),
                     (".offset()", [None, None, None])):
            v = tuple(p[i] if x is None else x[1] if x[0] == "abs"
                      else p[i] + x[1] for i, x in enumerate(o))
            add("a" + m, (v, None, "overworld", False))
            add("a%s.offset(x=0.5)" % m, ((v[0] + .5,) + v[1:], None,
                                          "overworld", False))
            add("Pos(eb).apply(a%s)" % m, (v, None, "nether", False))
            add("AbsPos(a%s.x, a%s.z, a%s.y)" % (m, m, m),
                ((v[0], v[2], v[1]), None, "overworld", False))
        add("a", (p, None, "overworld", False))
        add("Pos(eb).apply(a)", (p, None, "nether", False))
        add("Pos(a.x + a.y, a.y, a.z * 2)",
            ((p[0] + p[1], p[1], p[2] * 2), None, "overworld", False))
        todo.append({"key": src, "body": body, "inputs": [{}],
                     "expect": [{"#where": want}]})


BAD = [
    ("Pos(ea).align(\"xx\")", "INVALID_POS_ALIGN"),
    ("Pos(ea).align(\"xw\")", "INVALID_POS_ALIGN"),
    ("Pos(ea).align(\"xyzx\")", "INVALID_POS_ALIGN"),
    ("Pos(ea).align(\"X\")", "INVALID_POS_ALIGN"),
    ("Pos(ea).align(\"\")", None),
    ("Pos(ea, \"nose\")", None),
    ("Pos(ea, \"\")", None),
    ("Rot.face_entity(ea, \"nose\")", None),
    ("Pos(1, 2)", None),
    ("Pos()", None),
    ("Pos(1, 2, 3, 4)", None),
    ("Pos(\"1\", 2, 3)", None),
    ("Pos(v, 2, 3)", None),
    ("Pos(1, v, 3)", None),
    ("Pos(1, 2, v)", None),
    ("Pos(1, None, 3)", None),
    ("Rot(1)", None),
    ("Rot(1, v)", None),
    ("Rot(None, 1)", None),
    ("Offset(v)", None),
    ("Offset(1, 2, 3, 4)", None),
    ("Offset(True)", None),
    ("Pos(ea).offset(v)", None),
    ("Pos(ea).abs(w=1)", None),
    ("Pos(ea).apply(Pos(1, 2, 3))", None),
    ("Pos(ea).apply(1)", None),
    ("Pos(ea).local(1, 2, 3)", None),
    ("Pos(ea).local()", None),
    ("Pos(ea).dim(1)", None),
    ("AbsPos(ea)", None),
    ("Pos(ea).offset(BIG * BIG)", None),
    ("Rot(0, 0 - BIG * BIG)", None),
    ("AbsPos(1, 2, 3).offset(BIG * BIG)", None),
    ("AbsPos(1, 2)", None),
    ("AbsPos(1, v, 3)", None),
]


def bad_cases(todo):
    for src, t in BAD:
        todo.append({"key": "refused: " + src,
                     "body": ["v := 1", "const bad = %s" % src],
                     "inputs": [{}], "expect": [None],
                     "want": "error:" + t if t else "error"})


# --------------------------------------------------------------------------
# Values carried around

def carried(todo):
    ea = at("ea")(start(), ENTS)
    eb = at("eb")(start(), ENTS)

    def one(key, body, states):
        todo.append({"key": key, "body": body, "inputs": [{}],
                     "expect": [{"#where": [place(s) for s in states]}]})
    front = local(ea, (0, 0, 2))
    one("method self", ["ea.here()"], [front])
    one("method self twice", ["ea.here()", "ea.here()"], [front, front])
    lk = local(lookat(ea, eb[0]), (0, 0, 2))
    one("method argument", ["ea.there(eb)"], [lk])
    lk2 = local(lookat(eb, ea[0]), (0, 0, 3))
    one("inline method", ["ea.there2(eb)"], [lk2])
    one("inline method const", ["ea.there3(Offset(1, y_abs=2))",
                                "ea.there3(Offset.local(front=2))"],
        [shift(ea, (R_(1), A_(2), Z)), front])
    for src, f in BASES:
        s = f(start(), ENTS)
        if not src.startswith("AbsPos"):
            one("inline const " + src,
                ["put(%s, O1)" % src, "put(%s, Offset.local(up=1))" % src,
                 "const p = %s" % src, "put(p, O2)"],
                [shift(s, (R_(1), A_(5), Z)), s, local(s, (0, 1, 0)), s,
                 shift(s, (R_(1.5), Z, A_(4.5))), s])
            s2 = floor("x")(shift(s, (R_(1), Z, Z)), ENTS)
            s3 = floor("x")(shift(s2, (R_(1), Z, Z)), ENTS)
            one("const function " + src,
                ["const p = %s" % src, put("moved(p)"), put("moved(moved(p))"),
                 put("moved(p)"), put("p")], [s2, s3, s2, s])
        one("list " + src,
            ["const l = {%s, %s.offset(1), Pos(0, 0, 0)}" % (src, src)
             if not src.startswith("AbsPos") else
             "const l = {%s, %s.offset(1)}" % (src, src),
             "for p in l:", "    " + put("p"),
             put("l[1]"), put("l[0]")],
            [s, shift(s, (R_(1), Z, Z))]
            + ([] if src.startswith("AbsPos") else
               [((.5, 0., .5), None, "overworld", False)])
            + [shift(s, (R_(1), Z, Z)), s])
        one("alias " + src,
            ["const p = %s" % src, "const q = p", put("q.offset(y=1)"),
             put("p"), "const r = q", put("r.abs(y=4)"), put("p"), put("q")],
            [shift(s, (Z, R_(1), Z)), s, shift(s, (Z, A_(4), Z)), s, s])
    # numbers whose shortest form is in scientific notation
    for v in ("0.00001", "100000000000000000000.0", "(1 / 1024.0 / 1024.0)",
              "-0.000000007", "123456789012345678.5"):
        x = eval(v)
        one("offset by " + v, [put("Pos(ea).offset(%s, 0, %s)" % (v, v)),
                               put("Pos(%s, %s, 0.0)" % (v, v)),
                               put("Pos(ea).local(Rot(90, %s), front=2)" % v),
                               put("Pos(ea).local(R1.offset(%s), 2)" % v)],
            [shift(ea, (R_(x), Z, R_(x))),
             ((x, x, 0.), None, "overworld", False),
             local((ea[0], (x, 90.), ea[2], False), (0, 0, 2)),
             local((ea[0], (30., 90. + x), ea[2], False), (2, 0, 0))])
    # many chained steps
    n = 12
    one("long chain", [put("Pos(ea)" + ".offset(1, 0.5)" * n)],
        [shift(ea, (R_(n), R_(n * .5), Z))])


def misc_batch(chunk, st):
    todo = []
    off_cases(todo)
    bad_cases(todo)
    carried(todo)
    todo = [todo[i] for i in chunk]
    for i in range(0, len(todo), 20):
        cases.run_batch(todo[i:i + 20], st, PRELUDE, CFG)


def items(depth, rdepth):
    """Prefix paths (the last operation of the chain is enumerated inside)"""
    pos, rot = [], []
    for d in range(depth):
        for i, b in enumerate(BASES):
            if b[0].startswith("AbsPos"):
                continue
            for p in itertools.product(range(len(METHODS)), repeat=d):
                pos.append((i,) + p)
    for d in range(rdepth):
        for i in range(len(ROTS)):
            for p in itertools.product(range(len(RMETH)), repeat=d):
                rot.append((i,) + p)
    t = []
    off_cases(t)
    bad_cases(t)
    carried(t)
    return pos, rot, list(range(len(t)))


def check(chk):
    depth, rdepth = (3, 3) if chk.thorough else (2, 2)
    pos, rot, misc = items(depth, rdepth)
    if chk.thorough:
        pos += [(i,) + p for i in range(len(BASES) - 1)
                for p in itertools.product(KINDS, repeat=3)]
    chk.map(ME, "misc_batch", misc, 12)
    chk.map(ME, "rot_batch", rot, 4 if rdepth == 2 else 20)
    chk.map(ME, "pos_batch", pos, 10 if depth == 2 else 40)
    chk.bounds = {"operations on a position": depth,
                  "operations on a rotation": rdepth,
                  "bases": len(BASES) + len(ROTS),
                  "operations": len(METHODS) + len(RMETH)}
    chk.assumptions = [
        "coordinates, anchors and rotations mean what the execute command "
        "documentation says: local coordinates start at the eyes when the "
        "position is anchored there, relative ones at the feet"]


def replay(v):
    return cases.replay(v)
