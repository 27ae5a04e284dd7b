"""An executable model of the fragment of Minecraft: Bedrock Edition commands
that the Acacia compiler emits.

Every line of every .mcfunction file is parsed by `Parser` (nothing is
pattern-matched against the compiler's own spelling); a line that is not a
well-formed command is recorded as malformed.  The parsed program is then
executed on a `World`: scoreboards with 32-bit wrapping arithmetic, entities
with tags / positions / rotations / names, execution contexts, selectors and
an observable log of everything the commands do to the outside world.

Conventions fixed by the model (Bedrock semantics, see DESIGN.md):
  * scores wrap at 32 bits; `/=` and `%=` are C-style and do nothing when the
    right operand is 0; reading a score that was never set makes an
    `operation` / an `if score` fail;
  * `execute if score` on an unset score is false, `unless score` is true;
  * `tag`, `kill`, `tp` on a selector that matches nothing do nothing;
  * a `.mcfunction` with a malformed line is recorded in `malformed`.
"""
import json
import math
import re

INT_MIN = -2 ** 31
INT_MAX = 2 ** 31 - 1


def wrap(v):
    return ((v + 0x80000000) & 0xFFFFFFFF) - 0x80000000


def c_div(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def c_rem(a, b):
    r = abs(a) % abs(b)
    return r if a >= 0 else -r


class Malformed(Exception):
    pass


class Runaway(Exception):
    """More commands than the budget: an endless loop."""


class UnknownFunction(Exception):
    pass


# ---------------------------------------------------------------------------
# Tokenising helpers

_BARE_STOP = set(" ,@~^/$&\"'!#%+*=[{]}\\|<>`\n")


class Reader:
    def __init__(self, s):
        self.s = s
        self.i = 0

    def ws(self):
        s = self.s
        while self.i < len(s) and s[self.i] == " ":
            self.i += 1

    def eof(self):
        self.ws()
        return self.i >= len(self.s)

    def rest(self):
        self.ws()
        r = self.s[self.i:]
        self.i = len(self.s)
        return r

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else ""

    def word(self):
        """Whitespace delimited word."""
        self.ws()
        st = self.i
        s = self.s
        while self.i < len(s) and s[self.i] != " ":
            self.i += 1
        if st == self.i:
            raise Malformed("unexpected end of command")
        return s[st:self.i]

    def quoted(self):
        # at a '"'
        s = self.s
        self.i += 1
        res = []
        while True:
            if self.i >= len(s):
                raise Malformed("unclosed string")
            c = s[self.i]
            if c == "\\":
                if self.i + 1 >= len(s) or s[self.i + 1] not in "\\\"":
                    raise Malformed("bad escape in string")
                res.append(s[self.i + 1])
                self.i += 2
                continue
            if c == '"':
                self.i += 1
                break
            res.append(c)
            self.i += 1
        return "".join(res)

    def string(self):
        """A string argument: quoted, or bare without terminators."""
        self.ws()
        if self.peek() == '"':
            r = self.quoted()
            if self.i < len(self.s) and self.s[self.i] not in " ,]}=":
                raise Malformed("junk after quoted string")
            return r
        st = self.i
        s = self.s
        while self.i < len(s) and s[self.i] not in _BARE_STOP:
            self.i += 1
        if st == self.i:
            raise Malformed("expected a string at %r" % s[st:st + 10])
        return s[st:self.i]

    def expect_end_or_space(self):
        if self.i < len(self.s) and self.s[self.i] != " ":
            raise Malformed("unexpected %r" % self.s[self.i:self.i + 8])

    def int32(self):
        w = self.word()
        return parse_int(w)


_INT_RE = re.compile(r"^[+-]?\d+$")
_FLOAT_RE = re.compile(r"^[+-]?(\d+(\.\d*)?|\.\d+)$")


def parse_int(w):
    if not _INT_RE.match(w):
        raise Malformed("bad integer %r" % w)
    v = int(w)
    if not INT_MIN <= v <= INT_MAX:
        raise Malformed("integer %s does not fit in 32 bits" % w)
    return v


def parse_float(w):
    if not _FLOAT_RE.match(w):
        raise Malformed("bad number %r" % w)
    return float(w)


def parse_range(w):
    """-> (negated, lo, hi)"""
    neg = False
    if w.startswith("!"):
        neg = True
        w = w[1:]
    if ".." in w:
        a, b = w.split("..", 1)
        if not a and not b:
            raise Malformed("empty range")
        lo = parse_int(a) if a else INT_MIN
        hi = parse_int(b) if b else INT_MAX
        if lo > hi:
            raise Malformed("empty range %r" % w)
    else:
        lo = hi = parse_int(w)
    return neg, lo, hi


# ---------------------------------------------------------------------------
# Selectors

class Selector:
    __slots__ = ("var", "args", "text")

    def __init__(self, var, args, text):
        self.var = var
        self.args = args  # list of (key, neg, value)
        self.text = text


_SEL_KEYS = {"tag", "type", "name", "scores", "c", "r", "rm", "x", "y", "z",
             "dx", "dy", "dz", "rx", "rxm", "ry", "rym", "l", "lm", "m",
             "family", "hasitem", "haspermission"}


def parse_selector(rd):
    st = rd.i
    s = rd.s
    rd.i += 1
    m = re.compile(r"initiator|[aeprs]").match(s, rd.i)
    if not m:
        raise Malformed("bad selector variable")
    var = m.group(0)
    rd.i = m.end()
    args = []
    if rd.peek() == "[":
        rd.i += 1
        while True:
            rd.ws()
            m = re.compile(r"[a-z]+").match(s, rd.i)
            if not m or m.group(0) not in _SEL_KEYS:
                raise Malformed("bad selector argument at %r" % s[rd.i:])
            key = m.group(0)
            rd.i = m.end()
            rd.ws()
            if rd.peek() != "=":
                raise Malformed("expected '=' in selector")
            rd.i += 1
            rd.ws()
            neg = False
            if rd.peek() == "!":
                neg = True
                rd.i += 1
            if key == "scores":
                args.append((key, False, _parse_scores(rd)))
            elif key in ("hasitem", "haspermission"):
                args.append((key, False, _balanced(rd)))
            elif key in ("tag", "name", "type", "family", "m"):
                if rd.peek() == '"':
                    v = rd.quoted()
                else:
                    st2 = rd.i
                    while rd.i < len(s) and s[rd.i] not in _BARE_STOP:
                        rd.i += 1
                    v = s[st2:rd.i]
                    if not v and key not in ("tag", "name"):
                        raise Malformed("empty selector value")
                args.append((key, neg, v))
            else:
                st2 = rd.i
                while rd.i < len(s) and s[rd.i] not in ",] ":
                    rd.i += 1
                v = s[st2:rd.i]
                if key in ("x", "y", "z") and v.startswith("~"):
                    v = ("~", parse_float(v[1:]) if v[1:] else 0.0)
                elif key in ("c", "l", "lm"):
                    v = parse_int(v)
                    if key == "c" and v == 0:
                        raise Malformed("c=0")
                elif key in ("x", "y", "z"):
                    v = ("", parse_float(v))
                else:
                    v = parse_float(v)
                if neg:
                    raise Malformed("cannot negate %s" % key)
                args.append((key, False, v))
            rd.ws()
            c = rd.peek()
            rd.i += 1
            if c == "]":
                break
            if c != ",":
                raise Malformed("expected ',' or ']' in selector")
    single = {}
    for key, neg, v in args:
        if key in ("tag", "family"):
            continue
        if key in ("type", "name", "m") and neg:
            continue
        if key in single:
            raise Malformed("duplicate selector argument %s" % key)
        single[key] = v
    return Selector(var, args, s[st:rd.i])


def _parse_scores(rd):
    if rd.peek() != "{":
        raise Malformed("expected '{'")
    rd.i += 1
    res = []
    while True:
        rd.ws()
        if rd.peek() == '"':
            obj = rd.quoted()
        else:
            obj = rd.string()
        rd.ws()
        if rd.peek() != "=":
            raise Malformed("expected '=' in scores")
        rd.i += 1
        st = rd.i
        while rd.i < len(rd.s) and rd.s[rd.i] not in ",}":
            rd.i += 1
        rng = parse_range(rd.s[st:rd.i].strip())
        res.append((obj, rng))
        c = rd.peek()
        rd.i += 1
        if c == "}":
            return res
        if c != ",":
            raise Malformed("unclosed scores")


def _balanced(rd):
    st = rd.i
    depth = 0
    s = rd.s
    while rd.i < len(s):
        c = s[rd.i]
        if c == '"':
            rd.quoted()
            continue
        if c in "{[":
            depth += 1
        elif c in "}]":
            if depth == 0:
                break
            depth -= 1
        elif c == "," and depth == 0:
            break
        rd.i += 1
        if depth == 0:
            break
    if depth:
        raise Malformed("unbalanced %r" % s[st:])
    if st == rd.i:
        raise Malformed("empty value")
    return s[st:rd.i]


def parse_target(rd, wildcard=False):
    """-> str name | Selector | '*' marker"""
    rd.ws()
    c = rd.peek()
    if c == "@":
        sel = parse_selector(rd)
        rd.expect_end_or_space()
        return sel
    if c == "*" and wildcard:
        rd.i += 1
        rd.expect_end_or_space()
        return WILD
    name = rd.string()
    rd.expect_end_or_space()
    return name


class _Wild:
    def __repr__(self):
        return "*"


WILD = _Wild()


# ---------------------------------------------------------------------------
# Coordinates

def parse_coord(w):
    if w.startswith("~"):
        return ("~", parse_float(w[1:]) if len(w) > 1 else 0.0)
    if w.startswith("^"):
        return ("^", parse_float(w[1:]) if len(w) > 1 else 0.0)
    return ("", parse_float(w))


def parse_pos(rd):
    cs = [parse_coord(rd.word()) for _ in range(3)]
    kinds = {c[0] for c in cs}
    if "^" in kinds and kinds != {"^"}:
        raise Malformed("mixed local coordinates")
    return cs


def local_basis(rot):
    """Minecraft local axes for rot=(xrot pitch, yrot yaw)."""
    pitch, yaw = math.radians(rot[0]), math.radians(rot[1])
    cp, sp, cy, sy = math.cos(pitch), math.sin(pitch), math.cos(yaw), math.sin(yaw)
    front = (-sy * cp, -sp, cy * cp)
    up = (-sy * sp, cp, cy * sp)
    left = (cy, 0.0, sy)
    return left, up, front


def rnd(v):
    r = round(v, 6)
    return r + 0.0 if r != 0 else 0.0


EYE = 1.62


class Ctx:
    __slots__ = ("ent", "pos", "rot", "dim", "anchor")

    def __init__(self, ent=None, pos=(0.0, 0.0, 0.0), rot=(0.0, 0.0),
                 dim="overworld", anchor="feet"):
        self.ent = ent
        self.pos = pos
        self.rot = rot
        self.dim = dim
        self.anchor = anchor

    def repl(self, **k):
        c = Ctx(self.ent, self.pos, self.rot, self.dim, self.anchor)
        for a, b in k.items():
            setattr(c, a, b)
        return c

    def base(self):
        """Position that ~/^ coordinates refer to."""
        if self.anchor == "eyes":
            return (self.pos[0], self.pos[1] + EYE, self.pos[2])
        return self.pos

    def resolve(self, cs):
        if cs[0][0] == "^":
            l, u, f = local_basis(self.rot)
            b = self.base()
            return tuple(
                rnd(b[i] + cs[0][1] * l[i] + cs[1][1] * u[i] + cs[2][1] * f[i])
                for i in range(3))
        b = self.pos
        return tuple(rnd(b[i] + c[1]) if c[0] == "~" else c[1]
                     for i, c in enumerate(cs))

    def key(self):
        return (self.ent, self.pos, self.rot, self.dim, self.anchor)


# ---------------------------------------------------------------------------
# World

class Entity:
    __slots__ = ("id", "type", "name", "pos", "rot", "dim", "tags", "attrs")

    def __init__(self, id, type, name=None, pos=(0.0, 0.0, 0.0),
                 rot=(0.0, 0.0), dim="overworld", tags=(), attrs=None):
        self.id = id
        self.type = type
        self.name = name
        self.pos = pos
        self.rot = rot
        self.dim = dim
        self.tags = set(tags)
        self.attrs = attrs or {}  # e.g. families, gamemode, level

    def copy(self):
        return Entity(self.id, self.type, self.name, self.pos, self.rot,
                      self.dim, self.tags, dict(self.attrs))

    def key(self):
        return (self.id, self.type, self.name, self.pos, self.rot, self.dim,
                frozenset(self.tags))


def norm_type(t):
    return t[10:] if t.startswith("minecraft:") else t


class World:
    """Mutable machine state."""

    def __init__(self):
        self.scores = {}       # objective -> {holder: int}; holder str | int
        self.entities = {}     # id -> Entity
        self.next_id = 1
        self.log = []
        self.blocks = {}       # (dim, x, y, z) -> block text
        self.scheduled = []    # (args text, function)
        self.faults = []       # run-time faults (missing objective ...)
        self.choose = None     # resolver of nondeterminism
        self.budget = 200000
        self.ncmds = 0

    def copy(self):
        w = World()
        w.scores = {o: dict(d) for o, d in self.scores.items()}
        w.entities = {i: e.copy() for i, e in self.entities.items()}
        w.next_id = self.next_id
        w.log = list(self.log)
        w.blocks = dict(self.blocks)
        w.scheduled = list(self.scheduled)
        w.faults = list(self.faults)
        w.choose = self.choose
        w.budget = self.budget
        return w

    def key(self):
        return (
            tuple(sorted((o, tuple(sorted(d.items(), key=str)))
                         for o, d in self.scores.items())),
            tuple(e.key() for _, e in sorted(self.entities.items())),
            tuple(sorted(self.blocks.items())),
        )

    def add_objective(self, name):
        self.scores.setdefault(name, {})

    def spawn(self, type, **k):
        e = Entity(self.next_id, type, **k)
        self.next_id += 1
        self.entities[e.id] = e
        return e.id

    def pick(self, n, what):
        """Resolve a nondeterministic choice among n options."""
        if self.choose is None:
            return 0
        return self.choose(n, what)

    # -- selectors

    def select(self, sel, ctx):
        """List of entity ids, in the game's order."""
        if sel.var == "s":
            pool = [ctx.ent] if ctx.ent in self.entities else []
        elif sel.var == "initiator":
            pool = []
        else:
            pool = list(self.entities)
        types = [norm_type(v) for k, n, v in sel.args if k == "type" and not n]
        if sel.var in ("a", "p"):
            pool = [i for i in pool if self.entities[i].type == "player"]
        elif sel.var == "r" and not types:
            pool = [i for i in pool if self.entities[i].type == "player"]
        origin = list(ctx.pos)
        limit = None
        vol = {}
        dim_bound = False
        for k, n, v in sel.args:
            if k in "xyz":
                i = "xyz".index(k)
                origin[i] = ctx.pos[i] + v[1] if v[0] == "~" else v[1]
                dim_bound = True
        for k, neg, v in sel.args:
            E = self.entities
            if k == "tag":
                if v == "":
                    pool = [i for i in pool if bool(E[i].tags) == neg]
                else:
                    pool = [i for i in pool if (v in E[i].tags) != neg]
            elif k == "type":
                v = norm_type(v)
                pool = [i for i in pool if (E[i].type == v) != neg]
            elif k == "name":
                pool = [i for i in pool if (E[i].name == v) != neg]
            elif k == "scores":
                for obj, (rneg, lo, hi) in v:
                    d = self.scores.get(obj, {})
                    pool = [i for i in pool if i in d
                            and (lo <= d[i] <= hi) != rneg]
            elif k == "c":
                limit = v
            elif k == "r":
                pool = [i for i in pool
                        if dist(E[i].pos, origin) <= v + 1e-9]
                dim_bound = True
            elif k == "rm":
                pool = [i for i in pool
                        if dist(E[i].pos, origin) >= v - 1e-9]
                dim_bound = True
            elif k in ("dx", "dy", "dz"):
                vol[k] = v
                dim_bound = True
            elif k == "rxm":
                pool = [i for i in pool if E[i].rot[0] >= v]
            elif k == "rx":
                pool = [i for i in pool if E[i].rot[0] <= v]
            elif k == "rym":
                pool = [i for i in pool if E[i].rot[1] >= v]
            elif k == "ry":
                pool = [i for i in pool if E[i].rot[1] <= v]
            elif k == "m":
                pool = [i for i in pool if E[i].type == "player"
                        and (E[i].attrs.get("m", "survival") == v) != neg]
            elif k == "l":
                pool = [i for i in pool if E[i].type == "player"
                        and E[i].attrs.get("level", 0) <= v]
            elif k == "lm":
                pool = [i for i in pool if E[i].type == "player"
                        and E[i].attrs.get("level", 0) >= v]
            elif k == "family":
                pool = [i for i in pool
                        if (v in E[i].attrs.get("family", ())) != neg]
            elif k == "hasitem":
                pool = [i for i in pool
                        if _match_items(E[i].attrs.get("items", {}), v)]
            elif k == "haspermission":
                pool = [i for i in pool
                        if _match_perms(E[i].attrs.get("perms", ()), v)]
        if vol:
            def inside(p):
                for a, o, d in zip(p, origin, ("dx", "dy", "dz")):
                    w = vol.get(d, 0.0)
                    lo, hi = (o, o + w + 1) if w >= 0 else (o + w, o + 1)
                    if not lo - 1e-9 <= a < hi:
                        return False
                return True
            pool = [i for i in pool if inside(self.entities[i].pos)]
        if dim_bound or limit is not None or sel.var == "p":
            if dim_bound:
                pool = [i for i in pool if self.entities[i].dim == ctx.dim]
        if sel.var == "p" and limit is None:
            limit = 1
        if sel.var == "r":
            k = abs(limit) if limit is not None else 1
            res = []
            pool = list(pool)
            while pool and len(res) < k:
                j = self.pick(len(pool), ("r", sel.text))
                res.append(pool.pop(j))
            return res
        if limit is not None:
            pool.sort(key=lambda i: (dist(self.entities[i].pos, origin), i))
            if limit < 0:
                pool.reverse()
            pool = pool[:abs(limit)]
        return pool

    def holders(self, target, ctx, objective=None):
        if isinstance(target, str):
            return [target]
        if target is WILD:
            return list(self.scores.get(objective, {}))
        return self.select(target, ctx)


def _match_items(items, text):
    """hasitem={item=..,quantity=..,...} against a list of stacks
    (item, data, location, slot, count), or against {item: count}"""
    if isinstance(items, dict):
        items = [(k, 0, "", 0, v) for k, v in items.items()]
    for d in re.findall(r"\{([^{}]*)\}", text):
        kv = dict(p.split("=", 1) for p in d.split(","))
        cnt = 0
        for item, data, loc, slot, n in items:
            if item != kv["item"].strip():
                continue
            if "data" in kv and int(kv["data"]) not in (-1, data):
                continue
            if "location" in kv and kv["location"].strip() != loc:
                continue
            if "slot" in kv:
                neg, lo, hi = parse_range(kv["slot"].strip())
                if (lo <= slot <= hi) == neg:
                    continue
            cnt += n
        neg, lo, hi = parse_range(kv.get("quantity", "1..").strip())
        if (lo <= cnt <= hi) == neg:
            return False
    return True


def _match_perms(perms, text):
    for p in text.strip("{}").split(","):
        if not p:
            continue
        k, v = p.split("=")
        if (k in perms) != (v == "enabled"):
            return False
    return True


def dist(a, b):
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))


# ---------------------------------------------------------------------------
# Command parsing: text -> op(world, ctx) closures

KNOWN_RAW = {
    "ability", "alwaysday", "camera", "camerashake", "clear",
    "clearspawnpoint", "clone", "connect", "damage", "daylock", "deop",
    "dialogue", "difficulty", "effect", "enchant", "event", "fill", "fog",
    "gamemode", "gamerule", "give", "immutableworld", "kick", "locate",
    "loot", "me", "mobevent", "msg", "music", "op", "particle",
    "playanimation", "playsound", "recipe", "replaceitem", "ride", "say",
    "scriptevent", "setblock", "setmaxplayers", "setworldspawn",
    "spawnpoint", "spreadplayers", "stopsound", "structure", "tell",
    "testfor", "testforblock", "testforblocks", "tickingarea", "time",
    "title", "titleraw", "toggledownfall", "transferserver", "volumearea",
    "weather", "w", "wsserver", "xp", "aimassist", "hud", "inputpermission",
    "place", "controlscheme", "gametest", "reload", "script", "list", "help",
}

SCB_OPS = {"+=", "-=", "*=", "/=", "%=", "><", "<", ">", "="}


class Program:
    """A set of parsed .mcfunction files."""

    def __init__(self, files, extra=()):
        """files: {path without extension: text}"""
        self.files = {}
        self.src = {}
        self.malformed = []
        self.refs = {}
        self.objectives_used = {}
        self.ncommands = 0
        for path, text in files.items():
            ops = []
            refs = set()
            self._cur_refs = refs
            for ln, line in enumerate(text.split("\n"), 1):
                st = line.strip()
                if not st or st.startswith("#"):
                    continue
                self.ncommands += 1
                try:
                    ops.append(self.parse(line))
                except Malformed as err:
                    self.malformed.append((path, ln, line, str(err)))
            self.files[path] = ops
            self.src[path] = text
            self.refs[path] = refs

    # -- running

    def run(self, world, path, ctx=None):
        if path not in self.files:
            raise UnknownFunction(path)
        if ctx is None:
            ctx = Ctx()
        world.ncmds = 0
        self._call(world, path, ctx)

    def _call(self, world, path, ctx):
        ops = self.files.get(path)
        if ops is None:
            world.faults.append("call of missing function %s" % path)
            return
        n = world.ncmds
        if n > world.budget:
            raise Runaway(path)
        for op in ops:
            world.ncmds += 1
            op(world, ctx)

    # -- parsing

    def parse(self, line):
        rd = Reader(line.strip())
        op = self.parse_cmd(rd)
        return op

    def parse_cmd(self, rd):
        rd.ws()
        st = rd.i
        s = rd.s
        if rd.peek() == "/":
            rd.i += 1
        m = re.compile(r"[a-zA-Z_:]+").match(s, rd.i)
        if not m:
            raise Malformed("no command name")
        name = m.group(0)
        rd.i = m.end()
        rd.expect_end_or_space()
        f = getattr(self, "c_" + name, None)
        if f is None:
            if name not in KNOWN_RAW:
                raise Malformed("unknown command %r" % name)
            return self.raw(s[st:].strip(), rd)
        op = f(rd)
        if not rd.eof():
            raise Malformed("trailing text %r" % rd.rest())
        return op

    def raw(self, text, rd):
        rd.rest()

        def op(w, c):
            w.log.append(("raw", text, c.key()))
        return op

    # scoreboard

    def _obj(self, rd):
        rd.ws()
        o = rd.string()
        rd.expect_end_or_space()
        return o

    def _use(self, obj):
        self.objectives_used.setdefault(obj, 0)
        self.objectives_used[obj] += 1

    def c_scoreboard(self, rd):
        sub = rd.word()
        if sub == "objectives":
            act = rd.word()
            if act == "add":
                o = self._obj(rd)
                t = rd.word()
                if t != "dummy":
                    raise Malformed("bad criterion")
                if not rd.eof():
                    self._obj(rd)

                def op(w, c):
                    w.scores.setdefault(o, {})
                return op
            if act == "remove":
                o = self._obj(rd)

                def op(w, c):
                    w.scores.pop(o, None)
                return op
            if act == "setdisplay":
                text = rd.rest()
                return lambda w, c: w.log.append(
                    ("raw", "scoreboard objectives setdisplay " + text, c.key()))
            raise Malformed("bad objectives action %r" % act)
        if sub != "players":
            raise Malformed("bad scoreboard subcommand")
        act = rd.word()
        if act in ("set", "add", "remove"):
            t = parse_target(rd, True)
            o = self._obj(rd)
            self._use(o)
            v = rd.int32()
            if isinstance(t, str):
                if act == "set":
                    def op(w, c):
                        d = w.scores.get(o)
                        if d is None:
                            w.faults.append("no objective " + o)
                            return
                        d[t] = v
                else:
                    dv = v if act == "add" else -v

                    def op(w, c):
                        d = w.scores.get(o)
                        if d is None:
                            w.faults.append("no objective " + o)
                            return
                        d[t] = wrap(d.get(t, 0) + dv)
                return op

            def op(w, c):
                d = w.scores.get(o)
                if d is None:
                    w.faults.append("no objective " + o)
                    return
                for h in w.holders(t, c, o):
                    if act == "set":
                        d[h] = v
                    elif act == "add":
                        d[h] = wrap(d.get(h, 0) + v)
                    else:
                        d[h] = wrap(d.get(h, 0) - v)
            return op
        if act == "random":
            t = parse_target(rd, True)
            o = self._obj(rd)
            self._use(o)
            lo, hi = rd.int32(), rd.int32()

            def op(w, c):
                d = w.scores.get(o)
                if d is None:
                    w.faults.append("no objective " + o)
                    return
                if lo > hi:
                    w.faults.append("random %d > %d" % (lo, hi))
                    return
                for h in w.holders(t, c, o):
                    d[h] = lo + w.pick(hi - lo + 1, ("random", lo, hi))
            return op
        if act == "reset":
            t = parse_target(rd, True)
            o = None if rd.eof() else self._obj(rd)

            def op(w, c):
                for ob in ([o] if o is not None else list(w.scores)):
                    d = w.scores.get(ob)
                    if d is None:
                        continue
                    for h in w.holders(t, c, ob):
                        d.pop(h, None)
            return op
        if act == "operation":
            t1 = parse_target(rd, True)
            o1 = self._obj(rd)
            opr = rd.word()
            if opr not in SCB_OPS:
                raise Malformed("bad operation %r" % opr)
            t2 = parse_target(rd, True)
            o2 = self._obj(rd)
            self._use(o1)
            self._use(o2)
            return self._operation(t1, o1, opr, t2, o2)
        raise Malformed("bad players action %r" % act)

    @staticmethod
    def _operation(t1, o1, opr, t2, o2):
        def apply(w, d1, h1, d2, h2):
            if h2 not in d2:
                w.faults.append("read of unset score %s %s" % (h2, o2))
                return
            b = d2[h2]
            if opr == "=":
                d1[h1] = b
                return
            a = d1.get(h1, 0)
            if h1 not in d1 and opr == "><":
                w.faults.append("read of unset score %s %s" % (h1, o1))
                return
            if opr == "+=":
                r = wrap(a + b)
            elif opr == "-=":
                r = wrap(a - b)
            elif opr == "*=":
                r = wrap(a * b)
            elif opr == "/=":
                if b == 0:
                    w.faults.append("division by zero")
                    return
                r = wrap(c_div(a, b))
            elif opr == "%=":
                if b == 0:
                    w.faults.append("division by zero")
                    return
                r = wrap(c_rem(a, b))
            elif opr == "<":
                r = min(a, b)
            elif opr == ">":
                r = max(a, b)
            else:
                d1[h1] = b
                d2[h2] = a
                return
            d1[h1] = r

        simple = isinstance(t1, str) and isinstance(t2, str)

        def op(w, c):
            d1 = w.scores.get(o1)
            d2 = w.scores.get(o2)
            if d1 is None or d2 is None:
                w.faults.append("no objective %s/%s" % (o1, o2))
                return
            if simple:
                apply(w, d1, t1, d2, t2)
                return
            h2s = w.holders(t2, c, o2)
            for h1 in w.holders(t1, c, o1):
                for h2 in h2s:
                    apply(w, d1, h1, d2, h2)
        return op

    # function / schedule

    def _fname(self, w):
        if not re.match(r"^[A-Za-z0-9.()\-_/]+$", w):
            raise Malformed("bad function name %r" % w)
        self._cur_refs.add(w)
        return w

    def c_function(self, rd):
        w = rd.rest()
        if w.startswith('"'):
            r2 = Reader(w)
            w = r2.quoted()
        path = self._fname(w)

        def op(wd, c):
            if wd.ncmds > wd.budget:
                raise Runaway(path)
            try:
                self._call(wd, path, c)
            except RecursionError:
                raise Runaway(path)
        return op

    def c_schedule(self, rd):
        sub = rd.word()
        if sub not in ("on_area_loaded", "delay", "clear"):
            raise Malformed("bad schedule")
        toks = rd.rest().split(" ")
        path = self._fname(toks[-1])
        args = " ".join([sub] + toks[:-1])

        def op(w, c):
            w.scheduled.append((args, path, c.key()))
        return op

    # execute

    def c_execute(self, rd):
        steps = []
        while True:
            w = rd.word()
            if w == "run":
                inner = self.parse_cmd(rd)
                break
            steps.append(self._subcmd(w, rd))
            if rd.eof():
                raise Malformed("execute without run")

        def op(wd, c):
            ctxs = [c]
            for st in steps:
                nxt = []
                for cc in ctxs:
                    nxt.extend(st(wd, cc))
                ctxs = nxt
                if not ctxs:
                    return
            for cc in ctxs:
                inner(wd, cc)
        # fast path: only score conditions
        if len(steps) == 1 and getattr(steps[0], "cond", None):
            cond = steps[0].cond

            def op(wd, c):  # noqa
                if cond(wd, c):
                    inner(wd, c)
        return op

    def _subcmd(self, w, rd):
        if w == "as":
            t = parse_target(rd)

            def st(wd, c):
                return [c.repl(ent=i) for i in self._ents(wd, t, c)]
            return st
        if w == "at":
            t = parse_target(rd)

            def st(wd, c):
                res = []
                for i in self._ents(wd, t, c):
                    e = wd.entities[i]
                    res.append(c.repl(pos=e.pos, rot=e.rot, dim=e.dim))
                return res
            return st
        if w == "positioned":
            rd.ws()
            if rd.s.startswith("as ", rd.i):
                rd.i += 3
                t = parse_target(rd)
                return lambda wd, c: [c.repl(pos=wd.entities[i].pos)
                                      for i in self._ents(wd, t, c)]
            cs = parse_pos(rd)
            return lambda wd, c: [c.repl(pos=c.resolve(cs), anchor="feet")]
        if w == "rotated":
            rd.ws()
            if rd.s.startswith("as ", rd.i):
                rd.i += 3
                t = parse_target(rd)
                return lambda wd, c: [c.repl(rot=wd.entities[i].rot)
                                      for i in self._ents(wd, t, c)]
            # Bedrock: rotated <yaw> <pitch>
            a = parse_coord(rd.word())
            b = parse_coord(rd.word())
            if "^" in (a[0], b[0]):
                raise Malformed("local rotation")

            def st(wd, c):
                yaw = c.rot[1] + a[1] if a[0] == "~" else a[1]
                pitch = c.rot[0] + b[1] if b[0] == "~" else b[1]
                return [c.repl(rot=(rnd(pitch), rnd(yaw)))]
            return st
        if w == "facing":
            rd.ws()
            if rd.s.startswith("entity ", rd.i):
                rd.i += 7
                t = parse_target(rd)
                an = rd.word()
                if an not in ("eyes", "feet"):
                    raise Malformed("bad anchor %r" % an)

                def st(wd, c):
                    res = []
                    for i in self._ents(wd, t, c):
                        p = wd.entities[i].pos
                        if an == "eyes":
                            p = (p[0], p[1] + EYE, p[2])
                        res.append(c.repl(rot=face(c.base(), p)))
                    return res
                return st
            cs = parse_pos(rd)
            return lambda wd, c: [c.repl(rot=face(c.base(), c.resolve(cs)))]
        if w == "align":
            ax = rd.word()
            if not ax or set(ax) - set("xyz") or len(set(ax)) != len(ax):
                raise Malformed("bad axes %r" % ax)
            return lambda wd, c: [c.repl(pos=tuple(
                float(math.floor(p)) if "xyz"[i] in ax else p
                for i, p in enumerate(c.pos)))]
        if w == "anchored":
            an = rd.word()
            if an not in ("eyes", "feet"):
                raise Malformed("bad anchor %r" % an)
            return lambda wd, c: [c.repl(anchor=an)]
        if w == "in":
            d = rd.word()
            d2 = {"nether": "nether", "overworld": "overworld",
                  "the_end": "the_end"}.get(d)
            if d2 is None:
                raise Malformed("bad dimension %r" % d)
            return lambda wd, c: [c.repl(dim=d2)]
        if w in ("if", "unless"):
            inv = w == "unless"
            kind = rd.word()
            if kind == "score":
                cond = self._score_cond(rd)
            elif kind == "entity":
                t = parse_target(rd)

                def cond(wd, c):
                    return bool(self._ents(wd, t, c))
            elif kind == "block":
                cs = parse_pos(rd)
                blk = rd.word()
                rd.ws()
                if rd.peek() == "[":
                    blk += " " + _balanced(rd)

                def cond(wd, c):
                    p = c.resolve(cs)
                    p = tuple(math.floor(x) for x in p)
                    b = wd.blocks.get((c.dim,) + p, "air []")
                    return b == blk or b == blk + " []" or b + " []" == blk
            elif kind == "blocks":
                a = parse_pos(rd)
                b = parse_pos(rd)
                d = parse_pos(rd)
                mode = rd.word()
                if mode not in ("all", "masked"):
                    raise Malformed("bad mode")

                def cond(wd, c):
                    wd.log.append(("if blocks", c.resolve(a), c.resolve(b),
                                   c.resolve(d), mode, c.dim))
                    return wd.pick(2, ("blocks",)) == 1
            else:
                raise Malformed("bad condition %r" % kind)
            if inv:
                base = cond

                def cond(wd, c):  # noqa
                    return not base(wd, c)

            def st(wd, c):
                return [c] if cond(wd, c) else []
            st.cond = cond
            return st
        raise Malformed("bad execute subcommand %r" % w)

    def _score_cond(self, rd):
        t1 = parse_target(rd, True)
        o1 = self._obj(rd)
        self._use(o1)
        opr = rd.word()
        if opr == "matches":
            neg, lo, hi = parse_range(rd.word())
            if isinstance(t1, str):
                def cond(wd, c):
                    d = wd.scores.get(o1)
                    if d is None:
                        wd.faults.append("no objective " + o1)
                        return False
                    v = d.get(t1)
                    if v is None:
                        wd.faults.append("test of unset score %s" % t1)
                        return False
                    return (lo <= v <= hi) != neg
                return cond

            def cond(wd, c):
                d = wd.scores.get(o1)
                if d is None:
                    wd.faults.append("no objective " + o1)
                    return False
                hs = wd.holders(t1, c, o1)
                return any(h in d and (lo <= d[h] <= hi) != neg for h in hs)
            return cond
        if opr not in ("=", "<", "<=", ">", ">="):
            raise Malformed("bad comparison %r" % opr)
        t2 = parse_target(rd, True)
        o2 = self._obj(rd)
        self._use(o2)

        def cond(wd, c):
            d1, d2 = wd.scores.get(o1), wd.scores.get(o2)
            if d1 is None or d2 is None:
                wd.faults.append("no objective %s/%s" % (o1, o2))
                return False
            h1 = wd.holders(t1, c, o1)
            h2 = wd.holders(t2, c, o2)
            if not h1 or not h2 or h1[0] not in d1 or h2[0] not in d2:
                wd.faults.append("test of unset score")
                return False
            a, b = d1[h1[0]], d2[h2[0]]
            if opr == "=":
                return a == b
            if opr == "<":
                return a < b
            if opr == "<=":
                return a <= b
            if opr == ">":
                return a > b
            return a >= b
        return cond

    @staticmethod
    def _ents(wd, t, c):
        if isinstance(t, str):
            return [i for i, e in wd.entities.items()
                    if e.type == "player" and e.name == t]
        return wd.select(t, c)

    # entities

    def c_tag(self, rd):
        t = parse_target(rd)
        act = rd.word()
        if act == "list":
            return lambda w, c: None
        if act not in ("add", "remove"):
            raise Malformed("bad tag action")
        name = rd.string()
        rd.expect_end_or_space()

        def op(w, c):
            for i in self._ents(w, t, c):
                if act == "add":
                    w.entities[i].tags.add(name)
                else:
                    w.entities[i].tags.discard(name)
        return op

    def c_setblock(self, rd):
        text = rd.s[rd.i:].strip()
        cs = parse_pos(rd)
        blk = rd.word()
        rd.ws()
        blk += " " + (_balanced(rd) if rd.peek() == "[" else "[]")
        mode = rd.rest() or "replace"
        if mode not in ("replace", "destroy", "keep"):
            raise Malformed("bad setblock mode %r" % mode)

        def op(w, c):
            w.log.append(("raw", "setblock " + text, c.key()))
            p = (c.dim,) + tuple(math.floor(x) for x in c.resolve(cs))
            if mode != "keep" or w.blocks.get(p, "air []") == "air []":
                w.blocks[p] = blk
        return op

    def c_kill(self, rd):
        if rd.eof():
            t = Selector("s", [], "@s")
        else:
            t = parse_target(rd)

        def op(w, c):
            for i in self._ents(w, t, c):
                w.log.append(("kill", i))
                e = w.entities[i]
                if e.type != "player":
                    del w.entities[i]
                    for d in w.scores.values():
                        d.pop(i, None)
        return op

    def c_summon(self, rd):
        type_ = rd.word()
        cs = None
        rot = None
        event = name = None
        if not rd.eof():
            cs = parse_pos(rd)
            rd.ws()
            # optional rotation (two coords), then event, then name
            save = rd.i
            try:
                a = parse_coord(rd.word())
                b = parse_coord(rd.word())
                rot = (a, b)
            except Malformed:
                rd.i = save
            if not rd.eof():
                rd.ws()
                if rd.peek() == "*":
                    rd.i += 1
                    rd.expect_end_or_space()
                else:
                    event = rd.word()
            if not rd.eof():
                name = rd.string()
                rd.expect_end_or_space()

        def op(w, c):
            pos = c.pos if cs is None else c.resolve(cs)
            r = (0.0, 0.0)
            if rot is not None:
                yaw = c.rot[1] + rot[0][1] if rot[0][0] == "~" else rot[0][1]
                pitch = c.rot[0] + rot[1][1] if rot[1][0] == "~" else rot[1][1]
                r = (pitch, yaw)
            i = w.spawn(norm_type(type_), name=name, pos=pos, rot=r, dim=c.dim)
            if event is not None:
                w.entities[i].attrs["event"] = event
            w.log.append(("summon", i, norm_type(type_), name, event))
        return op

    def c_tp(self, rd):
        # tp <victim> <x y z> [check | yaw pitch [check] | facing ...]
        # tp <victim> <dest entity> [check]
        # tp <dest entity>
        rd.ws()
        if rd.peek() in "~^-+0123456789.":
            victim = Selector("s", [], "@s")
        else:
            victim = parse_target(rd)
        dest = cs = rot = None
        facing = check = None
        if rd.eof():
            dest, victim = victim, Selector("s", [], "@s")
        else:
            rd.ws()
            if rd.peek() in "~^-+0123456789.":
                cs = parse_pos(rd)
            else:
                save = rd.i
                w_ = rd.word()
                if w_ in ("true", "false"):
                    dest, victim = victim, Selector("s", [], "@s")
                    rd.i = save
                else:
                    rd.i = save
                    dest = parse_target(rd)
            if not rd.eof():
                w_ = rd.word()
                if w_ == "facing":
                    rd.ws()
                    if rd.peek() == "@":
                        facing = parse_target(rd)
                    else:
                        facing = parse_pos(rd)
                elif w_ in ("true", "false"):
                    check = w_
                else:
                    a = parse_coord(w_)
                    b = parse_coord(rd.word()) if not rd.eof() else ("~", 0.0)
                    rot = (a, b)
                if not rd.eof():
                    w_ = rd.word()
                    if w_ not in ("true", "false") or check:
                        raise Malformed("bad tp argument %r" % w_)
                    check = w_

        def op(w, c):
            if dest is not None:
                ds = self._ents(w, dest, c)
                if len(ds) != 1:
                    return
                p = w.entities[ds[0]].pos
                dim = w.entities[ds[0]].dim
            else:
                p = c.resolve(cs)
                dim = c.dim
            for i in self._ents(w, victim, c):
                e = w.entities[i]
                e.pos = p
                e.dim = dim
                e.attrs["check"] = check == "true"
                if rot is not None:
                    yaw = (c.rot[1] + rot[0][1] if rot[0][0] == "~"
                           else rot[0][1])
                    pitch = (c.rot[0] + rot[1][1] if rot[1][0] == "~"
                             else rot[1][1])
                    e.rot = (rnd(pitch), rnd(yaw))
                if facing is not None:
                    if isinstance(facing, list):
                        e.rot = face(p, c.resolve(facing))
                    else:
                        fs = self._ents(w, facing, c)
                        if fs:
                            e.rot = face(p, w.entities[fs[0]].pos)
                w.log.append(("tp", i, p, e.rot, dim))
        return op

    c_teleport = c_tp

    def c_tellraw(self, rd):
        t = parse_target(rd)
        js = rd.rest()
        comp = _parse_rawtext(js)

        def op(w, c):
            who = tuple(sorted(self._ents(w, t, c)))
            w.log.append(("tellraw", who, render(comp, w, c)))
        return op

    def c_titleraw(self, rd):
        t = parse_target(rd)
        act = rd.word()
        if act in ("clear", "reset"):
            return lambda w, c: w.log.append(
                ("titleraw", tuple(sorted(self._ents(w, t, c))), act))
        if act == "times":
            tt = (rd.int32(), rd.int32(), rd.int32())
            return lambda w, c: w.log.append(
                ("titleraw", tuple(sorted(self._ents(w, t, c))), act, tt))
        if act not in ("title", "subtitle", "actionbar"):
            raise Malformed("bad titleraw action")
        comp = _parse_rawtext(rd.rest())
        return lambda w, c: w.log.append(
            ("titleraw", tuple(sorted(self._ents(w, t, c))), act,
             render(comp, w, c)))


def face(a, b):
    dx, dy, dz = (b[i] - a[i] for i in range(3))
    h = math.hypot(dx, dz)
    yaw = math.degrees(math.atan2(-dx, dz)) if h > 1e-9 else 0.0
    pitch = -math.degrees(math.atan2(dy, h)) if (h > 1e-9 or abs(dy) > 1e-9) else 0.0
    return (rnd(pitch), rnd(yaw))


def _parse_rawtext(js):
    try:
        v = json.loads(js)
    except ValueError as err:
        raise Malformed("bad rawtext JSON: %s" % err)
    _check_rawtext(v)
    return v


def _check_rawtext(v):
    if not isinstance(v, dict) or set(v) != {"rawtext"} \
            or not isinstance(v["rawtext"], list):
        raise Malformed("bad rawtext object")
    for c in v["rawtext"]:
        if not isinstance(c, dict):
            raise Malformed("bad rawtext component")
        k = set(c)
        if k == {"text"} and isinstance(c["text"], str):
            continue
        if k == {"score"} and set(c["score"]) == {"name", "objective"}:
            continue
        if k == {"selector"}:
            continue
        if k == {"translate"}:
            continue
        if k == {"translate", "with"}:
            if isinstance(c["with"], dict):
                _check_rawtext(c["with"])
            continue
        raise Malformed("bad rawtext component %r" % c)


def render(v, w, c):
    """Plain text of a rawtext, with scores resolved at display time."""
    out = []
    for comp in v["rawtext"]:
        if "text" in comp:
            out.append(comp["text"])
        elif "score" in comp:
            s = comp["score"]
            d = w.scores.get(s["objective"], {})
            name = s["name"]
            if name.startswith("@"):
                ids = w.select(parse_selector(Reader(name)), c)
                vals = [str(d[i]) for i in ids if i in d]
            elif name == "*":
                vals = []
            else:
                vals = [str(d[name])] if name in d else []
            if not vals:
                w.faults.append("display of unset score %s" % name)
            out.append(", ".join(vals))
        elif "selector" in comp:
            ids = w.select(parse_selector(Reader(comp["selector"])), c)
            out.append(",".join(str(i) for i in ids))
        else:
            out.append("{translate:%s}" % comp["translate"])
    return "".join(out)
