"""Reference model of entity groups, on top of ents.

Extra expressions
  ('gnew', T)                     empty group
  ('gcall', g, method, [args])    group method; select / drop / filter take
                                  ('flt', source), the source being a key of FILTERS
Extra statement
  ('gfor', name, g, body)         run body for every member
"""
from . import ents, lang
from .ents import EInterp, Ref
from .lang import Cell, Env, Func, copyval, pe, pb


FILTERS = {}         # source -> predicate on Ent


class Grp:
    """A set of entities; assignment copies it."""
    BYVAL = True
    __slots__ = ("s", "t")

    def __init__(self, t, s=()):
        self.t = t
        self.s = set(s)

    def copy(self):
        return Grp(self.t, self.s)


class GInterp(EInterp):
    extra = ()              # entities that are not managed by the program

    def grp(self, e, env):
        c = self.lv(e, env) if e[0] in ("v", "attr", "gcall", "call",
                                        "mcall") else Cell(self.ev(e, env))
        return c

    def lv(self, e, env):
        if e[0] == "gcall":
            return self.gcall(e, env)
        if e[0] == "gnew":
            return Cell(Grp(e[1]))
        try:
            return super().lv(e, env)
        except KeyError:
            if e[0] == "attr":      # field of an unmanaged entity
                raise lang.Skip
            raise

    def resolve(self, tname, m):
        if tname is None:           # method of an unmanaged entity
            raise lang.Skip
        return super().resolve(tname, m)

    def gcall(self, e, env):
        c = self.grp(e[1], env)
        g = c.v
        m = e[2]
        if m in ("extend", "subtract", "intersect"):
            o = set(self.grp(e[3][0], env).v.s)
            g.s = {"extend": g.s | o, "subtract": g.s - o,
                   "intersect": g.s & o}[m]
        elif m in ("add", "remove"):
            for a in e[3]:
                x = self.ev(a, env).ent
                (g.s.add if m == "add" else g.s.discard)(x)
        elif m == "clear":
            g.s = set()
        elif m == "copy":
            return Cell(g.copy())
        elif m == "select":
            g.s |= {x for x in list(self.ents) + list(self.extra)
                    if FILTERS[e[3][0][1]](x)}
        elif m == "drop":
            g.s = {x for x in g.s if not FILTERS[e[3][0][1]](x)}
        elif m == "filter":
            g.s = {x for x in g.s if FILTERS[e[3][0][1]](x)}
        elif m == "resolve":
            t = e[3][0]
            for x in g.s:
                x.tmpl = t
                for f in self.t[t].all_fields:
                    x.f.setdefault(f, Cell())
            return Cell(Grp(t, g.s))
        elif m == "size":
            return Cell(len(g.s))
        elif m == "is_empty":
            return Cell(not g.s)
        elif m == "has":
            return Cell(self.ev(e[3][0], env).ent in g.s)
        elif m == "to_single":
            if len(g.s) != 1:
                raise lang.Skip
            return Cell(Ref(next(iter(g.s)), g.t))
        else:
            raise KeyError(m)
        return c

    def ev(self, e, env):
        if e[0] == "gnew":
            return Grp(e[1])
        if e[0] == "gcall":
            return self.gcall(e, env).v
        return super().ev(e, env)

    def st(self, s, env):
        if s[0] == "gfor":
            g = self.grp(s[2], env).v
            for x in sorted(g.s, key=lambda x: x.id):
                e2 = Env(env)
                e2.d[s[1]] = Cell(Ref(x, g.t))
                self.block(s[3], e2)
        elif s[0] == "aug" and isinstance(self.ev(s[2], env), Grp):
            self.gcall(("gcall", s[2], {"+": "extend", "-": "subtract"}[s[1]],
                        [s[3]]), env)
        else:
            super().st(s, env)

    @staticmethod
    def assign(cell, v):
        if isinstance(v, Grp):
            t = cell.v.t if isinstance(cell.v, Grp) else v.t
            cell.v = Grp(t, v.s)
        else:
            EInterp.assign(cell, v)


def pe_ext(e, top):
    if e[0] == "gnew":
        return "Engroup[%s]()" % e[1] if e[1] else "ExternEngroup()"
    if e[0] == "flt":
        return e[1]
    if e[0] == "gcall":
        return "%s.%s(%s)" % (pe(e[1]), e[2], ", ".join(
            x if isinstance(x, str) else pe(x, True) for x in e[3]))
    return None


def ps_ext(s, ind):
    p = "    " * ind
    if s[0] == "gfor":
        return ["%sfor %s in %s:" % (p, s[1], pe(s[2], True))] + pb(
            s[3], ind + 1)
    return None


lang.EXT_EXPR.append(pe_ext)
lang.EXT_STMT.append(ps_ext)


def evaluate(module, body, inp, extra=(), structs=None):
    """Run body in a fresh world -> (outputs, interpreter)."""
    it = GInterp(structs=structs)
    it.extra = extra
    g = Env()
    it.block(module, g)
    e = Env(g)
    for k, v in inp.items():
        e.d[k] = Cell(v)
    it.fuel = 3000
    it.block(body, e)
    return {k[0]: int(c.v) for k, c in it.scb.items() if c.v is not None}, it
