"""Reference model of entities, templates and methods, on top of lang.

Extra expressions
  ('new', T, [args])          create an entity
  ('mcall', e, name, [args])  call a method
  ('tcall', T, name, [args])  call a static method through its template
  ('self',)                   the receiver
  ('upcast', e, T)            same entity, methods looked up from T
Extra statements
  ('entity', name, [bases], [(field, type)], [(qualifier, func)], new)
      new: None (inherited) | (kind, params, body)
  ('newstmt', T|None, args)   inside a constructor: summon through T's
      constructor, or the built-in one: args = (type, (x, y, z), name|None)
An entity is an Ent; its fields live in cells, so entity variables alias.
"""
from . import lang
from .lang import Cell, Env, Func, UNSET, copyval, pe, pb


class Ent:
    __slots__ = ("id", "tmpl", "f", "type", "pos", "name", "tags")

    def __init__(self, id):
        self.id = id
        self.tmpl = None
        self.f = {}
        self.type = self.pos = self.name = None
        self.tags = ()

    def copy(self):          # assignment copies the reference
        return self


class Ref:
    """An entity value with the template it is used through."""
    __slots__ = ("ent", "st", "cast")

    def __init__(self, ent, st, cast=None):
        self.ent = ent
        self.st = st
        self.cast = cast


class Invalid(Exception):
    """The program breaks a static rule; args[0]: what."""


def c3(name, bases, mro):
    seqs = [list(mro[b]) for b in bases] + [list(bases)]
    res = [name]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return res
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            raise Invalid("no linear order")
        res.append(c)
        for s in seqs:
            if s[0] == c:
                del s[0]


class Template:
    def __init__(self, node, env, table):
        _, self.name, self.bases, self.fields, self.methods, self.new = node
        self.env = env
        self.mro = c3(self.name, self.bases,
                      {b: table[b].mro for b in self.bases})
        own = {f: t for f, t in self.fields}
        if len(own) != len(self.fields):
            raise Invalid("field twice")
        self.own_m = {}
        for q, f in self.methods:
            if f[1] in self.own_m or f[1] in own:
                raise Invalid("name twice")
            self.own_m[f[1]] = (q, f)
        # fields
        self.all_fields = {}
        for c in reversed(self.mro):
            for f, t in (own if c == self.name else
                         dict(table[c].fields)).items():
                if f in self.all_fields:
                    raise Invalid("field %s defined in two bases" % f)
                self.all_fields[f] = t
        # methods: kind of every visible method
        self.kind = {}
        self.root = {}     # the template that introduced a virtual method
        for c in reversed(self.mro):
            t = self if c == self.name else table[c]
            for m, (q, f) in t.own_m.items():
                k = "virtual" if q in ("virtual", "override") else q
                root = c if q == "virtual" else None
                if q == "override":
                    if self.kind.get(m) != "virtual":
                        if c != self.name:
                            raise Invalid("override order")
                        raise Invalid("override without virtual")
                elif m in self.kind:
                    if q == "virtual" or self.kind[m] != q:
                        raise Invalid("method %s incompatible" % m)
                self.kind[m] = k
                if root:
                    self.root[m] = root
            for f2, _ in t.fields:
                pass
        for m in self.kind:
            if m in self.all_fields:
                raise Invalid("method and field")


class EInterp(lang.Interp):
    def __init__(self, **k):
        super().__init__(**k)
        self.t = {}
        self.ents = []

    # static type of an entity valued expression
    def resolve(self, tname, m):
        for c in self.t[tname].mro:
            if m in self.t[c].own_m:
                return c, self.t[c].own_m[m]
        raise KeyError(m)

    def new_ent(self, tname):
        e = Ent(len(self.ents) + 1)
        e.tmpl = tname
        self.ents.append(e)
        for f, t in self.t[tname].all_fields.items():
            c = Cell()
            if t in self.structs:
                c.v = self.new_struct(t)
            e.f[f] = c
        return e

    def construct(self, ent, tname, args, env, top):
        """Run the constructor of tname on ent; args already evaluated
        lazily in env."""
        for c in self.t[tname].mro:
            if self.t[c].new is not None:
                kind, params, body = self.t[c].new
                fn = Func(("func", "<new>", kind, params, None, body),
                          self.t[c].env)
                self.invoke(fn, args, {}, env,
                            Ref(ent, tname if kind == "inline" else c),
                            new=ent)
                return
        raise KeyError("no constructor")

    def invoke(self, fn, args, kw, env, self_ref=None, new=None):
        bound = {}
        vals = []
        for (p, port, typ, dflt), a in zip(fn.params, args):
            vals.append((p, port, typ, a))
        for n, a in kw.items():
            q = next(q for q in fn.params if q[0] == n)
            vals.append((n, q[1], q[2], a))
        for p, port, typ, a in vals:
            if port == "&":
                bound[p] = self.lv(a, env)
            else:
                v = copyval(self.ev(a, env))
                if isinstance(v, Ref) and typ in self.t:
                    v = Ref(v.ent, typ)
                bound[p] = Cell(v)
        for p, port, typ, dflt in fn.params:
            if p not in bound:
                bound[p] = Cell(copyval(self.ev(dflt, fn.env)))
        e2 = Env(fn.env)
        e2.d.update(bound)
        e2.d["\0result"] = Cell()
        if self_ref is not None:
            e2.d["\0self"] = Cell(self_ref)
        if new is not None:
            e2.d["\0new"] = new
        self.block(fn.body, e2)
        r = e2.d["\0result"]
        if fn.rtype is not None and r.v is UNSET:
            raise lang.Skip
        if isinstance(r.v, Ref) and fn.rtype in self.t:
            r.v = Ref(r.v.ent, fn.rtype)
        return r

    def call(self, e, env):
        if e[0] == "mcall":
            ref = self.ev(e[1], env)
            m = e[2]
            kind = self.t[ref.st].kind[m]
            if ref.cast:
                c, (q, f) = self.resolve(ref.cast, m)
            elif kind == "virtual":
                c, (q, f) = self.resolve(ref.ent.tmpl, m)
            else:
                c, (q, f) = self.resolve(ref.st, m)
            fn = Func(f, self.t[c].env)
            if q == "static":
                return self.invoke(fn, e[3], {}, env)
            return self.invoke(fn, e[3], {}, env, Ref(ref.ent, c))
        if e[0] == "tcall":
            c, (q, f) = self.resolve(e[1], e[2])
            return self.invoke(Func(f, self.t[c].env), e[3], {}, env)
        return self.invoke(env.get(e[1]), e[2], e[3] if len(e) > 3 else {},
                           env)

    def ev(self, e, env):
        k = e[0]
        if k == "new":
            ent = self.new_ent(e[1])
            self.construct(ent, e[1], e[2], env, True)
            return Ref(ent, e[1])
        if k in ("mcall", "tcall"):
            r = self.call(e, env)
            return r.v if isinstance(r, Cell) else r
        if k == "self":
            return env.get("\0self").v
        if k == "upcast":
            r = self.ev(e[1], env)
            return Ref(r.ent, r.st, e[2])
        return super().ev(e, env)

    def lv(self, e, env):
        if e[0] == "attr":
            v = self.ev(e[1], env)
            if isinstance(v, Ref):
                return v.ent.f[e[2]]
            return v.f[e[2]]
        if e[0] in ("mcall", "tcall"):
            return self.call(e, env)
        return super().lv(e, env)

    def st(self, s, env):
        k = s[0]
        if k == "entity":
            self.t[s[1]] = Template(s, env, self.t)
        elif k == "newstmt":
            ent = env.get("\0new")
            if s[1] is None:
                ent.type, ent.pos = s[2][0], s[2][1]
                ent.name = s[2][2] if len(s[2]) > 2 else None
            else:
                self.construct(ent, s[1], s[2], env, False)
        elif k == "let":
            v = copyval(self.ev(s[2], env))
            if isinstance(v, Ref):
                v = Ref(v.ent, v.st)
            env.d[s[1]] = Cell(v)
        elif k == "def" and s[2] in self.t:
            c = Cell(Ref(None, s[2]))
            env.d[s[1]] = c
            if s[3] is not None:
                self.assign(c, self.ev(s[3], env))
        else:
            super().st(s, env)

    @staticmethod
    def assign(cell, v):
        if isinstance(v, Ref) and isinstance(cell.v, Ref):
            cell.v = Ref(v.ent, cell.v.st)
        else:
            lang.Interp.assign(cell, v)


# -- printer ------------------------------------------------------------------

def _args(a):
    return ", ".join(pe(x, True) for x in a)


def pe_ext(e, top):
    k = e[0]
    if k == "new":
        return "%s(%s)" % (e[1], _args(e[2]))
    if k == "mcall":
        return "%s.%s(%s)" % (pe(e[1]), e[2], _args(e[3]))
    if k == "tcall":
        return "%s.%s(%s)" % (e[1], e[2], _args(e[3]))
    if k == "self":
        return "self"
    if k == "upcast":
        return "upcast(%s, %s)" % (pe(e[1], True), e[2])
    return None


def ps_ext(s, ind):
    p = "    " * ind
    k = s[0]
    if k == "entity":
        _, name, bases, fields, methods, new = s
        out = ["%sentity %s%s:" % (p, name, " extends " + ", ".join(bases)
                                   if bases else "")]
        for f, t in fields:
            out.append("%s    %s: %s" % (p, f, t))
        if new is not None:
            fn = lang.ps(("func", "X", "", new[1], None, new[2]), ind + 1)
            head = fn[0].replace("def X(", "new(", 1)
            if new[0] == "inline":
                head = head.replace("new(", "inline new(", 1)
            out += [head] + fn[1:]
        for q, f in methods:
            fn = lang.ps(f, ind + 1)
            if q:
                fn[0] = "%s    %s %s" % (p, q, fn[0].strip())
            out += fn
        if not fields and not methods and new is None:
            out.append(p + "    pass")
        return out
    if k == "newstmt":
        if s[1] is None:
            a = s[2]
            return ['%snew("%s", Pos(%s)%s)' % (
                p, a[0], ", ".join(str(x) for x in a[1]),
                ', "%s"' % a[2] if len(a) > 2 and a[2] is not None else "")]
        return ["%s%s.new(%s)" % (p, s[1], _args(s[2]))]
    return None


lang.EXT_EXPR.append(pe_ext)
lang.EXT_STMT.append(ps_ext)


def evaluator(module, structs=None):
    """-> function(body, env dict): runs bodies on one persistent world."""
    it = EInterp(structs=structs)
    g = Env()
    it.block(module, g)

    def run(body, inp):
        it.scb.clear()
        it.fuel = 3000
        e = Env(g)
        for k, v in inp.items():
            e.d[k] = Cell(v)
        it.block(body, e)
        return {k[0]: int(c.v) for k, c in it.scb.items() if c.v is not None}
    return it, run
