"""Reference model of the run-time part of the Acacia language: a tiny AST
(tuples), a printer to Acacia source and a direct evaluator.

Expressions
  ('i', n)  ('b', bool)  ('v', name)  ('attr', e, field)
  ('neg', e) ('pos', e) ('+'|'-'|'*'|'/'|'%', l, r)
  ('not', e) ('and', [e..]) ('or', [e..]) ('cmp', e0, op, e1, op, e2 ...)
  ('call', f, [args], {kw: e})  ('raw', text, python value)
  ('struct', Name, {field: e})  ('scb', holder, objective)
Statements
  ('let', x, e)  ('def', x, type, e|None)  ('set', lv, e)  ('aug', op, lv, e)
  ('swap', lv, lv)  ('ref', x, lv)  ('const', x, e)
  ('if', [(cond, body)...], else_body|None)  ('while', cond, body)
  ('expr', e)  ('result', e)  ('pass',)
  ('func', name, kind, params, rtype, body)   kind: '' | 'inline' | 'const'
      params: [(name, port, type|None, default|None)]  port: '' | '&' | 'const'
  ('for', x, [literal expr..], body)
  ('struct', Name, [bases], [(field, type)])
  ('cmd', text, [statements with the same effect])   a raw command
"""
from .mc import wrap, c_div, c_rem, INT_MAX, INT_MIN  # noqa: F401


class Skip(Exception):
    """The language gives this run no meaning (division by zero...)."""


class CTError(Exception):
    """Compile-time evaluation must be refused (overflow, division by 0)."""


class StructVal:
    __slots__ = ("name", "f")

    def __init__(self, name, f):
        self.name = name
        self.f = f

    def copy(self):
        return StructVal(self.name, {k: Cell(copyval(c.v))
                                     for k, c in self.f.items()})


def copyval(v):
    return v.copy() if isinstance(v, StructVal) or \
        getattr(v, "BYVAL", False) else v


class Cell:
    __slots__ = ("v",)

    def __init__(self, v=None):
        self.v = v


UNSET = None


class Env:
    __slots__ = ("d", "up")

    def __init__(self, up=None):
        self.d = {}
        self.up = up

    def get(self, n):
        e = self
        while e is not None:
            if n in e.d:
                return e.d[n]
            e = e.up
        if "." in n:            # member of a module
            m, n = n.split(".", 1)
            return self.get(m).member(n)
        raise KeyError(n)


CMP = {
    "==": lambda a, b: a == b, "!=": lambda a, b: a != b,
    "<": lambda a, b: a < b, ">": lambda a, b: a > b,
    "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b,
}


def arith(op, a, b):
    if op == "+":
        return wrap(a + b)
    if op == "-":
        return wrap(a - b)
    if op == "*":
        return wrap(a * b)
    if b == 0:
        raise Skip
    if op == "/":
        return wrap(c_div(a, b))
    return wrap(c_rem(a, b))


def ct_arith(op, a, b):
    """Arithmetic at compile time: no wrap-around, errors instead."""
    if op in "/%" and b == 0:
        raise CTError
    v = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b,
         "/": lambda: c_div(a, b), "%": lambda: c_rem(a, b)}[op]()
    if not INT_MIN <= v <= INT_MAX:
        raise CTError
    return v


class Func:
    def __init__(self, node, env):
        _, self.name, self.kind, self.params, self.rtype, self.body = node
        self.env = env
        self.statics = {}


class Interp:
    """One run of a program; `scb` is the scoreboard seen by scb()."""

    def __init__(self, scb=None, structs=None, fuel=3000, ct=False):
        self.arith = ct_arith if ct else arith
        self.scb = scb if scb is not None else {}
        self.structs = structs or {}   # name -> {field: type}
        self.fuel = fuel

    # expressions

    def ev(self, e, env):
        k = e[0]
        if k == "i" or k == "b":
            return e[1]
        if k == "v":
            c = env.get(e[1])
            if isinstance(c, Cell):
                if c.v is UNSET:
                    raise Skip
                return c.v
            return c
        if k in ("+", "-", "*", "/", "%"):
            a = self.ev(e[1], env)
            b = self.ev(e[2], env)
            return self.arith(k, a, b)
        if k == "neg":
            return self.arith("-", 0, self.ev(e[1], env))
        if k == "pos":
            return self.ev(e[1], env)
        if k == "not":
            return not self.ev(e[1], env)
        if k == "and":
            vs = [self.ev(x, env) for x in e[1]]
            return all(vs)
        if k == "or":
            vs = [self.ev(x, env) for x in e[1]]
            return any(vs)
        if k == "cmp":
            vs = [self.ev(x, env) for x in e[1::2]]
            return all(CMP[op](vs[i], vs[i + 1])
                       for i, op in enumerate(e[2::2]))
        if k == "raw":
            return e[2]
        if k == "list":
            return [self.ev(x, env) for x in e[1]]
        if k == "toint":
            return int(self.ev(e[1], env))
        if k in ("attr", "scb"):
            v = self.lv(e, env).v
            if v is UNSET:
                raise Skip
            return v
        if k == "struct":
            r = self.new_struct(e[1])
            for n, x in e[2].items():
                self.assign(r.f[n], self.ev(x, env))
            return r
        if k == "call":
            r = self.call(e, env)
            return r.v if isinstance(r, Cell) else r
        raise AssertionError(e)

    def new_struct(self, name):
        f = {}
        for n, t in self.structs[name].items():
            f[n] = Cell(self.new_struct(t) if t in self.structs else None)
        return StructVal(name, f)

    def lv(self, e, env):
        k = e[0]
        if k == "v":
            return env.get(e[1])
        if k == "attr":
            v = self.ev(e[1], env)
            return v.f[e[2]]
        if k == "scb":
            key = (e[1], e[2])
            if key not in self.scb:
                self.scb[key] = Cell()
            return self.scb[key]
        if k == "call":
            r = self.call(e, env)
            assert isinstance(r, Cell), e
            return r
        raise AssertionError(e)

    def call(self, e, env):
        fn = env.get(e[1])
        args = e[2]
        kw = e[3] if len(e) > 3 else {}
        bound = {}
        vals = []
        for (p, port, typ, dflt), a in zip(fn.params, args):
            vals.append((p, port, a))
        for n, a in kw.items():
            port = next(q[1] for q in fn.params if q[0] == n)
            vals.append((n, port, a))
        for p, port, a in vals:
            if port == "&":
                bound[p] = self.lv(a, env)
            else:
                bound[p] = Cell(copyval(self.ev(a, env)))
        for p, port, typ, dflt in fn.params:
            if p not in bound and port == "&":
                bound[p] = self.lv(dflt, fn.env)
            elif p not in bound:
                bound[p] = Cell(copyval(self.ev(dflt, fn.env)))
        # inline functions see the scope of their definition
        e2 = Env(fn.env)
        e2.d.update(bound)
        e2.d["\0result"] = Cell()
        self.block(fn.body, e2)
        r = e2.d["\0result"]
        if fn.rtype is not None and r.v is UNSET:
            raise Skip
        return r

    # statements

    def block(self, body, env):
        for s in body:
            self.st(s, env)

    def st(self, s, env):
        k = s[0]
        self.fuel -= 1
        if self.fuel < 0:
            raise Skip
        if k == "let":
            v = copyval(self.ev(s[2], env))
            env.d[s[1]] = Cell(v)
        elif k == "def":
            c = Cell()
            if s[2] in self.structs:
                c.v = self.new_struct(s[2])
            env.d[s[1]] = c
            if s[3] is not None:
                self.assign(c, self.ev(s[3], env))
        elif k == "set":
            lv = self.lv(s[1], env)
            self.assign(lv, self.ev(s[2], env))
        elif k == "aug":
            lv = self.lv(s[2], env)
            b = self.ev(s[3], env)
            if lv.v is UNSET:
                raise Skip
            lv.v = self.arith(s[1], lv.v, b)
        elif k == "swap":
            a, b = self.lv(s[1], env), self.lv(s[2], env)
            if a.v is UNSET or b.v is UNSET:
                raise Skip
            va, vb = copyval(a.v), copyval(b.v)
            self.assign(a, vb)
            self.assign(b, va)
        elif k == "ref":
            env.d[s[1]] = self.lv(s[2], env)
        elif k == "const":
            env.d[s[1]] = self.ev(s[2], env)
        elif k == "if":
            for cond, body in s[1]:
                if self.ev(cond, env):
                    self.block(body, env)
                    return
            if s[2]:
                self.block(s[2], env)
        elif k == "while":
            while self.ev(s[1], env):
                self.fuel -= 1
                if self.fuel < 0:
                    raise Skip
                self.block(s[2], env)
        elif k == "expr":
            if s[1][0] == "call":
                self.call(s[1], env)
            else:
                self.ev(s[1], env)
        elif k == "result":
            fn_env = env
            while "\0result" not in fn_env.d:
                fn_env = fn_env.up
            if len(s) > 2 and s[2] == "&":
                fn_env.d["\0result"] = self.lv(s[1], env)
            else:
                c = fn_env.d["\0result"]
                v = copyval(self.ev(s[1], env))
                if c.v is UNSET:
                    c.v = v
                else:
                    self.assign(c, v)
        elif k == "pass":
            pass
        elif k == "cmd":
            self.block(s[2], env)
        elif k == "func":
            env.d[s[1]] = Func(s, env)
        elif k == "struct":
            pass
        elif k == "for":
            for v in [self.ev(x, env) for x in s[2]]:
                e2 = Env(env)
                e2.d[s[1]] = v
                for y in s[3]:
                    self.st(y, e2)
        else:
            raise AssertionError(s)

    @staticmethod
    def assign(cell, v):
        if isinstance(v, StructVal) and isinstance(cell.v, StructVal):
            v = v.copy()
            for n, c in cell.v.f.items():
                if n in v.f:
                    if c.v is not UNSET and isinstance(c.v, StructVal):
                        Interp.assign(c, v.f[n].v)
                    else:
                        c.v = v.f[n].v
        else:
            cell.v = copyval(v)


# ---------------------------------------------------------------------------
# Printer

EXT_EXPR = []       # extensions: f(e, top) -> text | None
EXT_STMT = []       # f(s, ind) -> lines | None


def pe(e, top=False):
    k = e[0]
    for x in EXT_EXPR:
        r = x(e, top)
        if r is not None:
            return r
    if k == "i":
        if e[1] == INT_MIN:
            return "int.MIN"
        return str(e[1]) if e[1] >= 0 else "(%d)" % e[1]
    if k == "b":
        return str(e[1])
    if k == "v":
        return e[1]
    if k == "attr":
        return "%s.%s" % (pe(e[1]), e[2])
    if k in ("+", "-", "*", "/", "%"):
        r = "%s %s %s" % (pe(e[1]), k, pe(e[2]))
    elif k == "neg":
        r = "-" + pe(e[1])
    elif k == "pos":
        r = "+" + pe(e[1])
    elif k == "not":
        r = "not " + pe(e[1])
    elif k in ("and", "or"):
        r = (" %s " % k).join(pe(x) for x in e[1])
    elif k == "cmp":
        r = pe(e[1])
        for i in range(2, len(e), 2):
            r += " %s %s" % (e[i], pe(e[i + 1]))
    elif k == "raw":
        return e[1]
    elif k == "list":
        return "{%s}" % ", ".join(pe(x, True) for x in e[1])
    elif k == "toint":
        return "int(%s)" % pe(e[1], True)
    elif k == "scb":
        return 'scb("%s", "%s")' % (e[1], e[2])
    elif k == "struct":
        return "%s(%s)" % (e[1], ", ".join(
            "%s=%s" % (n, pe(x, True)) for n, x in e[2].items()))
    elif k == "call":
        kw = e[3] if len(e) > 3 else {}
        return "%s(%s)" % (e[1], ", ".join(
            [pe(a, True) for a in e[2]]
            + ["%s=%s" % (n, pe(x, True)) for n, x in kw.items()]))
    else:
        raise AssertionError(e)
    return r if top else "(%s)" % r


def ps(s, ind=0):
    k = s[0]
    for x in EXT_STMT:
        r = x(s, ind)
        if r is not None:
            return r
    p = "    " * ind
    if k == "let":
        return ["%s%s := %s" % (p, s[1], pe(s[2], True))]
    if k == "def":
        if s[3] is None:
            return ["%s%s: %s" % (p, s[1], s[2])]
        return ["%s%s: %s = %s" % (p, s[1], s[2], pe(s[3], True))]
    if k == "set":
        return ["%s%s = %s" % (p, pe(s[1]), pe(s[2], True))]
    if k == "aug":
        return ["%s%s %s= %s" % (p, pe(s[2]), s[1], pe(s[3], True))]
    if k == "swap":
        return ["%sswap(%s, %s)" % (p, pe(s[1]), pe(s[2]))]
    if k == "ref":
        return ["%s&%s = %s" % (p, s[1], pe(s[2], True))]
    if k == "const":
        return ["%sconst %s = %s" % (p, s[1], pe(s[2], True))]
    if k == "if":
        out = []
        for i, (c, b) in enumerate(s[1]):
            out.append("%s%s %s:" % (p, "if" if i == 0 else "elif",
                                     pe(c, True)))
            out += pb(b, ind + 1)
        if s[2] is not None:
            out.append(p + "else:")
            out += pb(s[2], ind + 1)
        return out
    if k == "while":
        return ["%swhile %s:" % (p, pe(s[1], True))] + pb(s[2], ind + 1)
    if k == "expr":
        return [p + pe(s[1], True)]
    if k == "result":
        return ["%sresult %s" % (p, pe(s[1], True))]  # s[2] = '&': alias
    if k == "pass":
        return [p + "pass"]
    if k == "cmd":
        return [p + "/" + s[1]]
    if k == "func":
        _, name, kind, params, rtype, body = s
        ps_ = []
        for n, port, t, d in params:
            x = {"": "", "&": "&", "const": "const "}[port] + n
            if t:
                x += ": " + t
            if d is not None:
                x += " = " + pe(d, True)
            ps_.append(x)
        head = "%s%sdef %s(%s)%s:" % (
            p, kind + " " if kind else "", name, ", ".join(ps_),
            " -> " + rtype if rtype else "")
        return [head] + pb(body, ind + 1)
    if k == "struct":
        return ["%sstruct %s%s:" % (p, s[1], " extends " + ", ".join(s[2])
                                    if s[2] else "")] + [
            "%s    %s: %s" % (p, n, t) for n, t in s[3]] + (
                [] if s[3] else [p + "    pass"])
    if k == "for":
        return ["%sfor %s in {%s}:" % (p, s[1], ", ".join(
            pe(x, True) for x in s[2]))] + pb(s[3], ind + 1)
    raise AssertionError(s)


def pb(body, ind):
    if not body:
        return ["    " * ind + "pass"]
    out = []
    for s in body:
        out += ps(s, ind)
    return out


# ---------------------------------------------------------------------------
# Constant folding side conditions

def overflow_literal(e):
    """Would the compiler's constant folding of `e` leave 32 bits (a compile
    error in Acacia), or divide by a constant 0?  -> (is_const, bad)"""
    k = e[0]
    if k == "i":
        return True, False
    if k in ("+", "-", "*", "/", "%"):
        c1, b1 = overflow_literal(e[1])
        c2, b2 = overflow_literal(e[2])
        if b1 or b2:
            return c1 and c2, True
        if c1 and c2:
            a, b = const_value(e[1]), const_value(e[2])
            if k in "/%" and b == 0:
                return True, True
            v = const_value(e)
            return True, not INT_MIN <= v <= INT_MAX
        return False, False
    if k == "neg":
        c, b = overflow_literal(e[1])
        if b:
            return c, True
        if c:
            return True, not INT_MIN <= -const_value(e[1]) <= INT_MAX
        return False, False
    if k == "pos":
        return overflow_literal(e[1])
    return False, False


def const_value(e):
    k = e[0]
    if k == "i":
        return e[1]
    if k == "neg":
        return -const_value(e[1])
    if k == "pos":
        return const_value(e[1])
    a, b = const_value(e[1]), const_value(e[2])
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b,
            "/": lambda: c_div(a, b), "%": lambda: c_rem(a, b)}[k]()
