"""Run the compiler with the order of sets under control.

Python leaves the iteration order of a set to the addresses and hashes of its
elements. `install` reloads the compiler of /repo with its set displays, set
comprehensions, calls of set()/frozenset(), set operators, id() and hash()
rewritten to go through this module, so that a schedule decides the order of
every single iteration (and of every directory listing)."""
import ast
import importlib.machinery
import itertools
import os
import sys
import warnings
import zlib

from . import core


class Sched:
    def __init__(self):
        self.active = False
        self.plan = {}          # event -> permutation name
        self.default = "same"
        self.flip = False       # id(), hash()
        self.n = 0
        self.sizes = []
        self.keep = []
        self.ids = {}

    def start(self, plan=None, default="same", flip=False):
        self.active = True
        self.plan = plan or {}
        self.default = default
        self.flip = flip
        self.n = 0
        self.sizes = []
        self.keep = []
        self.ids = {}

    def stop(self):
        self.active = False
        self.keep = []
        self.ids = {}

    def order(self, xs):
        if not self.active or len(xs) < 2:
            return xs
        p = self.plan.get(self.n, self.default)
        self.n += 1
        self.sizes.append(len(xs))
        return permute(xs, p)


def permute(xs, p):
    if p == "same":
        return xs
    if p == "rev":
        return xs[::-1]
    if p == "rot":
        return xs[1:] + xs[:1]
    return [xs[i] for i in p]


def plans(n):
    """Alternative orders of one iteration over n elements."""
    if n <= 3:
        ps = list(itertools.permutations(range(n)))[1:]
        return [list(p) for p in ps]
    return ["rev", "rot"]


S = Sched()


class OSet(set):
    def __init__(self, it=()):
        set.__init__(self)
        self._o = {}
        for x in it:
            OSet.add(self, x)

    def add(self, x):
        if x not in self:
            set.add(self, x)
            self._o[x] = None

    def discard(self, x):
        set.discard(self, x)
        self._o.pop(x, None)

    def remove(self, x):
        set.remove(self, x)
        del self._o[x]

    def clear(self):
        set.clear(self)
        self._o = {}

    def __iter__(self):
        return iter(S.order(list(self._o)))

    def pop(self):
        if not self._o:
            raise KeyError("pop from an empty set")
        x = S.order(list(self._o))[0]
        self.remove(x)
        return x

    def copy(self):
        return type(self)(self._o)

    __copy__ = copy

    def _raw(self, its):
        for it in its:
            yield from (list(it._o) if isinstance(it, OSet) else it)

    def update(self, *its):
        for x in list(self._raw(its)):
            self.add(x)

    def __ior__(self, o):
        self.update(o)
        return self

    def _keep(self, ok):
        for x in list(self._o):
            if not ok(x):
                self.discard(x)

    def intersection_update(self, *its):
        for it in its:
            s = set(it)
            self._keep(lambda x: x in s)

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def difference_update(self, *its):
        for it in its:
            s = set(it)
            self._keep(lambda x: x not in s)

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def symmetric_difference_update(self, it):
        it = list(self._raw([it]))
        for x in it:
            if x in self:
                self.discard(x)
            else:
                self.add(x)

    def __ixor__(self, o):
        self.symmetric_difference_update(o)
        return self

    def union(self, *its):
        r = OSet(self._o)
        r.update(*its)
        return r

    def intersection(self, *its):
        r = OSet(self._o)
        r.intersection_update(*its)
        return r

    def difference(self, *its):
        r = OSet(self._o)
        r.difference_update(*its)
        return r

    def symmetric_difference(self, it):
        r = OSet(self._o)
        r.symmetric_difference_update(it)
        return r

    def __or__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return self.union(o)

    def __and__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return self.intersection(o)

    def __sub__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return self.difference(o)

    def __xor__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return self.symmetric_difference(o)

    def __hash__(self):
        return hash(frozenset(self._o))

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self))

    __str__ = __repr__

    def __reduce__(self):
        return (OSet, (list(self._o),))


def binop(op, a, b):
    """a `op` b for the operators that sets have."""
    r = op(a, b)
    if type(r) in (set, frozenset):
        order = [x for x in itertools.chain(
            a._o if isinstance(a, OSet) else a,
            b._o if isinstance(b, OSet) else b) if x in r]
        return OSet(order)
    return r


def id_(x):
    if not S.active:
        return id(x)
    k = id(x)
    if k not in S.ids:
        S.ids[k] = len(S.ids) + 1
        S.keep.append(x)
    n = S.ids[k] * 64
    return (1 << 44) - n if S.flip else (1 << 43) + n


def hash_(x):
    h = hash(x)
    if not S.active:
        return h
    try:
        h = zlib.crc32(repr(x).encode())
    except Exception:
        h = id_(x)
    return -h if S.flip else h


OPS = {ast.BitOr: "or_", ast.BitAnd: "and_", ast.Sub: "sub", ast.BitXor: "xor"}
FUNCS = {"set": "OSet", "frozenset": "OSet", "id": "id_", "hash": "hash_"}


class Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.sites = 0

    def ref(self, name, at):
        n = ast.Attribute(ast.Name("_acamc_nd_", ast.Load()), name, ast.Load())
        return ast.copy_location(n, at)

    def visit_Set(self, node):
        self.generic_visit(node)
        self.sites += 1
        lst = ast.List(node.elts, ast.Load())
        return ast.copy_location(
            ast.Call(self.ref("OSet", node), [lst], []), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        self.sites += 1
        g = ast.GeneratorExp(node.elt, node.generators)
        return ast.copy_location(
            ast.Call(self.ref("OSet", node), [g], []), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in FUNCS:
            self.sites += 1
            node.func = self.ref(FUNCS[f.id], node)
        node.args = [self.ref("OSet", a)
                     if isinstance(a, ast.Name) and a.id in ("set", "frozenset")
                     and not (isinstance(f, ast.Name) and f.id == "isinstance")
                     else a for a in node.args]
        for k in node.keywords:
            if isinstance(k.value, ast.Name) and k.value.id in FUNCS:
                k.value = self.ref(FUNCS[k.value.id], node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        op = OPS.get(type(node.op))
        if op is None or isinstance(node.left, ast.Constant) \
                or isinstance(node.right, ast.Constant):
            return node
        fn = ast.Attribute(self.ref("operator", node), op, ast.Load())
        return ast.copy_location(
            ast.Call(self.ref("binop", node), [fn, node.left, node.right],
                     []), node)


sites = {}
_installed = False


def transform(data, path):
    warnings.simplefilter("ignore")
    tree = ast.parse(data, path)
    r = Rewrite()
    tree = r.visit(tree)
    body = tree.body
    i = 0
    if body and isinstance(body[0], ast.Expr) \
            and isinstance(body[0].value, ast.Constant):
        i = 1
    while i < len(body) and isinstance(body[i], ast.ImportFrom) \
            and body[i].module == "__future__":
        i += 1
    imp = ast.parse("import acamc.nd as _acamc_nd_").body
    tree.body = body[:i] + imp + body[i:]
    ast.fix_missing_locations(tree)
    sites[os.path.relpath(path, core.REPO)] = r.sites
    return tree


def install():
    """Reload the compiler under control (once per process)."""
    global _installed
    if _installed:
        return
    _installed = True
    for m in list(sys.modules):
        if m == "acaciamc" or m.startswith("acaciamc."):
            del sys.modules[m]
    sys.pycache_prefix = os.path.join(core.scratch(), "pyc")
    sys.dont_write_bytecode = True
    base = importlib.machinery.SourceFileLoader
    real = base.source_to_code
    prefix = os.path.join(os.path.realpath(core.REPO), "acaciamc") + os.sep

    def source_to_code(self, data, path, *, _optimize=-1):
        if os.path.realpath(path).startswith(prefix):
            data = transform(data, path)
        return real(self, data, path, _optimize=_optimize)
    base.source_to_code = source_to_code
    importlib.invalidate_caches()
    listdir, scandir = os.listdir, os.scandir

    def listdir2(*a):
        return S.order(sorted(listdir(*a))) if S.active else listdir(*a)

    class Scan:
        def __init__(self, *a):
            with scandir(*a) as it:
                self.xs = iter(S.order(sorted(it, key=lambda e: e.name)))

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.xs)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

    def scandir2(*a):
        return Scan(*a) if S.active else scandir(*a)
    os.listdir, os.scandir = listdir2, scandir2


import operator  # noqa: E402,F401
