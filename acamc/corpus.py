"""Whole programs, taken from the other checks and from /verif/corpus."""
import glob
import importlib
import os

from . import core


class Harvest:
    """A stand-in for core.Check that only collects what would be compiled."""

    def __init__(self, every, size, limit, thorough=False):
        self.every, self.size, self.limit = every, size, limit
        self.thorough = thorough
        self.tier = "thorough" if thorough else "quick"
        self.stats = core.Stats()
        self.exhaustive = True
        self.bounds, self.parts, self.assumptions = {}, {}, []
        self.projects = []

    def map(self, mod, func, items, size=100):
        f = getattr(importlib.import_module(mod), func)
        items = list(items)
        size = min(size, self.size)
        chunks = list(core.chunked(items, size))
        step = max(1, -(-len(chunks) // self.limit), self.every)
        real = core.compile_files

        def record(files, main="main.aca", cfg=None, keep=False, strict=True):
            self.projects.append({"files": dict(files), "main": main,
                                  "cfg": dict(cfg or {})})
            out = core.Out()
            out.crash = "harvest"
            return out
        core.compile_files = record
        try:
            for c in chunks[::step]:
                st = core.Stats()
                try:
                    f(c, st)
                except Exception:
                    pass
        finally:
            core.compile_files = real


def harvest(module, fn="check", every=1, size=4, limit=20, singles=False):
    """Projects of a check module; -> [{files, main, cfg, name}]."""
    mod = importlib.import_module("acamc.checks." + module)
    h = Harvest(every, size, limit)
    pm = core.pmap
    core.pmap = lambda modname, func, chunks, *a, **k: h.map(
        modname, func, [x for c in chunks for x in c], size)
    try:
        getattr(mod, fn)(h)
    finally:
        core.pmap = pm
    seen, res = set(), []
    for p in h.projects:
        k = repr(sorted(p["files"].items(), key=repr)) + repr(p["cfg"])
        if k not in seen:
            seen.add(k)
            p["name"] = "%s.%s#%d" % (module, fn, len(res))
            res.append(p)
    return res


SOURCES = [("intexpr", "check"), ("boolexpr", "check"), ("assign", "check"),
           ("control", "check"), ("funcs", "check_C05"),
           ("funcs", "check_C06"), ("ctime", "check"), ("ctcoll", "check"),
           ("structs", "check"), ("entities", "check"),
           ("dispatch", "check"), ("groups", "check"), ("filters", "check"),
           ("modules", "check")]


def files():
    """The hand-written programs of /verif/corpus."""
    d = os.path.join(core.VERIF, "corpus")
    for p in sorted(glob.glob(os.path.join(d, "*.aca"))):
        with open(p, encoding="utf-8") as f:
            yield {"files": {"main.aca": f.read()}, "main": "main.aca",
                   "cfg": {}, "name": os.path.basename(p)}
