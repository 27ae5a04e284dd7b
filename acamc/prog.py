"""Statement-level programs in the reference language -> cases."""
from . import lang
from .lang import pb

V = lambda n: ("v", n)  # noqa: E731
I = lambda n: ("i", n)  # noqa: E731
OUT = lambda n, e: ("set", ("scb", n, "io"), e)  # noqa: E731
INTS = ("a", "b", "c")
BOOLS = ("p", "q")


def read_inputs(names):
    out = []
    for n in names:
        if n in BOOLS:
            out.append('%s := scb("%s", "io") == 1' % (n, n))
        else:
            out.append('%s := scb("%s", "io")' % (n, n))
    return out


def evaluate(module, body, inp, structs=None):
    it = lang.Interp(structs=structs)
    g = lang.Env()
    try:
        it.block(module, g)
        e = lang.Env(g)
        for k, v in inp.items():
            e.d[k] = lang.Cell(bool(v) if k in BOOLS else v)
        it.block(body, e)
    except lang.Skip:
        return None
    return {k[0]: (int(c.v) if c.v is not None else None)
            for k, c in it.scb.items() if c.v is not None}


def mk(key, module, body, names, inputs, n=0, structs=None, tname=None):
    """module: list of statements at file level, body: interface body."""
    defs = "\n".join(pb(module, 0)) if module else ""
    lines = read_inputs(names) + pb(body, 0)
    sub = lambda s: s.replace("§", str(n))  # noqa: E731
    return {"key": key, "defs": sub(defs), "body": [sub(x) for x in lines],
            "inputs": inputs,
            "expect": [evaluate(module, body, i, structs) for i in inputs]}
