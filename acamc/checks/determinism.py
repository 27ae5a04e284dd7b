"""C09: the output is a function of the project and the configuration.

The compiler runs with every iteration over a set, every directory listing and
every id() or hash() under the control of a scheduler (acamc/nd.py). For each
program of a corpus, all single deviations from the reference order (every
permutation of up to three elements, reversal and rotation of more) and the
global ones are executed; each must give the same files, or the same error.
Histories of compilations in one process, and changed surroundings (directory,
time, random numbers, environment), must not matter either."""
import os
import random
import re
import sys
import time

from .. import core, corpus, nd

ME = __name__
ADDR = re.compile(r"0x[0-9a-f]{6,}")
VARIANTS = {"default": {}, "noopt": {"optimizer": False},
            "inlineall": {"max_inline_file_size": 100000},
            "init": {"split_init": True, "max_inline_file_size": 3,
                     "root_folder": "r"}}


def digest(o):
    if o.crash:
        return ("crash", re.sub(r"0x[0-9a-f]+", "0x", o.crash[-300:]))
    if o.error is not None:
        return ("error", o.etype, o.error, o.loc)
    return ("ok", tuple(sorted(o.files.items())),
            tuple(sorted(o.extra.items())))


def difference(a, b):
    if a[0] != "ok" or b[0] != "ok":
        return "%r became %r" % (a[:3] if a[0] != "ok" else "success",
                                 b[:3] if b[0] != "ok" else "success")
    x, y = dict(a[1]), dict(b[1])
    x.update(a[2]), y.update(b[2])
    for k in sorted(set(x) | set(y)):
        if x.get(k) != y.get(k):
            if k not in x or k not in y:
                return "file %s exists in one output only" % k
            for m, n in zip(x[k].split("\n"), y[k].split("\n")):
                if m != n:
                    return "%s: %r became %r" % (k, m, n)
            return "%s: length differs" % k
    return "?"


def run(p, cfg, plan=None, default="same", flip=False):
    nd.S.start(plan, default, flip)
    try:
        o = core.compile_files(p["files"], p["main"], dict(p["cfg"], **cfg))
    finally:
        sizes = nd.S.sizes
        nd.S.stop()
    return digest(o), sizes


def violation(p, cfg, what, **more):
    return core.Violation(
        {"key": "%s/%s" % (p["name"], what.split("\n")[0]), "kind":
         "determinism", "what": "%s\nprogram %s, configuration %r\n%s" % (
             what, p["name"], cfg, p["files"].get(p["main"], "")[:1500]),
         "project": p, "cfg": cfg, **more})


def schedules(sizes, limit):
    """(name, plan, default, flip) of every schedule."""
    yield ("all reversed", {}, "rev", False)
    yield ("all rotated", {}, "rot", False)
    yield ("ids reversed", {}, "same", True)
    for i, n in enumerate(sizes[:limit]):
        for pl in nd.plans(n):
            yield ("iteration %d of %d in order %s" % (i, n, pl), {i: pl},
                   "same", False)


def sched_batch(chunk, st):
    nd.install()
    for p, cfg, limit in chunk:
        base, sizes = run(p, cfg)
        st.programs += 1
        st.outcome(repr(base))
        if ADDR.search(repr(base)) and base[0] != "crash":
            st.violations.append(violation(
                p, cfg, "an address appears in the output"))
        if len(sizes) > limit:
            st.count("iterations not deviated singly", len(sizes) - limit)
        if st.programs == 1:
            st.sample({"project": p["name"], "set iterations": sizes})
        for name, plan, default, flip in schedules(sizes, limit):
            got, _ = run(p, cfg, plan, default, flip)
            st.states += 1
            st.transitions += len(sizes)
            if got != base:
                st.violations.append(violation(
                    p, cfg, "the output depends on the order of a set\n"
                    "%s: %s" % (name, difference(base, got)),
                    plan=[[k, v] for k, v in plan.items()], default=default,
                    flip=flip))
                break


def forked(f):
    """Result of f() computed in a child process."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "wb") as fh:
                pickle.dump(f(), fh)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def plain(p):
    return digest(core.compile_files(p["files"], p["main"], p["cfg"]))


def history(ps):
    for p in ps[:-1]:
        plain(p)
    return plain(ps[-1])


def hist_batch(chunk, st):
    fresh = {}
    for ps in chunk:
        last = ps[-1]
        if last["name"] not in fresh:
            fresh[last["name"]] = forked(lambda: plain(last))
            st.programs += 1
            st.outcome(repr(fresh[last["name"]]))
        got = forked(lambda: history(ps))
        st.states += 1
        st.transitions += len(ps)
        if got != fresh[last["name"]]:
            st.violations.append(violation(
                last, {}, "the output depends on what was compiled before\n"
                "after %s: %s" % ([p["name"] for p in ps[:-1]], difference(
                    fresh[last["name"]], got)), before=ps[:-1]))


def surroundings():
    def cwd():
        os.chdir("/")

    def clock():
        t = time.time
        time.time = lambda: t() + 123456789.5
        time.time_ns = lambda: 17
        time.monotonic = lambda: 5.0
        time.localtime = lambda *a: time.gmtime(86400 * 400)
        os.getpid = lambda: 4242424

    def rand():
        random.seed(99)
        random.random = lambda: 0.75
        random.randint = lambda a, b: b
        random.choice = lambda xs: xs[-1]
        random.shuffle = lambda xs: xs.reverse()

    def env():
        for k in list(os.environ):
            if k not in ("LANG", "LC_ALL", "PATH"):
                del os.environ[k]
        os.environ.update(USER="other", HOME="/nowhere", TZ="Asia/Tokyo",
                          TERM="dumb", COLUMNS="17", DEBUG="1")
        sys.argv[:] = ["x"]

    def flags():
        sys.setrecursionlimit(9000)
        sys.stdout = open(os.devnull, "w")
        sys.stdin = open(os.devnull)
    return {"directory": cwd, "clock": clock, "random": rand,
            "environment": env, "streams": flags}


def around(name, p):
    core.scratch()
    pid = os.getpid()
    surroundings()[name]()
    if os.getpid() != pid:
        # the scratch directory is found by process id
        core._scratch = (os.getpid(), core._scratch[1])
    return plain(p)


def env_batch(chunk, st):
    for p in chunk:
        base = forked(lambda: plain(p))
        st.programs += 1
        for name in surroundings():
            got = forked(lambda: around(name, p))
            st.states += 1
            st.transitions += 1
            if got != base:
                st.violations.append(violation(
                    p, {}, "the output depends on the %s\n%s" % (
                        name, difference(base, got)), around=name))


TWO_FILES = "import m\nimport p.m as k\ninterface t:\n    m.f()\n    k.f()\n"
LISTING = {"name": "listing", "main": "main.aca", "cfg": {}, "files": {
    "main.aca": TWO_FILES,
    "m.aca": "def f():\n    /say aca\n",
    "m.py": "def acacia_build(compiler):\n    return {}\n",
    "m.txt": "no\n", "m": "no\n", "M.aca": "def g():\n    /say M\n",
    "p/m.aca": "def f():\n    /say p\n", "p/m.aca.bak": "no\n"}}


def projects(limit, sources=None):
    res = [LISTING] + list(corpus.files())
    for m, f in sources or corpus.SOURCES:
        res += corpus.harvest(m, f, limit=limit)
    return res


def check(chk):
    th = chk.thorough
    ps = projects(24 if th else 3)
    if th:
        items = [(p, c, 400) for p in ps for c in VARIANTS.values()]
    else:
        items = [(p, {}, 16) for p in ps] + [
            (p, c, 6) for p in ps[::3] for c in VARIANTS.values() if c]
    # long ones first
    items.sort(key=lambda x: -sum(map(len, map(str, x[0]["files"].values()))))
    chk.map(ME, "sched_batch", items, 4)
    hp = projects(1)
    hp = hp[::1 if th else max(1, len(hp) // 20)]
    chk.map(ME, "hist_batch", [[q, p] for p in hp for q in hp], 16)
    if th:
        some = hp[::max(1, len(hp) // 9)]
        chk.map(ME, "hist_batch", [[a, b, p] for p in some for a in some
                                   for b in some], 16)
    chk.map(ME, "env_batch", ps[::3 if th else 12], 4)
    chk.bounds = {
        "programs": len(ps), "configurations": len(VARIANTS),
        "schedules per program": "all reversed, all rotated, ids reversed, "
        "and every permutation (n <= 3) or reversal and rotation (n > 3) of "
        "each single iteration",
        "single deviations per program": 400 if th else 16,
        "programs in histories": len(hp), "history length": 3 if th else 2}
    chk.assumptions = [
        "two or more simultaneous deviations from the reference order are "
        "covered only by the global schedules",
        "Python code other than the compiler's keeps its order"]


def replay(v):
    p, cfg = v["project"], v["cfg"]
    if "plan" in v:
        nd.install()
        base, _ = run(p, cfg)
        got, _ = run(p, cfg, dict((k, x) for k, x in v["plan"]), v["default"],
                     v["flip"])
    elif "before" in v:
        base = forked(lambda: plain(p))
        got = forked(lambda: history(v["before"] + [p]))
    elif "around" in v:
        base = forked(lambda: plain(p))
        got = forked(lambda: around(v["around"], p))
    else:
        nd.install()
        base, _ = run(p, cfg)
        print("address in the output" if ADDR.search(repr(base))
              else "no violation")
        return 1 if ADDR.search(repr(base)) else 0
    print("no violation" if got == base else difference(base, got))
    return int(got != base)
