"""C17: interfaces and the layout of the output.

Three enumerations: every interface path built from at most three (four)
tokens, quoted and not; every combination of two or three interfaces from a
set of related paths in five places; and the product of the layout options
over programs with and without modules, ticking code and interfaces. Oracle: a
written-down rule for valid paths, the exact set of files, the closure of
function references, and the values the functions compute when run."""
import itertools
import json
import re

from .. import cases, core, mc

ME = __name__

# -- A: the grammar of paths -------------------------------------------------

TOKENS = ("a", "A", "/", ".", "..", "main", "_acacia", "INIT", "-1", "(", " ",
          "\u00e9", "tick")
OKCHARS = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
              ".(-)_/")


def reserved(cfg):
    r = [cfg.get("main_file", "main"), cfg.get("internal_folder", "_acacia")]
    if cfg.get("split_init"):
        r.append(cfg.get("init_file", "init"))
    return [x.lower() for x in r]


def valid(path, quoted, cfg):
    parts = path.split("/")
    if not path or "" in parts or "." in parts or ".." in parts:
        return False
    if not set(path) <= OKCHARS or (not quoted and set(path) & set("()")):
        return False
    low = path.lower()
    return not any(low == r or low.startswith(r + "/") for r in reserved(cfg))


def problem(out, src):
    if out.crash:
        return "compiler crashed\n%s\n%s" % (src, out.crash)
    if out.outside:
        return "files written outside the output folder: %r\n%s" % (
            out.outside, src)


def located(out, line=None):
    return out.loc[0] is not None and out.loc[1] is not None and (
        line is None or out.loc[1][0] == line)


def path_case(path, quoted, cfg):
    """-> None or what is wrong."""
    text = '"%s"' % path if quoted else path
    if not quoted:
        path = path.strip(" ")
    src = "/say main\ninterface %s:\n    /say hi\n" % text
    out = core.compile_files({"main.aca": src}, cfg=cfg)
    bad = problem(out, src)
    if bad:
        return bad
    if not valid(path, quoted, cfg):
        if out.ok:
            return "accepted, but the path is not valid: %r (files %r)" % (
                path, sorted(out.files))
        if not located(out):
            return "error without a place: %s\n%s" % (out.error, src)
        return None
    if not out.ok:
        return "valid path refused: %r: %s" % (path, out.error)
    main = cfg.get("main_file", "main")
    want = {main, path}
    if cfg.get("split_init"):
        want.add(cfg.get("init_file", "init"))
    if set(out.files) != want or out.extra:
        return "files %r, expected %r\n%s" % (
            sorted(out.files) + sorted(out.extra), sorted(want), src)
    if commands(out.files[path]) != ["say hi"] \
            or commands(out.files[main])[-1] != "say main":
        return "wrong contents %r\n%s" % (out.files, src)


def commands(text):
    return [ln for ln in text.split("\n")
            if ln.strip() and not ln.startswith("#")]


def path_batch(chunk, st):
    for path, quoted, cfg in chunk:
        st.programs += 1
        st.states += 1
        st.outcome((valid(path, quoted, cfg), path.count("/"), quoted))
        bad = path_case(path, quoted, cfg)
        if bad:
            st.violations.append(core.Violation(
                {"kind": "layout", "what": bad, "key": "path %r quoted=%s %r"
                 % (path, quoted, cfg), "args": [path, quoted, cfg],
                 "part": "path"}))


def path_items(chk):
    n = 4 if chk.thorough else 3
    cfgs = [{}, {"split_init": True, "main_file": "A", "root_folder": "r",
                 "internal_folder": "tick"}]
    seen = set()
    for k in range(n + 1):
        for toks in itertools.product(TOKENS, repeat=k):
            p = "".join(toks)
            if p in seen:
                continue
            seen.add(p)
            yield (p, True, cfgs[0])
            if p:
                yield (p, False, cfgs[0])
            if k < n:
                c = dict(cfgs[1])
                c.pop("root_folder")
                yield (p, True, c)


# -- B: several interfaces ---------------------------------------------------

PATHS = ("a", "A", "a/b", "a/B", "b", "a.b", "tick", "acalib1",
         "main.x", "a.mcfunction/b")


def place(kind, i, path):
    """-> (lines at file level, files, does it run at definition?)"""
    body = ["interface %s:" % path, "    /say i%d" % i]
    if kind == "top":
        return body, {}
    if kind == "if":
        return ["if v%d == 5:" % i] + ["    " + ln for ln in body], {}
    if kind == "inline":
        return (["inline def f%d():" % i] + ["    " + ln for ln in body]
                + ["f%d()" % i]), {}
    if kind == "nested":
        return (["interface n%d:" % i, "    /say n%d" % i]
                + ["    " + ln for ln in body]), {}
    if kind == "module":
        return ["import m%d" % i], {"m%d.aca" % i: "\n".join(body) + "\n"}
    raise AssertionError


PLACES = ("top", "if", "inline", "nested", "module")


def multi(combo):
    files, lines, want, names = {}, [], {}, set()
    dup = None
    for i, (kind, _) in enumerate(combo):
        lines.append("v%d := %d" % (i, i))
    for i, (kind, path) in enumerate(combo):
        ls, fs = place(kind, i, path)
        lines += ls
        files.update(fs)
        if path.lower() in names and dup is None:
            dup = i
        names.add(path.lower())
        want[path] = ["say i%d" % i]
        if kind == "nested":
            want["n%d" % i] = ["say n%d" % i]
    files["main.aca"] = "\n".join(lines) + "\n"
    return files, want, dup


def clash(paths):
    return any(p != q and q.startswith(p + ".mcfunction/") for p in paths
               for q in paths)


def multi_case(combo, cfg):
    files, want, dup = multi(combo)
    out = core.compile_files(files, cfg=cfg)
    src = json.dumps(files, indent=1)
    bad = problem(out, src)
    if bad:
        return bad
    if dup is not None:
        if out.ok or out.etype != "DUPLICATE_INTERFACE" or not located(out):
            return "second definition of an interface: %s\n%s" % (
                out.error or "accepted", src)
        return None
    if clash(want):
        if out.ok:
            return "impossible files reported as written\n" + src
        return None
    if not out.ok:
        return "valid program refused: %s\n%s" % (out.error, src)
    root, main, init = cases.layout(cfg)
    got = {p: commands(t) for p, t in out.files.items()
           if not p.startswith(root + "_acacia/")}
    exp = {root + p: c for p, c in want.items()}
    for p in (main, init):
        if p:
            if p not in got:
                return "no file %s\n%s" % (p, src)
            exp[p] = got[p]
    if got != exp:
        return "interfaces are %r, expected %r\n%s" % (got, exp, src)
    if any(c.startswith("say") for c in got[main]):
        return "the body of an interface runs when it is defined\n%s" % src


def multi_batch(chunk, st):
    for combo, cfg in chunk:
        st.programs += 1
        st.states += 1
        st.outcome(repr(multi(combo)[1:]))
        bad = multi_case(combo, cfg)
        if bad:
            st.violations.append(core.Violation(
                {"kind": "layout", "what": bad, "key": "interfaces %r %r" % (
                    combo, cfg), "args": [combo, cfg], "part": "multi"}))


def multi_items(chk):
    one = [(k, p) for p in PATHS for k in PLACES]
    cfgs = [{}, {"root_folder": "r/s", "split_init": True},
            {"optimizer": False}]
    for cfg in cfgs:
        for a in one:
            yield ([a], cfg)
        for a in one:
            for b in one:
                if chk.thorough or cfg is cfgs[0] or a[1] == b[1]:
                    yield ([a, b], cfg)
    if chk.thorough:
        top = [("top", p) for p in PATHS] + [("module", p) for p in PATHS]
        for abc in itertools.product(top, repeat=3):
            yield (list(abc), cfgs[0])


# -- C: layout options -------------------------------------------------------

OPTS = {
    "root_folder": ("", "r", "ro/S"),
    "internal_folder": ("_acacia", "k"),
    "main_file": ("main", "start"),
    "split_init": (False, True),
    "init_file": ("init", "boot"),
    "optimizer": (True, False),
    "debug_comments": (False, True),
    "scoreboard": ("acacia", "sb"),
    "max_inline_file_size": (0, 20),
}
N = 'scb("n", "io")'
FEATURES = {
    "iface": ["interface i/one:", "    %s += g" % N],
    "func": ["def f(x: int) -> int:", "    if x > 2:", "        result x + g",
             "    else:", "        result x - g",
             "interface two:", "    %s = f(%s)" % (N, N)],
    "module": ["import lib", "interface three:", "    lib.bump()",
               "    %s = lib.cnt" % N],
    "loop": ["import schedule", "def t():", "    %s += 1" % N,
             "    g += 1", "schedule.register_loop(t)"],
    "task": ["import schedule", "def u():", "    %s += 10" % N,
             "const task = schedule.Task(u)", "interface arm:",
             "    task.after(1)"],
}
LIB = "cnt := 5\ndef bump():\n    cnt += 1\n    if cnt > 6:\n        cnt += 10\n"


def feature_sets(thorough):
    names = list(FEATURES)
    sizes = range(len(names) + 1) if thorough else (0, 1, 2, 5)
    for k in sizes:
        for c in itertools.combinations(names, k):
            yield c


def layout_program(feats):
    lines = ["g := 3", "%s = 0" % N]
    for f in feats:
        lines += [ln for ln in FEATURES[f]
                  if ln != "import schedule" or ln not in lines]
    return {"main.aca": "\n".join(lines) + "\n", "lib.aca": LIB}


def layout_case(feats, cfg, st=None):
    files = layout_program(feats)
    out = core.compile_files(files, cfg=cfg)
    src = "%r\n%s" % (cfg, files["main.aca"])
    bad = problem(out, src)
    if bad:
        return bad
    if not out.ok:
        return "refused: %s\n%s" % (out.error, src)
    root, main, init = cases.layout(cfg)
    inner = root + cfg.get("internal_folder", "_acacia") + "/"
    tick = inner + "tick"
    ticking = bool({"loop", "task"} & set(feats))
    want = {main}
    if init:
        want.add(init)
    if "iface" in feats:
        want.add(root + "i/one")
    if "func" in feats:
        want.add(root + "two")
    if "module" in feats:
        want.add(root + "three")
    if "task" in feats:
        want.add(root + "arm")
    got = {p for p in out.files if not p.startswith(inner)}
    if got != want:
        return "files %r, expected %r\n%s" % (sorted(got), sorted(want), src)
    if ticking != (tick in out.files):
        return "tick function %s\n%s" % (
            "missing" if ticking else "unexpected", src)
    if set(out.extra) != ({"tick.json"} if ticking else set()):
        return "other files %r\n%s" % (sorted(out.extra), src)
    if ticking and json.loads(out.extra["tick.json"]) != {"values": [tick]}:
        return "tick.json is %s\n%s" % (out.extra["tick.json"], src)
    refs = {}
    for p, t in out.files.items():
        refs[p] = set(re.findall(r"(?:^|run )function (\S+)", t, re.M))
        for r in refs[p]:
            if r not in out.files:
                return "%s calls %s, which does not exist\n%s" % (p, r, src)
    if cfg["optimizer"]:
        reach, todo = set(), [p for p in want] + [tick] * ticking
        while todo:
            p = todo.pop()
            if p not in reach:
                reach.add(p)
                todo += refs[p]
        if reach != set(out.files):
            return "unreachable functions %r\n%s" % (
                sorted(set(out.files) - reach), src)
    adds = {p for p, t in out.files.items()
            if re.search("^scoreboard objectives add", t, re.M)}
    if adds != {init or main}:
        return "initialisation is in %r\n%s" % (sorted(adds), src)
    sb = cfg["scoreboard"]
    for t in out.files.values():
        for o in re.findall(r"^scoreboard objectives add (\S+)", t, re.M):
            if not o.startswith(sb):
                return "scoreboard %s does not have the prefix\n%s" % (o, src)
    if not cfg["debug_comments"] and any(
            "debug" in ln.lower() or (ln.startswith("#") and p not in (
                main, init)) for p, t in out.files.items()
            for ln in t.split("\n")):
        return "comments without being asked for\n%s" % src
    # run it
    prog = mc.Program(out.files)
    if prog.malformed:
        return "malformed %r\n%s" % (prog.malformed[0], src)
    w = mc.World()
    w.budget = 20000
    w.add_objective("io")
    script = ([init] if init else []) + [main]
    ref = Ref(feats)
    events = []
    for what in ("main", "tick", "one", "two", "tick", "three", "arm", "three",
                 "tick", "tick", "tick", "one", "main", "three", "tick", "two",
                 "tick"):
        run = {"main": script, "tick": [tick] if ticking else [],
               "one": [root + "i/one"], "two": [root + "two"],
               "three": [root + "three"], "arm": [root + "arm"]}[what]
        if what == "main" and events:
            run = [main]
        for p in run:
            if p in out.files:
                prog.run(w, p)
        events.append(what)
        ref.do(what)
        if st is not None:
            st.transitions += 1
        n = w.scores["io"].get("n")
        if n != ref.n:
            return "after %s: n is %r, expected %r\n%s" % (
                " ".join(events), n, ref.n, src)
    for f in w.faults:
        if "missing" in f:
            return "%s\n%s" % (f, src)


class Ref:
    def __init__(self, feats):
        self.f = set(feats)

    def do(self, what):
        f = self.f
        if what == "main":
            self.g, self.n, self.timer = 3, 0, -1
            self.cnt = 5
        elif what == "tick":
            # the order of registration is the order of the program text
            if "loop" in f:
                self.n += 1
                self.g += 1
            if "task" in f:
                if self.timer == 0:
                    self.n += 10
                if self.timer >= 0:
                    self.timer -= 1
        elif what == "one" and "iface" in f:
            self.n += self.g
        elif what == "two" and "func" in f:
            self.n = self.n + self.g if self.n > 2 else self.n - self.g
        elif what == "three" and "module" in f:
            self.cnt += 1
            if self.cnt > 6:
                self.cnt += 10
            self.n = self.cnt
        elif what == "arm" and "task" in f:
            self.timer = 1


def layout_batch(chunk, st):
    for feats, cfg in chunk:
        st.programs += 1
        st.states += 1
        st.outcome((feats, tuple(sorted(cfg.items()))))
        bad = layout_case(feats, cfg, st)
        if bad:
            st.violations.append(core.Violation(
                {"kind": "layout", "what": bad, "key": "layout %r %r" % (
                    feats, cfg), "args": [feats, cfg], "part": "layout"}))


def layout_items(chk):
    for feats in feature_sets(chk.thorough):
        for vals in itertools.product(*OPTS.values()):
            cfg = dict(zip(OPTS, vals))
            if not cfg["split_init"] and cfg["init_file"] != "init":
                continue
            if not cfg["optimizer"] and cfg["max_inline_file_size"]:
                continue
            if not chk.thorough and len(feats) == 2 and sum(
                    v != OPTS[k][0] for k, v in cfg.items()) % 3:
                continue
            yield (feats, cfg)


def check(chk):
    chk.map(ME, "path_batch", path_items(chk), 100)
    chk.map(ME, "multi_batch", multi_items(chk), 50)
    chk.map(ME, "layout_batch", layout_items(chk), 20)
    chk.stats.sample({"program": layout_program(tuple(FEATURES))["main.aca"]})
    chk.bounds = {"tokens per path": 4 if chk.thorough else 3,
                  "path alphabet": TOKENS, "interfaces": 3 if chk.thorough
                  else 2, "places": PLACES, "options": OPTS,
                  "features": list(FEATURES)}
    chk.assumptions = [
        "main, init and internal names differ from each other (the command "
        "line checks each of them alone)",
        "the file system is case sensitive"]


def replay(v):
    a = v["args"]
    if v["part"] == "path":
        r = path_case(*a)
    elif v["part"] == "multi":
        r = multi_case([tuple(x) for x in a[0]], a[1])
    else:
        r = layout_case(tuple(a[0]), a[1])
    print(r or "no violation")
    return int(bool(r))
