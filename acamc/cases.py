"""Batches of small programs, one exported interface each.

A case is a dict:
  key     stable name of the case
  defs    module-level source (may be '')
  body    source lines of the interface body (list of str)
  inputs  list of {holder: int} written to the user scoreboard "io"
  expect  list (parallel to inputs) of {holder: int} or None (no claim)
  want    'ok' (default), 'error': must be rejected with a located error,
          or 'error:TYPE'
  world   entities present at the start: [[type, {name, pos, rot, tags...}]]
  fresh   True: every input starts from the same world instead of from the
          world the previous one left
  ctx     name of the entity the interface is run as / at (optional)
Keys of `expect` that start with '#' are observations of the whole world:
  #ents   sorted [type, name, [x, y, z], dimension] of all entities
  #log    the observable actions of the run, in order
  #tags:T sorted names of the entities that carry tag T
"""
import json

from . import core, mc

DEFAULT_CFG = None      # configuration used when a family passes none


def layout(cfg):
    """(root prefix, main path, init path or None) of a configuration."""
    cfg = cfg or {}
    root = cfg.get("root_folder", "")
    root = root + "/" if root else ""
    init = root + cfg.get("init_file", "init") if cfg.get("split_init") \
        else None
    return root, root + cfg.get("main_file", "main"), init


def source(cases, prelude=""):
    out = [prelude] if prelude else []
    for i, c in enumerate(cases):
        if c.get("defs"):
            out.append(c["defs"])
    for i, c in enumerate(cases):
        out.append("interface t/c%d:" % i)
        out.extend("    " + ln for ln in (c["body"] or ["pass"]))
    return "\n".join(out) + "\n"


def base_world(prog, cfg=None, objectives=("io",)):
    w = mc.World()
    w.budget = 20000
    for o in objectives:
        w.add_objective(o)
    root, main, init = layout(cfg)
    for path in (init, main):
        if path and path in prog.files:
            prog.run(w, path)
    return w


def populate(w, spec):
    names = {}
    for type_, k in spec:
        k = dict(k)
        for f in ("pos", "rot"):
            if f in k:
                k[f] = tuple(float(x) for x in k[f])
        scores = k.pop("scores", {})
        i = w.spawn(type_, **k)
        names[k.get("name")] = i
        for o, v in scores.items():
            w.scores.setdefault(o, {})[i] = v
    return names


OBSERVERS = {}      # further observations, by name


def observe(w, what):
    es = w.entities.values()
    if what == "#ents":
        return sorted(([e.type, e.name, [mc.rnd(x) for x in e.pos], e.dim]
                       for e in es), key=repr)
    if what == "#log":
        return json.loads(json.dumps(w.log))
    if what.startswith("#tags:"):
        return sorted(str(e.name) for e in es if what[6:] in e.tags)
    return OBSERVERS[what](w)


def run_case(prog, base, i, case, st, root=""):
    """-> None or a description of the mismatch."""
    def start():
        w = base.copy()
        ctx = None
        if case.get("world"):
            by_name = populate(w, case["world"])
            if case.get("ctx"):
                e = w.entities[by_name[case["ctx"]]]
                ctx = mc.Ctx(e.id, e.pos, e.rot, e.dim)
        return w, ctx, w.scores["io"]
    w, ctx, io = start()
    path = root + "t/c%d" % i
    if path not in prog.files:
        # an interface whose body produced no command has no file
        if any(e for e in case["expect"]):
            return ("no output file for the interface", None, None, None)
        return None
    for k, (inp, exp) in enumerate(zip(case["inputs"], case["expect"])):
        if k and case.get("fresh"):
            w, ctx, io = start()
        io.clear()
        io.update(inp)
        del w.log[:]
        st.states += 1
        if exp is None:
            continue
        try:
            prog.run(w, path, ctx)
        except mc.Runaway:
            return ("runaway execution", inp, exp, None)
        st.transitions += w.ncmds
        for f in w.faults:
            if "missing function" in f:
                return (f, inp, exp, None)
        got = {k: io.get(k) if k[0] != "#" else observe(w, k) for k in exp}
        st.outcome(repr(got))
        if got != exp:
            bad = [k for k in exp if exp[k] != got[k]]
            return ("wrong result", inp, {k: exp[k] for k in bad},
                    {k: got[k] for k in bad})
    return None


def check_output(prog):
    if prog.malformed:
        return "malformed command %r in %s:%d: %s" % (
            prog.malformed[0][2], prog.malformed[0][0], prog.malformed[0][1],
            prog.malformed[0][3])
    return None


def violation(case, cfg, prelude, what, out=None):
    d = {"key": case["key"], "what": what, "kind": "case", "cfg": cfg,
         "prelude": prelude,
         "case": {k: case[k] for k in case},
         "source": source([case], prelude)}
    if out is not None and out.files:
        d["output"] = out.files
    return core.Violation(d)


def run_single(case, st, prelude="", cfg=None):
    """Compile and run one case alone -> Violation or None."""
    if cfg is None:
        cfg = DEFAULT_CFG
    src = source([case], prelude)
    out = core.compile_files({"main.aca": src}, cfg=cfg)
    st.programs += 1
    want = case.get("want", "ok")
    if want.startswith("error"):
        if out.crash:
            return violation(case, cfg, prelude,
                             "compiler crashed instead of reporting an error\n"
                             + src + out.crash)
        if out.ok:
            return violation(case, cfg, prelude,
                             "accepted, but must be rejected\n" + src, out)
        if ":" in want and out.etype not in want.split(":")[1].split("|"):
            return violation(case, cfg, prelude,
                             "rejected with %s, expected %s\n%s"
                             % (out.etype, want, src))
        if out.loc[1] is None or out.loc[0] is None:
            return violation(case, cfg, prelude,
                             "error without location: %s\n%s"
                             % (out.error, src))
        return None
    if not out.ok:
        return violation(case, cfg, prelude, "valid program refused: %s\n%s" % (
            out.error or out.crash, src))
    prog = mc.Program(out.files)
    bad = check_output(prog)
    if bad:
        return violation(case, cfg, prelude, bad + "\n" + src, out)
    base = base_world(prog, cfg)
    r = run_case(prog, base, 0, case, st, layout(cfg)[0])
    if r:
        return violation(case, cfg, prelude,
                         "%s: input %r expected %r got %r\n%s" % (r + (src,)),
                         out)
    return None


def run_batch(cases, st, prelude="", cfg=None):
    """Compile the cases together; on any trouble fall back to one by one."""
    if cfg is None:
        cfg = DEFAULT_CFG
    good = [c for c in cases if c.get("want", "ok") == "ok"]
    for c in cases:
        if c.get("want", "ok") != "ok":
            v = run_single(c, st, prelude, cfg)
            st.states += 1
            st.outcome(c["want"])
            if v:
                st.violations.append(v)
    if not good:
        return
    src = source(good, prelude)
    out = core.compile_files({"main.aca": src}, cfg=cfg)
    trouble = not out.ok
    bad = None
    if not trouble:
        prog = mc.Program(out.files)
        trouble = bool(prog.malformed)
    if not trouble:
        st.programs += len(good)
        st.sample({"source": source(good[:1], prelude),
                   "inputs": good[0]["inputs"][:2],
                   "expect": good[0]["expect"][:2]})
        base = base_world(prog, cfg)
        root = layout(cfg)[0]
        for i, c in enumerate(good):
            r = run_case(prog, base, i, c, st, root)
            if r:
                v = run_single(c, st, prelude, cfg)
                if v is None:
                    v = violation(
                        c, cfg, prelude,
                        "only inside a larger program: %s: input %r expected"
                        " %r got %r\n%s" % (r + (source([c], prelude),)))
                    v["batch"] = [dict(x) for x in good]
                    v["index"] = i
                st.violations.append(v)
        return
    found = False
    for c in good:
        v = run_single(c, st, prelude, cfg)
        if v:
            found = True
            st.violations.append(v)
            if len(st.violations) > 30:
                return
    if not found:
        v = violation(good[0], cfg, prelude,
                      "only as one program: %s" % (
                          out.error or out.crash or check_output(prog)))
        v["batch"] = [dict(x) for x in good]
        v["index"] = 0
        v["key"] = "batch:" + good[0]["key"]
        st.violations.append(v)


def replay(v):
    """Re-run a saved case; -> exit code."""
    st = core.Stats()
    if v.get("batch"):
        src = source(v["batch"], v["prelude"])
        out = core.compile_files({"main.aca": src}, cfg=v["cfg"])
        if not out.ok:
            print(out.error or out.crash)
            return 1
        prog = mc.Program(out.files)
        base = base_world(prog, v["cfg"])
        r = run_case(prog, base, v["index"], v["batch"][v["index"]], st,
                     layout(v["cfg"])[0])
        print(r or "no violation")
        return 1 if r or prog.malformed else 0
    r = run_single(v["case"], st, v["prelude"], v["cfg"])
    if r:
        print(r["what"])
        for p, t in sorted(r.get("output", {}).items()):
            print("--- %s.mcfunction\n%s" % (p, t))
        return 1
    print("no violation")
    return 0
