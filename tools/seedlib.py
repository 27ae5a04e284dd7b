"""Author and try planted bugs.

make(id, prop, edits, demo, needs, breaks): edits = [(file, old, new)], demo =
source of demo.py (has compile_(files, cfg) -> {path: text} and mc).
try_(id, checks): confirm in a scratch copy and run checks against it.
"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/w/sc"

PRE = '''import os, sys, tempfile, shutil, subprocess
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.getcwd(), HERE]
sys.setrecursionlimit(6000)


def compile_(files, main="main.aca", **cfg):
    """-> {path: text} of the compiled project; raises on an error"""
    from acaciamc.compiler import Compiler, Config
    d = tempfile.mkdtemp()
    try:
        if isinstance(files, str):
            files = {main: files}
        for k, v in files.items():
            p = os.path.join(d, "src", k)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8") as f:
                f.write(v)
        cfg.setdefault("encoding", "utf-8")
        c = Compiler(os.path.join(d, "src", main), Config(**cfg))
        os.makedirs(os.path.join(d, "out"))
        c.output(os.path.join(d, "out"))
        res = {}
        for r, _, fs in os.walk(os.path.join(d, "out")):
            for x in fs:
                p = os.path.join(r, x)
                with open(p, encoding="utf-8") as f:
                    rel = os.path.relpath(p, os.path.join(d, "out"))
                    res[rel[:-11] if rel.endswith(".mcfunction") else rel] = f.read()
        return res
    finally:
        shutil.rmtree(d)


def world(files, main="main", objectives=("io",)):
    import mc
    p = mc.Program({k: v for k, v in files.items() if not k.endswith(".json")})
    w = mc.World()
    w.budget = 100000
    for o in objectives:
        w.add_objective(o)
    p.run(w, main)
    return p, w


'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **k)


def scratch():
    shutil.rmtree(SC, ignore_errors=True)
    os.makedirs(os.path.dirname(SC), exist_ok=True)
    shutil.copytree("/repo", SC)


def make(id, prop, edits, demo, needs, breaks, model=True):
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    scratch()
    for fn, old, new in edits:
        p = os.path.join(SC, fn)
        s = open(p, encoding="utf-8").read()
        if s.count(old) != 1:
            raise SystemExit("%s: %d matches in %s" % (id, s.count(old), fn))
        open(p, "w", encoding="utf-8").write(s.replace(old, new))
    diff = sh("git diff", cwd=SC).stdout
    open(os.path.join(d, "patch.diff"), "w", encoding="utf-8").write(diff)
    open(os.path.join(d, "demo.py"), "w", encoding="utf-8").write(PRE + demo)
    if model:
        shutil.copy(os.path.join(ROOT, "acamc", "mc.py"), d)
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\nexec /usr/bin/python3 -B -W ignore '
                '"$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(os.path.join(d, "meta.json"), "w"), indent=1)


def try_(id, checks=None, verbose=True):
    d = os.path.join(ROOT, "seeded", id)
    meta = json.load(open(os.path.join(d, "meta.json")))
    scratch()
    demo = "bash %s/demo.sh" % d
    r0 = sh(demo, cwd=SC, timeout=300)
    r = sh("git apply %s/patch.diff" % d, cwd=SC)
    if r.returncode:
        print(id, "PATCH DOES NOT APPLY", r.stdout)
        return False
    r1 = sh(demo, cwd=SC, timeout=300)
    os.makedirs("/tmp/w/vp", exist_ok=True)
    for f in os.listdir("/opt/vp"):
        p = os.path.join("/opt/vp", f)
        if os.path.isfile(p):
            s = open(p, errors="replace").read().replace(
                "/opt/vp", "/tmp/w/vp").replace("/repo", SC)
            open("/tmp/w/vp/" + f, "w").write(s)
    b = sh("bash /tmp/w/vp/build.sh")
    t = sh("bash /tmp/w/vp/test.sh /tmp/w/vp/r.json")
    res = json.load(open("/tmp/w/vp/r.json"))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    lost = [x for x in stable if x not in res["passed"]]
    ok = r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0 \
        and not lost
    print("%s %s: demo %d/%d build %d lost %s -> %s" % (
        id, meta["property"], r0.returncode, r1.returncode, b.returncode, lost,
        "VALID" if ok else "INVALID"))
    if r0.returncode:
        print(r0.stdout[-1500:])
    elif verbose and not ok:
        print(r1.stdout[-800:])
    for c in checks or [meta["property"]]:
        env = dict(os.environ, ACAMC_REPO=SC)
        r = sh("python3 -B %s/check.py %s --tier quick" % (ROOT, c), env=env)
        print("   check", c, "exit", r.returncode,
              "\n      ".join(r.stdout.splitlines()[:3])[:400])
    return ok


if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    for id in ids:
        try_(id)
