"""Development aid: which small changes of the compiler do the checks miss?

  mutate.py gen SEED N [FILE...]   choose N mutants -> /tmp/w/mut/list.json
  mutate.py run [JOBS] [STRIDE]    run a fraction of every quick check on each
  mutate.py one K                  print mutant K
  mutate.py apply K DIR            write mutant K into a copy of the repository

Nothing in a registered check uses this."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time

D = "/tmp/w/mut"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<",
       ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in",
       ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*",
       ast.Mod: "*", ast.BitAnd: "|", ast.BitOr: "&"}


def mutants(path, src):
    """[(function, start, end, new text, what)]"""
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x.encode()) + 1)
    raw = src.encode()
    res = []

    def pos(n):
        return (off[n.lineno - 1] + n.col_offset,
                off[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        a, b = pos(n)
        return raw[a:b].decode()

    def add(fn, n, new, what):
        a, b = pos(n)
        res.append((fn, a, b, new, "%d: %s" % (n.lineno, what)))

    local = {}

    def names(fn):
        """parameters and locals of the function"""
        return local.get(fn, ())

    def statements(n, fn):
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if not isinstance(b, list):
                continue
            for x, y in zip(b, b[1:]):
                if isinstance(x, (ast.Expr, ast.Assign, ast.AugAssign)) and \
                        isinstance(y, (ast.Expr, ast.Assign, ast.AugAssign)):
                    sx, ex = pos(x)
                    sy, ey = pos(y)
                    res.append((fn, sx, ey, text(y) + raw[ex:sy].decode()
                                + text(x), "%d: swap statements %s" % (
                                    x.lineno, text(x)[:60])))

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + "." + n.name
        if isinstance(n, ast.FunctionDef):
            got = {a.arg for a in n.args.args}
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    got.add(x.id)
            local[fn] = got
        statements(n, fn)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr) and isinstance(n, ast.FunctionDef) \
                    and (c in n.decorator_list or c is n.returns):
                if c is n.returns:
                    continue
            if isinstance(c, ast.arg) and False:
                continue
            if isinstance(n, (ast.AnnAssign, ast.arg)) \
                    and c is getattr(n, "annotation", None):
                continue
            if isinstance(n, ast.If) and "TYPE_CHECKING" in text(n.test):
                continue
            walk(c, fn)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = CMP.get(type(n.ops[0]))
            if o:
                add(fn, n, "(%s %s %s)" % (text(n.left), o,
                                           text(n.comparators[0])),
                    "%s -> %s" % (text(n), o))
            if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                o2 = {ast.Lt: ">", ast.LtE: ">=", ast.Gt: "<",
                      ast.GtE: "<="}[type(n.ops[0])]
                add(fn, n, "(%s %s %s)" % (text(n.left), o2,
                                           text(n.comparators[0])),
                    "%s -> %s" % (text(n), o2))
        elif isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [text(v) for j, v in enumerate(n.values) if j != i]
                op = " and " if isinstance(n.op, ast.And) else " or "
                add(fn, n, "(" + op.join("(%s)" % r for r in rest) + ")",
                    "drop operand %d of %s" % (i, text(n)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(fn, n, "(%s)" % text(n.operand), "drop not " + text(n))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if not isinstance(n.left, ast.Constant) or not isinstance(
                    n.left.value, str):
                add(fn, n, "(%s %s %s)" % (text(n.left), BIN[type(n.op)],
                                           text(n.right)), text(n))
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add(fn, n, str(not n.value), text(n))
            elif type(n.value) is int:
                add(fn, n, str(n.value + 1), text(n) + " + 1")
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred)
                                            for a in n.args):
                a, b = n.args[0], n.args[1]
                s, e = pos(a)[0], pos(b)[1]
                mid = raw[pos(a)[1]:pos(b)[0]].decode()
                res.append((fn, s, e, text(b) + mid + text(a),
                            "%d: swap args %s" % (n.lineno, text(n)[:60])))
            if n.keywords and n.keywords[-1].arg:
                k = n.keywords[-1]
                prev = ([x for x in n.args] + [
                    x.value for x in n.keywords[:-1]] or [n.func])[-1]
                end = pos(prev)[1] + (1 if prev is n.func else 0)
                res.append((fn, end, pos(k.value)[1], "",
                            "%d: drop keyword of %s" % (
                                n.lineno, text(n)[:70])))
            for a in n.args:
                if isinstance(a, ast.Name):
                    for other in sorted(names(fn)):
                        if other != a.id and other != "self":
                            add(fn, a, other, "%s instead of %s in %s" % (
                                other, a.id, text(n)[:70]))
            if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" \
                    and not n.args:
                add(fn, n, text(n.func.value), "no copy " + text(n))
            if isinstance(n.func, ast.Name) and n.func.id in (
                    "reversed", "sorted", "list", "str", "abs"):
                if n.args:
                    add(fn, n, "(%s)" % text(n.args[0]), "unwrap " + text(n))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(fn, n, text(n.value), "no slice " + text(n))
        elif isinstance(n, ast.IfExp):
            add(fn, n, "(%s)" % text(n.body), "then of " + text(n)[:50])
            add(fn, n, "(%s)" % text(n.orelse), "else of " + text(n)[:50])
        elif isinstance(n, ast.If):
            add(fn, n.test, "(not (%s))" % text(n.test),
                "negate if " + text(n.test)[:60])
            add(fn, n.test, "True", "always if " + text(n.test)[:60])
            add(fn, n.test, "False", "never if " + text(n.test)[:60])
        elif isinstance(n, ast.Raise):
            add(fn, n, "pass", "no " + text(n)[:60])
        elif isinstance(n, ast.Continue):
            add(fn, n, "break", "continue -> break")
        elif isinstance(n, ast.Break):
            add(fn, n, "continue", "break -> continue")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(fn, n, "pass", "drop " + text(n)[:60])
        elif isinstance(n, ast.AugAssign):
            add(fn, n, "pass", "drop " + text(n)[:60])
        elif isinstance(n, ast.Assign) and isinstance(
                n.targets[0], (ast.Attribute, ast.Subscript)):
            add(fn, n, "pass", "drop " + text(n)[:60])
    walk(tree, "")
    return [r for r in res if r[0]]


def gen(seed, n, files):
    rnd = random.Random(seed)
    pool = {}
    for r, _, fs in os.walk("/repo/acaciamc"):
        for f in fs:
            p = os.path.relpath(os.path.join(r, f), "/repo")
            if not f.endswith(".py") or "/lang/" in p or f in (
                    "cli.py", "__main__.py", "localization.py", "ast.py"):
                continue
            if files and not any(x in p for x in files):
                continue
            src = open("/repo/" + p, encoding="utf-8").read()
            for fn, a, b, new, what in mutants(p, src):
                if fn.endswith(("__repr__", "__str__")) and False:
                    continue
                if not any(x in what for x in ("drop keyword", " instead of ", "swap statements")):
                    continue
                pool.setdefault((p, fn), []).append((p, fn, a, b, new, what))
    groups = sorted(pool)
    print(len(groups), "functions", sum(map(len, pool.values())), "mutants")
    out = []
    while len(out) < n and any(pool.values()):
        rnd.shuffle(groups)
        for g in groups:
            if pool[g] and len(out) < n:
                out.append(pool[g].pop(rnd.randrange(len(pool[g]))))
    json.dump(out, open(D + "/list.json", "w"))


def write(m, d):
    p, fn, a, b, new, what = m
    raw = open("/repo/" + p, "rb").read()
    with open(os.path.join(d, p), "wb") as f:
        f.write(raw[:a] + new.encode() + raw[b:])


RUN = r'''
import sys, os, time, json
sys.path.insert(0, %(root)r)
os.environ["ACAMC_REPO"] = %(repo)r
from acamc import core, registry
core.NPROC = 1
import importlib, random
stride = %(stride)d
class Chk(core.Check):
    def map(self, mod, func, items, size=100):
        items = list(items)
        if len(items) > 8:
            stride = %(stride)d * (4 if self.id in ('C18', 'C29', 'C21', 'C28') else 1)
            off = random.Random(func).randrange(stride)
            items = items[off %% len(items)::stride] or items[:1]
        core.pmap(mod, func, core.chunked(items, min(size, 10)), self.stats)
        if self.stats.violations:
            raise StopIteration
for id in %(order)r:
    t = time.time()
    chk = Chk(id, "quick")
    try:
        m = importlib.import_module("acamc.checks." + registry.CHECKS[id])
        getattr(m, "check_" + id, None or getattr(m, "check", None))(chk)
    except StopIteration:
        pass
    except BaseException as e:
        print("EXC", id, "exception", repr(e)[:200]); sys.exit(0)
    if chk.stats.violations:
        print("KILL", id, chk.stats.violations[0].get("what", "")[:200].replace("\n", " | ")); sys.exit(0)
print("SURVIVED")
'''


def run(jobs, stride):
    sys.path.insert(0, ROOT)
    from acamc import registry
    ms = json.load(open(D + "/list.json"))
    resf = D + "/res.json"
    res = json.load(open(resf)) if os.path.exists(resf) else {}
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    slots = []
    for j in range(jobs):
        d = D + "/r%d" % j
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo", d)
        vp = D + "/vp%d" % j
        os.makedirs(vp, exist_ok=True)
        for f in os.listdir("/opt/vp"):
            p = "/opt/vp/" + f
            if os.path.isfile(p):
                s = open(p, errors="replace").read().replace(
                    "/opt/vp", vp).replace("/repo", d)
                open(vp + "/" + f, "w").write(s)
        slots.append(None)
    todo = [k for k in range(len(ms)) if str(k) not in res]
    wins = {}
    ids = [i for i in registry.CHECKS if i not in ("C22", "C23")]

    def order(p):
        def score(i):
            return (-wins.get((p, i), 0) * 5 - wins.get(i, 0), ids.index(i))
        return sorted(ids, key=score)
    from concurrent.futures import ThreadPoolExecutor, as_completed
    import queue
    q = queue.Queue()
    for j in range(jobs):
        q.put(j)

    def work(k):
        j = q.get()
        m = ms[k]
        d = D + "/r%d" % j
        try:
            write(m, d)
            try:
                t = time.time()
                subprocess.run(["bash", D + "/vp%d/test.sh" % j,
                                D + "/t%d.json" % j], timeout=60,
                               stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL)
                passed = json.load(open(D + "/t%d.json" % j))["passed"]
                os.remove(D + "/t%d.json" % j)
                if any(x not in passed for x in stable):
                    return k, ["TESTS"]
            except Exception:
                return k, ["TESTS"]
            code = RUN % {"root": ROOT, "repo": d, "stride": stride,
                          "order": order(m[0])}
            try:
                r = subprocess.run(
                    ["/usr/bin/python3", "-B", "-W", "ignore", "-c", code],
                    timeout=900, stdout=subprocess.PIPE,
                    stderr=subprocess.STDOUT, text=True)
            except subprocess.TimeoutExpired:
                return k, ["TIMEOUT"]
            last = (r.stdout.strip().splitlines() or ["?"])[-1]
            return k, last.split(" ", 2) + [round(time.time() - t)]
        finally:
            shutil.copy("/repo/" + m[0], d + "/" + m[0])
            q.put(j)
    with ThreadPoolExecutor(jobs) as ex:
        for f in as_completed([ex.submit(work, k) for k in todo]):
            k, r = f.result()
            res[str(k)] = r
            if len(res) % 20 == 0:
                print(len(res), flush=True)
            if r[0] == "KILL":
                wins[r[1]] = wins.get(r[1], 0) + 1
                wins[ms[k][0], r[1]] = wins.get((ms[k][0], r[1]), 0) + 1
            json.dump(res, open(resf, "w"))
    report()


def report():
    ms = json.load(open(D + "/list.json"))
    res = json.load(open(D + "/res.json"))
    c = {}
    for k, r in res.items():
        c[r[0]] = c.get(r[0], 0) + 1
    print(c)
    for k, r in sorted(res.items(), key=lambda x: (ms[int(x[0])][:3])):
        if r[0] not in ("KILL", "TESTS"):
            m = ms[int(k)]
            print(k, r[0][:9], m[0][9:], m[1], m[5][:110].replace("\n", " "))


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "gen":
        gen(int(a[1]), int(a[2]), a[3:])
    elif a[0] == "run":
        run(int(a[1]) if len(a) > 1 else 8, int(a[2]) if len(a) > 2 else 40)
    elif a[0] == "report":
        report()
    elif a[0] == "one":
        print(json.load(open(D + "/list.json"))[int(a[1])])
    elif a[0] == "apply":
        write(json.load(open(D + "/list.json"))[int(a[1])], a[2])
