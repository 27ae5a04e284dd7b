"""Shared machinery: compile Acacia projects with the compiler in /repo's
working tree, execute the result on the Minecraft command model, collect
coverage numbers, write evidence, report violations and replay them.
"""
import atexit
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.util
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
REPO = os.environ.get("ACAMC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.setrecursionlimit(6000)

from . import mc  # noqa: E402

_scratch = None


def scratch():
    """A private scratch directory of this process."""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        d = tempfile.mkdtemp(prefix="acamc-", dir=base)
        _scratch = (os.getpid(), d)
        atexit.register(_cleanup, os.getpid(), d)
        multiprocessing.util.Finalize(None, _cleanup, (os.getpid(), d),
                                      exitpriority=10)
    return _scratch[1]


def _cleanup(pid, d):
    if os.getpid() == pid:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------------------
# Compiling

class Out:
    """What a compilation did."""
    __slots__ = ("files", "extra", "error", "etype", "loc", "crash", "errobj",
                 "outside")

    def __init__(self):
        self.files = {}     # path without .mcfunction -> text
        self.extra = {}     # other output files
        self.error = None   # message of a reported compile error
        self.etype = None   # its ErrorType name
        self.loc = None     # (file, (line, col))
        self.crash = None   # traceback of any other exception
        self.errobj = None
        self.outside = []   # files written outside the output directory

    @property
    def ok(self):
        return self.error is None and self.crash is None


_clean_n = 0
COMPILE_LIMIT = 60      # seconds; a compilation takes milliseconds


class _Timeout(BaseException):
    pass


def _alarm(sig, frame):
    raise _Timeout


def write_files(root, files):
    for rel, text in files.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(text, bytes):
            with open(p, "wb") as f:
                f.write(text)
        else:
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(text)


def compile_files(files, main="main.aca", cfg=None, keep=False, strict=True):
    """Compile a project given as {relative path: source}."""
    global _clean_n
    from acaciamc.compiler import Compiler, Config
    from acaciamc.error import Error
    _clean_n += 1
    root = os.path.join(scratch(), "p%d" % _clean_n)
    src = os.path.join(root, "src")
    # the output directory lies deep, so that a path that climbs out of it
    # still ends in the scratch directory
    out = os.path.join(root, "o1", "o2", "o3", "o4", "out")
    os.makedirs(src)
    res = Out()
    try:
        write_files(src, files)
        kw = {"encoding": "utf-8"}
        kw.update(cfg or {})
        if "mc_version" in kw:
            kw["mc_version"] = tuple(kw["mc_version"])
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(COMPILE_LIMIT)
        try:
            c = Compiler(os.path.join(src, main), Config(**kw))
            os.makedirs(out, exist_ok=True)
            c.output(out)
        except _Timeout:
            res.crash = "no end within %d s" % COMPILE_LIMIT
        except Error as err:
            res.errobj = err
            res.etype = err.type.name
            try:
                res.error = str(err).replace(src, "<src>")
            except Exception:
                res.crash = "while formatting %s: %s" % (
                    err.type.name, traceback.format_exc())
            loc = err.location
            f = loc.file
            if f is not None:
                f = os.path.relpath(os.path.realpath(f), os.path.realpath(src))
            res.loc = (f, loc.linecol)
        except RecursionError:
            res.crash = "RecursionError"
        except Exception:
            res.crash = "crash: " + "".join(
                traceback.format_exc().splitlines(True)[-5:])
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        if res.ok:
            for d, ds, fs in os.walk(root):
                if d == src:
                    del ds[:]
                    continue
                for f in fs:
                    p = os.path.join(d, f)
                    if not p.startswith(out + os.sep):
                        res.outside.append(os.path.relpath(p, out))
                        continue
                    rel = os.path.relpath(p, out)
                    with open(p, encoding=kw["encoding"], newline="") as fh:
                        text = fh.read()
                    if rel.endswith(".mcfunction"):
                        res.files[rel[:-11]] = text
                    else:
                        res.extra[rel] = text
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return res


# ---------------------------------------------------------------------------
# Statistics, violations

class Stats:
    """Coverage numbers of one worker's share; merged by addition."""

    def __init__(self):
        self.programs = 0       # programs compiled by the real compiler
        self.states = 0         # distinct (program, machine state) explored
        self.transitions = 0    # commands / events executed
        self.counts = {}
        self.outcomes = set()
        self.samples = []
        self.violations = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def outcome(self, o):
        if len(self.outcomes) < 20000:
            self.outcomes.add(hash(o) & 0xFFFFFFFFFFFF)

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def merge(self, o):
        self.programs += o.programs
        self.states += o.states
        self.transitions += o.transitions
        for k, v in o.counts.items():
            self.count(k, v)
        self.outcomes |= o.outcomes
        for s in o.samples:
            self.sample(s)
        self.violations.extend(o.violations)


class Violation(dict):
    """key: stable id of the failing input; replay: JSON-able case."""


NPROC = min(8, os.cpu_count() or 1)


def _worker(args):
    modname, func, chunk = args
    st = Stats()
    try:
        f = getattr(importlib.import_module(modname), func)
        f(chunk, st)
    except Exception:
        return ("error", traceback.format_exc())
    return ("ok", st)


def pmap(modname, func, chunks, stats, stop_after=40):
    """Run modname.func(chunk, Stats) on every chunk, in parallel."""
    chunks = list(chunks)
    if not chunks:
        return
    jobs = [(modname, func, c) for c in chunks]
    if len(jobs) == 1 or NPROC == 1:
        results = map(_worker, jobs)
        for kind, r in results:
            if kind == "error":
                raise RuntimeError(r)
            stats.merge(r)
        return
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(NPROC) as pool:
        for kind, r in pool.imap_unordered(_worker, jobs):
            if kind == "error":
                pool.terminate()
                raise RuntimeError(r)
            stats.merge(r)
            if len(stats.violations) >= stop_after:
                stats.count("stopped_early", 1)
                pool.terminate()
                break
        else:
            pool.close()
            pool.join()


def chunked(seq, n):
    buf = []
    for x in seq:
        buf.append(x)
        if len(buf) == n:
            yield buf
            buf = []
    if buf:
        yield buf


# ---------------------------------------------------------------------------
# Running one check

class Check:
    def __init__(self, id, tier):
        self.id = id
        self.tier = tier
        self.thorough = tier == "thorough"
        self.stats = Stats()
        self.exhaustive = True
        self.bounds = {}
        self.assumptions = []
        self.parts = {}

    def map(self, mod, func, items, size=100):
        t = time.time()
        before = (self.stats.programs, self.stats.states)
        pmap(mod, func, chunked(items, size), self.stats)
        self.parts["%s.%s" % (mod.split(".")[-1], func)] = {
            "programs": self.stats.programs - before[0],
            "states": self.stats.states - before[1],
            "wall_s": round(time.time() - t, 2)}


def known_findings():
    """[(property, key)] of the 'finding:' lines."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        with open(p, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding:"):
                    # finding: property=<id> key=<key> <text>
                    parts = line[len("finding:"):].split(None, 2)
                    prop = parts[0].split("=", 1)[1]
                    key = parts[1].split("=", 1)[1]
                    res.append((prop, key, parts[2] if len(parts) > 2 else ""))
    return res


def finish(chk, t0):
    """Write evidence, print the verdict, return the exit code."""
    st = chk.stats
    known = {(p, k): t for p, k, t in known_findings()}
    viol, seen = [], {}
    for v in st.violations:
        kk = (chk.id, v["key"])
        if kk in known:
            seen[kk] = known[kk]
        else:
            viol.append(v)
    for (p, k), t in sorted(seen.items()):
        print("KNOWN-FINDING: property=%s %s" % (p, t or k))
    viol.sort(key=lambda v: (len(json.dumps(v, default=str)), v["key"]))
    uniq, keys = [], set()
    for v in viol:
        if v["key"] not in keys:
            keys.add(v["key"])
            uniq.append(v)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for v in uniq[:5]:
        h = hashlib.sha1(json.dumps(v, sort_keys=True, default=str)
                         .encode()).hexdigest()[:10]
        path = "replays/%s-%s.json" % (chk.id, h)
        with open(os.path.join(VERIF, path), "w") as f:
            json.dump(v, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (chk.id, path))
        print("   " + v.get("what", v["key"])[:900].replace("\n", "\n   "))
    if len(uniq) > 5:
        print("   ... and %d more violating cases" % (len(uniq) - 5))
    ev = {
        "property": chk.id, "tier": chk.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": st.states,
            "transitions": st.transitions,
            "traces_validated_against_impl": st.programs,
            "distinct_outcomes": len(st.outcomes),
            "exhaustive": chk.exhaustive and not st.counts.get("stopped_early"),
            "bounds": chk.bounds,
            "counts": st.counts,
            "parts": chk.parts,
            "samples": st.samples or ["(none)"],
        },
        "assumptions": chk.assumptions,
        "violations": len(uniq),
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", chk.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: programs=%d states=%d transitions=%d outcomes=%d "
          "violations=%d %.1fs" % (
              chk.id, chk.tier, st.programs, st.states, st.transitions,
              len(st.outcomes), len(uniq), time.time() - t0))
    return 1 if uniq else 0
