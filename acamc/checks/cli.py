"""C22: what the command line does to the file system.

A state is the tree of files of a scratch directory; an operation is one run
of the command line (program, output place, options, a fault).  All histories
up to a depth are run in order, every one of them in a process that blocks and
records each change outside of the scratch directory.  The tree after every
operation is compared with the tree a small model of the documented behaviour
predicts."""
import contextlib
import errno
import io
import itertools
import json
import os
import re
import resource
import shutil
import signal
import sys
import traceback

from .. import core

ME = __name__

SOURCES = {
    "src/p1.aca": "x := 1\ninterface a:\n    /say one\n/say main\n",
    "src/p2.aca": "import mod\ninterface b/c:\n    /say two\n    mod.f()\n",
    "src/mod.aca": "def f():\n    /say mod\n/say imported\n",
    "src/pt.aca": "import schedule\ndef f():\n    /say loop\n"
                  "schedule.register_loop(f, 5)\n",
    "src/empty.aca": "",
    "src/uni.aca": "/say \u00e9\n",
    "src/uni2.aca": "/say \u4e2d\u00e9\ninterface z:\n    /say \u4e2d\n",
    "src/esc.aca": "/say ${\"\\u4e2d\"}\n",
    "src/syntax.aca": "x := (\n",
    "src/meaning.aca": "/say 1\nx := y\n",
    "src/noimport.aca": "import nothing\n",
    "src/inmod.aca": "/say 1\nimport wrong\n",
    "src/wrong.aca": "\n\nx := 1 + None\n",
    "src/endless.aca": "inline def f():\n    f()\nf()\n",
    "src/bytes.aca": b"/say \xff\xfe\n",
    "src/noext": "/say noext\n",
    "src/two.dots.aca": "/say dots\n",
    "src/keep.txt": "k\n",
    "src/main.mcfunction": "mine\n",
    "other/keep.txt": "o\n",
    "other/main.mcfunction": "theirs\n",
    "file": "f\n",
}
OLD = {     # trees that are there before
    "none": {},
    "dir": {"out/.x": ""},
    "old": {"out/main.mcfunction": "old\n", "out/a.mcfunction": "old a\n",
            "out/_acacia/acalib1.mcfunction": "old lib\n",
            "out/_acacia/deep/er.mcfunction": "deep\n",
            "out/tick.json": "{}", "out/r/main.mcfunction": "old r\n",
            "out/r/x/y.mcfunction": "old y\n", "out/r2/z.mcfunction": "z\n",
            "src/p1.acaout/main.mcfunction": "old def\n",
            "src/p1.acaout/own.mcfunction": "own\n"},
}
GOOD = ["p1", "p2", "pt", "empty", "uni", "noext", "two.dots"]
BAD = ["syntax", "meaning", "noimport", "inmod", "endless", "bytes",
       "missing", "dir"]


def path_of(prog):
    return "src" if prog == "dir" else "src/" + prog + (
        "" if prog == "noext" else ".aca")


# output places: (arguments, real path relative to the scratch, kind)
OUTS = {
    "default": ([], None, "ok"),
    "out": (["-o", "out"], "out", "ok"),
    "slash": (["-o", "out/"], "out", "ok"),
    "dots": (["-o", "src/../out"], "out", "ok"),
    "absolute": (["--out", "{S}/out"], "out", "ok"),
    "link": (["-o", "link"], "out", "ok"),
    "new": (["-o", "new"], "new", "ok"),
    "nested": (["-o", "other/sub"], "other/sub", "ok"),
    "no parent": (["-o", "no/such/dir"], None, "fail"),
    "a file": (["-o", "file"], None, "fail"),
    "under a file": (["-o", "file/x"], None, "fail"),
}
# options: (arguments, configuration)
OPTS = {
    "": ([], {}),
    "r": (["-f", "Rx"], {"root_folder": "Rx"}),
    "r/x": (["-f", "r/x"], {"root_folder": "r/x"}),
    "/r//x/": (["--function-folder", "/r//x/"], {"root_folder": "r/x"}),
    "/": (["-f", "/"], {"root_folder": ""}),
    "m": (["-m", "Start"], {"main_file": "Start"}),
    "init": (["-i"], {"split_init": True}),
    "init name": (["--init-file", "begin"],
                  {"split_init": True, "init_file": "begin"}),
    "init =": (["--init-file=begin", "--main-file=go"],
               {"split_init": True, "init_file": "begin", "main_file": "go"}),
    "internal": (["--internal-folder", "In_1"], {"internal_folder": "In_1"}),
    "score": (["-s", "sC_1"], {"scoreboard": "sC_1"}),
    "tag": (["-t", "Tg_A"], {"entity_tag": "Tg_A"}),
    "debug": (["-d"], {"debug_comments": True}),
    "O": (["-O"], {"optimizer": False}),
    "edu": (["-e"], {"education_edition": True}),
    "version": (["-v", "1.20.50"], {"mc_version": (1, 20, 50)}),
    "version 2": (["--mc-version", "1.19.50"], {"mc_version": (1, 19, 50)}),
    "version 3": (["-v", "1.20"], {"mc_version": (1, 20)}),
    "inline 0": (["--max-inline-file-size", "0"],
                 {"max_inline_file_size": 0}),
    "inline 99": (["--max-inline-file-size=99"],
                  {"max_inline_file_size": 99}),
    "verbose": (["--verbose"], {}),
    "all": (["-f", "r", "-m", "mm", "-i", "ii", "-s", "ss", "-t", "tt", "-O",
             "-d", "-e", "-v", "1.21.0", "--internal-folder", "nn"],
            {"root_folder": "r", "main_file": "mm", "split_init": True,
             "init_file": "ii", "scoreboard": "ss", "entity_tag": "tt",
             "optimizer": False, "debug_comments": True,
             "education_edition": True, "mc_version": (1, 21, 0),
             "internal_folder": "nn"}),
}
NAMES = ["1a", "a b", "a-b", "a/b", "..", ".", "a.b", "\\", "a\n", "#", "-x"]
INVALID = [[o + n] for o in ("-s", "-m", "--init-file=",
                             "--internal-folder=") for n in NAMES
           if not (o[1] != "-" and n[0] in "-")] + \
    [["-f" + n] for n in ("1a", "a/1", "..", "r/../..", "/..", "./r", "r/.",
                          "~", "a b", "r\\x", "r/..", "...")] + \
    [["-v", v] for v in ("1", "1.19.49", "1.19", "0.9.9", "a.b", "1.-2", "",
                         "1..2", "1.20.", "1.2", "-1.20", "1,20")
     if v not in ("", "-1.20")] + \
    [["--max-inline-file-size=" + v] for v in ("-1", "x", "1.5", "")] + \
    [["--nothing"], ["-q"], ["-o"], ["extra"], ["-i", "main"],
     ["-i", "MAIN"], ["-m", "init", "-i"], ["-m", "go", "-i", "Go"]]
ENC = {     # encoding: can it write each program?
    "utf-8": {"uni": True, "uni2": True, "esc": True},
    "utf-16": {"uni": True, "uni2": True, "esc": True},
    "latin-1": {"uni": True, "esc": False},
    "ascii": {"uni": False, "uni2": False, "esc": False, "p1": True},
    "gbk": {"uni": True, "uni2": True, "esc": True},
    "gb18030": {"uni": True, "uni2": True, "esc": True},
    "nope": {"p1": False, "esc": False},
}


# -- running ---------------------------------------------------------------------

class Escape(Exception):
    pass


WRITES = {"os.remove": 1, "os.rmdir": 1, "os.mkdir": 2, "os.chmod": 2,
          "os.chown": 3, "os.truncate": None, "os.utime": None,
          "os.setxattr": None, "os.removexattr": None}
TWO = {"os.rename": (2, 3), "os.link": (2, 3), "os.symlink": (None, 2)}
NEVER = {"os.system", "os.exec", "os.posix_spawn", "subprocess.Popen",
         "os.fork", "os.forkpty", "os.kill", "os.killpg", "socket.connect",
         "ctypes.dlopen", "pty.spawn"}
FAULTY = ("open", "os.mkdir", "os.remove", "os.rmdir", "os.listdir",
          "os.scandir", "os.rename")


class Guard:
    """An audit hook: changes outside of `root` are blocked and recorded;
    the `fault`-th operation inside of it fails."""

    def __init__(self, root, fault):
        self.root = os.path.realpath(root)
        self.fault, self.n = fault, 0
        self.escapes, self.events = [], []
        self.on = True

    def where(self, path, fd=None):
        if isinstance(path, int):
            return None
        path = os.fsdecode(path)
        if fd is not None and isinstance(fd, int) and fd >= 0:
            path = os.path.join(os.readlink("/proc/self/fd/%d" % fd), path)
        d, b = os.path.split(os.path.abspath(path))
        return os.path.join(os.path.realpath(d), b)

    def inside(self, p):
        return p == self.root or p.startswith(self.root + os.sep)

    def block(self, event, p):
        self.escapes.append("%s %s" % (event, p))
        raise Escape("%s %s" % (event, p))

    def __call__(self, event, args):
        if not self.on:
            return
        if event in NEVER:
            self.block(event, args)
        ps, write = [], True
        if event == "open":
            path, mode, flags = args
            if isinstance(path, int):
                return
            write = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT
                                  | os.O_TRUNC | os.O_APPEND))
            p = self.where(path)
            ps = [os.path.realpath(p)]
            if ps[0] == "/dev/null":
                return
        elif event in WRITES:
            i = WRITES[event]
            ps = [self.where(args[0], args[i] if i and len(args) > i
                             else None)]
        elif event in TWO:
            for k, i in enumerate(TWO[event]):
                ps.append(self.where(args[k], args[i] if i else None)
                          if i or k else None)
        elif event == "shutil.rmtree":
            ps = [self.where(args[0], args[1] if len(args) > 1 else None)]
        elif event in ("os.listdir", "os.scandir"):
            write = False
            if isinstance(args[0], int):
                ps = [os.readlink("/proc/self/fd/%d" % args[0])]
            else:
                ps = [self.where(args[0] or ".")]
        else:
            return
        for p in ps:
            if p is None:
                continue
            if write and not self.inside(p):
                self.block(event, p)
            if event in FAULTY and self.inside(p):
                self.n += 1
                self.events.append("%s%s %s" % (
                    event, " w" if write else "", p))
                if self.n == self.fault:
                    raise OSError(errno.EIO, "injected fault", p)


def tree(root):
    res = {}
    for d, ds, fs in os.walk(root):
        rel = os.path.relpath(d, root)
        for f in fs:
            p = os.path.join(d, f)
            if os.path.islink(p):
                res[os.path.normpath(os.path.join(rel, f))] = \
                    b"-> " + os.fsencode(os.readlink(p))
                continue
            with open(p, "rb") as h:
                res[os.path.normpath(os.path.join(rel, f))] = h.read()
        for x in ds:
            if os.path.islink(os.path.join(d, x)):
                res[os.path.normpath(os.path.join(rel, x))] = \
                    b"-> " + os.fsencode(os.readlink(os.path.join(d, x)))
    return res


def in_child(root, argv, fault, limit):
    """Run the command line in a process of its own."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid:
        os.close(wr)
        with os.fdopen(rd, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if not data:
            return {"exit": "died with status %d" % status, "stdout": "",
                    "stderr": "", "escapes": [], "events": []}
        return json.loads(data)
    try:
        os.close(rd)
        signal.alarm(60)
        os.chdir(root)
        from acaciamc import cli
        sys.setrecursionlimit(1000)
        out, err = io.StringIO(), io.StringIO()
        guard = Guard(root, fault)
        sys.addaudithook(guard)
        if limit is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        code = 0
        sys.argv = ["acacia"] + argv
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                cli.main()
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else \
                    0 if e.code is None else 1
            except BaseException as e:
                code = "%s: %s" % (type(e).__name__, e)
        guard.on = False
        resource.setrlimit(resource.RLIMIT_FSIZE, (
            resource.getrlimit(resource.RLIMIT_FSIZE)[1],) * 2)
        data = json.dumps({
            "exit": code, "stdout": out.getvalue(), "stderr": err.getvalue(),
            "escapes": guard.escapes, "events": guard.events}).encode()
        while data:
            data = data[os.write(wr, data):]
    except BrokenPipeError:       # the check has ended already
        pass
    except BaseException:
        traceback.print_exc()
    finally:
        os._exit(0)


_want = {}


def expected(prog, cfg, encoding=None):
    """Files of a compilation in a fresh directory through the library."""
    key = (prog, tuple(sorted(cfg.items())), encoding)
    if key not in _want:
        kw = dict(cfg)
        if encoding:
            kw["encoding"] = encoding
        files = {}
        for k, v in SOURCES.items():
            if k.startswith("src/") and (k.endswith(".aca") or k ==
                                         "src/noext"):
                if encoding and isinstance(v, str):
                    try:
                        v = v.encode(encoding)
                    except UnicodeError:
                        continue
                files[k[4:]] = v
        # not `compile_files`: the bytes are wanted
        _want[key] = raw_compile(files, os.path.basename(path_of(prog)), kw)
    return _want[key]


def raw_compile(files, main, kw):
    from acaciamc.compiler import Compiler, Config
    d = os.path.join(core.scratch(), "want")
    shutil.rmtree(d, ignore_errors=True)
    core.write_files(os.path.join(d, "src"), files)
    os.makedirs(os.path.join(d, "out"))
    kw = dict({"encoding": "utf-8"}, **kw)
    Compiler(os.path.join(d, "src", main), Config(**kw)).output(
        os.path.join(d, "out"))
    res = tree(os.path.join(d, "out"))
    src = os.fsencode(os.path.realpath(os.path.join(d, "src")))
    res = {k: v.replace(src, b"<SRC>") for k, v in res.items()}
    shutil.rmtree(d)
    return res


def default_out(prog):
    return os.path.splitext(path_of(prog))[0] + ".acaout"


def setup(root, old, encoding=None):
    shutil.rmtree(root, ignore_errors=True)
    src = dict(SOURCES, **OLD[old])
    if encoding:
        for k in ("uni", "uni2", "p1", "esc"):
            k = "src/%s.aca" % k
            try:
                src[k] = src[k].encode(encoding)
            except (UnicodeError, LookupError):
                pass
    core.write_files(root, src)
    if old != "none":
        os.symlink("out", os.path.join(root, "link"))
    if old == "dir":
        os.remove(os.path.join(root, "out/.x"))


def argv_of(op, root):
    """op: {prog, out, opt, u, extra}"""
    a = [x.replace("{S}", root) for x in OUTS[op.get("out", "out")][0]]
    a += OPTS[op.get("opt", "")][0] + (["-u"] if op.get("u") else [])
    a += op.get("extra", [])
    return a + [path_of(op["prog"])] if op.get("last") else \
        [path_of(op["prog"])] + a


def step(root, before, op):
    """Run op; -> (description of a mismatch or None, tree after, result)"""
    root = os.path.realpath(root)
    argv = argv_of(op, root)
    res = in_child(root, argv, op.get("fault"), op.get("limit"))
    after = tree(root)
    say = "acacia %s: exit %s, %s" % (" ".join(argv), res["exit"],
                                      res["stderr"][-300:])
    if res["escapes"]:
        return "changes outside: %s (%s)" % (res["escapes"], say), after, res
    if not isinstance(res["exit"], int):
        return "an unhandled error: " + say, after, res
    _, place, kind = OUTS[op.get("out", "out")]
    if place is None and kind == "ok":
        place = default_out(op["prog"])
    enc = op.get("encoding")
    want_fail = kind == "fail" or op.get("invalid") or op["prog"] in BAD
    if enc:
        want_fail = not ENC[enc][op["prog"]]
    broken = op.get("fault") is not None or op.get("limit") is not None
    # whatever happens, only the output directory may differ
    for k in sorted(set(before) | set(after)):
        if place and (k == place or k.startswith(place + "/")):
            continue
        if before.get(k) != after.get(k):
            return "%s, which is not in the output directory, is %s (%s)" % (
                k, "removed" if k not in after else "new" if k not in before
                else "changed", say), after, res
    if res["exit"] != 0:
        if "error" not in res["stderr"].lower():
            return "it fails without a message: " + say, after, res
        if "Traceback" in res["stderr"] and "verbose" != op.get("opt"):
            return "a traceback: " + say, after, res
        if not want_fail and not broken:
            return "it fails: " + say, after, res
        if "unexpected" in res["stderr"].lower():
            return "the failure is not handled: " + say, after, res
        if op["prog"] in ("meaning", "inmod", "syntax", "endless") and \
                kind == "ok" and not op.get("invalid"):
            f = "wrong" if op["prog"] == "inmod" else op["prog"]
            line = {"syntax": 2, "endless": 2, "wrong": 3}.get(f, 2)
            if not re.search(r"%s\.aca:%d:\d+" % (f, line), res["stderr"]) \
                    and not broken and f != "syntax":
                return "the message does not tell the place: " + say, \
                    after, res
        if not broken and not enc:
            # the old output stays when the compilation does not succeed
            for k in sorted(set(before) | set(after)):
                if before.get(k) != after.get(k):
                    return "%s is changed by a compilation that failed (%s)" \
                        % (k, say), after, res
        return None, after, res
    if want_fail:
        return "it succeeds: " + say, after, res
    cfg = OPTS[op.get("opt", "")][1]
    new = expected(op["prog"], cfg, enc)
    want = dict(before)
    if op.get("u"):
        base = place + "/" + cfg.get("root_folder", "")
        base = base.rstrip("/") + "/"
        want = {k: v for k, v in want.items() if not k.startswith(base)}
    for k, v in new.items():
        want[place + "/" + k] = v.replace(b"<SRC>", os.fsencode(
            os.path.join(root, "src")))
    if after != want:
        for k in sorted(set(want) | set(after)):
            if want.get(k) != after.get(k):
                return "%s is %s (%s)" % (
                    k, "missing" if k not in after else "left" if k not in
                    want else "%r, not %r" % (after[k][:200], want[k][:200]),
                    say), after, res
    return None, after, res


def run(item, st=None):
    old, ops = item
    root = os.path.join(core.scratch(), "cli")
    enc = next((o.get("encoding") for o in ops if o.get("encoding")), None)
    setup(root, old, enc)
    before = tree(root)
    for op in ops:
        ops_ = [op]
        if op.get("fault") == "all":
            # every operation of the run fails once
            n = 1
            while True:
                setup(root, old, enc)
                bad, after, res = step(root, before, dict(op, fault=n))
                if bad:
                    return "%s\n(operation %d failed: %s)" % (
                        bad, n, res["events"][-1:])
                reached = len(res["events"]) >= n
                if st:
                    st.transitions += 1
                    st.states += 1
                if not reached:
                    break
                n += 1
            continue
        for o in ops_:
            bad, after, res = step(root, before, o)
            if st:
                st.transitions += 1
                st.states += 1
                st.outcome(repr((res["exit"], sorted(after))))
            if o.get("limit") is not None and not bad and res["exit"] == 0:
                big = [k for k, v in expected(o["prog"], OPTS[o.get(
                    "opt", "")][1]).items() if len(v) > o["limit"]]
                if big:
                    return "it succeeds although %s could not be written" % \
                        big[0]
            if bad:
                return bad
            before = after
    return None


def batch(chunk, st):
    # what children need is imported here once
    from acaciamc import cli  # noqa: F401
    for item in chunk:
        st.programs += 1
        try:
            bad = run(item, st)
        except Exception:
            bad = "while checking: " + traceback.format_exc()[-600:]
        if bad:
            st.violations.append(core.Violation(
                {"kind": "cli", "key": json.dumps(item, sort_keys=True),
                 "what": bad, "item": item}))


def items(chk):
    T = chk.thorough
    # one run: everything with everything
    for old in OLD:
        for prog in GOOD + BAD:
            for out in OUTS:
                if out == "link" and old == "none":
                    continue        # a dangling link
                for opt in ("", "r", "r/x", "/r//x/", "/"):
                    for u in (False, True):
                        if not T and (opt in ("/r//x/", "/")) and \
                                prog not in ("p1", "pt"):
                            continue
                        yield old, [{"prog": prog, "out": out, "opt": opt,
                                     "u": u}]
    for opt in OPTS:
        for prog in GOOD + (BAD if T else ["meaning"]):
            for u in (False, True):
                for last in (False, True):
                    if last and opt == "init":
                        continue    # -i would take the file as its name
                    yield "old", [{"prog": prog, "opt": opt, "u": u,
                                   "last": last}]
    for extra in INVALID:
        for old in OLD if T else ("none", "old"):
            for u in (False, True):
                yield old, [{"prog": "p1", "extra": extra, "u": u,
                             "invalid": True}]
    for enc in ENC:
        for prog in ENC[enc]:
            for u in (False, True):
                yield "old", [{"prog": prog, "u": u, "encoding": enc,
                               "extra": ["--encoding", enc]}]
    # histories
    ops = [{"prog": p, "out": o, "opt": f, "u": u}
           for p in ("p1", "p2", "pt", "meaning")
           for o in ("default", "out") for f in ("", "r")
           for u in (False, True)]
    if T:
        ops += [{"prog": p, "out": "out", "opt": f, "u": u}
                for p in ("p1", "pt") for f in ("r/x", "m", "init",
                                                "internal")
                for u in (False, True)]
    for old in ("none", "old"):
        for a, b in itertools.product(ops, repeat=2):
            yield old, [a, b]
    small = [o for o in ops if o["out"] == "out" and (
        T or o["opt"] == "" or o["u"])]
    for a, b, c in itertools.product(small, repeat=3):
        if T or (a["prog"], b["prog"], c["prog"]) in (
                ("p1", "p2", "pt"), ("pt", "p1", "p1"), ("p2", "meaning",
                                                         "p1"),
                ("p1", "pt", "meaning"), ("pt", "pt", "p2")):
            yield "none", [a, b, c]
    # faults: each operation on the file system fails
    for old in ("none", "old"):
        for prog in ("p1", "p2", "pt", "meaning"):
            for out in ("out", "default", "new"):
                for opt in ("", "r", "init") if T else ("", "r"):
                    for u in (False, True):
                        yield old, [{"prog": prog, "out": out, "opt": opt,
                                     "u": u, "fault": "all"}]
    # the disk is full after some bytes of a file
    for prog in ("p1", "p2", "pt"):
        size = max(map(len, expected(prog, {}).values()))
        for limit in range(0, size + 2, 1 if T else 7):
            for u in (False, True):
                yield "old", [{"prog": prog, "u": u, "limit": limit}]


def check(chk):
    chk.map(ME, "batch", items(chk), 25)
    chk.bounds = {"runs in a row": 3, "programs": len(GOOD) + len(BAD),
                  "output places": len(OUTS), "options": len(OPTS),
                  "invalid options": len(INVALID), "encodings": len(ENC),
                  "faults": "every operation on the file system, and a full "
                  "disk after %s byte" % ("each" if chk.thorough else
                                          "each 7th")}


def replay(v):
    bad = run(v["item"])
    print(bad or "no violation")
    return int(bool(bad))
