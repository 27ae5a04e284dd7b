"""All ways to write a call: how many positional arguments, which keywords, in
which order, whether one comes twice, is unknown or is missing - against
signatures with every number of arguments and defaults.  Shared by the checks
of run-time functions (C05), inline functions (C06) and constant functions
(C07)."""
import itertools

from . import cases

NAMES = ["a", "b", "c"]
MK = "        new(\"pig\", Pos(0.0, 1.0, 0.0))\n"


def port(i, n, d, q="", typ=": int"):
    return q + NAMES[i] + typ + (
        "=%d" % (7 + i) if i >= n - d else "")


def ports(n, d, q="", me=False):
    return ", ".join(port(i, n, d, q) for i in range(n))


def value(n):
    return " + ".join("%s * %d" % (NAMES[i], 10 ** i) for i in range(n)) \
        or "5"


# kind: (definitions, lines before the call, call).  § is unique; %p the
# ports, %c the constant ports, %v the value, $ the arguments.
KINDS = {
    "def": ("def f§(%p) -> int:\n    result %v", [], "f§($)"),
    "method": ("entity T§:\n    new():\n" + MK + "    def f(%p) -> int:\n"
               "        result %v", ["t§ := T§()"], "t§.f($)"),
    "static": ("entity T§:\n    static def f(%p) -> int:\n        result %v",
               [], "T§.f($)"),
    "virtual": ("entity T§:\n    new():\n" + MK +
                "    virtual def f(%p) -> int:\n        result 1\n"
                "entity U§ extends T§:\n    override def f(%p) -> int:\n"
                "        result %v", ["u§ := U§()", "t§: T§ = u§"],
                "t§.f($)"),
    "new": ("entity T§:\n    v: int\n    new(%p):\n" + MK +
            "        self.v = %v", ["t§ := T§($)"], "t§.v"),
    "sub new": ("entity T§:\n    v: int\n    new(%p):\n" + MK +
                "        self.v = %v\nentity U§ extends T§:\n    new():\n"
                "        T§.new($)", ["t§ := U§()"], "t§.v"),
    "inline": ("inline def f§(%p) -> int:\n    result %v", [], "f§($)"),
    "inline const": ("inline def f§(%c) -> const int:\n    result %v", [],
                     "f§($)"),
    "inline method": ("entity T§:\n    new():\n" + MK +
                      "    inline def f(%p) -> int:\n        result %v",
                      ["t§ := T§()"], "t§.f($)"),
    "inline static": ("entity T§:\n    static inline def f(%p) -> int:\n"
                      "        result %v", [], "T§.f($)"),
    "inline virtual": ("entity T§:\n    new():\n" + MK +
                       "    virtual inline def f(%p) -> int:\n"
                       "        result 1\nentity U§ extends T§:\n"
                       "    override inline def f(%p) -> int:\n"
                       "        result %v", ["u§ := U§()", "t§: T§ = u§"],
                       "t§.f($)"),
    "inline new": ("entity T§:\n    v: int\n    inline new(%p):\n" + MK +
                   "        self.v = %v", ["t§ := T§($)"], "t§.v"),
    "const": ("const def f§(%p) -> int:\n    result %v", [], "f§($)"),
    "const static": ("entity T§:\n    static const def f(%p) -> int:\n"
                     "        result %v", [], "T§.f($)"),
    "const in const": ("const def f§(%p) -> int:\n    result %v\n"
                       "const def g§() -> int:\n    result f§($)", [],
                       "g§()"),
}
OF = {"C05": ["def", "method", "static", "virtual", "new",
              "sub new"],
      "C06": ["inline", "inline const", "inline method", "inline static",
              "inline virtual", "inline new"],
      "C07": ["const", "const static", "const in const"]}


def calls(n, thorough):
    for pos in range(n + 2):
        for k in range(n + 2):
            for kw in (itertools.permutations if thorough else
                       itertools.combinations)(NAMES[:n] + ["zz"], k):
                yield pos, list(kw)
                if not thorough and k > 1:
                    yield pos, list(reversed(kw))
        for x in NAMES[:n]:
            yield pos, [x, x]


def judge(n, d, pos, kw):
    """-> the value or the names of the errors that are possible"""
    bad = set()
    if pos > n:
        bad.add("TOO_MANY_ARGS")
    got = {NAMES[i]: i + 1 for i in range(min(pos, n))}
    for j, x in enumerate(kw):
        if x in got:
            bad.add("ARG_MULTIPLE_VALUES")
        elif x not in NAMES[:n]:
            bad.add("UNEXPECTED_KEYWORD_ARG")
        else:
            got[x] = 4 + j
    for i in range(n):
        if NAMES[i] not in got:
            if i >= n - d:
                got[NAMES[i]] = 7 + i
            else:
                bad.add("MISSING_ARG")
    if bad:
        return "error:" + "|".join(sorted(bad))
    return sum(got[NAMES[i]] * 10 ** i for i in range(n)) if n else 5


def items(prop, thorough):
    for kind in OF[prop]:
        for n in range(4):
            for d in range(n + 1):
                for pos, kw in calls(n, thorough):
                    yield kind, n, d, pos, kw


def batch(chunk, st):
    cs = []
    for i, (kind, n, d, pos, kw) in enumerate(chunk):
        defs, before, call = KINDS[kind]
        args = ", ".join([str(p + 1) for p in range(pos)]
                         + ["%s=%d" % (x, 4 + j) for j, x in enumerate(kw)])

        def fill(s):
            return s.replace("%p", ports(n, d)).replace(
                "%c", ports(n, d, "const ")).replace("%v", value(n)).replace(
                "$", args).replace("§", str(i))
        want = judge(n, d, pos, kw)
        body = before + ['scb("r", "io") = ' + call]
        c = {"key": "%s: %d arguments, %d defaults, called with (%s)" % (
            kind, n, d, args), "defs": fill(defs),
            "body": [fill(x) for x in body], "inputs": [{}],
            "expect": [{"r": want}]}
        if isinstance(want, str):
            c["want"], c["expect"] = want, [None]
        cs.append(c)
    cases.run_batch(cs, st, prelude="/summon player")
