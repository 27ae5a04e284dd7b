"""C21: the compiler never crashes: every program is compiled or refused with
an error located in it.

Every kind of value is put into every place that takes a value: operators,
statements, declarations and the parameters of all library functions, at run
time, in inline functions and in const functions."""
import itertools
import re
import sys

from .. import core, mc

ME = __name__

PRE = [
    ("world", "import world"), ("print", "import print"),
    ("schedule", "import schedule"), ("math", "import math"),
    ("n", "n := 3"), ("b", "b := True"), ("c", "c := False"),
    ("K", "const K = {1, 2}"), ("M", "const M = {\"k\": 1}"),
    ("S", "struct S:\n    a: int\n    b: bool"),
    ("s", "s := S(a=1, b=True)"),
    ("E", "entity E:\n    f: int\n    new():\n"
     "        new(\"pig\", Pos(0.0, 0.0, 0.0))\n"
     "    def m(x: int) -> int:\n        result x + self.f\n"
     "    virtual def v():\n        pass\n"
     "    static def t() -> int:\n        result 1"),
    ("D", "entity D extends E:\n    g: bool\n    override def v():\n"
     "        pass\n    inline def i(const k) -> const int:\n"
     "        result 2"),
    ("e", "e := E()"), ("d", "d := D()"),
    ("g", "g := Engroup[E]()"), ("x_", "x_: Engroup[D]"),
    ("EX", "EX := ExternEngroup()"),
    ("u", "def u():\n    /say u"),
    ("w", "def w(a: int, b: int = 2) -> int:\n    result a + b"),
    ("iw", "inline def iw(&a, const c=1) -> const int:\n    result c"),
    ("iz", "inline def iz(a):\n    pass"),
    ("cw", "const def cw(a, b=2) -> int:\n    result b"),
    ("T", "const T = schedule.Task(u)"),
    ("F", "const F = print.format(\"%0\", n)"),
]
ORDER = [k for k, _ in PRE]
PRE = dict(PRE)

KINDS = {
    "int": "5", "negative": "-7", "large": "2147483648", "zero": "0",
    "int var": "n", "int op": "n * 2 + 1",
    "bool": "True", "bool var": "b", "compare": "n < 2", "and": "b and c",
    "not": "not (b or c)", "str": '"ab"', "empty str": '""',
    "fstr": '"${5}x"', "float": "1.5", "None": "None", "list": "{1, 2}",
    "empty list": "{}", "list of": "{n, b, \"s\"}", "map": "{1: 2}",
    "str map": '{"a": n}', "empty map": "{:}", "nested": "{{1}, {2: {}}}",
    "list const": "K", "map const": "M", "module": "world",
    "module 2": "math", "function": "w", "no result": "u",
    "inline": "iw", "inline 2": "iz", "const function": "cw",
    "builtin": "math.randint", "builtin 2": "print.tell",
    "call": "w(1)", "void call": "u()", "inline call": "iw(n)",
    "const call": "cw(1)", "random": "math.randint(1, 3)",
    "struct type": "S", "struct": "s", "struct field": "s.b",
    "template": "E", "template 2": "D", "Entity": "Entity", "entity": "e",
    "sub entity": "d", "field": "e.f", "method": "e.m", "virtual": "e.v",
    "static": "E.t", "method call": "e.m(2)", "inline method": "d.i",
    "group": "g", "group 2": "x_", "group type": "Engroup",
    "group of": "Engroup[E]", "extern": "EX", "extern type": "ExternEngroup",
    "filter": "Enfilter()", "filter 2": 'Enfilter().is_type("a").random()',
    "filter type": "Enfilter", "pos": "Pos(1.0, 2.0, 3.0)",
    "pos 2": "Pos(e)", "pos type": "Pos", "rot": "Rot(e)",
    "rot 2": "Rot(1.0, 2.0)", "rot type": "Rot", "offset": "Offset(x=1.0)",
    "offset 2": "Offset.local(front=1.0)", "offset type": "Offset",
    "abs": "AbsPos(1.0, 2.0, 3.0)",
    "int type": "int", "bool type": "bool", "float type": "float",
    "str type": "list", "map type": "map",
    "task": "T", "task type": "schedule.Task", "loop": "schedule.register_loop",
    "fstring": "F", "fstring 2": 'print.translate("k")',
    "block": 'world.Block("b")', "item": 'world.Item("i")',
    "block type": "world.Block", "cond": 'world.is_block(Pos(e), "b")',
    "score": 'scb("a", "b")', "undefined": "zz", "no attribute": "n.zz",
    "self": "self", "upcast": "upcast(d, E)", "method of list": "K.size",
    "method of group": "g.size", "group size": "g.size()",
    "group cond": "g.has(e)", "swap": "swap", "Any": "Any",
}

ONE = {
    # place: template; $ is the value
    "statement": "$", "neg": "x := -$", "pos": "x := +$", "not": "x := not $",
    "call": "$()", "call 1": "x := $(1)", "call kw": "$(k=1)",
    "call entity": "$(e)", "call str": '$("a")', "call list": "$({1})",
    "sub 0": "x := $[0]", "sub": "$[]", "sub type": "x: $[E]",
    "sub two": "$[0, 1]", "sub str": 'x := M[$]', "sub str 2": 'const k = $["k"]', "sub template": "x := $[E]()",
    "attr": "x := $.a", "attr f": "x := $.f", "attr size": "$.size()",
    "attr values": "for i in $.values():\n    x := i", "assign to": "$ = 1", "aug": "$ += 1",
    "aug 2": "n -= $", "aug 3": "n *= $", "aug 4": "n %= $",
    "assign attr": "$.f = 1", "assign sub": "$[0] = 1",
    "auto": "x := $", "auto use": "x := $\ny := x\nx = y", "decl": "x: $",
    "decl value": "x: int = $", "decl bool": "x: bool = $",
    "decl use": "x: $\ny := x", "const": "const k = $",
    "const use": "const k = $\nx := k\nconst k2 = k", "const type":
    "const k: $ = 1", "const typed": "const k: int = $",
    "ref": "&r = $", "ref use": "&r = $\nr = 1", "ref type": "&r: $ = n",
    "ref typed": "&r: int = $", "if": "if $:\n    /say 1",
    "if else": "if $:\n    pass\nelif $:\n    /say a\nelse:\n    /say b",
    "while": "while $:\n    /say 1", "for": "for i in $:\n    x := i",
    "for use": "for i in $:\n    /say ${i}\n    i += 1",
    "result": "result $", "string": 'const k = "a${$}"',
    "command": "/say ${$}", "block command": "/*\nsay ${$}\n*/",
    "def type": "def q(a: $):\n    pass", "def type use":
    "def q(a: $) -> int:\n    y := a\nq(1)", "def default":
    "def q(a=$) -> int:\n    result 1\nq()",
    "def default typed": "def q(a: int = $):\n    x := a\nq()",
    "def result type": "def q() -> $:\n    pass\nx := q()",
    "def result": "def q() -> int:\n    result $\nx := q()",
    "inline type": "inline def q(a: $):\n    x := a\nq(1)",
    "inline default": "inline def q(a=$):\n    x := a\nq()",
    "inline const": "inline def q(const a=$):\n    x := a\nq()",
    "inline ref": "inline def q(&a=$):\n    x := a\nq()",
    "inline ref arg": "inline def q(&a):\n    a = 1\nq($)",
    "inline const arg": "inline def q(const a):\n    /say ${a}\nq($)",
    "inline arg": "inline def q(a):\n    x := a\nq($)",
    "inline result": "inline def q():\n    result $\nx := q()",
    "inline result const": "inline def q() -> const int:\n    result $\n"
    "x := q()",
    "inline result ref": "inline def q() -> &int:\n    result $\nq() = 1",
    "inline result type": "inline def q() -> $:\n    result 1\nx := q()",
    "const fn type": "const def q(a: $):\n    result a\nx := q(1)",
    "const fn type 2": "const def q(a: $) -> $:\n    result a",
    "const fn default": "const def q(a=$):\n    result a\nx := q()",
    "const fn arg": "const def q(a):\n    result a\nx := q($)",
    "const fn result": "const def q():\n    result $\nx := q()",
    "const fn result type": "const def q() -> $:\n    result 1\nx := q()",
    "arg": "x := w($)", "arg kw": "x := w(1, b=$)", "arg wrong": "w(1, 2, $)",
    "arg wrong kw": "w(zz=$)", "method arg": "x := e.m($)",
    "extends": "entity Q extends $:\n    pass\nx := Q()",
    "extends 2": "entity Q extends E, $:\n    pass",
    "struct extends": "struct Q extends $:\n    z: int\nx := Q()",
    "struct field": "struct Q:\n    z: $\nx := Q()",
    "struct field arg": "x := S(a=$)", "struct arg": "x := S($)",
    "entity field": "entity Q:\n    z: $\n    new():\n        new(\"a\", "
    "Pos(e))\nx := Q()\ny := x.z",
    "new": "entity Q:\n    new():\n        new($)\nx := Q()",
    "new 2": "entity Q:\n    inline new(const a, p):\n        new(a, p)\n"
    "x := Q(\"pig\", $)\ny := Q($, Pos())",
    "new arg": "entity Q:\n    new():\n        new(\"a\", $)\nx := Q()",
    "new kw": "entity Q:\n    new():\n        new(\"a\", Pos(e), name=$)\n"
    "x := Q()",
    "new super": "entity Q extends E:\n    new():\n        $.new()\nx := Q()",
    "method": "entity Q:\n    def y(a: $):\n        x := a",
    "method 2": "entity Q extends E:\n    override def v() -> $:\n"
    "        pass",
    "method 3": "entity Q extends E:\n    static const def z(a=$):\n"
    "        result a\nx := Q.z()",
    "interface": "interface i/a:\n    x := $\n    result $", "list": "x := {$}[0]",
    "list 2": "const k = {1, $}\nx := k[1]", "key": "const k = {$: 1}",
    "keys": "const k = {1: 2, $: 3}\nx := k[1]", "value":
    "const k = {1: $}\nx := k[1]", "self list": "const k = {$, $}",
    "import attr": "$.x.y()", "paren": "x := (($))", "cmp":
    "x := $ == $", "chain": "x := 1 < $ < 3", "swap": "swap($, n)",
    "swap 2": "swap($, $)", "scb": "x := scb($, \"o\")", "scb 2":
    "x := scb(\"o\", $)", "upcast": "x := upcast($, E)", "upcast 2":
    "x := upcast(d, $)", "int": "x := int($)", "float": "x := float($)",
    "engroup": "x: Engroup[$]", "extern": "x := EX.resolve($)", "extern 2": "x := $.resolve(E)",
    "list new": "const x = list($)", "map new": "const x = map($, $)",
    "group ops": "g += $", "group ops 2": "g -= $", "group assign": "g = $",
    "entity assign": "e = $", "struct assign": "s = $", "bool assign":
    "b = $", "field assign": "e.f = $", "K index": "x := K[$]",
    "M has": "x := M.has($)", "M from": "const k = map.from_keys($, $)",
}
OPS = ["+", "-", "*", "/", "%", "==", "!=", "<", ">=", "and", "or"]
TWO = dict({"op " + o: "x := $1 %s $2" % o for o in OPS},
           **{"assign": "$1 = $2", "aug": "$1 += $2", "aug mod": "$1 %= $2",
              "index": "x := $1[$2]", "call": "x := $1($2)",
              "decl": "x: $1 = $2", "const": "const k: $1 = $2",
              "ref": "&r: $1 = $2\nr = 1", "pair": "const k = {$1: $2}",
              "pick": "const k = {$1: 1}\nx := k[$2]",
              "inline port": "inline def q(const a: $1):\n    x := a\nq($2)",
              "arg port": "def q(a: $1):\n    x := a\nq($2)",
              "result port": "def q() -> $1:\n    result $2\nx := q()",
              "list add": "x := {$1} + {$2}", "swap": "swap($1, $2)"})

# library functions: (call, good arguments, good keyword arguments)
P, O, R = "Pos(e)", "Offset(x=1.0)", "Rot(1.0, 2.0)"
LIB = [
    ("math.randint", ["1", "5"]), ("math.pow", ["n", "2"]),
    ("math.pow", ["2", "n"]), ("math.min", ["n", "3"]),
    ("math.max", ["n", "b", "4"][0::2]), ("math.mod", ["n", "3"]),
    ("math.floordiv", ["7", "n"]),
    ("print.format", ['"%0 %{a}"', "n"], {"a": "b"}),
    ("print.translate", ['"k"']), ("print.tell", ['"t"', "g"]),
    ("print.with_font", ['"t"'], {"color": '"red"', "bold": "True",
                                  "italic": "False", "obfuscated": "True"}),
    ("print.title", ['"t"', "g"], {"mode": "print.ACTIONBAR",
                                   "fade_in": "1", "stay_time": "2",
                                   "fade_out": "3"}),
    ("print.title_clear", ["g"]),
    ("schedule.Task", ["u"]), ("schedule.Task", ["w", "1"], {"b": "2"}),
    ("T.after", ["5"]), ("T.cancel", []), ("T.has_schedule", []),
    ("T.on_area_loaded", [P, O]), ("T.on_circle_loaded", [P, "3"]),
    ("T.on_tickingarea", ['"a"']),
    ("schedule.register_loop", ["u", "3"]),
    ("schedule.register_loop", ["w", "2", "1"]),
    ("Pos", ["1.0", "2.0", "3.0"]), ("Pos", ["e", '"eyes"']),
    ("Pos(e).dim", ['"nether"']), ("Pos(e).local", [R, "1.0", "2.0", "3.0"]),
    ("Pos(e).apply", [O]), ("Pos(e).align", ['"xz"']),
    ("Pos(e).abs", ["1.0", "2.0", "3.0"]), ("Pos(e).offset", ["1.0"]),
    ("AbsPos", ["1.0", "2.0", "3.0"]),
    ("AbsPos(1.0, 2.0, 3.0).offset", ["1.0"]),
    ("AbsPos(1.0, 2.0, 3.0).abs", ["1.0"], {"z": "2.0"}),
    ("Rot", ["1.0", "2.0"]), ("Rot", ["e"]),
    ("Rot.face_entity", ["e", '"eyes"']), ("Rot(e).abs", ["1.0", "2.0"]),
    ("Rot(e).offset", ["1.0"], {"horizontal": "2.0"}),
    ("Offset", ["1.0", "2.0"], {"z_abs": "3.0"}),
    ("Offset.local", ["1.0", "2.0", "3.0"]),
    ("Offset().abs", ["1.0"], {"z": "2.0"}),
    ("Offset().offset", ["1.0"], {"z": "2.0"}),
    ("int", ["b"]), ("float", ["1"]), ("bool", ["1"]), ("list", ["K"]),
    ("list.range", ["1", "9", "2"]), ("list.range", ["3"]),
    ("list.repeat", ["n", "3"]), ("list.geometric", ["1", "2", "3"]),
    ("K.slice", ["0", "2", "1"]), ("K.slice", ["1"]), ("K.cycle", ["2"]),
    ("K.copy", []), ("K.size", []), ("map", ["K", "K"]),
    ("map.from_keys", ["K", "n"]), ("M.get", ['"k"', "3"]),
    ("M.has", ['"k"']), ("M.keys", []), ("M.values", []), ("M.size", []),
    ("M.copy", []),
    ("g.select", ["Enfilter()"]), ("g.drop", ["Enfilter()"]),
    ("g.filter", ["Enfilter()"]), ("g.extend", ["g"]), ("g.subtract", ["g"]),
    ("g.intersect", ["x_"]), ("g.copy", []), ("g.clear", []),
    ("g.add", ["e"]), ("g.remove", ["e", "d"]), ("g.is_empty", []),
    ("g.size", []), ("g.to_single", []), ("g.has", ["e"]),
    ("EX.resolve", ["E"]), ("ExternEngroup", []),
    ("swap", ["n", "s.a"]), ("scb", ["e", '"o"']), ("upcast", ["d", "E"]),
] + [("Enfilter().%s" % f, a) for f, a in [
    ("all_players", []), ("random", ["1"]), ("random", ["1", '"pig"']),
    ("nearest_from", [P, "1"]), ("farthest_from", [P, "2"]),
    ("has_tag", ['"a"', '"b"']), ("has_no_tag", ['"a"', '"b"']),
    ("distance_from", [P, "1.0", "2.0"]), ("is_type", ['"a"']),
    ("is_not_type", ['"a"', '"b"']), ("inside", [P, O]),
    ("rot_vertical", ["1", "2"]), ("rot_horizontal", ["1", "2"]),
    ("is_name", ['"a"']), ("is_not_name", ['"a"', '"b"']),
    ("has_item", ['"a"', "1", '"1..2"', '"slot"', '"3"']),
    ("scores", ['"o"', '"1.."']), ("level", ["1", "2"]),
    ("is_game_mode", ['"creative"']),
    ("is_not_game_mode", ['"creative"', '"survival"']),
    ("has_permission", ['"camera"']), ("has_no_permission", ['"camera"'])]
] + [("world." + f, a) for f, a in [
    ("Block", ['"b"', "{}"]), ("Item", ['"i"', "1"]),
    ("clone", [P, O, O, '"move"', "True"]),
    ("clone_only", [P, O, O, '"b"', '"force"']),
    ("fill", [P, O, '"b"', '"keep"']), ("fill_replace", [P, O, '"b"', '"c"']),
    ("setblock", [P, 'world.Block("b")', '"keep"']),
    ("damage", ["g", "1", '"fire"', "e"]),
    ("effect_give", ["g", '"speed"', "1", "2", "False"]),
    ("effect_clear", ["g"]), ("enchant", ["g", '"a"', "2"]),
    ("event_entity", ["g", '"ev"']), ("kill", ["e"]),
    ("msg_me", ["e", '"m"']), ("msg_say", ["e", '"m"']),
    ("msg_tell", ["e", "g", '"m"']),
    ("replaceitem_block", [P, "1", '"i"', "2", "True"]),
    ("replaceitem_entity", ["e", '"slot"', "1", '"i"', "2", "True"]),
    ("ride_start_tp_ride", ["e", "d"]),
    ("ride_start_tp_rider", ["g", "d", '"until_full"']),
    ("ride_stop", ["g"]), ("ride_evict_riders", ["g"]),
    ("summon_rider", ["g", '"pig"', '"ev"', '"nm"']),
    ("summon_ride", ["g", '"pig"', '"ev"', '"nm"', '"no_ride_change"']),
    ("spread", ["g", P, "3.0", "1.0"]),
    ("summon", ['"pig"', P, '"ev"', '"nm"', R]),
    ("tag_add", ["g", '"t"']), ("tag_remove", ["g", '"t"']),
    ("tp", ["g", P, "True"]), ("rotate", ["g", R]),
    ("move", ["g", "1.0", "2.0", "3.0", "True"]),
    ("move_local", ["g", "1.0", "2.0", "3.0", "True"]),
    ("ability", ["Enfilter().all_players()", '"mute"', "True"]),
    ("is_block", [P, '"b"']), ("is_same_area", [P, O, O, "True"]),
    ("is_entity", ["e", "Enfilter()"]), ("kick", ['"n"', '"r"'])]
]
PLACES = {
    "top": "$", "function": "def z() -> int:\n$\nx0 := z()",
    "inline": "inline def z():\n$\nz()", "const": "const def z():\n$\nz()",
    "interface": "interface z:\n$",
    "method": "entity Z:\n    def z():\n$$",
    "loop": "for z in {1, 2}:\n$",
    "branch": "if b:\n$\nelse:\n    pass",
}


def indent(s, n=1):
    return "\n".join("    " * n + ln for ln in s.split("\n"))


def put(place, code):
    p = PLACES[place]
    if "$$" in p:
        return p.replace("$$", indent(code, 2))
    return p.replace("$", indent(code) if p != "$" else code)


NAME = re.compile(r"[A-Za-z_][A-Za-z_0-9]*")
_need = {}


def needs(code):
    """Prelude entries that code uses, in order."""
    res, todo = set(), [code]
    while todo:
        for w in NAME.findall(todo.pop()):
            if w in PRE and w not in res:
                res.add(w)
                todo.append(PRE[w])
    return [k for k in ORDER if k in res]


def prelude(code):
    return "".join(PRE[k] + "\n" for k in needs(code))


def program(place, code):
    """The text and the line where the code begins."""
    pre = prelude(code)
    return pre + put(place, code) + "\n", pre.count("\n") + 1


# entries of the prelude that are expanded where they are used
EXPANDED = ("iw", "iz", "cw", "D", "E")
_pre_ok = {}


def place_ok(src, first, line):
    """Can an error in the code that begins in line `first` be in `line`?"""
    if line >= first:
        return True
    pre = "".join(ln + "\n" for ln in src.split("\n")[:first - 1])
    if pre not in _pre_ok:
        _pre_ok[pre] = core.compile_files({"main.aca": pre}).ok
    if not _pre_ok[pre]:
        return True
    text = src.split("\n")
    while line > 1 and text[line - 1].startswith(" "):
        line -= 1
    return any(PRE[k].split("\n")[0] == text[line - 1] for k in EXPANDED)


RAW = re.compile(r"\{[a-z_]+(![rs])?\}|errortype\.|ast\.|<[a-z_.]+ object at")


def judge(out, files, first=None):
    """first: {file: first line where an error can be}"""
    if out.crash:
        return "crash: %s" % out.crash
    if out.ok:
        bad = mc.Program(out.files).malformed
        if bad and not any(w in "".join(files.values())
                           for w in ("world", "/")):
            return "malformed command %r in %s: %s" % (
                bad[0][2], bad[0][0], bad[0][3])
        return None
    name, (line, col) = out.loc[0], out.loc[1] or (None, None)
    if not out.error or not out.error.strip():
        return "an error without a text"
    if RAW.search(out.error):
        return "the text of the error is not complete: %s" % out.error
    if name is None:
        return "an error without a place: %s" % out.error
    if name not in files:
        return "an error in an unknown file %s: %s" % (name, out.error)
    text = files[name].split("\n")
    if not line or not 1 <= line <= len(text) + 1:
        return "an error in line %s of %d: %s" % (line, len(text), out.error)
    if col is None or not 0 <= col <= len((text + [""])[line - 1]) + 1:
        return "an error in column %s of line %d: %s" % (col, line, out.error)
    if first and not place_ok(files[name], first.get(name, 1), line):
        return "the fault is after line %d, the error is located in line " \
            "%d: %s" % (first[name] - 1, line, out.error)
    return None


def one(kind, ctx, place):
    return program(place, ONE[ctx].replace("$", KINDS[kind]))


def two(k1, k2, ctx, place):
    return program(place, TWO[ctx].replace("$1", KINDS[k1]).replace(
        "$2", KINDS[k2]))


# a type inside other types, and what is done with the result
TYPES = ["int", "bool", "float", "E", "Entity", "S", "Engroup[E]",
         "ExternEngroup", "Enfilter", "Pos", "Rot", "Offset", "list", "map",
         "None", "schedule.Task", "world.Block", "world.Item", "Any", "w",
         "cw", "math", "n", "{1}", "zz"]
WRAP = {
    "": ("", "$"),
    "field": ("struct Q1:\n    q: $", "Q1"),
    "second field": ("struct Q1:\n    o: int\n    q: $", "Q1"),
    "base": ("struct Q0:\n    q: $\nstruct Q1 extends Q0:\n    o: int", "Q1"),
    "second base": ("struct Q0:\n    q: $\n"
                    "struct Q1 extends S, Q0:\n    pass", "Q1"),
    "deep": ("struct Q0:\n    q: $\nstruct Q1:\n    o: bool\n    p: Q0", "Q1"),
    "entity": ("entity Q1:\n    q: $", "Q1"),
    "sub entity": ("entity Q0:\n    q: $\nentity Q1 extends E, Q0:\n    pass",
                   "Q1"),
    "entity of struct": ("struct Q0:\n    q: $\nentity Q1:\n    p: Q0", "Q1"),
    "group": ("", "Engroup[$]"),
}
USES = {
    "var": "x: $", "var use": "x: $\ny := x\nx = y\nx.q = y.q",
    "var value": "x: $ = $()", "auto": "x := $()\ny := x.q",
    "def arg": "def q(a: $) -> int:\n    y := a\n    result 1\nq($())",
    "def arg 2": "def q(a: $, b: $):\n    a = b",
    "def result": "def q() -> $:\n    pass\nx := q()",
    "inline arg": "inline def q(a: $):\n    y := a\nq($())",
    "inline ref": "inline def q(&a: $):\n    y := a\nz: $\nq(z)",
    "inline const": "inline def q(const a: $):\n    y := a\nq($())",
    "inline result": "inline def q() -> $:\n    result $()\nx := q()",
    "const result": "const def q() -> $:\n    result $()\nx := q()",
    "reference": "x: $\n&y: $ = x\ny = x",
    "field": "struct Z:\n    z: $\nx := Z()\ny := x.z\nx.z = y",
    "entity field": "entity Z:\n    z: $\nx: Z\ny := x.z\nx.z = y",
    "base": "struct Z extends $:\n    z: int\nx := Z()\ny := x.z",
    "entity base": "entity Z extends $:\n    z: int\nx: Z\ny := x.z",
    "method": "entity Z:\n    def z(a: $) -> $:\n        result a\n"
    "x: Z\ny: $\nx.z(y)",
    "virtual": "entity Z:\n    virtual def z(a: $) -> $:\n        result a\n"
    "entity Z1 extends Z:\n    override def z(a: $) -> $:\n"
    "        result a\nx: Z\ny: $\nx.z(y)",
    "new": "entity Z:\n    new(a: $):\n        new(\"pig\", Pos(e))\n"
    "        self = a\ny: $\nZ(y)",
    "list": "const k = {$(), $()}\nx := k[0]",
    "format": "y: $\nprint.tell(print.format(\"%0\", y))",
    "swap": "x: $\ny: $\nswap(x, y)", "op": "x: $\ny: $\nz := x + y",
    "cmp": "x: $\ny: $\nz := x == y", "print": "x: $\nprint.tell(x)",
    "upcast": "x: $\ny := upcast(x, $)", "of group":
    "x := Engroup[$]()\nfor y in x:\n    z := y.q",
    "task": "def q(a: $):\n    pass\nconst t = schedule.Task(q, $())\n"
    "t.after(2)",
}


def types(typ, wrap, use, place):
    d, t = WRAP[wrap]
    return program(place, (d + "\n" if d else "").replace("$", typ)
                   + USES[use].replace("$", t.replace("$", typ)))


def lib(i, changes, place, use):
    """The i-th library call with arguments changed: {index or name: kind}.
    Index -1: one more argument; -2: one argument less."""
    f = LIB[i]
    args, kws = list(f[1]), dict(f[2]) if len(f) > 2 else {}
    for k, kind in changes:
        if k == -2:
            args.pop()
        elif k == -1:
            args.append(KINDS[kind])
        elif isinstance(k, int):
            args[k] = KINDS[kind]
        else:
            kws[k] = KINDS[kind]
    code = "%s(%s)" % (f[0], ", ".join(
        args + ["%s=%s" % kv for kv in kws.items()]))
    return program(place, "k := " + code if use == "var" else
                   "const k = " + code if use == "const" else code)


def module(kind, ctx, place):
    """The same in a module that begins with many empty lines."""
    code, first = one(kind, ctx, place)
    files = {"main.aca": "/say 1\nimport m\n/say 2\n",
             "m.aca": "\n" * 40 + code}
    return files, {"main.aca": 9, "m.aca": 40 + first}


# calls of something in a module: (definition, call); $ is the fault
REMOTE = {
    "inline": ("inline def f():\n    $", "m.f()"),
    "inline result": ("inline def f() -> const int:\n    $\n    result 1",
                      "x := m.f()"),
    "const": ("const def f():\n    $", "m.f()"),
    "const 2": ("const def f():\n    $", "const k = m.f()"),
    "const 3": ("const def h():\n    $\nconst def f():\n    h()",
                "const k = m.f()"),
    "inline method": ("entity A:\n    inline def f():\n        $",
                      "a := m.A()\na.f()"),
    "virtual": ("entity A:\n    virtual inline def f():\n        $",
                "a := m.A()\na.f()"),
    "static": ("entity A:\n    static inline def f():\n        $", "m.A.f()"),
    "static const": ("entity A:\n    static const def f():\n        $",
                     "m.A.f()"),
    "new": ("entity A:\n    inline new():\n        $\n        new()",
            "a := m.A()"),
    "chain": ("inline def h():\n    $\ninline def f():\n    h()", "m.f()"),
    "through const": ("const def h():\n    $\ninline def f():\n    h()",
                      "m.f()"),
}
FAULTS = {
    "name": "const k = zz", "type": 'const k = 1 + "a"',
    "index": "const k = {1}[3]", "key": "const k = {1: 2}[3]",
    "zero": "const k = 1 / 0", "call": "const k = 1()",
    "attr": "const k = world.zz",
    "list": "const k = list.range(1, 2, 3, 4)", "arg": "const k = int(a=2)",
    "shadow": "const k = 1\n$const k = 2", "result": 'result zz',
    "bool": 'const k = 1 and True', "not": 'const k = not 1',
    "minus": 'const k = -"a"', "unhashable": "const k = {{1}: 1}",
    "for": "for i in 3:\n$    pass", "if": "if 3:\n$    pass",
    "pos": 'const k = Pos("a", 1.0, 1.0)', "align": 'Pos().align("k")',
    "overflow": "const k = 2147483648", "compare": 'const k = 1 < "a"',
    "chain": 'const k = 1 < 2 < "a"', "aug": 'const k = 1\n$k += 1',
    "command": "/say ${world}", "string": 'const k = "${world}"',
    "ref": "&k = 1", "assign": "int = 1", "decl": "k: 3 = 1",
    "upcast": "upcast(1, 2)", "deep": "f()",
}


def remote(shape, fault, gap):
    d, c = REMOTE[shape]
    ind = re.search(r"( *)\$", d).group(1)
    d = d.replace("$", FAULTS[fault].replace("\n$", "\n" + ind))
    files = {"main.aca": "import m\n\n%s\n" % c,
             "m.aca": "import world\n" + "\n" * gap + d + "\n"}
    return files, None


def remote_bad(out, files):
    """The error is in a line of the module that has text or in the call."""
    if out.ok or out.crash:
        return None
    line = out.loc[1][0]
    if out.loc[0] == "main.aca":
        return None if line >= 3 else "the fault is in the module, the " \
            "error is located at %s:%d: %s" % (out.loc[0], line, out.error)
    text = files[out.loc[0]].split("\n")
    return None if line <= len(text) and text[line - 1].strip() and line > 1 \
        else "the error is located in an empty line: %s" % out.error


# every compound statement around every statement
BOX = {
    "if": "if b:\n    $", "else": "if b:\n    pass\nelse:\n    $",
    "elif": "if b:\n    pass\nelif c:\n    $",
    "const if": "if True:\n    $\nelse:\n    $",
    "while": "while n > 0:\n    $\n    n -= 1",
    "for": "for i in K:\n    $", "for group": "for i in g:\n    $",
    "def": "def f(a: int, &r: int=n) -> int:\n    $\n    result 1\nf(1)",
    "inline": "inline def h(a, const k=1, &r=n):\n    $\nh(1)",
    "const def": "const def j(a):\n    $\nj(1)",
    "interface": "interface a:\n    $",
    "method": "entity A:\n    def m():\n        $\na0 := A()\na0.m()",
    "virtual": "entity B extends E:\n    override def v():\n        $\n"
    "b0 := B()\nb0.v()",
    "inline method": "entity B extends E:\n    inline def m2():\n        $\n"
    "q := B()\nq.m2()",
    "static": "entity A:\n    static def m():\n        $\nA.m()",
    "const static": "entity A:\n    static const def m():\n        $\nA.m()",
    "new": "entity A:\n    new():\n        $\n        new()\nA()",
    "inline new": "entity A extends E:\n    inline new():\n        $\n"
    "        E.new()\nA()",
    "entity": "entity A:\n    $\nA()", "struct": "struct Q:\n    $\nQ()",
}
STMT = [
    "x := 1", "x: int", "x: int = 2", "const k = 1", "&r = n", "n = 2",
    "n += 1", "s.a = 1", "s = S()", "e = E()", "e.f = 1", "pass", "result 1",
    "result None", "result", "n", "u()", "w(1)", "iw(n)", "iz(1)", "cw(1)",
    "/say ${n}", '/say a', "/*\nsay b\n*/", "new()", 'new("a")',
    "E.new()", "self", "self.f = 1", "x := self", "if b:\n    pass",
    "while b:\n    pass", "while True:\n    /say z", "for i in K:\n    pass",
    "for i in g:\n    i.m(1)", "interface a2:\n    /say c",
    "def f2():\n    pass", "inline def f3():\n    pass",
    "const def f4():\n    pass", "struct T2:\n    a: int",
    "entity T3:\n    a: int", "import math", "import math as m2",
    "from math import pow", "from math import *", "g.add(e)",
    "g = Engroup[E]()", "x := Engroup[E]()", "print.tell(F)",
    "world.kill(e)", "T.after(2)", "x := e.m(1)", "e.v()",
    "d.v()", "x := upcast(d, E)", "swap(n, e.f)", "a: int", "&q: int = n",
    "x := {1}", "const x = {1: 2}", "x := a", "a = 3", "r = 4", "i = 5",
    "x := i", "def m3():\n    pass", "virtual def v():\n    pass",
    "override def v():\n    pass", "static def z():\n    pass",
    "new():\n    new()",
]


def boxed(boxes, stmt):
    code = STMT[stmt]
    for bx in boxes:
        out = []
        for ln in BOX[bx].split("\n"):
            if ln.strip() == "$":
                out.append(indent(code, (len(ln) - 1) // 4))
            else:
                out.append(ln)
        code = "\n".join(out)
    return program("top", code)


# forms that nest: start, what stands before a level, core, what after
DEEP = {
    "paren": ("x := ", "(", "n", ")"), "neg": ("x := ", "-", "n", ""),
    "not": ("x := ", "not ", "b", ""), "minus": ("x := ", "n - (", "n", ")"),
    "sum": ("x := ", "n + ", "n", ""), "list": ("const k = ", "{", "1", "}"),
    "map": ("const k = ", "{1: ", "1", "}"),
    "call": ("x := ", "w(", "1", ")"), "index": ("x := K", "[", "0", "]"),
    "and": ("x := ", "b and ", "b", ""), "cmp": ("x := ", "1 < ", "n", ""),
    "attr": ("x := n", ".a", "", ""),
    "str": ("const k = ", '"${', "1", '}"'),
    "if": None, "while": None, "for": None, "def": None, "inline": None,
    "elif": None, "block": None,
}


def deep(form, depth):
    if DEEP[form]:
        a, lft, mid, rgt = DEEP[form]
        code = a + lft * depth + mid + rgt * depth
    elif form == "elif":
        code = "if n == 0:\n    pass\n" + "".join(
            "elif n == %d:\n    pass\n" % i for i in range(depth)) + "pass"
    elif form == "block":
        code = "if b:\n" + "    n += 1\n" * depth + "pass"
    else:
        head = {"if": "if b:", "while": "while b:", "for": "for i%d in K:"
                if depth < 6 else "for i%d in {1}:", "def": "def f%d():",
                "inline": "inline def f%d():"}[form]
        code = "".join("    " * i + (head % i if "%d" in head else head)
                       + "\n" for i in range(depth)) + "    " * depth \
            + "/say q"
    return program("top", code)


LITERALS = ["9" * 9, "9" * 10, "9" * 11, "9" * 4300, "9" * 4301, "1" * 20000,
            "0" * 5000 + "1", "0x" + "f" * 8, "0x7fffffff", "0x" + "f" * 9000,
            "0b" + "1" * 31, "0b" + "1" * 40000, "0o" + "7" * 10000,
            "-" + "9" * 5000, "2147483647", "2147483648", "-2147483648",
            "-2147483649", "1.5", "9" * 400 + ".0", "0." + "0" * 400 + "1",
            "9" * 5000 + ".5", '"%s"' % ("a" * 20000), "a" * 5000,
            "--2147483648", "0x", "0b2", "0o8", "1.", "1.e", "00", "007",
            '"\\u0041"', '"\\ud800"', '"\\uffff"', '"\\x7f"', "1_000", "1e5",
            "int.MAX + 1", "int.MIN - 1", "int.MAX * int.MAX",
            "int.MIN / -1", "int.MIN % -1", "-int.MIN", "5 / 0", "5 % 0",
            "n / 0", "n % 0", "0 / n", "0.0 / 0.0", "float(1) / 0.0"]
LIT_USE = ["x := $", "const k = $", "x := n + $", "x := {$}[0]", "n += $",
           "x := n == $", "const k = {$: 1}", "x := Pos($, 1.0, 1.0)",
           "const k = -$", "const def f():\n    result $\nx := f()",
           'const k = "${$}"', "/say ${$}"]


def literal(i, j):
    return program("top", LIT_USE[j].replace("$", LITERALS[i]))


_KIND = {
    "inline": ("inline def $():\n    %\n", "$()"),
    "inline result": ("inline def $() -> const int:\n    %\n    result 1\n",
                      "$()"),
    "const": ("const def $():\n    %\n", "$()"),
    "method": ("entity T$:\n    def z():\n        %\nt$ := T$()\n",
               "t$.z()"),
    "inline method": ("entity T$:\n    inline def z():\n        %\n"
                      "t$ := T$()\n", "t$.z()"),
    "virtual": ("entity T$:\n    virtual def z():\n        %\n"
                "t$ := T$()\n", "t$.z()"),
    "virtual inline": ("entity T$:\n    virtual inline def z():\n        %\n"
                       "t$ := T$()\n", "t$.z()"),
    "static inline": ("entity T$:\n    static inline def z():\n        %\n",
                      "T$.z()"),
    "static": ("entity T$:\n    static def z():\n        %\n", "T$.z()"),
    "new": ("entity T$:\n    inline new():\n        %\n        new()\n",
            "T$()"),
}


def recursion(k1, how):
    """The function calls itself: `how` tells how often and from where."""
    d, call = (x.replace("$", "p") for x in _KIND[k1])
    me = call
    if "z()" in call and how.startswith("self"):
        me = "self.z()"
    body = {"once": [me], "twice": [me, me], "self": [me],
            "self twice": [me, "/say 1", me],
            "in if": ["if b:", "    " + me], "in for":
            ["for i in K:", "    " + me],
            "in none": ["for i in {}:", "    " + me],
            "in while": ["while b:", "    " + me],
            "as value": ["x := " + me]}[how]
    ind = next(x for x in d.split("\n") if x.strip() == "%")[:-1]
    return program("top", d.replace(ind + "%", "\n".join(
        ind + x for x in body)) + call)


HOW = ["once", "twice", "self", "self twice", "in if", "in for", "in none",
       "in while", "as value"]


def mutual(k1, k2, order):
    """Two functions that call each other."""
    (d1, c1), (d2, c2) = _KIND[k1], _KIND[k2]
    a = d1.replace("$", "p").replace("%", c2.replace("$", "q"))
    c = d2.replace("$", "q").replace("%", c1.replace("$", "p"))
    code = (a + c if order else c + a) + c1.replace("$", "p")
    return program("top", code)


# source files with any kind of bytes
BYTES = ["\udcff", "\udcc3", "\udced\udca0\udc80", "\0", "\f", "\v", "\r",
         "\ufeff", "\u2028", "\xa0", "\u0130", "\U0001f600", "\x1a", "\t",
         "\udcff" * 3, "\x7f", "\u0660", "\xb2"]
AT = ["@x := 1", "x := 1@", "x := @1", "x := 1 #@", "#*@*#\nx := 1",
      'x := "@"', "/say @a", "/*\nsay @\n*/", "if True:\n@    y := 1",
      "x@ := 1", "x := 1\n@", "x := \\@\n1", "x := (@1)", "/say ${@1}",
      'x := "${@1}"', "x := 1\n" + "#\n" * 6000 + "#@"]
IMPORTS = {
    "main": None, "import": "import m", "from": "from m import x",
    "all": "from m import *", "alias": "import m as k",
    "relative": "import .m", "in function": "def f():\n    import m\nf()",
    "in inline": "inline def f():\n    import m\nf()",
    "in if": "if True:\n    import m", "twice": "import m\nimport m",
    "package": "import p.m", "through": "import via",
}


def source(how, at, byte):
    def enc(t):
        return t.encode("utf-8", "surrogateescape")
    text = enc(AT[at].replace("@", BYTES[byte], 1) + "\n")
    if how == "main":
        return {"main.aca": text}, None
    main = "#\n" + IMPORTS[how] + "\n"
    return {"main.aca": main, "via.aca": "\nimport m\n",
            "p/m.aca" if how == "package" else "m.aca": text}, None


MAKE = {f.__name__: f for f in (source, one, two, lib, module, remote, boxed, deep,
                                literal, recursion, mutual, types)}


def verdict(what, args):
    r = MAKE[what](*args)
    files, first = r if isinstance(r[0], dict) else (
        {"main.aca": r[0]}, {"main.aca": r[1]})
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(1000)         # the default, as when run by users
    try:
        out = core.compile_files(files)
    finally:
        sys.setrecursionlimit(old)
    if what == "source" and args[0] == "main" and out.etype == "IO":
        return out, files, None     # the text has no lines at all
    files = {k: v if isinstance(v, str) else v.decode("utf-8", "replace")
             for k, v in files.items()}
    bad = judge(out, files, first)
    if not bad and what == "remote":
        bad = remote_bad(out, files)
    return out, files, bad


def batch(chunk, st):
    for what, *args in chunk:
        out, files, bad = verdict(what, args)
        st.programs += 1
        st.states += 1
        st.transitions += 1
        st.outcome((out.etype, out.loc, bool(out.ok)))
        st.count("%s: %s" % (what, "compiled" if out.ok else "refused"))
        if bad:
            src = "\n".join("# %s\n%s" % f for f in sorted(files.items()))
            st.violations.append(core.Violation(
                {"kind": "total", "key": "%s %s" % (what, args),
                 "what": "%s\n%s" % (bad, src[-3000:]), "make": what,
                 "args": args}))


CORE = ["int", "negative", "int var", "bool var", "str", "float", "None",
        "list", "map", "function", "builtin", "struct", "entity", "template",
        "group", "group of", "filter", "pos", "offset", "int type", "module",
        "void call"]
FEW = ["int var", "bool", "str", "None", "list", "function", "struct",
       "entity", "template", "group of", "pos", "int type"]


def items(chk):
    T = chk.thorough
    places = list(PLACES)
    n = 0
    for ctx in ONE:
        for kind in KINDS:
            for i, pl in enumerate(places):
                if T or i == 0 or i == 1 + n % 7 and kind in CORE or \
                        pl == "const" and kind in CORE:
                    yield ("one", kind, ctx, pl)
            if T or kind in FEW:
                yield ("module", kind, ctx, places[n % 8])
            n += 1
    for shape in REMOTE:
        for fault in FAULTS:
            for gap in (0, 30):
                yield ("remote", shape, fault, gap)
    for stmt in range(len(STMT)):
        yield ("boxed", [], stmt)
        for b1 in BOX:
            yield ("boxed", [b1], stmt)
            for b2 in BOX:
                n += 1
                yield ("boxed", [b1, b2], stmt)
    for typ in TYPES:
        for wrap in WRAP:
            for use in USES:
                n += 1
                yield ("types", typ, wrap, use, "top")
                if T or n % 4 == 0:
                    yield ("types", typ, wrap, use, "function")
                if T:
                    for pl in places:
                        yield ("types", typ, wrap, use, pl)
    for how in IMPORTS:
        for at in range(len(AT)):
            for byte in range(len(BYTES)):
                if T or how in ("main", "import") or at in (0, 3):
                    yield ("source", how, at, byte)
    for form in DEEP:
        for depth in (list(range(1, 120)) + [150, 200, 300, 500, 1000, 3000]
                      if T else [1, 2, 3, 5, 10, 20, 40, 70, 100, 300, 1000]):
            if depth > 10 and form in ("def", "inline") or \
                    depth > 300 and form in ("while", "if", "for"):
                continue
            yield ("deep", form, depth)
    for i in range(len(LITERALS)):
        for j in range(len(LIT_USE)):
            yield ("literal", i, j)
    for k1 in _KIND:
        for how in HOW:
            yield ("recursion", k1, how)
        for k2 in _KIND:
            for order in (0, 1):
                yield ("mutual", k1, k2, order)
    for i, f in enumerate(LIB):
        slots = list(range(len(f[1]))) + (list(f[2]) if len(f) > 2 else [])
        for use in ("stmt", "var", "const"):
            for pl in places:
                yield ("lib", i, [], pl, use)
        if f[1]:
            yield ("lib", i, [(-2, None)], "top", "var")
        for slot in slots + [-1, "zz"]:
            for kind in KINDS if T else CORE:
                yield ("lib", i, [(slot, kind)], "top", "stmt")
                if T:
                    yield ("lib", i, [(slot, kind)], "const", "stmt")
                    yield ("lib", i, [(slot, kind)], "function", "var")
        if T:
            for s1, s2 in itertools.combinations(slots, 2):
                for k1 in FEW:
                    for k2 in FEW:
                        yield ("lib", i, [(s1, k1), (s2, k2)], "top", "stmt")
    for ctx in TWO:
        for k1 in KINDS if T else FEW:
            for k2 in KINDS if T else FEW:
                yield ("two", k1, k2, ctx, "top")
                if k1 in FEW and k2 in FEW:
                    yield ("two", k1, k2, ctx, "const")


def check(chk):
    chk.map(ME, "batch", items(chk), 60)
    chk.stats.sample({"program": one("list", "aug", "const")[0]})
    chk.bounds = {"values": len(KINDS), "places for one": len(ONE),
                  "places for two": len(TWO), "library calls": len(LIB),
                  "surroundings": list(PLACES), "compound statements":
                  len(BOX), "statements": len(STMT), "nesting": 2,
                  "characters and bytes": len(BYTES), "their places": len(AT),
                  "faults in modules": len(REMOTE) * len(FAULTS),
                  "depth": 3000 if chk.thorough else 1000}


def replay(v):
    bad = verdict(v["make"], v["args"])[2]
    print(bad or "no violation")
    return int(bool(bad))
