"""Every place where a call can stand, for every kind of function.

A callee of each kind (function, inline function, method, ...) and each type of
result changes the global `g` and gives a result that depends on its argument
and on `g`.  The call is written in each place where a value is expected; the
place fixes how many times it runs, and what is observed afterwards is computed
here from that number alone.
"""
from . import cases

TYPES = ("int", "bool", "S", "E")
BODY = {
    "int": "g = g * 10 + k|result k * 3 + g",
    "bool": "g = g * 10 + k|result k > 2",
    "S": "g = g * 10 + k|s := S(a=k * 2, b=k > 2)|s.a += g|result s",
    "E": "g = g * 10 + k|e5.n = g - k|result e5",
}
REF = {
    "int": "g = g * 10 + k|v := k * 3 + g|result v",
    "bool": "g = g * 10 + k|v := k > 2|result v",
    "S": "g = g * 10 + k|s := S(a=k * 2, b=k > 2)|s.a += g|result s",
    "E": "g = g * 10 + k|e5.n = g - k|w := e5|result w",
}
READ = {"int": "{v}", "bool": "(5 * num({v}) + 1)",
        "S": "({v}.a * 2 + num({v}.b))", "E": "{v}.n"}
RUN = {"int": lambda k, g: k * 3 + g,
       "bool": lambda k, g: 5 * (k > 2) + 1,
       "S": lambda k, g: (k * 2 + g) * 2 + (k > 2), "E": lambda k, g: g - k}
# kind -> (check, header of the definition, how it is called)
KINDS = {
    "function": ("C05", "def f{T}(k: int) -> {T}:", "f{T}"),
    "method": ("C05", "m def m{T}(k: int) -> {T}:", "mm.m{T}"),
    "static": ("C05", "m static def s{T}(k: int) -> {T}:", "M.s{T}"),
    "virtual": ("C05", "m virtual def v{T}(k: int) -> {T}:", "mm.v{T}"),
    "inline": ("C06", "inline def i{T}(k: int) -> {T}:", "i{T}"),
    "inline by reference": ("C06", "inline def r{T}(k: int) -> &{T}:", "r{T}"),
    "inline method": ("C06", "m inline def n{T}(k: int) -> {T}:", "mm.n{T}"),
    "inline static": ("C06", "m static inline def o{T}(k: int) -> {T}:",
                      "M.o{T}"),
    "inline virtual": ("C06", "m virtual inline def w{T}(k: int) -> {T}:",
                       "mm.w{T}"),
}


def prelude():
    out = ["struct S:", "    a: int", "    b: bool", "entity E:",
           "    n: int", "    new():", '        new("pig", Pos(0, 0, 0))',
           "        self.n = 0", "/summon player", "e5 := E()", "last: E", "g := 0",
           "def num(x: bool) -> int:", "    r := 0", "    if x:",
           "        r = 1", "    result r"]
    ent = ["entity M:", "    new():", '        new("cow", Pos(0, 0, 0))']
    for k, (_, head, _) in KINDS.items():
        for t in TYPES:
            h, into = head.format(T=t), out
            if h[:2] == "m ":
                h, into = h[2:], ent
            pad = "    " if into is ent else ""
            into.append(pad + h)
            b = REF[t] if "reference" in k else BODY[t]
            into += [pad + "    " + x for x in b.split("|")]
    return "\n".join(out + ent + ["mm := M()"]) + "\n"


PRELUDE = prelude()
# place -> (definitions, lines, how often the call runs); {C} is the call with
# argument `a`, {F} the callee, v the variable that holds the result at the end
SITES = {
    "statement": ("", "{C}|v := {C}", 2),
    "definition": ("", "v := {C}", 1),
    "assignment": ("", "v: {T}|v = {C}", 1),
    "parentheses": ("", "v: {T}|v = ({C})", 1),
    "second assignment": ("", "v := {C}|v = {C}", 2),
    "result": ("def h#(a: int) -> {T}:|>result {C}", "v := h#(a)", 1),
    "result in if": ("def h#(a: int) -> {T}:|>if a > -99:|>>result {C}",
                     "v := h#(a)", 1),
    "results": ("def h#(a: int) -> {T}:|>result {C}|>result {C}",
                "v := h#(a)", 2),
    "result of a result": (
        "def h#(a: int) -> {T}:|>result {C}|def j#(a: int) -> {T}:|"
        ">result h#(a)", "v := j#(a)", 1),
    "inline result": ("inline def h#(a: int) -> {T}:|>result {C}",
                      "v := h#(a)", 1),
    "inline reference result": (
        "inline def h#(a: int) -> &{T}:|>c := {C}|>result c", "v := h#(a)", 1),
    "result of a method": (
        "entity H#:|>new():|>>new(\"pig\", Pos(0, 0, 0))|"
        ">def h(a: int) -> {T}:|>>result {C}|>inline def i(a: int) -> {T}:|"
        ">>result {C}|>static def s(a: int) -> {T}:|>>result {C}|h# := H#()",
        "v := h#.h(a)|v = h#.i(a)|v = H#.s(a)", 3),
    "constructor": ("entity H#:|>x: int|>new(a: int):|"
                    ">>new(\"pig\", Pos(0, 0, 0))|>>y := {C}|"
                    ">>self.x = {R:y}", "e := H#(a)|u := e.x|v := {C}", 2),
    "argument": ("def h#(x: {T}, n: int) -> {T}:|>result x",
                 "v := h#({C}, 1)", 1),
    "keyword": ("def h#(n: int, x: {T}) -> {T}:|>result x",
                "v := h#(x={C}, n=1)", 1),
    "inline argument": ("inline def h#(x: {T}) -> {T}:|>result x",
                        "v := h#({C})", 1),
    "own argument": ("def h#(x: {T}) -> int:|>result {R:x}",
                     "y := h#({C})|v := {C}", 2),
    "field": ("struct Z#:|>x: {T}|>n: int",
              "z := Z#(n=3)|z.x = {C}|v := z.x", 1),
    "constructor field": ("struct Z#:|>n: int|>x: {T}",
                          "z := Z#(x={C}, n=4)|v := z.x", 1),
    "reader": ("", "v := {C}|if {R:v} > -99:|>v = {C}", 2),
    "if": ("", "v: {T}|if a > -99:|>v = {C}|if a < -99:|>v = {C}", 1),
    "else": ("", "v: {T}|if a < -99:|>v = {C}|>v = {C}|else:|>v = {C}", 1),
    "while": ("", "v: {T}|i := 0|while i < 3:|>v = {C}|>i += 1", 3),
    "for": ("", "v: {T}|for i in {{1, 2}}:|>v = {C}", 2),
    "group": ("", "v: {T}|G := Engroup[M]()|G.add(mm)|"
              "for m in G:|>v = {C}", 1),
    "reference": ("", "t := {C}|&v = t", 1),
    "swap": ("", "v := {C}|t := {C}|swap(v, t)", 2),
}
INT = {
    "augmented": ("", "v := 4|v += {C}", 1, lambda x: x + 4),
    "sum": ("", "v := 4 + {C}", 1, lambda x: x + 4),
    "negative": ("", "v := -{C}", 1, lambda x: -x),
    "score": ("", 'scb("t", "io") = {C}|v := scb("t", "io")', 1, lambda x: x),
    "comparison": ("", "v := 7|if {C} > -2000000000:|>v = 9", 1, lambda x: 9),
    "loop condition": ("", "v := 0|while {C} * 0 + v < 2:|>v += 1", 3,
                       lambda x: 2),
    "entity field": ("entity H#:|>x: int|>new():|>>new(\"pig\", Pos(0, 0, 0))"
                     "|h# := H#()", "h#.x = {C}|v := h#.x", 1, lambda x: x),
}
BOOL = {
    "condition": ("", "w := 3|if {C}:|>w = 6|else:|>w = 1|v := w == 6", 1, 0),
    "not": ("", "v := not {C}", 1, 1),
    "double not": ("", "v := not (not {C})", 1, 0),
    "and": ("", "t := a > -99|v := t and {C}", 1, 0),
    "or": ("", "t := a < -99|v := {C} or t", 1, 0),
    "elif": ("", "w := 0|if a < -99:|>w = 2|elif {C}:|>w = 6|v := w == 6",
             1, 0),
    "entity field": ("entity H#:|>x: bool|>new():|>>new(\"pig\","
                     " Pos(0, 0, 0))|h# := H#()", "h#.x = {C}|v := h#.x",
                     1, 0),
}
ARGS = (0, 1, 4, -3)


def text(tpl, kind, t, i):
    f = KINDS[kind][2].format(T=t)
    r = READ[t]
    out = tpl.replace("{C}", f + "(a)").replace("{F}", f).replace("{T}", t)
    for n in "vxy":
        out = out.replace("{R:%s}" % n, r.format(v=n))
    out = out.replace("{{", "{").replace("}}", "}").replace("#", str(i))
    return [x.lstrip(">").rjust(len(x.lstrip(">")) + 4 * (
        len(x) - len(x.lstrip(">")))) for x in out.split("|")] if out else []


def case(i, item):
    kind, t, place = item
    table = {"int": INT, "bool": BOOL}.get(t, {})
    post = None
    if place in SITES:
        defs, lines, n = SITES[place]
    else:
        defs, lines, n, post = table[place]
    exp = []
    for k in ARGS:
        g = 0
        for _ in range(n):
            g = g * 10 + k
        x = RUN[t](k, g)
        if post is not None and t == "int":
            x = post(x)
        elif post is not None and post:
            x = 7 - x
        exp.append({"r": x, "g": g})
    return {"key": "%s -> %s: %s" % item,
            "defs": "\n".join(text(defs, kind, t, i)),
            "body": ["g = 0", 'a := scb("p", "io")'] + text(
                lines, kind, t, i) + [
                    'scb("r", "io") = ' + READ[t].format(v="v"),
                    'scb("g", "io") = g'],
            "inputs": [{"p": k} for k in ARGS], "expect": exp}


def batch(chunk, st):
    cases.run_batch([case(i, x) for i, x in enumerate(chunk)], st, PRELUDE)


def items(prop):
    for kind, (p, _, _) in KINDS.items():
        if p != prop:
            continue
        for t in TYPES:
            for place in list(SITES) + list({"int": INT, "bool": BOOL}.get(
                    t, {})):
                yield kind, t, place
