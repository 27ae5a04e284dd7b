"""C29: values are accepted exactly where their kind allows it.

Every kind of value is put in every kind of place (and every pair of kinds
around every binary operator, every kind against every type annotation) and
the verdict is compared to a reference table. A refusal must name one of the
rules that the program really breaks."""
import re

from .. import core, mc

ME = __name__

# name -> (lines, names it needs)
PIECES = {
    "math": "import math", "print": "import print", "world": "import world",
    "schedule": "import schedule",
    "Base": "entity Base:\n    fi: int\n    def m():\n        pass",
    "Sub": "entity Sub extends Base:\n    pass",
    "Oth": "entity Oth:\n    pass",
    "S": "struct S:\n    n: int",
    "S2": "struct S2 extends S:\n    q: bool",
    "Z": "struct Z:\n    z: int",
    "SE": "struct SE:\n    k: Entity",
    "fn": "def fn() -> int:\n    result 1",
    "inl": "inline def inl() -> int:\n    result 1",
    "cfn": "const def cfn() -> int:\n    result 1",
    "i": "i := 5", "b": "b := True", "nn": "nn := None",
    "e": 'e: Base = Base("pig", Pos(1, 2, 3))',
    "sub": 'sub: Sub = Sub("pig", Pos(1, 2, 3))',
    "oth": 'oth: Oth = Oth("pig", Pos(1, 2, 3))',
    "ss": "ss: S = S()", "ss2": "ss2 := S2()", "zz": "zz := Z()",
    "se": "se := SE()", "g": "g := Engroup[Base]()",
    "gs": "gs := Engroup[Sub]()", "xg": "xg: ExternEngroup = ExternEngroup()",
    "k3": "const k3 = 3", "tk": "const tk = schedule.Task(fn)",
}
ORDER = list(PIECES)

# name -> (expression, type, constant?, assignable?, compile-time name?)
VALUES = {
    "intL": ("5", "int", 1, 0), "intV": ("i", "int", 0, 1),
    "intE": ("(i + 1)", "int", 0, 0), "intC": ("k3", "int", 1, 0),
    "field": ("e.fi", "int", 0, 1), "sfield": ("ss.n", "int", 0, 1),
    "call": ("fn()", "int", 0, 0), "callI": ("inl()", "int", 0, 0),
    "callC": ("cfn()", "int", 1, 0),
    "elem": ("{5, 6}[1]", "int", 1, 0),
    "boolL": ("True", "bool", 1, 0), "boolV": ("b", "bool", 0, 1),
    "boolE": ("(i > 3)", "bool", 0, 0), "boolF": ("False", "bool", 1, 0),
    "none": ("None", "None", 1, 0),
    "str": ('"q"', "str", 1, 0), "float": ("1.5", "float", 1, 0),
    "list": ("{1, 2}", "list", 1, 0), "listE": ("{}", "list", 1, 0),
    "map": ("{1: 2}", "map", 1, 0), "mapE": ("{:}", "map", 1, 0),
    "pos": ("Pos(1, 2, 3)", "Pos", 1, 0),
    "abspos": ("AbsPos(1, 2, 3)", "AbsPos", 1, 0),
    "off": ("Offset(1, 2, 3)", "Offset", 1, 0),
    "rot": ("Rot(0, 0)", "Rot", 1, 0),
    "ent": ("e", "Base", 0, 1), "sub": ("sub", "Sub", 0, 1),
    "oth": ("oth", "Oth", 0, 1),
    "up": ("upcast(sub, Base)", "Sub", 0, 2),
    "grp": ("g", "Engroup[Base]", 0, 1), "grpS": ("gs", "Engroup[Sub]", 0, 1),
    "xgrp": ("xg", "ExternEngroup", 0, 1),
    "filt": ("Enfilter()", "Enfilter", 1, 0),
    "fstr": ('print.format("a")', "fstr", 1, 0),
    "item": ('world.Item("apple")', "world.Item", 1, 0),
    "block": ('world.Block("stone")', "world.Block", 1, 0),
    "fn": ("fn", "fun", 1, 0), "inl": ("inl", "fun", 1, 0),
    "cfn": ("cfn", "fun", 1, 0), "bfn": ("print.tell", "fun", 1, 0),
    "meth": ("e.m", "fun", 1, 0),
    "st": ("ss", "S", 0, 1), "st2": ("ss2", "S2", 0, 1),
    "stz": ("zz", "Z", 0, 1), "ste": ("se", "SE", 0, 1),
    "stN": ("S()", "S", 0, 2),
    "S": ("S", "stemplate", 1, 0), "E": ("Base", "etemplate", 1, 0),
    "type": ("int", "type", 1, 0), "gen": ("Engroup", "generic", 1, 0),
    "gent": ("Engroup[Base]", "type", 1, 0),
    "mod": ("math", "module", 1, 0),
}
BASES = {
    "AbsPos": {"Pos", "Offset"}, "Sub": {"Base", "Entity"},
    "Base": {"Entity"}, "Oth": {"Entity"}, "S2": {"S"},
    "Engroup[Base]": {"Engroup[Entity]"},
    "Engroup[Sub]": {"Engroup[Entity]", "Engroup[Base]"},
}
ENTITIES = {"Base", "Sub", "Oth", "Entity"}
STRUCTS = {"S", "S2", "Z", "SE"}
GROUPS = {"Engroup[Base]", "Engroup[Sub]", "Engroup[Entity]", "ExternEngroup"}
STORABLE = {"int", "bool", "None"} | ENTITIES | STRUCTS | GROUPS
TYPES = ["int", "bool", "None", "Pos", "Rot", "Offset", "AbsPos", "Enfilter",
         "list", "map", "float", "Any", "ExternEngroup", "Base", "Sub", "Oth",
         "Entity", "S", "S2", "Z", "SE", "Engroup[Base]", "Engroup[Sub]",
         "Engroup[Entity]", "world.Item", "world.Block"]


class V:
    def __init__(self, name):
        self.name = name
        self.expr, self.ty, self.const, self.lv = VALUES[name]

    @property
    def storable(self):
        return self.ty in STORABLE

    def isa(self, t):
        return t == "Any" or t == self.ty or t in BASES.get(self.ty, ())


def when(c, *errs):
    return set(errs) if c else set()


# ---------------------------------------------------------------------------
# One value in one place: name -> (text, rule)

def _storeonly(err):
    return lambda v: when(not v.storable, err)


def _const(err):
    return lambda v: when(not v.const, err)


def _lv(err):
    return lambda v: when(not v.lv, err)


def _ints(v):
    return when(v.ty not in ("int", "float"), "INVALID_OPERAND") \
        | when(v.ty == "float", "UNSUPPORTED_VAR_TYPE")


def _call(v):
    if v.name in ("fn", "inl", "cfn", "meth", "S", "gent"):
        return set()
    if v.name in ("bfn", "E", "type"):
        return {"MISSING_ARG"}
    return {"UNCALLABLE"}


def _item(i):
    def f(v):
        if v.ty == "list":
            return when(v.name == "listE", "LIST_INDEX_OUT_OF_BOUNDS")
        if v.ty == "map":
            return when(i == 0 or v.name == "mapE", "MAP_KEY_NOT_FOUND")
        if v.ty == "generic":
            return {"WRONG_ARG_TYPE"}
        return {"NO_GETITEM"}
    return f


def _fmt(v):
    ok = v.ty in ("int", "bool", "None", "str", "float") and v.const \
        or v.ty in ENTITIES
    return when(not ok, "INVALID_FEXPR")


def _print(v):
    ok = v.ty in ENTITIES or v.ty in GROUPS
    return when(not ok, "WRONG_ARG_TYPE")


def _while(v):
    return when(v.ty != "bool", "WRONG_WHILE_CONDITION") \
        | when(v.name == "boolL", "ENDLESS_WHILE_LOOP")


def _asg(v):
    # a value that was just created may be changed in place
    return when(not v.lv, "INVALID_ASSIGN_TARGET") \
        | when(v.ty != "int", "WRONG_ASSIGN_TYPE")


def _aug(v):
    return when(not v.lv, "INVALID_ASSIGN_TARGET") \
        | when(v.ty != "int", "INVALID_OPERAND")


def _dflt(v):
    return when(not v.storable, "UNSUPPORTED_ARG_TYPE") \
        | when(not v.const, "NONREF_ARG_DEFAULT_NOT_CONST")


def _key(v):
    return when(not v.const, "ELEMENT_NOT_CONST") \
        | when(v.ty not in ("int", "bool", "str", "float", "list"),
               "INVALID_MAP_KEY")


UNARY = {
    "vardef": ("x := {}", _storeonly("UNSUPPORTED_VAR_TYPE")),
    "ref": ("&x = {}", _lv("CANT_REF")),
    "const": ("const x = {}", _const("NOT_CONST")),
    "if": ("if {}:\n    pass",
           lambda v: when(v.ty != "bool", "WRONG_IF_CONDITION")),
    "elif": ("if False:\n    pass\nelif {}:\n    pass",
             lambda v: when(v.ty != "bool", "WRONG_IF_CONDITION")),
    "while": ("while {}:\n    pass", _while),
    "neg": ("x := -{}", _ints), "pos": ("x := +{}", _ints),
    "cneg": ("const x = -{}", lambda v: when(
        v.ty not in ("int", "float"), "INVALID_OPERAND") | when(
        not v.const, "NOT_CONST")),
    "not": ("x := not {}",
            lambda v: when(v.ty != "bool", "INVALID_OPERAND")),
    "call": ("{}()", _call),
    "attr": ("{}.zork", lambda v: {
        "MODULE_NO_ATTRIBUTE", "HAS_NO_ATTRIBUTE"}),
    "item0": ("{}[0]", _item(0)), "item1": ("const x = {}[1]", _item(1)),
    "for": ("for x in {}:\n    pass", lambda v: when(
        v.ty not in ("list", "map") and v.ty not in GROUPS, "NOT_ITERABLE")),
    "cmd": ("/say ${{{}}}", _fmt), "fstring": ('const x = "${{{}}}"', _fmt),
    "who": ('print.tell("a", {})', _print),
    "type": ("def x(p: {}):\n    pass", lambda v: when(
        v.name not in ("none", "S", "E", "type", "gent"),
        "INVALID_TYPE_SPEC")),
    "vtype": ("x: {}", lambda v: when(
        v.name not in ("none", "S", "E", "type", "gent"),
        "INVALID_TYPE_SPEC")),
    "extends": ("entity X extends {}:\n    pass",
                lambda v: when(v.name != "E", "INVALID_ETEMPLATE")),
    "sextends": ("struct X extends {}:\n    pass",
                 lambda v: when(v.name != "S", "INVALID_STEMPLATE")),
    "elem": ("const x = {{1, {}}}", _const("ELEMENT_NOT_CONST")),
    "relem": ("{{{}}}", _const("ELEMENT_NOT_CONST")),
    "key": ("const x = {{{}: 1}}", _key),
    "value": ("const x = {{1: {}}}", _const("ELEMENT_NOT_CONST")),
    "stmt": ("{}", lambda v: set()),
    "and": ("x := True and {}",
            lambda v: when(v.ty != "bool", "INVALID_BOOLOP_OPERAND")),
    "or": ("x := {} or b",
           lambda v: when(v.ty != "bool", "INVALID_BOOLOP_OPERAND")),
    "assign": ("{} = 5", _asg), "aug": ("{} += 1", _aug),
    "dflt": ("def x(p = {}):\n    pass", _dflt),
    "idflt": ("inline def x(p = {}):\n    pass",
              _const("NONREF_ARG_DEFAULT_NOT_CONST")),
    "cdflt": ("inline def x(const p = {}):\n    pass",
              lambda v: when(not v.const, "ARG_DEFAULT_NOT_CONST",
                             "NONREF_ARG_DEFAULT_NOT_CONST")),
    "rdflt": ("inline def x(&p = {}):\n    pass", _lv("CANT_REF_ARG")),
    "result": ("inline def x():\n    result {}\nx()", lambda v: when(
        v.ty != "None", "WRONG_RESULT_TYPE")),
    "cparam": ("inline def x(const p):\n    pass\nx({})",
               _const("ARG_NOT_CONST")),
    "rparam": ("inline def x(&p):\n    pass\nx({})", _lv("CANT_REF_ARG")),
    "vparam": ("inline def x(p):\n    pass\nx({})",
               _storeonly("UNSUPPORTED_ARG_TYPE")),
    "objective": ('y := scb("a", {})',
                  lambda v: when(v.ty != "str", "WRONG_ARG_TYPE")),
    "upcast": ("upcast({}, Entity)", lambda v: when(
        v.ty not in ENTITIES, "WRONG_ARG_TYPE")),
    "upcastT": ("upcast(e, {})",
                lambda v: when(v.ty != "etemplate", "WRONG_ARG_TYPE")),
    "generic": ("x := Engroup[{}]()",
                lambda v: when(v.ty != "etemplate", "WRONG_ARG_TYPE")),
    "is": ("f := 1\nconst x = Enfilter().has_tag({})",
           lambda v: when(v.ty != "str", "WRONG_ARG_TYPE")),
    "add": ("g.add({})", lambda v: when(
        not v.isa("Base") or v.ty == "Any", "WRONG_ARG_TYPE")),
    "from": ("x := fn()\nx = {}", lambda v: when(
        v.ty != "int", "WRONG_ASSIGN_TYPE")),
    "task": ("const x = schedule.Task({})", lambda v: {
        "UNCALLABLE": {"WRONG_ARG_TYPE"}}.get("".join(_call(v)), _call(v))),
    "loop": ("schedule.register_loop({})", lambda v: {
        "UNCALLABLE": {"WRONG_ARG_TYPE"}}.get("".join(_call(v)), _call(v))),
    "interval": ("schedule.register_loop(fn, interval={})", lambda v: when(
        v.ty != "int", "WRONG_ARG_TYPE")),
    "after": ("tk.after({})", lambda v: when(v.ty != "int",
                                             "WRONG_ARG_TYPE")),
    "coord": ("const x = Pos({}, 2, 3)", lambda v: when(
        not v.const or v.ty not in ("int", "float"), "ANY")),
}

# ---------------------------------------------------------------------------
# One value against one type

def _conv(v, t):
    """constant integers passed as arguments become floats"""
    return v.isa(t) or t == "float" and v.ty == "int" and v.const


def _declared(err, typeerr):
    def f(v, t):
        return when(t not in STORABLE, err) | when(not v.isa(t), typeerr)
    return f


TYPED = {
    "vardef": ("x: {t} = {v}",
               _declared("UNSUPPORTED_VAR_TYPE", "WRONG_ASSIGN_TYPE")),
    "ref": ("&x: {t} = {v}", lambda v, t: when(not v.lv, "CANT_REF")
            | when(not v.isa(t), "WRONG_REF_TYPE")),
    "const": ("const x: {t} = {v}", lambda v, t: when(
        not v.const, "NOT_CONST") | when(not v.isa(t), "WRONG_CONST_TYPE")),
    "param": ("def x(p: {t}):\n    pass\nx({v})",
              _declared("UNSUPPORTED_ARG_TYPE", "WRONG_ARG_TYPE")),
    "iparam": ("inline def x(p: {t}):\n    pass\nx({v})", lambda v, t: when(
        not v.storable, "UNSUPPORTED_ARG_TYPE")
        | when(not v.isa(t), "WRONG_ARG_TYPE", *when(
            t == "float", "UNSUPPORTED_ARG_TYPE"))),
    "rparam": ("inline def x(&p: {t}):\n    pass\nx({v})",
               lambda v, t: when(not v.lv, "CANT_REF_ARG")
               | when(not v.isa(t), "WRONG_ARG_TYPE")),
    "cparam": ("inline def x(const p: {t}):\n    pass\nx({v})",
               lambda v, t: when(not v.const, "ARG_NOT_CONST")
               | when(not _conv(v, t), "WRONG_ARG_TYPE")),
    "kparam": ("def x(q: int, p: {t} = None):\n    pass\nx(1, p={v})",
               lambda v, t: _declared(
                   "UNSUPPORTED_ARG_TYPE", "WRONG_ARG_TYPE")(v, t)
               | when(t not in ("None", "Any"),
                      "UNMATCHED_ARG_DEFAULT_TYPE")),
    "mparam": ("entity X:\n    def x(p: {t}):\n        pass\n"
               'y := X("pig", Pos(1, 2, 3))\ny.x({v})',
               _declared("UNSUPPORTED_ARG_TYPE", "WRONG_ARG_TYPE")),
    "result": ("def x() -> {t}:\n    result {v}",
               _declared("UNSUPPORTED_RESULT_TYPE", "WRONG_RESULT_TYPE")),
    "iresult": ("inline def x() -> {t}:\n    result {v}\nx()",
                lambda v, t: when(not v.storable, "UNSUPPORTED_RESULT_TYPE")
                | when(not v.isa(t), "WRONG_RESULT_TYPE")),
    "results": ("y: {t}\ninline def x() -> Any:\n    result y\n"
                "    result {v}\nx()", lambda v, t: when(
                    t not in STORABLE, "UNSUPPORTED_VAR_TYPE")
                | when(not v.storable, "UNSUPPORTED_RESULT_TYPE")
                | when(not v.isa(t), "WRONG_RESULT_TYPE")),
    "rresult": ("inline def x() -> &{t}:\n    result {v}\nx()",
                lambda v, t: when(not v.lv, "CANT_REF_RESULT")
                | when(not v.isa(t), "WRONG_RESULT_TYPE")),
    "cresult": ("inline def x() -> const {t}:\n    result {v}\nx()",
                lambda v, t: when(not v.const, "RESULT_NOT_CONST")
                | when(not v.isa(t), "WRONG_RESULT_TYPE")),
    "dflt": ("def x(p: {t} = {v}):\n    pass",
             lambda v, t: when(t not in STORABLE, "UNSUPPORTED_ARG_TYPE")
             | when(not v.const, "NONREF_ARG_DEFAULT_NOT_CONST")
             | when(not v.isa(t), "UNMATCHED_ARG_DEFAULT_TYPE")),
    "idflt": ("inline def x(p: {t} = {v}):\n    pass",
              lambda v, t: when(not v.const, "NONREF_ARG_DEFAULT_NOT_CONST")
              | when(not v.isa(t), "UNMATCHED_ARG_DEFAULT_TYPE")),
    "cdflt": ("inline def x(const p: {t} = {v}):\n    pass",
              lambda v, t: when(not v.const, "ARG_DEFAULT_NOT_CONST",
                                "NONREF_ARG_DEFAULT_NOT_CONST")
              | when(not v.isa(t), "UNMATCHED_ARG_DEFAULT_TYPE")),
    "rdflt": ("inline def x(&p: {t} = {v}):\n    pass",
              lambda v, t: when(not v.lv, "CANT_REF_ARG")
              | when(not v.isa(t), "UNMATCHED_ARG_DEFAULT_TYPE")),
    "assign": ("x: {t}\nx = {v}",
               _declared("UNSUPPORTED_VAR_TYPE", "WRONG_ASSIGN_TYPE")),
    "sassign": ("struct X:\n    f: {t}\nx := X()\nx.f = {v}",
                _declared("UNSUPPORTED_SFIELD_TYPE", "WRONG_ASSIGN_TYPE")),
    "snew": ("struct X:\n    f: {t}\nx := X(f={v})",
             _declared("UNSUPPORTED_SFIELD_TYPE", "WRONG_ARG_TYPE")),
    "eassign": ("entity X:\n    f: {t}\n"
                'x := X("pig", Pos(1, 2, 3))\nx.f = {v}',
                lambda v, t: when(
                    t not in {"int", "bool", "None"} | STRUCTS,
                    "UNSUPPORTED_EFIELD_TYPE")
                | when(t == "SE", "UNSUPPORTED_EFIELD_IN_STRUCT")
                | when(not v.isa(t), "WRONG_ASSIGN_TYPE")),
}

# ---------------------------------------------------------------------------
# Two values around an operator

ARITH = ("+", "-", "*", "/", "%")
CMP = ("==", "!=", "<", "<=", ">", ">=")


def _binary(op, a, b):
    """-> (errors, constant result?, type)"""
    if op in ("and", "or"):
        if a.ty != "bool" or b.ty != "bool":
            return {"INVALID_BOOLOP_OPERAND"}, 0, None
        decides = {"and": "boolF", "or": "boolL"}[op]
        c = a.const and b.const or decides in (a.name, b.name)
        return set(), c, "bool"
    c = a.const and b.const
    t = (a.ty, b.ty)
    bad = {"INVALID_OPERAND"}
    if op in CMP:
        ok = t == ("int", "int") or t == ("bool", "bool") and op in CMP[:2]
        return set() if ok else bad, c, "bool"
    if t == ("int", "int"):
        return set(), c, "int"
    if set(t) <= {"int", "float"} and c:
        return set(), 1, "float"
    if op == "+":
        if t == ("str", "str"):
            return set(), 1, "str"
        if t in (("fstr", "fstr"), ("str", "fstr"), ("fstr", "str")):
            return set(), 1, "fstr"
        if t == ("list", "list"):
            return set(), 1, "list"
    if op == "*" and t == ("list", "int"):
        return when(not b.const, "LIST_MULTIMES_NON_LITERAL"), 1, "list"
    return bad, 0, None


def rule_const(op):
    def f(a, b):
        e, c, _ = _binary(op, a, b)
        return e | when(not e and not c, "NOT_CONST")
    return f


def rule_stmt(op):
    return lambda a, b: _binary(op, a, b)[0]


def rule_var(op):
    def f(a, b):
        e, _, t = _binary(op, a, b)
        return e | when(not e and t not in STORABLE, "UNSUPPORTED_VAR_TYPE")
    return f


def rule_cond(op):
    def f(a, b):
        e, _, t = _binary(op, a, b)
        return e | when(not e and t != "bool", "WRONG_IF_CONDITION")
    return f


def rule_aug(op):
    def f(a, b):
        bad = when(not a.lv, "INVALID_ASSIGN_TARGET")
        if a.ty in GROUPS and op in "+-":
            return bad | when(not b.isa(a.ty), "WRONG_ARG_TYPE",
                              "INVALID_OPERAND")
        return bad | when((a.ty, b.ty) != ("int", "int"), "INVALID_OPERAND")
    return f


def rule_assign(a, b):
    return when(not a.lv, "INVALID_ASSIGN_TARGET") \
        | when(not b.isa(a.ty), "WRONG_ASSIGN_TYPE")


def rule_swap(a, b):
    return when(not (a.lv and b.lv and a.ty == b.ty),
                "INVALID_BIN_FUNC_ARG")


BINARY = {}
for _op in ARITH + CMP + ("and", "or"):
    BINARY["const " + _op] = ("const x = {a} %s {b}" % _op, rule_const(_op))
    BINARY["stmt " + _op] = ("{a} %s {b}" % _op, rule_stmt(_op))
    BINARY["var " + _op] = ("x := {a} %s {b}" % _op, rule_var(_op))
for _op in CMP + ("and", "or"):
    BINARY["if " + _op] = ("if {a} %s {b}:\n    pass" % _op, rule_cond(_op))
for _op in ARITH:
    BINARY["aug " + _op] = ("{a} %s= {b}" % _op, rule_aug(_op))
BINARY["assign"] = ("{a} = {b}", rule_assign)
BINARY["swap"] = ("swap({a}, {b})", rule_swap)


# ---------------------------------------------------------------------------
# Constant functions: everything is a constant there

def _cis(err, *tys):
    return lambda v: when(v.ty not in tys, err)


def _citem(i):
    def f(v):
        if v.ty in ("list", "map"):
            return _item(i)(v)
        return {"NO_GETITEM", "HAS_NO_ATTRIBUTE"}
    return f


def _ccall(v):
    return when(v.name == "type", "MISSING_ARG") \
        | when(v.name not in ("type", "cfn"), "UNCALLABLE")


_key_ = _cis("INVALID_MAP_KEY", "int", "bool", "str", "float", "list")
CUNARY = {
    "not": ("result not a", _cis("INVALID_OPERAND", "bool")),
    "neg": ("result -a", _cis("INVALID_OPERAND", "int", "float")),
    "pos": ("result +a", _cis("INVALID_OPERAND", "int", "float")),
    "item0": ("result a[0]", _citem(0)), "item1": ("result a[1]", _citem(1)),
    "call": ("result a()", _ccall),
    "attr": ("result a.zork", lambda v: {"HAS_NO_ATTRIBUTE",
                                         "MODULE_NO_ATTRIBUTE"}),
    "fmt": ('result "${a}"', lambda v: when(
        v.ty not in ("int", "bool", "str", "float", "None"), "INVALID_FEXPR")
        | when(v.ty == "None", "INVALID_FEXPR", None)),
    "elem": ("result {a}", lambda v: set()),
    "key": ("result {a: 1}", _key_), "value": ("result {1: a}",
                                               lambda v: set()),
    "and": ("result True and a", _cis("INVALID_BOOLOP_OPERAND", "bool")),
    "or": ("result a or False", _cis("INVALID_BOOLOP_OPERAND", "bool")),
    "if": ("if a:\n        pass\n    result 1",
           _cis("WRONG_IF_CONDITION", "bool")),
    "while": ("while a:\n        a = False\n    result 1",
              _cis("WRONG_WHILE_CONDITION", "bool")),
    "for": ("for q in a:\n        pass\n    result 1",
            _cis("NOT_ITERABLE", "list", "map")),
    "aug": ("a += 1\n    result a",
            _cis("INVALID_OPERAND", "int", "float")),
    "def": ("x := a\n    result x", lambda v: set()),
    "set": ("x := 1\n    x = a\n    result x", lambda v: set()),
    "ref": ("&x = a\n    result x", lambda v: set()),
}
CTYPED = {
    "def": ("const def x(a) -> Any:\n    x: {t} = a\n    result x\n"
            "const r = x({v})", "WRONG_ASSIGN_TYPE"),
    "ref": ("const def x(a) -> Any:\n    &x: {t} = a\n    result x\n"
            "const r = x({v})", "WRONG_REF_TYPE"),
    "param": ("const def x(a: {t}):\n    pass\nx({v})", "WRONG_ARG_TYPE"),
    "kparam": ("const def x(b: int, a: {t} = {v}):\n    pass\nx(1)",
               "UNMATCHED_ARG_DEFAULT_TYPE"),
    "result": ("const def x() -> {t}:\n    result {v}\nx()",
               "WRONG_RESULT_TYPE"),
}
CTYPES = ["int", "bool", "None", "Pos", "Rot", "Offset", "AbsPos", "Enfilter",
          "list", "map", "float", "Any", "world.Item", "world.Block"]


def cbinary(op):
    def f(a, b):
        t = (a.ty, b.ty)
        if op in ("and", "or"):
            return when(t != ("bool", "bool"), "INVALID_BOOLOP_OPERAND")
        bad = {"INVALID_OPERAND"}
        if op in CMP:
            return when(not (t == ("int", "int") or t == ("bool", "bool")
                             and op in CMP[:2]), "INVALID_OPERAND")
        if set(t) <= {"int", "float"}:
            return set()
        if op == "+" and t in (("str", "str"), ("fstr", "fstr"),
                               ("str", "fstr"), ("fstr", "str")):
            return set()
        return bad
    return f


def cprogram(body, *vs):
    names = "ab"[:len(vs)]
    return "const def x(%s) -> Any:\n    %s\nconst r = x(%s)" % (
        ", ".join(names), body, ", ".join(v.expr for v in vs))


# ---------------------------------------------------------------------------

def program(text):
    need = set()
    todo = [text]
    while todo:
        for w in re.findall(r"[A-Za-z_]\w*", todo.pop()):
            if w in PIECES and w not in need:
                need.add(w)
                todo.append(PIECES[w])
    return "".join(PIECES[n] + "\n" for n in ORDER if n in need) + text + "\n"


def judge(key, text, errs, st):
    src = program(text)
    out = core.compile_files({"main.aca": src})
    st.programs += 1
    st.states += 1
    st.transitions += 1
    what = None
    if out.crash:
        what = "compiler crashed:\n%s" % out.crash
    elif out.ok:
        st.outcome("accepted")
        if errs - {None} and None not in errs:
            what = "accepted, but it must be refused (%s)" \
                % " or ".join(sorted(errs))
        else:
            prog = mc.Program(out.files)
            if prog.malformed:
                what = "malformed command %r" % (prog.malformed[0],)
    else:
        st.outcome(out.etype)
        if not errs:
            what = "must be accepted, but: %s" % out.error
        elif out.etype not in errs:
            errs = errs - {None}
            what = "refused for the wrong reason: %s instead of %s" % (
                out.etype, " or ".join(sorted(errs)))
    if what:
        st.violations.append({"key": key, "kind": "typerule", "what":
                              what + "\n" + src})


def resolve(item):
    kind, ctx, args = item
    if kind == "unary":
        t, rule = UNARY[ctx]
        v = V(args[0])
        return t.format(v.expr), rule(v)
    if kind == "typed":
        t, rule = TYPED[ctx]
        v = V(args[0])
        return t.format(v=v.expr, t=args[1]), rule(v, args[1])
    if kind == "cunary":
        t, rule = CUNARY[ctx]
        v = V(args[0])
        return cprogram(t, v), rule(v)
    if kind == "ctyped":
        t, err = CTYPED[ctx]
        v = V(args[0])
        return t.format(t=args[1], v=v.expr), when(not v.isa(args[1]), err)
    if kind == "cbinary":
        a, b = V(args[0]), V(args[1])
        return cprogram("result a %s b" % ctx, a, b), cbinary(ctx)(a, b)
    t, rule = BINARY[ctx]
    a, b = V(args[0]), V(args[1])
    return t.format(a=a.expr, b=b.expr), rule(a, b)


def batch(chunk, st):
    for item in chunk:
        text, errs = resolve(item)
        judge("%s %s %s" % (item[0], item[1], " ".join(item[2])), text, errs,
              st)


SAME = {"intC", "callI", "callC", "elem", "boolF", "listE", "mapE", "stN",
        "up", "gent", "bfn", "cfn", "inl", "field", "call", "Z", "stz"}


def items(thorough):
    for c in UNARY:
        for v in VALUES:
            yield "unary", c, (v,)
    for c in TYPED:
        for v in VALUES:
            if v in SAME and not thorough:
                continue
            for t in TYPES:
                yield "typed", c, (v, t)
    for c in BINARY:
        if not thorough and (c.startswith("stmt") or c in (
                "if <", "if <=", "if >", "if >=", "const <=", "const >",
                "const >=")):
            continue
        for a in VALUES:
            for b in VALUES:
                if not thorough and (a in SAME or b in SAME):
                    continue
                yield "binary", c, (a, b)


def citems():
    vs = [v for v in VALUES if VALUES[v][2] and (
        v not in SAME or v in ("boolF", "listE", "mapE", "cfn"))
        and v != "meth"]
    for c in CUNARY:
        for v in vs:
            yield "cunary", c, (v,)
    for c in CTYPED:
        for v in vs:
            for t in CTYPES:
                yield "ctyped", c, (v, t)
    for c in ARITH + CMP + ("and", "or"):
        for a in vs:
            for b in vs:
                yield "cbinary", c, (a, b)


def check(chk):
    its = list(items(chk.thorough)) + list(citems())
    chk.map(ME, "batch", its, 100)
    chk.bounds = {"values": "%d kinds" % len(VALUES),
                  "places": "%d alone, %d with each of %d types, %d operators"
                  % (len(UNARY), len(TYPED), len(TYPES), len(BINARY))}
    chk.assumptions = ["an error may name any of the broken rules"]


def replay(v):
    for item in list(items(True)) + list(citems()):
        if "%s %s %s" % (item[0], item[1], " ".join(item[2])) == v["key"]:
            st = core.Stats()
            batch([item], st)
            for x in st.violations:
                print(x["what"])
            return int(bool(st.violations))
    return 1
