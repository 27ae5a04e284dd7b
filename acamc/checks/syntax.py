"""C20: the parser accepts the language's grammar, builds the tree it
prescribes, and reports the first token that cannot go on.

All sequences of tokens up to a bound over several alphabets are followed
through the reference grammar (refgram.py). Every beginning of a program is
completed in a shortest way and the tree compared; every token that cannot
follow it is tried and must be reported at its place."""
import io
import itertools

from .. import core, refgram as rg

ME = __name__

# kind: [(text, value)]
SPELL = {"ID": [("a", "a"), ("b", "b")], "NUM": [("1", 1), ("2.5", 2.5)],
         "STR": [('"s"', "s"), ('""', "")], "STR${": [('"t${', "t")],
         "}STR": [('}u"', "u")], "}STR${": [("}${", "")],
         "CMD": [("/c", "c")], "CMD${": [("/d${", "d")],
         "}CMD": [("}e", "e")], "}CMD${": [("}f${", "f")],
         "IFACE": [("interface p/q", "p/q")]}
MIN = {}        # nonterminal: shortest sequence of tokens


def _init():
    if MIN:
        return
    pref = {"BODY": 0.5}
    cost = {}
    changed = True
    while changed:
        changed = False
        for nt, alts in rg.G.items():
            for syms, _ in alts:
                c, seq = 0, ()
                for s in syms:
                    if s in rg.G:
                        if s not in cost:
                            break
                        c += cost[s]
                        seq += MIN[s]
                    else:
                        c += pref.get(s, 1)
                        seq += (s,)
                else:
                    if nt not in cost or c < cost[nt]:
                        cost[nt] = c
                        MIN[nt] = seq
                        changed = True


def complete(closed):
    """A shortest sequence of tokens that completes a program."""
    best = None
    for stack, _ in closed:
        seq = []
        while stack is not None:
            sym, stack = stack
            seq += MIN.get(sym, (sym,))
        if best is None or len(seq) < len(best):
            best = seq
    return best[:-1]    # without END


class Text:
    """Renders tokens, remembering where each is."""

    def __init__(self):
        self.parts = []
        self.pos = []
        self.line, self.col = 1, 1
        self.indent = 0
        self.fresh = True       # at the start of a line

    def put(self, s):
        self.parts.append(s)
        self.col += len(s)

    def nl(self):
        self.parts.append("\n")
        self.line += 1
        self.col = 1
        self.fresh = True

    def add(self, kind, text):
        if kind == "NL":
            self.pos.append((self.line, self.col))
            self.nl()
        elif kind == "INDENT":
            self.indent += 1
            self.pos.append((self.line, 0))
        elif kind == "DEDENT":
            self.indent -= 1
            self.pos.append((self.line, 0))
        elif kind == "BODY":
            self.pos.append((self.line, self.col))
            self.nl()
            self.put(" " * (self.indent + 1) + "pass")
            self.nl()
        else:
            if self.fresh:
                self.put(" " * self.indent)
                self.fresh = False
            elif not (text.startswith("}") and kind.startswith("}")):
                self.put(" ")
            self.pos.append((self.line, self.col))
            self.put(text)

    def text(self):
        return "".join(self.parts)


def spelled(toks):
    """Fill tokens, given as kinds or (kind, text, value)."""
    return [t if isinstance(t, tuple) else
            (t,) + (SPELL[t][0] if t in SPELL else (t, None)) for t in toks]


# -- the implementation ------------------------------------------------------

SEMANTIC = {
    "INVALID_VARDEF_STMT", "NONDEFAULT_ARG_AFTER_DEFAULT",
    "DUPLICATE_ARG_DEF", "DONT_KNOW_ARG_TYPE", "ARG_MULTIPLE_VALUES",
    "POSITIONED_ARG_AFTER_KEYWORD", "MULTIPLE_NEW_METHODS",
    "CONST_NEW_METHOD", "NONSTATIC_CONST_METHOD", "INVALID_FUNC_PORT"}
LEXICAL = {"UNMATCHED_BRACKET", "UNMATCHED_BRACKET_PAIR", "UNCLOSED_FEXPR"}


def parse(text):
    from acaciamc.error import Error
    from acaciamc.parser import Parser
    from acaciamc.tokenizer import Tokenizer
    try:
        return Parser(Tokenizer(io.StringIO(text), (1, 21, 0))).module(), None
    except Error as err:
        return None, (err.type.name,) + tuple(err.location.linecol)


def norm(n):
    if n is None or isinstance(n, str):
        return n
    if isinstance(n, (list, tuple)):
        return [norm(x) for x in n]
    k = type(n).__name__
    f = NORM.get(k)
    if f:
        return f(n)
    raise TypeError("unknown node %s" % k)


def call(t):
    return ("Args", [(None, norm(x)) for x in t.args]
            + [(key, norm(x)) for key, x in t.keywords.items()])


def meta(m):
    return (m.leading_dots,) + tuple(m.parents) + (m.last_name,)


def func(d):
    args = []
    for name in d.arg_table.args:
        p = d.arg_table.types[name]
        args.append((name, p.port.name, norm(p.type),
                     norm(d.arg_table.default[name])))
    ret = d.returns
    if ret is not None:
        ret = ("by_value", norm(ret)) if type(ret).__name__ == "TypeSpec" \
            else (ret.port.name, norm(ret.type))
    return (args, ret, norm(d.body))


def dkind(d):
    return type(d).__name__.replace("FuncData", "")


NORM = {
    "Module": lambda n: ("Module", norm(n.body)),
    "TypeSpec": lambda n: norm(n.content),
    "FormattedStr": lambda n: ("FormattedStr", norm(n.content)),
    "ExprStatement": lambda n: ("ExprStatement", norm(n.value)),
    "Pass": lambda n: ("Pass",),
    "If": lambda n: ("If", norm(n.condition), norm(n.body),
                     norm(n.else_body)),
    "While": lambda n: ("While", norm(n.condition), norm(n.body)),
    "For": lambda n: ("For", n.name, norm(n.expr), norm(n.body)),
    "InterfaceDef": lambda n: ("InterfaceDef", norm(n.path), norm(n.body)),
    "FuncDef": lambda n: ("FuncDef", n.name, dkind(n.data), func(n.data)),
    "NewMethod": lambda n: ("NewMethod", dkind(n.data), func(n.data)),
    "EntityMethod": lambda n: ("EntityMethod", norm(n.content),
                               n.qualifier.name),
    "EntityField": lambda n: ("Field", n.name, norm(n.type)),
    "StructField": lambda n: ("Field", n.name, norm(n.type)),
    "EntityTemplateDef": lambda n: (
        "EntityTemplateDef", n.name, norm(n.parents), norm(n.body),
        norm(n.new_method)),
    "StructDef": lambda n: ("StructDef", n.name, norm(n.bases),
                            norm(n.body)),
    "VarDef": lambda n: ("VarDef", n.target, norm(n.type), norm(n.value)),
    "AutoVarDef": lambda n: ("AutoVarDef", n.target, norm(n.value)),
    "Assign": lambda n: ("Assign", norm(n.target), norm(n.value)),
    "AugmentedAssign": lambda n: ("AugmentedAssign", norm(n.target),
                                  n.operator.name, norm(n.value)),
    "ConstDef": lambda n: ("ConstDef", [
        (a, norm(t), norm(v))
        for a, t, v in zip(n.names, n.types, n.values)]),
    "ReferenceDef": lambda n: ("ReferenceDef", n.name, norm(n.type),
                               norm(n.value)),
    "Command": lambda n: ("Command", norm(n.content)),
    "Import": lambda n: ("Import", meta(n.meta), n.name),
    "FromImport": lambda n: ("FromImport", meta(n.meta), set(n.id2name)),
    "FromImportAll": lambda n: ("FromImportAll", meta(n.meta)),
    "Result": lambda n: ("Result", norm(n.value)),
    "NewCall": lambda n: ("NewCall", norm(n.primary), call(n.call_table)),
    "Literal": lambda n: ("Literal", n.value),
    "StrLiteral": lambda n: ("StrLiteral", norm(n.content)),
    "Self": lambda n: ("Self",),
    "Identifier": lambda n: ("Identifier", n.name),
    "UnaryOp": lambda n: ("UnaryOp", n.operator.name, norm(n.operand)),
    "BinOp": lambda n: ("BinOp", norm(n.left), n.operator.name,
                        norm(n.right)),
    "Call": lambda n: ("Call", norm(n.func), call(n.table)),
    "Attribute": lambda n: ("Attribute", norm(n.object), n.attr),
    "Subscript": lambda n: ("Subscript", norm(n.object),
                            norm(n.subscripts)),
    "CompareOp": lambda n: ("CompareOp", norm(n.left),
                            [o.name for o in n.operators],
                            norm(n.operands)),
    "BoolOp": lambda n: ("BoolOp", n.operator.name, norm(n.operands)),
    "ListDef": lambda n: ("ListDef", norm(n.items)),
    "MapDef": lambda n: ("MapDef", norm(n.keys), norm(n.values)),
}


def same(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(
            same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


# -- what the grammar leaves to rules -----------------------------------------

def rules(t, errs):
    """Collect the errors a tree contains; returns the tree as the parser
    builds it."""
    if isinstance(t, list):
        return [rules(x, errs) for x in t]
    if not isinstance(t, tuple) or not t:
        return t
    k = t[0]
    if k in ("VarDef", "AutoVarDef"):
        if t[1][0] != "Identifier":
            errs.add("INVALID_VARDEF_STMT")
        return (k, t[1][-1]) + tuple(rules(x, errs) for x in t[2:])
    if k == "Args":
        seen = set()
        for n, _ in t[1]:
            if n is None and seen:
                errs.add("POSITIONED_ARG_AFTER_KEYWORD")
            if n in seen:
                errs.add("ARG_MULTIPLE_VALUES")
            if n is not None:
                seen.add(n)
        return (k, [(n, rules(x, errs)) for n, x in t[1]])
    if k in ("FuncDef", "NewMethod"):
        kind, (args, ret, body) = t[-2:]
        names, default = set(), False
        for n, _, ty, de in args:
            if n in names:
                errs.add("DUPLICATE_ARG_DEF")
            names.add(n)
            if de is not None:
                default = True
            elif default:
                errs.add("NONDEFAULT_ARG_AFTER_DEFAULT")
            if ty is None and de is None and kind == "Normal":
                errs.add("DONT_KNOW_ARG_TYPE")
        return t[:-1] + ((
            [(n, p, rules(ty, errs), rules(de, errs))
             for n, p, ty, de in args],
            ret and (ret[0], rules(ret[1], errs)), rules(body, errs)),)
    if k == "EntityMethod":
        if t[1][2] == "Const" and t[2] != "static":
            errs.add("NONSTATIC_CONST_METHOD")
        return (k, rules(t[1], errs), t[2])
    if k == "EntityTemplateDef":
        body = rules(t[3], errs)
        news = [m for m in body if m[0] == "NewMethod"]
        if len(news) > 1:
            errs.add("MULTIPLE_NEW_METHODS")
        return (k, t[1], rules(t[2], errs),
                [m for m in body if m[0] != "NewMethod"],
                news[0] if news else None)
    if k == "FromImport":
        return (k, t[1], set(t[2]))
    return tuple(rules(x, errs) for x in t)


# -- exploration --------------------------------------------------------------

E = ["ID", "NUM", "(", ")", "+", "-", "*", "<", "==", "not", "and", "or",
     "NL"]
GROUPS = {
    # name: (fixed beginning, alphabet, depth quick, depth thorough)
    "operators": ("", ["ID", "(", ")", "+", "-", "*", "/", "%", "<", "==",
                       "not", "and", "or", "NL"], 5, 6),
    "comparisons": ("ID =", ["ID", "<", ">", "<=", ">=", "==", "!=", "+",
                             "not", "and", "or"], 6, 7),
    "primaries": ("", ["ID", "NUM", ".", "(", ")", "[", "]", ",", "=", "NL",
                       "new", "-"], 6, 7),
    "atoms": ("", ["True", "False", "None", "self", "NUM", "STR", "ID", "(",
                   ")", ".", "NL", "{", "}"], 4, 5),
    "lists and maps": ("ID =", ["ID", "{", "}", ",", ":", "NUM", "NL"], 8,
                       9),
    "strings": ("ID =", ["STR", "STR${", "}STR", "}STR${", "ID", "+", "NL"],
                7, 8),
    "commands": ("", ["CMD", "CMD${", "}CMD", "}CMD${", "ID", "NUM", "+",
                      "NL", "STR${", "}STR", "pass"], 7, 8),
    "assignments": ("", ["ID", "=", ":=", ":", "+=", "-=", "*=", "/=", "%=",
                         ".", "&", "const", "NL", ","], 5, 6),
    "constants": ("const", ["ID", "=", ":", "(", ")", ",", "NL", "def"], 8,
                  9),
    "references": ("&", ["ID", "=", ":", "(", ")", ",", "NL", "const"], 6,
                   7),
    "new": ("", ["ID", "new", ".", "(", ")", ",", "=", "NL"], 7, 8),
    "statements": ("", ["if", "elif", "else", "while", "for", "in", "ID",
                        ":", "NL", "INDENT", "DEDENT", "BODY", "pass"], 6,
                   8),
    "conditions": ("if ID : BODY", ["if", "elif", "else", "while", "ID", ":",
                                    "BODY", "NL", "INDENT", "DEDENT",
                                    "pass"], 7, 9),
    "result": ("", ["result", "ID", "-", "NL", "pass", "interface", "IFACE",
                    ":", "BODY", "(", ")"], 5, 6),
    "blocks": ("while ID :", ["NL", "INDENT", "DEDENT", "pass", "ID", "IFACE",
                              ":", "BODY", "CMD"], 8, 9),
    "parameters": ("def ID (", ["ID", ":", "=", ",", ")", "&", "const",
                                "->", "BODY", "NUM"], 7, 8),
    "inline parameters": ("inline def ID (",
                          ["ID", ":", "=", ",", ")", "&", "const", "->",
                           "BODY", "NUM"], 7, 8),
    "const parameters": ("const def ID (",
                         ["ID", ":", "=", ",", ")", "&", "const", "->",
                          "BODY"], 7, 8),
    "definitions": ("", ["def", "inline", "const", "virtual", "static",
                         "override", "ID", "(", ")", ":", "BODY", "NL",
                         "entity", "struct", "new"], 6, 7),
    "entity": ("entity ID", ["extends", "ID", ",", ":", "NL", "INDENT",
                             "pass", "new", "def", "("], 6, 8),
    "members": ("entity ID : NL INDENT", [
        "ID", ":", "NL", "DEDENT", "pass", "def", "inline", "const",
        "virtual", "override", "static", "new", "(", ")", "BODY"], 6, 7),
    "members 2": ("entity ID : NL INDENT new ( ) : BODY", [
        "ID", ":", "NL", "DEDENT", "inline", "const", "new", "(", ")", "BODY",
        "static"], 6, 7),
    "struct": ("struct ID", ["extends", "ID", ",", ":", "NL", "INDENT",
                             "DEDENT", "pass", "=", "def"], 7, 9),
    "import": ("", ["import", "from", "as", "ID", ".", "*", ",", "(", ")",
                    "NL"], 7, 8),
    "names": ("from ID import", ["as", "ID", "*", ",", "(", ")", "NL", "."],
              8, 9),
    "calls": ("ID (", ["ID", "NUM", "=", ",", ")", "(", "NL", "*"], 7, 8),
}


# what can be repeated any number of times: (before, repeated, after); a later
# repetition of an ID, NUM ... is spelled the other way
LONG = {
    "operands": ("ID =", "ID + NUM * ID - ID % NUM and not ID < NUM or", "ID"),
    "minus": ("ID = ID", "- -", "ID"),
    "comparisons": ("ID = ID", "< ID >= NUM == ID", "NL"),
    "powers of parentheses": ("ID =", "( ID -", "ID" ),
    "attributes": ("", "ID .", "ID NL"),
    "calls of results": ("ID", "( ID ) [ NUM ] . ID", "NL"),
    "list": ("ID = {", "ID , NUM ,", "}"),
    "lists in lists": ("ID =", "{ ID ,", "ID"),
    "map": ("ID = {", "ID : NUM ,", "}"),
    "maps in maps": ("ID =", "{ NUM :", "ID"),
    "text": ("ID = STR${ ID", "}STR${ ID + NUM", "}STR NL"),
    "texts in texts": ("ID =", "STR${ ID +", "ID"),
    "adjacent texts": ("ID =", "STR", "NL"),
    "command": ("CMD${ ID", "}CMD${ ID", "}CMD NL"),
    "conditions": ("if ID : BODY", "elif ID : BODY", "else : BODY"),
    "nested ifs": ("", "if ID : NL INDENT", "pass NL"),
    "nested whiles": ("", "while ID : NL INDENT for ID in ID : NL INDENT",
                      "pass NL"),
    "else of else": ("", "if ID : NL INDENT pass NL DEDENT else : NL INDENT",
                     "pass NL"),
    "statements": ("", "ID := NUM NL ID = ID NL", "pass NL"),
    "new": ("", "ID . new ( ID ) NL", "pass NL"),
    "imports": ("import ID", ". ID", "NL"),
    "bases": ("entity ID extends ID", ", ID", ": NL INDENT pass NL"),
    "fields": ("struct ID : NL INDENT", "ID : ID NL", "pass NL"),
    "constants": ("", "const ID : ID = ID NL & ID = ID NL", "pass NL"),
    "arguments": ("ID (", "ID , NUM ,", "ID )"),
    "subscripts": ("ID = ID [", "ID , NUM ,", "ID ]"),
}


def long_batch(chunk, st):
    _init()
    for name, n in chunk:
        pre, unit, post = LONG[name]
        toks, closed, seen = [], rg.closure(rg.start()), {}
        for kind in (pre + " " + " ".join([unit] * n) + " " + post).split():
            if kind == "INDENT" and toks[-1][0] != "NL":
                raise AssertionError(name)
            k = seen[kind] = seen.get(kind, -1) + 1
            sp = SPELL.get(kind, [(kind, None)])
            assert kind in rg.expected(closed), (name, kind)
            toks.append((kind,) + sp[k // 2 % len(sp)])
            closed = rg.step(closed, kind)
        st.states += 1
        st.transitions += len(toks)
        report("long " + name, lambda: positive(toks, closed), st)
        ok = rg.expected(closed)
        for kind in ("ID", ")", "else", "]", ",", ":", "INDENT", "="):
            if kind not in ok and testable(toks, kind):
                report("long " + name,
                       lambda: negative(toks, kind, closed), st)
        st.outcome((name, n))


CLOSER = {"(": ")", "[": "]", "{": "}", "STR${": '}"', "CMD${": "}"}


def cut(toks):
    """What is open after tokens: number of brackets, and of expressions in
    texts, and what closes all."""
    stack = []
    for t in toks:
        k = t[0]
        if k in CLOSER:
            stack.append(k)
        elif k in (")", "]", "}", "}STR", "}CMD"):
            if stack:
                stack.pop()
    inside = sum(len(k) > 1 for k in stack)
    return len(stack) - inside, inside, "".join(
        " " + CLOSER[k] for k in reversed(stack))


def testable(toks, kind):
    """Can `kind`, which cannot follow, be shown after toks?"""
    last = toks[-1][0] if toks else "NL"
    start = last in ("NL", "INDENT", "DEDENT", "BODY")
    depth, inside, _ = cut(toks)
    if kind in ("DEDENT", "BODY", "interface"):
        return False
    if kind == "INDENT":
        return last in ("NL",) and depth == 0
    if last in ("CMD", "}CMD"):
        return False
    if inside:
        return kind in ("ID", "NUM", "+", "pass", "STR")
    if kind == "NL":
        return depth == 0 and not start
    if kind.startswith("}") and kind != "}":
        return False
    if kind in ("CMD", "CMD${"):
        return False
    if kind in ("/", "/=") and start:
        return False
    return True


def render(toks):
    t = Text()
    for k, text, _ in toks:
        t.add(k, text)
    return t


def positive(toks, closed):
    done = toks + spelled(complete(closed))
    state = closed
    for k in done[len(toks):]:
        state = rg.step(state, k[0])
    t = render(done)
    text = t.text()
    trees = rg.accept(state, [v for _, _, v in done])
    if len(trees) != 1:
        return text, "the grammar gives %d trees" % len(trees)
    errs = set()
    want = rules(trees[0], errs)
    node, err = parse(text)
    if errs:
        if err is None or err[0] not in errs:
            return text, "error %s instead of one of %s" % (
                err, sorted(errs))
        return text, None
    if err:
        return text, "error %s in a program" % (err,)
    got = norm(node)
    if not same(got, want):
        return text, "parsed as\n%s\ninstead of\n%s" % (got, want)
    return text, None


def negative(toks, kind, closed):
    bad = toks + spelled([kind])
    t = render(bad)
    where = t.pos[-1]
    before = t.pos[-2] if len(bad) > 1 else None
    closers = cut(bad)[2]
    if kind == "INDENT":
        t.put(" " * t.indent + "pass")
    t.put(closers)
    t.nl()
    text = t.text()
    node, err = parse(text)
    if err is None:
        return text, "accepted, but %s cannot stand at %s" % (kind, where)
    if err[0] in SEMANTIC:
        if err[1:] > where and err[0] != "DONT_KNOW_ARG_TYPE":
            return text, "error %s instead of one at %s" % (err, where)
        return text, None
    if err[0] not in ("UNEXPECTED_TOKEN", "EMPTY_BLOCK") \
            and err[0] not in LEXICAL:
        return text, "error %s" % (err,)
    if err[0] == "EMPTY_BLOCK" and rg.expected(closed) != {"INDENT"}:
        return text, "error %s, but there is no block" % (err,)
    ok = {where}
    if kind in ("=", "new"):
        ok.add(before)      # read together with the token before
    if kind.startswith("STR"):
        ok.add((where[0], where[1] + 1))    # behind the quote
    if err[1:] not in ok and err[0] != "UNCLOSED_FEXPR":
        return text, "error %s instead of one at %s" % (err, where)
    return text, None


def follow(group, toks, closed, depth, alpha, st):
    st.states += 1
    for f in [lambda: positive(toks, closed)]:
        report(group, f, st)
    if depth == 0:
        return
    ok = rg.expected(closed)
    last = toks[-1][0] if toks else "NL"
    for kind in alpha:
        if kind not in ok:
            if testable(toks, kind):
                report(group, lambda: negative(toks, kind, closed), st)
            continue
        if kind == "INDENT" and last != "NL":
            continue
        st.transitions += 1
        # the second name or number in a row is another one
        n = sum(1 for t in toks if t[0] == kind)
        sp = SPELL.get(kind, [(kind, None)])
        text, value = sp[n % len(sp)]
        follow(group, toks + [(kind, text, value)], rg.step(closed, kind),
               depth - 1, alpha, st)


def report(group, f, st):
    st.programs += 1
    text, bad = f()
    if bad:
        st.violations.append(core.Violation(
            {"kind": "syntax", "key": "%s: %r" % (group, text),
             "what": "%r: %s" % (text, bad), "group": group, "text": text}))


def batch(chunk, st):
    _init()
    for group, head, depth in chunk:
        alpha = GROUPS[group][1]
        toks, closed = [], rg.closure(rg.start())
        for t in head:
            toks.append(t)
            closed = rg.step(closed, t[0])
        follow(group, toks, closed, depth, alpha, st)
        st.outcome((group, str(head)))


def heads(group, n):
    """Viable beginnings of n tokens after the fixed one, and shorter ones
    (with depth 0)."""
    pre, alpha = GROUPS[group][:2]
    toks, closed = spelled(pre.split()), rg.closure(rg.start())
    for t in toks:
        closed = rg.step(closed, t[0])
        assert closed, (group, t)
    level = [(toks, closed)]
    for k in range(n):
        nxt = []
        for toks, closed in level:
            yield toks, 1       # tries every follower once
            for kind in alpha:
                if kind in rg.expected(closed):
                    if kind == "INDENT" and toks[-1][0] != "NL":
                        continue
                    sp = SPELL.get(kind, [(kind, None)])
                    c = sum(1 for t in toks if t[0] == kind)
                    nxt.append((toks + [(kind,) + sp[c % len(sp)]],
                                rg.step(closed, kind)))
        level = nxt
    for toks, closed in level:
        yield toks, None


def items(chk):
    for g, (pre, alpha, dq, dt) in GROUPS.items():
        d = dt + 1 if chk.thorough else dq
        n = 2 if d < 6 else 3
        for toks, k in heads(g, n):
            yield (g, toks, d - n if k is None else k)


def check(chk):
    top = 24 if chk.thorough else 12
    chk.map(ME, "long_batch", [(x, n) for x in LONG
                               for n in range(1, top + 1)], 4)
    chk.map(ME, "batch", items(chk), 4)
    chk.stats.sample({"text": "a = b\n"})
    chk.bounds = {"repetitions": "%d patterns, each repeated 1 to %d times"
                  % (len(LONG), top), "groups": {g: {"after": v[0], "tokens": v[1],
                                 "depth": v[3] + 1 if chk.thorough else v[2]}
                             for g, v in GROUPS.items()}}
    chk.assumptions = [
        "a program that breaks a rule beyond the grammar (a repeated "
        "argument, say) may be refused at any place for one of its faults"]


def replay(v):
    _init()
    from .. import core as _core
    st = _core.Stats()
    g = v["group"]
    print("%r -> %s" % (v["text"], parse(v["text"])[1]))
    # look the text up again
    for toks, k in heads(g, 2):
        d = GROUPS[g][3] - 2 if k is None else k
        closed = rg.closure(rg.start())
        for t in toks:
            closed = rg.step(closed, t[0])
        follow(g, toks, closed, d, GROUPS[g][1], st)
        for w in st.violations:
            if w["text"] == v["text"]:
                print(w["what"])
                return 1
    print("no violation")
    return 0
