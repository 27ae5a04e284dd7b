"""C19: the tokens of every source text.

Every text over several small alphabets is read by the tokenizer and by the
reference lexer (reflex.py); token kinds, values and places, or the kind and
place of the error, must agree."""
import io
import itertools

from .. import core, reflex

ME = __name__
V_OLD, V_NEW = (1, 19, 70), (1, 20, 0)

A = {
    # name: (prefix, suffix, alphabet, length quick, length thorough, version)
    "lines": ("", "", ["a", " ", "\n", "\\", "#", "*", "(", ")", "/"], 6, 7),
    "blocks": ("", "", ["a", "\n", "\n ", "\n  ", "\n   ", " ", "#c", "#*",
                        "*#", "\\\n", "(", ")"], 5, 6),
    "texts": ("", "", ['"', "\\", "$", "{", "}", "a", "\n", "/", "*"], 6, 7),
    "in a string": ('x"', "", ['"', "\\", "${", "}", "{", "/", "\n", "#", "("],
                    5, 6),
    "in a command": ("/", "", ['"', "\\", "${", "}", "{", "*/", "\n", "#*",
                               "*#", "/*"], 5, 6),
    "in a long command": ("/*", "*/b\nc", [
        '"', "\\", "${", "}", "{", "*/", "\n", "#", " ", "("], 5, 6),
    "nested texts": ("", "\nz", ['"', "${", "}", "/", "/*", "*/", "a", "{",
                                 "\n"], 6, 7),
    "escapes": ('"', '"', ["\\", "x", "u", "U", "#", "(", ")", ",", "4",
                           "a", "0", "$", '"', "n"], 4, 5),
    "escapes in commands": ("/", "\n", ["\\", "x", "u", "#", "(", ")", "4",
                                        "F", "$", "{", '"', "}"], 4, 5),
    "codes": ("\"", "\"", ["\\x", "\\u", "\\U", "0", "1", "4", "D", "f", "00",
                           "10", "g"], 5, 6),
    "fonts": ('"\\#(', '"', ["red", "bold", "material_gold", "reset", ",",
                             ")", " ", "x", "_", "\n"], 4, 5),
    "numbers": ("", "", ["0", "1", "9", "x", "b", "o", "X", ".", "f", "E",
                         "_", "-", "\u0661"], 4, 5),
    "operators": ("", "", list("+-*/%<>=!:.&@,|~"), 4, 5),
    "words": ("", "", ["if", "in", "interface", " ", "_", "0", "x", "\n",
                       "/p", ".", "-", '"', "\u4e2d", "\u00b2", "#", "\\\n"],
              4, 5),
    "paths": ("interface ", ":", ["a", "/", ".", "-", "_", "(", ")", "0", '"',
                                  "$", "\\", " ", "\u00e9", "#*x*#"], 4, 5),
    "brackets": ("", "", ["(", ")", "[", "]", "{", "}", "\n", "a"], 6, 7),
    "odd": ("", "", ["\t", "\r", "\u00a0", "\u2028", "\ufeff", "\0", "a",
                     "\n", "\x0c", "'", "`", "?", ";", "!", "\\"], 3, 4),
}
LOOSE_COL = {"string_begin", "text_body"}


def tokens(text, version):
    from acaciamc.error import Error
    from acaciamc.tokenizer import Tokenizer, TokenType
    names = {}
    for t in TokenType:
        v = t.value
        names[t] = v.lower() if v.isupper() and len(v) > 2 else v
    res = []
    tk = Tokenizer(io.StringIO(text), version)
    try:
        while True:
            t = tk.get_next_token()
            res.append((names[t.type], t.value, t.lineno, t.col))
            if t.type is TokenType.end_marker:
                return res, None
    except Error as err:
        return res, (err.type.name,) + tuple(err.location.linecol)


def near(a, b):
    """Equal, but for the column of some tokens which is a convention."""
    if a[:2] != b[:2] or type(a[1]) is not type(b[1]):
        return False
    if a[0] == "end_marker":
        return True
    if a[0] in ("indent", "dedent", "text_body"):
        return a[2] == b[2] or a[0] == "text_body"
    if a[0] == "string_begin":
        return a[2] == b[2] and abs(a[3] - b[3]) <= 1
    return a[2:] == b[2:]


def case(text, version):
    want, werr = reflex.lex(text, version)
    try:
        got, gerr = tokens(text, version)
    except RecursionError:
        raise
    except Exception as err:
        return "the tokenizer crashed: %r" % (err,)
    if werr or gerr:
        if not (werr and gerr):
            return "%s instead of %s" % (
                "error %s" % (gerr,) if gerr else "no error",
                "error %s" % (werr,) if werr else "none")
        if werr[:2] != gerr[:2]:
            return "error %s instead of %s" % (gerr, werr)
        if werr[0] == "INVALID_DEDENT":
            return None
        if werr[0] == "UNCLOSED_QUOTE" and abs(werr[2] - gerr[2]) <= 1:
            return None
        return None if werr == gerr else "error %s instead of %s" % (
            gerr, werr)
    for i, (w, g) in enumerate(itertools.zip_longest(want, got)):
        if w is None or g is None or not near(w, g):
            return "token %d is %s instead of %s" % (i + 1, g, w)


def batch(chunk, st):
    for name, head, n, version in chunk:
        pre, suf, alpha = A[name][:3]
        for w in itertools.product(alpha, repeat=n - len(head)):
            text = pre + "".join(head) + "".join(w) + suf
            st.programs += 1
            st.states += 1
            st.transitions += len(text)
            bad = case(text, version)
            if bad:
                st.violations.append(core.Violation(
                    {"kind": "tokens", "key": "%s: %r" % (name, text),
                     "what": "%r: %s" % (text, bad),
                     "args": [text, list(version)]}))
                if len(st.violations) > 20:
                    return
        st.outcome((name, head, n))


# texts that grow: f(n)
FONT_NAMES = ["red", "bold", "gold", " italic ", "dark_blue", "reset"]
LONG = {
    "fonts": lambda n: '"a\\#(' + ",".join(
        FONT_NAMES[j * j % 6] for j in range(n)) + ')b" /\n/say \\#('
    + ", ".join(FONT_NAMES[j % 5] for j in range(n)) + ")" + "\\#(red)" * n
    + "\n",
    "name": lambda n: "a_9" * n + "\n",
    "number": lambda n: "1234567890"[:n % 10 + 1] + " " + "0x" + "7f" * (
        n % 4) + "0 0b" + "10" * (n % 16) + "1\n",
    "fraction": lambda n: "1." + "25" * n + " " + "12" * (n % 5) + ".5\n",
    "operators": lambda n: "a " + "<= >= == != -> := + - ".replace(
        " ", " " * (n % 3)) * n + "b\n",
    "brackets": lambda n: "([{" * n + "\n\n  x\n" + "}])" * n + "\n",
    "blocks": lambda n: "".join("%sif a:\n" % ("  " * j) for j in range(n))
    + "  " * n + "b\nc\n",
    "blocks left one by one": lambda n: "".join(
        "%sa\n" % (" " * (j * j)) for j in range(n)) + "".join(
        "%sb\n" % (" " * (j * j)) for j in reversed(range(n))),
    "empty lines": lambda n: "a\n" + "\n" * n + " \n" * n + "  b\n",
    "comments": lambda n: "#* x *# " * n + "a # b #* c\n" + "#*\n" * n
    + "*#\nb\n" + "*#" * 0,
    "continued": lambda n: "a = 1" + " + \\\n  2" * n + "\nb\n",
    "text": lambda n: '"' + "ab \\n\\\" " * n + '"\n',
    "codes": lambda n: '"' + "\\u00%x\\#(red)" % (0x40 + n % 16) * n + '"\n',
    "expressions": lambda n: '"' + "a${b + 1}" * n + '" c\n',
    "nested expressions": lambda n: '"${' * n + "a" + '}"' * n + "\n",
    "brackets in expressions": lambda n: '"x${' + "f(" * n + "{1}" + ")" * n
    + '}y" z\n',
    "command": lambda n: "/say " + "a ${b} " * n + "c\nd\n",
    "long command": lambda n: "/*\nsay" + "\n  a ${b}" * n + "\n*/\nd\n",
    "path": lambda n: "interface " + "/".join(["ab-c.d"] * n) + ":\n  a\n",
    "tabs": lambda n: "a\n" + "\t" * n + "b\n" + "\t" * n + "c\nd\n",
    "not closed": lambda n: "(" * n + "a\n",
    "wrongly closed": lambda n: "(" * n + ")" * (n - 1) + "]\n",
    "bad character": lambda n: "a\n" * n + " " * 0 + "b" * n + " ?\n",
    "bad escape": lambda n: "a\n" * n + '"' + "b" * n + "\\q\"\n",
}


def long_batch(chunk, st):
    for name, n in chunk:
        text = LONG[name](n)
        st.programs += 1
        st.states += 1
        st.transitions += len(text)
        bad = case(text, V_NEW)
        if bad:
            st.violations.append(core.Violation(
                {"kind": "tokens", "key": "long %s %d" % (name, n),
                 "what": "%r: %s" % (text, bad), "args": [text, list(V_NEW)]}))
        st.outcome((name, n))


def items(chk):
    for name, (pre, suf, alpha, nq, nt) in A.items():
        top = nt if chk.thorough else nq
        for version in ((V_OLD, (1, 19, 79), (1, 19, 80), V_NEW)
                        if name == "fonts" else (V_NEW,)):
            for n in range(top + 1):
                k = max(0, n - 4)
                for head in itertools.product(alpha, repeat=k):
                    yield (name, head, n, version)


def check(chk):
    top = 60 if chk.thorough else 24
    chk.map(ME, "long_batch", [(x, n) for x in LONG
                               for n in range(1, top + 1)], 20)
    chk.map(ME, "batch", items(chk), 4)
    chk.stats.sample({"text": "a\n  b\n"})
    chk.bounds = {"growing texts": "%d patterns, sizes 1 to %d" % (
        len(LONG), top), "alphabets": {k: v[2] for k, v in A.items()},
                  "length": {k: v[4 if chk.thorough else 3]
                             for k, v in A.items()}}
    chk.assumptions = [
        "columns of texts and of the quote that opens one, of the end of "
        "file and of a wrong dedent are conventions and not compared exactly"]


def replay(v):
    r = case(v["args"][0], tuple(v["args"][1]))
    print(r or "no violation")
    return int(bool(r))
