"""A reference lexer for Acacia, written from the language's description as a
recursive reader of the whole text (the implementation works line by line and
keeps its state in flags)."""

KW = set("True def interface inline entity extends self if elif else while "
         "pass and or not result import as from None for in struct virtual "
         "override const static new False".split())
OPS2 = {"==", "!=", ">=", "<=", "+=", "-=", "*=", "/=", "%=", "->", ":="}
OPS1 = set("()[]{}:,+-*/%><=.@&")
OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}
DIGITS = "0123456789"
HEX = "0123456789abcdefABCDEF"
PATH = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.-_/")
CODES = dict(zip(
    "black dark_blue dark_green dark_aqua dark_red dark_purple gold gray "
    "dark_gray blue green aqua red light_purple yellow white minecoin_gold "
    "reset bold italic obfuscated".split(), "0123456789abcdefgrlok"))
NEW_CODES = dict(zip(
    ("material_" + x for x in "quartz iron netherite redstone copper gold "
     "emerald diamond lapis amethyst".split()), "hijmnpqstu"))


class LexError(Exception):
    def __init__(self, kind, line, col):
        self.kind, self.line, self.col = kind, line, col


class Lexer:
    def __init__(self, text, version=(1, 21, 0)):
        self.t = text
        self.i = 0
        self.line = 1
        self.start = 0          # where the current line starts
        self.toks = []          # (kind, value, line, col)
        self.version = version

    # -- characters
    def ch(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ""

    def col(self):
        return self.i - self.start + 1

    def here(self):
        return self.line, self.col()

    def newline(self):
        self.i += 1
        self.line += 1
        self.start = self.i

    def emit(self, kind, value, at):
        self.toks.append((kind, value) + at)

    def fail(self, kind, at=None):
        raise LexError(kind, *(at or self.here()))

    # -- logical lines
    def run(self):
        indents = [0]
        try:
            while self.i < len(self.t):
                self.logical_line(indents)
            n = self.line + (1 if self.i > self.start else 0)
            if self.i == self.start:
                n += 1          # the empty last line counts
            else:
                n += 0
            self.end_line = n
            for _ in indents[1:]:
                self.emit("dedent", None, (n, 0))
            self.emit("end_marker", None, (n, 0))
        except LexError as err:
            return self.toks, (err.kind, err.line, err.col)
        return self.toks, None

    def logical_line(self, indents):
        first = self.line
        while self.ch() == " ":
            self.i += 1
        width = self.i - self.start
        mark = len(self.toks)
        self.any = False        # a token in this logical line
        self.indent = (first, width, mark, indents)
        self.iface = False
        self.items(None, None)
        self.flush_indent(False)
        if self.any:
            if self.iface:
                self.fail("INTERFACE_PATH_EXPECTED")
            self.emit("new_line", None, self.here())
        if self.ch() == "\n":
            self.newline()

    def flush_indent(self, backslash):
        """At the end of the first line of a logical line."""
        if self.indent is None:
            return
        first, width, mark, indents = self.indent
        self.indent = None
        if len(self.toks) == mark and not backslash:
            return
        if width > indents[-1]:
            indents.append(width)
            self.toks.insert(mark, ("indent", None, first, 0))
        elif width in indents:
            while indents[-1] != width:
                indents.pop()
                self.toks.insert(mark, ("dedent", None, first, 0))
        else:
            self.fail("INVALID_DEDENT")

    def eol(self, multi):
        """A physical line ends inside a logical one."""
        if self.iface and not multi:
            pass
        self.flush_indent(False)
        self.newline()

    def items(self, close, how):
        """Tokens up to the bracket `close` (None: end of logical line).
        how: None at the top or in brackets there; "short" inside an
        expression in a string or a command of one line; "long" inside one in
        a command of several lines. Returns at the end of the line or after
        the bracket."""
        opened = self.opened if close else None
        while True:
            c = self.ch()
            if c == " ":
                self.i += 1
                continue
            if c in ("", "\n", "\\"):
                if how == "short":
                    self.fail("UNCLOSED_FEXPR")
                if c == "\\":
                    self.i += 1
                    if self.ch() == "":
                        self.fail("EOF_AFTER_CONTINUATION")
                    if self.ch() != "\n":
                        self.fail("CHAR_AFTER_CONTINUATION")
                    self.flush_indent(True)
                    self.newline()
                    continue
                if c == "\n" and (close or how == "long"):
                    self.eol(True)
                    continue
                if c == "" and how == "long":
                    self.fail("UNCLOSED_FEXPR")
                if c == "" and close:
                    self.fail("UNCLOSED_BRACKET", opened)
                return
            if c == "#":
                if self.ch(1) == "*":
                    self.long_comment(how)
                else:
                    while self.ch() not in ("", "\n"):
                        self.i += 1
                continue
            if self.iface:
                self.iface = False
                if c == '"':
                    self.string()
                else:
                    at = self.here()
                    j = self.i
                    while self.ch() in PATH and self.ch():
                        self.i += 1
                    if j == self.i:
                        self.fail("INTERFACE_PATH_EXPECTED")
                    self.emit("interface_path", self.t[j:self.i], at)
                    self.any = True
                continue
            at = self.here()
            if c in DIGITS:
                self.number()
            elif c.isalpha() or c == "_":
                j = self.i
                while self.ch() and (self.ch().isalpha()
                                     or self.ch() in "_" + DIGITS):
                    self.i += 1
                w = self.t[j:self.i]
                if w in KW:
                    self.emit(w, None, at)
                    self.iface = w == "interface"
                else:
                    self.emit("identifier", w, at)
            elif c == "/" and not self.any:
                self.command()
            elif c == '"':
                self.string()
            elif c + self.ch(1) in OPS2:
                self.emit(c + self.ch(1), None, at)
                self.i += 2
            elif c in OPEN:
                self.any = True
                self.emit(c, None, at)
                self.i += 1
                self.opened = at
                self.items(OPEN[c], how)
                continue
            elif c in CLOSE:
                if not close:
                    self.fail("UNMATCHED_BRACKET")
                if c != close:
                    self.fail("UNMATCHED_BRACKET_PAIR")
                self.emit(c, None, at)
                self.i += 1
                return
            elif c in OPS1:
                self.emit(c, None, at)
                self.i += 1
            else:
                self.fail("INVALID_CHAR")
            self.any = True

    def long_comment(self, how):
        self.i += 2
        at = self.here()
        while not (self.ch() == "*" and self.ch(1) == "#"):
            if self.ch() == "":
                if how == "short":
                    self.fail("UNCLOSED_FEXPR")
                self.fail("UNCLOSED_LONG_COMMENT", at)
            if self.ch() == "\n":
                if how == "short":
                    self.fail("UNCLOSED_FEXPR")
                self.eol(False)
            else:
                self.i += 1
        self.i += 2

    def number(self):
        at = self.here()
        base = 10
        if self.ch() == "0" and self.ch(1) and self.ch(1) in "bBoOxX":
            base = {"b": 2, "o": 8, "x": 16}[self.ch(1).lower()]
            self.i += 2
        ok = HEX[:16] + HEX[16:] if base == 16 else HEX[:base]
        j = self.i
        while self.ch() and self.ch() in ok:
            self.i += 1
        w = self.t[j:self.i]
        if not w:
            self.fail("INTEGER_REQUIRED")
        if base == 10 and self.ch() == "." and self.ch(1) \
                and self.ch(1) in DIGITS:
            self.i += 1
            while self.ch() and self.ch() in DIGITS:
                self.i += 1
            self.emit("float", float(self.t[j:self.i]), at)
        else:
            v = 0
            for d in w:
                v = v * base + "0123456789abcdef".index(d.lower())
            self.emit("integer", v, at)

    # -- texts
    def escape(self):
        """Characters that the one or more characters here stand for."""
        c = self.ch()
        self.i += 1
        if c != "\\":
            return c
        e = self.ch()
        if e == "\\":
            self.i += 1
            return "\\"
        if e == "#":
            self.i += 1
            if self.ch() != "(":
                return "\u00a7"
            at = self.here()
            res = ""
            while self.ch() != ")":
                self.i += 1
                j = self.i
                while self.ch() not in (",", ")"):
                    if self.ch() in ("", "\n"):
                        self.fail("UNCLOSED_FONT", at)
                    self.i += 1
                w = self.t[j:self.i].strip()
                code = CODES.get(w)
                if code is None and self.version >= (1, 19, 80):
                    code = NEW_CODES.get(w)
                if code is None:
                    self.fail("INVALID_FONT", at)
                res += "\u00a7" + code
            self.i += 1
            return res
        n = {"x": 2, "u": 4, "U": 8}.get(e)
        if n is None:
            return "\\"
        self.i += 1
        v = 0
        for _ in range(n):
            if not self.ch() or self.ch() not in HEX:
                self.fail("INVALID_UNICODE_ESCAPE")
            v = v * 16 + int(self.ch(), 16)
            self.i += 1
        if v > 0x10ffff or 0xd800 <= v <= 0xdfff:
            self.fail("INVALID_UNICODE_ESCAPE")
        return chr(v)

    def flush(self, buf, at):
        if buf:
            self.emit("text_body", "".join(buf), at)
            buf.clear()

    def unit(self, buf, at, how):
        """One character, escape or expression of a text."""
        if self.ch() == "\\" and self.ch(1) == "$":
            self.i += 2
            buf.append("$")
        elif self.ch() == "$" and self.ch(1) == "{":
            self.flush(buf, at)
            self.emit("dollar_lbrace", None, self.here())
            self.i += 1
            self.opened = self.here()
            self.i += 1
            self.any = True
            self.items("}", how)
        else:
            buf.append(self.escape())

    def string(self):
        at = self.here()
        self.i += 1
        self.emit("string_begin", None, at)
        self.any = True
        buf = []
        while self.ch() != '"':
            if self.ch() in ("", "\n"):
                self.fail("UNCLOSED_QUOTE", at)
            if self.ch() == "\\" and self.ch(1) == '"':
                buf.append('"')
                self.i += 2
            else:
                self.unit(buf, at, "short")
        self.i += 1
        self.flush(buf, at)
        self.emit("string_end", None, self.here())

    def command(self):
        at = self.here()
        self.emit("command_begin", None, at)
        self.any = True
        self.i += 1
        buf = []
        if self.ch() == "*":
            self.i += 1
            while not (self.ch() == "*" and self.ch(1) == "/"):
                if self.ch() == "":
                    self.fail("UNCLOSED_LONG_COMMAND", at)
                if self.ch() == "\n":
                    buf.append(" ")
                    self.eol(True)
                else:
                    self.unit(buf, at, "long")
            end = self.here()
            self.i += 2
        else:
            while self.ch() not in ("", "\n"):
                self.unit(buf, at, "short")
            end = self.here()
        self.flush(buf, at)
        self.emit("command_end", None, end)


def lex(text, version=(1, 21, 0)):
    return Lexer(text, version).run()
