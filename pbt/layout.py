"""Write the tokens of a program in another layout: whitespace, comments,
line splices, trigraphs, long and short lines, line endings."""
import re
from .pp import TOKEN

TRI = {"#": "=", "[": "(", "\\": "/", "]": ")", "^": "'", "{": "<", "|": "!", "}": ">", "~": "-"}

PAIRS = {"++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "->", "##", "//", "/*", "+=", "-=", "*=", "/=", "%=",
         "&=", "^=", "|=", "<:", "<%", ":>", "%>", "%:", "..", "<<=", ">>="}


def glues(a, b):
    """Would the tokens a and b, written without anything between them, be
    split differently?"""
    x, y = a[-1], b[0]
    word = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"
    if x in word and (y in word or y in "'\""):
        return True
    if (a[0].isdigit() or a[0] == "." and len(a) > 1) and (y == "." or y in "+-" and x in "eEpP"):
        return True
    if x == "." and y in "0123456789.":
        return True
    if x in "LuU8" and y in "'\"":
        return True
    if x + y in PAIRS or a + y in PAIRS or a + b in PAIRS:
        return True
    return False


def body(src, n):
    """Text for a comment of about n characters, without newline."""
    out = []
    k = 0
    while k < n:
        p = src.weighted([(8, "w"), (2, "'"), (2, '"'), (2, "*"), (1, "/ "), (1, "\\ "), (1, "?"), (1, "#"), (1, "// "), (1, "**"),
                          (1, "\\n"), (1, "int x;"), (1, "\t"), (2, " "), (1, "long")])
        if p == "w":
            p = src.choice(["note", "a", "it's", "x=1;", "\"q", "}", "{", "#define X", "#if", "??x", "end"])
        elif p == "long":
            p = "x" * src.int(1, n)
        out.append(p)
        k += len(p)
    t = "".join(out).replace("*/", "* ").replace("??/", "? /")
    return t


class Layout:
    def __init__(self, src, std="c99", crlf=None, stringify=False):
        self.src = src
        self.line_comments = std != "c89"
        self.stringify = stringify
        self.p_splice = src.weighted([(4, 0), (4, 1), (2, 6)])
        self.p_tri = src.weighted([(4, 0), (3, 8), (2, 60)])
        self.p_comment = src.weighted([(3, 0), (4, 6), (2, 25)])
        self.p_nl = src.weighted([(2, 1), (4, 12), (2, 60)])
        self.minimal = src.chance(30)
        self.big = src.chance(15)
        self.crlf = src.chance(15) if crlf is None else crlf
        self.tags = set()
        self.out = []          # atoms: not to be split

    # Atoms -----------------------------------------------------------------
    def char(self, c, verbatim=False):
        if not verbatim:
            if c in TRI and self.p_tri and self.src.chance(self.p_tri):
                # "?" in front of a trigraph is no part of it.
                self.tags.add("trigraph")
                self.out.append("??" + TRI[c])
                self.maybe_splice()
                return
        self.out.append(c)
        self.maybe_splice()

    def maybe_splice(self):
        if self.p_splice and self.src.chance(self.p_splice):
            k = self.src.weighted([(8, 1), (1, 2), (1, 5)])
            for _ in range(k):
                if self.p_tri and self.src.chance(20):
                    self.out.append("??/\n")
                    self.tags.add("trigraph-splice")
                else:
                    self.out.append("\\\n")
            self.tags.add("splice")

    def token(self, t):
        if "??" in t:
            self.out.append(t)
            return
        for c in t:
            self.char(c)
        if len(t) > 1 and t[0] in "\"'":
            self.tags.add("literal")

    def comment(self, newline):
        s = self.src
        n = s.weighted([(6, 8), (3, 40), (1, 200)]) if not self.big else s.weighted([(6, 8), (2, 300), (2, 5000)])
        self.tags.add("comment")
        if newline and self.line_comments and s.chance(40):
            self.tags.add("line-comment")
            self.text("//")
            self.text(body(s, s.int(0, n)).rstrip("\\ \t"))
            if s.chance(8):
                self.out.append("\\\n")
                self.text(body(s, s.int(0, n)).rstrip("\\ \t"))
                self.tags.add("spliced-comment")
            self.out.append("\n")
            return
        self.text("/*")
        self.text(body(s, s.int(0, n)))
        while s.chance(25):
            self.out.append("\n" if s.chance(80) else "\\\n")
            self.text(body(s, s.int(0, n)).lstrip("/"))
        if s.chance(20):
            self.out.append("*" * s.int(1, 5))
        self.text("*/")

    def text(self, t):
        for c in t:
            self.out.append(c)
            self.maybe_splice()

    def solidus(self):
        """Does the text end in a solidus, that would start a comment?"""
        for a in reversed(self.out):
            if not a.endswith("\n") or a == "\n":
                return a == "/"
        return False

    def space(self, newline):
        s = self.src
        k = s.weighted([(9, 0), (3, 1), (1, 2)]) + 1
        if self.big and s.chance(3):
            k = s.choice([100, 1000, 4095, 4096, 4097, 9000])
            self.tags.add("long")
        if self.solidus():
            self.out.append(" ")
        for _ in range(k):
            if newline and s.chance(self.p_nl):
                self.out.append("\n")
            elif self.p_comment and s.chance(self.p_comment) and k < 50:
                self.comment(newline)
            else:
                self.out.append(s.weighted([(8, " "), (3, "\t"), (1, "\v"), (1, "\f")]) if newline else
                                s.weighted([(8, " "), (3, "\t")]))
                self.maybe_splice()

    # Lines -----------------------------------------------------------------
    def tokens(self, text):
        return [(m.lastgroup, m[0]) for m in TOKEN.finditer(text)]

    def run(self, toks, newline, keep):
        """Write tokens; with keep, whether there is whitespace between two
        of them stays as it is."""
        prev = None
        ws = False
        for k, t in toks:
            if k == "ws":
                ws = True
                continue
            if prev is not None or ws:
                need = prev is not None and glues(prev, t)
                if keep:
                    put = ws or need
                else:
                    put = need or not self.minimal and self.src.chance(60 if ws else 25)
                if put:
                    self.space(newline)
            self.token(t)
            prev = t
            ws = False

    def directive(self, line):
        s = self.src
        if re.match(r"\s*#\s*(include|line|error|pragma)", line):
            self.out.append(line + "\n")
            return
        if s.chance(30):
            self.space(False)
        toks = self.tokens(line.strip())
        if len(toks) > 2 and toks[1][0] != "ws":
            toks.insert(1, ("ws", " ")) if s.chance(30) else None
        self.run(toks, False, True)
        if s.chance(20):
            self.space(False)
        self.out.append("\n")

    def program(self, text):
        text = re.sub(r"\\\n", " ", text)
        text = re.sub(r"""("(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*')|/\*.*?\*/""", lambda m: m[1] or " ", text, flags=re.S)
        chunk = []

        def flush():
            if chunk:
                self.run(self.tokens("\n".join(chunk)), True, self.stringify)
                chunk.clear()
                self.out.append("\n")
        for line in text.split("\n"):
            if line.lstrip().startswith("#"):
                flush()
                self.directive(line)
            else:
                chunk.append(line)
        flush()
        t = self.join()
        if self.crlf:
            self.tags.add("crlf")
            t = t.replace("\n", "\r\n")
        return t

    def join(self):
        """The atoms, without forming a trigraph or a splice by accident, and
        without a directive where there was none."""
        out = []
        tail = ""
        for a in self.out:
            if tail.endswith("??") and a[0] in "=(/)'<!>-":
                out.append(" ")
            out.append(a)
            tail = (tail + a)[-4:]
        t = "".join(out)
        if not t.endswith("\n") or t.endswith("\\\n") or t.endswith("??/\n"):
            t += "\n"
        return t
