"""C13: source text becomes the tokens and literals the standard defines."""
import os
import re

from pbt.engine import Property, Case, Fail, Skip, OK
from pbt.toolchain import run, write, GCC
from pbt.layout import Layout
from pbt import cdiff, corpus, pp
from checks.common import BatchProgram


def integer(src):
    base = src.weighted([(4, 10), (3, 16), (3, 8)])
    v = src.weighted([(3, src.draw(300)), (4, (1 << src.int(0, 64)) + src.int(-2, 2)), (3, src.bits(src.int(1, 64)))])
    v = max(0, min(v, (1 << 64) - 1))
    u = src.chance(35)
    ll = src.weighted([(5, ""), (3, "l"), (2, "L"), (2, "ll"), (2, "LL")])
    if base == 10 and not u:
        v &= (1 << 63) - 1
    if base == 10:
        t = str(v)
    elif base == 8:
        t = "0" * src.weighted([(6, 1), (1, 3), (1, 30)]) + ("%o" % v if v or src.chance(50) else "")
    else:
        d = "%x" % v
        t = src.choice(["0x", "0X"]) + "0" * src.weighted([(6, 0), (1, 2), (1, 40)]) + "".join(
            c.upper() if src.chance(30) else c for c in d)
    us = src.choice(["u", "U"]) if u else ""
    return t + (us + ll if src.chance(50) else ll + us), {"int", "base:%d" % base} | ({"suffix"} if u or ll else set())


def floating(src):
    suf = src.weighted([(4, ""), (2, "f"), (1, "F"), (2, "l"), (1, "L")])
    digits = lambda a, b: "".join(src.choice("0123456789") for _ in range(src.int(a, b)))
    lim = {"f": 30, "l": 4000}.get(suf.lower(), 290)
    if src.chance(30):
        hx = lambda a, b: "".join(src.choice("0123456789abcdefABCDEF") for _ in range(src.int(a, b)))
        n = src.weighted([(5, 6), (2, 14), (2, 17), (1, 40)])
        m = src.weighted([(3, hx(1, n)), (2, hx(1, n) + "."), (2, "." + hx(1, n)), (4, hx(1, n) + "." + hx(1, n))])
        e = src.int(-lim * 3, lim * 3 - 4 * n - 4) if src.chance(50) else src.int(-40, 20)
        return "%s%s%s%s%d%s" % (src.choice(["0x", "0X"]), m, src.choice("pP"), "+" if e >= 0 and src.chance(40) else "", e, suf), \
            {"float", "hex-float"}
    n = src.weighted([(5, 4), (3, 17), (2, 21), (1, 60)])
    m = src.weighted([(3, digits(1, n) + "."), (2, "." + digits(1, n)), (4, digits(1, n) + "." + digits(1, n)), (2, None)])
    need = m is None
    if need:
        m = digits(1, n)
    e = ""
    if need or src.chance(50):
        k = src.int(-lim - 10, max(0, lim - n)) if src.chance(40) else src.int(-12, 12)
        if n > 30:
            k = src.int(-12, 12) if suf.lower() == "f" else k
            if suf.lower() == "f":
                m = m[:20]
        e = src.choice("eE") + ("+" if k >= 0 and src.chance(40) else "") + ("-" if k < 0 else "") + \
            "0" * src.weighted([(6, 0), (1, 3)]) + str(abs(k))
    return m + e + suf, {"float"}


SIMPLE = "abtnvfr?'\"\\"
PLAIN = [chr(c) for c in range(32, 127) if chr(c) not in "\"'\\?@"]


def escape(src, follow_hex=False):
    k = src.weighted([(4, "s"), (4, "o"), (3, "x")])
    if k == "s":
        return "\\" + src.choice(SIMPLE), "simple"
    if k == "o":
        v = src.weighted([(3, 0), (4, src.draw(128)), (4, src.draw(256))])
        t = "%o" % v
        n = src.int(len(t), 3)
        return "\\" + t.zfill(n), "octal%d" % n
    v = src.draw(256)
    return "\\x" + "0" * src.weighted([(6, 0), (1, 1), (1, 6)]) + (
        "%x" if src.chance(50) else "%X") % v, "hex"


def char(src):
    if src.chance(70):
        e, k = escape(src)
        return "'" + e + "'", {"char", "escape:" + k}
    c = src.choice(PLAIN + ['"', "?"])
    return "'" + c + "'", {"char"}


def string(src):
    """One literal: quotes and characters."""
    n = src.weighted([(3, src.draw(5)), (4, src.int(5, 18)), (2, src.int(18, 40)), (1, src.choice([63, 64, 127, 128, 255, 256, 257, 700]))])
    out = []
    tags = {"string"}
    k = 0
    hexed = False
    style = src.weighted([(5, "mixed"), (2, "plain"), (2, "escapes"), (1, "nul")])
    while k < n:
        if style != "plain" and src.chance(25 if style == "mixed" else 90):
            e, kind = escape(src) if style != "nul" or src.chance(40) else ("\\0", "octal1")
            out.append(e)
            tags.add("escape:" + kind)
            hexed = kind == "hex"
        else:
            c = src.choice("0123456789abcABC" if src.chance(25) else PLAIN + ["'", "?", "?"] + ([] if src.chance(80) else ["/*", "*/", "//", "# "]))
            if hexed and c[0] in "0123456789abcdefABCDEF":
                c = src.choice("ghz_ !")
            out.append(c)
            hexed = False
        k += 1
    t = "".join(out)
    # No trigraph here; the layout makes them.
    while re.search(r"\?\?[=(/)'<!>-]", t):
        t = re.sub(r"\?\?([=(/)'<!>-])", r"?\\?\1", t)
    return '"' + t + '"', tags


# Letters outside ASCII, in UTF-8.
EXTENDED = ["\xc3\xaa", "\xc3\xb5", "\xc3\xba", "\xce\xb5"]


class P(BatchProgram, Property):
    id = "C13"
    batch = 10
    quick_cases = 9000
    thorough_factor = 14
    rule = ("literals of all kinds, spelled in all ways, whose type, size and value are observed; programs whose layout is "
            "changed without changing the tokens; and glued sequences of characters to be split into tokens. "
            "Non-trivial: a literal with an escape, suffix, exponent or concatenation; a layout with a splice, trigraph, comment, "
            "long line or CRLF, or with minimal separation; a sequence of at least 3 tokens. Distinct texts")
    assumptions = ["gcc decides type and value of literals and the tokens; before a difference in layout counts, "
                   "gcc makes the same code of both texts"]

    # Generation ---------------------------------------------------------------
    def gen(self, src, index):
        k = index // self.batch % 10
        if k < 5:
            return self.gen_literal(src, index)
        if k < 8:
            return self.gen_layout(src)
        return self.gen_split(src)

    def gen_literal(self, src, index):
        out, tags = [], set()
        nt = False
        decl = ""
        for i in range(src.int(2, 8)):
            k = src.weighted([(4, "int"), (4, "float"), (3, "char"), (6, "string")])
            if k == "int":
                t, g = integer(src)
                out.append("oi(%d, sizeof(%s)); oi(0, %s); oi(1, (%s) * 0 - 1 < 0);" % (i, t, t, t))
                if src.chance(30):
                    out.append("oi(2, -%s / 3); oi(3, ~%s >> 1); oi(4, %s%s%s);" % (t, t, src.choice("+-~"), src.choice(["", " "]), t))
                nt |= "suffix" in g
                if src.chance(30):
                    decl += "#if %s == %s && -(%s) %s 0\nint @p%d = 1;\n#else\nint @p%d = 2;\n#endif\n" % (
                        t, re.sub("[lL]+", "LL", t), t, src.choice(["<", ">", "<="]), i, i)
                    out.append("oi(9, @p%d);" % i)
            elif k == "float":
                t, g = floating(src)
                z = t[-1].lower()
                out.append("oi(%d, sizeof(%s)); %s(0, %s);" % (i, t, "of" if z == "f" and "0x" not in t.lower() else "od" if z != "l" else "ol", t))
                if src.chance(20):
                    decl += "static const %s @f%d = %s;\n" % (src.choice(["float", "double", "long double"]), i, t)
                    out.append("od(1, (double) @f%d);" % i)
                nt = True
            elif k == "char":
                t, g = char(src)
                out.append("oi(%d, sizeof(%s)); oi(0, %s);" % (i, t, t))
                if src.chance(30):
                    decl += "#if %s < 0\nint @p%d = 1;\n#elif %s == %d\nint @p%d = 3;\n#else\nint @p%d = 2;\n#endif\n" % (
                        t, i, t, src.draw(128), i, i)
                    out.append("oi(9, @p%d);" % i)
                nt |= len(t) > 3
            else:
                n = src.weighted([(5, 1), (3, 2), (1, 3), (1, 6)])
                parts, g = [], set()
                for _ in range(n):
                    t, h = string(src)
                    parts.append(t)
                    g |= h
                if n > 1:
                    g.add("concatenated")
                t = src.choice([" ", "\n", "", "\t"]).join(parts)
                use = src.weighted([(4, "ptr"), (3, "array"), (2, "static"), (2, "index"), (1, "longer"), (2, "static-array"),
                                    (1, "macro"), (2, "member")])
                g.add("use:" + use)
                if use == "ptr":
                    out.append("oi(%d, sizeof(%s)); om(0, %s, sizeof(%s));" % (i, t, t, t))
                elif use == "array":
                    out.append("{ char a[] = %s; oi(%d, sizeof(a)); om(0, a, sizeof(a)); }" % (t, i))
                elif use == "longer":
                    decl += "static char @a%d[5000] = %s;\n" % (i, t)
                    out.append("om(%d, @a%d, 5000);" % (i, i))
                elif use == "static":
                    decl += "static const char *@q%d = %s;\n" % (i, t)
                    out.append("om(%d, @q%d, sizeof(%s));" % (i, i, t))
                elif use == "static-array":
                    decl += "char @r%d[] = %s;\n" % (i, t)
                    out.append("om(%d, @r%d, sizeof(@r%d));" % (i, i, i))
                elif use == "index":
                    out.append("oi(%d, (%s)[0]); oi(1, (%s)[sizeof(%s) / 2]); oi(2, sizeof(%s) - 1);" % (i, t, t, t, t))
                elif use == "macro":
                    decl += "#define @M%d %s\n" % (i, t.replace("\n", " "))
                    out.append("om(%d, @M%d \"x\" @M%d, sizeof(@M%d @M%d));" % (i, i, i, i, i))
                else:
                    decl += "static struct { char a[3], b[5000], *c; } @s%d = {\"a\\0\", %s, %s};\n" % (i, t, t)
                    out.append("om(%d, @s%d.b, sizeof(%s)); om(0, @s%d.c, sizeof(%s));" % (i, i, t, i, t))
                nt |= bool({x for x in g if x.startswith("escape") or x == "concatenated"})
            tags |= g
        if src.chance(25):
            # Identifiers that differ late, or in one character.
            n = src.weighted([(3, src.int(1, 20)), (2, src.int(28, 36)), (2, src.choice([63, 64, 255, 256, 300, 3000]))])
            letters = list("abcXYZ_019") + (EXTENDED if src.chance(30) else [])
            stem = "@" + "".join(src.choice(letters) for _ in range(n))
            names = []
            for j in range(src.int(2, 5)):
                m = stem + src.choice([EXTENDED[0] if letters[-1] == EXTENDED[-1] else "", EXTENDED[1] if letters[-1] == EXTENDED[-1] else "b", "", "a", "b", "_", "0", "aa", "A", "00", "int", "1"])
                if m not in names:
                    names.append(m)
            decl += "".join("static int %s = %d;\n" % (m, 3 + j) for j, m in enumerate(names))
            out.append(" ".join("oi(%d, %s);" % (j, m) for j, m in enumerate(names)))
            tags.add("identifiers")
        text = decl + "static void @go(void)\n{\n    %s\n}\n" % "\n    ".join(out)
        name = "c%d_" % index
        text = text.replace("@", name)
        if src.chance(40):
            l = Layout(src, "c99", crlf=False)
            l.p_splice = min(l.p_splice, 1)
            text = l.program(text)
            tags |= l.tags
            tags.add("layout")
        mode = src.choice(["c", "S", "c-O1", "E", "c-nopic"])
        return Case(text, kind="literal", tags=tags | {"mode:" + mode}, nontrivial=nt, sample=text[:1500], text=text,
                    call=name + "go();", exp=None, mode=mode)

    def gen_layout(self, src):
        std = src.weighted([(6, "c99"), (2, "c89"), (1, "c11")])
        while True:
            x = corpus.one(src, "t.c", {"c01", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c14"})
            t = x.files["t.c"]
            if "__LINE__" not in t and "//" not in t:
                break
        l = Layout(src, std, stringify=bool(re.search(r"#\s*define.*[^#]#\s*\w", t)))
        new = l.program(t)
        if src.chance(20):
            # Some construct falls on the end of the input buffer.
            pad = 4096 * src.int(1, 3) - src.int(0, min(len(new), 3000))
            nl = "\r\n" if l.crlf else "\n"
            new = src.choice(["/*%s*/%s", "%s%s", "/*%s\n*/%s"]) % (" " * max(0, pad), nl) + new
            l.tags.add("padded")
        return Case(new, kind="layout", tags={"layout", x.kind} | l.tags | ({"minimal"} if l.minimal else set()), old=t, new=new, std=std,
                    nontrivial=l.minimal or bool(l.tags - {"literal"}), sample=new[:1500], mode="S")

    def gen_split(self, src):
        lines = []
        n = src.int(6, 14)
        ext = src.chance(25)
        for i in range(n):
            t = []
            for _ in range(src.int(1, 14)):
                t.append(src.weighted([(6, lambda: src.choice("abexpPEuUlLf_x")), (1 if ext else 0, lambda: src.choice(EXTENDED)), (4, lambda: src.choice("0123456789")),
                                       (3, lambda: "."), (3, lambda: src.choice("+-")), (4, lambda: src.choice("<>=!&|^*/%~?:")),
                                       (2, lambda: src.choice(["0x", "1e", "1.", ".5", "e+", "p-", "...", "->", "++", "<<=", "##", "#"])),
                                       (1, lambda: src.choice(["(", ")", "[", "]", "{", "}", ",", ";"])),
                                       (1, lambda: src.choice(['"a\\"b"', "'x'", "'\\''", '"/*"', '"\'"', '"//"', '"??"', "'\"'"])),
                                       (1, lambda: src.choice([" ", "\t", "/**/", "/***/", "/*/*/", "/*\"*/", "/*//*/", "??=", "??(", "??x",
                                                               "???-", "\\\n", "/\\\n*x*\\\n/"]))])())
            t = "".join(t)
            # No comment left open, no digraph, no other literal.
            t = re.sub(r"<:|<%|:>|%>|%:", "<", t)
            t = re.sub(r"(?s)\?\?/", "?", t)
            # No wide literals.
            t = re.sub(r"([LuU8])((?:\\\n)*['\"])", r"\1 \2", t)
            lines.append(t)
        std = src.weighted([(5, "c99"), (2, "c11")])
        fixed = []
        for t in lines:
            s = self.strip(t)
            if s is None:
                t = re.sub(r"[/\"']", "+", t).replace("\\\n", "")
                t = re.sub(r"<:|<%|:>|%>|%:", "<", t)
            fixed.append(t)
        defs = "".join("#define %s %s\n" % (c, d) for c, d in zip("abexpPEuUlLf", "AA BB e1 (x) 0 9 e2 1.5 \"s\" -1 f(f) b".split(" ")) if src.chance(60))
        text = defs + "".join("Q%d %s\n" % (i, t) for i, t in enumerate(fixed))
        return Case(text, kind="split", tags={"split"}, nontrivial=True, sample=text, text=text, std=std, mode="E")

    def strip(self, t):
        """The line without comments and splices, or None if a comment or a literal does not end in it."""
        t = re.sub(r"\?\?([=()'<!>-])", lambda m: "#[]^{|}~"["=()'<!>-".index(m[1])], t)
        t = t.replace("\\\n", "")
        out = ""
        i = 0
        while i < len(t):
            m = re.compile(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])\'|/\*.*?\*/|//.*|[^"\'/]|/(?![*/])', re.S).match(t, i)
            if not m:
                return None
            out += " " if m[0][:2] in ("/*", "//") else m[0]
            i = m.end()
        if "\\" in re.sub(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])\'', "", out):
            return None
        return out

    # Judging --------------------------------------------------------------------
    def run_batch(self, ctx, cases):
        kinds = {c.kind for c in cases}
        if len(kinds) > 1:
            return [x if isinstance(x, Fail) else x[0] for x in (self.run_batch(ctx, [c]) for c in cases)]
        k = kinds.pop()
        if k == "literal":
            return super().run_batch(ctx, cases)
        return [getattr(self, k)(ctx, c) for c in cases]

    def asm(self, ctx, tool, text, std, name):
        w = ctx.work()
        d = os.path.join(w, name)
        os.makedirs(d, exist_ok=True)
        write(os.path.join(d, "t.c"), text)
        r = run(tool + ["-std=" + std, "-S", "t.c", "-o", "t.s"], cwd=d, cpu=30)
        if r.code or r.timeout:
            return None, r
        with open(os.path.join(d, "t.s"), "rb") as f:
            return f.read(), r

    def layout(self, ctx, c):
        a, r = self.asm(ctx, [ctx.lacc], c.old, c.std, "old")
        if a is None:
            return Skip("rejected: " + cdiff.text_of(r.err)[:100])
        b, r = self.asm(ctx, [ctx.lacc], c.new, c.std, "new")
        if a == b:
            return OK
        msg = "layout changes the program: " + (
            "rejected: " + cdiff.text_of(r.err)[:400] if b is None else cdiff.first_difference(a, b))
        g = GCC + ["-O0", "-fno-asynchronous-unwind-tables"]
        x, r = self.asm(ctx, g, c.old, c.std, "gold")
        y, r2 = self.asm(ctx, g, c.new, c.std, "gnew")
        if x is None or x != y:
            return Skip("doubtful: gcc: " + cdiff.text_of((r if x is None else r2).err)[:100])
        return Fail(msg)

    def split(self, ctx, c):
        w = ctx.work()
        f = os.path.join(w, "split.c")
        write(f, c.text)
        g, err, _ = pp.preprocess(["gcc", "-P", "-w"], [], f, w, c.std)
        if g is None:
            return Skip("gcc: " + err[:80])
        l, err, r = pp.preprocess([ctx.lacc], [], f, w, c.std)
        if l is None:
            return Fail("lacc -E: " + err)
        d = pp.diff(g, l)
        return Fail(d) if d else OK

    def render(self, ctx, cases):
        c = cases[0]
        if c.kind == "literal":
            return super().render(ctx, cases)
        if c.kind == "layout":
            return {"original.c": c.old, "repro.c": c.new, "how.txt": "lacc -std=%s -S t.c gives different code for the two texts\n" % c.std}
        return {"repro.c": c.text, "how.txt": "the tokens of lacc -E -std=%s differ from those of gcc\n" % c.std}
