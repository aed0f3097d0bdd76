"""C11: macro replacement. Random sets of definitions, and text using them,
are preprocessed with lacc and with two reference preprocessors; the token
sequences have to agree wherever the references agree. Texts turned into
strings are compiled and printed too, so that the tokens the parser gets are
covered as well as those -E prints."""
import os
import re

from pbt.engine import Property, Case, Fail, Skip, OK
from pbt.toolchain import run, write, GCC
from pbt import cdiff, pp

IDENTS = ["a", "b", "c", "x", "yy"]
NUMS = ["1", "2", "30", "1e", "0x4", "7u", ".5", "1.", "2.5e-3"]
PUNCT = ["+", "-", "*", "<", ">", "=", "&", "|", ".", "->", "++", "--", "<<", "==", "<=", ";", "[", "]",
         "?", ":", "!", "~", "^", "%", "##", "#", "...", ">>=", "{", "}", "/"]
STRS = ['"s"', '"a\\"b\\\\n"', '"\\n"', "'c'", "'\\''", "'\"'", '"x y"', "'\\\\'", '""', '"\\x41"', '"%s"', "'\\n'"]


class Macro:
    def __init__(self, name, params, va, named):
        self.name = name
        self.params = params       # None: object-like; names, without the variable one
        self.va = va               # None, "__VA_ARGS__" or a name
        self.simple = set()        # parameters that are operands of ##
        self.comma = False         # may use , ## __VA_ARGS__; chosen once


class Gen:
    def __init__(self, src):
        self.src = src
        self.macros = []
        self.opens = []             # (macro, function-like macro whose invocation it opens, arguments missing)
        self.tags = set()
        self.depth = 0
        self.lines = []

    def space(self, must=False):
        r = self.src.weighted([(4, " "), (5, ""), (1, "  "), (1, "/**/"), (1, " /* c */ "), (1, "\t")])
        return r or (" " if must else "")

    def plain(self):
        src = self.src
        return src.weighted([(5, 0), (3, 1), (3, 2), (1, 3)]) and self.other() or src.choice(IDENTS)

    def other(self):
        src = self.src
        k = src.draw(7)
        if k < 3:
            return src.choice(NUMS)
        if k < 6:
            return src.choice(PUNCT)
        return src.choice(STRS)

    def join(self, toks):
        """Tokens with random white space."""
        out = ""
        for t in toks:
            if not out:
                out = t
                continue
            sp = self.space()
            if sp == "" and ((out[-1].isalnum() or out[-1] in "_.'\"") and (t[0].isalnum() or t[0] in "_.'\"@")
                             or out[-1] in "/+-<>&|=.#*%!^:?" and t[0] in "/*+-<>&|=.#%:?"):
                sp = " "
            out += sp + t
        return out

    def name_ref(self):
        return "@" + self.src.choice([m.name for m in self.macros if not m.comma] or ["Mz"])

    def arg(self, m, i, depth, inner=()):
        src = self.src
        simple = i in m.simple
        if i == len(m.params) and m.comma:
            return src.choice(IDENTS)
        if simple:
            k = src.draw(6)
            if k == 0:
                self.tags.add("empty argument")
                return ""
            if k == 1 and self.macros:
                return self.name_ref()
            if k == 2:
                return src.choice(["1", "22"])
            if k == 3:
                return self.join([src.choice(IDENTS), self.plain_noparen(), src.choice(IDENTS)])
            return src.choice(IDENTS)
        k = src.draw(10)
        if k == 0:
            self.tags.add("empty argument")
            return ""
        if k == 1:
            self.tags.add("parenthesized comma")
            return "(" + self.text(depth + 1, 2, inner) + "," + self.text(depth + 1, 2, inner) + ")"
        if k == 2 and self.macros:
            self.tags.add("macro name as argument")
            return self.name_ref()
        return self.text(depth + 1, 3, inner)

    def plain_noparen(self):
        return self.src.choice(IDENTS + NUMS[:3] + ["+", "-", "*"])

    def call(self, m, depth, inner=()):
        src = self.src
        args = [self.arg(m, i, depth, inner) for i in range(len(m.params))]
        if m.va is not None:
            n = src.draw(4)
            if n == 0 and args:
                # (present but empty is different with the GNU comma)
                self.tags.add("no variable arguments")
            else:
                args += [self.arg(m, len(m.params), depth, inner) for _ in range(max(n, 1))]
        sep = lambda: "\n" if not inner and depth == 0 and src.chance(8) else src.choice(["", "", " "])
        s = "@" + m.name
        s += src.choice(["", "", " ", "\n" if depth == 0 and not inner else ""])
        if "\n" in s:
            self.tags.add("arguments on the next line")
        s += "(" + sep() + ("," + sep()).join(args) + sep() + ")"
        if "\n" in s:
            self.tags.add("invocation over several lines")
        return s

    def item(self, depth, inner):
        src = self.src
        k = src.draw(12)
        if k < 4 or not self.macros:
            t = self.plain()
            return "=" if inner and t in ("#", "##") else t
        if inner and k < 7:
            return src.choice(list(inner))
        m = src.choice(self.macros)
        if m.comma and (inner or depth):
            # gcc does not expand the arguments after the GNU comma on their
            # own, lacc does; with invocations in other invocations there
            # would be a difference.
            return self.plain()
        if m.params is None:
            return "@" + m.name
        if k == 11 and not m.comma:
            self.tags.add("name without arguments")
            return "@" + m.name
        if depth > 3:
            return self.plain()
        self.tags.add("nested invocation" if depth else "invocation")
        return self.call(m, depth, inner)

    def text(self, depth, n, inner=()):
        src = self.src
        return self.join([self.item(depth, inner) for _ in range(src.int(1, n))])

    def replacement(self, m):
        src = self.src
        names = list(m.params or []) + ([m.va] if m.va else [])
        n = src.int(0, 6)
        if n == 0:
            self.tags.add("empty replacement")
            return ""
        out = []
        for _ in range(n):
            k = src.draw(16)
            if names and k < 3 and m.params is not None:
                p = src.choice(names)
                self.tags.add("#")
                out.append("#" + src.choice(["", " "]) + p)
            elif k < 6:
                # chain of ##
                self.tags.add("##")
                ops = []
                for j in range(src.int(2, 3)):
                    q = src.draw(3)
                    if names and q:
                        i = src.draw(len(m.params)) if m.params else None
                        if i is None:
                            ops.append(src.choice(IDENTS))
                        else:
                            m.simple.add(i)
                            ops.append(m.params[i])
                    elif src.chance(30) and self.macros:
                        ops.append(self.name_ref())
                    elif j and src.chance(40):
                        ops.append(src.choice(["1", "2", "0"]))
                    else:
                        ops.append(src.choice(IDENTS))
                out.append((" " if src.chance(70) else "") .join(x for o in ops for x in (o, "##"))[:-2].rstrip())
            elif k == 6 and m.comma and m.params:
                self.tags.add(", ## __VA_ARGS__")
                out.append("[" + m.params[0] + src.choice([", ##", ",##", " , ## "]) + m.va + "]")
            elif k == 7:
                self.tags.add("partial invocation")
                fs = [x for x in self.macros if x.params is not None and not x.comma]
                if fs:
                    f = src.choice(fs)
                    out.append("@" + f.name + (" (" if src.chance(10) else ""))
            elif k == 8:
                out.append(src.choice(["(", ")", ","]) if src.chance(8) else ";")
            else:
                out.append(self.item(2, tuple(names)))
        # A # or ## that is not an operator would be a constraint violation.
        bad = ("##",) if m.params is None else ("#", "##")
        out = ["=" if o in bad else o for o in out]
        body = self.join(out)
        return body

    def define(self):
        src = self.src
        i = len(self.macros)
        name = "M%d" % i if not src.chance(25) else src.choice(["M", "Mx", "Mab"])
        if any(m.name == name for m in self.macros):
            name = "M%d" % i
        va = None
        if src.chance(60):
            params = ["p", "q", "r"][:src.draw(4)]
            if src.chance(25):
                va = "__VA_ARGS__" if not src.chance(20) else "rest"
                self.tags.add("variable arguments")
        else:
            params = None
        m = Macro(name, params, va, None)
        m.comma = va is not None and src.chance(30)
        # recursion: the macro itself may be used in its replacement
        if src.chance(30):
            self.macros.append(m)
            body = self.replacement(m)
            self.tags.add("maybe recursive")
        else:
            body = self.replacement(m)
            self.macros.append(m)
        self.emit_def(m, body)
        m.body = body

    def define_open(self):
        """A macro that ends in the middle of an invocation, which the text
        after it completes. The part of the arguments that is there may name
        the macro itself, which is not expanded again."""
        src = self.src
        fs = [x for x in self.macros if x.params and not x.comma and x.va is None]
        if not fs:
            return
        f = src.choice(fs)
        name = "O%d" % len(self.opens)
        m = Macro(name, None if src.chance(70) else ["p"], None, None)
        names = tuple(m.params or ())
        given = src.int(0, len(f.params) - 1)
        part = lambda: self.join(["@" + name if src.chance(40) else self.item(2, names) for _ in range(src.int(1, 3))])
        args = [part() for _ in range(given)]
        args.append(part() if src.chance(75) else "")
        pre = self.item(2, names) + " " if src.chance(40) else ""
        # recursive through another macro
        if src.chance(25):
            via = "V%d" % len(self.opens)
            self.lines.append("#define @%s %s@%s" % (via, src.choice(["", "1 ", "( ) "]), name))
            args[-1] += " @" + via
        body = pre + "@" + f.name + src.choice(["", " "]) + "(" + ", ".join(args)
        if m.params is None:
            bad = ("##",)
        else:
            bad = ("#", "##")
        body = " ".join("=" if o in bad else o for o in body.split(" "))
        self.emit_def(m, body)
        self.opens.append((m, f, len(f.params) - given - 1))

    def use_open(self):
        src = self.src
        m, f, rest = src.choice(self.opens)
        self.tags.add("invocation completed after the expansion")
        s = "@" + m.name
        if m.params:
            s += "(" + self.text(1, 2) + ")"
        s += " " + (self.text(1, 2) if src.chance(70) else "")
        s += "".join("," + self.text(1, 2) for _ in range(rest)) + src.choice([")", " )", "\n)"])
        return s

    def emit_def(self, m, body):
        src = self.src
        head = "@" + m.name
        if m.params is not None:
            ps = list(m.params)
            if m.va == "__VA_ARGS__":
                ps.append("...")
            elif m.va:
                ps.append(m.va + "...")
            head += "(" + src.choice([",", ", ", " , "]).join(ps) + ")"
        body = body.replace("\n", " ")
        if body[:1] == "(" or m.params is None:
            body = " " + body
        else:
            body = src.choice([" ", " ", "  ", "/**/"]) + body
        self.lines.append("#define " + head + body)

    def build(self):
        src = self.src
        for _ in range(src.int(1, 6)):
            self.define()
        if src.chance(30):
            self.define_open()
        exprs = []
        for _ in range(src.int(1, 4)):
            k = src.draw(10)
            if k == 9 and self.macros:
                m = src.choice(self.macros)
                self.tags.add("redefined")
                self.lines.append("#undef @" + m.name)
                if src.chance(70):
                    m.simple = set()
                    b = self.replacement(m)
                    self.emit_def(m, b)
                else:
                    self.macros.remove(m)
            if k in (7, 8):
                self.lines.append("=> @XS(" + self.text(0, 4) + ")")
                self.tags.add("expanded and stringified")
                continue
            t = self.text(0, 5)
            if self.opens and src.chance(60):
                t += " " + self.use_open() + " " + self.text(0, 2)
            if src.chance(12):
                self.tags.add("arguments follow the expansion")
                t += src.choice([" ", "", "\n"]) + "(" + self.text(1, 2) + ")"
            self.lines.append(t)
        for _ in range(src.int(0, 2)):
            exprs.append(self.text(1, 4))
        text = "\n".join("=" + l[0:] if l.lstrip()[:1] == "#" and not re.match(r"#(define|undef) @", l) else l
                         for l in self.lines)
        text = re.sub(r"\n(\s*)#(?!(define|undef) @)", r"\n\1=#", text)
        return text, exprs


def strip(toks, k):
    return [t.replace("c%d_" % k, "@") for t in toks]


def squeeze(t):
    return t.replace(" ", "") if t[:1] == '"' else t


EMPTY = {"empty replacement", "empty argument", "no variable arguments", "##"}

HEAD = "#define @S(...) #__VA_ARGS__\n#define @XS(...) @S(__VA_ARGS__)\n"


class P(Property):
    id = "C11"
    batch = 40
    quick_cases = 9000
    thorough_factor = 12
    std = "gnu99"
    rule = ("a case is one to six macro definitions with up to four lines of text using them, of which at least one "
            "invokes a function-like macro with an argument, pastes or stringifies; text identical up to the case "
            "prefix counts once")
    assumptions = [
        "gcc -E and clang -E agree with the standard where they agree with each other; where they differ the standard "
        "leaves a choice, and the case is not decided",
        "-std=gnu99 for the references, which is the dialect with ', ## __VA_ARGS__'",
        "white space that an empty argument or expansion leaves inside a stringified text is not compared",
    ]

    def gen(self, src, index):
        g = Gen(src)
        text, exprs = g.build()
        key = text + "|".join(exprs)
        nt = bool(g.tags & {"invocation", "nested invocation", "#", "##", "expanded and stringified"})
        return Case(key, nontrivial=nt, tags=g.tags, sample=text, text=text, exprs=exprs,
                    tags_empty=bool(g.tags & EMPTY))

    def source(self, cases):
        out = []
        spans = []
        line = 1
        for i, c in enumerate(cases):
            t = HEAD + "ZZMARK %d\n" % i + c.text + "\n"
            for e in c.exprs:
                t += "os(@XS(%s));\n" % e
            t = t.replace("@", "c%d_" % i)
            n = t.count("\n")
            spans.append((line, line + n))
            line += n
            out.append(t)
        return "".join(out), spans

    def references(self, ctx, cases, w):
        """Token sections of the cases the references decide, and the reasons
        why the others are not decided; both by position in cases."""
        why = {}
        secs = []
        for cc in (["clang", "-ferror-limit=0"], ["gcc"]):
            while True:
                live = [i for i in range(len(cases)) if i not in why]
                src, spans = self.source([cases[i] for i in live])
                write(os.path.join(w, "m.c"), src)
                r = run(cc + ["-E", "-P", "-w", "-std=gnu99", "m.c"], cwd=w, cpu=4, wall=60)
                if not r.code and not r.timeout:
                    break
                n = len(why)
                for m in re.finditer(r"(?m)^m\.c:(\d+):(?:\d+:)? (?:fatal )?error: (.*)", cdiff.text_of(r.err)):
                    for i, (lo, hi) in zip(live, spans):
                        if lo <= int(m[1]) < hi:
                            msg = re.sub(r'"[^"]*"|\'[^\']*\'|[0-9]+', "_", m[2])
                            why.setdefault(i, "%s: %s" % (cc[0], " ".join(msg.split()[:7])))
                            if "unterminated" in msg:
                                break
                if len(why) == n:
                    # no line to blame
                    for i in live:
                        why[i] = "%s: %s" % (cc[0], "time out" if r.timeout else cdiff.text_of(r.err)[:80])
            sec = pp.split(pp.tokens(r.out), "ZZMARK")
            secs.append({i: strip(sec.get(str(k), []), k) for k, i in enumerate(live)})
        for i in secs[1]:
            if secs[0][i] != secs[1][i]:
                why[i] = "gcc and clang differ"
        return secs[1], why

    def run_batch(self, ctx, cases):
        w = ctx.work()
        exp, why = self.references(ctx, cases, w)
        good = [i for i in range(len(cases)) if i not in why]
        out = [Skip(why[i]) if i in why else OK for i in range(len(cases))]
        if not good:
            return out
        # Only the decided ones, under new numbers.
        sel = [cases[i] for i in good]
        src, _ = self.source(sel)
        write(os.path.join(w, "m.c"), src)
        toks, err, r = pp.preprocess([ctx.lacc], [], "m.c", w, "c99")
        if toks is None:
            if len(cases) > 1:
                return self.each(ctx, cases)
            return [Fail("lacc -E fails on a text gcc and clang accept: " + err)]
        got = pp.split(toks, "ZZMARK")
        for j, i in enumerate(good):
            e = exp[i]
            g = strip(got.get(str(j), []), j)
            d = pp.diff(e, g)
            if d and cases[i].tags_empty and not pp.diff([squeeze(t) for t in e], [squeeze(t) for t in g]):
                out[i] = Skip("white space left by an empty expansion")
            elif d:
                out[i] = Fail("tokens of lacc -E: " + d)
        if len(cases) > 1 and any(isinstance(o, Fail) for o in out):
            return self.each(ctx, cases)
        if any(isinstance(o, Fail) for o in out):
            return out
        o = self.compiled(ctx, w, [cases[i] for i in good if out[i] is OK])
        if o is not OK:
            return o
        return out

    def each(self, ctx, cases):
        out = []
        for c in cases:
            o = self.run_batch(ctx, [c])
            out.append(o if isinstance(o, Fail) else o[0])
        return out

    def compiled(self, ctx, w, cases):
        """The stringified texts through the parser, printed at run time."""
        src = cdiff.PRELUDE
        body = ""
        for i, c in enumerate(cases):
            defs = HEAD + "\n".join(l for l in c.text.split("\n") if re.match(r"#(define|undef) @", l)) + "\n"
            if not c.exprs:
                continue
            src += defs.replace("@", "c%d_" % i)
            lines = "".join("os(@XS(%s));\n" % e for e in c.exprs).replace("@", "c%d_" % i)
            src += "void go%d(void)\n{\n%s}\n" % (i, lines)
            body += "    go%d();\n" % i
        if not body:
            return OK
        src += "int main(void)\n{\n%s    return 0;\n}\n" % body
        ref, err = cdiff.reference(ctx, src, std="gnu99")
        if ref is None:
            return OK
        return cdiff.check_modes(ctx, src, ref.out, ref.code, ["c"], std="c99")

    def render(self, ctx, cases):
        src, _ = self.source(cases)
        return {"repro.c": src, "how.txt": "compare the tokens of: lacc -E repro.c; gcc -E -P -std=gnu99 repro.c\n"}
