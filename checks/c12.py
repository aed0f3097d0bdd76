"""C12: directives, inclusion and the options that affect them. Random trees of
files with nested conditionals, definitions, inclusions and #line, processed
with random command lines by lacc -E and gcc -E; the tokens, which include
__LINE__ and __FILE__ on every text line, have to be the same."""
import os
import re
import shutil

from pbt.engine import Property, Case, Fail, Skip, OK
from pbt.toolchain import run, write
from pbt import cdiff, pp

MACROS = ["A", "B", "C", "D", "E"]
DIRS = ["", "sub/", "inc1/", "inc2/", "inc1/sub/", "sys/"]


class Gen:
    def __init__(self, src):
        self.src = src
        self.files = {}
        self.tags = set()
        self.n = 0
        self.left = 60

    # Expressions of #if.
    def cond(self, depth=0):
        src = self.src
        k = src.draw(12 if depth < 3 else 6)
        if k < 2:
            return src.choice(MACROS)
        if k == 2:
            return "defined " + src.choice(MACROS)
        if k == 3:
            return "defined%s(%s%s)" % (src.choice(["", " "]), src.choice(MACROS), src.choice(["", " "]))
        if k < 6:
            return src.choice(["0", "1", "2", "-1", "3u", "'a'", "0x10", "010", "int", "unknown", "__LINE__", "4L",
                               "F(1)", "G(2, A)"])
        if k == 6:
            return "!" + self.cond(depth + 2)
        if k == 7:
            return "(" + self.cond(depth + 1) + ")"
        if k == 8:
            return "(%s ? %s : %s)" % (self.cond(depth + 1), self.cond(depth + 1), self.cond(depth + 1))
        op = src.choice(["&&", "||", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "&", "|", "^", "<<", ">>"])
        sp = src.choice([" ", ""])
        a, b = self.cond(depth + 1), self.cond(depth + 1)
        if op in ("<<", ">>"):
            b = src.choice(["1", "3", "(A)"]) if False else src.choice(["1", "3"])
        if op in ("+", "-", "&"):
            sp = " "
        return "(%s%s%s%s%s)" % (a, sp, op, sp, b)

    def hash(self, d):
        src = self.src
        s = src.weighted([(8, ""), (1, " "), (1, "  "), (1, "\t"), (1, "/* c */")]) + "#" + \
            src.weighted([(8, ""), (1, " "), (1, "\t"), (1, "/**/ ")]) + d
        if src.chance(6):
            # splice somewhere
            i = src.draw(len(s)) + 0
            if s[i:i + 1] not in ("/", "*") and s[i - 1:i] not in ("/", "*"):
                self.tags.add("spliced directive")
                s = s[:i] + "\\\n" + s[i:]
        elif src.chance(6):
            self.tags.add("comment in directive")
            s += src.choice([" /* x */", " // y", " /* a\n b */", " /* a\n\n b */"])
        # The number __LINE__ has in a directive of several lines is up to the
        # implementation.
        return s.replace("__LINE__", "3") if "\n" in s else s

    def text(self):
        src = self.src
        self.n += 1
        parts = ["T%d" % self.n, "__LINE__", "__FILE__"]
        for _ in range(src.int(0, 3)):
            parts.append(src.choice(MACROS + ["F(A)", "G(1,B)", "__LINE__", "POS", '"s"']))
        if src.chance(8):
            # (the number __LINE__ has after a splice in the middle is up to
            # the implementation, so it is not used on that line)
            self.tags.add("splice in text")
            parts = [p for p in parts if p in (parts[0], "__FILE__", '"s"')]
            parts.insert(1 + src.draw(len(parts)), "\\\n")
        elif src.chance(8):
            self.tags.add("comment over lines")
            return "/* x\n y */ " + " ".join(p for p in parts if p in (parts[0], "__FILE__", '"s"'))
        return " ".join(parts)

    def garbage(self):
        src = self.src
        self.tags.add("skipped garbage")
        return src.choice([
            "#error never", "#include \"nonexistent.h\"", "#include <nonexistent.h>", "#include", "#foo bar",
            "#define", "#define 1 2", "#define A A", "#undef", "#line bad", "#line", "( [ { \"x\" ", "it's", "say \"hi",
            "#define F(x x", "#pragma x", "# 12", "#if (\n#endif", "#if 1/0\n#elif 2/0\n#else\n#endif",
            "#if unknown(1) ) 3\n#else\n#endif", "#ifdef\n#endif", "#ifndef 12\n#endif", "#if F(\n#endif",
            "#if defined\n#elif defined(\n#endif", "#if 1\n#error no\n#elif 1\n#error no\n#else\n#error no\n#endif",
            "#ifdef A\n#error no\n#else\n#error no\n#endif", "@ ` $", "/* #endif */", "// #endif", "?? =endif \" '",
            "#define A \\\n#endif", "/*\n#endif\n*/", "#if 'ab' == L'c'\n#endif", "#", "# /* */", "#unassert x", "#if\n#endif",
            "F(", "# else_", "#endifx", "#if 0\n#elif\n#endif", "0x 1e+ 1..2 'c", "#warning w"])

    def define(self):
        src = self.src
        m = src.choice(MACROS)
        k = src.draw(4)
        if k == 0:
            return [self.hash("undef " + m)]
        v = src.choice(["0", "1", "2", "", "(1 + 1)", "-1", "B", "C", "F(2)", "3", "defined_", "1u"])
        out = [self.hash("undef " + m)]
        out.append(self.hash("define %s%s" % (m, " " + v if v else "")))
        return out

    def include(self, level, path):
        src = self.src
        if level >= 5:
            return [self.text()]
        i = src.int(level + 1, 5)
        name = "h%d.h" % i
        form = src.draw(6)
        self.tags.add("include")
        pre = src.choice(["", "", "", "sub/", "sub/../"] + (["inc1/", "inc2/../inc1/"] if "/" not in path[2:] else []))
        if form < 3:
            return [self.hash('include "%s%s"' % (pre, name))]
        if form < 5:
            return [self.hash("include <%s%s>" % ("sub/" if pre == "sub/" else "", name))]
        self.tags.add("computed include")
        return ["#undef H", src.choice(['#define H "%s%s"' % (pre, name), "#define H <%s>" % name,
                                        "#define H H2\n#undef H2\n#define H2 \"%s\"" % name,
                                        "#define H HS(%s)\n#undef HS\n#define HS(x) #x" % name]),
                self.hash("include H")]

    def lines(self, level, path, depth, n):
        src = self.src
        out = []
        for _ in range(n):
            if self.left <= 0:
                break
            self.left -= 1
            k = src.weighted([(6, 0), (4, 1), (5, 2), (3, 3), (1, 4), (1, 5), (1, 6), (1, 7)])
            if k == 0:
                out.append(self.text())
            elif k == 1:
                out += self.define()
            elif k == 2 and depth < 4:
                out += self.group(level, path, depth)
            elif k == 3:
                out += self.include(level, path)
            elif k == 4:
                self.tags.add("#line")
                num = src.choice(["100", "1", "7", "2000000", "007", "LN"])
                f = src.choice(["", "", ' "foo.c"', ' "x/y.h"', " FN"])
                out += ["#undef LN", "#define LN 44", "#undef FN", '#define FN "fn.c"', self.hash("line " + num + f)]
            elif k == 5:
                self.tags.add("pragma")
                out.append(src.choice(["#pragma foo bar", "_Pragma(\"foo x\")", "#pragma", "#", "_Pragma ( \"a \\\"b\\\" c\" ) " +
                                       "T%d" % self.n]))
            elif k == 6:
                out += [""] * src.int(1, 3)
            else:
                self.tags.add("invocation over lines")
                out.append("F(\n%s\n)" % src.choice(["1", "x", "2\n"]))
        return out

    def group(self, level, path, depth):
        src = self.src
        out = []
        self.tags.add("conditional" if depth == 0 else "nested conditional")
        k = src.draw(6)
        known = None
        if k == 0:
            out.append(self.hash("ifdef " + src.choice(MACROS)))
        elif k == 1:
            out.append(self.hash("ifndef " + src.choice(MACROS)))
        elif k == 2:
            known = src.chance(40)
            out.append(self.hash("if " + (src.choice(["1", "!0", "defined(__STDC__)"]) if known else
                                          src.choice(["0", "!1", "NOPE", "defined NOPE"]))))
        else:
            out.append(self.hash("if " + self.cond()))
        taken = known
        body = lambda: self.lines(level, path, depth + 1, src.int(0, 4))
        out += [self.garbage() for _ in range(src.int(1, 3))] if known is False else body()
        for _ in range(src.weighted([(4, 0), (3, 1), (2, 2), (1, 3)])):
            self.tags.add("elif")
            if taken:
                out.append(self.hash("elif " + src.choice([self.cond(), "1/0", "unknown(1)", "0"])))
                out += [self.garbage() for _ in range(src.int(1, 2))]
            else:
                out.append(self.hash("elif " + self.cond()))
                out += body()
        if src.chance(50):
            self.tags.add("else")
            out.append(self.hash("else"))
            out += [self.garbage()] if taken else body()
        out.append(self.hash("endif"))
        return out

    def file(self, path, level):
        src = self.src
        out = []
        guard = None
        if level >= 0 and src.chance(50):
            guard = "GUARD_" + re.sub(r"\W", "_", path)
            self.tags.add("guard")
            out += ["#ifndef " + guard, "#define " + guard]
        out += self.lines(level, path, 0, src.int(1, 7))
        if guard:
            out.append("#endif")
        if not out:
            out = [self.text()]
        end = "\n"
        self.files[path] = "\n".join(out) + end

    def build(self):
        src = self.src
        opts = []
        main = src.choice(["main.c", "main.c", "sub/main.c", "./main.c"])
        self.left = 70
        self.files[main] = None
        self.file(main, -1)
        body = "\n".join(["#define POS __LINE__", "#define F(x) x+1", "#define G(x, y) (x)*y"]) + "\n" + self.files[main]
        self.files[main] = body
        need = range(0, 6)
        for i in need:
            dirs = src.sample(DIRS, src.int(0, 3))
            dirs += [d for d in ("inc1/", "inc1/sub/") if d not in dirs]
            for d in dirs:
                self.left = max(self.left, 0) + 8
                self.file(d + "h%d.h" % i, i)
            if len(dirs) > 1:
                self.tags.add("name in several directories")
        I = lambda d: src.choice([["-I" + d], ["-I", d], ["-I" + d + "/"]])
        order = src.shuffle(["inc1", "inc2"])
        incs = [I(d) for d in order]
        if src.chance(30):
            incs.insert(src.draw(3), I("sub"))
        if src.chance(20):
            self.tags.add("-isystem")
            incs.append(src.choice([["-isystem", "sys"], ["-isystemsys"]]))
        if src.chance(20):
            self.tags.add("-include")
            for _ in range(src.int(1, 2)):
                incs.append(["-include", src.choice(["inc1/", "inc1/sub/", ""]) + "h%d.h" % src.draw(6)])
        if src.chance(10):
            incs.append(["-nostdinc"])
        defs = []
        for m in src.sample(MACROS + ["Z"], src.int(0, 3)):
            v = src.choice(["", "", "=", "=1", "=0", "=2", "=B", "=1 + 1", "=F(3)", "==", "=\"s\"", "=1==2", "=B<=2", "=x=1"])
            self.tags.add("-D")
            defs.append(src.choice([["-D" + m + v], ["-D", m + v]]))
        if src.chance(15):
            self.tags.add("function-like -D")
            defs.append(["-DK(x,y)=x y x"])
            self.files[main] += "K(1,__LINE__)\n"
        for o in src.shuffle(incs[:2] + incs[2:] + defs) if src.chance(50) else incs + defs:
            opts += o
        # -I order matters: keep the reference and lacc on the same line
        std = src.choice(["c99", "c99", "c89", "c11"])
        self.files[main] += "__STDC_VERSION__ __STDC__ Z\n"
        if std == "c89":
            # lacc has // comments in all dialects
            self.files = {k: v.replace(" // y", "") for k, v in self.files.items()}
        return main, opts, std


class P(Property):
    id = "C12"
    batch = 8
    quick_cases = 8000
    thorough_factor = 12
    rule = ("a case is a tree of files and a command line with at least one conditional or inclusion; file contents and "
            "options together identify it")
    assumptions = ["gcc -E gives the text, the line numbers and the file names the standard prescribes for the generated files"]

    def gen(self, src, index):
        g = Gen(src)
        main, opts, std = g.build()
        text = "\n".join("--- %s\n%s" % (k, v) for k, v in sorted(g.files.items()))
        key = " ".join(opts) + std + main + text
        nt = bool(g.tags & {"conditional", "include"})
        g.tags.add("std=" + std)
        return Case(key, nontrivial=nt, tags=g.tags, sample="%s %s -std=%s\n%s" % (main, " ".join(opts), std, text),
                    files=g.files, opts=opts, std=std, main=main)

    def one(self, ctx, c):
        w = os.path.join(ctx.work(), "tree")
        shutil.rmtree(w, ignore_errors=True)
        for p, t in c.files.items():
            q = os.path.join(w, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            write(q, t)
        for d in DIRS:
            os.makedirs(os.path.join(w, d), exist_ok=True)
        std = c.std
        exp, err, _ = pp.preprocess(["gcc", "-P", "-w", "-trigraphs", "-Wno-error"], c.opts, c.main, w, std)
        if exp is None:
            m = re.search(r"error: (.*)", err)
            return Skip("gcc: " + " ".join(re.sub(r'"[^"]*"|[\w./]+\.h|\d+', "_", m[1] if m else err[:60]).split()[:7]))
        got, err, r = pp.preprocess([ctx.lacc], c.opts, c.main, w, std)
        if got is None:
            return Fail("lacc -E fails where gcc accepts: " + err)
        # How the path of a file found without directory is spelled is free.
        norm = lambda l: [t.replace('"./', '"') if t[0] == '"' else t for t in l]
        d = pp.diff(norm(exp), norm(got))
        if d:
            return Fail("tokens of lacc -E: " + d)
        if r.err:
            return OK
        return OK

    def run_batch(self, ctx, cases):
        return [self.one(ctx, c) for c in cases]

    def render(self, ctx, cases):
        out = {}
        for c in cases[:1]:
            out.update({k.replace("./", ""): v for k, v in c.files.items()})
            out["how.txt"] = "compare the tokens of lacc and gcc (-P): -E -std=%s %s %s\n" % (c.std, " ".join(c.opts), c.main)
        return out
