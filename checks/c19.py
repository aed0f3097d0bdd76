"""C19: messages name the place they are about, and -g describes the unit
without changing it."""
import os
import re
import shutil

from pbt.engine import Property, Case, Fail, Skip, OK
from pbt.toolchain import run, write, GCC
from pbt import corpus, elf

MSG = re.compile(r"^\((.*), (-?\d+)\) (warning|error): (.*)$")


class Text:
    """A file being written, with the presumed position of its end."""
    def __init__(self, path):
        self.path = path            # as it is opened
        self.name, self.line = path, 1
        self.out = []

    def add(self, text):
        assert text.endswith("\n")
        self.out.append(text)
        self.line += text.count("\n")


class Gen:
    def __init__(self, src, std):
        self.src, self.std = src, std
        self.files = {}
        self.expect = []            # (kind, text, file name, first line, last line)
        self.tags = set()
        self.n = 0
        self.dir = src.choice(["", "", "sub/", "a/b/"])
        self.macros = []
        self.depth = 0

    def id(self):
        self.n += 1
        return self.n

    # Constructs ----------------------------------------------------------------
    def construct(self):
        """(statement, [messages]); names: n int, u unsigned long, p int *, q char *, g function."""
        s = self.src
        big = s.choice(["9223372036854775808", "18446744073709551615", "9999999999999999999L"])
        B = "Conversion of decimal constant"
        k = s.weighted([(3, "big"), (2, "div"), (2, "mod"), (2, "assign"), (2, "number"), (2, "compare"), (1, "comparenum"),
                        (1, "call"), (1, "two"), (1, "sizeof")])
        self.tags.add("w:" + k)
        D, M, A, N = "Division by zero", "Modulo by zero", "Incompatible pointer assignment", "Assigning non-zero number"
        return {
            "big": ("u = u + %s ;" % big, [B]),
            "div": ("if ( 0 ) n = n / 0 ;", [D]),
            "mod": ("if ( 0 ) n = 7 % 0 ;", [M]),
            "assign": (s.choice(["p = q ;", "q = p ;", "{ int * z = q ; p = z ; }"]), [A]),
            "number": (s.choice(["p = 7 ;", "q = 2 ;", "{ char * z = 9 ; q = z ; }"]), [N]),
            "compare": ("n = p %s q ;" % s.choice(["==", "!="]), ["Comparison between incompatible"]),
            "comparenum": ("n = p == 5 ;", ["Comparison between pointer and non-zero"]),
            "call": (s.choice(["g ( q ) ;", "n = g ( q ) + 1 ;"]), [A]),
            "two": ("n = g ( 5 ) + g ( q ) ;", [N, A]),
            "sizeof": ("n = sizeof ( 1 / 0 ) ;", [D]),
        }[k]

    def filler(self):
        s = self.src
        return s.choice(["n ++ ;", "u = 5 ;", "n = n ? n : 3 ;", "{ n = 2 ; }", ";", "p = & n ;", 's = "a" "b" ;', "if ( n ) n = 1 ; else n = 2 ;"])

    # Layout --------------------------------------------------------------------
    def noise(self, t):
        """Lines that are no part of a statement."""
        s = self.src
        k = s.weighted([(3, "blank"), (3, "comment"), (2, "line-comment"), (2, "define"), (2, "skipped"), (2, "line"), (1, "undef"),
                        (1, "splice"), (1, "long"), (1, "spliced-comment")])
        self.tags.add("n:" + k)
        if k == "blank":
            t.add("\n" * s.int(1, 4))
        elif k == "comment":
            t.add("/*" + "\n".join(s.choice(["", " it's", "\"", "* /", "#define x"]) for _ in range(s.int(1, 5))) + "*/\n")
        elif k == "line-comment":
            t.add("// %s\n" % s.choice(["it's", "/*", "\"", "a\\b"]))
        elif k == "define":
            t.add("#define N%d(a) a %s+ 1\n" % (self.id(), "\\\n" * s.int(0, 3)))
        elif k == "skipped":
            t.add("#if 0\n" + "".join(s.choice(["int x = 99999999999999999999;\n", "it's\n", "#warning no\n", "/* a\n b */\n", "#if 1\n#else\n#endif\n",
                                              "#line 3\n", "a \\\n b\n", "#error no\n", "#include \"none.h\"\n"]) for _ in range(s.int(0, 5))) + "#endif\n")
        elif k == "undef":
            t.add("#undef NONE%d\n" % self.id())
        elif k == "splice":
            t.add("\\\n" * s.int(1, 3) + "\n")
        elif k == "spliced-comment":
            t.add("// note \\\n  more\n")
        elif k == "long":
            t.add("/*%s*/\n" % (" x" * s.choice([2000, 2047, 2048, 2049, 5000])))
        else:
            no = s.choice([1, 7, 100, 32767, s.int(1, 99999)])
            name = s.choice([None, None, "other.y", "dir/gen.c", "h0.h"])
            t.add("#line %d%s\n" % (no, ' "%s"' % name if name else ""))
            t.line = no
            if name:
                t.name = name

    def place(self, t, stmt, msgs, kind="warning", outer=False):
        """Write a statement in some layout and record what it says."""
        s = self.src
        toks = stmt.split(" ")
        form = s.weighted([(5, "plain"), (2, "after-comment"), (3, "spliced"), (3, "lines"), (3, "macro"), (2, "function-macro"),
                           (0 if outer else 2, "crowded")])
        self.tags.add("l:" + form)
        first = t.line
        if form == "plain":
            t.add(s.choice(["", "    ", "\t"]) + stmt + "\n")
        elif form == "after-comment":
            t.add("/*" + "\n" * s.int(1, 3) + "*/ " + stmt + s.choice(["", " // x", " /* x */"]) + "\n")
            first = t.line - 1
        elif form == "spliced":
            o = toks[0]
            for x in toks[1:]:
                o += (s.choice([" \\\n", "\\\n ", " \\\n\\\n"]) if s.chance(30) else " ") + x
            t.add(o + "\n")
        elif form == "lines":
            o = toks[0]
            for x in toks[1:]:
                o += ("\n" * s.int(1, 2) if s.chance(30) else " /* a\n b */ " if s.chance(5) else " ") + x
            t.add(o + "\n")
        elif form == "macro":
            m = "W%d" % self.id()
            t.add("#define %s %s\n" % (m, stmt.replace(" ", " \\\n", 1) if s.chance(40) else stmt))
            if s.chance(40):
                t.add("#define X%s %s\n" % (m, m))
                m = "X" + m
            if s.chance(50):
                self.noise(t)
            first = t.line
            t.add("  %s\n" % m)
        elif form == "function-macro":
            m = "F%d" % self.id()
            cand = [j for j, x in enumerate(toks) if x not in list("(),{};")]
            j = s.choice(cand) if cand else 0
            a = toks[j]
            if cand and s.chance(50):
                t.add("#define %s(a) %s\n" % (m, " ".join(toks[:j] + ["a"] + toks[j + 1:])))
                if s.chance(30):
                    self.noise(t)
                first = t.line
                nl = "\n" if s.chance(40) else ""
                t.add("%s(%s%s%s)\n" % (m, nl, a, nl))
            else:
                t.add("#define %s(a) a\n" % m)
                first = t.line
                nl = "\n" if s.chance(40) else ""
                t.add("%s(%s%s)%s\n" % (m, nl, " ".join(toks[:-1]), " ;" if toks[-1] == ";" else toks[-1]))
        else:
            t.add("%s %s %s\n" % (self.filler(), stmt, self.filler()))
        for m in msgs:
            self.expect.append((kind, m, t.name, first, t.line - 1))

    def statements(self, t, n):
        s = self.src
        for _ in range(n):
            k = s.weighted([(5, "construct"), (3, "filler"), (5, "noise"), (2, "block"), (2, "include"), (1, "warning")])
            if k == "construct":
                self.place(t, *self.construct())
            elif k == "filler":
                self.place(t, self.filler(), [])
            elif k == "noise":
                self.noise(t)
            elif k == "warning":
                self.warning(t)
            elif k == "include" and self.depth < 4:
                self.include(t, False)
            elif k == "block" and self.depth < 4:
                self.depth += 1
                o, c = s.choice([("if ( n ) {", "}"), ("while ( n ) {", "}"), ("do {", "} while ( n ) ;"),
                                 ("for ( n = 0 ; n < 3 ; n ++ ) {", "}"), ("switch ( n ) { case 1 : ;", "}"), ("{", "}"), ("if ( n ) ; else {", "}"),
                                 ("{ L%d : ;" % self.id(), "}")])
                self.tags.add("block")
                t.add(o + "\n")
                self.statements(t, s.int(1, 3))
                t.add(c + "\n")
                self.depth -= 1

    def warning(self, t):
        w = "note %d" % self.id()
        self.tags.add("#warning")
        at = t.line
        t.add("%s#%s warning %s%s\n" % (self.src.choice(["", " "]), self.src.choice(["", " "]), w, self.src.choice(["", " /* c */"])))
        self.expect.append(("warning", w, t.name, at, at))

    def include(self, t, outer):
        s = self.src
        self.depth += 1
        base = "h%d.h" % self.id()
        how = s.choice(["own", "sub", "inc"])
        if how == "own":
            name, path = base, (os.path.dirname(t.path) + "/" if os.path.dirname(t.path) else "") + base
        elif how == "sub":
            name = "x/" + base
            path = (os.path.dirname(t.path) + "/" if os.path.dirname(t.path) else "") + name
        else:
            name, path = base, "inc/" + base
        self.tags.add("include-" + how)
        t.add("#include %s\n" % ("<%s>" % name if how == "inc" and s.chance(50) else '"%s"' % name))
        h = Text(path)
        if outer:
            self.outer(h, s.int(1, 3))
        else:
            self.statements(h, s.int(1, 4))
        self.files[path] = "".join(h.out) or "\n"
        self.depth -= 1

    def outer(self, t, n):
        s = self.src
        for _ in range(n):
            k = s.weighted([(6, "function"), (3, "noise"), (2, "include"), (2, "init"), (1, "warning"), (1, "decl")])
            if k == "function":
                f = "f%d" % self.id()
                t.add("int %s ( int n )%s{\nunsigned long u = 0 ; int * p = 0 ; char * q = 0 , * s ;\n" % (f, s.choice(["\n", " ", "\n\n"])))
                self.statements(t, s.int(1, 6))
                t.add("return n + ( p == 0 ) + ( q == 0 ) + ( u == 3 ) ; }\n")
            elif k == "noise":
                self.noise(t)
            elif k == "warning":
                self.warning(t)
            elif k == "decl":
                t.add("extern int v%d ;\n" % self.id())
            elif k == "include" and self.depth < 3:
                self.include(t, True)
            elif k == "init":
                i = self.id()
                self.place(t, *s.choice([("int * i%d = 6 ;" % i, ["Assigning non-zero number"]),
                                         ("unsigned long i%d = 9223372036854775809 ;" % i, ["Conversion of decimal constant"]),
                                         ("int i%d = 3 ;" % i, [])]), outer=True)

    def error(self, t):
        e = self.src.choice([("n = undefined_name ;", "Undefined symbol 'undefined_name'"),
                             ("{ int n , n ; }", "n"), ("n = * n ;", ""), ("break ;", "") if 0 else ("n = p * q ;", ""),
                             ("s . x = 3 ;", ""), ("g ( ) ;", ""), ("goto ;", "")])
        t.add("int last ( int n ) { unsigned long u ; int * p = 0 ; char * q = 0 , * s = 0 ;\n")
        self.noise(t)
        self.place(t, e[0], [e[1]], "error")
        t.add("return 0 ; }\n")
        self.tags.add("error")

    def build(self):
        s = self.src
        path = self.dir + "t.c"
        t = Text(path)
        t.add("int g ( int * ) ;\n")
        self.outer(t, s.int(2, 6))
        bad = s.chance(30)
        if bad:
            self.error(t)
        t.add("int end ;\n")
        self.files[path] = "".join(t.out)
        return path, bad


class P(Property):
    id = "C19"
    batch = 8
    quick_cases = 6400
    thorough_factor = 14
    rule = ("programs with constructs that warn (or are in error) at known places, in many layouts, macros, included files and "
            "after #line, of which all messages, in order, are compared; units compiled with -g, whose code must be that without "
            "-g and whose debug information is checked alone and after linking. "
            "Non-trivial: at least two messages at different lines, or a unit with code. Distinct programs")
    assumptions = ["a construct on several physical lines may be reported at any of them",
                   "llvm-dwarfdump --verify and readelf judge the debug information"]

    def gen(self, src, index):
        if index // self.batch % 4 == 3:
            return self.gen_debug(src)
        std = src.weighted([(5, "c99"), (2, "c89"), (2, "c11")])
        g = Gen(src, std)
        main, bad = g.build()
        opts = src.choice([["-c"], ["-c", "-O1"], ["-S"], ["-c", "-g"], ["-c", "-fno-PIC"], ["-dot"]])
        crlf = src.chance(10)
        files = {k: v.replace("\n", "\r\n") if crlf else v for k, v in g.files.items()}
        text = "".join("/* ---- %s ---- */\n%s" % x for x in sorted(files.items()))
        return Case(text, kind="place", tags=g.tags | {"place"} | ({"crlf"} if crlf else set()), files=files, main=main, std=std,
                    opts=opts, expect=g.expect, bad=bad, sample=text[:1500],
                    nontrivial=len({(e[2], e[3]) for e in g.expect}) >= 2)

    def gen_debug(self, src):
        ins = []
        for k in range(src.weighted([(3, 1), (4, 2), (2, 4)])):
            d = src.choice(["", "", "d/", "./", "x/../", "long" * src.int(1, 40) + "/"])
            ins.append((d, corpus.one(src, "t%d.c" % k, {"c01", "c03", "c04", "c05", "c06", "c08", "c09", "c14", "trivial", "headers"})))
        opts = src.choice([[], ["-O1"], ["-fno-PIC"], ["-O3", "-fno-common"]])
        std = src.choice(["c89", "c99", "c99", "c11"])
        key = "".join(d + x.text() for d, x in ins) + std + str(opts)
        return Case(key, kind="debug", tags={"debug", "units:%d" % len(ins)} | {x.kind for _, x in ins}, ins=ins, opts=opts, std=std,
                    gcc=src.chance(50), sample=key[:1500], nontrivial=True)

    # Judging --------------------------------------------------------------------
    def scratch(self, ctx, files):
        d = os.path.join(ctx.work(), "c19")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for name, text in files.items():
            q = os.path.join(d, name)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            write(q, text)
        return d

    def place(self, ctx, c):
        d = self.scratch(ctx, c.files)
        os.makedirs(os.path.join(d, "inc"), exist_ok=True)
        base = [ctx.lacc, "-std=" + c.std, "-I", "inc"] + c.opts + [c.main, "-o"]
        r = run(base + ["o1"], cwd=d)
        what = "lacc -std=%s %s: " % (c.std, " ".join(c.opts))
        if r.timeout or r.code != (1 if c.bad else 0):
            return Fail(what + "exit status %d; %s" % (r.code, r.err.decode("latin-1")[-400:]))
        got = []
        for l in r.err.decode("latin-1").splitlines():
            m = MSG.match(l)
            if not m:
                return Fail(what + "not a message with a position: " + l)
            got.append((m[3], m[4], m[1], int(m[2])))
        for i, e in enumerate(c.expect):
            if e[0] == "error" and c.bad and i < len(got):
                got = got[:i + 1]
            kind, text, name, lo, hi = e
            if i >= len(got):
                return Fail(what + "no %s '%s' for %s:%d" % (kind, text, name, lo))
            g = got[i]
            if g[0] != kind or text not in g[1]:
                return Fail(what + "%s '%s' at %s:%d, expected %s '%s' at %s:%d" % (g[0], g[1], g[2], g[3], kind, text, name, lo))
            if g[2] != name or not lo <= g[3] <= hi:
                return Fail(what + "%s '%s' has position %s:%d, expected %s:%d%s" % (kind, g[1], g[2], g[3], name, lo,
                                                                              "" if lo == hi else "-%d" % hi))
        if len(got) > len(c.expect):
            return Fail(what + "unexpected %s '%s' at %s:%d" % got[len(c.expect)])
        if c.bad:
            return OK
        q = run(base + ["o2", "-w"], cwd=d)
        if q.code or q.err or q.out:
            return Fail(what + "with -w: exit status %d, %s" % (q.code, (q.err + q.out).decode("latin-1")[:300]))
        with open(os.path.join(d, "o1"), "rb") as f, open(os.path.join(d, "o2"), "rb") as h:
            if f.read() != h.read():
                return Fail(what + "-w changes the output")
        return OK

    def shape(self, path):
        """What an object contains, without debug sections."""
        e = elf.Elf(path)
        secs = {s.name: (s.type, s.flags, s.size, s.align, bytes(s.data) if s.type != 8 else b"") for s in e.secs
                if s.flags & 2}
        syms = [(y.name, y.kind, y.bind, y.sec, y.value, y.size) for y in e.syms if y.kind not in ("SECTION",)]
        rels = [(s.name, off, kind, y.name or y.sec, add) for s in e.secs if s.flags & 2 for off, kind, y, add in s.relocs]
        return secs, syms, rels

    def units(self, d, path):
        """Compile units in the debug information: [attributes], or a complaint."""
        r = run(["readelf", "--debug-dump=info", path], cwd=d, cpu=20)
        if r.code or r.err:
            return None, "readelf: " + r.err.decode("latin-1")[:300]
        v = run(["llvm-dwarfdump", "--verify", path], cwd=d, cpu=30)
        if v.code:
            return None, "llvm-dwarfdump --verify: " + "; ".join(
                l for l in (v.out + v.err).decode("latin-1").splitlines() if "error" in l.lower())[:300]
        out = []
        for l in r.out.decode("latin-1").splitlines():
            if "DW_TAG_compile_unit" in l:
                out.append({})
            m = re.match(r"\s*<[0-9a-f]+>\s+(DW_AT_\w+)\s*: (?:\(indirect[^)]*\): )?(.*)", l)
            if m and out and m[1] not in out[-1]:
                out[-1][m[1]] = m[2].strip()
        return out, None

    def debug(self, ctx, c):
        files = {}
        for dn, x in c.ins:
            for k, v in x.files.items():
                files[os.path.join(dn.replace("x/../", ""), k)] = v
        d = self.scratch(ctx, files)
        os.makedirs(os.path.join(d, "x"), exist_ok=True)
        lang = {"c89": "1", "c99": "12", "c11": "29"}[c.std]
        objs, texts, names = [], [], []
        for k, (dn, x) in enumerate(c.ins):
            path = dn + x.main
            base = [ctx.lacc, "-std=" + c.std, "-c"] + c.opts + x.opts
            r = run(base + [path, "-o", "p%d.o" % k], cwd=d)
            if r.code:
                continue
            o = "g%d.o" % k
            g = run(base + ["-g", path, "-o", o], cwd=d)
            what = "-g for %s: " % path
            if g.code or g.timeout:
                return Fail(what + "exit status %d; %s" % (g.code, g.err.decode("latin-1")[-300:]))
            if g.err != r.err:
                return Fail(what + "other messages")
            a, b = self.shape(os.path.join(d, "p%d.o" % k)), self.shape(os.path.join(d, o))
            for n, y, z in zip(("sections", "symbols", "relocations"), a, b):
                if y != z:
                    return Fail(what + "other " + n)
            us, err = self.units(d, o)
            if us is None:
                return Fail(what + err)
            size = a[0][".text"][2]
            f = self.unit(us, 0, path, lang, size, 0) if len(us) == 1 else "%d compile units" % len(us)
            if f:
                return Fail(what + f)
            objs.append(o)
            texts.append((b[1], size))
            names.append(path)
        if not objs:
            return Skip("no unit accepted")
        c.nontrivial = any(t[1] for t in texts)
        link = list(objs)
        if c.gcc:
            write(os.path.join(d, "extra.c"), "int extra_function(int a) { return a + 1; }\n")
            r = run(["gcc", "-g", "-fno-asynchronous-unwind-tables", "-gdwarf-%d" % (4 + len(objs) % 2), "-c", "extra.c", "-o", "extra.o"], cwd=d, cpu=20)
            link.insert(len(link) // 2, "extra.o")
        r = run(["ld", "--no-warnings", "-z", "muldefs", "--unresolved-symbols=ignore-all", "-e", "0", "-o", "all"] + link, cwd=d, cpu=20)
        if r.code:
            return Fail("linked: " + r.err.decode("latin-1")[:300])
        us, err = self.units(d, "all")
        if us is None:
            return Fail("linked: " + err)
        if len(us) != len(link):
            return Fail("linked: %d compile units, expected %d" % (len(us), len(link)))
        # Where the text of each unit went is known by its functions.
        e = elf.Elf(os.path.join(d, "all"))
        where = {}
        for y in e.syms:
            where.setdefault(y.name, []).append(y.value)
        units = {}
        for k, t in enumerate(texts):
            for y in t[0]:
                if y[3] != "UND":
                    units.setdefault(y[0], set()).add(k)
        k = 0
        for i, o in enumerate(link):
            if o == "extra.o":
                continue
            syms, size = texts[k]
            at = None
            for y in syms:
                if y[1] == "FUNC" and y[3] == ".text" and len(where.get(y[0], ())) == 1 and len(units[y[0]]) == 1:
                    at = where[y[0]][0] - y[4]
            f = self.unit(us, i, names[k], lang, size, at)
            if f:
                return Fail("linked: " + f)
            k += 1
        return OK

    def unit(self, us, i, path, lang, size, at):
        u = us[i]
        if u.get("DW_AT_name") != path:
            return "the name of the unit is %r, expected %r" % (u.get("DW_AT_name"), path)
        if not u.get("DW_AT_producer"):
            return "the unit has no producer"
        if u.get("DW_AT_language", "").split("\t")[0] != lang:
            return "the language is %s, expected %s" % (u.get("DW_AT_language"), lang)
        if not size:
            if int(u.get("DW_AT_high_pc", "0"), 16):
                return "a unit without code has addresses"
            return None
        if "DW_AT_low_pc" not in u or "DW_AT_high_pc" not in u:
            return "the unit has no addresses"
        if int(u["DW_AT_high_pc"], 16) != size:
            return "the unit has size %s, expected %#x" % (u["DW_AT_high_pc"], size)
        if at is not None and int(u["DW_AT_low_pc"], 16) != at:
            return "the unit is at %s, expected %#x" % (u["DW_AT_low_pc"], at)
        return None

    def run_batch(self, ctx, cases):
        return [getattr(self, c.kind)(ctx, c) for c in cases]

    def render(self, ctx, cases):
        c = cases[0]
        if c.kind == "place":
            return dict(c.files, **{"how.txt": "lacc -std=%s -I inc %s %s; expected messages:\n%s" % (
                c.std, " ".join(c.opts), c.main, "".join("%s:%d-%d %s %s\n" % (e[2], e[3], e[4], e[0], e[1]) for e in c.expect))})
        out = {"%d-%s" % (k, n): v for k, (d, x) in enumerate(c.ins) for n, v in x.files.items()}
        out["how.txt"] = "lacc -std=%s -g -c %s for %s\n" % (c.std, " ".join(c.opts), " ".join(d + x.main for d, x in c.ins))
        return out
