"""C02: constant expressions have the value C gives them, in every context."""
from pbt.engine import Property, Case, Fail, Skip, OK
from pbt.exprgen import Gen, Node, Slot
from pbt.cmodel import *
from pbt import cmodel, cdiff
from checks.common import BatchProgram, hexv


class CGen(Gen):
    """Expressions over literals only. Literals become placeholders, so that
    the same expression can also be written over variables."""

    def __init__(self, src, maxdepth):
        Gen.__init__(self, src, (), (), maxdepth)
        self.lits = []

    def lit(self, t=None):
        n = Gen.lit(self, t)
        text = n.text if n.prec == 16 else "(%s)" % n.text
        self.lits.append((text, n.t, n.v))
        return Node("\x01%d\x02" % (len(self.lits) - 1), 16, n.t, n.v, const=True)

    def expr(self, depth):
        src = self.src
        self.nodes += 1
        if depth <= 0 or src.chance(12) or self.nodes > 40:
            return self.lit()
        k = src.weighted([(50, "bin"), (14, "un"), (14, "cast"), (12, "logic"),
                          (10, "cond"), (4, "sizeof"), (4, "dead")])
        if k == "bin":
            op = src.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>",
                             "<", ">", "<=", ">=", "==", "!="])
            l = self.expr(depth - 1)
            if op in ("==", "!=", "<", "<=", ">", ">=") and src.chance(30):
                t = l.pt
                v = conv(l.v + src.draw(3) - 1, t)
                text, prec = literal(src, v, t)
                self.lits.append((text if prec == 16 else "(%s)" % text, t, v))
                r = Node("\x01%d\x02" % (len(self.lits) - 1), 16, t, v)
            else:
                r = self.expr(depth - 1)
            return self.safe_binary(op, l, r)
        if k == "un":
            op = src.choice(["-", "~", "!", "+"])
            x = self.expr(depth - 1)
            try:
                return self.unary(op, x)
            except Undefined:
                return self.unary(op, self.to_unsigned(x))
        if k == "cast":
            return self.cast(src.choice(cmodel.ALL), self.expr(depth - 1))
        if k == "logic":
            op = src.choice(["&&", "||"])
            l, r = self.expr(depth - 1), self.expr(depth - 1)
            self.ops.add(op)
            v = int(l.v != 0 and r.v != 0) if op == "&&" else int(l.v != 0 or r.v != 0)
            p = 4 if op == "&&" else 3
            return Node("%s %s %s" % (self.par(l, p), op, self.par(r, p + 1)), p, INT, v)
        if k == "cond":
            c, a, b = (self.expr(depth - 1) for _ in range(3))
            self.ops.add("?:")
            t = usual(a.pt, b.pt)
            return Node("%s ? %s : %s" % (self.par(c, 3), self.par(a, 1), self.par(b, 2)),
                        2, t, conv(a.v if c.v else b.v, t))
        if k == "sizeof":
            self.ops.add("sizeof")
            x = self.expr(depth - 1)
            return Node("sizeof(%s)" % x.text, 13, ULONG, x.t.size)
        # A division by zero that is not evaluated.
        self.ops.add("dead")
        x = self.expr(depth - 1)
        if src.chance(50):
            return Node("%s ? %s : %s" % ("1", self.par(x, 1), "1 / 0"), 2, usual(x.pt, INT),
                        conv(x.v, usual(x.pt, INT)))
        return Node("0 && %s %% 0" % self.par(x, 13), 4, INT, 0)

    def spell(self, text, var=None):
        out = []
        for i, part in enumerate(text.split("\x01")):
            if i == 0:
                out.append(part)
                continue
            n, rest = part.split("\x02", 1)
            out.append((var % int(n) if var else self.lits[int(n)][0]) + rest)
        return "".join(out)


class PGen(Gen):
    """#if expressions: all types act like intmax_t or uintmax_t."""

    def __init__(self, src, maxdepth, macros):
        Gen.__init__(self, src, (), (), maxdepth)
        self.macros = macros

    def lit(self, t=None):
        src = self.src
        k = src.draw(10)
        if k == 1:
            c = src.choice([("'a'", 97), ("'\\n'", 10), ("'\\0'", 0), ("'\\377'", -1),
                            ("'\\x7f'", 127), ("' '", 32), ("'\\''", 39)])
            return Node(c[0], 16, LONG, c[1])
        if k == 2:
            name, v, kind = src.choice(self.macros)
            d = int(kind != "undef")
            return Node(src.choice(["defined %s", "defined(%s)", "defined ( %s )"]) % name,
                        16, LONG, d)
        if k in (3, 4):
            name, v, kind = src.choice(self.macros)
            if kind == "fun":
                a = src.draw(9)
                return Node("%s(%d)" % (name, a), 16, LONG, v + a)
            return Node(name, 16, LONG, v if v is not None else 0)
        if k == 5:
            return Node(src.choice(["undefined_name", "sizeof_", "while_", "int_", "_X1"]),
                        16, LONG, 0)
        t = src.choice([LONG, LONG, ULONG])
        v = value(src, t)
        neg = v < 0
        if v == LONG.min:
            return Node("(-0x7fffffffffffffff - 1)", 16, LONG, v)
        s, _ = literal(src, abs(v), t)
        if t is LONG and src.chance(60):
            s = s.rstrip("lL")
            if s[:1] == "'" or (s[:1] == "0" and s[1:2] in "xX" and False):
                pass
        return Node("-" + s, 13, t, v) if neg else Node(s, 16, t, v)

    def fix(self, n):
        """Results of comparisons have type intmax_t."""
        if n.t.rank < 4:
            n.t = LONG
        return n

    def expr(self, depth):
        src = self.src
        self.nodes += 1
        if depth <= 0 or src.chance(12) or self.nodes > 30:
            return self.lit()
        k = src.weighted([(50, "bin"), (14, "un"), (14, "logic"), (10, "cond"), (4, "dead")])
        if k == "bin":
            op = src.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>",
                             "<", ">", "<=", ">=", "==", "!="])
            l, r = self.expr(depth - 1), self.expr(depth - 1)
            return self.fix(self.safe(op, l, r))
        if k == "un":
            op = src.choice(["-", "~", "!", "+"])
            x = self.expr(depth - 1)
            try:
                return self.fix(self.unary(op, x))
            except Undefined:
                return self.fix(self.unary("~", x))
        if k == "logic":
            op = src.choice(["&&", "||"])
            l, r = self.expr(depth - 1), self.expr(depth - 1)
            self.ops.add(op)
            v = int(l.v != 0 and r.v != 0) if op == "&&" else int(l.v != 0 or r.v != 0)
            p = 4 if op == "&&" else 3
            return Node("%s %s %s" % (self.par(l, p), op, self.par(r, p + 1)), p, LONG, v)
        if k == "cond":
            c, a, b = (self.expr(depth - 1) for _ in range(3))
            self.ops.add("?:")
            t = usual(a.t, b.t)
            return Node("%s ? %s : %s" % (self.par(c, 3), self.par(a, 1), self.par(b, 2)),
                        2, t, conv(a.v if c.v else b.v, t))
        self.ops.add("dead")
        x = self.expr(depth - 1)
        if src.chance(50):
            return Node("1 || %s / 0" % self.par(x, 13), 3, LONG, 1)
        return Node("0 && %s %% 0" % self.par(x, 13), 4, LONG, 0)

    def safe(self, op, l, r):
        try:
            return self.binary(op, l, r)
        except Undefined:
            pass
        if op in ("<<", ">>"):
            if op == "<<" and l.t is LONG:
                l = self.binary("&", l, Node("0xffff", 16, LONG, 0xffff))
            r = self.binary("&", r, Node("31", 16, LONG, 31))
            return self.binary(op, l, r)
        if op in ("/", "%"):
            if r.v == 0:
                r = self.binary("|", r, Node("1", 16, LONG, 1))
            try:
                return self.binary(op, l, r)
            except Undefined:
                return self.binary("^", l, r)
        return self.binary(op, l, self.binary("*", Node("1u", 16, ULONG, 1), r))


class P(BatchProgram, Property):
    id = "C02"
    batch = 20
    quick_cases = 20 * 1200
    thorough_factor = 12
    rule = ("A case is a set of 3 to 7 constants, each an expression in one of the contexts "
            "enumerator, array size, case label, bit-field width, static initializer, "
            "_Static_assert, #if, address constant, or the same expression evaluated at run "
            "time from volatile variables. Non-trivial: at least 3 kinds of operators.")
    assumptions = ["the model in pbt/cmodel.py and gcc agree (cases where they do not are not decided)"]
    std = "c11"

    def gen(self, src, index):
        self_ops = set()
        tags = set()
        glob, body, exp = [], [], []
        rid = [0]

        def out(expr, v):
            rid[0] += 1
            exp.append("%d %s" % (rid[0], hexv(v)))
            body.append("oi(%d, %s);" % (rid[0], expr))

        for i in range(src.int(2, 6)):
            k = src.weighted([(3, "static"), (3, "enum"), (3, "array"), (3, "case"), (2, "field"),
                              (2, "assert"), (6, "if"), (4, "address"), (4, "runtime"),
                              (2, "auto")])
            tags.add("ctx:" + k)
            g = CGen(src, src.int(1, 5))
            if k == "if":
                macros = [("M0", src.draw(9), "obj"), ("M1", src.draw(100) - 50, "obj"),
                          ("F0", src.draw(9), "fun"), ("U0", None, "undef")]
                for n, v, kind in macros:
                    if kind == "obj":
                        glob.append("#undef %s\n#define %s %s" % (n, n, "(%d)" % v if v < 0 else v))
                    elif kind == "fun":
                        glob.append("#undef %s\n#define %s(x) (%d + (x))" % (n, n, v))
                g = PGen(src, src.int(1, 5), macros)
                n = g.full()
                form = src.draw(3)
                if form == 0:
                    e, v = n.text, int(n.v != 0)
                elif form == 1:
                    lit = "(-0x7fffffffffffffff - 1)" if n.v == LONG.min else "%d%s" % (
                        n.v, "u" if n.t is ULONG else "")
                    if n.v < 0:
                        lit = "(%s)" % lit
                    e, v = "%s == %s" % (g.par(n, 9), lit), 1
                else:
                    v = arith("<", -1, LONG, n.v, n.t)[0]
                    e = "-1 < %s" % g.par(n, 10)
                name = "@i%d" % i
                kw = "#elif" if src.chance(30) else "#if"
                pre = "#if 0\n" if kw == "#elif" else ""
                glob.append("%s%s %s\nenum { %s = 1 };\n#else\nenum { %s = 0 };\n#endif" % (
                    pre, kw, e, name, name))
                out(name, v)
                self_ops |= g.ops
                continue
            if k == "address":
                self.address(src, i, glob, out)
                self_ops |= {"address", "offset"}
                continue
            n = g.full()
            self_ops |= g.ops
            text = g.spell(n.text)
            par = lambda p: text if n.prec >= p else "(%s)" % text
            if k == "static":
                t = src.choice(cmodel.ALL)
                where = src.draw(3)
                d = "%s @s%d = %s;" % (t.name, i, par(1))
                if where == 0:
                    glob.append(d)
                else:
                    (body if where == 2 else glob).append("static " + d)
                out("@s%d" % i, conv(conv(n.v, t), LONG))
            elif k == "auto":
                body.append("{ %s a = %s;" % (n.t.name, par(1)))
                out("a", conv(n.v, LONG))
                out("sizeof(%s)" % text, n.t.size)
                out("-1 < %s" % par(10), arith("<", -1, INT, n.v, n.t)[0])
                body.append("}")
            elif k == "enum":
                v = conv(n.v, INT)
                if v == INT.max:
                    v2, nxt = v, "0"
                    nx = 0
                else:
                    nxt, nx = None, v + 1
                glob.append("enum @E%d { @e%d = %s, @n%d%s };" % (
                    i, i, text if n.t is INT and n.prec >= 1 else "(int) (%s)" % text, i,
                    " = 0" if nxt else ""))
                out("@e%d" % i, v)
                out("@n%d" % i, nx)
            elif k == "array":
                m = src.choice([7, 15, 63, 255])
                v = conv(arith("&", n.v, n.pt, m, INT)[0], LONG) + 1
                glob.append("char @a%d[(%s & %d) + 1];" % (i, par(7), m))
                out("sizeof @a%d" % i, v)
                body.append("{ short a[2][(%s & %d) + 1];" % (par(7), m))
                out("sizeof(a)", v * 4)
                body.append("}")
            elif k == "case":
                t = src.choice([INT, UINT, LONG, ULONG, n.pt])
                v = conv(n.v, t)
                others = sorted(set(conv(v + d, t) for d in (1, -1, 256, 1 << 31)) - {v})
                o = src.sample(others, src.int(0, 3))
                val = src.choice([v, v] + o)
                arms = [(v, "(%s) (%s)" % (t.name, text) if src.chance(50) or
                         not t.fits(n.v) else text, 1)]
                arms += [(x, literal(src, x, t)[0], j + 2) for j, x in enumerate(o)]
                arms = src.shuffle(arms)
                body.append("{ volatile %s x = %s; int r = 0; switch (x) { %s } " % (
                    t.name, literal(src, val, t)[0],
                    " ".join("case %s: r = %d; break;" % (a, j) for _, a, j in arms)))
                out("r", [j for x, _, j in arms if x == val][0])
                body.append("}")
            elif k == "field":
                v = arith("&", n.v, n.pt, 15, INT)[0] + 1
                glob.append("struct @F%d { unsigned f : (%s & 15) + 1; } @f%d = {-1};" % (
                    i, par(7), i))
                out("@f%d.f" % i, (1 << v) - 1)
            elif k == "assert":
                lit, p = literal(src, n.v, n.pt)
                glob.append('_Static_assert(%s == %s, "x");' % (
                    par(9), lit if p >= 9 else "(%s)" % lit))
                body.append('_Static_assert(!(%s != %s), "x");' % (
                    par(9), lit if p >= 9 else "(%s)" % lit))
            elif k == "runtime":
                decl = "".join("volatile %s x%d = %s; " % (t.name, j, tx)
                               for j, (tx, t, v) in enumerate(g.lits))
                body.append("{ %s" % decl)
                rt = g.spell(n.text, "x%d")
                out("(%s) == (%s)" % (rt, text), 1)
                out("(%s)" % rt, conv(n.v, LONG))
                out("sizeof((%s)) == sizeof((%s))" % (rt, text), 1)
                body.append("}")
        # A static assertion only uses text from CGen, without placeholders.
        text = "\n".join(glob) + "\nvoid @t(void)\n{\n" + "".join("    %s\n" % b for b in body) + "}\n"
        return Case(text, nontrivial=len(self_ops) >= 3,
                    tags=tags | set("op:" + o for o in self_ops),
                    sample=text + "expected:\n" + "\n".join(exp), text=text,
                    call="@t();", exp=exp, mode=src.choice(["c", "S", "c-O1", "c-nopic"]))

    def address(self, src, i, glob, out):
        """Address constants with a known byte offset from a named object."""
        t = src.choice([INT, CHAR, LONG, SHORT])
        n, m = src.int(2, 6), src.int(2, 6)
        obj = "@o%d" % i
        kind = src.draw(6)
        q = src.choice(["", "static "])
        if kind == 0:
            glob.append("%s%s %s[%d][%d];" % (q, t.name, obj, n, m))
            a, b = src.draw(n), src.draw(m)
            e = src.choice(["&%s[%d][%d]", "%s[%d] + %d", "*(%s + %d) + %d",
                            "&(*(%s + %d))[%d]", "&*(%s[%d] + %d)"]) % (obj, a, b)
            off = (a * m + b) * t.size
            if src.chance(40):
                d = src.int(0, 3)
                sgn = src.choice(["+", "-"])
                e = "%s %s %d" % (e, sgn, d)
                off += d * t.size * (1 if sgn == "+" else -1)
            glob.append("%s *@p%d = %s;" % (t.name, i, e))
            out("(char *) @p%d - (char *) %s" % (i, obj), off)
        elif kind == 1:
            glob.append("struct @S%d { char c; %s m; struct { short x; int y[%d]; } in[%d]; };"
                        % (i, t.name, m, n))
            glob.append("%sstruct @S%d %s[2];" % (q, i, obj))
            a, b, c = src.draw(2), src.draw(n), src.draw(m)
            e, el = src.choice([
                ("&%s[%d].in[%d].y[%d]" % (obj, a, b, c), "int"),
                ("&(%s + %d)->in[%d].y[%d]" % (obj, a, b, c), "int"),
                ("%s[%d].in[%d].y + %d" % (obj, a, b, c), "int"),
                ("(*(%s + %d)).in[%d].y + %d" % (obj, a, b, c), "int")])
            base = t.size if t.size > 1 else 1
            al = max(4, t.size)
            moff = (1 + t.size - 1) // t.size * t.size
            inoff = (moff + t.size + 3) // 4 * 4
            insz = 4 + 4 * m
            size = (inoff + insz * n + al - 1) // al * al
            glob.append("int *@p%d = %s;" % (i, e))
            out("(char *) @p%d - (char *) %s" % (i, obj), a * size + inoff + b * insz + 4 + 4 * c)
            glob.append("unsigned long @z%d = (unsigned long) &((struct @S%d *) 0)->in[%d].y[%d];"
                        % (i, i, b, c))
            out("@z%d" % i, inoff + b * insz + 4 + 4 * c)
            # The same offset as an integer constant expression.
            glob.append("char @y%d[(unsigned long) &((struct @S%d *) 0)->in];" % (i, i))
            out("sizeof @y%d" % i, inoff)
        elif kind == 2:
            s = "".join(src.choice("abcdefgh") for _ in range(src.int(1, 9)))
            k = src.draw(len(s) + 1)
            e = src.choice(['"%s" + %d', '&"%s"[%d]', '%2$d + "%1$s"']) if False else \
                src.choice(['"%s" + %d' % (s, k), '&"%s"[%d]' % (s, k), '%d + "%s"' % (k, s)])
            glob.append("%schar *@p%d = %s;" % (q, i, e))
            out("*@p%d" % i, ord((s + "\0")[k]))
        elif kind == 3:
            glob.append("int @g%d(void) { return %d; }" % (i, n))
            e = src.choice(["@g%d", "&@g%d", "*@g%d", "**@g%d", "(@g%d)"]) % i
            glob.append("%sint (*@p%d)(void) = %s;" % (q, i, e))
            out("@p%d()" % i, n)
            out("@p%d == @g%d" % (i, i), 1)
        elif kind == 4:
            glob.append("%s%s %s;" % (q, t.name, obj))
            d = src.int(0, 300) - 150
            e = src.choice(["(char *) &%s + %d" % (obj, d), "&((char *) &%s)[%d]" % (obj, d),
                            "%d + (char *) &%s" % (d, obj), "(char *) (&%s) - %d" % (obj, -d)
                            if d <= 0 else "(char *) &%s + %d" % (obj, d)])
            glob.append("void *@p%d = %s;" % (i, e))
            out("(char *) @p%d - (char *) &%s" % (i, obj), d)
        else:
            a = src.bits(20)
            glob.append("%s *@p%d = (%s *) %d;" % (t.name, i, t.name, a))
            out("(unsigned long) @p%d" % i, a)
            glob.append("%s *@q%d = (%s *) %d + %d;" % (t.name, i, t.name, a, m))
            out("(unsigned long) @q%d" % i, a + m * t.size)
