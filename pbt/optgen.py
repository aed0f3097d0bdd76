"""Generator of small functions with few variables, many of them dead, aliased
or redefined: the shapes that data-flow analysis has to get right."""

UL, UI, US, UC, D = "unsigned long", "unsigned", "unsigned short", "unsigned char", "double"


class Opt:
    def __init__(self, src):
        self.src = src
        self.k = 0
        self.tags = set()
        self.fns = []

    def n(self):
        self.k += 1
        return self.k

    # ---- expressions: unsigned long valued -------------------------------
    def const(self):
        s = self.src
        return s.choice(["0", "1", "2", "7", "255", "0x7fffffff", "0xffffffffu", "0x123456789abcdefUL", "~0UL",
                         str(s.draw(1000))])

    def lv(self, write=False):
        """An integer lvalue."""
        s = self.src
        k = s.draw(100)
        if k < 55:
            return s.choice(self.ints)
        if k < 67 and self.ptrs:
            self.tags.add("deref")
            p, t, _ = s.choice(self.ptrs)
            return "*" + p
        if k < 72 and self.pptrs:
            self.tags.add("deref2")
            return "**" + s.choice(self.pptrs)[0]
        if k < 80 and self.arrs:
            self.tags.add("array")
            a = s.choice(self.arrs)
            return "%s[%s]" % (a, s.choice(["0", "1", "2", "3", "(%s) & 3" % s.choice(self.ints)]))
        if k < 88 and self.recs:
            self.tags.add("record")
            r, u = s.choice(self.recs)
            if u:
                return r + s.choice([".l", ".i[0]", ".i[1]", ".c[5]", ".c[0]"])
            return r + s.choice([".x", ".y", ".z", ".c[1]", ".q", ".x", ".w", ".a[1]", ".a[0]", ".c[0]"])
        if k < 91 and self.rptrs:
            self.tags.add("record-pointer")
            return s.choice(self.rptrs) + s.choice(["->x", "->y", "->z", "->c[2]", "->q", "->w", "->a[1]"])
        if k < 93:
            return s.choice(["@g0", "@g1", "@ga[1]"])
        if k < 95:
            # A byte of a variable, or the variable as its other type.
            self.tags.add("partial")
            x = s.choice(self.ints)
            t = self.types.get(x)
            if t in (UL, UI) and s.chance(20):
                return "*(%s *) &%s" % ({UL: "long", UI: "int"}[t], x)
            n = {UL: 8, UI: 4, US: 2}.get(t, 1)
            j = s.draw(n)
            return s.choice(["*(unsigned char *) &%s", "((unsigned char *) &%s)[0]"]) % x if s.chance(50) else \
                "((unsigned char *) &%s)[%d]" % (x, j)
        if k < 96 and self.bptrs:
            self.tags.add("byte-pointer")
            b, n = s.choice(self.bptrs)
            return "%s[%d]" % (b, s.draw(n))
        return s.choice(self.ints)

    def ex(self, d=2):
        s = self.src
        k = s.draw(100)
        if d <= 0 or k < 25:
            return self.lv() if s.chance(75) else self.const()
        if k < 62:
            op = s.choice(["+", "-", "*", "&", "|", "^", "+", "-"])
            return "(%s %s %s)" % (self.wide(d - 1), op, self.ex(d - 1))
        if k < 68:
            return "(%s %s %s)" % (self.ex(d - 1), s.choice(["<", ">", "==", "!=", "<=", ">="]), self.ex(d - 1))
        if k < 73:
            return "(%s %s %s)" % (self.ex(d - 1), s.choice(["&&", "||"]), self.ex(d - 1))
        if k < 78:
            return "(%s ? %s : %s)" % (self.ex(d - 1), self.ex(d - 1), self.ex(d - 1))
        if k < 82:
            return "(%s >> %d)" % (self.wide(d - 1), s.draw(20))
        if k < 85:
            return s.choice(["!%s", "~%s", "-(unsigned long) %s"]) % ("(" + self.ex(d - 1) + ")")
        if k < 88:
            return "(%s) (%s)" % (s.choice([UL, UI, US, UC, "_Bool", "signed char", "long"]), self.ex(d - 1))
        if k < 92:
            return self.call(d)
        if k < 95:
            self.tags.add("side-effect")
            v = s.choice(self.ints)
            return "(%s, %s)" % (self.assign(v, d - 1), self.ex(d - 1)) if s.chance(60) else \
                "(%s)" % s.choice(["%s++", "++%s", "--%s", "%s--"]) % v
        if k < 98 and self.dbls:
            self.tags.add("double")
            return "(unsigned long) (%s)" % s.choice(self.dbls)
        return self.lv()

    def wide(self, d):
        """Unsigned operand, so that arithmetic cannot overflow."""
        return "(unsigned long) %s" % self.paren(self.ex(d)) if self.src.chance(70) else "%s" % self.unsig(d)

    def unsig(self, d):
        v = [x for x in self.ints if self.types[x] in (UL, UI)]
        return self.src.choice(v) if v else "1u"

    def paren(self, x):
        return "(%s)" % x

    def call(self, d):
        s = self.src
        self.tags.add("call")
        k = s.draw(6)
        uls = [x for x in self.ints if self.types[x] == UL]
        if k == 0 and uls:
            self.tags.add("address-passed")
            return "@rd(&%s)" % s.choice(uls)
        if k == 1 and uls:
            self.tags.add("address-passed")
            return "@wr(&%s, %s)" % (s.choice(uls), self.ex(d - 1))
        if k == 2:
            return "@via(%s)" % self.ex(d - 1)
        if k == 3 and self.recs:
            r, u = s.choice(self.recs)
            return "@rec(%s)" % r if not u else "@get()"
        if k == 4:
            self.tags.add("variadic")
            return "@sum(%d, %s, %s)" % (s.int(1, 2), self.wide(d - 1), self.wide(d - 1))
        return s.choice(["@get()", "@id(%s)" % self.ex(d - 1)])

    def assign(self, v, d=2):
        s = self.src
        k = s.draw(10)
        if k < 6:
            return "%s = %s" % (v, self.ex(d))
        if k < 8:
            return "%s %s= %s" % (v, s.choice(["+", "-", "^", "|", "&"]), self.ex(d)) \
                if self.types.get(v, UL) in (UL, UI) else "%s = %s" % (v, self.ex(d))
        return "%s = %s = %s" % (v, self.lv(True), self.ex(d - 1))

    # ---- statements -------------------------------------------------------
    def block(self, d, n=None):
        s = self.src
        out = []
        for _ in range(n or s.int(1, 4)):
            out += self.stmt(d)
        return out

    def stmt(self, d):
        s = self.src
        k = s.draw(100)
        uls = [x for x in self.ints if self.types[x] == UL]
        if k < 26:
            return [self.assign(self.lv(True)) + ";"]
        if k < 34:
            self.tags.add("temporary")
            t = s.choice(self.ints)
            e = self.ex(2)
            out = ["%s = %s;" % (t, e)]
            if s.chance(30):
                out += self.stmt(0)
            u = s.choice([x for x in self.ints if self.types[x] == self.types[t]])
            if s.chance(25):
                u = self.lv(True)
            out.append("%s = %s;" % (u, t))
            if s.chance(40):
                out.append("%s = %s;" % (t, self.ex(1)))
            return out
        if k < 36 and (self.recs or self.arrs):
            # Store to one part, read the next one.
            self.tags.add("part-then-part")
            same = []
            for r, u in self.recs:
                same += [[r + ".l"], [r + ".i[0]", r + ".i[1]"], [r + ".c[5]", r + ".c[0]"]] if u else \
                    [[r + ".x", r + ".w", r + ".a[0]", r + ".a[1]"], [r + ".c[0]", r + ".c[1]", r + ".c[2]"],
                     [r + ".y", r + ".z"]]
            same += [[a + "[%d]" % i for i in range(4)] for a in self.arrs]
            c = s.choice(same)
            a, b, t = s.choice(c), s.choice(c), s.choice(self.ints)
            d2 = s.choice([x for x in self.ints if self.types[x] in (UL, UI)])
            return ["%s = %s;" % (b, self.ex(1)), "%s = %s;" % (a, self.ex(1)), "%s = %s;" % (s.choice([t, d2]), b)]
        if k < 41 and self.ptrs:
            p, t, own = s.choice(self.ptrs)
            self.tags.add("pointer-assign")
            c = self.targets(t)
            if s.chance(25):
                return ["%s = %s ? %s : %s;" % (p, self.ex(1), s.choice(c), s.choice(c))]
            return ["%s = %s;" % (p, s.choice(c))]
        if k < 43 and self.pptrs:
            pp, t = s.choice(self.pptrs)
            c = [p for p, u, _ in self.ptrs if u == t]
            return ["%s = &%s;" % (pp, s.choice(c))]
        if k < 48:
            self.tags.add("escaped")
            return ["@gp = &%s;" % s.choice(uls)]
        if k < 50:
            return ["%s = (double) (%s & 1023) * 0.5;" % (x, self.wide(1)) for x in self.dbls[:1]] + \
                ["%s = %s + 1.0;" % (x, y) for x, y in zip(self.dbls, self.dbls[1:])][:1]
        if k < 53 and len(self.recs) > 1:
            a, b = s.choice(self.recs), s.choice(self.recs)
            self.tags.add("record-copy")
            return ["%s = %s;" % (a[0], b[0])] if a[1] == b[1] else []
        if k < 57:
            return self.observe()
        if k < 59:
            return [self.call(1) + ";"]
        if k < 60 and self.vps:
            self.tags.add("self-pointer")
            v = s.choice(self.vps)
            # An object that holds its own address, or that of another.
            w = s.choice(self.vps)
            return ["%s = &%s;" % (v, w), "*(void **) %s = %s;" % (v, s.choice([v, w])),
                    "oi(%d, %s == &%s);" % (self.n(), w, v), "%s = 0;" % w if s.chance(30) else ";"]
        if d <= 0:
            return [self.assign(self.lv(True)) + ";"]
        if k < 71:
            c = self.ex(2)
            out = ["if (%s) {" % c] + self.block(d - 1) + ["}"]
            if s.chance(55):
                out[-1] = "} else {"
                out += self.block(d - 1) + ["}"]
            return out
        if k < 84:
            return self.loop(d)
        if k < 90:
            self.tags.add("switch")
            out = ["switch (%s & %s) {" % (self.wide(1), s.choice(["3", "7"]))]
            for c in range(s.int(1, 4)):
                out += ["case %d: ;" % c] + self.block(d - 1, s.int(1, 2)) + (["break;"] if s.chance(60) else [])
            if s.chance(60):
                out += ["default: ;"] + self.block(d - 1, 1)
            return out + ["}"]
        if k < 94:
            self.tags.add("goto-forward")
            l = "l%d" % self.n()
            out = ["if (%s) goto %s;" % (self.ex(1), l)] + self.block(d - 1)
            if s.chance(20):
                out.append("goto %s;" % l)
                out += self.block(0, 1)
            return out + ["%s: ;" % l]
        if k < 96 and self.inloop:
            return ["if (%s) %s;" % (self.ex(1), s.choice(["break", "continue"]))]
        if k < 97:
            return ["if (%s) return %s;" % (self.ex(1), self.ex(1))]
        if k < 98:
            self.tags.add("vla")
            v = "w%d" % self.n()
            i = self.n()
            return ["{", "unsigned long %s[(%s & 3) + 2];" % (v, self.wide(1)), "%s[0] = %s;" % (v, self.ex(1)),
                    "%s[1] = %s[0] + 1;" % (v, v), "oi(%d, %s[1]);" % (i, v), "}"]
        l = "l%d" % self.n()
        c = self.counter()
        self.tags.add("goto-backward")
        self.inloop, io = 0, self.inloop
        out = ["%s = 0;" % c, "%s: ;" % l] + self.block(d - 1) + ["if (++%s < %d) goto %s;" % (c, s.int(2, 4), l)]
        self.inloop = io
        return out

    def counter(self):
        c = "i%d" % self.n()
        self.counters.append(c)
        return c

    def loop(self, d):
        s = self.src
        self.tags.add("loop")
        c = self.counter()
        n = s.int(1, 4)
        self.inloop += 1
        self.depth += 1
        b = self.block(d - 1 if self.depth < 3 else 0)
        self.inloop -= 1
        self.depth -= 1
        k = s.draw(4)
        if k == 0:
            return ["for (%s = 0; %s < %d; %s++) {" % (c, c, n, c)] + b + ["}"]
        if k == 1:
            return ["%s = %d;" % (c, n), "while (%s--%s) {" % (c, " && (%s)" % self.ex(1) if s.chance(30) else "")] + b + ["}"]
        if k == 2:
            return ["%s = 0;" % c, "do {"] + b + ["} while (++%s < %d);" % (c, n)]
        return ["%s = 0;" % c, "for (;;) {", "if (%s++ >= %d) break;" % (c, n)] + b + ["}"]

    def observe(self):
        return ["oi(%d, %s);" % (self.n(), self.lv())]

    def targets(self, t):
        c = ["&" + x for x in self.ints if self.types[x] == t]
        if t == UL:
            c += ["&" + a + "[2]" for a in self.arrs] + ["&%s.x" % r for r, u in self.recs if not u] + ["&@g0"]
        return c

    def variadic(self):
        """Read arguments, some of which nobody looks at."""
        s = self.src
        self.tags.add("va_arg")
        self.va = ["3"]
        out = ["va_list ap;", "va_start(ap, n);"]
        for i in range(s.int(2, 6)):
            k = s.draw(10)
            v = s.choice(self.ints)
            if k < 6:
                out.append("%s = va_arg(ap, unsigned long);" % v)
                self.va.append("%dUL" % (s.draw(1000) + 1000 * i))
            elif k < 8:
                out.append("%s = va_arg(ap, %s);" % (v, s.choice(["int", "unsigned"])))
                self.va.append("%d" % (s.draw(1000) + 1000 * i))
            elif k < 9:
                out.append("%s = (unsigned long) va_arg(ap, double);" % v if not self.dbls else
                           "%s = va_arg(ap, double);" % s.choice(self.dbls))
                self.va.append("%d.5" % (s.draw(1000) + 1000 * i))
            else:
                out.append("va_arg(ap, unsigned long);")
                self.va.append("%dUL" % (s.draw(1000) + 1000 * i))
            if s.chance(40):
                out += self.stmt(0)
            if s.chance(30):
                out.append("oi(%d, %s);" % (self.n(), v))
        return [x for x in out if not x.startswith(("if", "return"))] + \
            (["va_end(ap);"] if s.chance(70) else []), []

    # ---- functions --------------------------------------------------------
    def function(self):
        s = self.src
        self.ints, self.types, self.ptrs, self.pptrs = [], {}, [], []
        self.arrs, self.recs, self.rptrs, self.bptrs, self.dbls, self.vps = [], [], [], [], [], []
        self.counters = []
        self.inloop = self.depth = 0
        decls = []
        name = "@f%d" % len(self.fns)
        params = []
        for i in range(s.int(0, 3)):
            t = s.choice([UL, UL, UI, UC])
            params.append("%s p%d" % (t, i))
            self.ints.append("p%d" % i)
            self.types["p%d" % i] = t
        for i in range(s.int(2, 6)):
            t = s.choice([UL, UL, UL, UI, UI, US, UC])
            v = "v%d" % i
            self.ints.append(v)
            self.types[v] = t
            st = "static " if s.chance(6) else ""
            decls.append("%s%s %s = %d;" % (st, t, v, s.draw(300) & 255))
        uls = [x for x in self.ints if self.types[x] == UL]
        if not uls:
            self.ints.append("u")
            self.types["u"] = UL
            decls.append("unsigned long u = 3;")
        if s.chance(40):
            self.arrs.append("ar")
            decls.append("unsigned long ar[4] = {1, 2, 3};")
        if s.chance(45):
            n = s.int(1, 3)
            for i in range(n):
                u = s.chance(30)
                r = "r%d" % i
                self.recs.append((r, u))
                decls.append("%s %s = {%d};" % ("union @U" if u else "struct @S", r, s.draw(100)))
            c = [r for r, u in self.recs if not u]
            if c and s.chance(50):
                self.rptrs.append("rp")
                decls.append("struct @S *rp = &%s;" % s.choice(c))
        if s.chance(25):
            self.dbls = ["d0", "d1"]
            decls.append("double d0 = 1.0, d1 = 2.0;")
        if s.chance(65):
            for i in range(s.int(1, 2)):
                t = s.choice(sorted(set(self.types[x] for x in self.ints)))
                p = "q%d" % i
                decls.append("%s *%s = %s;" % (t, p, s.choice(self.targets(t))))
                self.ptrs.append((p, t, None))
            if s.chance(35):
                p, t, _ = s.choice(self.ptrs)
                decls.append("%s **qq = &%s;" % (t, p))
                self.pptrs.append(("qq", t))
        if s.chance(15):
            x = s.choice(self.ints)
            decls.append("unsigned char *b0 = (unsigned char *) &%s;" % x)
            self.bptrs.append(("b0", {UL: 8, UI: 4, US: 2, UC: 1}[self.types[x]]))
        if s.chance(8):
            self.vps = ["e0", "e1"]
            decls.append("void *e0 = 0, *e1 = 0;")
        self.va = 0
        vbeg, vend = [], []
        if s.chance(12):
            vbeg, vend = self.variadic()
        body = self.block(s.int(1, 3), s.int(2, 9))
        end = []
        for x in self.ints + self.dbls:
            if s.chance(35):
                end.append("%s(%d, %s);" % ("od" if x in self.dbls else "oi", self.n(), x))
        for r, u in self.recs:
            if s.chance(40):
                end.append("oi(%d, %s);" % (self.n(), r + (".l" if u else s.choice([".x", ".y", ".z", ".q"]))))
        if s.chance(40):
            end.append("oi(%d, @get());" % self.n())
        cs = ["int %s;" % ", ".join(self.counters)] if self.counters else []
        ret = "return %s;" % self.ex(2)
        plist = ", ".join(params) or "void"
        args = [None] * len(params)
        if self.va:
            plist = ", ".join(params + ["int n", "..."])
            args += self.va
        self.fns.append((name, args))
        out = ["static unsigned long %s(%s)" % (name, plist), "{"]
        out += ["    " + x for x in decls + cs + ["@gp = &%s;" % ([x for x in self.ints if self.types[x] == UL][0])]
                + vbeg + body + end + vend + [ret]]
        return "\n".join(out + ["}"])

    def build(self):
        s = self.src
        fs = [self.function() for _ in range(s.int(1, 3))]
        main = ["static void @go(void)", "{"]
        for name, n in self.fns:
            for _ in range(s.int(1, 2)):
                main.append("    oi(0, %s(%s));" % (name, ", ".join(a or self.const() for a in n)))
                main.append("    @gp = &@g0; oi(1, @g0); oi(2, @g1);")
        main.append("}")
        return PRE + "\n".join(fs + main) + "\n"


PRE = """\
struct @S { unsigned long x; unsigned y: 5, z: 11; unsigned char c[3]; unsigned short q; unsigned long w, a[2]; };
union @U { unsigned long l; unsigned i[2]; unsigned char c[8]; };
static unsigned long @g0 = 5, @g1, @ga[3];
static unsigned long *@gp = &@g0;
static unsigned long @rd(unsigned long *p) { return *p + 1; }
static unsigned long @wr(unsigned long *p, unsigned long v) { unsigned long o = *p; *p = v; return o; }
static unsigned long @via(unsigned long v) { unsigned long o = *@gp; *@gp = v; return o; }
static unsigned long @get(void) { return *@gp; }
static unsigned long @id(unsigned long v) { return v; }
static unsigned long @rec(struct @S s) { return s.x + s.y + s.z + s.c[1] + s.q; }
static unsigned long @sum(int n, ...)
{
    unsigned long t = 0;
    va_list ap;
    va_start(ap, n);
    while (n--) t += va_arg(ap, unsigned long);
    va_end(ap);
    return t;
}
"""
