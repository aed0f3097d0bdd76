"""C06: sizes, alignments and layout of types; meaning of declarators."""
from pbt.engine import Property, Case
from pbt.types import (TypeGen, Rec, Arr, Pt, Fun, Sc, Fld, VOID, INT, CHAR, LONG, decl, leaves, INTS)
from checks.common import BatchProgram


class Gen:
    def __init__(self, src):
        self.src = src
        self.g = TypeGen(src, maxsize=160, pointers=True, wild=True)
        self.top = []
        self.body = []
        self.tags = self.g.tags
        self.k = 0

    def out(self, text):
        self.k += 1
        self.body.append("oi(%d, %s);" % (self.k, text))

    # ---- records -----------------------------------------------------
    def anonymous(self, depth=1):
        """Text of a record with anonymous members, with member paths."""
        s = self.src
        self.tags.add("anonymous-member")
        n = [0]

        def body(union, depth):
            txt, paths = [], []
            for i in range(s.int(1, 4)):
                if depth > 0 and s.chance(40):
                    u = s.chance(60)
                    t, p = body(u, depth - 1)
                    txt.append("%s { %s };" % ("union" if u else "struct", t))
                    paths += p
                else:
                    n[0] += 1
                    paths.append("a%d" % n[0])
                    if not union and s.chance(15) and (not txt or txt[-1].startswith("int a%d: " % (n[0] - 1))):
                        txt.append("int a%d: %d;" % (n[0], s.int(1, 32)))
                        paths.pop()
                        continue
                    t = self.g.obj(1)
                    txt.append(decl(t, "a%d" % n[0]) + ";")
            return " ".join(txt), paths
        u = s.chance(30)
        t, p = body(u, 2)
        name = "%s @A%d" % ("union" if u else "struct", len(self.top))
        return name, "%s { %s };" % (name, t), p

    def record(self):
        s = self.src
        if s.chance(20):
            name, text, paths = self.anonymous()
            pre = list(self.g.defs)
            self.top += pre + [text]
            self.g.defs.clear()
            self.measure(name, ["." + p for p in paths])
            return
        r = self.g.record(2)
        if s.chance(15) and not r.union:
            # Flexible array member
            e = self.g.scalar()
            r.fields.append(Fld("fl", Arr(e, None)))
            d = r.define()
            r.fields.pop()
            self.top += self.g.defs[:-1] + [d]
            self.tags.add("flexible-array")
            self.g.defs.clear()
            self.g.recs.remove(r)
            self.out("sizeof(%s)" % r.name)
            self.out("_Alignof(%s)" % r.name)
            self.out("(long) &((%s *) 0)->fl" % r.name)
            self.out("(long) &((%s *) 0)->fl[2]" % r.name)
            return
        self.top += self.g.defs
        self.g.defs.clear()
        paths, bits = [], []
        seen = set()

        def walk(t, p):
            if len(paths) > 40:
                return
            if isinstance(t, Rec):
                for f in t.fields:
                    if not f.name:
                        continue
                    if f.width is not None:
                        bits.append((p + "." + f.name, f))
                    else:
                        paths.append(p + "." + f.name)
                        walk(f.t, p + "." + f.name)
            elif isinstance(t, Arr):
                for i in sorted(set([0, t.n - 1])):
                    paths.append("%s[%d]" % (p, i))
                    walk(t.elem, "%s[%d]" % (p, i))
        walk(r, "")
        self.measure(r.name, paths, bits, r)

    def measure(self, name, paths, bits=(), r=None):
        s = self.src
        self.k += 1
        n = "v%d" % self.k
        self.top.append("static %s @%s, @%sa[3];" % (name, n, n))
        self.out("sizeof(%s)" % name)
        self.out("_Alignof(%s)" % name)
        self.out("sizeof @%sa" % n)
        self.out("(char *) &@%sa[1] - (char *) @%sa" % (n, n))
        self.top.append("struct @S%s { char c; %s x; char d; };" % (n, name))
        self.top.append("static struct @S%s @%sc;" % (n, n))
        self.out("(char *) &@%sc.x - (char *) &@%sc" % (n, n))
        self.out("(char *) &@%sc.d - (char *) &@%sc" % (n, n))
        for p in s.sample(paths, 14):
            k = s.draw(4)
            if k == 0:
                self.out("(long) &((%s *) 0)->%s" % (name, p[1:]))
            elif k == 1:
                self.out("sizeof @%s%s" % (n, p))
            else:
                self.out("(char *) &@%s%s - (char *) &@%s" % (n, p, n))
        for p, f in s.sample(bits, 6):
            self.body.append("memset(&@%s, 0, sizeof @%s);" % (n, n))
            self.body.append("@%s%s = -1;" % (n, p))
            self.k += 1
            self.body.append("om(%d, &@%s, sizeof @%s);" % (self.k, n, n))
            self.body.append("memset(&@%s, 255, sizeof @%s);" % (n, n))
            self.body.append("@%s%s = 0;" % (n, p))
            self.k += 1
            self.body.append("om(%d, &@%s, sizeof @%s);" % (self.k, n, n))
        # Data of a local object, stored member by member
        if r and s.chance(50):
            self.k += 1
            m = "l%d" % self.k
            self.body.append("{ %s %s; memset(&%s, 0, sizeof %s);" % (name, m, m, m))
            for i, (p, t, w) in enumerate(leaves(r)):
                if i > 30:
                    break
                if t.kind == "p":
                    continue
                v = s.draw(250) + 1
                if t.name == "long double":
                    continue
                self.body.append("%s%s = %d;" % (m, p, v))
            self.body.append("om(%d, &%s, sizeof %s); }" % (self.k, m, m))

    # ---- declarators -----------------------------------------------------
    def nest(self, depth, t=None):
        """A derived type of pointers, arrays and functions."""
        s = self.src
        t = t or s.choice([INT, CHAR, LONG, self.g.scalar()] + self.g.recs)
        for _ in range(depth):
            k = s.draw(10)
            if isinstance(t, Fun) or k < 4:
                t = Pt(t)
            elif k < 7:
                t = Arr(t, s.choice([1, 2, 3, 5, 7]))
            elif isinstance(t, Arr):
                t = Pt(t)
            else:
                t = Fun(t if s.chance(80) else VOID, [self.param() for _ in range(s.draw(4))], False)
                if t.params and s.chance(20):
                    t.varargs = True
                t = Pt(t) if s.chance(60) else t
        if isinstance(t, Arr) and t.size > 20000:
            t = Pt(t)
        return t

    def param(self):
        s = self.src
        k = s.draw(6)
        if k < 3:
            return self.g.scalar()
        if k == 3:
            return Pt(Arr(self.g.scalar(), s.int(1, 5)))
        return Pt(s.choice([INT, VOID, CHAR] + self.g.recs))

    def typed(self, t, name):
        """Declares name with type t, in one declarator or through typedefs."""
        s = self.src
        if s.chance(50):
            return decl(t, name)
        inner = t
        path = []
        while isinstance(inner, (Pt, Arr)) and s.chance(60):
            path.append(inner)
            inner = inner.to if isinstance(inner, Pt) else inner.elem
        if isinstance(inner, (Sc, Rec)) and not path:
            return decl(t, name)
        self.k += 1
        td = "@Y%d" % self.k
        self.top.append("typedef %s;" % decl(inner, td))
        self.tags.add("typedef")
        x = Sc(td, 1, "i")
        for p in reversed(path):
            x = Pt(x) if isinstance(p, Pt) else Arr(x, p.n)
        return decl(x, name)

    def declarator(self):
        s = self.src
        t = self.nest(s.int(1, 5))
        self.tags.add("declarator")
        self.k += 1
        n = "@d%d" % self.k
        if isinstance(t, Fun):
            self.top.append(decl(t, n) + ";")
            if s.chance(50):
                self.top.append(self.typed(t, n) + ";")
            t = Pt(t)
            d = self.typed(t, n + "p")
            self.top.append("extern %s;" % d)
            n += "p"
        else:
            if isinstance(t, Arr) and s.chance(40):
                self.tags.add("composite")
                self.top.append("extern %s;" % decl(Arr(t.elem, None), n))
                d = self.typed(t, n)
                self.top.append("extern %s;" % d)
                if s.chance(40):
                    self.top.append("extern %s;" % decl(Arr(t.elem, None), n))
            else:
                self.top.append("extern %s;" % self.typed(t, n))
                if s.chance(50):
                    self.top.append("extern %s;" % self.typed(t, n))
        # The same type written without a name
        if s.chance(70):
            self.out("sizeof(%s)" % decl(t))
        e = n
        steps = 0
        while steps < 8:
            steps += 1
            if isinstance(t, Pt):
                self.out("sizeof %s" % e)
                if t.to is VOID:
                    break
                if isinstance(t.to, Fun):
                    f = t.to
                    if f.ret is VOID:
                        break
                    if s.chance(60):
                        e = "(*%s)" % e
                    args = []
                    for p in f.params:
                        args.append("0")
                    e = "%s(%s)" % (e, ", ".join(args))
                    t = f.ret
                    continue
                if isinstance(t.to, Rec) or not isinstance(t.to, (Pt, Arr)):
                    self.out("sizeof *%s" % e)
                    if isinstance(t.to, Rec) and s.chance(50):
                        f = s.choice([f for f in t.to.fields if f.name])
                        if f.width is None:
                            self.out("sizeof %s->%s" % (e, f.name))
                    if s.chance(50):
                        self.out("(long) (%s - 0 + 1) - (long) %s" % ("(%s) 0" % decl(t), "(%s) 0" % decl(t)))
                    break
                e = "%s[1]" % e if s.chance(50) else "(*%s)" % e
                t = t.to
            elif isinstance(t, Arr):
                self.out("sizeof %s" % e)
                self.out("sizeof %s / sizeof %s[0]" % (e, e))
                if s.chance(30):
                    self.out("sizeof(&%s)[1]" % e if False else "sizeof *&%s" % e)
                e = "%s[0]" % e if s.chance(50) else "(*%s)" % e
                t = t.elem
            elif isinstance(t, (Sc, Rec)):
                self.out("sizeof %s" % (e if s.chance(50) else "(%s)" % e))
                break
            else:
                break

    def calls(self):
        """Functions whose declarators return pointers to arrays/functions."""
        s = self.src
        self.k += 1
        k = self.k
        n = "@w%d" % k
        e = s.choice([INT, CHAR, LONG, INTS["short"]])
        a = s.int(2, 5)
        arr = Arr(e, a)
        self.tags.add("returns-declarator")
        self.top.append("static %s = {%s};" % (decl(Arr(arr, 2), n + "v"), ", ".join("{%d, %d}" % (s.draw(99), s.draw(99)) for _ in range(2))))
        f1 = Fun(Pt(arr), [INT])
        head = decl(Pt(arr), "%sf(int i)" % n)
        self.top.append("static %s { return %sv + i; }" % (head, n))
        self.out("(*%sf(1))[%d]" % (n, s.draw(2)))
        self.out("%sf(0)[1][%d]" % (n, s.draw(2)))
        self.out("sizeof *%sf(0)" % n)
        fp = Pt(f1)
        head = decl(fp, "%sg(void)" % n)
        self.top.append("static %s { return %s%sf; }" % (head, s.choice(["", "&", "*"]), n))
        self.out("(*%sg()(1))[0]" % n)
        self.out("(*(*%sg())(0))[1]" % n)
        self.top.append("static %s = {%sf, &%sf};" % (decl(Arr(fp, 2), n + "t"), n, n))
        self.out("(*%st[1](0))[0]" % n)
        self.out("sizeof %st / sizeof *%st" % (n, n))
        x = decl(Pt(Arr(fp, 2)), "x")
        self.body.append("{ %s = &%st; oi(%d, (*(*x)[0](1))[1]); oi(%d, sizeof *x); }" % (x, n, k, k))
        p = decl(s.choice([f1, Pt(f1)]), "q")
        self.top.append("static long %sh(%s, int i) { return (*q(i))[0] + sizeof q; }" % (n, p))
        self.out("%sh(%sf, 1)" % (n, n))
        # Array parameters are pointers
        self.top.append("static long %si(%s, %s) { return sizeof p + sizeof *p + sizeof q + (p + 1 == (void *) q); }" % (
            n, decl(Arr(arr, s.choice([None, 3])), "p"), decl(Arr(e, s.choice([None, 2])), "q")))
        self.out("%si(%sv, %sv[1])" % (n, n, n))

    def quals(self):
        s = self.src
        self.k += 1
        n = "@q%d" % self.k
        base = s.choice(["char", "short", "int", "long"])
        sign = s.choice(["", "unsigned", "signed"])
        parts = [base] + ([sign] if sign else [])
        if base in ("short", "long") and s.chance(40):
            parts.append("int")
        if base == "long" and s.chance(40):
            parts.append("long")
        parts += [s.choice(["const", "volatile"])] if s.chance(50) else []
        parts = s.shuffle(parts)
        self.tags.add("specifier-order")
        self.top.append("static %s %s[2], *%sp = %s;" % (" ".join(parts), n, n, n))
        self.out("sizeof %s" % n)
        self.out("sizeof *%sp" % n)
        self.out("(%s) -1 < 0" % " ".join(parts))
        self.out("sizeof(%s (*)[3])" % " ".join(parts))
        self.body.append("{ enum @E%d { @a%d = %d, @b%d } e = @b%d; oi(%d, sizeof e + sizeof @a%d); oi(%d, e); }" % (
            self.k, self.k, s.int(-5, 100), self.k, self.k, self.k, self.k, self.k))

    def build(self):
        s = self.src
        for _ in range(s.int(1, 3)):
            self.record()
        for _ in range(s.int(1, 4)):
            k = s.draw(10)
            if k < 6:
                self.declarator()
            elif k < 8:
                self.calls()
            else:
                self.quals()
        return "\n".join(self.g.defs + self.top) + "\nstatic void @go(void)\n{\n    " + "\n    ".join(self.body) + "\n}\n"


class P(BatchProgram, Property):
    id = "C06"
    batch = 8
    quick_cases = 8 * 400
    thorough_factor = 15
    std = "gnu11"
    prelude = "void *memset(void *, int, unsigned long);\n"
    modes = ["c", "c-O1", "S", "c-nopic"]
    rule = ("A case declares one to three random records (nested, arrays, unions, anonymous members, "
            "bit-fields with unnamed and zero-width fields, flexible array members) and one to four random "
            "declarators or typedef chains; sizes, alignments, offsets, strides and the bytes each bit-field "
            "occupies must equal those gcc computes. Non-trivial: at least 8 measurements.")
    assumptions = ["gcc implements the platform ABI",
                   "bit-fields of different base sizes in one storage unit and bit-fields sharing a unit with "
                   "other members are left out (known finding)"]

    def gen(self, src, index):
        g = Gen(src)
        text = g.build()
        mode = src.choice(self.modes)
        return Case(text, nontrivial=g.k >= 8, tags=g.tags | {"mode:" + mode}, sample=text,
                    text=text, call="@go();", exp=None, mode=mode)
