"""C08: initialized objects hold the values their initializer specifies."""
from pbt.engine import Property, Case
from pbt.types import (TypeGen, Rec, Arr, Pt, Sc, Fld, INT, LONG, CHAR, UCHAR, SCHAR, SHORT, BOOL, FLOAT, DOUBLE,
                       LDOUBLE, INTS, decl)
from checks.common import BatchProgram


def members(r):
    """Indexes of fields that can be initialized."""
    return [i for i, f in enumerate(r.fields) if f.name or isinstance(f.t, Rec) and f.width is None]


class Gen:
    def __init__(self, src):
        self.src = src
        self.g = TypeGen(src, maxsize=src.choice([24, 48, 96]), pointers=True)
        self.tags = self.g.tags
        self.top, self.body = [], []
        self.k = 0
        self.vars = {}             # type key -> names of objects of the type
        self.anon = 0
        self.act = {}              # union path -> index of the initialized member, or None for all
        self.whole = set()         # paths initialized by one expression

    def n(self):
        self.k += 1
        return self.k

    # ---- types ---------------------------------------------------------
    def record(self):
        r = self.g.record(2)
        if self.src.chance(25):
            # Add an anonymous struct or union member.
            s = self.src
            self.tags.add("anonymous")
            fs = []
            self.anon += 1
            for i in range(s.int(1, 3)):
                fs.append(Fld("a%d_%d" % (self.anon, i), self.g.scalar() if s.chance(75) else Arr(INT, 2)))
            a = Rec("", fs, r.union or s.chance(50))
            fields = list(r.fields)
            at = s.draw(len(fields) + 1)
            while at < len(fields) and fields[at].width is not None:
                at += 1        # known finding: bit-field after a smaller member
            fields.insert(at, Fld("", a))
            self.g.n += 1
            r2 = Rec("%sT%d" % (self.g.x, self.g.n), fields, r.union)
            self.define(r2)
            self.g.recs.append(r2)
            return r2
        return r

    def define(self, r):
        out = []
        for f in r.fields:
            if f.width is not None:
                out.append("%s %s: %d;" % (f.t.name, f.name, f.width))
            elif not f.name:
                inner = " ".join(decl(x.t, x.name) + ";" for x in f.t.fields)
                out.append("%s{ %s };" % ("union " if f.t.union else "struct ", inner))
            else:
                out.append(decl(f.t, f.name) + ";")
        self.g.defs.append("%s { %s };" % (r.name, " ".join(out)))

    # ---- paths -----------------------------------------------------------
    def at(self, t, path):
        """(type, width) of the subobject."""
        w = None
        for i in path:
            w = None
            if isinstance(t, Arr):
                t = t.elem
            else:
                w = t.fields[i].width
                t = t.fields[i].t
        return t, w

    def first(self, t):
        return 0 if isinstance(t, Arr) else members(t)[0]

    def advance(self, t, path):
        """Next subobject after the one at path, or None at the end."""
        path = list(path)
        while path:
            i = path.pop()
            p, _ = self.at(t, path)
            if isinstance(p, Arr):
                if p.n is None or i + 1 < p.n:
                    return path + [i + 1]
            elif not p.union:
                ms = members(p)
                j = ms.index(i) + 1
                if j < len(ms):
                    return path + [ms[j]]
        return None

    def text(self, t, path):
        """Designator or access path."""
        out = ""
        for i in path:
            if isinstance(t, Arr):
                out += "[%d]" % i
                t = t.elem
            else:
                f = t.fields[i]
                if f.name:
                    out += "." + f.name
                t = f.t
        return out

    def any_path(self, t, stop=35):
        """Random subobject path, ending at something that can be designated."""
        s = self.src
        path = []
        while isinstance(t, (Arr, Rec)):
            if isinstance(t, Arr):
                i = s.draw(t.n if t.n is not None else 6)
                t = t.elem
                named = True
            else:
                i = s.choice(members(t))
                named = bool(t.fields[i].name)
                t = t.fields[i].t
            path.append(i)
            if named and s.chance(stop):
                break
        return path

    # ---- values ------------------------------------------------------------
    def scalar(self, t, w, const):
        s = self.src
        if t.kind == "p":
            return self.pointer(t, const)
        if t.kind == "f":
            k = s.draw(6)
            if k < 3:
                return "%d.%s" % (s.draw(1000) - 500, s.choice(["0", "5", "25"]))
            if k == 3:
                return str(s.draw(100000))
            if k == 4:
                return "%s(1 << %d)" % (s.choice(["-", "", "0.5f * "]), s.draw(20))
            return self.nonconst(t) if not const else "1.5f"
        k = s.draw(9)
        b = (w if w is not None else t.size * 8)
        if k < 4:
            v = s.draw(100)
        elif k == 4:
            v = s.bits(min(b, 62))
            if t.it and t.it.signed and s.chance(50):
                v = -(v >> 1)
        elif k == 5:
            return s.choice(["'a'", "'\\n'", "3 * 7 - 1", "sizeof(int)", "~0", "!5", "(1 ? 7 : 0)", "-1", "'z' - 'a'"])
        elif k == 6:
            if w is not None:
                return "@E1"
            return s.choice(["2.75", "100.5f", "0x7fffffff", "(char) 200", "(unsigned char) 511", "3 > 2", "@E1"])
        else:
            if not const:
                return self.nonconst(t)
            v = s.draw(1000)
        return "%d%s" % (v, "L" if abs(v) > 0x7fffffff else "")

    def nonconst(self, t):
        s = self.src
        self.tags.add("computed-element")
        return s.choice(["i", "j", "i + %d" % s.draw(50), "j * 3", "(i ? j : 5)", "(i && j)", "@fn(%d)" % s.draw(50),
                         "@fn(j) + i", "g", "-j", "(i, j)", "*pi", "@fl(2)", "(i || @fn(0))"]).replace("g", "@g")

    def pointer(self, t, const):
        s = self.src
        self.tags.add("address")
        k = s.draw(8)
        to = t.to
        if to is CHAR:
            if k < 3:
                return '"%s"' % self.safe(self.chars(s.draw(6)))
            if k == 3:
                x = self.chars(s.int(1, 6))
                return '"%s" + %d' % (self.safe(x), s.draw(len(list(self.split(x))) + 1))
            if k == 4:
                return '&"%s"[%d]' % ("pqrs", s.draw(4))
        name = {"int": "@ai", "char": "@ac", "long": "@al"}[to.name]
        if k < 2:
            return name
        if k == 2:
            return "0"
        if k == 3:
            return "&%s[%d]" % (name, s.draw(4))
        if k == 4:
            return "%s + %d" % (name, s.draw(4))
        if k == 5 and not const:
            return "pi" if to is INT else "(void *) &%s[i & 3]" % name
        if k == 6:
            return "(%s) &@ai[1]" % decl(t)
        return "(void *) 0"

    def chars(self, n):
        return "".join(self.src.choice(["a", "b", "c", "0", "\\n", "\\0", " ", "\\x41", "\\101"]) for _ in range(n))

    # ---- initializers ------------------------------------------------------
    def braced(self, t, const, base=()):
        """Initializer in braces for t; notes which union members are active
        through self.note(path)."""
        s = self.src
        if not isinstance(t, (Arr, Rec)):
            return "{ %s }" % self.scalar(t, None, const)
        if isinstance(t, Arr) and t.elem.size == 1 and t.elem.kind == "i" and t.elem is not BOOL and s.chance(25):
            x = self.string(t)
            if x:
                self.mark(base, t, (0,))
                self.whole.add(base)
                return "{%s}" % x
        items = []
        cur = [self.first(t)]
        maxi = s.weighted([(20, 1), (30, 3), (30, 6), (20, 30)])
        high = 0
        des = s.weighted([(55, 0), (25, 20), (20, 55)])
        while len(items) < maxi:
            d = ""
            if cur is None or s.draw(100) < des:
                if cur is None and not s.chance(30):
                    break
                if cur is None and not des:
                    break
                self.tags.add("designator")
                cur = self.any_path(t)
                if len(cur) > 1:
                    self.tags.add("nested-designator")
                if self.switches(base, t, cur):
                    break
                d = self.text(t, cur)
                if d == "" or d.endswith("]") and False:
                    break
                d += " = "
            full = base + tuple(cur)
            if any(full[:i] in self.whole for i in range(len(full))) and d == "":
                break
            if any(full[:i] in self.whole for i in range(len(full))):
                cur = None
                des = 0
                continue
            u, w = self.at(t, cur)
            # Descend to the first subobjects with some probability.
            k = s.draw(100)
            if isinstance(u, (Arr, Rec)):
                x = None
                if isinstance(u, Rec) and not const and u.tag and k < 22:
                    x = self.struct_value(u, base + tuple(cur))
                    self.whole.add(base + tuple(cur))
                if x is None and k < 62 and not (isinstance(u, Rec) and not u.tag):
                    if isinstance(u, Arr) and s.chance(50):
                        x = self.string(u)
                        if x:
                            self.clear(base + tuple(cur))
                            self.whole.add(base + tuple(cur))
                    if x is None:
                        self.clear(base + tuple(cur))
                        x = self.braced(u, const, base + tuple(cur))
                if x is None:
                    under = any(p[:len(full)] == full for p in self.whole)
                    if under:
                        break
                    self.tags.add("brace-elision")
                    while isinstance(u, (Arr, Rec)):
                        f = self.first(u)
                        cur = cur + [f]
                        w = None if isinstance(u, Arr) else u.fields[f].width
                        u = u.elem if isinstance(u, Arr) else u.fields[f].t
                        if isinstance(u, Arr) and s.chance(20):
                            x = self.string(u)
                            if x:
                                self.whole.add(base + tuple(cur))
                                break
                    if x is None:
                        x = self.scalar(u, w, const)
                    if self.switches(base, t, cur):
                        break
                items.append(d + x)
            else:
                items.append(d + self.leaf(u, w, const))
            self.mark(base, t, cur)
            if isinstance(t, Arr):
                high = max(high, cur[0] + 1)
            nxt = self.advance(t, cur)
            cur = nxt
        if isinstance(t, Arr) and t.n is None:
            t.count = max(high, 1)
        return "{%s%s}" % (", ".join(items), "," if s.chance(15) else "")

    def leaf(self, u, w, const):
        x = self.scalar(u, w, const)
        return "{%s}" % x if self.src.chance(4) else x

    def clear(self, path):
        """The subobject is initialized from scratch."""
        n = len(path)
        self.act = {p: v for p, v in self.act.items() if p[:n] != path}
        self.whole = {p for p in self.whole if p[:n] != path}

    def switches(self, base, t, path):
        """A nested designator names another member of a union already
        initialized, a known finding."""
        for k, i in enumerate(path):
            if isinstance(t, Rec) and t.union and k:
                a = self.act.get(base + tuple(path[:k]), i)
                if a != i:
                    return True
            t = t.elem if isinstance(t, Arr) else t.fields[i].t
        return False

    def mark(self, base, t, path):
        """Note which members of unions an initialized element is in."""
        for k, i in enumerate(path):
            if isinstance(t, Rec) and t.union:
                p = base + tuple(path[:k])
                if self.act.get(p, i) != i:
                    self.clear(p)
                self.act[p] = i
            t = t.elem if isinstance(t, Arr) else t.fields[i].t

    def string(self, t):
        s = self.src
        if not (isinstance(t, Arr) and isinstance(t.elem, Sc) and t.elem in (CHAR, UCHAR, SCHAR)):
            return None
        self.tags.add("string")
        n = t.n if t.n is not None else s.int(1, 8)
        x = self.chars(s.draw(n + 1))
        if t.n is None:
            t.count = len(list(self.split(x))) + 1
        if s.chance(20):
            i = len(x) // 2
            if "\\" not in x:
                return '"%s" "%s"' % (x[:i], x[i:])
        return '"%s"' % x.replace("\\0", "\\000") if False else '"%s"' % self.safe(x)

    def safe(self, x):
        # A digit after a short octal or hex escape would extend it.
        out = ""
        for tok in self.split(x):
            if tok == "\\0":
                tok = "\\000"
            if tok == "\\x41":
                tok = "\\101"
            out += tok
        return out

    def split(self, x):
        i = 0
        while i < len(x):
            for tok in ("\\x41", "\\101", "\\0", "\\n"):
                if x.startswith(tok, i):
                    yield tok
                    i += len(tok)
                    break
            else:
                yield x[i]
                i += 1

    def struct_value(self, u, path):
        s = self.src
        self.tags.add("struct-element")
        v = self.vars.get(u.name)
        if v is None:
            v = "@o%d" % self.n()
            self.vars[u.name] = v
            self.top.append("static %s;" % decl(u, v))
            ps = [p for p, w, _ in self.leaves(u) if w.kind == "p"]
            un = self.has_union(u)
            self.body.append("    memset(&%s, %d, sizeof %s);" % (v, 0 if ps and un else 17, v))
            if ps and not un:
                for p in ps:
                    self.body.append("    %s%s = (void *) &@ai[%d];" % (v, p, s.draw(4)))
            self.top.append("static %s { return %s; }" % (decl(u, v + "f(void)"), v))
        self.clear(path)
        if s.chance(15):
            return "(%s) {0}" % u.name
        self.act[path] = None
        return s.choice([v, v, v + "f()", "*&" + v, "(i ? %s : %s)" % (v, v)])

    # ---- leaves --------------------------------------------------------------
    def leaves(self, t, path="", at=(), live=False, every=True):
        """Scalar leaves; of unions, those of the initialized member."""
        live = live or at in self.act and self.act[at] is None
        if isinstance(t, Arr):
            n = t.n if t.n is not None else t.count
            for i in range(n):
                for x in self.leaves(t.elem, "%s[%d]" % (path, i), at + (i,), live, every):
                    yield x
        elif isinstance(t, Rec):
            ms = members(t)
            if t.union and not live and not every:
                i = self.act.get(at, ms[0])
                ms = [i]
            for i in ms:
                f = t.fields[i]
                p = path + ("." + f.name if f.name else "")
                if f.width is not None:
                    yield p, f.t, f.width
                else:
                    for x in self.leaves(f.t, p, at + (i,), live, every):
                        yield x
        else:
            yield path, t, None

    def dump(self, v, t):
        out = []
        ls = list(self.leaves(t, every=False))
        if len(ls) > 80:
            ls = ls[:40] + ls[-40:]
        for p, u, w in ls:
            k = self.n()
            e = v + p
            if u is FLOAT:
                out.append("of(%d, %s);" % (k, e))
            elif u is DOUBLE:
                out.append("od(%d, %s);" % (k, e))
            elif u is LDOUBLE:
                out.append("ol(%d, %s);" % (k, e))
            elif u.kind == "p":
                out.append("op(%d, %s);" % (k, e))
            else:
                out.append("oi(%d, %s);" % (k, e))
        return ["    " + x for x in out]

    def has_union(self, t):
        if isinstance(t, Arr):
            return self.has_union(t.elem)
        return isinstance(t, Rec) and (t.union or any(self.has_union(f.t) for f in t.fields))

    # ---- objects ---------------------------------------------------------
    def type(self):
        s = self.src
        k = s.draw(100)
        t = self.record() if k < 55 or not self.g.recs else s.choice(self.g.recs)
        if k >= 70:
            e = self.g.scalar() if k >= 85 else t
            t = Arr(e, s.int(1, 7))
            if s.chance(20):
                t = Arr(t, s.int(1, 3))
        if k >= 95:
            t = self.g.scalar()
        return t

    def obj(self):
        s = self.src
        t = self.type()
        if isinstance(t, Arr) and s.chance(35):
            t = Arr(t.elem, None)
            self.tags.add("unknown-length")
        k = s.draw(6)
        const = k < 3
        self.act, self.whole = {}, set()
        v = "@v%d" % self.n()
        if isinstance(t, Arr) and s.chance(20):
            x = self.string(t)
        else:
            x = None
        if x is None:
            x = self.braced(t, const) if isinstance(t, (Arr, Rec)) or s.chance(10) else self.scalar(t, None, const)
        d = decl(t, v)
        if k >= 4 and x[0] != "{":
            x = "{%s}" % x
        if k == 0:
            self.tags.add("static")
            self.top.append("%s%s = %s;" % (s.choice(["static ", ""]), d, x))
        elif k == 1:
            self.tags.add("static-local")
            self.body.append("    static %s = %s;" % (d, x))
        elif k == 2:
            # The same constant initializer both ways
            self.tags.add("static+auto")
            self.top.append("static const %s = %s;" % (d, x))
            self.body.append("    %s = %s;" % (decl(t, v + "b"), x))
            if isinstance(t, Arr) and t.n is None:
                self.body.append("    oi(%d, sizeof %sb);" % (self.n(), v))
            self.body += self.dump(v + "b", t)
        elif k == 3:
            self.tags.add("automatic")
            self.body.append("    %s = %s;" % (d, x))
        elif k == 4:
            self.tags.add("compound-literal")
            if isinstance(t, Arr):
                self.body.append("    %s = (%s) %s;" % (decl(Pt(t.elem), v), decl(t), x))
            elif isinstance(t, Rec):
                self.body.append("    %s = (%s) %s;" % (d, decl(t), x))
            else:
                self.body.append("    %s = (%s) %s;" % (d, decl(t), x))
        else:
            self.tags.add("literal-pointer")
            if isinstance(t, Arr):
                if t.n is None:
                    t.n = t.count
                    x = x
                self.body.append("    %s = &(%s) %s;" % (decl(Pt(t), v), decl(t), x))
                v = "(*%s)" % v
            elif isinstance(t, Rec):
                self.body.append("    %s = &(%s) %s;" % (decl(Pt(t), v), decl(t), x))
                v = "(*%s)" % v
            else:
                self.body.append("    %s = %s;" % (d, x))
        if isinstance(t, Arr) and t.n is None and k not in (4,):
            self.body.append("    oi(%d, sizeof %s);" % (self.n(), v))
        self.body += self.dump(v, t)

    def file_literal(self):
        """Address of a compound literal at file scope."""
        s = self.src
        t = s.choice(self.g.recs) if self.g.recs else self.record()
        v = "@v%d" % self.n()
        self.act, self.whole = {}, set()
        x = self.braced(t, True)
        self.tags.add("file-scope-literal")
        self.top.append("static %s = &(%s) %s;" % (decl(Pt(t), v), t.name, x))
        self.body += self.dump("(*%s)" % v, t)

    def build(self):
        s = self.src
        for _ in range(s.int(1, 3)):
            if s.chance(8):
                self.file_literal()
            else:
                self.obj()
        pre = ["static int @ai[4] = {1, 2, 3, 4};", "static char @ac[4] = \"xyz\";", "static long @al[4] = {5, 6, 7, 8};",
               "static int @g = 21;", "enum { @E0, @E1 = 7 };",
               "static int @fn(int x) { return x + 3; }", "static double @fl(int x) { return x + 0.5; }"]
        return "\n".join(pre + self.g.defs + self.top) + \
            "\nstatic void @go(void)\n{\n    int i = 1, j = 9, *pi = &@ai[2];\n    rt_scramble();\n    %s\n" % "" + \
            "\n".join(self.body) + "\n}\n"


class P(BatchProgram, Property):
    id = "C08"
    batch = 10
    quick_cases = 10 * 1000
    thorough_factor = 15
    modes = ["c", "c-O1", "S", "c-nopic"]
    prelude = """\
void *memset(void *, int, unsigned long);
static void rp(const char *base, const char *p, int n, int id, int *done)
{
    if (!*done && p >= base && p <= base + n) { oi(id, p - base + n * 1000); *done = 1; }
}
"""
    rule = ("A case defines one to three objects of random types with random initializers: nested and brace-elided lists, "
            "designators in any order with overriding and nesting, strings, struct values, computed elements, address constants, "
            "unknown length, in static, automatic and compound literal objects, and reports every member of each. Output must equal "
            "that of the program compiled by gcc. Non-trivial: a designator, elided braces, string, address, bit-field or union occurs.")
    assumptions = ["bytes of a union outside the initialized member are not compared unless gcc and clang agree on them"]

    def gen(self, src, index):
        g = Gen(src)
        text = g.build()
        # Pointers are reported relative to what they can point to.
        text = text.replace("static void @go(void)", """\
static void @op(int id, const void *q)
{
    int done = 0;
    const char *p = q;
    rp((char *) @ai, p, sizeof @ai, id, &done);
    rp(@ac, p, sizeof @ac, id, &done);
    rp((char *) @al, p, sizeof @al, id, &done);
    if (!p) oi(id, 0);
    else if (!done) { int i; for (i = 0; i < 8; i++) { oi(id, p[i]); if (!p[i]) break; } }
}
static void @go(void)""").replace(" op(", " @op(")
        mode = src.choice(self.modes)
        nt = g.tags & {"designator", "brace-elision", "string", "address", "bitfield", "union"}
        return Case(text, nontrivial=bool(nt), tags=g.tags | {"mode:" + mode}, sample=text,
                    text=text, call="@go();", exp=None, mode=mode)
