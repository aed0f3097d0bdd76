"""Generator of programs about objects: every object lies between guard bytes,
is written through varied lvalue paths, and is dumped leaf by leaf."""
from .types import (TypeGen, Rec, Arr, Pt, Sc, INT, LONG, CHAR, UCHAR, SHORT, ULONG, UINT, INTS,
                    FLOAT, DOUBLE, LDOUBLE, decl, leaves)
from . import cmodel as M


def pick(u):
    return sum(map(ord, u.tag)) % len([f for f in u.fields if f.name])


class Mem:
    def __init__(self, src, maxsize=72):
        self.src = src
        self.g = TypeGen(src, maxsize=maxsize, wild=True)
        self.tags = self.g.tags
        self.top, self.funcs, self.body = [], [], []
        self.objs = []             # (access expression, type, guard variable or None)
        self.k = 0
        self.idx = []              # (name, value) of index variables
        self.have = {}
        self.indent = "    "

    def n(self, p):
        self.k += 1
        return "%s%d" % (p, self.k)

    def emit(self, s):
        self.body.append(self.indent + s)

    # ---- values -------------------------------------------------------
    def ival(self):
        """An integer constant expression or variable, any value."""
        s = self.src
        k = s.draw(6)
        if k < 3:
            return str(s.draw(100))
        if k == 3:
            return "%d" % (s.draw(1 << 16) - (1 << 15))
        if k == 4 and self.idx:
            return s.choice(self.idx)[0]
        return "0x%xL" % s.draw(1 << 62)

    def value(self, t, w=None):
        """Expression that can be assigned to a leaf of type t."""
        s = self.src
        if t.kind == "f":
            return "%d.%s" % (s.draw(1000), s.choice(["0", "5", "25"]))
        if s.chance(40):
            lv = self.leaf("i")
            if lv:
                return lv[0]
        return self.ival()

    def index(self, v):
        """Text with value v."""
        s = self.src
        if self.idx and s.chance(55):
            name, have = s.choice(self.idx)
            if have == v:
                return name
            return "%s %s %d" % (name, "+" if v > have else "-", abs(v - have))
        return str(v)

    # ---- places -------------------------------------------------------
    def base(self):
        """(text, type, postfix) of an object."""
        s = self.src
        name, t = s.choice(self.objs)
        return self.access(name, t), t

    def access(self, name, t):
        s = self.src
        k = s.draw(13)
        if k < 5:
            return name
        if k == 5:
            return "(*&%s)" % name
        if k == 6:
            return "(&%s)[0]" % name
        if k < 9:
            p = self.n("p")
            self.emit("%s = &%s;" % (decl(Pt(t), p), name))
            if s.chance(30):
                self.emit("%s += 1; %s -= 1;" % (p, p))
            return "(*%s)" % p
        if k == 9:
            f = self.helper("id", t)
            return "(*%s(&%s))" % (f, name)
        if k == 10:
            return "(*(%s) ((char *) &%s + 0))" % (decl(Pt(t)), name)
        if k == 11:
            same = [o for o in self.objs if o[1] is t and o[0] != name]
            if same:
                o = s.choice(same)[0]
                c = self.one()
                return "(*(%s ? &%s : &%s))" % ((c, name, o) if s.chance(50) else ("!" + c, o, name))
        if k == 12:
            return "(*(%s, &%s))" % (self.one(), name)
        return name

    def one(self):
        """Text of a non-zero value unknown to the compiler."""
        nz = [i[0] for i in self.idx if i[1]]
        return self.src.choice(nz) if nz else "1"

    def helper(self, kind, t):
        key = (kind, decl(t))
        if key in self.have:
            return self.have[key]
        f = "@%s" % self.n(kind)
        s = self.src
        if kind == "id":
            self.funcs.append("static %s { return p; }" % decl(Pt(t), "%s(%s)" % (f, decl(Pt(t), "p"))))
        elif kind == "ch":
            # takes and returns by value, with a change
            lv = [x for x in leaves(t, "", pick=pick) if x[1].kind in "if"]
            ch = ""
            if lv:
                p, lt, w = s.choice(lv)
                ch = "p%s = %s; " % (p, self.value_const(lt))
            self.funcs.append("static %s { %sreturn p; }" % (decl(t, "%s(%s)" % (f, decl(t, "p"))), ch))
        elif kind == "mk":
            self.funcs.append("static %s { static %s; %s r = *p; return r; }" % (
                decl(t, "%s(%s)" % (f, decl(Pt(t), "p"))), decl(t, "q"), decl(t)))
        elif kind == "set":
            lv = [x for x in leaves(t, "", pick=pick) if x[1].kind in "if"]
            if not lv:
                return None
            p, lt, w = s.choice(lv)
            self.funcs.append("static void %s(%s, long x) { (*p)%s = x; }" % (f, decl(Pt(t), "p"), p))
        self.have[key] = f
        return f

    def value_const(self, t):
        if t.kind == "f":
            return "%d.5" % self.src.draw(100)
        return str(self.src.draw(100))

    def step(self, e, t):
        """One step into aggregate t."""
        s = self.src
        if isinstance(t, Rec):
            fs = [f for f in t.fields if f.name]
            f = fs[pick(t)] if t.union else s.choice(fs)
            if e.startswith("(*p") and e[3:-1].isdigit() and s.chance(70):
                e = "%s->%s" % (e[2:-1], f.name)
            elif f.width is None and s.chance(8):
                return "(*&(%s).%s)" % (e, f.name), f.t, None
            else:
                e = "%s.%s" % (e, f.name)
            return e, f.t, f.width
        i = s.draw(t.n)
        k = s.draw(10)
        if k < 6:
            e = "%s[%s]" % (e, self.index(i))
        elif k == 6:
            e = "(*(%s + %s))" % (e, "(%s)" % self.index(i))
        elif k == 7:
            e = "(%s)[%s]" % (self.index(i), e)
        elif k == 8:
            j = s.draw(t.n + 1)
            e = "(&%s[%d])[%d]" % (e, j, i - j)
        else:
            e = "(*(&%s[%d] - %d))" % (e, t.n, t.n - i)
        return e, t.elem, None

    def leaf(self, kinds="if"):
        for _ in range(4):
            e, t = self.base()
            w = None
            while isinstance(t, (Rec, Arr)):
                e, t, w = self.step(e, t)
            if t.kind in kinds:
                return e, t, w
        return None

    def place(self, want=None):
        """A subobject that is an aggregate (or of record type `want`)."""
        s = self.src
        for _ in range(6):
            e, t = self.base()
            w = None
            while isinstance(t, (Rec, Arr)):
                if want is None and isinstance(t, Rec) and s.chance(60) or t is want:
                    return e, t
                e, t, w = self.step(e, t)
        return None

    def array(self):
        for _ in range(6):
            e, t = self.base()
            w = None
            while isinstance(t, (Rec, Arr)):
                if isinstance(t, Arr) and self.src.chance(70):
                    return e, t
                e, t, w = self.step(e, t)
        return None

    # ---- statements ------------------------------------------------------
    def report(self, e, t):
        self.k += 1
        f = {"float": "of", "double": "od", "long double": "ol"}.get(getattr(t, "name", ""), "oi")
        self.emit("%s(%d, %s);" % (f, self.k, e))

    def st_leaf(self):
        s = self.src
        x = self.leaf()
        if not x:
            return
        e, t, w = x
        k = s.draw(10)
        self.tags.add("leaf")
        if w is not None:
            self.tags.add("write:bitfield")
        if t.kind == "f" or k < 6:
            self.emit("%s = %s;" % (e, self.value(t, w)))
        elif k < 8:
            self.emit("%s %s= %s;" % (e, s.choice(["^", "|", "&"]), s.choice([self.ival(), "1", "0x55"])))
        elif w is None and (not t.it.signed or t.size < 4):
            self.emit(s.choice(["%s++;", "%s--;", "++%s;", "--%s;"]) % e)
        else:
            self.emit("%s = %s = %s;" % (e, e, self.ival()) if False else "%s = %s;" % (e, self.ival()))

    def st_copy(self):
        s = self.src
        x = self.place()
        if not x:
            return
        e, t = x
        if not isinstance(t, Rec):
            return
        y = self.place(t)
        if not y or y[0] == e:
            y = self.place(t)
        if not y:
            return
        self.tags.add("struct-copy")
        k = s.draw(11)
        if k < 4:
            self.emit("%s = %s;" % (e, y[0]))
        elif k == 4:
            z = self.place(t) or y
            self.emit("%s = %s = %s;" % (e, y[0], z[0]))
        elif k == 5:
            z = self.place(t) or y
            self.emit("%s = %s ? %s : %s;" % (e, self.one() if s.chance(50) else "!" + self.one(), y[0], z[0]))
        elif k == 6:
            self.tags.add("by-value")
            self.emit("%s = %s(%s);" % (e, self.helper("ch", t), y[0]))
        elif k == 7:
            self.tags.add("by-value")
            f = self.helper("mk", t)
            lv = [x for x in leaves(t, "", pick=pick) if x[1].kind in "if"]
            p, lt, w = s.choice(lv)
            self.report("%s(&%s)%s" % (f, y[0], p), lt)
        elif k == 8:
            f = self.helper("set", t)
            self.emit("%s(&%s, %s);" % (f, e, s.draw(100)))
        elif k == 9:
            self.emit("memcpy(&%s, &%s, sizeof %s);" % (e, y[0], e)) if y[0] != e else None
        else:
            v = self.n("t")
            self.emit("%s = %s;" % (decl(t, v), y[0]))
            self.emit("%s = %s; %s = %s;" % (y[0], e, e, v))

    def st_walk(self):
        s = self.src
        x = self.array()
        if not x:
            return
        e, t = x
        self.tags.add("pointer-walk")
        p = self.n("q")
        lv = [y for y in leaves(t.elem, "", pick=pick) if y[1].kind == "i"]
        k = s.draw(5)
        if k == 0 and lv:
            path, lt, w = s.choice(lv)
            self.emit("{ %s; long h = 0; for (p = %s; p %s %s; %s) h = h * 3 + (*p)%s; oi(%d, h); }" % (
                decl(Pt(t.elem), "p"), e, s.choice(["<", "!="]),
                s.choice(["%s + %d" % (e, t.n), "&%s[%d]" % (e, t.n)]), s.choice(["p++", "++p", "p += 1"]), path, self.k))
        elif k == 1 and lv:
            path, lt, w = s.choice(lv)
            self.emit("{ %s = %s + %d; int i = 0; while (p-- > %s) (*p)%s = i++; }" % (
                decl(Pt(t.elem), "p"), e, t.n, "&%s[0]" % e, path))
            # p ends one before the array only in the comparison of the loop
            if t.n:
                self.body.pop()
                self.emit("{ %s = %s + %d; int i = 0; while (p > %s) { --p; (*p)%s = i++; } }" % (
                    decl(Pt(t.elem), "p"), e, t.n, "&%s[0]" % e, path))
        elif k == 2:
            a, b = s.draw(t.n + 1), s.draw(t.n + 1)
            it = s.choice(["int", "long", "unsigned char", "short"])
            self.emit("{ %s = %s; %s i = %d; p += i; p -= i; p = p + i; oi(%d, p - &%s[%d]); oi(%d, (char *) p - (char *) %s); oi(%d, p %s &%s[%d]); }" % (
                decl(Pt(t.elem), "p"), e, it, a, self.k, e, b, self.k, e, self.k,
                s.choice(["<", ">", "<=", ">=", "==", "!="]), e, b))
        elif k == 3:
            i = s.draw(t.n)
            self.emit("{ %s = &%s; %s = %s; oi(%d, (char *) (p + 1) - (char *) p); oi(%d, (void *) p == (void *) q); oi(%d, q + %d == *p + %d); }" % (
                decl(Pt(t), "p"), e, decl(Pt(t.elem), "q"), e, self.k, self.k, self.k, i, i))
        else:
            i = s.draw(t.n)
            if not lv:
                return
            path, lt, w = s.choice(lv)
            self.emit("{ %s = %s + %d; (*p%s)%s = %s; }" % (
                decl(Pt(t.elem), "p"), e, i, s.choice(["", "++", "--"]) if 0 < i < t.n - 1 else "", path, self.ival()))

    def st_vla(self):
        s = self.src
        self.tags.add("vla")
        t = self.g.scalar() if s.chance(70) else s.choice(self.g.recs)
        n, m = s.int(1, 6), s.int(1, 5)
        v = self.n("w")
        lv = [y for y in leaves(t, "", pick=pick) if y[1].kind == "i"]
        path = s.choice(lv)[0] if lv else None
        self.emit("{ int n = %d; %s m = %d;" % (n, s.choice(["int", "long", "unsigned", "short"]), m))
        twod = s.chance(40)
        if twod:
            self.emit("  %s; int i, j;" % decl(t, "%s[n][m]" % v))
            if path is not None:
                self.emit("  for (i = 0; i < n; i++) for (j = 0; j < m; j++) %s[i][j]%s = i * 7 + j;" % (v, path))
            if s.chance(50):
                self.emit("  %s = %s + %d;" % (decl(t, "(*q)[m]"), v, s.draw(n)))
                if path is not None:
                    self.emit("  q[0][%d]%s += 3;" % (s.draw(m), path))
                self.emit("  oi(%d, sizeof *q); oi(%d, (char *) (q + 1) - (char *) q); oi(%d, q - %s);" % (self.k, self.k, self.k, v))
            self.emit("  oi(%d, sizeof %s); oi(%d, sizeof %s[0]); oi(%d, sizeof %s[0][0]);" % (self.k, v, self.k, v, self.k, v))
            if path is not None:
                self.emit("  for (i = n; i--;) for (j = 0; j < m; j++) oi(%d, %s[i][j]%s);" % (self.k, v, path))
        else:
            self.emit("  %s; int i;" % decl(t, "%s[n %s]" % (v, s.choice(["", "+ m", "* 2"]))))
            if path is not None:
                self.emit("  for (i = 0; i < n; i++) %s[i]%s = i * 5 + 1;" % (v, path))
                self.emit("  for (i = 0; i < n; i++) oi(%d, (*(%s + i))%s);" % (self.k, v, path))
            self.emit("  oi(%d, sizeof %s);" % (self.k, v))
            if s.chance(50):
                self.emit("  n++; oi(%d, sizeof %s / sizeof *%s);" % (self.k, v, v))
            if s.chance(40):
                self.emit("  oi(%d, sizeof(%s) + n);" % (self.k, decl(t, "[n++]") if isinstance(t, Sc) else decl(t, "[n]")))
        # leave a mark on objects around it
        self.indent += "  "
        self.st_leaf()
        if s.chance(50):
            self.st_copy()
        self.indent = self.indent[:-2]
        self.emit("}")

    def st_literal(self):
        s = self.src
        k = s.draw(5)
        self.tags.add("literal-object")
        txt = "".join(s.choice("abcxyz019") for _ in range(s.int(0, 9)))
        if k == 0:
            self.emit('oi(%d, sizeof "%s"); oi(%d, "%s"[%s]); oi(%d, *("%s" + %s));' % (
                self.k, txt, self.k, txt, self.index(s.draw(len(txt) + 1)), self.k, txt, self.index(s.draw(len(txt) + 1))))
        elif k == 1:
            v = self.n("s")
            n = s.choice(["", len(txt) + 1, len(txt) + 3])
            self.emit('{ %schar %s[%s] = "%s"; const char *p = "%s"; %s[0] = p[0] + 1; oi(%d, p[0]); oi(%d, %s[0]); om(%d, %s, sizeof %s); }' % (
                s.choice(["", "static "]), v, n, txt, txt, v, self.k, self.k, v, self.k, v, v))
        elif k == 2:
            xs = [str(s.draw(100)) for _ in range(s.int(1, 5))]
            t = s.choice([INT, LONG, SHORT, UCHAR])
            i = s.draw(len(xs))
            self.emit("{ int i; for (i = 0; i < 3; i++) { %s = (%s[]) {%s}; p[%d] += i; oi(%d, p[%d]); oi(%d, p[%d]); } }" % (
                decl(Pt(t), "p"), t.name, ", ".join(xs), i, self.k, i, self.k, len(xs) - 1))
        elif k == 3:
            xs = [str(s.draw(100)) for _ in range(s.int(1, 5))]
            self.emit("oi(%d, ((int []) {%s})[%s] + sizeof((char [%d]) {0}));" % (
                self.k, ", ".join(xs), self.index(s.draw(len(xs))), s.int(1, 9)))
        else:
            ints = [r for r in self.g.recs if not r.union]
            if not ints:
                return
            r = s.choice(ints)
            x = self.place(r)
            lv = [y for y in leaves(r, "", pick=pick) if y[1].kind in "if"]
            if not lv:
                return
            p, lt, w = s.choice(lv)
            self.emit("{ %s *p = &(%s) {0}; (*p)%s = 9;" % (r.name, r.name, p))
            self.report("(*p)%s" % p, lt)
            if x and s.chance(60):
                self.emit("%s = *p;" % x[0])
            self.emit("}")

    def st_loop(self):
        s = self.src
        x = self.array()
        if not x:
            return
        e, t = x
        self.tags.add("index-loop")
        if isinstance(t.elem, Rec):
            b = s.choice(["%s[i] = %s[n - 1 - i];" % (e, e), "{ %s = %s[i]; %s[i] = %s[(i + 1) %% n]; %s[(i + 1) %% n] = t; }" % (
                decl(t.elem, "t"), e, e, e, e)])
        else:
            lv = [y for y in leaves(t.elem, "", pick=pick) if y[1].kind == "i"]
            if not lv:
                return
            p, lt, w = s.choice(lv)
            b = s.choice(["%s[i]%s = i;", "%s[n - 1 - i]%s = i * 3;", "%s[i]%s ^= i;"]) % (e, p)
        self.emit("{ %s i, n = %d; for (i = 0; i < n; i++) %s }" % (s.choice(["int", "unsigned", "long", "short"]), t.n, b))

    # ---- whole -----------------------------------------------------------
    def new_object(self, t=None):
        s = self.src
        t = t or (self.g.obj(2) if s.chance(40) else s.choice(self.g.recs))
        if isinstance(t, Sc) and s.chance(50):
            t = Arr(t, s.int(1, 9))
        v = self.n("v")
        text = "struct { unsigned char g0[16]; %s; unsigned char g1[16]; } %s" % (decl(t, "x"), v)
        if s.chance(40):
            self.top.append("static %s;" % text.replace("} v", "} @v"))
            v = "@" + v
            self.tags.add("static-object")
        else:
            self.body.insert(0, "    %s;" % text)
        self.emit("memset(&%s, %d, sizeof %s);" % (v, s.draw(256), v))
        # Guards that differ between objects: bytes copied in excess show.
        self.emit("memset(%s.g0, %d, 16); memset(%s.g1, %d, 16);" % (v, 0xa5 ^ len(self.objs), v, 0x5a ^ len(self.objs)))
        n = 0
        for p, lt, w in leaves(t, "", pick=pick):
            n += 1
            if lt.kind in "if":
                self.emit("%s.x%s = %d;" % (v, p, (n * 7 + s.draw(50)) % 97))
        self.objs.append((v + ".x", t))

    def dump(self, name, t):
        v = name[:-2]
        for p, lt, w in leaves(t, name, pick=pick):
            self.report(p, lt)
        self.emit("om(%d, %s.g0, 16); om(%d, %s.g1, 16);" % (self.k, v, self.k, v))

    def build(self):
        s = self.src
        for _ in range(s.int(1, 2)):
            self.g.record(2)
        if s.chance(30):
            self.g.bytes_record()
        for _ in range(s.int(0, 3)):
            i = self.n("i")
            v = s.draw(5)
            self.idx.append((i, v))
        first = s.choice(self.g.recs)
        self.new_object(first)
        if s.chance(70):
            self.new_object(first)
        for _ in range(s.int(0, 2)):
            self.new_object()
        head = ["    %s %s = %d;" % (s.choice(["int", "long", "unsigned", "short", "unsigned char", "char"]), i, v) for i, v in self.idx]
        kinds = [(30, self.st_leaf), (30, self.st_copy), (12, self.st_walk), (8, self.st_loop), (8, self.st_vla), (6, self.st_literal)]
        n = s.int(2, 14)
        for _ in range(n):
            s.weighted(kinds)()
            if s.chance(8):
                self.dump(*s.choice(self.objs))
        for o in self.objs:
            self.dump(*o)
        return "\n".join(self.g.defs + self.top + self.funcs) + "\nstatic void @go(void)\n{\n" + \
            "\n".join(head + self.body) + "\n}\n"
