"""Programs of several translation units in which the same few names are
declared again and again: in all scopes and name spaces, with every legal
combination of storage class, tentative, incomplete and repeated declarations."""

NAMES = ["a", "b", "c", "d", "e", "f", "g", "h"]

# name -> (declarator with @, incomplete declarator or None, initializers, leaves)
TYPES = {
    "int": ("int @", None, ["= 5", "= -3", "= 0", "= {7}"], ["@"]),
    "char": ("char @", None, ["= 'x'", "= 3", "= 0"], ["@"]),
    "long": ("long @", None, ["= 7L", "= 0", "= 1 + 2"], ["@"]),
    "ushort": ("unsigned short @", None, ["= 60", "= 0"], ["@"]),
    "arr": ("int @[3]", "int @[]", ["= {1, 2, 3}", "= {4}", "= {[2] = 5}"], ["@[0]", "@[1]", "@[2]"]),
    "arr2": ("short @[2][3]", "short @[][3]", ["= {{1, 2}, {3}}", "= {1, 2, 3, 4}"], ["@[0][1]", "@[1][0]"]),
    "str": ("char @[4]", "char @[]", ['= "abc"', "= {1, 2}"], ["@[0]", "@[2]"]),
    "rec": ("struct P @", None, ["= {1, 2, 3}", "= {.c = 9}"], ["@.a", "@.b", "@.c"]),
    "big": ("char @[300]", "char @[]", ["= {1}"], ["@[0]", "@[299]"]),
    "recs": ("struct P @[2]", "struct P @[]", ["= {{1, 2, 3}, {4, 5, 6}}"], ["@[0].c", "@[1].a"]),
    "open": ("int @[]", None, ["= {3}"], ["@[0]"]),
    "fptr": ("int (*@)(void)", None, ["= 0"], ["!@"]),
    "vol": ("volatile int @", None, ["= 8", ""], ["@"]),
}
ODD = {
    "const": ("const int @", None, ["= 9", "= 4"], ["@"]),
    "cstr": ("const char *@", None, ['= "hello"', '= "xyz" + 1'], ["@[0]", "@[1]"]),
    "carr": ("const short @[3]", "const short @[]", ["= {4, 5, 6}"], ["@[0]", "@[2]"]),
    "ccptr": ("const char *const @", None, ['= "hello"'], ["@[1]"]),
}
SCALARS = ["int", "char", "long", "unsigned short", "short", "unsigned char"]


class Ent:
    """A global entity: what a name with external linkage, or with internal
    linkage in one unit, denotes."""

    def __init__(self, name, kind, type):
        self.name, self.kind, self.type = name, kind, type
        self.nargs = 0
        self.inline = False
        self.header = False

    def leaves(self):
        return [x.replace("@", self.name) for x in (TYPES.get(self.type) or ODD[self.type])[3]]

    def mutable(self):
        return self.type in TYPES and self.type != "fptr"

    def decl(self, incomplete=False):
        d = TYPES.get(self.type) or ODD[self.type]
        return (d[1] if incomplete and d[1] else d[0]).replace("@", self.name)


class Unit:
    pass


class LinkGen:
    def __init__(self, src, common):
        self.src = src
        self.common = common
        self.tags = set()
        self.n = 0
        self.const = 0

    def num(self):
        return self.src.int(0, 40)

    def build(self):
        src = self.src
        nu = src.weighted([(3, 2), (3, 1), (3, 3), (1, 4)])
        names = NAMES[:src.int(3, 8)]
        # External entities.
        self.ext = {}
        for n in names:
            if src.chance(70):
                if src.chance(30):
                    e = Ent(n, "func", "int")
                    e.nargs = src.int(0, 2)
                    e.inline = src.chance(20)
                    e.header = e.nargs > 0 and src.chance(25)
                else:
                    e = Ent(n, "var", src.choice(list(TYPES) + list(TYPES) + list(ODD)))
                e.owner = src.draw(nu)
                self.ext[n] = e
        self.units = []
        self.probes = []
        for u in range(nu):
            self.unit(u, names)
        text = []
        for u, (body, _) in enumerate(self.units):
            t = "void oi(int, long);\n" + body
            if u == nu - 1:
                t += "".join("void %s(int, int);\n" % p for p in self.probes if p not in self.local_probes)
                t += "int main(void) {\n"
                for _ in range(src.int(1, 3)):
                    for p in self.probes:
                        if src.chance(80):
                            t += "    %s(%d, %d);\n" % (p, self.num(), self.num())
                t += "    return 0;\n}\n"
            text.append(t)
        return text

    local_probes = ()

    def unit(self, u, names):
        src = self.src
        ents = {}                 # name -> Ent as seen in this unit
        pieces = {}               # name -> declarations still to come
        types = {}
        for n in names:
            e = self.ext.get(n)
            if e and (e.owner == u or src.chance(60)):
                ents[n] = e
                continue
            k = src.draw(10)
            if k < 4:
                s = Ent(n, "var", src.choice([x for x in list(TYPES) + list(ODD) if x != "open"]))
                s.owner = None
                s.static = True
                ents[n] = s
            elif k < 6:
                s = Ent(n, "func", "int")
                s.nargs = src.int(0, 2)
                s.owner = None
                ents[n] = s
            elif k == 6:
                types[n] = src.choice(SCALARS)
            elif k == 7:
                self.const += 1
                types[n] = self.const
        lines = ["struct P { int a; char b; long c; };"]
        for n, t in types.items():
            if isinstance(t, str):
                lines.append("typedef %s %s;" % (t, n))
                if src.chance(20):
                    lines.append("typedef %s %s;" % (t, n)) if False else None
            else:
                lines.append("enum { %s = %d };" % (n, t))
        lines = [x for x in lines if x]
        first, later, funcs = [], [], []
        for n, e in ents.items():
            if e.kind == "var":
                seq = self.var_decls(e, u)
            else:
                seq, body = self.func_decls(e, u)
                if body:
                    funcs.append((e, body))
            first.append(seq[0])
            later += seq[1:]
        first = src.shuffle(first)
        self.ents = ents
        env = {}
        for n, e in ents.items():
            env[n] = e
        for n, t in types.items():
            env[n] = ("type", t) if isinstance(t, str) else ("const", t)
        out = lines + first
        later = src.shuffle(later)
        # Pointers to entities.
        for i in range(src.draw(3)):
            c = [e for e in ents.values() if e.kind == "var" and not (e.owner is None and False)]
            if c:
                e = src.choice(c)
                leaf = src.choice(e.leaves()).lstrip("!")
                if e.type == "cstr" or e.type == "ccptr":
                    continue
                self.n += 1
                ptr = "p%d_%d" % (u, self.n)
                out.append("%sconst volatile void *%s = &%s;" % (src.choice(["", "static ", "static "]), ptr, leaf))
                q = Ent(ptr, "ptr", None)
                q.leaf = leaf
                env[ptr] = q
                self.tags.add("address-initializer")
            c = [e for e in ents.values() if e.kind == "func"]
            if c and src.chance(50):
                e = src.choice(c)
                self.n += 1
                ptr = "p%d_%d" % (u, self.n)
                out.append("%sint (*%s)(%s) = %s%s;" % (src.choice(["", "static "]), ptr, self.params(e.nargs, False),
                                                        src.choice(["", "&"]), e.name))
                q = Ent(ptr, "fptr", None)
                q.nargs = e.nargs
                env[ptr] = q
                self.tags.add("function-pointer")
        blocks = []
        for e, body in funcs:
            blocks.append(body(env))
        for i in range(src.int(1, 2)):
            p = "probe%d_%d" % (u, i)
            self.probes.append(p)
            blocks.append(self.function("void", p, env, 2))
        blocks = src.shuffle(blocks)
        # The other declarations stand anywhere after the first ones; the
        # order of the declarations of a name does not matter here.
        for x in later:
            blocks.insert(src.draw(len(blocks) + 1), x)
        out += blocks
        self.units.append(("\n".join(out) + "\n", ents))

    def var_decls(self, e, u):
        """Declarations of a variable in unit u; the first one comes before
        all uses."""
        src = self.src
        inits = (TYPES.get(e.type) or ODD[e.type])[2]
        full = e.decl()
        inc = e.decl(True)

        def some():
            return inc if src.chance(30) else full
        if e.owner is None:
            self.tags.add("static")
            seq = ["static %s;" % full]
            init = src.chance(60) or e.type in ODD
            for _ in range(src.draw(3)):
                seq.append(src.choice(["static %s;" % full, "extern %s;" % some()]))
                if seq[-1].startswith("extern"):
                    self.tags.add("static-then-extern")
            if init:
                x = "static %s %s;" % (full, src.choice(inits))
                i = src.draw(len(seq) + 1)
                if i == 0:
                    seq[0] = x
                else:
                    seq.insert(i, x)
            return seq
        if e.owner == u:
            seq = []
            init = src.chance(60) or e.type in ODD
            for _ in range(src.draw(4)):
                seq.append(src.choice(["%s;" % full, "extern %s;" % some(), "extern %s;" % full]))
            if init:
                seq.insert(src.draw(len(seq) + 1), "%s %s;" % (full, src.choice(inits)))
                if len(seq) > 1:
                    self.tags.add("redeclared-definition")
            else:
                seq.insert(src.draw(len(seq) + 1), "%s;" % full)
                self.tags.add("tentative")
            if e.type in ODD:
                # A const object has to be defined with a value.
                seq = [s for s in seq if s.startswith("extern") or "=" in s]
            return seq
        seq = []
        for _ in range(src.int(1, 2)):
            seq.append("extern %s;" % some())
        if self.common and e.type in TYPES and src.chance(30):
            seq.insert(src.draw(len(seq) + 1), "%s;" % full)
            self.tags.add("common")
        if src.chance(20):
            # Completed only later.
            seq = ["extern %s;" % inc] + seq
        return seq

    def params(self, n, names, used=()):
        if not n:
            return "void"
        if names:
            return ", ".join("int %s" % x for x in used)
        return ", ".join(["int"] * n)

    def func_decls(self, e, u):
        src = self.src
        if e.header:
            return self.header_decls(e, u)
        proto = "int %s(%s)" % (e.name, self.params(e.nargs, False))
        old = "int %s()" % e.name

        def p():
            return src.choice([proto, proto, old, "int %s(%s)" % (
                e.name, self.params(e.nargs, True, src.sample(NAMES, e.nargs)))])
        if e.owner is None:
            self.tags.add("static-function")
            seq = ["static " + p() + ";"]
            for _ in range(src.draw(3)):
                seq.append(src.choice(["static ", "extern ", ""]) + p() + ";")
            head = src.choice(["static int", "static int", "int", "extern int", "static inline int"])
            return seq, lambda env: self.function(head, e.name, env, 1, e)
        if e.owner == u:
            seq = []
            for _ in range(src.int(1, 2)):
                seq.append(src.choice(["extern ", ""]) + p() + ";")
            if e.inline:
                # Inline with an external declaration: an external definition.
                seq = [src.choice(["extern ", ""]) + p() + ";"] + seq
                self.tags.add("inline-extern")
                return seq, lambda env: self.function(src.choice(["inline int", "extern inline int", "int"]),
                                                      e.name, env, 1, e)
            return seq, lambda env: self.function(src.choice(["int", "int", "extern int"]), e.name, env, 1, e)
        return [src.choice(["extern ", ""]) + p() + ";" for _ in range(src.int(1, 2))], None

    def header_decls(self, e, u):
        """The same inline definition in each unit; in the owner, a further
        declaration makes it an external definition."""
        src = self.src
        self.tags.add("inline-header")
        p = ["x", "y"][:e.nargs]
        text = "inline int %s(%s)\n{\n    return (%s * %d + 1) & 63;\n}" % (
            e.name, self.params(e.nargs, True, p), " + ".join(p), len(e.name) + ord(e.name) % 7)
        proto = "int %s(%s);" % (e.name, self.params(e.nargs, False))
        if e.owner == u:
            seq = [src.choice(["extern ", "", "inline ", "extern inline "]) + proto]
            more = src.choice(["extern ", "", "extern inline "]) + proto
            if src.chance(50):
                return [seq[0], text, more], None
            return [seq[0], more, text], None
        seq = ["inline " + proto, text]
        return seq, None

    # Function bodies.
    def function(self, ret, name, env, depth, ent=None):
        src = self.src
        scope = dict(env)
        pnames = src.sample(NAMES, ent.nargs if ent else 2)
        scope[name] = ent if ent else ("none",)
        for p in pnames:
            scope[p] = ("var", "int")
        self.labels = set()
        self.depth_calls = 0 if ent else 1
        self.inl = ent is not None and ent.inline
        if ent and src.chance(10) and ent.nargs and "inline" not in ret:
            head = "%s %s(%s) %s" % (ret, name, ", ".join(pnames), " ".join("int %s;" % p for p in pnames))
            self.tags.add("old-style")
        else:
            head = "%s %s(%s)" % (ret, name, self.params(len(pnames), True, pnames))
        body = []
        if ent and not self.inl and src.chance(60):
            self.n += 1
            # A counter; the name may be that of anything.
            c = src.choice(NAMES)
            if c not in pnames:
                body.append("static int %s%s;" % (c, src.choice(["", " = 3", " = 11"])))
                scope[c] = ("var", "int")
                body.append("%s = (%s + 1) & 63;" % (c, c))
                self.tags.add("static-local")
        own = set(pnames) | set(x.split()[2].rstrip(";") for x in body[:1])
        if ent is None:
            body += self.block(scope, depth, own)
        else:
            body += ["{"] + self.block(scope, src.draw(2), set()) + ["}"]
            body.append("return (%s) & 63;" % (self.expr(scope) if src.chance(90) else "1"))
        return head + "\n{\n" + "\n".join("    " + x for b in body for x in b.split("\n")) + "\n}"

    def scalars(self, scope):
        """[(expression, mutable)] of visible objects and constants."""
        out = []
        for n, e in scope.items():
            if isinstance(e, Ent):
                if e.kind == "var":
                    if e.type == "open" and self.inl:
                        continue
                    if self.inl and e.owner is None:
                        continue
                    out += [(x, e.mutable()) for x in e.leaves()]
                elif e.kind == "ptr" and self.depth_calls:
                    pass
            elif e[0] == "var":
                out.append((n, True))
            elif e[0] == "const":
                out.append((n, False))
        return out

    def expr(self, scope, avoid=None):
        src = self.src
        c = [x for x, _ in self.scalars(scope) if not avoid or not x.lstrip("!").startswith(avoid)]
        e = str(self.num())
        for _ in range(src.int(0, 2)):
            if c:
                e += src.choice([" + ", " - ", " ^ "]) + src.choice(c)
        return e

    def show(self, e):
        self.n += 1
        return "oi(%d, %s);" % (self.n, e)

    def block(self, scope, depth, own):
        """Statements of a block; `own` holds names declared in this block."""
        src = self.src
        scope = dict(scope)
        out = []
        for _ in range(src.int(2, 7)):
            k = src.draw(18)
            n = src.choice(NAMES)
            if k < 3:
                c = self.scalars(scope)
                if c:
                    x, m = src.choice(c)
                    if m:
                        out.append("%s = (%s * 3 + %d) & 63;" % (x, x, self.num()))
                    out.append(self.show(x))
            elif k == 3:
                if n not in own:
                    t = src.choice(SCALARS)
                    out.append("%s %s = (%s) & 63;" % (t, n, self.expr(scope, n)))
                    self.shadowed(scope, n)
                    scope[n] = ("var", t)
                    own.add(n)
            elif k == 4:
                if n not in own and not self.inl:
                    t = src.choice(SCALARS)
                    out.append("static %s %s%s;" % (t, n, src.choice(["", " = %d" % self.num()])))
                    self.shadowed(scope, n)
                    scope[n] = ("var", t)
                    own.add(n)
                    out.append("%s = (%s + %d) & 63;" % (n, n, self.num()))
                    out.append(self.show(n))
                    self.tags.add("static-local")
            elif k == 5:
                # Declares again the external entity, below local ones.
                e = self.ext.get(n)
                if e and n not in own and self.ents.get(n, e) is e and not e.header and not e.inline:
                    if e.kind == "var":
                        out.append("extern %s;" % e.decl(src.chance(20)))
                        x = src.choice(e.leaves())
                        out.append(self.show(x))
                    else:
                        out.append("%sint %s(%s);" % (src.choice(["extern ", ""]), n, self.params(e.nargs, False)))
                    if scope.get(n) is not e:
                        self.tags.add("block-extern")
                    scope[n] = e
                    own.add(n)
            elif k == 6:
                if n not in own:
                    self.const += 1
                    out.append("enum { %s = %d };" % (n, self.const))
                    self.shadowed(scope, n)
                    scope[n] = ("const", self.const)
                    own.add(n)
                    out.append(self.show(n))
            elif k == 7:
                if n not in own:
                    t = src.choice(SCALARS)
                    out.append("typedef %s %s;" % (t, n))
                    self.shadowed(scope, n)
                    scope[n] = ("type", t)
                    own.add(n)
                    self.tags.add("local-typedef")
            elif k == 8:
                # Types and objects of the same spelling.
                c = [(x, e) for x, e in scope.items() if not isinstance(e, Ent) and e[0] == "type"]
                if c:
                    x, e = src.choice(c)
                    out.append(self.show("sizeof(%s) + (%s) 300" % (x, x)))
                    self.n += 1
                    out.append("{ %s t%d = 3; t%d++; %s }" % (x, self.n, self.n, self.show("t%d" % self.n)))
                else:
                    c = [x for x, e in scope.items() if not isinstance(e, Ent) and e[0] == "var"]
                    if c:
                        x = src.choice(c)
                        out.append(self.show("sizeof(%s) + (%s) - 1" % (x, x)))
            elif k == 9:
                # Tags.
                if ("tag", n) not in own:
                    out.append("%s %s { char m[%d]; };" % (src.choice(["struct", "union"]), n, self.src.int(1, 30)))
                    kind = out[-1].split()[0]
                    scope["tag " + n] = ("tag", kind)
                    own.add(("tag", n))
                    out.append(self.show("sizeof(%s %s)" % (kind, n)))
                    self.tags.add("tag")
            elif k == 10:
                c = [(x, e) for x, e in scope.items() if x.startswith("tag ")]
                if c:
                    x, e = src.choice(c)
                    out.append(self.show("sizeof(%s %s)" % (e[1], x[4:])))
            elif k == 11:
                if n not in self.labels:
                    self.labels.add(n)
                    out.append("goto %s;\n%s\n%s: ;" % (n, self.show("0"), n))
                    self.tags.add("label")
            elif k == 12:
                m = src.choice(NAMES)
                self.n += 1
                out.append("{ struct { int %s; char %s; } s%d; s%d.%s = %d; %s }" % (
                    n, m if m != n else "z", self.n, self.n, n, self.num(), self.show("s%d.%s" % (self.n, n))))
                self.tags.add("member")
            elif k == 13 and depth > 0:
                inner = self.block(scope, depth - 1, set())
                out.append(src.choice(["{", "if (1) {", "do {"]) + "\n" + "\n".join(inner) + "\n}")
                if out[-1].startswith("do"):
                    out[-1] += " while (0);"
                self.tags.add("block")
            elif k == 14 and depth > 0:
                s2 = dict(scope)
                s2[n] = ("var", "int")
                inner = self.block(s2, depth - 1, set())
                # The counter is the hidden one unless it is redeclared.
                self.n += 1
                lim = "lim%d" % self.n
                inner = "\n".join(inner)
                out.append("{ int %s = 0;\nfor (int %s = 0; %s++ < 2; %s++) {\n%s\n} }" % (lim, n, lim, n, inner))
                self.tags.add("for-scope")
            elif k == 15 and self.depth_calls:
                c = [e for e in scope.values() if isinstance(e, Ent) and e.kind in ("func", "fptr")]
                if c:
                    e = src.choice(c)
                    out.append(self.show("%s(%s)" % (e.name, ", ".join(self.expr(scope) for _ in range(e.nargs)))))
            elif k == 16:
                c = [e for e in scope.values() if isinstance(e, Ent) and e.kind == "ptr"]
                if c:
                    e = src.choice(c)
                    out.append(self.show("*(const char *) %s" % e.name))
            else:
                c = self.scalars(scope)
                if c:
                    out.append(self.show(src.choice(c)[0]))
        return out

    def shadowed(self, scope, n):
        if n in scope:
            self.tags.add("shadow")
