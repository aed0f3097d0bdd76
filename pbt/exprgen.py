"""Generator of integer expressions with their exact C value.

The generator computes the value of every node while it builds it, so that a
node whose evaluation would be undefined is replaced before it is emitted, and
the expected value of the whole is known independently of any compiler.
"""
from .cmodel import *
from . import cmodel

PREC = {"*": 12, "/": 12, "%": 12, "+": 11, "-": 11, "<<": 10, ">>": 10,
        "<": 9, ">": 9, "<=": 9, ">=": 9, "==": 8, "!=": 8, "&": 7, "^": 6,
        "|": 5, "&&": 4, "||": 3, "?:": 2, "=": 1, ",": 0}


FIELD_SIZES = [[INT, UINT], [LONG, ULONG, LLONG, ULLONG], [CHAR, UCHAR, SCHAR, BOOL],
               [SHORT, USHORT], [INT, UINT]]


class Node:
    __slots__ = ("text", "prec", "t", "w", "v", "const", "fx")

    def __init__(self, text, prec, t, v, w=None, const=False, fx=False):
        self.text, self.prec, self.t, self.v = text, prec, t, v
        self.w, self.const, self.fx = w, const, fx

    @property
    def pt(self):
        return promote(self.t, self.w)


class Slot:
    """An object holding an integer: how to name it, and its current value."""

    def __init__(self, t, v, texts, w=None, const=False, kind="local"):
        self.t, self.v, self.texts, self.w = t, v, texts, w
        self.const, self.kind = const, kind
        self.wide = w is not None and t.size == 8

    def clip(self, v):
        if self.t is BOOL:
            return int(v != 0)
        if self.w is None:
            return conv(v, self.t)
        v &= (1 << self.w) - 1
        if self.t.signed and v >> (self.w - 1):
            v -= 1 << self.w
        return v


class Gen:
    def __init__(self, src, slots=(), funcs=(), maxdepth=5, feats=None):
        self.src = src
        self.slots = list(slots)
        self.funcs = list(funcs)
        self.maxdepth = maxdepth
        self.used = set()      # slots written in this full expression
        self.read = set()
        self.mutated = []      # slots ever written
        self.ops = set()
        self.calls = 0
        self.nodes = 0
        self.feats = feats or {}

    # -- leaves -----------------------------------------------------------
    def lit(self, t=None):
        t = t or self.src.weighted([(5, INT), (2, UINT), (2, LONG), (2, ULONG),
                                    (1, CHAR), (1, UCHAR), (1, SHORT), (1, USHORT),
                                    (1, SCHAR), (1, LLONG), (1, ULLONG), (1, BOOL)])
        v = value(self.src, t)
        text, prec = literal(self.src, v, t)
        return Node(text, prec, t, v, const=True)

    def slot_read(self, s):
        self.read.add(s)
        text, prec = self.src.choice(s.texts)
        n = Node(text, prec, s.t, s.v, s.w)
        if s.wide:
            # The type of a bit-field wider than int is implementation
            # defined; it is only used after a conversion.
            n = self.cast(s.t, n)
        return n

    def free_slots(self, write=False):
        out = []
        for s in self.slots:
            if s in self.used:
                continue
            if write and (s.const or s in self.read):
                continue
            out.append(s)
        return out

    def leaf(self):
        src = self.src
        free = self.free_slots()
        if free and src.chance(72):
            return self.slot_read(src.choice(free))
        return self.lit()

    # -- text -------------------------------------------------------------
    def par(self, n, minprec):
        if n.prec < minprec or self.src.chance(12):
            return "(%s)" % n.text
        return n.text

    def sp(self):
        return "" if self.src.chance(15) else " "

    # -- operators ----------------------------------------------------------
    def binary(self, op, l, r):
        v, t = arith(op, l.v, l.pt, r.v, r.pt)
        p = PREC[op]
        a, b = self.par(l, p), self.par(r, p + 1)
        s = " "
        self.ops.add(op)
        return Node("%s%s%s%s%s" % (a, s, op, s, b), p, t, v,
                    const=l.const and r.const, fx=l.fx or r.fx)

    def unary(self, op, x):
        v, t = cmodel.unary(op, x.v, x.pt)
        self.ops.add("u" + op)
        b = self.par(x, 13)
        sep = " " if b[0] in "+-&" else ""
        return Node(op + sep + b, 13, t, v, const=x.const, fx=x.fx)

    def cast(self, t, x):
        self.ops.add("cast")
        return Node("(%s) %s" % (t.name, self.par(x, 13)), 13, t, conv(x.v, t),
                    const=x.const, fx=x.fx)

    def to_unsigned(self, x):
        return self.cast(UINT if x.pt.size == 4 else ULONG, x)

    def safe_binary(self, op, l, r):
        try:
            return self.binary(op, l, r)
        except Undefined:
            pass
        if op in ("<<", ">>"):
            bits = l.pt.bits
            if not l.pt.signed or op == ">>":
                pass
            else:
                l = self.to_unsigned(l)
            if not 0 <= r.v < bits:
                m = bits - 1
                r = self.binary("&", r, Node(str(m), 16, INT, m, const=True))
            return self.binary(op, l, r)
        if op in ("/", "%"):
            if conv(r.v, usual(l.pt, r.pt)) == 0:
                r = self.binary("|", r, Node("1", 16, INT, 1, const=True))
            try:
                return self.binary(op, l, r)
            except Undefined:
                pass
        t = UINT if usual(l.pt, r.pt).size == 4 else ULONG
        if op in ("/", "%") and conv(r.v, t) == 0:
            r = self.binary("|", r, Node("1", 16, INT, 1, const=True))
        if self.src.chance(50):
            return self.binary(op, self.cast(t, l), r)
        return self.binary(op, l, self.cast(t, r))

    def truth(self, x):
        return x.v != 0

    # -- expressions ----------------------------------------------------------
    def expr(self, depth):
        src = self.src
        self.nodes += 1
        if depth <= 0 or src.chance(15) or self.nodes > 60:
            return self.leaf()
        k = src.weighted([(50, "bin"), (12, "un"), (12, "cast"), (10, "logic"),
                          (8, "cond"), (8, "assign"), (5, "incdec"), (4, "comma"),
                          (7, "call"), (3, "sizeof"), (3, "same"), (3, "addr")])
        if k == "bin":
            op = src.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>",
                             "<", ">", "<=", ">=", "==", "!="])
            l = self.expr(depth - 1)
            if op in ("==", "!=", "<", "<=", ">", ">=") and src.chance(25):
                # Compare with (almost) its own value.
                t = l.pt
                v = conv(l.v + src.draw(3) - 1, t)
                text, prec = literal(src, v, t)
                r = Node(text, prec, t, v, const=True, fx=False)
            else:
                r = self.expr(depth - 1)
            return self.safe_binary(op, l, r)
        if k == "same":
            # Both operands the same object.
            free = self.free_slots()
            if not free:
                return self.leaf()
            s = src.choice(free)
            return self.safe_binary(src.choice(["+", "-", "*", "/", "%", "&", "|", "^",
                                                "==", "<", ">=", "!="]),
                                    self.slot_read(s), self.slot_read(s))
        if k == "un":
            op = src.choice(["-", "~", "!", "+"])
            x = self.expr(depth - 1)
            try:
                return self.unary(op, x)
            except Undefined:
                return self.unary(op, self.to_unsigned(x))
        if k == "cast":
            return self.cast(src.choice(cmodel.ALL), self.expr(depth - 1))
        if k == "logic":
            op = src.choice(["&&", "||"])
            # Full sequence point: state of writes on the left is visible.
            l = self.expr(depth - 1)
            self.ops.add(op)
            dead = self.truth(l) == (op == "||")
            save = [(s, s.v) for s in self.slots]
            r = self.expr(depth - 1)
            if dead:
                for s, v in save:
                    s.v = v
            v = int(self.truth(l) and self.truth(r)) if op == "&&" else \
                int(self.truth(l) or self.truth(r))
            p = PREC[op]
            return Node("%s %s %s" % (self.par(l, p), op, self.par(r, p + 1)),
                        p, INT, v, const=l.const and r.const, fx=l.fx or r.fx)
        if k == "cond":
            c = self.expr(depth - 1)
            self.ops.add("?:")
            save = [(s, s.v) for s in self.slots]
            a = self.expr(depth - 1)
            after = [(s, s.v) for s in self.slots]
            for s, v in save:
                s.v = v
            b = self.expr(depth - 1)
            if self.truth(c):
                for s, v in after:
                    s.v = v
            t = usual(a.pt, b.pt)
            v = conv(a.v if self.truth(c) else b.v, t)
            return Node("%s ? %s : %s" % (self.par(c, 3), self.par(a, 1 if src.chance(50) else 3),
                                          self.par(b, 2)),
                        2, t, v, const=a.const and b.const and c.const,
                        fx=a.fx or b.fx or c.fx)
        if k == "assign":
            return self.assign(depth)
        if k == "incdec":
            return self.incdec()
        if k == "comma":
            l = self.expr(depth - 1)
            r = self.expr(depth - 1)
            self.ops.add(",")
            t, v = (r.t, r.v) if r.w is None else (r.pt, r.v)
            # The type of a comma over a bit-field is not relied upon.
            if r.w is not None:
                r = self.unary("+", r)
                t, v = r.t, r.v
            return Node("%s, %s" % (self.par(l, 0), self.par(r, 1)), 0, t, v,
                        fx=True)
        if k == "call":
            return self.call(depth)
        if k == "sizeof":
            self.ops.add("sizeof")
            if src.chance(50):
                t = src.choice(cmodel.ALL)
                return Node("sizeof(%s)" % t.name, 13, ULONG, t.size, const=True)
            # Operand is not evaluated.
            save = [(s, s.v) for s in self.slots], set(self.used), set(self.read), \
                list(self.mutated)
            x = self.expr(depth - 1)
            for s, v in save[0]:
                s.v = v
            self.used, self.read, self.mutated = save[1], save[2], save[3]
            if x.w is not None or x.prec < 1:
                x = self.unary("!", x)
            return Node("sizeof(%s)" % x.text, 13, ULONG, x.t.size,
                        const=False)
        if k == "addr":
            # *& of an object.
            free = [s for s in self.free_slots() if s.w is None and s.kind != "register"]
            if not free:
                return self.leaf()
            s = src.choice(free)
            x = self.slot_read(s)
            self.ops.add("*&")
            return Node("*&%s" % self.par(x, 13), 13, s.t, s.v)
        raise AssertionError(k)

    def assign(self, depth):
        src = self.src
        free = self.free_slots(write=True)
        if not free:
            return self.leaf()
        s = src.choice(free)
        op = src.choice(["=", "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"])
        if s.wide:
            op = "="
        # The target is written: nothing else in this expression may use it.
        self.used.add(s)
        r = self.expr(depth - 1)
        text, prec = src.choice(s.texts)
        if op == "=":
            nv = s.clip(r.v)
            rt = self.par(r, 1)
            o = "="
        else:
            l = Node(text, prec, s.t, s.v, s.w)
            o = op + "="
            try:
                v, t = arith(op, l.v, l.pt, r.v, r.pt)
            except Undefined:
                # Make the right operand harmless.
                if op in ("<<", ">>"):
                    if op == "<<" and l.pt.signed:
                        o, op = "|=", "|"
                    else:
                        r = self.binary("&", r, Node("7", 16, INT, 7, const=True))
                elif op in ("/", "%") and conv(r.v, usual(l.pt, r.pt)) == 0:
                    r = self.binary("|", r, Node("3", 16, INT, 3, const=True))
                else:
                    o, op = "^=", "^"
                v, t = arith(op, l.v, l.pt, r.v, r.pt)
            nv = s.clip(v)
            rt = self.par(r, 1)
        self.ops.add(o)
        s.v = nv
        self.mutated.append(s)
        if s.wide or s.w is not None and self.feats.get("no_field_value"):
            return self.leaf_after("%s %s %s" % (text, o, rt), s)
        return Node("%s %s %s" % (text, o, rt), 1, s.t, nv, s.w, fx=True)

    def leaf_after(self, text, s):
        """(assignment, literal)"""
        x = self.lit()
        return Node("%s, %s" % (text, self.par(x, 1)), 0, x.t, x.v, fx=True)

    def incdec(self):
        src = self.src
        free = [s for s in self.free_slots(write=True) if not s.wide]
        if not free:
            return self.leaf()
        s = src.choice(free)
        op = src.choice(["+", "-"])
        post = src.chance(50)
        if s.t is BOOL and op == "-":
            op = "+"
        pt = promote(s.t, s.w)
        try:
            v, t = arith(op, s.v, pt, 1, INT)
        except Undefined:
            return self.leaf()
        old = s.v
        nv = s.clip(v)
        self.used.add(s)
        self.mutated.append(s)
        s.v = nv
        text, prec = src.choice(s.texts)
        self.ops.add((("post" if post else "pre") + op + op))
        if post:
            if prec < 14:
                text = "(%s)" % text
            n = Node("%s%s%s" % (text, op, op), 14, s.t, old, s.w, fx=True)
        else:
            if prec < 13:
                text = "(%s)" % text
            n = Node("%s%s%s" % (op, op, text), 13, s.t, nv, s.w, fx=True)
        if s.w is not None and self.feats.get("no_field_value"):
            return self.leaf_after(n.text, s)
        return n

    def call(self, depth):
        if not self.funcs or self.calls >= 6:
            return self.leaf()
        self.calls += 1
        f = self.src.choice(self.funcs)
        args = [self.expr(depth - 2) for _ in f.params]
        vals = [conv(a.v, t) for a, t in zip(args, f.params)]
        v = f.model(vals)
        self.ops.add("call")
        name = f.name
        if self.src.chance(20):
            name = self.src.choice(["(*%s)" % name, "(&%s)" % name, "(%s)" % name])
        return Node("%s(%s)" % (name, ", ".join(self.par(a, 1) for a in args)),
                    14, f.ret, v, fx=True)

    def full(self, depth=None):
        """A full expression: afterwards, written objects are usable again."""
        self.used, self.read = set(), set()
        self.nodes = 0
        self.calls = 0
        n = self.expr(self.maxdepth if depth is None else depth)
        return n


class Func:
    """A function computing a total function of its arguments."""

    def __init__(self, src, i):
        self.name = "@f%d" % i
        self.ret = src.choice(cmodel.ALL)
        self.params = [src.choice(cmodel.ALL) for _ in range(src.int(1, 8))]
        self.coef = [src.choice([1, 1, 3, 5, -1, 7, 0x10001]) for _ in self.params]
        self.static = src.chance(50)

    def model(self, vals):
        s = 0
        for c, v in zip(self.coef, vals):
            s += c * v
        return conv(s, self.ret)

    def proto(self):
        return "%s%s %s(%s)" % ("static " if self.static else "", self.ret.name, self.name,
                                ", ".join("%s p%d" % (t.name, i)
                                          for i, t in enumerate(self.params)))

    def text(self):
        terms = " + ".join("(unsigned long) p%d * %s" % (
            i, "%dul" % c if c >= 0 else "(unsigned long) -%d" % -c)
            for i, c in enumerate(self.coef))
        # A conversion of unsigned long to the return type.
        return "%s { return %s; }\n" % (self.proto(), terms)


class Env:
    """Declarations giving Slots of every storage kind."""

    def __init__(self, src, feats=None):
        self.src = src
        self.glob = []      # file-scope text
        self.loc = []       # declarations at the start of the function
        self.init = []      # statements before the test
        self.params = []    # (declaration, argument text)
        self.slots = []
        self.n = 0
        self.feats = feats or {}
        for _ in range(src.int(2, 7)):
            self.add()

    def name(self):
        self.n += 1
        return "v%d" % self.n

    def typ(self):
        return self.src.choice(cmodel.ALL)

    def lit(self, v, t):
        return literal(self.src, v, t)[0]

    def add(self):
        src = self.src
        k = src.weighted([(30, "local"), (15, "param"), (15, "global"), (8, "ptr"),
                          (12, "array"), (15, "struct"), (5, "volatile"),
                          (3, "register"), (4, "static"), (4, "const"), (4, "ptrptr")])
        t = self.typ()
        v = value(src, t)
        n = self.name()
        if k == "local" or k == "volatile" or k == "register" or k == "const":
            q = {"local": "", "volatile": "volatile ", "register": "register ",
                 "const": "const "}[k]
            if src.chance(50) or k == "const":
                self.loc.append("%s%s %s = %s;" % (q, t.name, n, self.lit(v, t)))
            else:
                self.loc.append("%s%s %s;" % (q, t.name, n))
                self.init.append("%s = %s;" % (n, self.lit(v, t)))
            self.slots.append(Slot(t, v, [(n, 16)], const=k == "const", kind=k))
        elif k == "param":
            self.params.append(("%s %s" % (t.name, n), self.lit(v, t)))
            self.slots.append(Slot(t, v, [(n, 16)], kind=k))
        elif k == "global":
            n = "@" + n
            q = src.choice(["", "static ", "volatile "])
            if src.chance(60):
                self.glob.append("%s%s %s = %s;" % (q, t.name, n, self.lit(v, t)))
            else:
                self.glob.append("%s%s %s;" % (q, t.name, n))
                self.init.append("%s = %s;" % (n, self.lit(v, t)))
            self.slots.append(Slot(t, v, [(n, 16)], kind=k))
        elif k == "static":
            self.loc.append("static %s %s = %s;" % (t.name, n, self.lit(v, t)))
            self.slots.append(Slot(t, v, [(n, 16)], kind=k))
        elif k == "ptr":
            p = self.name()
            self.loc.append("%s %s, *%s;" % (t.name, n, p))
            self.init.append("%s = %s; %s = &%s;" % (n, self.lit(v, t), p, n))
            self.slots.append(Slot(t, v, [("*" + p, 13), ("%s[0]" % p, 15), (n, 16)],
                                   kind=k))
        elif k == "ptrptr":
            p, q = self.name(), self.name()
            self.loc.append("%s %s, *%s, **%s;" % (t.name, n, p, q))
            self.init.append("%s = %s; %s = &%s; %s = &%s;" % (
                n, self.lit(v, t), p, n, q, p))
            self.slots.append(Slot(t, v, [("**" + q, 13), ("(*%s)[0]" % q, 15),
                                          ("*%s" % p, 13)], kind=k))
        elif k == "array":
            cnt = src.int(2, 5)
            vals = [v] + [value(src, t) for _ in range(cnt - 1)]
            glob = src.chance(40)
            an = ("@" if glob else "") + n
            p, i = self.name(), self.name()
            d = "%s %s[%d] = {%s};" % (t.name, an, cnt, ", ".join(self.lit(x, t) for x in vals))
            (self.glob if glob else self.loc).append(("static " if glob and src.chance(50)
                                                      else "") + d)
            off = src.draw(cnt)
            it = src.choice([INT, UCHAR, LONG, UINT, SHORT, ULONG, SCHAR])
            iv = src.draw(cnt)
            self.loc.append("%s *%s; %s %s;" % (t.name, p, it.name, i))
            self.init.append("%s = %s + %d; %s = %d;" % (p, an, off, i, iv))
            for j in range(cnt):
                tx = [("%s[%d]" % (an, j), 15), ("*(%s + %d)" % (an, j), 13),
                      ("%s[%d]" % (p, j - off), 15), ("%d[%s]" % (j, an), 15),
                      ("(%s + %d)[%d]" % (an, off, j - off), 15)]
                if j == iv:
                    tx += [("%s[%s]" % (an, i), 15), ("*(%s + %s)" % (an, i), 13)]
                    if iv >= off or it in (INT, LONG):
                        tx += [("%s[%s - %d]" % (p, i, off), 15)]
                self.slots.append(Slot(t, vals[j], tx, kind="array"))
        elif k == "struct":
            self.struct(n)

    def struct(self, n):
        src = self.src
        cnt = src.int(2, 6)
        decl, vals, slots = [], [], []
        glob = src.chance(40)
        sn = ("@" if glob else "") + n
        p = self.name()
        # Bit-fields of one struct have types of one size: the layout of
        # others is a known finding of C06.
        ft = src.choice(FIELD_SIZES)
        for j in range(cnt):
            t = self.typ()
            m = "m%d" % j
            w = None
            if src.chance(45):
                t = src.choice(ft)
                w = src.int(1, t.bits)
                if src.chance(35):
                    w = max(1, min(t.bits, src.choice([t.bits, t.bits - 1, 31, 32, 33, 1, 8, 16])))
                if t is BOOL:
                    w = 1
                decl.append("%s %s : %d;" % (t.name, m, w))
                v = value(src, t)
                s = Slot(t, 0, [], w)
                v = s.clip(v)
            else:
                decl.append("%s %s;" % (t.name, m))
                v = value(src, t)
                s = Slot(t, 0, [])
            s.v = v
            s.kind = "field" if w is not None else "member"
            s.texts = [("%s.%s" % (sn, m), 15), ("%s->%s" % (p, m), 15),
                       ("(*%s).%s" % (p, m), 15), ("(&%s)->%s" % (sn, m), 15)]
            vals.append(self.lit(v, t))
            slots.append(s)
        tag = "@s%d" % self.n
        self.glob.append("struct %s { %s };" % (tag, " ".join(decl)))
        d = "struct %s %s = {%s};" % (tag, sn, ", ".join(vals))
        (self.glob if glob else self.loc).append(d)
        self.loc.append("struct %s *%s = &%s;" % (tag, p, sn))
        self.slots += slots
