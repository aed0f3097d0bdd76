"""C03: floating-point arithmetic, conversions and constants."""
from pbt.engine import Property, Case, Fail, Skip, OK
from pbt.cmodel import *
from pbt import cmodel, cdiff, fmodel
from pbt.fmodel import F, FLOAT, DOUBLE, LDOUBLE, FLOATS, NAN
from checks.common import BatchProgram, hexv

PREC = {"*": 12, "/": 12, "+": 11, "-": 11, "<": 9, ">": 9, "<=": 9, ">=": 9,
        "==": 8, "!=": 8}


class N:
    __slots__ = ("text", "prec", "t", "v")

    def __init__(self, text, prec, t, v):
        self.text, self.prec, self.t, self.v = text, prec, t, v


class Slot:
    def __init__(self, t, v, texts):
        self.t, self.v, self.texts = t, v, texts


class G:
    """Generator of expressions of mixed arithmetic types."""

    def __init__(self, src, slots=(), funcs=(), const=False):
        self.src, self.slots, self.funcs, self.const = src, list(slots), funcs, const
        self.used, self.read = set(), set()
        self.ops = set()
        self.lits = []
        self.calls = 0

    def par(self, n, p):
        if n.prec < p or self.src.chance(10):
            return "(%s)" % n.text
        return n.text

    def atom(self, text, prec, t, v):
        if not self.const:
            return N(text, prec, t, v)
        self.lits.append((text if prec == 16 else "(%s)" % text, t, v))
        return N("\x01%d\x02" % (len(self.lits) - 1), 16, t, v)

    def lit(self, t=None):
        src = self.src
        t = t or src.weighted([(6, DOUBLE), (6, FLOAT), (4, LDOUBLE), (1, INT), (1, UINT),
                               (1, LONG), (1, ULONG), (1, CHAR), (1, USHORT)])
        if isinstance(t, F):
            v = fmodel.value(src, t)
            text, prec, v = fmodel.literal(src, v, t)
            return self.atom(text, prec, t, v)
        v = cmodel.value(src, t)
        text, prec = cmodel.literal(src, v, t)
        return self.atom(text, prec, t, v)

    def leaf(self):
        free = [s for s in self.slots if s not in self.used]
        if free and self.src.chance(75):
            s = self.src.choice(free)
            self.read.add(s)
            text, prec = self.src.choice(s.texts)
            return N(text, prec, s.t, s.v)
        return self.lit()

    def cast(self, t, x):
        self.ops.add("cast %s %s" % (kind(x.t), kind(t)))
        v = fmodel.convert(x.v, x.t, t)
        return N("(%s) %s" % (t.name, self.par(x, 13)), 13, t, v)

    def binary(self, op, l, r):
        v, t = fmodel.arith(op, l.v, l.t, r.v, r.t)
        p = PREC[op]
        self.ops.add("%s %s %s" % (op, kind(l.t), kind(r.t)))
        return N("%s %s %s" % (self.par(l, p), op, self.par(r, p + 1)), p, t, v)

    def safe(self, op, l, r):
        try:
            return self.binary(op, l, r)
        except Undefined:
            return self.binary(op, self.cast(self.src.choice(FLOATS), l), r)

    def expr(self, d):
        src = self.src
        if d <= 0 or src.chance(12):
            return self.leaf()
        k = src.weighted([(50, "bin"), (18, "cast"), (10, "cmp"), (8, "neg"), (4, "not"),
                          (6, "cond"), (6, "logic"), (5, "assign"), (6, "call"), (3, "comma"),
                          (3, "incdec"), (2, "same")])
        if self.const and k in ("assign", "call", "comma", "incdec"):
            k = "bin"
        if k in ("bin", "cmp"):
            op = src.choice(["+", "-", "*", "/"] if k == "bin"
                            else ["<", ">", "<=", ">=", "==", "!="])
            l = self.expr(d - 1)
            if k == "cmp" and src.chance(25) and isinstance(l.t, F):
                try:
                    text, prec, v = fmodel.literal(src, l.v, l.t)
                    r = self.atom(text, prec, l.t, v)
                except Undefined:
                    r = self.expr(d - 1)
            else:
                r = self.expr(d - 1)
            return self.safe(op, l, r)
        if k == "same":
            free = [s for s in self.slots if s not in self.used]
            if not free:
                return self.leaf()
            s = src.choice(free)
            self.read.add(s)
            a, b = src.choice(s.texts), src.choice(s.texts)
            return self.safe(src.choice(["+", "-", "*", "/", "==", "!=", "<="]),
                             N(a[0], a[1], s.t, s.v), N(b[0], b[1], s.t, s.v))
        if k == "cast":
            t = src.choice([FLOAT, DOUBLE, LDOUBLE] + cmodel.ALL)
            x = self.expr(d - 1)
            try:
                return self.cast(t, x)
            except Undefined:
                return self.cast(src.choice([BOOL, FLOAT, DOUBLE, LDOUBLE]), x)
        if k == "neg":
            x = self.expr(d - 1)
            b = self.par(x, 13)
            op = src.choice(["-", "-", "+"])
            if not isinstance(x.t, F):
                try:
                    v, t = cmodel.unary(op, x.v, x.t)
                except Undefined:
                    op = "+"
                    v, t = cmodel.unary(op, x.v, x.t)
            else:
                v, t = (fmodel.neg(x.v) if op == "-" else x.v), x.t
            self.ops.add("u%s %s" % (op, kind(x.t)))
            return N(op + (" " if b[0] in "+-" else "") + b, 13, t, v)
        if k == "not":
            x = self.expr(d - 1)
            self.ops.add("! " + kind(x.t))
            return N("!" + self.par(x, 13), 13, INT, int(not fmodel.truth(x.v, x.t)))
        if k == "cond":
            c = self.expr(d - 1)
            a = self.expr(d - 2)
            b = self.expr(d - 2)
            # No writes inside: both arms were generated without assignments
            # because depth is low; restore if there were any.
            t = fmodel.common(promoted(a.t), promoted(b.t))
            z = a if fmodel.truth(c.v, c.t) else b
            self.ops.add("?: " + kind(c.t))
            return N("%s ? %s : %s" % (self.par(c, 3), self.par(a, 2), self.par(b, 2)), 2, t,
                     fmodel.convert(z.v, z.t, t))
        if k == "logic":
            op = src.choice(["&&", "||"])
            l = self.expr(d - 1)
            save = [(s, s.v) for s in self.slots]
            r = self.expr(d - 1)
            lv, rv = fmodel.truth(l.v, l.t), fmodel.truth(r.v, r.t)
            if lv == (op == "||"):
                for s, v in save:
                    s.v = v
            v = (lv and rv) if op == "&&" else (lv or rv)
            p = 4 if op == "&&" else 3
            self.ops.add("%s %s" % (op, kind(r.t)))
            return N("%s %s %s" % (self.par(l, p), op, self.par(r, p + 1)), p, INT, int(v))
        if k == "comma":
            l, r = self.expr(d - 2), self.expr(d - 1)
            return N("%s, %s" % (self.par(l, 0), self.par(r, 1)), 0, r.t, r.v)
        if k == "call":
            if not self.funcs or self.calls >= 5:
                return self.leaf()
            self.calls += 1
            f = src.choice(self.funcs)
            args, vals = [], []
            for t in f.params:
                a = self.expr(d - 2)
                try:
                    v = fmodel.convert(a.v, a.t, t)
                except Undefined:
                    a = self.lit(t)
                    v = a.v
                args.append(a)
                vals.append(v)
            self.ops.add("call")
            return N("%s(%s)" % (f.name, ", ".join(self.par(a, 1) for a in args)), 14,
                     f.ret, f.model(vals))
        free = [s for s in self.slots if s not in self.used and s not in self.read]
        if not free:
            return self.leaf()
        s = src.choice(free)
        text, prec = src.choice(s.texts)
        if k == "incdec":
            op = src.choice("+-")
            if s.t is BOOL:
                return self.leaf()
            try:
                v, t = fmodel.arith(op, s.v, s.t, 1, INT)
                nv = fmodel.convert(v, t, s.t)
            except Undefined:
                return self.leaf()
            self.used.add(s)
            self.ops.add("%s%s %s" % (op, op, kind(s.t)))
            old, s.v = s.v, nv
            if src.chance(50):
                return N("%s%s%s" % ("(%s)" % text if prec < 14 else text, op, op), 14, s.t, old)
            return N("%s%s%s" % (op, op, "(%s)" % text if prec < 13 else text), 13, s.t, nv)
        self.used.add(s)
        r = self.expr(d - 1)
        op = src.choice(["", "", "+", "-", "*", "/"])
        try:
            if op:
                v, t = fmodel.arith(op, s.v, s.t, r.v, r.t)
            else:
                v, t = r.v, r.t
            nv = fmodel.convert(v, t, s.t)
        except Undefined:
            self.used.discard(s)
            return r
        self.ops.add("%s= %s %s" % (op, kind(s.t), kind(r.t)))
        s.v = nv
        return N("%s %s= %s" % (text, op, self.par(r, 1)), 1, s.t, nv)

    def full(self, d):
        self.used, self.read = set(), set()
        self.calls = 0
        return self.expr(d)

    def spell(self, text, var=None):
        out = []
        for i, part in enumerate(text.split("\x01")):
            if i == 0:
                out.append(part)
                continue
            n, rest = part.split("\x02", 1)
            out.append((var % int(n) if var else self.lits[int(n)][0]) + rest)
        return "".join(out)


def near_tie(src):
    """(type, value) of an integer that a conversion to a floating type must
    round, where what is dropped is half a unit or next to it."""
    t = src.choice([ULONG, ULONG, ULONG, LONG, LONG, UINT, INT])
    top = t.bits - 1 if not t.signed else t.bits - 2
    if src.chance(25):
        top -= src.draw(8)
    keep = src.choice([24, 53, 24, 53, 64]) if t.bits == 64 else 24
    drop = top + 1 - keep
    if drop < 1:
        return t, cmodel.value(src, t)
    v = (1 << top) | (src.bits(keep - 1) << drop) if src.chance(70) else ((1 << keep) - 1) << drop
    v += (1 << (drop - 1)) + src.choice([0, 0, 1, 1, -1, 2, 1 << (drop // 2)])
    v &= (1 << (top + 1)) - 1
    if t.signed and src.chance(40):
        v = -v
    return t, v


def promoted(t):
    return t if isinstance(t, F) else promote(t)


def kind(t):
    if isinstance(t, F):
        return t.name[0]
    return ("i" if t.signed else "u") + str(t.bits)


class Func:
    """Sum or weighted product of arguments, in a given type."""

    def __init__(self, src, i):
        self.name = "@f%d" % i
        self.ret = src.choice(FLOATS + [FLOAT, DOUBLE])
        n = src.weighted([(5, 2), (3, 1), (3, 4), (1, 9), (1, 12)])
        self.params = [src.choice(FLOATS + [INT, UCHAR, LONG, ULONG, FLOAT, DOUBLE, SHORT])
                       for _ in range(n)]
        self.op = src.choice(["+", "*", "-"])

    def model(self, vals):
        v = fmodel.convert(vals[0], self.params[0], self.ret)
        for x, t in zip(vals[1:], self.params[1:]):
            y = fmodel.convert(x, t, self.ret)
            v, _ = fmodel.arith(self.op, v, self.ret, y, self.ret)
        return v

    def text(self):
        s = "p0"
        body = "%s r = p0;" % self.ret.name
        for i in range(1, len(self.params)):
            body += " r = r %s (%s) p%d;" % (self.op, self.ret.name, i)
        return "%s %s(%s) { %s return r; }\n" % (self.ret.name, self.name, ", ".join(
            "%s p%d" % (t.name, i) for i, t in enumerate(self.params)), body)


class P(BatchProgram, Property):
    id = "C03"
    batch = 20
    quick_cases = 20 * 500
    thorough_factor = 12
    rule = ("A case is a set of objects of floating and integer types, functions, and "
            "several full expressions, run-time or constant, whose value is computed "
            "with exactly rounded rational arithmetic; results are compared by "
            "representation. Non-trivial: at least 3 operators or conversions, one of "
            "them on a floating type.")
    assumptions = ["the model in pbt/fmodel.py and gcc agree (cases where they do not are not decided)",
                   "all NaN are regarded as equal"]

    def gen(self, src, index):
        funcs = [Func(src, i) for i in range(src.int(0, 2))]
        glob, loc, init, params, slots = [], [], [], [], []

        def lit(v, t):
            if not isinstance(t, F):
                return cmodel.literal(src, v, t)[0], v
            s, p, v = fmodel.literal(src, v, t)
            return s, v
        for i in range(src.int(2, 6)):
            t = src.weighted([(5, DOUBLE), (5, FLOAT), (4, LDOUBLE), (5, None)]) or \
                src.choice(cmodel.ALL)
            v = fmodel.value(src, t) if isinstance(t, F) else cmodel.value(src, t)
            s, v = lit(v, t)
            n = "v%d" % i
            k = src.weighted([(6, "local"), (3, "global"), (3, "param"), (3, "array"),
                              (2, "struct"), (2, "ptr"), (1, "volatile"), (1, "static")])
            texts = [(n, 16)]
            if k == "local" or k == "volatile":
                q = "volatile " if k == "volatile" else ""
                if src.chance(50):
                    loc.append("%s%s %s = %s;" % (q, t.name, n, s))
                else:
                    loc.append("%s%s %s;" % (q, t.name, n))
                    init.append("%s = %s;" % (n, s))
            elif k == "static":
                loc.append("static %s %s = %s;" % (t.name, n, s))
            elif k == "global":
                glob.append("%s @%s = %s;" % (t.name, n, s))
                texts = [("@" + n, 16)]
            elif k == "param":
                params.append(("%s %s" % (t.name, n), s))
            elif k == "ptr":
                loc.append("%s %s = %s, *p%d = &%s;" % (t.name, n, s, i, n))
                texts = [("*p%d" % i, 13), (n, 16)]
            elif k == "array":
                c = src.int(1, 4)
                j = src.draw(c)
                loc.append("%s %s[%d] = {%s}; int i%d = %d;" % (
                    t.name, n, c, ", ".join([lit(fmodel.value(src, t) if isinstance(t, F) else
                                                 cmodel.value(src, t), t)[0] if x != j else s
                                             for x in range(c)]), i, j))
                texts = [("%s[%d]" % (n, j), 15), ("%s[i%d]" % (n, i), 15)]
            else:
                t2 = src.choice(FLOATS + [CHAR, INT])
                glob.append("struct @s%d { %s a; %s b; };" % (i, t2.name, t.name))
                loc.append("struct @s%d %s = {1, %s}, *p%d = &%s;" % (i, n, s, i, n))
                texts = [("%s.b" % n, 15), ("p%d->b" % i, 15)]
            slots.append(Slot(t, v, texts))
        body, exp, helper, tags = [], [], [], set()
        rid = [0]

        def out(expr, t, v):
            rid[0] += 1
            if isinstance(t, F):
                c = {FLOAT: "f", DOUBLE: "d", LDOUBLE: "l"}[t]
                exp.append("%d%s%s" % (rid[0], c, fmodel.encode(v, t)))
                return "o%s(%d, %s);" % (c, rid[0], expr)
            exp.append("%d %s" % (rid[0], hexv(v)))
            return "oi(%d, %s);" % (rid[0], expr)

        ops = set()
        for i in range(src.int(2, 6)):
            k = src.weighted([(6, "report"), (6, "init"), (6, "const"), (3, "if"), (3, "sizeof"),
                              (3, "return"), (2, "while"), (3, "opassign"), (2, "not"), (3, "array"),
                              (3, "round")])
            tags.add("ctx:" + k)
            d = src.int(1, 4)
            if k == "const":
                g = G(src, const=True)
                n = g.expr(d)
                ops |= g.ops
                st = src.choice(FLOATS + [n.t, n.t] + cmodel.ALL)
                try:
                    sv = fmodel.convert(n.v, n.t, st)
                except Undefined:
                    st, sv = n.t, n.v
                c = g.spell(n.text) if n.prec >= 1 else "(%s)" % g.spell(n.text)
                w = src.draw(4)
                if w == 0:
                    helper.append("%s @k%d = %s;\n" % (st.name, i, c))
                    body.append(out("@k%d" % i, st, sv))
                elif w == 1:
                    body.append("{ static %s k[2] = {%s, 1}; %s }" % (
                        st.name, c, out("k[0]", st, sv)))
                elif w == 2:
                    body.append("{ %s k = %s; %s }" % (st.name, c, out("k", st, sv)))
                else:
                    body.append(out(c, n.t, n.v))
                # The same expression over variables.
                vs = "".join("volatile %s x%d = %s; " % (t.name, j, s)
                             for j, (s, t, v) in enumerate(g.lits))
                r = g.spell(n.text, "x%d")
                body.append("{ %s%s }" % (vs, out(r if n.prec >= 1 else "(%s)" % r, n.t, n.v)))
                continue
            if k == "return":
                ps, ss = [], []
                for j in range(src.int(1, 5)):
                    t = src.choice(FLOATS + [FLOAT, DOUBLE, INT, ULONG, SHORT])
                    v = fmodel.value(src, t) if isinstance(t, F) else cmodel.value(src, t)
                    s, v = lit(v, t)
                    ps.append((t, s))
                    ss.append(Slot(t, v, [("p%d" % j, 16)]))
                g = G(src, ss, funcs)
                n = g.full(d)
                ops |= g.ops
                rt = src.choice(FLOATS + cmodel.ALL)
                try:
                    v = fmodel.convert(n.v, n.t, rt)
                except Undefined:
                    rt, v = n.t, n.v
                name = "@r%d" % i
                helper.append("%s %s(%s) { return %s; }\n" % (
                    rt.name, name, ", ".join("%s p%d" % (t.name, j) for j, (t, s) in enumerate(ps)),
                    n.text))
                body.append(out("%s(%s)" % (name, ", ".join(s for _, s in ps)), rt, v))
                continue
            if k == "round":
                for j in range(src.int(1, 4)):
                    t, v = near_tie(src)
                    ft = src.choice([FLOAT, DOUBLE, DOUBLE, LDOUBLE, FLOAT])
                    f = fmodel.convert(v, t, ft)
                    e = src.choice(["(%s) x", "x + (%s) 0", "(%s) (x + 0)", "1 ? x : (%s) 0"]) % ft.name
                    ops.add("cast %s %s" % (kind(t), kind(ft)))
                    q = src.choice(["", "", "volatile ", "static "])
                    body.append("{ %s%s x = %s; %s }" % (q, t.name, cmodel.literal(src, v, t)[0], out(e, ft, f)))
                continue
            g = G(src, slots, funcs)
            save = [(s, s.v) for s in slots]
            n = g.full(d)
            ops |= g.ops
            e = n.text if n.prec >= 1 else "(%s)" % n.text
            if k == "report":
                body.append(out(e, n.t, n.v))
            elif k in ("init", "array"):
                t = src.choice(FLOATS + cmodel.ALL)
                try:
                    v = fmodel.convert(n.v, n.t, t)
                except Undefined:
                    t, v = n.t, n.v
                tags.add("conv:%s %s" % (kind(n.t), kind(t)))
                if k == "array":
                    body.append("{ %s r[3]; int i = 1; r[i] = %s; %s }" % (t.name, e, out("r[1]", t, v)))
                elif src.chance(50):
                    body.append("{ %s r = %s; %s }" % (t.name, e, out("r", t, v)))
                else:
                    body.append("{ %s r; r = %s; %s }" % (t.name, e, out("r", t, v)))
            elif k in ("if", "while", "not"):
                b = fmodel.truth(n.v, n.t)
                if k == "if":
                    body.append("{ int r; if (%s) r = 3; else r = 4; %s }" % (
                        n.text, out("r", INT, 3 if b else 4)))
                elif k == "while":
                    body.append("{ int r = 5; while (%s) { r = 7; break; } %s }" % (
                        n.text, out("r", INT, 7 if b else 5)))
                else:
                    body.append(out("!(%s)" % n.text, INT, int(not b)))
            elif k == "sizeof":
                for s, v in save:
                    s.v = v
                body.append(out("sizeof(%s)" % e, INT, n.t.size))
            elif k == "opassign":
                t = src.choice(FLOATS + cmodel.ALL)
                a = fmodel.value(src, t) if isinstance(t, F) else cmodel.value(src, t)
                s, a = lit(a, t)
                op = src.choice("+-*/")
                try:
                    v, vt = fmodel.arith(op, a, t, n.v, n.t)
                    v = fmodel.convert(v, vt, t)
                except Undefined:
                    body.append(out(e, n.t, n.v))
                    continue
                tags.add("op:%s= %s %s" % (op, kind(t), kind(n.t)))
                body.append("{ %s r = %s; r %s= %s; %s }" % (t.name, s, op, e, out("r", t, v)))
        text = "".join(f.text() for f in funcs) + "".join(x + "\n" for x in glob) + "".join(helper)
        text += "void @t(%s)\n{\n" % (", ".join(d for d, _ in params) or "void")
        text += "".join("    %s\n" % x for x in loc + init + body) + "}\n"
        call = "@t(%s);" % ", ".join(a for _, a in params)
        tags |= set("op:" + o for o in ops)
        return Case(text + call, nontrivial=len(ops) >= 3, tags=tags,
                    sample=text + "expected:\n" + "\n".join(exp), text=text, call=call, exp=exp,
                    mode=src.choice(["c", "c-O1", "c-nopic", "S", "c-O1", "S-nopic"]))
