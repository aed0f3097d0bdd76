"""Inline assembly: single instructions over explicit registers, and programs
whose asm statements have operands."""

SIZE = {"char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned": 4,
        "long": 8, "unsigned long": 8}
NAMES = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi"]
SUF = {1: "b", 2: "w", 4: "l", 8: "q"}


def reg(i, w):
    if i >= 8:
        return "%%r%d%s" % (i, {1: "b", 2: "w", 4: "d", 8: ""}[w])
    n = NAMES[i][1:]
    if w == 8:
        return "%r" + n
    if w == 4:
        return "%e" + n
    if w == 2:
        return "%" + n
    return "%" + (n[0] + "l" if n[1] == "x" else n + "l")


ANYREG = list(range(16))


def any_reg(src, w):
    return reg(src.choice(ANYREG), w)


def xmm(src):
    return "%%xmm%d" % src.choice([0, 1, 2, 7, 8, 15, 12, 9])


def mem(src):
    d = src.weighted([(4, ""), (2, str(src.choice([8, 1, 127, 16]))), (2, str(src.choice([-8, -128, -1]))),
                      (2, str(src.choice([128, 1000, -129, 70000, -100000])))])
    k = src.weighted([(5, "b"), (2, "bi"), (2, "bis"), (1, "is")])
    b = reg(src.draw(16), 8)
    i = reg(src.choice([x for x in ANYREG if x != 4]), 8)
    s = src.choice([1, 2, 4, 8])
    if k == "b":
        return "%s(%s)" % (d, b)
    if k == "bi":
        return "%s(%s, %s)" % (d, b, i)
    if k == "bis":
        return "%s(%s, %s, %d)" % (d, b, i, s)
    return "%s(, %s, %d)" % (d, i, s)


def imm(src, w):
    c = [0, 1, 2, 100, 127] + ([128, 255, 256, 32767] if w > 1 else []) + ([32768, 65535, 70000, 2147483647] if w > 2 else [])
    return "$%d" % src.choice(c)


ALU = ["add", "mov", "sub", "and", "or", "xor", "cmp"]
SUFFIX = ("add", "mov")                 # of these, with suffix
SS = ["addss", "cvtss2sd", "divss", "mulss", "subss", "movss", "ucomiss", "andps", "andnps", "orps", "movaps", "movups",
      "cvtps2dq", "cvtdq2ps", "addsd", "cvtsd2ss", "divsd", "mulsd", "subsd", "movsd", "ucomisd", "pxor"]
X87 = ["filds", "fildl", "fildq", "fistps", "fistpl", "fistpq", "flds", "fldl", "fldt", "fldcw", "fnstcw", "fstps", "fstpl",
       "fstpt"]


def instruction(src):
    """(class, text) of an instruction that lacc supports."""
    k = src.weighted([(40, "alu"), (6, "test"), (8, "shift"), (8, "unary"), (4, "push"), (5, "lea"), (3, "movslq"), (3, "none"),
                      (14, "sse"), (5, "cvt"), (5, "x87"), (2, "call"), (2, "big")])
    w = src.choice([4, 8, 2, 1])
    if k == "alu":
        m = src.choice(ALU)
        s = SUF[w] if m in SUFFIX and src.chance(50) else ""
        f = src.choice(["rr", "rm", "mr", "ir"] + (["im"] if s else []))
        a = {"r": lambda: any_reg(src, w), "m": lambda: mem(src), "i": lambda: imm(src, w)}
        # $imm of 4 bytes with the top bit clear only
        return k + f + str(w), "%s%s %s, %s" % (m, s, a[f[0]](), a[f[1]]())
    if k == "test":
        f = src.choice(["rr", "rm", "ir"])
        x = any_reg(src, w) if f[0] == "r" else imm(src, w)
        return k + f + str(w), "test %s, %s" % (x, mem(src) if f[1] == "m" else any_reg(src, w))
    if k == "shift":
        c = "%cl" if src.chance(40) else "$%d" % src.int(1, 8 * w - 1)
        return k + str(w), "%s %s, %s" % (src.choice(["shl", "shr", "sar"]), c, any_reg(src, w))
    if k == "unary":
        return k + str(w), "%s %s" % (src.choice(["not", "mul", "div", "idiv"]), any_reg(src, w))
    if k == "push":
        return src.choice([("push", "push " + any_reg(src, 8)), ("push", "pop " + any_reg(src, 8)), ("push", "push " + mem(src)),
                           ("push", "push " + imm(src, 4))])
    if k == "lea":
        return k, "lea%s %s, %s" % (src.choice(["", "q"]), mem(src), any_reg(src, 8))
    if k == "movslq":
        return k, "movslq %s, %s" % (any_reg(src, 4) if src.chance(60) else mem(src), any_reg(src, 8))
    if k == "none":
        return k, src.choice(["cdq", "cqo", "leave", "ret", "fldz"])
    if k == "sse":
        m = src.choice(SS)
        f = src.choice(["xx", "mx"] + (["xm"] if m.startswith("mov") else []))
        return k + f, "%s %s, %s" % (m, mem(src) if f[0] == "m" else xmm(src), mem(src) if f[1] == "m" else xmm(src))
    if k == "cvt":
        if src.chance(50):
            return k, "cvttss2si %s, %s" % (xmm(src) if src.chance(60) else mem(src), any_reg(src, src.choice([4, 8])))
        return k, "%s %s, %s" % (src.choice(["cvtsi2ss", "cvtsi2sd"]), any_reg(src, src.choice([4, 8])), xmm(src))
    if k == "x87":
        return k, "%s %s" % (src.choice(X87), mem(src))
    if k == "call":
        return k, "call%s *%s" % (src.choice(["", "q"]), any_reg(src, 8))
    return "movq", "movq $%d, %s" % (src.choice([4294967296, 9223372036854775807, 4294967295, 2147483648, 1]), any_reg(src, 8))


# ---- operands

LETTER = {"a": 0, "c": 1, "d": 2, "b": 3, "S": 6, "D": 7}
LACC_TEMP = [3, 12, 13, 14, 15]


class Obj:
    """A C object an operand may name."""

    def __init__(self, typ, text, addressable=True, deref=False):
        self.typ, self.text, self.addr, self.deref = typ, text, addressable, deref
        self.w = SIZE.get(typ, 8)


class Op:
    def __init__(self, cons, expr, w, kind, out, inp, name=None, letter=None):
        self.cons, self.expr, self.w, self.kind = cons, expr, w, kind      # kind: r, m, rm
        self.out, self.readable, self.name, self.letter = out, inp, name, letter
        self.written = False

    def decl(self):
        return "%s\"%s\" (%s)" % ("[%s] " % self.name if self.name else "", self.cons, self.expr)


class Fn:
    def __init__(self, src, k):
        self.src = src
        self.k = k
        self.tags = set()
        self.nlab = 0

    def ints(self, w=None):
        return self.src.choice([t for t in SIZE if w is None or SIZE[t] == w])

    def value(self):
        return str(self.src.choice([1, 0, 2, 3, 7, 100, 127, 128, 255, 1000, 65535, 70000, 2147483647]) *
                   self.src.choice([1, 1, -1]))

    def make_objects(self):
        """Globals, parameters and locals, in all kinds of storage."""
        s = self.src
        self.glob, self.decls, self.params, self.args, self.objs, self.show = [], [], [], [], [], []
        main = s.choice([4, 8, 4, 2, 1])
        for i in range(s.int(3, 9)):
            t = self.ints(main if s.chance(65) else None)
            n = "v%d" % i
            k = s.weighted([(30, "local"), (15, "param"), (12, "global"), (6, "static"), (10, "elem"), (8, "var_elem"),
                            (10, "member"), (8, "deref"), (6, "pmember"), (5, "pelem"), (4, "register")])
            self.tags.add(k)
            v = self.value()
            text, addr, deref = n, True, False
            if k == "local":
                self.decls.append("%s %s = %s;" % (t, n, v))
            elif k == "register":
                self.decls.append("register %s %s = %s;" % (t, n, v))
                addr = False
            elif k == "param":
                self.params.append("%s %s" % (t, n))
                self.args.append(v)
            elif k == "global":
                n = text = "@_g%d" % i
                self.glob.append("%s%s %s = %s;" % (s.choice(["", "static "]), t, n, v))
            elif k == "static":
                self.decls.append("static %s %s = %s;" % (t, n, v))
            elif k == "elem":
                m = s.int(1, 5)
                self.decls.append("%s %s[%d] = { %s };" % (t, n, m, ", ".join(self.value() for _ in range(m))))
                text = "%s[%d]" % (n, s.draw(m))
            elif k == "var_elem":
                m = s.int(1, 5)
                self.decls.append("%s %s[%d] = { %s }; int i%d = %d;" % (t, n, m, ", ".join(self.value() for _ in range(m)), i, s.draw(m)))
                text, deref = "%s[i%d]" % (n, i), True
            elif k == "member":
                self.decls.append("struct { %s p; %s m; char q; } %s = { 1, %s, 2 };" % (self.ints(), t, n, v))
                text = n + ".m"
            elif k == "pmember":
                self.glob.append("struct @_S%d { %s p; %s m; char q; } @_o%d = { 1, %s, 2 };" % (i, self.ints(), t, i, v))
                self.decls.append("struct @_S%d *p%d = &@_o%d;" % (i, i, i))
                text, deref = "p%d->m" % i, True
            elif k == "deref":
                self.decls.append("%s %s = %s, *p%d = &%s;" % (t, n, v, i, n))
                text, deref = "*p%d" % i, True
            else:
                self.decls.append("%s %s[4] = { %s, 5, 6 }, *p%d = %s + 1;" % (t, n, v, i, n))
                text, deref = "p%d[%d]" % (i, s.choice([0, 1, -1, 2])), True
            o = Obj(t, text, addr, deref)
            o.k = k
            self.objs.append(o)
            if k in ("elem", "var_elem", "pelem"):
                self.show.append("om(%d, %s, sizeof(%s));" % (i, n, n))
            else:
                self.show.append("oi(%d, (long) %s);" % (i, text))
        # Floating-point objects, for memory operands.
        self.floats = []
        for i in range(s.weighted([(6, 0), (2, 1), (2, 2)])):
            t = s.choice(["double", "float"])
            n = "x%d" % i
            self.decls.append("%s %s = %s;" % (t, n, s.choice(["1.5", "-2.25", "100.0", "0.0"])))
            self.floats.append(Obj(t, n))
            self.show.append("od(%d, %s);" % (i, n))

    def cexpr(self, exclude=()):
        """A C expression of values; its type is that of the result."""
        s = self.src
        o = s.choice(self.objs).text
        q = s.choice(self.objs).text
        return s.weighted([(40, o), (15, "%s + %duL" % (o, s.int(1, 50))), (10, "(long) %s ^ %s" % (o, q)), (10, "%s & %s" % (o, q)),
                           (10, "~%s" % o), (10, "%s == %s" % (o, q)), (5, str(s.draw(300)))])

    def asm(self):
        s = self.src
        # Scratch registers, and explicit ones, are disjoint.
        free = [0, 1, 2, 3, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]
        scratch = s.sample(free, s.weighted([(4, 0), (4, 1), (3, 2), (1, 4)]))
        letters = [l for l in "acdSDb" if LETTER[l] not in scratch]
        # Registers lacc has for operands of class r.
        avail = len([r for r in LACC_TEMP if r not in scratch])
        if s.chance(35):
            letters = []
        ops = []
        pool = s.shuffle(self.objs)
        nout = s.weighted([(5, 1), (2, 0), (3, 2), (2, 3)])
        nin = s.weighted([(5, 1), (2, 0), (4, 2), (2, 3)])
        lines = []
        used = set()

        def name(i):
            if s.chance(15):
                self.tags.add("named")
                return "n%d" % i if s.chance(50) else s.choice(["in", "out", "x", "value", "a"]) + str(i)
            return None

        def constraint(o, out, exprvalue):
            """(constraint, kind, letter)"""
            nonlocal avail
            cost = 1 if (o is not None and o.deref) else 0
            c = [("r", 5)]
            if o is None or not exprvalue:
                if o is not None and o.addr:
                    c += [("m", 4), ("rm", 3)]
                elif o is not None and o.k == "register":
                    c += [("rm", 1)]
            ls = [l for l in letters if l not in used]
            if ls:
                c += [("L", 5)]
            k = s.weighted([(w, x) for x, w in c])
            if k == "r":
                cost = 1
            if k == "L":
                l = s.choice(ls)
                if l == "b" and 3 not in scratch:
                    avail -= 1
                cost = 0
            if cost > avail:
                return None
            avail -= cost
            if k == "L":
                used.add(l)
                return l, "r", l
            return k, {"r": "r", "m": "m", "rm": "rm"}[k], None

        if "b" in letters:
            avail -= 1      # lacc does not use %rbx then
        outs = []
        for i in range(nout):
            if not pool:
                break
            o = pool.pop()
            c = constraint(o, True, False)
            if c is None:
                continue
            cons, kind, letter = c
            rw = s.choice(["=", "+"])
            amp = "&" if kind != "m" else ""
            ops.append(Op(rw + amp + cons, o.text, o.w, kind, True, rw == "+", name(i), letter))
            outs.append(o)
            self.tags.add("out:" + rw + cons)
        for i in range(nin):
            if s.chance(55) and pool:
                o = pool.pop()
                e, w = o.text, o.w
                c = constraint(o, False, False)
            else:
                # By value; the type is made explicit.
                w = s.choice([op.w for op in ops] or [4]) if s.chance(70) else s.choice([4, 8, 2, 1])
                e = "(%s) (%s)" % (self.ints(w), self.cexpr())
                if s.chance(15):
                    e, w = "%d" % s.draw(1000), 4
                o = None
                c = constraint(None, False, True)
                self.tags.add("value")
            if c is None:
                continue
            cons, kind, letter = c
            ops.append(Op(cons, e, w, kind, False, True, name(10 + i), letter))
            self.tags.add("in:" + cons)
        pointers = []
        if s.chance(15) and avail > 0:
            # A pointer used in an address.
            t = self.ints(s.choice([op.w for op in ops if op.out] or [4]))
            n = s.int(1, 4)
            v = "b%d" % self.nlab
            self.nlab += 1
            self.decls.append("%s %s[%d] = { %s };" % (t, v, n, ", ".join(self.value() for _ in range(n))))
            self.show.append("om(77, %s, sizeof(%s));" % (v, v))
            l = [x for x in letters if x not in used and x != "b"]
            if l and s.chance(40):
                l = s.choice(l)
                used.add(l)
            else:
                l = None
                avail -= 1
            op = Op(l or "r", v, 8, "r", False, True, None, l)
            op.pointer = (SIZE[t], n)
            ops.append(op)
            pointers.append(op)
            self.tags.add("pointer")
        def ref(op):
            i = ops.index(op)
            if op.name:
                return "%%[%s]" % op.name
            if op.letter and s.chance(35):
                return "%" + reg(LETTER[op.letter], op.w)
            return "%%%d" % i
        state = {}      # scratch register -> width of valid content
        memory = False

        def sreg(r, w):
            return "%" + reg(r, w)

        def sources(w):
            out = [("op", op) for op in ops if (op.readable or op.written) and op.w == w and not hasattr(op, "pointer")]
            out += [("s", r) for r, x in state.items() if x >= w]
            for p in pointers:
                if p.pointer[0] == w:
                    out.append(("mem", p))
            return out

        def text(x, w):
            k, v = x
            if k == "op":
                return ref(v)
            if k == "s":
                return sreg(v, w)
            d = v.pointer[0] * s.draw(v.pointer[1])
            return "%s(%s)" % (d or "", ref(v))

        def is_mem(x):
            return x[0] == "mem" or x[0] == "op" and x[1].kind != "r"

        def targets():
            return [("op", op) for op in ops if op.out] + [("s", r) for r in scratch] + [("mem", p) for p in pointers]

        def emit(dst):
            nonlocal memory
            k, v = dst
            w = v.w if k == "op" else v.pointer[0] if k == "mem" else s.choice([op.w for op in ops] or [4])
            valid = k == "mem" or (k == "op" and (v.readable or v.written)) or (k == "s" and state.get(v, 0) >= w)
            m = s.choice(["mov", "add", "sub", "xor", "and", "or"]) if valid else "mov"
            c = sources(w)
            if s.chance(15) or not c:
                # Immediate.
                n = "$%d" % s.choice([1, 0, 5, 100, 127] + ([200, 255, 1000] if w > 1 else []) + ([70000] if w > 2 else []))
                if is_mem(dst):
                    if m not in ("mov", "add"):
                        m = "add" if valid else "mov"
                    lines.append("%s%s %s, %s" % (m, SUF[w], n, text(dst, w)))
                else:
                    u = s.weighted([(6, "imm"), (2, "shift"), (1, "not")]) if valid else "imm"
                    if u == "shift":
                        lines.append("%s $%d, %s" % (s.choice(["shl", "shr", "sar"]), s.int(1, w * 8 - 1), text(dst, w)))
                        self.tags.add("shift")
                    elif u == "not":
                        lines.append("not %s" % text(dst, w))
                    else:
                        suf = SUF[w] if m in SUFFIX and s.chance(40) else ""
                        lines.append("%s%s %s, %s" % (m, suf, n, text(dst, w)))
            else:
                x = s.choice(c)
                if is_mem(x) and is_mem(dst):
                    sr = [r for r in scratch]
                    if not sr:
                        return
                    r = s.choice(sr)
                    lines.append("mov %s, %s" % (text(x, w), sreg(r, w)))
                    state[r] = w
                    x = ("s", r)
                    self.tags.add("via")
                suf = SUF[w] if m in SUFFIX and s.chance(30) else ""
                lines.append("%s%s %s, %s" % (m, suf, text(x, w), text(dst, w)))
            if k == "op":
                v.written = True
            elif k == "s":
                state[v] = w
            else:
                memory = True

        ts = targets()
        for i in range(s.weighted([(3, 1), (3, 2), (3, 3), (2, 5), (1, 10)])):
            if not ts:
                break
            emit(s.choice(ts))
        for op in ops:
            if op.out and not op.readable and not op.written:
                emit(("op", op))
                if not op.written:
                    lines.append("mov%s $%d, %s" % (SUF[op.w], s.draw(100), ref(op)))
        floats = [o for o in self.floats]
        if len(floats) == 2 and s.chance(30):
            a, b = floats
            i = len(ops)
            xr = s.sample([0, 1, 5, 8, 15], 2)
            sfx = {"float": "ss", "double": "sd"}
            ops.insert(0, None)
            # Outputs come first: it is operand 0, and others move by one.
            lines = [shift_refs(l) for l in lines]
            ops[0] = Op("=m", a.text, a.w, "m", True, False)
            ops.append(Op("m", b.text, b.w, "m", False, True))
            lines.append("mov%s %%%d, %%%%xmm%d" % (sfx[b.typ], i + 1, xr[0]))
            if a.typ != b.typ:
                lines.append("cvt%s2%s %%%%xmm%d, %%%%xmm%d" % (sfx[b.typ], sfx[a.typ], xr[0], xr[1]))
                xr = xr[::-1]
            lines.append("%s%s %%%%xmm%d, %%%%xmm%d" % (s.choice(["add", "mul", "sub"]), sfx[a.typ], xr[0], xr[0]))
            lines.append("mov%s %%%%xmm%d, %%0" % (sfx[a.typ], xr[0]))
            clob = ["xmm%d" % x for x in xr]
            self.tags.add("sse")
        else:
            clob = []
        for r in scratch:
            clob.append(s.choice(["%s", "%s", "%%%s"]) % reg(r, s.choice([8, 8, 4]) if r < 8 else 8)[1:])
        if memory:
            clob.append("memory")
        clob.append("cc")
        if scratch:
            self.tags.add("clobber")
        clob = s.shuffle(clob)
        outs = [o for o in ops if o.out]
        ins = [o for o in ops if not o.out]
        sep = s.choice(["\\n", "\\n\\t", " \\n "])
        t = sep.join(lines)
        if s.chance(50):
            t += "\\n"
        if len(lines) > 1 and s.chance(20):
            t = t.replace("\\n", "\\n\"\n\t\"", 1)
        if not lines:
            t = ""
        return "__asm__%s (\"%s\"\n\t: %s\n\t: %s\n\t: %s);\n" % (
            " volatile", t, ", ".join(o.decl() for o in outs), ", ".join(o.decl() for o in ins),
            ", ".join('"%s"' % c for c in clob))

    def goto(self):
        s = self.src
        n = self.nlab
        self.nlab += 1
        ins = ['"r" (%s)' % s.choice(self.objs).text for _ in range(s.draw(2))]
        labels = ["L%d_%d" % (n, j) for j in range(s.int(1, 3))]
        k = s.draw(len(labels))
        self.tags.add("goto")
        out = "__asm__ goto (\"jmp %%l%d\\n\"\n\t:\n\t: %s\n\t: \"cc\"\n\t: %s);\n" % (len(ins) + k, ", ".join(ins), ", ".join(labels))
        o = s.choice(self.objs).text
        for j, l in enumerate(labels):
            out += "%s = %d;\n%s: ;\n" % (o, 10 + j, l)
        return out

    def stmt(self, depth=0):
        s = self.src
        k = s.weighted([(50, "asm"), (20, "assign"), (8, "if"), (6, "loop"), (8, "goto")])
        if k == "asm":
            return self.asm()
        if k == "assign" or depth > 1:
            return "%s = %s;\n" % (s.choice(self.objs).text, self.cexpr())
        if k == "if":
            self.tags.add("if")
            return "if (%s) {\n%s}%s\n" % (self.cexpr(), self.stmt(depth + 1),
                                           " else {\n%s}" % self.stmt(depth + 1) if s.chance(40) else "")
        if k == "loop":
            self.tags.add("loop")
            v = "j%d" % self.nlab
            self.nlab += 1
            self.decls.append("int %s;" % v)
            return "for (%s = 0; %s < %d; %s++) {\n%s}\n" % (v, v, s.int(1, 4), v, self.stmt(depth + 1))
        return self.goto()

    def build(self):
        s = self.src
        self.make_objects()
        body = "".join(self.stmt() for _ in range(s.weighted([(3, 1), (4, 2), (3, 4)])))
        ret = " + ".join("(long) " + o.text for o in s.sample(self.objs, 3))
        f = "%slong @_f(%s)\n{\n%s\n%s%s\nreturn %s;\n}\n" % (
            s.choice(["", "static "]), ", ".join(self.params) or "void", "\n".join(self.decls), body, "\n".join(self.show), ret)
        # The caller keeps values over the call.
        call = "@_f(%s)" % ", ".join(self.args)
        m = "static int @_h(int x) { return x * 3; }\nvoid @_t(void)\n{\nint a = 3, b = 5; long c = 7, r;\nunsigned char d = 200;\n"
        m += "r = (a * b + (c ^ d)) + ((c + @_h(a)) * (@_h(b) - %s) + (d + @_h(d)) * %d);\n" % (call, s.int(1, 9))
        m += "oi(100, r); oi(101, a + b + c + d);\n}\n"
        return "".join(g + "\n" for g in self.glob) + f + m


def shift_refs(line):
    import re
    return re.sub(r"(?<!%)%(\d+)", lambda m: "%%%d" % (int(m.group(1)) + 1), line)


def function(src):
    f = Fn(src, 0)
    t = f.build()
    return t, f.tags
