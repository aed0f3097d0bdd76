"""Generator of whole programs that are free of undefined and unspecified
behaviour by construction: ranges of signed arithmetic are tracked, indices and
shift counts masked, pointers only hold addresses of live objects of the right
type, loops are bounded by counters of their own, jumps by fuel, and side
effects occur only where sequence points separate them. No expected values are
computed here; the oracle is another compiler (or another mode of lacc)."""
from .cmodel import (ALL, INT, UINT, LONG, ULONG, CHAR, SCHAR, UCHAR, SHORT,
                     USHORT, BOOL, LLONG, ULLONG, T, promote, usual, conv,
                     literal, value)

WIDE = [INT, UINT, LONG, ULONG]


class Arr:
    def __init__(self, elem, n):
        self.elem, self.n = elem, n


class Rec:
    def __init__(self, tag, fields, union=False):
        self.tag, self.fields, self.union = tag, fields, union
        self.name = ("union " if union else "struct ") + tag


class Ptr:
    """Pointer to at least n consecutive objects of type to."""
    def __init__(self, to, n=1):
        self.to, self.n = to, n


class Fn:
    def __init__(self, name, ret, params, cost, pure):
        self.name, self.ret, self.params, self.cost, self.pure = name, ret, params, cost, pure


def decl(t, name):
    """Text declaring `name` with type t."""
    if isinstance(t, Arr):
        return decl(t.elem, "%s[%s]" % (name, t.n))
    if isinstance(t, Ptr):
        if isinstance(t.to, Arr):
            return decl(t.to, "(*%s)" % name)
        return decl(t.to, "*" + name)
    return "%s %s" % (t.name, name)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.n == b.n and same(a.elem, b.elem)
    return False


class Var:
    def __init__(self, name, t, depth, const=False, counter=False):
        self.name, self.t, self.depth = name, t, depth
        self.const, self.counter = const, counter


class E:
    """Integer expression: text, type and range of values."""
    __slots__ = ("s", "t", "lo", "hi", "atom")

    def __init__(self, s, t, lo=None, hi=None, atom=False):
        self.s, self.t, self.atom = s, t, atom
        self.lo = t.min if lo is None else lo
        self.hi = t.max if hi is None else hi

    def p(self):
        return self.s if self.atom else "(%s)" % self.s


DEFAULT = dict(
    nglob=(2, 6), nfunc=(1, 4), stmts=(3, 8), depth=3, edepth=3,
    records=True, bitfields=True, unions=True, vla=True, goto=True,
    switch=True, pointers=True, fnptr=True, floats=False, literals=True,
    statics=True, recursion=True, trace=12, memory=3, control=3,
    budget=1500, bool=True, callout=True, big=0)


class Prog:
    def __init__(self, src, prefix="@", **kw):
        self.src = src
        self.o = dict(DEFAULT, **kw)
        self.x = prefix
        self.n = 0
        self.rid = 0
        self.types = []            # text of record definitions
        self.recs = []
        self.globals = []          # Var
        self.gtext = []
        self.funcs = []            # Fn
        self.ftext = []
        self.tags = set()
        self.scope = []            # visible Vars of the current function
        self.depth = 0
        self.mult = 1
        self.cost = 0
        self.nstmt = 0
        self.labels = []
        self.fuel = None
        self.hoist = None
        self.infunc = None
        self.loopdepth = 0
        self.breakable = 0
        self.continuable = 0

    # ---- names and types -------------------------------------------------
    def name(self, p="v"):
        self.n += 1
        return "%s%s%d" % (self.x, p, self.n) if p in ("g", "f", "T", "t") else "%s%d" % (p, self.n)

    def int_type(self, wide=False):
        s = self.src
        t = s.choice(WIDE) if wide or s.chance(50) else s.choice(ALL)
        return INT if t is BOOL and not self.o["bool"] else t

    def scalar(self):
        return self.int_type()

    def make_record(self):
        s = self.src
        union = self.o["unions"] and s.chance(20)
        tag = self.name("t")
        fields, txt = [], []
        if union:
            self.tags.add("union")
            for ft in s.sample([ULONG, LONG, Arr(UINT, 2), Arr(UCHAR, 8), Arr(SHORT, 4), Arr(CHAR, 8)], s.int(2, 4)):
                f = "m%d" % len(fields)
                fields.append((f, ft, None))
                txt.append(decl(ft, f) + ";")
        else:
            bf = self.o["bitfields"] and s.chance(30)
            bt = s.choice([INT, UINT, LONG, ULONG])
            if bf:
                self.tags.add("bitfield")
                # Bit-fields of one size, so that layout is not an issue here.
                for i in range(s.int(1, 4)):
                    f = "b%d" % i
                    w = s.int(1, min(bt.bits, 40 if bt.bits == 64 else 31))
                    fields.append((f, bt, w))
                    txt.append("%s %s : %d;" % (bt.name, f, w))
                self.tags.add("bitfields")
            for i in range(s.int(1, 4)):
                f = "m%d" % i
                k = s.draw(10)
                ft = self.scalar()
                if bf and ft.size < bt.size:
                    ft = bt
                if k >= 8 and not bf:
                    ft = Arr(ft, s.choice([2, 4, 1, 8]))
                elif k >= 6 and self.recs and not bf:
                    r = s.choice(self.recs)
                    ft = r if k == 6 else Arr(r, 2)
                elif k == 5 and self.o["pointers"] and not bf:
                    ft = Ptr(ft, 1)
                fields.append((f, ft, None))
                txt.append(decl(ft, f) + ";")
        r = Rec(tag, fields, union)
        self.recs.append(r)
        self.types.append("%s { %s };" % (r.name, " ".join(txt)))
        self.tags.add("record")
        return r

    def any_type(self, depth=0, ptr=True):
        s = self.src
        k = s.draw(12)
        if k < 5 or depth > 2:
            return self.scalar()
        if k < 7:
            return Arr(self.any_type(depth + 1, False) if s.chance(40) else self.scalar(),
                       s.choice([4, 2, 8, 1]))
        if k < 10 and self.o["records"]:
            return s.choice(self.recs) if self.recs and s.chance(75) else self.make_record()
        if self.o["pointers"] and ptr:
            return self.ptr_type()
        return self.scalar()

    def ptr_type(self):
        """A pointer type for which a target is visible, or an integer."""
        c = self.targets(None)
        if not c:
            return self.scalar()
        _, t, n = self.src.choice(c)
        return Ptr(t, self.src.choice([1, n]))

    # ---- lvalues ---------------------------------------------------------
    def visible(self):
        return self.globals + self.scope

    def paths(self, text, t, depth, out, want, d=0, through=True):
        """Lvalues reachable from an lvalue: appends (text, type)."""
        if d > 4:
            return
        if want(t):
            out.append((text, t))
        if isinstance(t, Rec):
            for f, ft, w in t.fields:
                if w is None:
                    self.paths("%s.%s" % (text, f), ft, depth, out, want, d + 1, through)
                elif want is is_int:
                    out.append(("%s.%s" % (text, f), field_type(ft, w)))
        elif isinstance(t, Arr):
            self.paths("%s[#%s]" % (text, t.n), t.elem, depth, out, want, d + 1, through)
        elif isinstance(t, Ptr) and through:
            if t.n > 1:
                self.paths("%s[#%s]" % (text, t.n), t.to, depth, out, want, d + 1, through)
            elif isinstance(t.to, Rec):
                tmp = []
                self.paths("%", t.to, depth, tmp, want, d + 1, through)
                for x, xt in tmp:
                    if x == "%":
                        out.append(("(*%s)" % text, xt))
                    elif x.startswith("%."):
                        out.append(("%s->%s" % (text, x[2:]), xt))
                    else:
                        out.append((x.replace("%", "(*%s)" % text, 1), xt))
            else:
                self.paths("(*%s)" % text, t.to, depth, out, want, d + 1, through)

    def index(self, n, d):
        n = int(n)
        if n == 1 or d <= 0 or self.src.chance(40):
            return str(self.src.draw(n))
        if self.src.chance(30):
            c = [v for v in self.scope if v.counter and v.max < n and self.fuel is None]
            if c:
                return self.src.choice(c).name
        return "%s & %d" % (self.expr(d - 1).p(), n - 1)

    def fill(self, text, d):
        while "#" in text:
            i = text.index("#")
            j = text.index("]", i)
            n = text[i + 1:j]
            text = text[:i] + (self.index(n, d)) + text[j:]
        return text

    def lvalue(self, want, d, write=False):
        """A random lvalue of a wanted kind, or None."""
        s = self.src
        vs = [v for v in self.visible() if not (write and (v.const or v.counter))]
        for _ in range(4):
            if not vs:
                return None
            # Prefer recent variables.
            v = vs[-1 - s.draw(min(len(vs), 6))] if s.chance(50) else s.choice(vs)
            out = []
            self.paths(v.name, v.t, 0, out, want)
            if out:
                text, t = s.choice(out)
                return self.fill(text, d), t
        return None

    def targets(self, t, maxdepth=None):
        """(text, type, count) of objects a pointer can point to."""
        out = []
        for v in self.visible():
            if v.const or v.counter or (maxdepth is not None and v.depth > maxdepth):
                continue
            self.target_paths("&", v.name, v.t, out, t, 0)
        return out

    def target_paths(self, amp, text, vt, out, t, d):
        if d > 4:
            return
        if not isinstance(vt, (Ptr,)) and (t is None or same(vt, t)):
            out.append(("&" + text, vt, 1))
        if isinstance(vt, Arr):
            if t is None or same(vt.elem, t):
                if not isinstance(vt.n, str):
                    out.append((text, vt.elem, vt.n))
            if not isinstance(vt.n, str):
                self.target_paths(amp, "%s[%d]" % (text, vt.n - 1 if d & 1 else 0), vt.elem, out, t, d + 1)
        elif isinstance(vt, Rec):
            for f, ft, w in vt.fields:
                if w is None:
                    self.target_paths(amp, "%s.%s" % (text, f), ft, out, t, d + 1)

    def pointer(self, t, maxdepth=None, d=2, const=False):
        """An expression of pointer type Ptr t whose object lives at least
        as long as variables of the given depth; None if there is none."""
        s = self.src
        c = [(x, n) for x, _, n in self.targets(t.to, maxdepth) if n >= t.n]
        # Existing pointers of sufficient reach and lifetime.
        for v in self.visible():
            if not const and isinstance(v.t, Ptr) and same(v.t.to, t.to) and v.t.n >= t.n and \
                    (maxdepth is None or v.depth <= maxdepth):
                c.append((v.name, v.t.n))
        if not c:
            return None
        x, n = s.choice(c)
        if n > t.n and s.chance(50):
            k = s.int(1, n - t.n)
            x = s.choice(["%s + %d" % (x, k), "&%s[%d]" % (x if x[0] != "&" else "(%s)" % x, k)])
        return x

    # ---- expressions -----------------------------------------------------
    def const(self, t=None):
        s = self.src
        t = t or s.choice([INT, INT, INT, UINT, LONG, ULONG])
        v = value(s, t) if s.chance(50) else s.draw(20)
        txt = literal(s, v, t)[0]
        return E(txt, t, v, v)

    def as_type(self, e, t):
        if e.t is t:
            return e
        lo, hi = (e.lo, e.hi) if t.min <= e.lo and e.hi <= t.max else (t.min, t.max)
        if t is BOOL:
            lo, hi = 0, 1
        return E("(%s) %s" % (t.name, e.p()), t, lo, hi)

    def read(self, d):
        s = self.src
        if s.chance(25):
            c = [v for v in self.scope if v.counter]
            if c:
                v = s.choice(c)
                return E(v.name, v.t, v.t.min, v.max, True)
        lv = self.lvalue(is_int, d)
        if lv is None:
            return self.const()
        text, t = lv
        if isinstance(t, Field):
            if t.base.size == 8:
                # What these promote to is left to the implementation.
                return E("(%s) %s" % (t.base.name, text), t.base, t.lo, t.hi)
            return E(text, t.prom, t.lo, t.hi, True)
        return E(text, t, atom=True)

    def expr(self, d=None):
        """A side effect free integer expression."""
        s = self.src
        if d is None:
            d = self.o["edepth"]
        if d <= 0 or s.chance(20):
            return self.read(0) if s.chance(70) else self.const()
        k = s.weighted([(5, "bin"), (3, "cmp"), (2, "un"), (2, "cast"), (2, "cond"),
                        (2, "logic"), (3, "shift"), (2, "div"), (4, "read"),
                        (1, "comma"), (1, "sizeof"), (2, "ptr"), (2, "call"), (1, "lit"), (1, "byte")])
        if k == "bin":
            return self.binary(s.choice(["+", "-", "*", "&", "|", "^"]), self.expr(d - 1), self.expr(d - 1))
        if k == "cmp":
            a, b = self.expr(d - 1), self.expr(d - 1)
            return E("%s %s %s" % (a.p(), s.choice(["==", "!=", "<", ">", "<=", ">="]), b.p()), INT, 0, 1)
        if k == "un":
            a = self.expr(d - 1)
            op = s.choice(["!", "~", "-", "+"])
            t = promote(a.t)
            if op == "!":
                return E("!" + a.p(), INT, 0, 1)
            if op == "~":
                lo, hi = (~a.hi, ~a.lo) if t.signed else (None, None)
                return E("~" + a.p(), t, lo, hi)
            if op == "+":
                return E("+" + a.p(), t, a.lo, a.hi)
            if t.signed and a.lo == t.min:
                a = self.binary("&", a, E("0xffff", INT, 0xffff, 0xffff))
            return E("-" + a.p(), promote(a.t), -a.hi, -a.lo) if t.signed else E("-" + a.p(), t)
        if k == "cast":
            return self.as_type(self.expr(d - 1), self.int_type())
        if k == "cond":
            c, a, b = self.expr(d - 1), self.expr(d - 1), self.expr(d - 1)
            t = usual(a.t, b.t)
            lo, hi = min(a.lo, b.lo), max(a.hi, b.hi)
            if lo < t.min or hi > t.max:
                lo, hi = None, None
            return E("%s ? %s : %s" % (c.p(), a.p(), b.p()), t, lo, hi)
        if k == "logic":
            a, b = self.expr(d - 1), self.expr(d - 1)
            return E("%s %s %s" % (a.p(), s.choice(["&&", "||"]), b.p()), INT, 0, 1)
        if k == "shift":
            a = self.expr(d - 1)
            t = promote(a.t)
            if s.chance(40):
                n = s.draw(t.bits)
                cnt, nmax = str(n), n
            else:
                nmax = t.bits - 1
                b = self.expr(d - 1)
                cnt = "(%s & %d)" % (b.p(), nmax)
            if s.chance(50):
                lo, hi = (min(a.lo, 0), max(a.hi, 0)) if a.lo >= t.min and a.hi <= t.max else (None, None)
                return E("%s >> %s" % (a.p(), cnt), t, lo, hi)
            if t.signed and (a.lo < 0 or (a.hi << nmax) > t.max):
                a = self.as_type(a, UINT if t.bits == 32 else ULONG)
                t = a.t
            return E("%s << %s" % (a.p(), cnt), t, *((0, a.hi << nmax) if t.signed else ()))
        if k == "div":
            a = self.expr(d - 1)
            op = s.choice(["/", "%"])
            if s.chance(50):
                v = s.choice([1, 2, 3, 7, 8, 10, 16, 64, 100, 255, 1000, 4096, 65537])
                b = E(str(v), INT, v, v)
            else:
                b = self.expr(d - 1)
                b = E("(%s & %d) + 1" % (b.p(), s.choice([1, 7, 15, 255])), promote(b.t), 1, 256)
            t = usual(a.t, b.t)
            if t.signed:
                m = max(abs(a.lo), abs(a.hi))
                if op == "%":
                    m = min(m, max(abs(b.lo), abs(b.hi)))
                return E("%s %s %s" % (a.p(), op, b.p()), t, -m if a.lo < 0 else 0, m)
            return E("%s %s %s" % (a.p(), op, b.p()), t)
        if k == "read":
            return self.read(d)
        if k == "comma":
            a, b = self.expr(d - 1), self.expr(d - 1)
            return E("(%s, %s)" % (a.p(), b.p()), b.t, b.lo, b.hi, True)
        if k == "sizeof":
            lv = self.lvalue(lambda t: not isinstance(t, Field) and not has_vla(t), 0)
            if lv is None or s.chance(30):
                t = s.choice(self.recs) if self.recs and s.chance(50) else self.int_type()
                return E("sizeof(%s)" % t.name, ULONG, 1, 4096, True)
            return E("sizeof(%s)" % lv[0], ULONG, 1, 1 << 16, True)
        if k == "ptr":
            return self.ptr_expr(d)
        if k == "call":
            fs = [f for f in self.funcs if f.pure and isinstance(f.ret, T) and
                  (f.cost + 1) * self.mult < self.o["budget"]]
            if not fs:
                return self.read(d)
            f = s.choice(fs)
            txt = self.call(f, d - 1)
            return E(txt, f.ret, atom=True) if txt else self.read(d)
        if k == "lit":
            if not self.o["literals"]:
                return self.const()
            n = s.int(1, 8)
            return E('"%s"[%s & %d]' % ("".join(s.choice("abcxyz01") for _ in range(n)) + "qwertyui"[:8 - n],
                                        self.expr(d - 1).p(), 7), CHAR, 0, 127, True)
        if k == "byte":
            lv = self.lvalue(lambda t: isinstance(t, T) and t is not BOOL, d)
            if lv is None:
                return self.const()
            n = lv[1].size
            return E("((unsigned char *) &%s)[%s]" % (lv[0], self.index(n, d - 1)), UCHAR, atom=True)

    def binary(self, op, a, b):
        t = usual(a.t, b.t)
        # Conversion to the common type can change the value.
        al, ah = (a.lo, a.hi) if t.min <= a.lo and a.hi <= t.max else (t.min, t.max)
        bl, bh = (b.lo, b.hi) if t.min <= b.lo and b.hi <= t.max else (t.min, t.max)
        if op in ("+", "-", "*"):
            if op == "+":
                lo, hi = al + bl, ah + bh
            elif op == "-":
                lo, hi = al - bh, ah - bl
            else:
                c = [al * bl, al * bh, ah * bl, ah * bh]
                lo, hi = min(c), max(c)
            if not t.signed:
                if lo < 0 or hi > t.max:
                    lo, hi = None, None
                return E("%s %s %s" % (a.p(), op, b.p()), t, lo, hi)
            if t.min <= lo and hi <= t.max:
                return E("%s %s %s" % (a.p(), op, b.p()), t, lo, hi)
            k = self.src.draw(3)
            if k == 0:
                u = {4: UINT, 8: ULONG}[t.size]
                e = E("(%s) %s %s (%s) %s" % (u.name, a.p(), op, u.name, b.p()), u)
                return self.as_type(e, t) if self.src.chance(50) else e
            if k == 1:
                m = {"*": 0x7fff}.get(op, 0xffffff)
                a = E("%s & 0x%x" % (a.p(), m), promote(a.t), 0, m)
                b = E("%s & 0x%x" % (b.p(), m), promote(b.t), 0, m)
            else:
                st = self.src.choice([SHORT, SCHAR, UCHAR])
                a, b = self.as_type(a, st), self.as_type(b, st)
            return self.binary(op, a, b)
        lo = hi = None
        if op == "&":
            if al >= 0 or bl >= 0:
                lo, hi = 0, min(x for x, y in ((ah, al), (bh, bl)) if y >= 0)
        elif al >= 0 and bl >= 0:
            lo, hi = 0, min((1 << max(ah, bh).bit_length()) - 1, t.max)
        return E("%s %s %s" % (a.p(), op, b.p()), t, lo, hi)

    def ptr_expr(self, d):
        s = self.src
        ps = [v for v in self.visible() if isinstance(v.t, Ptr)]
        arrs = [v for v in self.visible() if isinstance(v.t, Arr) and not isinstance(v.t.n, str)]
        if ps and s.chance(40):
            p = s.choice(ps)
            q = self.pointer(p.t)
            if q is not None:
                return E("%s %s %s" % (p.name, s.choice(["==", "!="]), q), INT, 0, 1)
        if not arrs:
            return self.read(d)
        a = s.choice(arrs)
        i, j = self.index(a.t.n, d - 1), self.index(a.t.n, d - 1)
        if s.chance(50):
            return E("&%s[%s] - &%s[%s]" % (a.name, i, a.name, j), LONG, -a.t.n, a.t.n)
        return E("%s + (%s) %s &%s[%s]" % (a.name, i, s.choice(["<", ">", "<=", ">=", "==", "!="]), a.name, j), INT, 0, 1)

    def call(self, f, d):
        """Text of a call with pure arguments, or None."""
        args = []
        for pt in f.params:
            a = self.value_of(pt, d)
            if a is None:
                return None
            args.append(a)
        self.cost += (f.cost + 1) * self.mult
        name = f.name
        if self.src.chance(10):
            name = "(*%s)" % name
        self.tags.add("call")
        return "%s(%s)" % (name, ", ".join(args))

    def value_of(self, t, d, maxdepth=None):
        """Text of a pure expression assignable to type t."""
        s = self.src
        if isinstance(t, T):
            e = self.expr(d)
            return e.s if e.atom or s.chance(60) and "," not in e.s else e.p()
        if isinstance(t, Ptr):
            return self.pointer(t, maxdepth, d)
        if isinstance(t, Rec):
            lv = self.lvalue(lambda x: x is t, d)
            if s.chance(25):
                fs = [f for f in self.funcs if f.pure and f.ret is t and (f.cost + 1) * self.mult < self.o["budget"]]
                if fs:
                    c = self.call(s.choice(fs), d - 1)
                    if c:
                        return c
            if lv is not None and s.chance(75):
                if s.chance(15):
                    lv2 = self.lvalue(lambda x: x is t, d) or lv
                    return "(%s ? %s : %s)" % (self.expr(1).p(), lv[0], lv2[0])
                return lv[0]
            if not self.o["literals"] or any(isinstance(ft, Ptr) for ft in flat(t)):
                return lv[0] if lv else None
            self.tags.add("compound literal")
            return "(%s) %s" % (t.name, self.initializer(t, d))
        return None

    def initializer(self, t, d, const=False):
        s = self.src
        if isinstance(t, T):
            return self.const(t if t.rank >= 3 else INT).s if const else self.expr(d).p()
        if isinstance(t, Ptr):
            x = self.pointer(t, 0 if const else self.depth, const=const)
            if x is None:
                raise NoTarget
            return x
        if isinstance(t, Arr):
            n = t.n if s.chance(70) or scalar_ptr(t.elem) else s.int(1, t.n)
            return "{%s}" % ", ".join(self.initializer(t.elem, d - 1, const) for _ in range(n))
        if t.union:
            return "{%s}" % self.initializer(t.fields[0][1], d, const)
        items = []
        desig = s.chance(20)
        fs = list(t.fields)
        if desig:
            fs = s.shuffle(fs)
        for f, ft, w in fs:
            x = self.initializer(ft, d - 1, const)
            items.append(".%s = %s" % (f, x) if desig else x)
        return "{%s}" % ", ".join(items)

    # ---- observation -----------------------------------------------------
    def observe(self, text):
        self.rid += 1
        if self.mult <= self.o["trace"]:
            return "oi(%d, %s);" % (self.rid, text)
        return "%sh = %sh * 31 + (%s);" % (self.x, self.x, text)

    def hoard(self):
        """Statements that report every scalar of the visible objects."""
        out = []
        for v in self.visible():
            if isinstance(v.t, Arr) and isinstance(v.t.n, str):
                continue
            paths = []
            self.paths(v.name, v.t, 0, paths, is_int, through=False)
            for p, t in paths[:6]:
                p = self.fill(p, 0)
                out.append(self.observe(p))
        return out

    # ---- statements ------------------------------------------------------
    def block(self, d, n=None):
        """Statements of a block with its own scope."""
        s = self.src
        mark = len(self.scope)
        self.depth += 1
        out = []
        for _ in range(n if n is not None else s.int(1, 3)):
            out += self.stmt(d)
        self.depth -= 1
        if self.hoist is None:
            del self.scope[mark:]
        return out

    def new_var(self, t=None, counter=False, maxv=0):
        """Declares a variable in the current block (or hoisted to the top of
        the function); returns (Var, declaration lines)."""
        s = self.src
        t = t or self.any_type()
        v = Var(self.name("v"), t, self.depth, counter=counter)
        v.max = maxv
        lines = []
        if counter:
            txt = decl(t, v.name)
            if self.hoist is not None:
                self.hoist.append(txt + " = 0;")
            else:
                lines.append(txt + ";")
        elif self.hoist is not None:
            v.depth = 1
            save, self.scope = self.scope, [x for x in self.scope if x.depth <= 1]
            try:
                self.hoist.append("%s = %s;" % (decl(t, v.name), self.initializer(t, 0, True)))
            except NoTarget:
                self.scope = save
                return None, []
            self.scope = save
        elif self.o["statics"] and s.chance(10):
            try:
                lines.append("static %s = %s;" % (decl(t, v.name), self.initializer(t, 0, True)))
            except NoTarget:
                return None, []
            v.depth = 0
            self.tags.add("static local")
        else:
            lv = self.value_of(t, 2, self.depth) if s.chance(50) and not isinstance(t, Arr) else None
            try:
                lines.append("%s = %s;" % (decl(t, v.name), lv or self.initializer(t, 2)))
            except NoTarget:
                return None, []
        self.scope.append(v)
        return v, lines

    def counter(self, n, t=None):
        v, lines = self.new_var(t or self.src.choice([INT, INT, UINT, LONG, UCHAR, SHORT]), True, n)
        return v, lines

    def effect(self, d):
        """An expression with side effects whose operands do not interfere."""
        s = self.src
        lv = self.lvalue(is_int, d, True)
        if lv is None:
            return None
        x, t = lv
        k = s.draw(10)
        ft = t.base if isinstance(t, Field) else t
        if k < 4:
            return "%s = %s" % (x, self.expr(d).p())
        if k < 6:
            safe = not ft.signed or ft.rank < 3 or isinstance(t, Field) and t.width < 31
            if safe and not (isinstance(t, Field) and t.width >= 31 and ft.signed):
                return s.choice(["%s++", "%s--", "++%s", "--%s"]) % x
            return "%s ^= %s" % (x, self.expr(d).p())
        if k < 9:
            op = s.choice(["&", "|", "^"])
            e = self.expr(d)
            if not ft.signed and ft is not BOOL and s.chance(60):
                op = s.choice(["+", "-", "*", "<<", ">>"])
                if (t.prom if isinstance(t, Field) else promote(ft)).signed or \
                        isinstance(t, Field) and t.width != ft.bits:
                    op = s.choice(["+", "-"])
                    e = E("%s & 0xff" % e.p(), promote(e.t), 0, 255)
                if op in ("<<", ">>"):
                    e = E("%s & %d" % (e.p(), ft.bits - 1), promote(e.t))
            elif ft.rank < 3 and s.chance(50):
                op = s.choice(["+", "-"])
                e = E("%s & 0xffff" % e.p(), promote(e.t), 0, 0xffff)
            return "%s %s= %s" % (x, op, e.p())
        fs = [f for f in self.funcs if isinstance(f.ret, T) and (f.cost + 1) * self.mult < self.o["budget"]]
        if fs:
            f = s.choice(fs)
            c = self.call(f, d - 1)
            if c:
                # The call may modify what the left side depends on: only
                # plain variables that are not global on the left.
                loc = [v for v in self.scope if isinstance(v.t, T) and not v.counter and not v.const and v.depth > 0]
                if loc and s.chance(60):
                    return "%s = %s" % (s.choice(loc).name, c)
                return c
        return "%s = %s" % (x, self.expr(d).p())

    def condition(self, d):
        """A controlling expression, possibly with sequenced side effects."""
        s = self.src
        k = s.draw(10)
        if k < 6:
            return self.expr(d).s
        leaf = lambda: "(%s)" % (self.effect(1) or self.expr(1).s) if s.chance(60) else self.expr(d - 1).p()
        txt = leaf()
        for _ in range(s.int(1, 3)):
            op = s.choice(["&&", "||", ",", "?"])
            if op == "?":
                txt = "(%s ? %s : %s)" % (txt, leaf_value(leaf()), leaf_value(leaf()))
            else:
                txt = "(%s %s %s)" % (txt, op, leaf())
        self.tags.add("sequenced effects")
        return txt

    def stmt(self, d):
        s = self.src
        o = self.o
        self.nstmt += 1
        self.cost += self.mult
        m, c = o["memory"], o["control"]
        nest = d > 0 and self.nstmt < 60
        w = [(6, "effect"), (3, "observe"), (m, "var"), (m, "copy"), (m, "ptr")]
        if nest:
            w += [(c * 2, "if"), (c, "for"), (c, "while"), (c, "do"), (c, "block")]
            if o["switch"]:
                w.append((c * 2, "switch"))
            if o["pointers"]:
                w.append((m, "walk"))
            if o["vla"] and self.hoist is None:
                w.append((2, "vla"))
        if self.breakable:
            w.append((2, "break"))
        if self.continuable:
            w.append((2, "continue"))
        if self.hoist is not None:
            w += [(c * 2, "goto"), (c, "label")]
        if self.infunc is not None and self.depth > 1:
            w.append((1, "return"))
        w += [(2, "mem"), (2, "callstmt"), (1, "seq"), (1, "empty")]
        k = s.weighted([x for x in w if x[0] > 0])
        self.tags.add("stmt:" + k)
        if k == "effect":
            e = self.effect(o["edepth"] - 1)
            return [e + ";"] if e else []
        if k == "observe":
            return [self.observe(self.expr().s)]
        if k == "seq":
            return [self.condition(2) + ";"]
        if k == "empty":
            return [s.choice([";", "{ }", "(void) 0;"])]
        if k == "var":
            if self.hoist is None and self.depth > 0:
                return self.new_var()[1]
            self.new_var()
            return []
        if k == "copy":
            lv = self.lvalue(lambda t: isinstance(t, Rec), 2, True)
            if lv is None:
                return []
            x = self.value_of(lv[1], 2)
            if x is None or x == lv[0]:
                return []
            self.tags.add("struct copy")
            if any(isinstance(t, Ptr) for t in flat(lv[1])) and self.hoist is None:
                # Lifetimes of pointer members: only copy between variables
                # of the same depth would be safe in general.
                return []
            if s.chance(20) and not isinstance(lv[1].fields[-1][1], (Arr, Rec, Ptr)):
                f, ft, bw = lv[1].fields[-1]
                return [self.observe("(%s = %s).%s" % (lv[0], x, f))]
            return ["%s = %s;" % (lv[0], x)]
        if k == "ptr":
            vs = [v for v in self.visible() if isinstance(v.t, Ptr) and not v.const and not v.counter]
            if not vs:
                if not o["pointers"]:
                    return []
                t = self.ptr_type()
                v, lines = self.new_var(t)
                return lines
            v = s.choice(vs)
            x = self.pointer(v.t, v.depth)
            if x is None:
                return []
            self.tags.add("pointer")
            return ["%s = %s;" % (v.name, x)]
        if k == "mem":
            lv = self.lvalue(lambda t: isinstance(t, Arr) and not isinstance(t.n, str) and isinstance(t.elem, T) and t.elem is not BOOL, 1, True)
            if lv is None:
                return []
            x, t = lv
            if s.chance(50):
                y = self.lvalue(lambda u: same(u, t), 1)
                if y is not None and y[0] != x:
                    # Different paths may still name the same array.
                    self.tags.add("memcpy")
                    return ["if (&%s != &%s) memcpy(%s, %s, sizeof(%s));" % (x, y[0], x, y[0], x)]
            return ["memset(%s, %s, sizeof(%s));" % (x, self.expr(1).p(), x)]
        if k == "callstmt":
            fs = [f for f in self.funcs if (f.cost + 1) * self.mult < o["budget"]]
            if not fs:
                return []
            f = s.choice(fs)
            c = self.call(f, 2)
            if c is None:
                return []
            if isinstance(f.ret, T) and s.chance(60):
                return [self.observe(c)]
            if isinstance(f.ret, Rec) and s.chance(60):
                fl = [x for x in f.ret.fields if isinstance(x[1], T)]
                if fl:
                    return [self.observe("%s.%s" % (c, s.choice(fl)[0]))]
            return [("(void) " if s.chance(20) else "") + c + ";"]
        if k == "if":
            out = ["if (%s) {" % self.condition(2)] + ind(self.block(d - 1))
            n = s.draw(3)
            for i in range(n):
                if s.chance(60):
                    out += ["} else if (%s) {" % self.condition(1)] + ind(self.block(d - 1))
            if s.chance(60):
                out += ["} else {"] + ind(self.block(d - 1))
            return out + ["}"]
        if k == "block":
            return ["{"] + ind(self.block(d - 1)) + ["}"]
        if k in ("for", "while", "do"):
            return self.loop(k, d)
        if k == "walk":
            return self.walk(d)
        if k == "switch":
            return self.switch(d)
        if k == "vla":
            return self.vla(d)
        if k == "break":
            return ["if (%s) break;" % self.condition(1)]
        if k == "continue":
            return ["if (%s) continue;" % self.condition(1)]
        if k == "goto":
            self.tags.add("goto")
            if self.labels and s.chance(60):
                l = s.choice(self.labels)
            else:
                l = self.new_label()
            return ["if (%s-- > 0 && %s) goto %s;" % (self.fuel, self.expr(1).p(), l)]
        if k == "label":
            free = [l for l in self.labels if l not in self.placed]
            l = s.choice(free) if free and s.chance(80) else self.new_label()
            self.placed.add(l)
            return [l + ":" + s.choice(["", " ;"])] + (self.stmt_nodecl())
        if k == "return":
            try:
                return ["if (%s) %s" % (self.condition(1), self.ret())]
            except NoTarget:
                return []

    def stmt_nodecl(self):
        e = self.effect(1)
        return [e + ";" if e else ";"]

    def new_label(self):
        l = "L%d" % len(self.labels)
        self.labels.append(l)
        return l

    def ret(self):
        t = self.infunc
        if t is None:
            return "return;"
        x = self.value_of(t, 2, 0)
        if x is None:
            raise NoTarget
        return "return %s;" % x

    def loop(self, k, d):
        s = self.src
        mark = len(self.scope)
        self.depth += 1
        n = s.choice([3, 2, 1, 4, 0, 5, 8, 17])
        lim = 1500
        if self.mult * max(n, 1) > 400:
            n = 2
        if self.mult > 400:
            n = 1
        ct = s.choice([INT, INT, UINT, LONG, UCHAR, SHORT])
        v, lines = self.counter(n, ct)
        down = ct.signed and s.chance(30)
        m0 = self.mult
        self.mult *= max(n, 1)
        if self.hoist is not None:
            self.mult *= 2
        b0, c0 = self.breakable, self.continuable
        self.breakable = self.continuable = 1
        extra = " && " + self.expr(1).p() if s.chance(20) else ""
        self.tags.add("loop:" + k)
        if k == "for":
            head = s.draw(4)
            body = ind(self.block(d - 1))
            if head == 1 and self.hoist is None:
                lines = []
                init = "%s = 0" % decl(ct, v.name)
            else:
                init = "%s = 0" % v.name
            step = s.choice(["%s++", "++%s", "%s += 1"]) % v.name
            if down:
                init = init.replace("= 0", "= %d" % n)
                out = ["for (%s; %s > 0%s; %s) {" % (init, v.name, extra, s.choice(["%s--", "--%s", "%s -= 1"]) % v.name)] + body + ["}"]
            elif head == 2:
                out = ["%s;" % init, "for (; %s < %d%s; ) {" % (v.name, n, extra), "    %s;" % step] + body + ["}"]
            elif head == 3:
                out = ["%s;" % init, "for (;; %s) {" % step, "    if (!(%s < %d%s)) break;" % (v.name, n, extra)] + body + ["}"]
            else:
                out = ["for (%s; %s < %d%s; %s) {" % (init, v.name, n, extra, step)] + body + ["}"]
        elif k == "while":
            body = ind(self.block(d - 1))
            if s.chance(50):
                out = ["%s = 0;" % v.name, "while (%s++ < %d%s) {" % (v.name, n, extra)] + body + ["}"]
            else:
                out = ["%s = 0;" % v.name, "while (1) {", "    if (++%s > %d) break;" % (v.name, n)] + body + ["}"]
        else:
            body = ind(self.block(d - 1))
            out = ["%s = 0;" % v.name, "do {"] + body + ["} while (++%s < %d%s);" % (v.name, n, extra)]
        self.breakable, self.continuable = b0, c0
        self.mult = m0
        self.depth -= 1
        if self.hoist is None:
            del self.scope[mark:]
            if lines:
                out = ["{"] + ind(lines + out) + ["}"]
        return out

    def walk(self, d):
        """A pointer running over an array."""
        s = self.src
        arrs = []
        for v in self.visible():
            if isinstance(v.t, Arr) and not isinstance(v.t.n, str) and not v.const:
                arrs.append(v)
        if not arrs or self.mult > 300:
            return []
        a = s.choice(arrs)
        et, n = a.t.elem, a.t.n
        p = Var(self.name("p"), Ptr(et, 1), self.depth + 1, const=True)
        m0 = self.mult
        self.mult *= n
        self.depth += 1
        mark = len(self.scope)
        down = s.chance(30)
        pre = "%s" % decl(Ptr(et, 1), p.name)
        if self.hoist is not None:
            # Initialized before any jump can reach the body.
            self.hoist.append("%s = %s;" % (pre, a.name))
            if down:
                down = False
        self.scope.append(p)
        b0, c0 = self.breakable, self.continuable
        self.breakable = self.continuable = 1
        if self.hoist is not None:
            # A jump into the body could leave p past the end: no labels here.
            h, self.hoist = self.hoist, None
            body = self.block(d - 1, 2)
            self.hoist = h
        else:
            body = self.block(d - 1, 2)
        self.breakable, self.continuable = b0, c0
        self.depth -= 1
        self.mult = m0
        del self.scope[mark:]
        self.tags.add("pointer walk")
        if down:
            out = ["for (%s = %s + %d; %s > %s; ) {" % (p.name, a.name, n, p.name, a.name), "    --%s;" % p.name] + ind(body) + ["}"]
        else:
            out = ["for (%s = %s; %s %s %s + %d; %s) {" % (
                p.name, a.name, p.name, s.choice(["<", "!="]), a.name, n,
                s.choice(["++%s", "%s++", "%s += 1"]) % p.name)] + ind(body) + ["}"]
        if self.hoist is None:
            out = ["{", "    %s;" % pre] + ind(out) + ["}"]
        return out

    def switch(self, d):
        s = self.src
        e = self.expr(2)
        t = promote(e.t)
        sel = e.s
        dense = s.chance(60)
        if dense:
            m = s.choice([3, 7, 15])
            sel = "%s & %d" % (e.p(), m)
        n = s.int(1, 7) if s.chance(85) else s.draw(2)
        if s.chance(self.o["big"]):
            n = s.int(20, 120)
        vals = []
        for _ in range(n):
            v = s.draw((m if dense else 40) + 1) if s.chance(70) else value(s, t)
            v = conv(v, INT if t.size == 4 and t.signed else t)
            if v not in vals:
                vals.append(v)
        b0 = self.breakable
        self.breakable = 1
        out = ["switch (%s) {" % sel]
        if s.chance(10):
            out.append("    ;")
        dpos = s.draw(len(vals) + 1) if s.chance(60) else -1
        duff = self.hoist is not None and s.chance(25)
        if duff:
            self.tags.add("duff")
            v, _ = self.counter(4, INT)
            out.append("    do {")
        for i, x in enumerate(vals):
            if i == dpos:
                out.append("    default:")
                if s.chance(70):
                    out += ind(self.case_body(d - 1), 2)
            out.append("    case %s:" % literal(s, x, t)[0])
            if s.chance(75):
                out += ind(self.case_body(d - 1, n > 10), 2)
        if dpos == len(vals):
            out += ["    default:"] + ind(self.case_body(d - 1), 2)
        if duff:
            out.append("        ;")
            out.append("    } while (++%s < 3);" % v.name)
        else:
            out.append("        ;")
        self.breakable = b0
        return out + ["}"]

    def case_body(self, d, small=False):
        if small:
            out = [self.observe(str(self.src.draw(1000)))] 
        else:
            out = ["{"] + ind(self.block(d, self.src.int(1, 2))) + ["}"]
        if self.src.chance(55):
            out.append("break;")
        return out

    def vla(self, d):
        s = self.src
        self.depth += 1
        mark = len(self.scope)
        nv = self.name("n")
        m = s.choice([7, 3, 15])
        t = self.scalar() if s.chance(70) or not self.recs else s.choice(self.recs)
        if any(isinstance(x, Ptr) for x in flat(t)):
            t = INT
        v = self.name("v")
        i = Var(self.name("i"), INT, self.depth, counter=True)
        i.max = m + 1
        lines = ["int %s = (%s & %d) + 1, %s;" % (nv, self.expr(1).p(), m, i.name)]
        dims = 2 if s.chance(25) else 1
        self.tags.add("vla")
        if dims == 2:
            lines.append("%s %s[%s][3];" % (t.name, v, nv))
            elem = "%s[%s][%s %% 3]" % (v, i.name, i.name)
            lines.append("memset(%s, %d, sizeof(%s));" % (v, s.draw(3), v))
        else:
            lines.append("%s %s[%s];" % (t.name, v, nv))
            elem = "%s[%s]" % (v, i.name)
        m0 = self.mult
        self.mult *= m + 1
        # Only the loop below may use the element; it is not a variable.
        lines.append("for (%s = 0; %s < %s; %s++) {" % (i.name, i.name, nv, i.name))
        if isinstance(t, T):
            lines.append("    %s = %s;" % (elem, self.expr(2).s))
        else:
            x = self.value_of(t, 1)
            if x is None:
                self.mult = m0
                self.depth -= 1
                return []
            lines.append("    %s = %s;" % (elem, x))
        lines.append("}")
        self.mult = m0
        lines.append(self.observe("sizeof(%s)" % v))
        if s.chance(60):
            lines += self.block(d - 1, 2)
        self.mult *= m + 1
        lines.append("for (%s = %s - 1; %s >= 0; %s--) {" % (i.name, nv, i.name, i.name))
        if isinstance(t, T):
            lines.append("    " + self.observe(elem))
        else:
            f = [x for x in t.fields if isinstance(x[1], T)]
            if f:
                lines.append("    " + self.observe("%s.%s" % (elem, f[0][0])))
        lines.append("}")
        self.mult = m0
        self.depth -= 1
        del self.scope[mark:]
        return ["{"] + ind(lines) + ["}"]

    # ---- functions -------------------------------------------------------
    def function(self, last=False):
        s = self.src
        self.depth = 1
        self.mult = 1
        self.cost = 0
        self.nstmt = 0
        self.labels = []
        self.placed = set()
        name = self.name("f")
        pure = s.chance(30) and not last
        ret = None
        if not last:
            k = s.draw(10)
            if k < 6 or pure and k < 8:
                ret = self.int_type()
            elif k < 8 and self.recs:
                r = s.choice(self.recs)
                if not any(isinstance(t, Ptr) for t in flat(r)):
                    ret = r
        if pure and ret is None:
            ret = INT
        params = []
        self.scope = []
        for i in range(0 if last else s.int(0, 5) if not s.chance(10) else s.int(6, 10)):
            t = self.any_type(1)
            if isinstance(t, Arr):
                t = Ptr(t.elem, t.n) if self.o["pointers"] else self.scalar()
            if isinstance(t, Rec) and any(isinstance(x, Ptr) for x in flat(t)):
                t = Ptr(t, 1) if self.o["pointers"] else self.scalar()
            if isinstance(t, Ptr) and (pure or has_vla(t.to)):
                t = self.scalar()
            params.append(t)
            self.scope.append(Var("p%d" % i, t, 1))
        self.infunc = ret
        body = []
        if pure:
            body = ["return %s;" % self.value_of(ret, 3)]
            gl = [g.name for g in self.globals if not g.const]
            # Reading globals is fine: pure functions are only called where
            # nothing in the same expression modifies them unsequenced.
            self.hoist = None
        else:
            hoisted = self.o["goto"] and s.chance(30)
            self.hoist = [] if hoisted else None
            self.fuel = None
            if hoisted:
                self.fuel = "fuel"
            lo, hi = self.o["stmts"]
            for _ in range(2):
                body += self.new_var()[1]
            try:
                for _ in range(s.int(lo, hi)):
                    body += self.stmt(self.o["depth"])
                    if len(body) > 150:
                        break
            except NoTarget:
                pass
            for l in self.labels:
                if l not in self.placed:
                    body.append(l + ":")
                    body += self.stmt_nodecl()
            if hoisted:
                body = ["int fuel = %d;" % s.int(2, 9)] + self.hoist + body
                self.cost *= 8
                self.hoist = None
            if last:
                body += self.hoard()
            else:
                if s.chance(50):
                    body += self.hoard()[:6]
                try:
                    r = self.ret()
                except NoTarget:
                    r = "return 0;"
                if ret is not None:
                    body.append(r)
        f = Fn(name, ret, params, self.cost + 2, pure)
        self.infunc = None
        head = "%s%s %s(%s)" % (
            "static " if s.chance(50) else "", ret.name if ret else "void", name,
            ", ".join(decl(t, "p%d" % i) for i, t in enumerate(params)) or "void")
        if s.chance(20):
            self.ftext.insert(0, head.replace("static ", "static ") + ";\n")
        self.ftext.append(head + "\n{\n" + "".join("    %s\n" % x for x in body) + "}\n")
        if not last:
            self.funcs.append(f)
        self.scope = []
        return f

    def recursive(self):
        """A function that calls itself, with values live across the call."""
        s = self.src
        name = self.name("f")
        t = self.int_type()
        self.scope = [Var("p0", t, 1), Var("x", LONG, 1)]
        self.depth = 1
        self.mult = 8
        self.hoist = self.fuel = None
        e1, e2, e3 = self.expr(2), self.expr(2), self.expr(2)
        n = s.int(1, 6)
        kind = s.draw(3)
        if kind == 0:
            body = "if (n <= 0) return %s;\n    x = %s;\n    return (unsigned long) %s(n - 1, %s, x) * 3 + x + n;" % (e1.p(), e2.s, name, e3.p())
        elif kind == 1:
            body = "if (n <= 0) return %s;\n    x = (unsigned long) %s(n - 1, %s, x) ^ (unsigned long) %s(n - 2, %s, n);\n    return x;" % (
                e1.p(), name, e2.p(), name, e3.p())
        else:
            body = "unsigned long y = 0;\n    while (n > 0) { y = y * 5 + %s(--n - 1, %s, x); x = %s; }\n    return y + x;" % (name, e2.p(), e3.p())
        self.ftext.append("static long %s(int n, %s, long x)\n{\n    %s\n}\n" % (name, decl(t, "p0"), body))
        self.scope = []
        self.tags.add("recursion")
        # Used through a wrapper with bounded depth.
        w = self.name("f")
        self.ftext.append("static long %s(%s)\n{\n    return %s(%d, p0, 7);\n}\n" % (w, decl(t, "p0"), name, n))
        self.funcs.append(Fn(w, LONG, [t], 150 * 3, False))

    def fnptr(self):
        """A table of functions of one signature, called with an index."""
        s = self.src
        k = s.choice([2, 4])
        rt, pt = self.int_type(), [self.scalar() for _ in range(s.int(1, 3))]
        names = []
        for _ in range(k):
            self.scope = [Var("p%d" % i, t, 1) for i, t in enumerate(pt)]
            self.mult = 4
            nm = self.name("f")
            names.append(nm)
            self.ftext.append("static %s %s(%s) { return %s; }\n" % (
                rt.name, nm, ", ".join(decl(t, "p%d" % i) for i, t in enumerate(pt)), self.expr(2).s))
        self.scope = []
        tab = self.name("g")
        self.ftext.append("%s%s (*%s[%d])(%s) = {%s};\n" % (
            s.choice(["static ", "", "const ", "static "]).replace("const ", ""), rt.name, tab, k,
            ", ".join(decl(t, "").strip() for t in pt), ", ".join(s.choice(["", "&"]) + n for n in names)))
        w = self.name("f")
        self.ftext.append("static %s %s(int i, %s)\n{\n    return %s(%s);\n}\n" % (
            rt.name, w, ", ".join(decl(t, "p%d" % i) for i, t in enumerate(pt)),
            s.choice(["%s[i & %d]", "(*%s[i & %d])", "(**%s[i & %d])"]) % (tab, k - 1),
            ", ".join("p%d" % i for i in range(len(pt)))))
        self.funcs.append(Fn(w, rt, [INT] + pt, 10, True))
        self.tags.add("function pointer")

    def build(self):
        s = self.src
        o = self.o
        if o["records"]:
            for _ in range(s.int(0, 3)):
                self.make_record()
        self.gtext.append("static unsigned long %sh;" % self.x)
        for _ in range(s.int(*o["nglob"])):
            t = self.any_type()
            v = Var(self.name("g"), t, 0)
            v.max = 0
            try:
                init = " = " + self.initializer(t, 0, True)
                if s.chance(25) and not scalar_ptr(t):
                    init = ""
            except NoTarget:
                continue
            self.gtext.append("%s%s%s;" % (s.choice(["static ", "", "static "]), decl(t, v.name), init))
            self.globals.append(v)
        for _ in range(s.int(*o["nfunc"])):
            k = s.draw(10)
            if k == 9 and o["fnptr"]:
                self.fnptr()
            elif k == 8 and o["recursion"]:
                self.recursive()
            else:
                self.function()
        f = self.function(last=True)
        self.entry = "%s();" % f.name
        return self

    def text(self):
        return "\n".join(self.types + self.gtext) + "\n" + "".join(self.ftext)


class NoTarget(Exception):
    pass


class Field:
    """Type of a bit-field lvalue."""
    def __init__(self, base, width):
        self.base, self.width = base, width
        self.prom = promote(base, width)
        self.lo = -(1 << (width - 1)) if base.signed else 0
        self.hi = (1 << (width - (1 if base.signed else 0))) - 1


def field_type(t, w):
    return Field(t, w)


def is_int(t):
    return isinstance(t, T)


def leaf_value(x):
    return x


def flat(t):
    """Types of the scalar parts."""
    if isinstance(t, Arr):
        return flat(t.elem)
    if isinstance(t, Rec):
        return [x for _, ft, _ in t.fields for x in flat(ft)]
    return [t]


def scalar_ptr(t):
    return any(isinstance(x, Ptr) for x in flat(t))


def has_vla(t):
    return isinstance(t, Arr) and (isinstance(t.n, str) or has_vla(t.elem))


def ind(lines, k=1):
    return ["    " * k + x for x in lines]
