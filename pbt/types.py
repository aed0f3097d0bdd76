"""Random object types: scalars, pointers, arrays, structs, unions, bit-fields,
with their layout, and helpers to walk their scalar leaves."""
from . import cmodel as M


class Sc:
    """Scalar type. kind: 'i' integer, 'f' floating, 'p' pointer."""
    def __init__(self, name, size, kind, it=None):
        self.name, self.size, self.align, self.kind, self.it = name, size, size, kind, it


INTS = {t.name: Sc(t.name, t.size, "i", t) for t in M.ALL}
FLOAT, DOUBLE, LDOUBLE = Sc("float", 4, "f"), Sc("double", 8, "f"), Sc("long double", 16, "f")
INT, LONG, CHAR, UCHAR, ULONG = (INTS[t.name] for t in (M.INT, M.LONG, M.CHAR, M.UCHAR, M.ULONG))
SHORT, UINT, BOOL, USHORT, SCHAR = (INTS[t.name] for t in (M.SHORT, M.UINT, M.BOOL, M.USHORT, M.SCHAR))


class Pt:
    kind, size, align = "p", 8, 8

    def __init__(self, to):
        self.to = to


class Fun:
    def __init__(self, ret, params, varargs=False):
        self.ret, self.params, self.varargs = ret, params, varargs


class Void:
    name = "void"


VOID = Void()


class Arr:
    kind = "a"

    def __init__(self, elem, n):
        self.elem, self.n = elem, n
        self.size = (n or 0) * elem.size
        self.align = elem.align


class Fld:
    """Member: name, type, bit-field width or None; offset and bit offset."""
    def __init__(self, name, t, width=None):
        self.name, self.t, self.width = name, t, width
        self.off = self.bit = 0


class Rec:
    kind = "r"

    def __init__(self, tag, fields, union=False):
        self.tag, self.fields, self.union = tag, fields, union
        self.name = ("union " if union else "struct ") + tag
        self.layout()

    def layout(self):
        pos = 0                # in bits
        self.align = 1
        size = 0
        for f in self.fields:
            if self.union:
                pos = 0
            if f.width is not None:
                u = f.t.size * 8
                if f.width == 0:
                    pos = -(-pos // u) * u
                    continue
                if pos // u != (pos + f.width - 1) // u:
                    pos = -(-pos // u) * u
                f.off = pos // u * f.t.size
                f.bit = pos - f.off * 8
                pos += f.width
                if f.name:
                    self.align = max(self.align, f.t.align)
            else:
                a = f.t.align * 8
                pos = -(-pos // a) * a
                f.off = pos // 8
                pos += f.t.size * 8
                self.align = max(self.align, f.t.align)
            size = max(size, -(-pos // 8))
        self.end = size
        self.size = -(-size // self.align) * self.align

    def define(self):
        out = []
        for f in self.fields:
            d = decl(f.t, f.name)
            if f.width is not None:
                d = "%s %s: %d" % (f.t.name, f.name, f.width)
            out.append(d + ";")
        return "%s { %s };" % (self.name, " ".join(out))


def decl(t, name="", quals=""):
    """Declaration of name with type t (an abstract declarator if empty)."""
    if isinstance(t, (Sc, Void, Rec)):
        s = t.name + (" " + name if name else "")
        return quals + s
    if isinstance(t, Arr):
        return decl(t.elem, "%s[%s]" % (name, "" if t.n is None else t.n), quals)
    if isinstance(t, Fun):
        ps = ", ".join(decl(p) for p in t.params) or "void"
        if t.varargs:
            ps += ", ..."
        return decl(t.ret, "%s(%s)" % (name, ps), quals)
    if isinstance(t.to, (Arr, Fun)):
        return decl(t.to, "(*%s)" % name, quals)
    return decl(t.to, "*" + name, quals)


def leaves(t, path="", limit=None, pick=None):
    """(path, scalar type, width, base offset) of each scalar in an object.
    Of a union, member pick(union) (default: the first)."""
    if isinstance(t, Arr):
        for i in range(t.n):
            for x in leaves(t.elem, "%s[%d]" % (path, i), limit, pick):
                yield x
    elif isinstance(t, Rec):
        fs = [f for f in t.fields if f.name]
        if t.union:
            fs = [fs[pick(t) if pick else 0]]
        for f in fs:
            if f.width is not None:
                yield path + "." + f.name, f.t, f.width
            else:
                for x in leaves(f.t, path + "." + f.name, limit, pick):
                    yield x
    else:
        yield path, t, None


class TypeGen:
    """Generates types; definitions of records accumulate in .defs."""

    def __init__(self, src, prefix="@", floats=True, ldouble=True, pointers=False, bitfields=True,
                 unions=True, maxsize=80, bool=True, flat=False, wild=False, long_bf=True, zero_bf=True,
                 unnamed=True):
        self.src, self.x = src, prefix
        self.floats, self.ldouble, self.pointers = floats, ldouble, pointers
        self.bitfields, self.unions, self.maxsize, self.bool = bitfields, unions, maxsize, bool
        self.wild = wild
        self.long_bf, self.zero_bf, self.unnamed = long_bf, zero_bf, unnamed
        self.n = 0
        self.recs = []
        self.defs = []
        self.tags = set()

    def scalar(self):
        s = self.src
        k = s.draw(100)
        if k < 25:
            return INT
        if self.floats and k >= 78:
            self.tags.add("float")
            if self.ldouble and k >= 95:
                self.tags.add("ldouble")
                return LDOUBLE
            return FLOAT if k < 87 else DOUBLE
        if self.pointers and k >= 70:
            self.tags.add("pointer")
            return Pt(s.choice([INT, CHAR, LONG]))
        t = INTS[s.choice(M.ALL).name]
        return INT if t is BOOL and not self.bool else t

    def obj(self, depth=2):
        """Type of a member or object."""
        s = self.src
        k = s.draw(100)
        if depth > 0 and k >= 60:
            if k >= 80:
                if self.recs and s.chance(50):
                    r = s.choice(self.recs)
                    if r.size <= self.maxsize // 2:
                        return r
                return self.record(depth - 1)
            e = self.obj(depth - 1)
            n = s.choice([1, 2, 3, 4, 5, 7, 8, 9])
            if e.size * n <= self.maxsize:
                return Arr(e, n)
            return e
        return self.scalar()

    def bytes_record(self):
        """A record whose size is not a multiple of the usual widths."""
        s = self.src
        self.n += 1
        self.tags.add("odd-size")
        e = s.choice([INTS["unsigned char"], INTS["unsigned char"], INTS["short"]])
        n = s.int(1, min(40, self.maxsize) // e.size)
        fields = [Fld("m0", Arr(e, n))]
        if s.chance(40):
            fields.insert(s.draw(2), Fld("m1", s.choice([INTS["signed char"], INTS["short"], e])))
        rec = Rec("%sT%d" % (self.x, self.n), fields, False)
        self.recs.append(rec)
        self.defs.append(rec.define())
        return rec

    def record(self, depth=1, union=None):
        s = self.src
        self.n += 1
        me = self.n
        if union is None:
            union = self.unions and s.chance(18)
        if union:
            self.tags.add("union")
        base = s.choice([INT, UINT, LONG, ULONG, SHORT, USHORT, CHAR, UCHAR, SCHAR]
                        if s.chance(40) else [INT, UINT])
        if not self.long_bf and base.size == 8:
            base = INT
        bits = self.bitfields and not union and s.chance(30)
        fields = []
        n = s.int(1, 5)
        end = 0
        while len([f for f in fields if f.name]) < n:
            name = "m%d" % len(fields)
            r = Rec("x", fields)
            end = r.end
            after = fields and fields[-1].width is not None
            if bits and (end % base.size == 0 or after) and s.chance(65):
                self.tags.add("bitfield")
                w = base.size * 8
                b = s.choice([x for x in INTS.values() if x.size == base.size and x is not BOOL])
                if self.wild and s.chance(40):
                    # Sizes do not increase within a run of bit-fields.
                    top = fields[-1].t.size if after else base.size
                    b = s.choice([x for x in INTS.values() if x.size <= top])
                    w = 1 if b is BOOL else b.size * 8
                elif after and b.size > fields[-1].t.size:
                    b = fields[-1].t
                    w = 1 if b is BOOL else b.size * 8
                if after and self.zero_bf and s.chance(8):
                    fields.append(Fld("", b, 0))
                    self.tags.add("zero-width")
                elif after and self.unnamed and s.chance(8):
                    fields.append(Fld("", b, s.int(1, w)))
                    self.tags.add("unnamed-field")
                else:
                    fields.append(Fld(name, b, w if s.chance(6) else s.choice([x for x in (8, 16, 32) if x <= w] or [1])
                                      if s.chance(8) else s.int(1, w)))
            else:
                t = self.obj(depth)
                if end + t.size > self.maxsize and fields:
                    break
                fields.append(Fld(name, t))
        if not [f for f in fields if f.name]:
            fields.append(Fld("m%d" % len(fields), INT))
        rec = Rec("%sT%d" % (self.x, me), fields, union)
        self.recs.append(rec)
        self.defs.append(rec.define())
        return rec
