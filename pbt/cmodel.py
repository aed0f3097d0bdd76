"""A model of C integer types and operators on x86_64 SysV."""


class T:
    def __init__(self, name, size, signed, rank):
        self.name, self.size, self.signed, self.rank = name, size, signed, rank
        self.bits = 1 if name == "_Bool" else size * 8
        self.min = -(1 << (self.bits - 1)) if signed else 0
        self.max = (1 << (self.bits - 1)) - 1 if signed else (1 << self.bits) - 1

    def __repr__(self):
        return self.name

    def fits(self, v):
        return self.min <= v <= self.max


BOOL = T("_Bool", 1, False, 0)
CHAR = T("char", 1, True, 1)
SCHAR = T("signed char", 1, True, 1)
UCHAR = T("unsigned char", 1, False, 1)
SHORT = T("short", 2, True, 2)
USHORT = T("unsigned short", 2, False, 2)
INT = T("int", 4, True, 3)
UINT = T("unsigned int", 4, False, 3)
LONG = T("long", 8, True, 4)
ULONG = T("unsigned long", 8, False, 4)
LLONG = T("long long", 8, True, 4)
ULLONG = T("unsigned long long", 8, False, 4)
ALL = [INT, UINT, LONG, ULONG, CHAR, SCHAR, UCHAR, SHORT, USHORT, BOOL, LLONG, ULLONG]


class Undefined(Exception):
    pass


def conv(v, t):
    """Conversion of an integer value to type t."""
    if t is BOOL:
        return int(v != 0)
    v &= (1 << t.bits) - 1
    if t.signed and v >> (t.bits - 1):
        v -= 1 << t.bits
    return v


def promote(t, width=None):
    """Integer promotion; width is that of a bit-field."""
    if width is not None:
        if t.size == 4 or t.rank < 3:
            if t.signed or width < 32:
                return INT
            return UINT
        return t
    return INT if t.rank < 3 else t


def usual(a, b):
    a, b = promote(a), promote(b)
    if a.signed == b.signed:
        return a if a.rank >= b.rank else b
    u, s = (a, b) if not a.signed else (b, a)
    if u.rank >= s.rank:
        return u
    if s.size > u.size:
        return s
    return {LONG: ULONG, LLONG: ULLONG, INT: UINT}[s]


def arith(op, a, ta, b, tb):
    """Value and type of a binary operator; operands already promoted types
    are computed here. Raises Undefined where C leaves it undefined."""
    if op in ("<<", ">>"):
        ta, tb = promote(ta), promote(tb)
        if b < 0 or b >= ta.bits:
            raise Undefined("shift count")
        if op == "<<":
            if ta.signed:
                if a < 0 or (a << b) > ta.max:
                    raise Undefined("shift overflow")
            return conv(a << b, ta), ta
        return a >> b, ta
    t = usual(ta, tb)
    a, b = conv(a, t), conv(b, t)
    if op in ("<", ">", "<=", ">=", "==", "!="):
        r = {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b,
             "==": a == b, "!=": a != b}[op]
        return int(r), INT
    if op in ("/", "%"):
        if b == 0:
            raise Undefined("division by zero")
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        if not t.fits(q):
            raise Undefined("division overflow")
        r = q if op == "/" else a - q * b
    else:
        r = {"+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b,
             "^": a ^ b}[op]
    if t.signed:
        if not t.fits(r):
            raise Undefined("signed overflow")
    return conv(r, t), t


def unary(op, a, ta):
    t = promote(ta)
    if op == "!":
        return int(a == 0), INT
    a = conv(a, t)
    if op == "+":
        return a, t
    if op == "~":
        return conv(~a, t), t
    if op == "-":
        if t.signed and not t.fits(-a):
            raise Undefined("negation")
        return conv(-a, t), t
    raise KeyError(op)


BOUNDARY = sorted(set(
    [0, 1, 2, 3, 5, 7, 8, 10, 16, 31, 32, 33, 63, 64, 100, 127, 128, 129, 255,
     256, 1000, 32767, 32768, 65535, 65536, 0x7FFFFFFF, 0x80000000, 0x80000001,
     0xFFFFFFFE, 0xFFFFFFFF, 0x100000000, 0x123456789, 0x7FFFFFFFFFFFFFFF,
     0x8000000000000000, 0xFFFFFFFFFFFFFFFE, 0xFFFFFFFFFFFFFFFF,
     0x0123456789ABCDEF, 0xFEDCBA9876543210, 0xAAAAAAAAAAAAAAAA,
     0x5555555555555555, 0xDEADBEEF, 0x1FFFFFFFF]
    + [1 << i for i in range(64)]))


def value(src, t):
    """A value of type t, with weight on the boundaries."""
    k = src.draw(4)
    if src.chance(6):
        # Near a tie when rounded to a float, double or smaller format.
        hi = src.int(25, 63)
        lo = src.choice([hi - 24, hi - 53, hi - 23, hi - 52, hi - 25, hi - 54, 7])
        v = (1 << hi) | (1 << lo if lo >= 0 else 0) | (src.draw(2) << src.draw(hi)) | (src.draw(2) << src.draw(3))
        if src.chance(20):
            v -= 1
    elif k == 0:
        v = src.draw(16)
        if src.chance(30):
            v = -v
    elif k == 1:
        v = src.bits(64)
        v >>= src.draw(64)
    else:
        v = src.choice(BOUNDARY)
        if src.chance(30):
            v = -v
        if src.chance(20):
            v += src.draw(3) - 1
    return conv(v, t)


def literal(src, v, t):
    """C text of a constant expression whose value and type are v, t, from
    literal forms; t must be INT or wider (otherwise a cast is used)."""
    if t.rank < 3:
        inner = literal(src, v, INT)[0]
        return "(%s) %s" % (t.name, inner if inner[0] != "-" else "(%s)" % inner), 13
    if v < 0:
        if v == t.min:
            return "(-%s - 1)" % literal(src, t.max, t)[0], 16
        return "-" + literal(src, -v, t)[0], 13
    suf = {INT: "", UINT: "u", LONG: "l", ULONG: "ul", LLONG: "ll", ULLONG: "ull"}[t]
    form = src.draw(6)
    if t is INT and form == 5 and 32 <= v < 127 and chr(v) not in "'\\?\"@#":
        return "'%s'" % chr(v), 16
    if form in (1, 5):
        s = "0x%x" % v
    elif form == 2:
        s = "0X%X" % v
    elif form == 3:
        s = "0%o" % v
    else:
        s = "%d" % v
    # An unsuffixed or shorter suffix gives the type only if it does not fit
    # in a narrower one.
    if suf and src.chance(25):
        if t is LONG and v > 0x7FFFFFFF and (form in (0, 4) or v > 0xFFFFFFFF):
            suf = ""
        elif t is ULONG and v > 0xFFFFFFFF:
            suf = "u"
        elif t is UINT and v > 0x7FFFFFFF and form not in (0, 4):
            suf = ""
    if suf and src.chance(30):
        suf = suf.upper()
    elif len(suf) > 1 and suf[0] == "u" and src.chance(20):
        suf = suf[1:] + "u"
    return s + suf, 16
