"""A model of float, double and x87 long double arithmetic with exact rounding."""
from fractions import Fraction as Q
from .cmodel import T, Undefined, conv, promote, usual, BOOL, INT
from . import cmodel


class F:
    """A floating type."""
    def __init__(self, name, size, p, emax, suffix, rank):
        self.name, self.size, self.p, self.emax, self.suffix, self.rank = \
            name, size, p, emax, suffix, rank
        self.emin = 1 - emax

    def __repr__(self):
        return self.name


FLOAT = F("float", 4, 24, 127, "f", 10)
DOUBLE = F("double", 8, 53, 1023, "", 11)
LDOUBLE = F("long double", 16, 64, 16383, "L", 12)
FLOATS = [DOUBLE, FLOAT, LDOUBLE]


class V:
    """NaN ('a'), infinity ('i'), zero ('z') or number ('n', |q| != 0)."""
    __slots__ = ("k", "s", "q")

    def __init__(self, k, s=0, q=None):
        self.k, self.s, self.q = k, s, q

    def __eq__(self, o):
        return (self.k, self.s, self.q) == (o.k, o.s, o.q)

    def __repr__(self):
        return {"a": "nan", "i": "inf", "z": "0"}.get(self.k) or str(float_str(self))


def float_str(v):
    try:
        return float(v.q)
    except OverflowError:
        return v.q


NAN = V("a")


def zero(s=0):
    return V("z", s)


def inf(s=0):
    return V("i", s)


def exact(q, s=0):
    """A value from a rational; s is the sign if it is zero."""
    if q == 0:
        return zero(s)
    return V("n", int(q < 0), Q(q))


def ilog2(q):
    """floor(log2(q)) of a positive rational."""
    e = q.numerator.bit_length() - q.denominator.bit_length()
    if q < Q(2) ** e:
        e -= 1
    return e


def round_to(v, t):
    if v.k != "n":
        return v
    q = abs(v.q)
    e = max(ilog2(q), t.emin)
    ulp = Q(2) ** (e - t.p + 1)
    n = q / ulp
    i = n.numerator // n.denominator
    r = n - i
    if r > Q(1, 2) or r == Q(1, 2) and i & 1:
        i += 1
    q = i * ulp
    if q == 0:
        return zero(v.s)
    if ilog2(q) > t.emax:
        return inf(v.s)
    return V("n", v.s, -q if v.s else q)


def bits(v, t):
    """(mantissa bits, exponent field, sign) of the encoding."""
    if v.k == "z":
        return 0, 0, v.s
    if v.k == "i":
        return (1 << (t.p - 1)) if t is LDOUBLE else 0, 2 * t.emax + 1, v.s
    q = abs(v.q)
    e = max(ilog2(q), t.emin)
    m = q / Q(2) ** (e - t.p + 1)
    assert m.denominator == 1
    m = m.numerator
    ef = e + t.emax
    if not m >> (t.p - 1):
        ef = 0
    if t is not LDOUBLE:
        m &= (1 << (t.p - 1)) - 1
    return m, ef, v.s


def encode(v, t):
    """What the runtime prints for the value."""
    if v.k == "a":
        return "n"
    m, e, s = bits(v, t)
    if t is LDOUBLE:
        return "%x,%x" % (s << 15 | e, m)
    w = t.size * 8
    return "%x" % (s << (w - 1) | e << (t.p - 1) | m)


def decode(n, t):
    """Value from the bits of a float or double."""
    w = t.size * 8
    s = n >> (w - 1)
    e = (n >> (t.p - 1)) & (2 * t.emax + 1)
    m = n & ((1 << (t.p - 1)) - 1)
    if e == 2 * t.emax + 1:
        return NAN if m else inf(s)
    if e == 0:
        q = m * Q(2) ** (t.emin - t.p + 1)
    else:
        q = (m | 1 << (t.p - 1)) * Q(2) ** (e - t.emax - t.p + 1)
    return exact(-q if s else q, s)


def neg(v):
    if v.k == "a":
        return v
    return V(v.k, 1 - v.s, -v.q if v.k == "n" else None)


def add(a, b):
    if a.k == "a" or b.k == "a":
        return NAN
    if a.k == "i":
        return NAN if b.k == "i" and a.s != b.s else a
    if b.k == "i":
        return b
    if a.k == "z" and b.k == "z":
        return zero(a.s & b.s)
    q = (a.q if a.k == "n" else 0) + (b.q if b.k == "n" else 0)
    return exact(q, 0)


def mul(a, b):
    if a.k == "a" or b.k == "a":
        return NAN
    s = a.s ^ b.s
    if a.k == "i" or b.k == "i":
        return NAN if a.k == "z" or b.k == "z" else inf(s)
    if a.k == "z" or b.k == "z":
        return zero(s)
    return exact(a.q * b.q)


def div(a, b):
    if a.k == "a" or b.k == "a":
        return NAN
    s = a.s ^ b.s
    if a.k == "i":
        return NAN if b.k == "i" else inf(s)
    if b.k == "i":
        return zero(s)
    if b.k == "z":
        return NAN if a.k == "z" else inf(s)
    if a.k == "z":
        return zero(s)
    return exact(a.q / b.q)


def order(v):
    """Sort key of a non-NaN value."""
    if v.k == "i":
        return (-1 if v.s else 1, 0)
    return (0, 0 if v.k == "z" else v.q)


def compare(op, a, b):
    if a.k == "a" or b.k == "a":
        return int(op == "!=")
    x, y = order(a), order(b)
    return int({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y,
                "==": x == y, "!=": x != y}[op])


def common(a, b):
    """Usual arithmetic conversions."""
    if isinstance(a, F) or isinstance(b, F):
        fs = [t for t in (a, b) if isinstance(t, F)]
        return max(fs, key=lambda t: t.rank)
    return usual(a, b)


def truth(v, t):
    return v.k != "z" if isinstance(t, F) else v != 0


def convert(v, frm, to):
    if isinstance(to, F):
        if isinstance(frm, F):
            return round_to(v, to)
        return round_to(exact(v), to)
    if not isinstance(frm, F):
        return conv(v, to)
    if to is BOOL:
        return int(v.k != "z")
    if v.k in "ai":
        raise Undefined("conversion")
    if v.k == "z":
        return 0
    i = int(v.q)
    if not to.min <= i <= to.max:
        raise Undefined("conversion")
    return i


def arith(op, a, ta, b, tb):
    """Value and type of a binary operator with at least one floating operand."""
    if op in ("<<", ">>"):
        return cmodel.arith(op, a, ta, b, tb)
    t = common(ta, tb)
    if not isinstance(t, F):
        return cmodel.arith(op, a, ta, b, tb)
    a, b = convert(a, ta, t), convert(b, tb, t)
    if op in ("<", ">", "<=", ">=", "==", "!="):
        return compare(op, a, b), INT
    r = {"+": lambda: add(a, b), "-": lambda: add(a, neg(b)), "*": lambda: mul(a, b),
         "/": lambda: div(a, b)}[op]()
    return round_to(r, t), t


def pow2(e):
    return Q(2) ** e


def value(src, t):
    """A value of floating type t, weighted to the boundaries."""
    k = src.draw(9)
    if k == 0:
        v = exact(Q(src.draw(32)))
    elif k == 1:
        v = exact(Q(src.draw(2000) - 1000, src.choice([1, 2, 4, 3, 10, 7, 100, 1000, 1 << 20])))
    elif k == 2:
        v = src.choice([zero(1), zero(0), inf(0), inf(1), NAN])
    elif k == 3:
        # Powers of two and neighbours, in particular around integer limits.
        e = src.choice([0, 7, 8, 15, 16, 23, 24, 25, 31, 32, 33, 52, 53, 54, 62, 63, 64, 65, -1, -10])
        v = exact(pow2(e) + src.choice([0, 1, -1]) * src.choice([1, pow2(e - t.p), pow2(e - t.p + 1), Q(1, 2)]))
    elif k == 4:
        v = exact(Q(cmodel.value(src, src.choice([cmodel.ULONG, cmodel.LONG]))))
    elif k == 5:
        # Extremes of the format.
        big = (2 - pow2(1 - t.p)) * pow2(t.emax)
        small = pow2(t.emin - t.p + 1)
        v = exact(src.choice([big, pow2(t.emax), small, small * 3, pow2(t.emin),
                              pow2(t.emin) - small, 1 + pow2(1 - t.p), 1 - pow2(-t.p)]))
    elif k == 6:
        u = src.choice([FLOAT, DOUBLE])
        v = decode(src.bits(u.size * 8), u)
    else:
        e = src.int(-70, 70)
        v = exact(Q(src.bits(t.p) | 1) * pow2(e - t.p))
    if src.chance(30):
        v = neg(v)
    return round_to(v, t)


def decimal(q, digits):
    """Exact or truncated decimal text of a positive rational."""
    e = 0
    # d.ddd * 10^e
    n = q
    import math
    e = int(math.floor((q.numerator.bit_length() - q.denominator.bit_length()) * 0.30103))
    while q >= Q(10) ** (e + 1):
        e += 1
    while q < Q(10) ** e:
        e -= 1
    m = q / Q(10) ** (e - digits + 1)
    i = m.numerator // m.denominator
    if m - i >= Q(1, 2):
        i += 1
    return i, e - digits + 1


def parse(i, e, t):
    return round_to(exact(Q(i) * Q(10) ** e), t)


def literal(src, v, t):
    """C text of a constant of type t and a value that it has exactly; the
    value may differ from v when decimal digits are dropped."""
    if v.k == "a":
        z = "0.0" + t.suffix
        return "(%s / %s)" % (z, z), 16, NAN
    if v.k == "i":
        return "(%s1.0%s / 0.0%s)" % ("-" if v.s else "", t.suffix, t.suffix), 16, v
    suf = t.suffix.upper() if src.chance(30) else t.suffix
    if suf == "L" and src.chance(20):
        suf = "l"
    if v.k == "z":
        body = src.choice(["0.0", "0.", ".0", "0e0", "0.0e5", "0E-3"]) + suf
        return ("-" if v.s else "") + body, 13 if v.s else 16, v
    q = abs(v.q)
    if src.chance(25):
        # Hexadecimal.
        m, ef, _ = bits(exact(q), t)
        e = max(ilog2(q), t.emin)
        m = q / pow2(e - t.p + 1)
        s = "0x%xp%d" % (m.numerator, e - t.p + 1)
        if src.chance(30):
            s = s.upper()
        r = exact(q)
    else:
        digits = src.choice([1, 2, 3, 6, 9, 17, 21, 36])
        i, e = decimal(q, digits)
        r = parse(i, e, t)
        if r.k != "n":
            i, e = decimal(q, 21)
            r = parse(i, e, t)
            if r.k != "n":
                i, e = decimal(q, 40)
                r = parse(i, e, t)
                if r.k != "n":
                    raise Undefined("literal")
        s = str(i)
        form = src.draw(4)
        if form == 0 and -20 <= e <= 0 and len(s) < 40:
            s = s.rjust(1 - e, "0")
            s = (s[:e] + "." + s[e:]) if e else s + "."
        elif form == 1:
            p = src.draw(len(s) + 1)
            s = "%s.%se%d" % (s[:p], s[p:], e + len(s) - p)
        elif form == 2:
            s = "%sE%s%d" % (s, "+" if e >= 0 else "", e)
        else:
            s = "%s.e%d" % (s, e)
    s += suf
    if v.s:
        return "-" + s, 13, neg(r)
    return s, 16, r
