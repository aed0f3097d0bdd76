"""Whole inputs for the compiler, made by the generators of the other checks,
and inputs that are extreme in one dimension."""
import importlib
import os
import re

HEADERS = ["assert.h", "ctype.h", "errno.h", "float.h", "inttypes.h", "limits.h", "locale.h", "math.h", "setjmp.h",
           "signal.h", "stdarg.h", "stddef.h", "stdint.h", "stdio.h", "stdlib.h", "string.h", "time.h", "unistd.h",
           "sys/types.h", "sys/stat.h", "fcntl.h", "alloca.h", "stdbool.h", "iso646.h"]


class Input:
    """Files of a source tree (name -> text), of which one is compiled."""
    def __init__(self, kind, files, main, opts=(), std="c99", valid=True):
        self.kind, self.files, self.main, self.opts = kind, files, main, list(opts)
        self.std, self.valid = std, valid

    def text(self):
        return "".join("/* ---- %s ---- */\n%s" % (k, v) for k, v in sorted(self.files.items()))


_props = {}


def prop(name):
    if name not in _props:
        _props[name] = importlib.import_module("checks." + name).P()
    return _props[name]


def program(src, name):
    p = prop(name)
    c = p.gen(src, 0)
    return p.program([c])[0]


def one(src, name="t.c", kinds=None):
    """An input; kinds restricts the choice."""
    pool = [(5, "c01"), (3, "c02"), (5, "c03"), (6, "c04"), (6, "c05"), (4, "c06"), (5, "c07"), (6, "c08"), (6, "c09"),
            (5, "c10"), (6, "c11"), (7, "c12"), (7, "c14"), (6, "c15"), (5, "mutate"), (3, "headers"), (3, "trivial")]
    if kinds:
        pool = [x for x in pool if x[1] in kinds]
    k = src.weighted(pool)
    if k == "c07":
        p = prop(k)
        return Input(k, {name: p.units([p.gen(src, 0)])[src.draw(2)]}, name)
    if k == "c11":
        p = prop(k)
        t, _ = p.source([p.gen(src, 0)])
        return Input(k, {name: t}, name, valid=None)
    if k == "c12":
        c = prop(k).gen(src, 0)
        return Input(k, c.files, c.main, c.opts, c.std, valid=None)
    if k == "c14":
        u = prop(k).gen(src, 0).units
        return Input(k, {name: src.choice(u)}, name)
    if k == "c15":
        p = prop(k)
        while True:
            c = p.gen(src, 0)
            if c.kind == "many":
                return Input(k, {name: c.files[0]}, name, valid=False)
            if c.kind == "driver":
                continue
            if c.kind == "mutate":
                return Input("mutate", {name: c.text}, name, valid=None)
            f = c.nok or c.ok
            f = {(name if x == "t.c" else x): y for x, y in f.items()}
            return Input(k, f, name, valid=c.nok is None)
    if k == "mutate":
        p = prop(src.choice(["c01", "c04", "c05", "c08", "c09"]))
        return Input(k, {name: mutate(src, p.program([p.gen(src, 0)])[0])}, name, valid=None)
    if k == "headers":
        hs = src.sample(HEADERS, src.int(1, 5))
        t = "".join("#include <%s>\n" % h for h in hs) + "int x_%d(int a) { return a + %d; }\n" % (src.draw(5), src.draw(99))
        return Input(k, {name: t}, name)
    if k == "trivial":
        t = src.choice(["int x;\n", "\n", "int f(void) { return 1; }\n", "static int n; int n2 = 3;\n", "typedef int T;\n",
                        "#define A 1\n", "int main(void) { static int i; return i; }\n", "struct S; extern struct S s;\n",
                        "const char *p = \"abc\";\n", "double d(void) { return 1.5; }\n", "/* c */\n",
                        "int f(int n) { int a[n]; return sizeof(a); }\n", "inline int f(void) { return 1; }\n"])
        return Input(k, {name: t}, name)
    return Input(k, {name: program(src, k)}, name)


def raw(src, text):
    """With arbitrary bytes where a program can have them."""
    def some(bad):
        b = src.choice([list(range(128, 256)), list(range(33, 256)), [0xc3, 0xa9, 0x61, 0x30], [0xff, 0xfe, 0x80]])
        t = "".join(chr(src.choice(b)) for _ in range(src.int(1, 40)))
        return "".join(x for x in t if x not in bad)
    out = ""
    for i in range(src.int(1, 4)):
        out += src.choice([
            lambda: "/* %s */\n" % some("*?"), lambda: "// %s\n" % some("?\\"),
            lambda: "#if 0\n%s\n#%s\n#endif\n" % (some("\"'/?\\#"), some("\"'/?\\")),
            lambda: "static const char raw%d[] = \"%s\";\n" % (i, some("\"?\\")),
            lambda: "#define RAW%d(x) #x\nstatic const char *rawp%d = RAW%d(%s);\n" % (i, i, i, some("\"'/?\\(),")),
            lambda: "int r%sx(void);\n" % "".join(x for x in some("") if ord(x) > 127),
            lambda: "#define RAWQ%d %s\n" % (i, some("\"'/?\\")),
        ])()
    return out + text


TOKEN = re.compile(r"\s+|[A-Za-z_]\w*|\.?\d[\w.]*|\"[^\"\n]*\"|'[^'\n]*'|->|\+\+|--|<<|>>|&&|\|\||[<>=!+*/%&|^-]=|\.\.\.|##|.", re.S)
POOL = ["(", ")", "{", "}", "[", "]", ";", ",", "*", "&", "=", ".", "int", "void", "struct", "static", "0", "1", "-1",
        "1.5", "'a'", "\"s\"", "x", "sizeof", "return", "if", "else", "goto", "case", "default", "break", "#", "##",
        "typedef", "unsigned", "\n#if 0\n", "\n#endif\n", "?", ":"]


def mutate(src, text):
    toks = TOKEN.findall(text)
    real = [i for i, x in enumerate(toks) if not x.isspace()]
    for _ in range(src.weighted([(5, 1), (3, 2), (1, 5)])):
        i = real[src.draw(len(real))]
        k = src.draw(4)
        if k == 0:
            toks[i] = ""
        elif k == 1:
            toks[i] += " " + toks[i]
        elif k == 2:
            toks[i] = src.choice(POOL)
        else:
            toks[i] = toks[real[src.draw(len(real))]]
    return "".join(toks)


# Inputs of a size.

def sizes(src):
    """Around powers of two, mostly small."""
    k = src.weighted([(3, 4), (4, 5), (4, 6), (4, 7), (4, 8), (3, 9), (3, 10), (2, 11), (1, 12), (1, 13)])
    return max(1, (1 << k) + src.choice([-1, 0, 1, 2, -2, 3]) + (src.draw(1 << k) if src.chance(40) else 0))


DIMENSIONS = {}


def dim(f):
    DIMENSIONS[f.__name__] = f
    return f


def lines(n, f):
    return "\n".join(f(i) for i in range(n)) + "\n"


@dim
def globals_(src, n):
    return lines(n, lambda i: "int g%d%s;" % (i, " = %d" % i if i % 3 else ""))


@dim
def functions(src, n):
    return lines(n, lambda i: "int f%d(int a) { return a + %s; }" % (i, "f%d(a)" % (i - 1) if i else "1"))


@dim
def locals_(src, n):
    return "int f(int a) {\n" + lines(n, lambda i: "int x%d = a + %d;" % (i, i)) + \
        "return " + " + ".join("x%d" % i for i in range(n)) + "; }\n"


@dim
def statics(src, n):
    return "int f(int a) {\n" + lines(n, lambda i: "{ static int s = %d; a += s++; }" % i) + "return a; }\n"


@dim
def strings(src, n):
    k = src.choice([1, 10, 100, 300])
    return "const char *t[] = {\n" + lines(n, lambda i: '"%d%s",' % (i, "x" * (i % k))) + "};\n"


@dim
def long_string(src, n):
    return 'char a[] = "%s";\nconst char *p = "%s\\n" "%s";\nint f(void) { return sizeof("%s"); }\n' % (
        "a" * n, "\\x41" * (n // 4), "b" * n, "\\\"" * (n // 2))


@dim
def long_identifier(src, n):
    x = "v" * n
    return ("int %s = 1; static int %s_2; int f(void) { static int %s_3; %s_3++; return %s + %s_2; }\n#define %sM %s\n"
            "int *p = &%sM; extern int %s_4[]; int *%s_5 = %s_4 + 3; int %s_6(int %s) { goto %s; %s: return %s; }\n" % ((x,) * 17))


@dim
def long_comment(src, n):
    n = min(n, 4000)
    return "int x;/* %s */int y; // %s\nint z;\n/*\n%s*/ int w;\n" % ("c" * n, "d" * n, "*\n" * n)


@dim
def long_line(src, n):
    return "int a[] = {" + ",".join(str(i) for i in range(n)) + "}; int b;\n"


@dim
def splices(src, n):
    return "int x = 1" + " + \\\n1" * n + ";\nint lo\\\nng_na\\\nme;\n"


@dim
def blanks(src, n):
    return "\n" * n + "int x;" + " " * n + "int y;" + "\t" * n + "\n" + "\n" * n


@dim
def macros(src, n):
    return lines(n, lambda i: "#define M%d %s" % (i, "M%d + 1" % (i - 1) if i % 50 else "1")) + \
        "int x = M%d;\n" % (n - 1) + lines(n // 2, lambda i: "#undef M%d" % (2 * i + 1)) + \
        lines(n, lambda i: "#define N%d(a) a + M%d" % (i, i)) + "int y[] = { N0(3), N%d(2) };\n" % (n // 100 * 50) if n > 1 else "int x;\n"


@dim
def macro_parameters(src, n):
    n = min(n, 500)
    ps = ", ".join("p%d" % i for i in range(n))
    return "#define F(%s) p0 + p%d\n#define G(%s, ...) #__VA_ARGS__ #p%d\nint x = F(%s);\nconst char *s = G(%s, %s);\n" % (
        ps, n - 1, ps, n - 1, ", ".join(str(i) for i in range(n)), ", ".join("a%d" % i for i in range(n)),
        ", ".join("b%d" % i for i in range(n)))


@dim
def macro_argument(src, n):
    a = " + ".join(str(i % 10) for i in range(n))
    return "#define F(x) x\n#define S(x) #x\n#define T(x) S(x)\n#define C(a, b) a ## b\nint x = F(%s);\nconst char *s = S(%s);" \
        "\nconst char *t = T(F(%s));\nint C(%s, _t);\n" % (a, a, a, "q" * min(n, 2000))


@dim
def macro_strings(src, n):
    """Arguments of # whose text is longer than its spelling."""
    def literal():
        if src.chance(30):
            return src.choice(["'\\\\'", "'\\''", "'\"'", "'\\\"'", "'a'"])
        # One character of any kind, or mostly one that needs an escape.
        unit = src.choice([["\\\\"], ["\\\""], ["\\\\", "\\\"", "a"], ["\\n", "\\x41"], ["ab", "\\'"]])
        k = src.choice([n, min(n, 8), n + 1])
        return '"' + "".join(unit[j % len(unit)] for j in range(min(k, 3000) or 1)) + '"'
    def args():
        return src.choice(["", " ", "x ", "1 + "]) + src.choice(["", " "]).join(literal() for _ in range(src.weighted([(5, 1), (2, 2), (1, 5)])))
    return "#define S(x) #x\n#define V(...) #__VA_ARGS__\nconst char *s = S(%s);\nconst char *t = V(%s, %s);\n" % (args(), args(), args())


@dim
def macro_nesting(src, n):
    n = min(n, 300)
    return "#define F(x) x\n#define G(x) (F(x) + 1)\nint x = " + "G(" * n + "1" + ")" * n + ";\n"


@dim
def macro_blowup(src, n):
    k = min(n.bit_length() + 1, 13)
    return "#define M0 1\n" + lines(k, lambda i: "#define M%d M%d + M%d" % (i + 1, i, i)) + "int x = M%d;\n" % k


@dim
def conditionals(src, n):
    n = min(n, 500)
    return "#if 1\n" * n + "int x;\n" + "#else\nint y;\n#endif\n" * n + \
        "#if 0\n" * n + "int z;\n" + "#elif 1\n#endif\n" * n + "int last;\n"


@dim
def if_expression(src, n):
    n = min(n, 2000)
    return "#if " + " + ".join("1" for _ in range(n)) + " == %d\nint x;\n#endif\n#if " % n + "(" * min(n, 500) + "1" + \
        ")" * min(n, 500) + " && " + " || ".join("defined(X%d)" % i for i in range(n)) + "\nint y;\n#endif\n"


@dim
def members(src, n):
    return "struct S {\n" + lines(n, lambda i: "%s m%d;" % (src.choice(["int", "char", "double", "short"]), i)) + \
        "} s;\nint f(struct S *p) { s = *p; return " + " + ".join("p->m%d" % i for i in range(min(n, 60))) + "; }\n"


@dim
def types(src, n):
    return lines(n, lambda i: "struct S%d { %s *p; int a[%d]; %s };" % (
        i, "struct S%d" % (i - 1) if i else "int", i + 1, "struct S%d q;" % (i - 1) if i % 4 else "")) + \
        "struct S%d *f(struct S%d *p) { return p; }\nunsigned long z = sizeof(struct S%d);\n" % (n - 1, n - 1, n - 1)


@dim
def pointers(src, n):
    n = min(n, 1000)
    return "int %sp;\nint f(void) { return %sp == 0 ? 0 : sizeof(%sp); }\nint (%sq)[3];\n" % ("*" * n, "*" * (n - 1), "*" * (n // 2), "*" * n)


@dim
def arrays(src, n):
    n = min(n, 60)
    return "char a%s;\nint f(void) { return a%s + sizeof(a); }\n" % ("[1]" * n, "[0]" * n)


@dim
def function_types(src, n):
    n = min(n, 200)
    t = "int p"
    for i in range(n):
        t = "int p%s(%s)" % (i, t)
    return t + ";\n" + lines(n, lambda i: "int q%d(%s);" % (i, ", ".join(["int"] * (i % 30 + 1))))


@dim
def typedefs(src, n):
    return "typedef int T0;\n" + lines(n, lambda i: "typedef T%d %sT%d;" % (i, "*" if i % 50 == 0 else "", i + 1)) + "T%d x;\n" % n


@dim
def enums(src, n):
    return "enum E {\n" + lines(n, lambda i: "E%d%s," % (i, " = %d" % (i * 3) if i % 5 == 0 else "")) + \
        "};\nint f(void) { return E%d; }\n" % (n - 1)


@dim
def cases(src, n):
    return "int f(int x) { switch (x) {\n" + lines(n, lambda i: "case %d: %s" % (
        i * (1 if n % 2 else 7), "return %d;" % i if i % 3 else "x++;")) + "default: return x; } }\n"


@dim
def labels(src, n):
    return "int f(int x) {\n" + lines(n, lambda i: "L%d: if (x++ > %d) goto L%d;" % (i, i, (i * 7) % n)) + "return x; }\n"


@dim
def blocks(src, n):
    return "int f(int x) {\n" + lines(n, lambda i: src.choice([
        "if (x > %d) x++; else x--;", "while (x > %d) x -= 3;", "x = x > %d ? 1 : 2;", "x += x && x < %d;",
        "do x++; while (x < %d);", "for (; x < %d; x++) if (x == 2) break;"]) % i) + "return x; }\n"


@dim
def nesting(src, n):
    n = min(n, 400)
    k = src.choice(["{", "if (x) {", "while (x) {", "for (;x;) {", "switch (x) { case 1: {", "do {"])
    end = {"{": "}", "if (x) {": "}", "while (x) {": "}", "for (;x;) {": "}", "switch (x) { case 1: {": "}}",
           "do {": "} while (x < 3);"}[k]
    return "int f(int x) {\n" + (k + "\n") * n + "int y = x; x = y + 1;\n" + (end + "\n") * n + "return x; }\n"


@dim
def parentheses(src, n):
    n = min(n, 1500)
    return "int x = " + "(" * n + "1" + ")" * n + ";\nint f(int a) { return " + "(" * n + "a" + ")" * n + "; }\n"


@dim
def expression(src, n):
    op = src.choice(["+", "*", "&&", "||", ",", "==", "<<", "-", "?"])
    n = min(n, 3000)
    if op == "?":
        n = min(n, 500)
        return "int f(int x) { return " + "".join("x == %d ? %d : " % (i, i) for i in range(n)) + "0; }\n"
    return "int f(int x, int y) { return " + (" %s " % op).join(src.choice(["x", "y", "1", "x++"][:3 if op in "+*==<<-" else 4])
                                                                  for _ in range(n)) + "; }\n"


@dim
def unary(src, n):
    n = min(n, 1000)
    o = src.choice(["!", "~", "- ", "+ ", "(int) ", "*&", "sizeof "])
    return "int f(int x) { return %sx; }\n" % (o * n)


@dim
def arguments(src, n):
    n = min(n, 600)
    return "int f(%s) { return p0 + p%d; }\nint v(int, ...);\nint g(void) { return f(%s) + v(%s); }\n" % (
        ", ".join("int p%d" % i for i in range(n)), n - 1, ", ".join(str(i) for i in range(n)),
        ", ".join("%d%s" % (i, src.choice(["", ".0", "L"])) for i in range(n)))


@dim
def calls(src, n):
    n = min(n, 400)
    return "int g(int x) { return x; }\nint f(int x) { return " + "g(" * n + "x" + ")" * n + "; }\n" + \
        "int h(int x) {\n" + lines(n, lambda i: "g(x + %d);" % i) + "return 0; }\n"


@dim
def initializers(src, n):
    n = min(n, 3000)
    return "struct S { int a, *p; char c[5]; } s[] = {\n" + lines(n, lambda i: src.choice([
        "{ %d, &s[0].a, \"abc\" }," % i, "{ .c = { 1, 2, %d } }," % (i % 100), "{ %d }," % i])) + "};\n" + \
        "int f(int k) { struct S t[%d] = { { 1 }, [%d] = { k } }; return t[0].a; }\n" % (n, n - 1)


@dim
def prototypes(src, n):
    return lines(n, lambda i: "extern int e%d(int, %s), d%d[%d];" % (i, "double" if i % 2 else "char *", i, i + 1)) + \
        "int f(void) { return " + " + ".join("e%d(d%d[0], 0)" % (i, i) for i in range(0, n, max(1, n // 50))) + "; }\n"


@dim
def references(src, n):
    return "extern int e[]; int *t[] = {\n" + lines(n, lambda i: "e + %d," % i) + "};\n" + \
        "int f(void) { int s = 0;\n" + lines(n, lambda i: "s += e[%d] + *t[%d];" % (i, i)) + "return s; }\n"


@dim
def scopes(src, n):
    n = min(n, 300)
    return "int f(int x) {\n" + lines(n, lambda i: "{ int x%d = x; struct T { int a[%d]; } t; enum { E = %d }; x = sizeof(t) + E + x%d;" % (
        i, i + 1, i, i)) + "}" * n + " return x; }\n"


@dim
def big_frame(src, n):
    return "int f(int x) { char a[%d]; int b[%d][3]; double d = x; a[x] = 1; b[x][1] = 2; return a[%d] + b[1][2] + d; }\n" % (
        n * 1000, n, n)


@dim
def vlas(src, n):
    n = min(n, 200)
    return "int f(int n) { int s = 0;\n" + lines(n, lambda i: "int a%d[n + %d]; a%d[0] = s; s += sizeof(a%d);" % (i, i, i, i)) + \
        "return s; }\n"


@dim
def literals(src, n):
    return "int g(void *);\nint f(int x) {\n" + lines(min(n, 1000), lambda i: src.choice([
        "g((int []) { %d, x });", "g(&(struct { int a, b; }) { %d });", "g(\"%d\");", "x += %d.5;", "x *= %d.25f;"]) % i) + \
        "return x; }\n"


@dim
def compound(src, n):
    """Long dependent code in one block, for liveness and merging."""
    n = min(n, 1500)
    vs = ["v%d" % i for i in range(src.choice([3, 20, 62, 63, 64, 65, 70]))]
    return "int f(int %s) {\n" % ", int ".join(vs) + lines(n, lambda i: "%s %s %s %s %d;" % (
        src.choice(vs), src.choice(["=", "+=", "-=", "^="]), src.choice(vs), src.choice("+-*&|"), i)) + \
        "return " + " + ".join(vs) + "; }\n"


@dim
def asms(src, n):
    n = min(n, 400)
    return "int f(int x) {\n" + lines(n, lambda i: src.choice([
        '__asm__ ("test %%edx, %%edx" : : );', '__asm__ volatile ("addl $%d, %%0" : "+r" (x));' % i, '__asm__ ("movl %%1, %%0" : "=r" (x) : "r" (%d));' % i])) + \
        "return x; }\n"


def sized(src, name="t.c"):
    """An input extreme in one to three dimensions."""
    parts = []
    ks = src.sample(sorted(DIMENSIONS), src.weighted([(6, 1), (2, 2), (1, 3)]))
    tags = []
    for i, k in enumerate(ks):
        n = sizes(src)
        if len(ks) > 1:
            n = min(n, 400)
        t = DIMENSIONS[k](src, n)
        tags.append("%s:2^%d" % (k, n.bit_length() - 1))
        if len(ks) > 1:
            # Names of the parts differ.
            t = "".join(x + "_%d" % i if re.match(r"[A-Za-z_]\w*$", x) and x not in WORDS and len(x) < 200 else x
                        for x in TOKEN.findall(t))
        parts.append(t)
    return Input("sized", {name: "".join(parts)}, name), tags


WORDS = set("""__asm__ int char short long float double void unsigned signed struct union enum typedef extern static const volatile
auto register inline restrict return if else while for do switch case default break continue goto sizeof asm define undef
if else elif endif include defined __VA_ARGS__ nop addl movl r volatile n t x41 q""".split()) | set()


# What a program with a part of size n shows of it.
def every(n, f, k=40):
    return "".join(f(i) for i in sorted(set(range(0, n, max(1, n // k))) | {n - 1, n // 2, min(n - 1, 1)}))


F = 'oi(1, f(0)); oi(1, f(1)); oi(2, f(3)); oi(3, f(100)); oi(4, f(-1));'
OBSERVE = {
    "globals_": lambda n: every(n, lambda i: "oi(%d, g%d);" % (i, i)),
    "functions": lambda n: every(n, lambda i: "oi(%d, f%d(%d));" % (i, i, i)),
    "locals_": lambda n: F,
    "statics": lambda n: F + F,
    "strings": lambda n: every(n, lambda i: "os(t[%d]);" % i),
    "long_string": lambda n: "oi(0, f()); oi(1, sizeof(a)); oi(2, a[%d]); os(p);" % (n - 1),
    "long_identifier": lambda n: "oi(0, f()); oi(1, f()); oi(2, *p);",
    "long_line": lambda n: every(n, lambda i: "oi(%d, a[%d]);" % (i, i)) + "oi(-1, sizeof(a));",
    "splices": lambda n: "oi(0, x);",
    "macros": lambda n: "oi(0, x);" + ("oi(1, y[0]); oi(2, y[1]);" if n > 1 else ""),
    "macro_parameters": lambda n: "oi(0, x); os(s);",
    "macro_strings": lambda n: "os(s); os(t);",
    "macro_argument": lambda n: "oi(0, x); os(s); os(t);",
    "macro_nesting": lambda n: "oi(0, x);",
    "macro_blowup": lambda n: "oi(0, x);",
    "conditionals": lambda n: "oi(0, sizeof(last));",
    "if_expression": lambda n: "oi(0, x);",
    "members": lambda n: "memset(&s, 7, sizeof(s)); memset(&u, 0, sizeof(u)); oi(0, sizeof(s)); u = s; om(1, &u, sizeof(u)); oi(2, f(&u));",
    "types": lambda n: "ol(0, z);",
    "arrays": lambda n: "oi(0, f());",
    "typedefs": lambda n: "oi(0, sizeof(x));",
    "enums": lambda n: "oi(0, f());" + every(n, lambda i: "oi(%d, E%d);" % (i, i)),
    "cases": lambda n: F + every(n, lambda i: "oi(%d, f(%d));" % (i, i * (1 if n % 2 else 7))),
    "nesting": lambda n: "oi(0, f(0));",
    "parentheses": lambda n: "oi(0, x); oi(1, f(3));",
    "unary": lambda n: "",
    "calls": lambda n: "oi(0, f(3)); oi(1, h(2));",
    "initializers": lambda n: "oi(0, f(5));" + every(n, lambda i: "oi(%d, s[%d].a); om(0, s[%d].c, 5); oi(1, s[%d].p == 0);" % (i, i, i, i)),
    "scopes": lambda n: F,
    "vlas": lambda n: "oi(0, f(3));",
    "compound": None,
    "asms": lambda n: F,
}


def observed(src):
    """(text, name, n) of a program that shows the parts of a large dimension."""
    k = src.choice(sorted(x for x in OBSERVE if OBSERVE[x]))
    n = sizes(src)
    t = DIMENSIONS[k](src, n)
    if k == "members":
        t += "struct S u;\n"
    n = {"arrays": min(n, 60), "nesting": min(n, 400), "scopes": min(n, 300), "calls": min(n, 400), "asms": min(n, 400),
         "vlas": min(n, 200), "initializers": min(n, 3000)}.get(k, n)
    from pbt import cdiff
    return cdiff.PRELUDE + "void *memset(void *, int, unsigned long);\n" + t + \
        "int main(void)\n{\n%s\nreturn 0;\n}\n" % OBSERVE[k](n).replace(";", ";\n"), k, n
