"""C07: calls across compilers follow the calling convention."""
import os
from pbt.engine import Property, Case, Fail, Skip, OK
from pbt import cdiff
from pbt.toolchain import run, write, GCC
from pbt.types import (TypeGen, Rec, Arr, Pt, Sc, Void, VOID, INT, UINT, LONG, ULONG, CHAR, BOOL, SHORT,
                       FLOAT, DOUBLE, LDOUBLE, INTS, decl, leaves)

HEAD = cdiff.PRELUDE + """\
#include <stdarg.h>
void *memset(void *, int, unsigned long);
void rt_calls(void); void rt_frame(void *); void rt_tramp(void);
extern void (*rt_target)(void);
#ifdef __lacc__
# define FRAME
#else
# define FRAME rt_frame(__builtin_frame_address(0));
#endif
"""


def pick(u):
    return sum(map(ord, u.tag)) % len([f for f in u.fields if f.name])


class F:
    """A function: name, return type, parameter types, style, unit."""


class Gen:
    def __init__(self, src):
        self.src = src
        self.g = TypeGen(src, maxsize=src.choice([16, 16, 32, 40]), pointers=True, long_bf=True,
                         unnamed=False)
        self.tags = self.g.tags
        self.common = []
        self.tu = [[], []]         # function definitions by unit
        self.go = [[], []]
        self.fns = []
        self.k = 0
        self.gl = 0

    def n(self):
        self.k += 1
        return self.k

    # ---- types -------------------------------------------------------
    def type(self):
        s = self.src
        k = s.draw(100)
        if k < 30:
            return INT
        if k < 55:
            return self.g.scalar()
        if k < 62:
            return Pt(s.choice([INT, CHAR, LONG]))
        if self.g.recs and k < 80:
            return s.choice(self.g.recs)
        if k < 95:
            return self.g.record(1)
        if s.chance(30):
            self.g.maxsize, m = 600, self.g.maxsize
            self.tags.add("big-struct")
            t = self.g.record(1)
            t = self.big(t)
            self.g.maxsize = m
            return t
        return self.g.scalar()

    def small(self):
        """A record of one or two eightbytes, of which the classes vary."""
        s = self.src
        from pbt.types import Fld
        self.g.n += 1
        pool = s.choice([[DOUBLE], [DOUBLE, FLOAT], [LONG], [DOUBLE, LONG], [FLOAT, INT], [CHAR, DOUBLE, INT]])
        fs = []
        size = 0
        for i in range(s.int(1, 4)):
            t = s.choice(pool)
            if size + t.size > 16 - (8 if t.size == 8 and size % 8 else 0) and fs:
                break
            size = (size + t.size - 1) // t.size * t.size + t.size
            fs.append(Fld("m%d" % i, t))
        r = Rec("%sT%d" % (self.g.x, self.g.n), fs)
        self.g.defs.append(r.define())
        return r

    def pressure(self):
        """Arguments that nearly use up the registers, then small records and
        scalars that may not fit."""
        s = self.src
        self.tags.add("register-pressure")
        a = [INT if s.chance(70) else LONG] * s.choice([0, 3, 4, 5, 5, 6, 7])
        b = [DOUBLE] * s.choice([0, 5, 6, 7, 7, 8, 9])
        out = []
        while a or b:
            out.append((a if a and (not b or s.chance(50)) else b).pop())
        pool = [self.small() for _ in range(s.int(1, 2))]
        for _ in range(s.int(1, 4)):
            out.append(s.choice(pool) if s.chance(65) else s.choice([INT, DOUBLE, LONG, DOUBLE]))
        return out

    def big(self, t):
        n = Arr(t, self.src.int(2, 8))
        self.g.n += 1
        from pbt.types import Fld
        r = Rec("%sT%d" % (self.g.x, self.g.n), [Fld("m0", n)])
        self.g.defs.append(r.define())
        return r

    # ---- values and dumps ----------------------------------------------
    def value(self, t, w=None):
        s = self.src
        if t.kind == "f":
            return s.choice(["1.5", "-2.25", "0.125", "3e10", "-0.0"]) if s.chance(50) \
                else "%d.%d" % (s.draw(10000), s.draw(10))
        if t.kind == "p":
            return "(void *) %d" % (16 * s.draw(1000))
        if t is BOOL:
            return str(s.draw(2))
        b = t.size * 8 if w is None else w
        v = s.bits(min(b, 62)) - (1 << (min(b, 62) - 1))
        if s.chance(25):
            v = s.choice([0, 1, -1, 127, -128, 255, 1 << 31, -(1 << 31)])
        return "%dL" % v

    def setter(self, t, lv):
        """Statements that give an object its value."""
        if isinstance(t, (Rec, Arr)):
            out = ["memset(&%s, %d, sizeof %s);" % (lv, self.src.draw(256), lv)]
            for p, u, w in self.some(leaves(t, pick=pick), 12):
                out.append("%s%s = %s;" % (lv, p, self.value(u, w)))
            return out
        return ["%s = %s;" % (lv, self.value(t))]

    def some(self, it, n):
        xs = list(it)
        if len(xs) > n:
            return xs[:n // 2] + xs[-(n - n // 2):]
        return xs

    def show(self, t, e):
        if isinstance(t, Void):
            return []
        if isinstance(t, (Rec, Arr)):
            out = []
            for p, u, w in self.some(leaves(t, pick=pick), 12):
                out += self.show1(u, e + p)
            return out
        return self.show1(t, e)

    def show1(self, t, e):
        k = self.n()
        if t is FLOAT:
            return ["of(%d, %s);" % (k, e)]
        if t is DOUBLE:
            return ["od(%d, %s);" % (k, e)]
        if t is LDOUBLE:
            return ["ol(%d, %s);" % (k, e)]
        return ["oi(%d, (long) %s);" % (k, e)]

    # ---- functions -------------------------------------------------------
    def promoted(self, t):
        """A type allowed as an unnamed argument."""
        if t is FLOAT:
            return DOUBLE
        if t.kind == "i" and t.size < 4:
            return INT
        return t

    def function(self):
        s = self.src
        f = F()
        f.name = "@f%d" % len(self.fns)
        f.unit = s.draw(2)
        k = s.draw(100)
        f.ret = VOID if k < 10 else self.type()
        n = s.weighted([(30, 2), (30, 4), (20, 7), (15, 10), (5, 16)])
        f.params = [self.type() for _ in range(s.int(0, n))]
        f.style = s.weighted([(60, "proto"), (25, "variadic"), (8, "knr"), (7, "noproto")])
        f.va = []
        if f.style == "proto" and s.chance(15):
            f.params = self.pressure()
        if f.style == "variadic":
            if not f.params or self.promoted(f.params[-1]) is not f.params[-1]:
                f.params.append(s.choice([INT, DOUBLE, LONG, Pt(CHAR)]))
            f.va = [self.promoted(self.type()) for _ in range(s.int(0, s.choice([3, 8, 14])))]
            if s.chance(35):
                f.params = f.params[-1:]
                f.va = self.pressure()
        elif f.style == "noproto":
            f.params = [self.promoted(t) for t in f.params]
        elif f.style == "knr":
            pass
        self.tags.add("style:" + f.style)
        plist = ", ".join(decl(t) for t in f.params) or "void"
        if f.style == "variadic":
            plist += ", ..."
        r = decl(f.ret)
        if f.style in ("noproto", "knr"):
            f.proto = decl(f.ret, f.name + "()") + ";"
            f.cast = decl(f.ret, "(*)()")
        else:
            f.proto = decl(f.ret, "%s(%s)" % (f.name, plist)) + ";"
            f.cast = decl(f.ret, "(*)(%s)" % plist)
        self.fns.append(f)
        self.define(f)
        return f

    def define(self, f):
        s = self.src
        names = ["p%d" % i for i in range(len(f.params))]
        if f.style == "knr":
            head = decl(f.ret, "%s(%s)" % (f.name, ", ".join(names)))
            head += "".join(" %s;" % decl(t, x) for t, x in zip(f.params, names))
        else:
            ps = ", ".join(decl(t, x) for t, x in zip(f.params, names)) or "void"
            if f.style == "variadic":
                ps += ", ..."
            head = decl(f.ret, "%s(%s)" % (f.name, ps))
        b = []
        loc = []
        if not isinstance(f.ret, Void):
            loc.append(decl(f.ret, "r") + ";")
        if f.style == "variadic":
            loc.append("va_list ap;")
            if s.chance(30):
                loc.append("va_list aq;")
        for i, t in enumerate(f.va):
            loc.append(decl(t, "v%d" % i) + ";")
        if s.chance(30):
            b.append("rt_scramble();" if s.chance(50) else "")
        for t, x in zip(f.params, names):
            b += self.show(t, x)
        if f.style == "variadic":
            b.append("va_start(ap, %s);" % names[-1])
            copy = "va_list aq;" in loc
            at = s.draw(len(f.va) + 1) if copy else -1
            tail = s.draw(len(f.va) + 1) if s.chance(25) else len(f.va)
            helper = None
            if tail < len(f.va):
                helper = "@h%d" % self.n()
                self.tags.add("va_list-passed")
            for i, t in enumerate(f.va):
                if i == at:
                    b.append("va_copy(aq, ap);")
                    self.tags.add("va_copy")
                if i == tail:
                    break
                if s.chance(7):
                    self.tags.add("va_arg-unused")
                    b.append("%sva_arg(ap, %s);" % (s.choice(["", "(void) "]), decl(t)))
                elif s.chance(25) and not isinstance(t, Rec):
                    b += self.show(t, "va_arg(ap, %s)" % decl(t))
                else:
                    b.append("v%d = va_arg(ap, %s);" % (i, decl(t)))
                    b += self.show(t, "v%d" % i)
            if at == len(f.va) and at <= tail:
                b.append("va_copy(aq, ap);")
            if helper:
                self.helper(helper, f.va[tail:], s.draw(2))
                b.append("%s(ap);" % helper if s.chance(70) else "%s(ap);" % helper)
            b.append("va_end(ap);")
            if copy and at <= tail:
                for i in range(at, len(f.va)):
                    t = f.va[i]
                    b.append("v%d = va_arg(aq, %s);" % (i, decl(t)))
                    b += self.show(t, "v%d" % i)
                b.append("va_end(aq);")
        # Calls to an earlier function, with its parameters among the arguments.
        if self.fns[:-1] and s.chance(35):
            self.tags.add("nested")
            g = s.choice(self.fns[:-1])
            b += self.call(g, list(zip(f.params, names)))
            for t, x in zip(f.params[:4], names):
                b += self.show(t, x)
        for t, x in list(zip(f.params, names))[:3]:
            if s.chance(40):
                b += self.setter(t, x)[-1:]
        if not isinstance(f.ret, Void):
            same = [x for t, x in zip(f.params, names) if t is f.ret]
            if same and s.chance(50):
                b.append("return %s;" % s.choice(same))
            else:
                b += self.setter(f.ret, "r")
                b.append("return r;")
        self.common.append(f.proto)
        self.tu[f.unit].append("%s\n{\n%s    FRAME\n%s}\n" % (
            head, "".join("    %s\n" % x for x in loc), "".join("    %s\n" % x for x in b)))

    def helper(self, name, va, unit):
        b = ["%s;" % decl(t, "v%d" % i) for i, t in enumerate(va)]
        b += ["FRAME"]
        for i, t in enumerate(va):
            b.append("v%d = va_arg(ap, %s);" % (i, decl(t)))
            b += self.show(t, "v%d" % i)
        self.common.append("void %s(va_list);" % name)
        self.tu[unit].append("void %s(va_list ap)\n{\n%s}\n" % (name, "".join("    %s\n" % x for x in b)))

    def call(self, f, have=(), depth=0):
        """Statements that call f and show what it returns."""
        s = self.src
        pre, args, post = [], [], []
        decls = []
        for t in f.params + f.va:
            same = [x for u, x in have if u is t]
            if same and s.chance(50):
                args.append(s.choice(same))
                continue
            k = s.draw(10)
            if isinstance(t, (Rec, Arr)) or k < 5:
                x = "a%d" % self.n()
                kind = s.draw(3)
                if kind == 0:
                    self.common.append("extern %s;" % decl(t, "@" + x))
                    self.tu[s.draw(2)].append("%s;\n" % decl(t, "@" + x))
                    x = "@" + x
                else:
                    decls.append(("static " if kind == 1 else "") + decl(t, x) + ";")
                pre += self.setter(t, x)
                args.append(x)
                if s.chance(20):
                    post += self.show(t, x)
            else:
                args.append("(%s) %s" % (decl(t), self.value(t)))
        callee = f.name
        k = s.draw(100)
        if k < 40:
            pass
        elif k < 80:
            pre.append("rt_target = (void (*)(void)) %s;" % f.name)
            callee = "((%s) rt_tramp)" % f.cast
            self.tags.add("trampoline")
        elif k < 90:
            fp = "q%d" % self.n()
            decls.append("%s = %s;" % (f.cast.replace("(*)", "(*%s)" % fp, 1), f.name))
            callee = s.choice(["%s", "(*%s)", "(**%s)"]) % fp
            self.tags.add("indirect")
        else:
            callee = "(%s)" % f.name
        e = "%s(%s)" % (callee, ", ".join(args))
        # A call of which the result is an argument of another.
        if not isinstance(f.ret, Void) and depth == 0 and k < 40 and s.chance(30):
            gs = [g for g in self.fns if f.ret in g.params and f is not g]
            if gs and not have:
                g = s.choice(gs)
                self.tags.add("call-in-argument")
                inner, self_e = (decls, pre, post), e
                return self.call_with(g, f.ret, e, inner)
        return self.finish(f.ret, e, decls, pre, post)

    def call_with(self, g, t, e, inner):
        """Call g with one argument of type t being the expression e."""
        s = self.src
        decls, pre, post = inner
        args = []
        used = False
        for u in g.params + g.va:
            if u is t and not used:
                used = True
                args.append(e)
            elif isinstance(u, (Rec, Arr)) or s.chance(40):
                x = "a%d" % self.n()
                decls.append(decl(u, x) + ";")
                pre += self.setter(u, x)
                args.append(x)
            else:
                args.append("(%s) %s" % (decl(u), self.value(u)))
        return self.finish(g.ret, "%s(%s)" % (g.name, ", ".join(args)), decls, pre, post)

    def finish(self, ret, e, decls, pre, post):
        s = self.src
        k = s.draw(10)
        if isinstance(ret, Void) or k == 0:
            pre.append(e + ";")
        elif isinstance(ret, Rec):
            if k < 7:
                x = "r%d" % self.n()
                decls.append(decl(ret, x) + ";")
                pre.append("%s = %s;" % (x, e))
                pre += self.show(ret, x)
            else:
                p, u, w = s.choice([l for l in leaves(ret, pick=pick)])
                pre += self.show1(u, "%s%s" % (e, p))
                self.tags.add("member-of-call")
        elif k < 5 or ret.kind == "p":
            pre += self.show(ret, e)
        elif k < 8:
            pre += self.show(ret, "(%s) (%s + 1)" % (decl(ret), e))
        else:
            x = "r%d" % self.n()
            decls.append(decl(ret, x) + " = %s;" % self.value(ret) + "")
            pre.append("%s = %s;" % (x, e))
            pre += self.show(ret, x)
        return ["{"] + decls + pre + post + ["}"]

    def build(self):
        s = self.src
        n = s.int(1, 4)
        for _ in range(n):
            self.function()
        for f in self.fns:
            for _ in range(s.int(1, 2)):
                u = s.draw(2) if s.chance(30) else 1 - f.unit
                self.go[u] += self.call(f)
        for u in range(2):
            self.common.append("void @go%d(void);" % u)
            self.tu[u].append("void @go%d(void)\n{\n    FRAME\n%s}\n" % (
                u, "".join("    %s\n" % x for x in self.go[u])))
        self.head = "\n".join(self.g.defs + self.common) + "\n"
        self.parts = ["".join(t) for t in self.tu]


PAIRS = [("lacc", "gcc"), ("gcc", "lacc"), ("lacc", "lacc"), ("lacc", "clang"), ("clang", "lacc"),
         ("lacc", "gcc-O2"), ("gcc-O2", "lacc"), ("lacc", "clang-O2"), ("clang-O2", "lacc")]


class P(Property):
    id = "C07"
    batch = 6
    quick_cases = 6 * 500
    thorough_factor = 15
    lmodes = ["c", "c-O1", "c-nopic", "S"]
    rule = ("A case is one to four functions of random signatures (scalars of all types, structs and unions by value, "
            "up to 16 parameters, variadic, unprototyped, old-style) spread over two translation units that call each other "
            "directly, through pointers and through a trampoline that checks the preserved registers and the stack; every "
            "value received is reported. The units are compiled by lacc and by gcc or clang in all combinations; output must "
            "equal that of gcc alone. Non-trivial: a struct or union is passed or returned, or a call is variadic.")
    assumptions = ["gcc and clang implement the x86_64 System V ABI; cases on which they disagree with each other do not count"]

    def gen(self, src, index):
        g = Gen(src)
        g.build()
        text = g.head + "/* unit 0 */\n" + g.parts[0] + "/* unit 1 */\n" + g.parts[1]
        pair = src.choice(PAIRS)
        mode = src.choice(self.lmodes)
        nt = any(isinstance(t, Rec) for f in g.fns for t in f.params + [f.ret]) or \
            any(f.style == "variadic" for f in g.fns)
        return Case(text, nontrivial=nt, tags=g.tags | {"pair:%s+%s" % pair, "mode:" + mode},
                    sample=text, head=g.head, parts=g.parts, pair=pair, mode=mode)

    def units(self, cases):
        src = [HEAD, HEAD]
        main = ""
        for i, c in enumerate(cases):
            for u in range(2):
                src[u] += (c.head + c.parts[u]).replace("@", "c%d_" % i)
            main += ('    os("#%d"); ' % i) + "".join(
                "rt_target = c%d_go%d; rt_tramp(); rt_calls();" % (i, u) for u in range(2)) + "\n"
        src[0] += "int main(void)\n{\n%s    return 0;\n}\n" % main
        return src

    def single(self, cases):
        src = HEAD
        main = ""
        for i, c in enumerate(cases):
            src += (c.head + c.parts[0] + c.parts[1]).replace("@", "c%d_" % i)
            main += ('    os("#%d"); ' % i) + "".join(
                "rt_target = c%d_go%d; rt_tramp(); rt_calls();" % (i, u) for u in range(2)) + "\n"
        return src + "int main(void)\n{\n%s    return 0;\n}\n" % main

    def link2(self, ctx, objs, tag):
        out = os.path.join(ctx.work(), tag + ".out")
        return cdiff.do_link(ctx, objs, out)

    def build(self, ctx, src, u, cc, mode):
        tag = "u%d" % u
        if cc == "lacc":
            return cdiff.compile_lacc(ctx, src[u], mode, tag=tag)
        name, _, opt = cc.partition("-")
        return cdiff.compile_ref(ctx, src[u], tag=tag + cc, cc=name, opts=("-" + (opt or "O0"), "-fno-strict-aliasing"), link=False)

    def run_pair(self, ctx, src, pair, mode):
        """(R, error, by lacc)"""
        objs = []
        for u, cc in enumerate(pair):
            o, err = self.build(ctx, src, u, cc, mode)
            if o is None:
                return None, "%s: %s" % (cc, err), cc == "lacc"
            objs.append(o)
        x, err = self.link2(ctx, objs, "x")
        if x is None:
            return None, err, "lacc" in pair
        return cdiff.run_program(ctx, x), None, False

    def run_batch(self, ctx, cases):
        src = self.units(cases)
        ref, err, _ = self.run_pair(ctx, src, ("gcc", "gcc"), None)
        if ref is None or ref.code != 0 or ref.timeout:
            if len(cases) > 1:
                return self.singly(ctx, cases)
            return [Skip("gcc: %s" % (err or cdiff.describe(ref)))]
        todo = sorted(set((c.pair, c.mode) for c in cases))
        f = OK
        for pair, mode in todo:
            r, err, bad = self.run_pair(ctx, src, pair, mode)
            if r is None:
                if not bad:
                    if len(cases) > 1:
                        return self.singly(ctx, cases)
                    return [Skip(err)]
                f = Fail("[%s] %s" % (mode, err))
            elif r.code != 0 or r.timeout:
                f = Fail("[%s+%s, %s] program %s; %s" % (pair[0], pair[1], mode, cdiff.describe(r),
                                                         cdiff.first_difference(ref.out, r.out)))
            elif r.out != ref.out:
                f = Fail("[%s+%s, %s] %s" % (pair[0], pair[1], mode, cdiff.first_difference(ref.out, r.out)))
            if f is not OK:
                break
        if f is OK:
            return [OK] * len(cases)
        why = self.doubtful(ctx, src, cases, ref)
        if why:
            return self.singly(ctx, cases) if len(cases) > 1 else [Skip("doubtful: " + why)]
        return f

    def doubtful(self, ctx, src, cases, ref):
        for pair in (("clang", "gcc"), ("gcc", "clang"), ("gcc-O2", "gcc-O2"), ("clang-O2", "gcc-O2"), ("gcc-O2", "clang-O2")):
            r, err, _ = self.run_pair(ctx, src, pair, None)
            if r is None:
                return err
            if r.code or r.timeout or r.out != ref.out:
                return "references disagree (%s+%s)" % pair
        return cdiff.sanitize(ctx, self.single(cases))

    def singly(self, ctx, cases):
        out = []
        for c in cases:
            o = self.run_batch(ctx, [c])
            out.append(o if isinstance(o, Fail) else o[0])
        return out

    def render(self, ctx, cases):
        src = self.units(cases)
        r, err, _ = self.run_pair(ctx, src, ("gcc", "gcc"), None)
        return {"unit0.c": src[0], "unit1.c": src[1],
                "expected.txt": r.out if r else (err or ""),
                "pairs.txt": "".join("%s+%s %s\n" % (c.pair + (c.mode,)) for c in cases)}

    def known_still_fails(self, ctx, k):
        o = cdiff.check_modes(ctx, cdiff.PRELUDE + k["source"], k["expected"].encode(),
                              k.get("code", 0), k.get("modes", ["c"]))
        return isinstance(o, Fail)
