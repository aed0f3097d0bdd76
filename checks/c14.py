"""C14: scope, linkage and storage. Programs of several units built from few
names are compiled unit by unit, some by lacc and some by gcc, in several
modes, linked statically or with a shared library, and must behave as when
gcc compiles all; symbol tables of the objects must agree."""
import os
import re
import shutil

from pbt.engine import Property, Case, Fail, Skip, OK
from pbt.toolchain import run, write, GCC
from pbt import cdiff, elf
from pbt.linkgen import LinkGen

LD_SO = "/lib64/ld-linux-x86-64.so.2"


class P(Property):
    id = "C14"
    rule = ("a program of one to four units over at most eight names, each declared in several scopes, name spaces "
            "or units; non-trivial: at least three of the kinds static, tentative, common, redeclared definition, "
            "static local, block extern, shadowing, tag, label, typedef, inline, address initializer; distinct programs")
    batch = 6
    quick_cases = 2200
    thorough_factor = 12
    assumptions = ["gcc's code for a unit, and ld, are right"]
    lmodes = [["-c"], ["-c", "-O1"], ["-S"], ["-c", "-fno-PIC"], ["-c", "-g"], ["-S", "-fno-PIC"], ["-c", "-O2"]]

    def gen(self, src, index):
        common = src.chance(40)
        g = LinkGen(src, common)
        units = g.build()
        modes = [src.choice(self.lmodes) for _ in units]
        who = [src.chance(70) for _ in units]
        if not any(who):
            who[src.draw(len(who))] = True
        shared = [src.chance(50) for _ in units] if src.chance(25) and len(units) > 1 else None
        if shared:
            shared[-1] = False
            if not any(shared):
                shared[0] = True
            g.tags.add("shared-library")
        if sum(not w for w in who):
            g.tags.add("mixed-compilers")
        kinds = g.tags & {"static", "tentative", "common", "redeclared-definition", "static-local", "block-extern",
                          "shadow", "tag", "label", "local-typedef", "inline-extern", "address-initializer"}
        key = "\n/* ---- next unit ---- */\n".join(units)
        return Case(key=key + str(modes) + str(who), sample=key, nontrivial=len(kinds) >= 3, tags=g.tags, units=units,
                    modes=modes, who=who, shared=shared, common=common)

    def link(self, d, ctx, objs, shared, out):
        if not shared:
            return run(["ld", "--no-warnings", "-o", out, ctx.rt] + objs, cwd=d, cpu=20)
        lib = [o for o, s in zip(objs, shared) if s]
        exe = [o for o, s in zip(objs, shared) if not s]
        so = "lib%s.so" % out
        r = run(["ld", "--no-warnings", "-shared", "-o", so, "-soname", so] + lib, cwd=d, cpu=20)
        if r.code:
            return r
        # ctx.rt is found by the library through the dynamic symbol table.
        return run(["ld", "--no-warnings", "-no-pie", "--export-dynamic", "-dynamic-linker", LD_SO, "-rpath", d,
                    "-o", out, ctx.rt] + exe + [so], cwd=d, cpu=20)

    def gcc(self, d, c, i, o, cc="gcc", opt="-O0"):
        pic = "-fPIC" if c.shared and c.shared[i] else "-fno-pie"
        base = GCC if cc == "gcc" else ["clang", "-w", "-fno-builtin", "-fcf-protection=none"]
        return run(base + [opt, "-std=c99", pic, "-fcommon" if c.common else "-fno-common", "-c",
                           "u%d.c" % i, "-o", o], cwd=d, cpu=60)

    def whole(self, d, ctx, c, cc, opt):
        objs = []
        for i in range(len(c.units)):
            o = "r%d.o" % i
            r = self.gcc(d, c, i, o, cc, opt)
            if r.code:
                return None, "%s rejects: %s" % (cc, r.err.decode("latin-1")[:300])
            objs.append(o)
        r = self.link(d, ctx, objs, c.shared, "ref")
        if r.code:
            return None, "link: " + r.err.decode("latin-1")[:300]
        r = run([os.path.join(d, "ref")], cwd=d, cpu=5)
        if r.crashed or r.code:
            return None, "reference " + cdiff.describe(r)
        return r.out, None

    def one(self, ctx, c, d):
        for i, t in enumerate(c.units):
            write(os.path.join(d, "u%d.c" % i), t)
        ref, err = self.whole(d, ctx, c, "gcc", "-O0")
        if ref is None:
            return Skip(re.sub(r"\d+", "N", err))
        o = self.judge(ctx, c, d, ref)
        if o is not OK:
            # Do the references agree on what the program means?
            for cc, opt in (("gcc", "-O2"), ("clang", "-O0"), ("clang", "-O1")):
                alt, err = self.whole(d, ctx, c, cc, opt)
                if alt is None:
                    return Skip("doubtful: " + re.sub(r"\d+", "N", err)[:200])
                if alt != ref:
                    return Skip("doubtful: references disagree: " + str(o)[:200])
        return o

    def judge(self, ctx, c, d, ref):
        objs = []
        for i in range(len(c.units)):
            o = "l%d.o" % i
            if not c.who[i]:
                shutil.copy(os.path.join(d, "r%d.o" % i), os.path.join(d, o))
                objs.append(o)
                continue
            mode = list(c.modes[i])
            if c.shared and c.shared[i]:
                mode = [m for m in mode if m != "-fno-PIC"]
            cmd = [ctx.lacc, "-std=c99"] + mode + ["-fcommon" if c.common else "-fno-common", "u%d.c" % i, "-o"]
            what = " ".join(mode)
            out = "l%d.s" % i if mode[0] == "-S" else o
            r = run(cmd + [out], cwd=d)
            if r.code or r.timeout:
                return Fail("lacc %s rejects u%d.c (%d): %s" % (what, i, r.code, r.err.decode("latin-1")[:500]))
            if mode[0] == "-S":
                r = run(["as", out, "-o", o], cwd=d, cpu=20)
                if r.code:
                    return Fail("as rejects the output of lacc %s for u%d.c: %s" % (
                        what, i, r.err.decode("latin-1")[:500]))
            f = self.symbols(d, o, "r%d.o" % i, c.units[i])
            if f:
                return Fail("symbols of u%d.c with lacc %s: %s" % (i, what, f))
            objs.append(o)
        r = self.link(d, ctx, objs, c.shared, "prog")
        if r.code:
            return Fail("the program does not link: %s" % r.err.decode("latin-1")[:600])
        r = run([os.path.join(d, "prog")], cwd=d, cpu=5)
        if r.crashed or r.code:
            return Fail("the program %s; %s" % (cdiff.describe(r), cdiff.first_difference(ref, r.out)))
        if r.out != ref:
            return Fail(cdiff.first_difference(ref, r.out))
        return OK

    def table(self, path):
        e = elf.Elf(path)
        glob, loc = {}, []
        for y in e.syms:
            if y.kind in ("SECTION", "FILE") or not y.name:
                continue
            kind = y.kind
            sec = y.sec
            if sec in ("UND", "COM"):
                place = sec
            else:
                s = e.sec(sec)
                place = "code" if s.flags & 4 else "data"
                if y.size and y.value + y.size > s.size:
                    raise ValueError("symbol %s extends beyond %s" % (y.name, sec))
            if y.bind == "LOCAL":
                loc.append((re.sub(r"\.\d+$", "", y.name), kind, place, y.size, sec, y.value))
            else:
                if y.name in glob:
                    raise ValueError("symbol %s appears twice" % y.name)
                glob[y.name] = (y.bind, kind, place, y.size, sec, y.value)
        return e, glob, loc

    def symbols(self, d, mine, theirs, text):
        try:
            e, g, l = self.table(os.path.join(d, mine))
        except ValueError as x:
            return str(x)
        _, g2, l2 = self.table(os.path.join(d, theirs))
        for n in sorted(set(g) | set(g2)):
            if n == "_GLOBAL_OFFSET_TABLE_":
                continue
            a, b = g.get(n), g2.get(n)
            if a is None and b[2] == "UND" or b is None and a[2] == "UND":
                # A reference one of the compilers has no need of.
                continue
            if a is None:
                return "%s is missing" % n
            if b is None:
                return "%s should not be there (%s)" % (n, a)
            if a[0] == "WEAK" and b[2] == "UND" and re.search(r"\binline\b.*\b%s\(" % n, text):
                # An inline definition; an external one goes before it.
                continue
            if a[0] != b[0] or a[2] != b[2]:
                return "%s is %s, should be %s" % (n, a[:3], b[:3])
            if a[2] != "UND" and (a[1] != b[1] or a[1] == "OBJECT" and a[3] != b[3]):
                return "%s is %s of size %d, should be %s of size %d" % (n, a[1], a[3], b[1], b[3])
        # Local objects: those of the same spelling and kind.
        for kind in ("OBJECT", "FUNC"):
            for n in set(x[0] for x in l2 if x[1] == kind):
                if n.startswith(".") or n.endswith(".localalias"):
                    continue
                want = sorted(x[3] if kind == "OBJECT" else 0 for x in l2 if x[0] == n and x[1] == kind)
                got = sorted(x[3] if kind == "OBJECT" else 0 for x in l if x[0] == n and x[1] == kind)
                for w in want:
                    if w not in got:
                        return "local %s %s of size %s is missing; there are %s" % (kind, n, w, got)
                    got.remove(w)
        # No two objects overlap.
        spans = {}
        for n, x in list(g.items()):
            if x[2] in ("code", "data") and x[3]:
                spans.setdefault(x[4], []).append((x[5], x[5] + x[3], n))
        for x in l:
            if x[2] in ("code", "data") and x[3]:
                spans.setdefault(x[4], []).append((x[5], x[5] + x[3], x[0]))
        for s in spans.values():
            s.sort()
            for (a0, a1, n), (b0, b1, m) in zip(s, s[1:]):
                if b0 < a1:
                    return "%s and %s overlap" % (n, m)
        return None

    def run_batch(self, ctx, cases):
        d = os.path.join(ctx.work(), "c14")
        out = []
        for c in cases:
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            out.append(self.one(ctx, c, d))
        return out

    def render(self, ctx, cases):
        c = cases[0]
        f = {"u%d.c" % i: t for i, t in enumerate(c.units)}
        f["how.txt"] = "units compiled by lacc: %s\nmodes: %s\nin the shared library: %s\ncommon: %s\n" % (
            c.who, c.modes, c.shared, c.common)
        return f
