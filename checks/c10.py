"""C10: all output forms and code generation options describe the same program."""
import os
from pbt.engine import Property, Case, Fail, Skip, OK
from pbt.optgen import Opt
from pbt.progen import Prog
from pbt.memgen import Mem
from pbt import cdiff, elf
from pbt.toolchain import run, write
from checks.common import BatchProgram
from checks.c08 import Gen as InitGen

OPTIONS = ["-g", "-v", "-w", "-Wall", "-Wextra", "-pipe", "-pedantic", "-fno-strict-aliasing", "-DUNUSED_NAME=1",
           "-I.", "-march=x86-64", "-fno-fast-math"]


def sections(e, debug):
    """Everything in an object file but debug information."""
    out = []
    for s in e.secs:
        if s.type in (2, 3, 4) or debug and s.name.startswith((".debug", ".rela.debug")):
            continue
        rs = [(o, t, y.name, y.sec, y.value, a) for o, t, y, a in s.relocs]
        out.append((s.name, s.type, s.flags, s.size, s.data, rs))
    syms = [(y.name, y.value, y.size, y.kind, y.bind, y.vis, y.sec) for y in e.syms
            if not (y.kind == "SECTION")]
    return sorted(out, key=lambda x: x[0]), syms


class P(BatchProgram, Property):
    id = "C10"
    batch = 4
    quick_cases = 4 * 500
    thorough_factor = 15
    prelude = """\
#include <stdarg.h>
void *memcpy(void *, const void *, unsigned long);
void *memset(void *, int, unsigned long);
"""
    rule = ("A case is a generated program (about data flow, memory, control, or initializers). Its object file written by -c "
            "must equal what as makes of the text written by -S, after both are brought to a form without encoding sizes and "
            "section symbols: instructions, data, relocations, symbols. The output of -E must compile to the same object as the "
            "source. Options for debugging, warnings and the like must not change code, data or symbols. "
            "The program must print the same with and without -fPIC, and when linked from the assembly. "
            "Non-trivial: the program has at least 30 instructions.")
    assumptions = ["as and objdump of binutils are right", "encodings of one instruction are equivalent"]

    def gen(self, src, index):
        k = src.draw(100)
        call = "@go();"
        if k < 30:
            g = Opt(src)
            text = g.build()
        elif k < 60:
            g = Prog(src, control=src.choice([1, 4]), memory=src.choice([1, 4]), floats=src.chance(50))
            g.build()
            text, call = g.text(), g.entry
        elif k < 80:
            g = Mem(src)
            text = g.build()
        else:
            g = InitGen(src)
            text = g.build()
            text = text.replace("op(", "(void) (")
        opts = [src.choice(["-fPIC", "-fno-PIC"])] + (["-O1"] if src.chance(40) else []) + \
            (["-fno-common"] if src.chance(30) else []) + (["-fvisibility=hidden"] if src.chance(15) else [])
        extra = [src.choice(OPTIONS) for _ in range(src.int(1, 2))]
        return Case(text, nontrivial=len(text) > 800, tags=g.tags | set(opts) | set(extra), sample=text,
                    text=text, call=call, exp=None, mode="c", opts=opts, extra=extra)

    def lacc(self, ctx, args, cwd=None):
        r = run([ctx.lacc, "-std=c99"] + args, cwd=cwd or ctx.work())
        if r.code or r.timeout:
            return "lacc %s exits with %d: %s" % (" ".join(args), r.code, cdiff.text_of(r.err)[-500:])
        return None

    def run_batch(self, ctx, cases):
        src, _ = self.program(cases)
        opts, extra = cases[0].opts, cases[0].extra
        w = ctx.work()
        d2 = os.path.join(w, "sub")
        os.makedirs(d2, exist_ok=True)
        write(os.path.join(w, "t.c"), src)
        p = lambda n: os.path.join(w, n)
        for n in ("t.o", "s.o", "t.s", "x.o"):
            try:
                os.unlink(p(n))
            except OSError:
                pass
        err = self.lacc(ctx, opts + ["-c", "t.c", "-o", "t.o"])
        if err:
            return [Skip(err)] if len(cases) == 1 else self.singly(ctx, cases)
        try:
            a = elf.Elf(p("t.o"))
        except (ValueError, IndexError) as e:
            return Fail("object file: %s" % e)
        # -S
        err = self.lacc(ctx, opts + ["-S", "t.c", "-o", "t.s"])
        if err:
            return Fail(err)
        r = run(["as", "t.s", "-o", "s.o"], cwd=w, cpu=20)
        if r.code:
            return Fail("as rejects the output of -S: " + cdiff.text_of(r.err)[:500])
        b = elf.Elf(p("s.o"))
        na = elf.normal(a, elf.disassemble(run, p("t.o"), w))
        nb = elf.normal(b, elf.disassemble(run, p("s.o"), w))
        d = elf.difference(na, nb)
        if d:
            return Fail("-c and -S differ (%s): %s" % (" ".join(opts), d))
        # -E
        err = self.lacc(ctx, opts + ["-E", "t.c", "-o", "sub/t.c"]) or \
            self.lacc(ctx, opts + ["-c", "t.c", "-o", "../x.o"], cwd=d2)
        if err:
            return Fail("through -E: " + err)
        with open(p("t.o"), "rb") as f1, open(p("x.o"), "rb") as f2:
            same = f1.read() == f2.read()
        if not same:
            c = elf.Elf(p("x.o"))
            d = elf.difference(na, elf.normal(c, elf.disassemble(run, p("x.o"), w)))
            return Fail("object from the output of -E differs: %s" % (d or "in bytes only"))
        # Options
        err = self.lacc(ctx, opts + extra + ["-c", "t.c", "-o", "x.o"])
        if err:
            return Fail("with %s: %s" % (" ".join(extra), err))
        c = elf.Elf(p("x.o"))
        debug = "-g" in extra
        if sections(a, debug) != sections(c, debug):
            d = elf.difference(na, elf.normal(c, elf.disassemble(run, p("x.o"), w)))
            return Fail("%s changes the object file: %s" % (" ".join(extra), d))
        # Behaviour
        other = ["-fno-PIC" if "-fPIC" in opts else "-fPIC"] + opts[1:]
        err = self.lacc(ctx, other + ["-c", "t.c", "-o", "x.o"])
        if err:
            return Fail(err)
        outs = []
        for n in ("t.o", "s.o", "x.o"):
            x, err = cdiff.do_link(ctx, [p(n)], p(n)[:-2] + ".out")
            if x is None:
                return Fail(err)
            r = cdiff.run_program(ctx, x)
            outs.append((r.code, r.timeout, r.out))
        if outs[0] != outs[1]:
            return Fail("program from -S: " + cdiff.first_difference(outs[0][2], outs[1][2]))
        if outs[0] != outs[2]:
            if len(cases) == 1:
                g, err = cdiff.reference(ctx, src)
                why = err if g is None else cdiff.doubtful(ctx, src, self.std, g)
                if why:
                    return [Skip("doubtful: " + why)]
            return Fail("program with %s: %s" % (" ".join(other), cdiff.first_difference(outs[0][2], outs[2][2])))
        return [OK] * len(cases)
