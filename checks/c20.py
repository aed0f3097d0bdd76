"""C20: inline assembly. Instructions of a template are those the assembler
makes of the same text, and operands behave as when gcc compiles the
program."""
import os
import re

from pbt.engine import Property, Case, Fail, Skip, OK
from pbt.toolchain import run, write
from pbt import asmgen, elf
from checks.common import BatchProgram


class P(BatchProgram, Property):
    id = "C20"
    rule = ("a function with one to four asm statements amid C code, with operands of random objects, constraints, names, "
            "widths and clobbers (non-trivial: a template of at least two instructions or two operands); or a template of up "
            "to 12 random instructions over explicit registers, non-trivial if at least two")
    batch = 4
    quick_cases = 9000
    thorough_factor = 15
    assumptions = ["gcc and GNU as give the meaning of asm statements; clang must agree before a mismatch counts"]

    def gen(self, src, index):
        if index // self.batch % 3 == 0:
            n = src.weighted([(1, 1), (2, 3), (2, 6), (2, 12)])
            ins = [asmgen.instruction(src) for _ in range(n)]
            text = [t for _, t in ins]
            return Case(key="insn" + "\n".join(text), tags={"insn"} | {"insn:" + k for k, _ in ins}, kind="insn", lines=text,
                        sample="; ".join(text), nontrivial=n > 1)
        mode = src.choice(["c", "c-O1", "S", "c-nopic", "S-O1", "c-O2"])
        text, tags = asmgen.function(src)
        return Case(key=text + mode, tags=tags | {mode}, kind="operands", text=text, call="@_t();", exp=None, mode=mode,
                    sample=text, nontrivial=text.count("\\n") + text.count("%1") > 1)

    def group(self, c):
        return c.kind

    def insn_source(self, cases):
        out = ""
        for i, c in enumerate(cases):
            body = "\\n\"\n\t\"".join(["mov $%d, %%r11d" % (1144 + i)] + c.lines + ["mov $1143, %r11d"]).replace("%", "%%")
            out += "void f%d(void)\n{\n\t__asm__ volatile (\"%s\" : : );\n}\n" % (i, body)
        return out

    def insns(self, ctx, cases):
        w = ctx.work()
        p = lambda n: os.path.join(w, n)
        write(p("i.c"), self.insn_source(cases))
        for i, c in enumerate(cases):
            pass
        write(p("ref.s"), "".join("mov $%d, %%r11d\n%s\nmov $1143, %%r11d\n" % (1144 + i, "\n".join(c.lines)) for i, c in enumerate(cases)))
        r = run(["as", "ref.s", "-o", "ref.o"], cwd=w, cpu=20)
        if r.code:
            return self.singly(ctx, cases) if len(cases) > 1 else [Skip("as: " + r.err.decode("latin-1")[-100:])]
        ref = self.pieces(elf.disassemble(run, p("ref.o"), w))
        for mode in ("-c", "-S"):
            obj = "i.o" if mode == "-c" else "i.s"
            r = run([ctx.lacc, mode, "i.c", "-o", obj], cwd=w, cpu=20)
            if r.code:
                return Fail("lacc %s: %s" % (mode, r.err.decode("latin-1")[-200:] or "status %d" % r.code))
            if mode == "-S":
                r = run(["as", "i.s", "-o", "i.o"], cwd=w, cpu=20)
                if r.code:
                    return Fail("as rejects output of lacc -S: " + r.err.decode("latin-1")[-200:])
            got = self.pieces(elf.disassemble(run, p("i.o"), w))
            for i, c in enumerate(cases):
                a, b = ref.get(i), got.get(i)
                if a != b:
                    for x, y, t in zip(a or [], b or [], c.lines):
                        if x != y:
                            return Fail("lacc %s: '%s' becomes '%s'" % (mode, t, y))
                    return Fail("lacc %s: %s becomes %s" % (mode, "; ".join(a or ["?"]), "; ".join(b or ["?"])))
        return [OK] * len(cases)

    @staticmethod
    def pieces(insns):
        """Instructions between markers, by number of the case."""
        out = {}
        cur = None
        for _, t in insns:
            t = re.sub(r"\s+", " ", t.partition("#")[0].strip())
            t = re.sub(r"^((?:sh|sa)[lr][bwlq]?) \$0x1,", r"\1 $1,", t)
            t = re.sub(r"^data16 (fi)", r"\1", t)
            m = re.match(r"mov \$0x([0-9a-f]+),%r11d$", t)
            n = int(m.group(1), 16) if m else 0
            if n == 1143:
                cur = None
            elif 1144 <= n < 1144 + 64 and cur is None:
                cur = out.setdefault(n - 1144, [])
            elif cur is not None:
                cur.append(t)
        return out

    def run_batch(self, ctx, cases):
        a = [c for c in cases if c.kind == "insn"]
        b = [c for c in cases if c.kind != "insn"]
        if a and b:
            return self.singly(ctx, cases)
        if a:
            return self.insns(ctx, a)
        return super().run_batch(ctx, b)

    def render(self, ctx, cases):
        if cases[0].kind == "insn":
            return {"repro.c": self.insn_source(cases)}
        return super().render(ctx, cases)

    def known_still_fails(self, ctx, k):
        return super().known_still_fails(ctx, k)
