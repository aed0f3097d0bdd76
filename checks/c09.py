"""C09: optimization never changes what a program does."""
from pbt.engine import Property, Case, Fail, Skip, OK
from pbt.optgen import Opt
from pbt.progen import Prog
from pbt.memgen import Mem
from pbt import cdiff
from checks.common import BatchProgram


class P(BatchProgram, Property):
    id = "C09"
    batch = 12
    quick_cases = 12 * 900
    thorough_factor = 12
    modes = ["c-O1", "c-O2", "c-O3", "S-O1", "c-nopic-O1"]
    prelude = """\
#include <stdarg.h>
void *memcpy(void *, const void *, unsigned long);
void *memset(void *, int, unsigned long);
"""
    rule = ("A case is a set of small functions over few variables of which many are dead, aliased, escaped, copied or "
            "redefined across branches, loops, gotos and calls (or a general program, or one about memory); the program "
            "compiled at -O1, -O2 or -O3 must print what it prints compiled at -O0. "
            "Non-trivial: it has a loop or branch and an access through a pointer or a call.")
    assumptions = ["generated programs have no undefined behaviour (before a mismatch counts, gcc, clang and sanitizers must agree)"]

    def gen(self, src, index):
        k = src.draw(100)
        call = "@go();"
        if k < 80:
            g = Opt(src)
            text = g.build()
        elif k < 90:
            g = Prog(src, control=src.choice([1, 4]), memory=src.choice([1, 4]))
            g.build()
            text, call = g.text(), g.entry
        else:
            g = Mem(src)
            text = g.build()
        mode = src.choice(self.modes)
        nt = k >= 80 or g.tags & {"loop", "switch", "goto-forward", "goto-backward"} and \
            g.tags & {"deref", "escaped", "address-passed", "call", "byte-pointer", "record-pointer"}
        return Case(text, nontrivial=bool(nt), tags=g.tags | {"mode:" + mode}, sample=text,
                    text=text, call=call, exp=None, mode=mode)

    def run_batch(self, ctx, cases):
        src, _ = self.program(cases)
        o, err = cdiff.compile_lacc(ctx, src, "c", tag="base")
        x = None
        if o:
            x, err = cdiff.do_link(ctx, [o], o[:-2] + ".out")
        if x:
            ref = cdiff.run_program(ctx, x)
            if ref.timeout or ref.code < 0 or ref.code == 99:
                x, err = None, "program at -O0 " + cdiff.describe(ref)
        if not x:
            if len(cases) > 1:
                return self.singly(ctx, cases)
            return [Skip("-O0: " + err)]
        modes = sorted(set(c.mode for c in cases))
        f = cdiff.check_modes(ctx, src, ref.out, ref.code, modes)
        if f is not OK:
            if len(cases) == 1:
                g, err = cdiff.reference(ctx, src)
                if g is None:
                    return [Skip("gcc: " + err)]
                why = cdiff.doubtful(ctx, src, self.std, g)
                if why:
                    return [Skip("doubtful: " + why)]
            return f
        return [OK] * len(cases)
