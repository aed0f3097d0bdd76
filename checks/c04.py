"""C04: control reaches the statements and calls C prescribes."""
from pbt.engine import Property, Case
from pbt.progen import Prog
from pbt import cdiff
from checks.common import BatchProgram


class ProgramCheck(BatchProgram):
    """Cases are programs of progen; the oracle is the reference compiler."""
    modes = ["c", "c-O1", "c-nopic", "S", "c-O1"]
    profile = {}
    prelude = ("void *memcpy(void *, const void *, unsigned long);\n"
               "void *memset(void *, int, unsigned long);\n")

    def nontrivial(self, p):
        return True

    def gen(self, src, index):
        p = Prog(src, **self.options(src))
        p.build()
        text = p.text()
        f = p.entry
        mode = src.choice(self.modes)
        return Case(text, nontrivial=self.nontrivial(p), tags=p.tags | {"mode:" + mode},
                    sample=text, text=text, call=f, exp=None, mode=mode)

    def options(self, src):
        return dict(self.profile)


class P(ProgramCheck, Property):
    id = "C04"
    batch = 8
    quick_cases = 8 * 400
    thorough_factor = 12
    profile = dict(control=4, memory=1, big=6)
    rule = ("A case is a program of one to five functions with nested loops of all kinds, "
            "switches (dense, sparse, fall-through, jumped into loops), gotos into and out of blocks, "
            "early returns, recursion, calls through tables, and conditions with sequenced side effects, "
            "which reports a trace; it must equal the trace of the program compiled by gcc. "
            "Non-trivial: at least three kinds of control statement.")
    assumptions = ["generated programs have no undefined behaviour (before a mismatch counts, gcc -O2, clang and sanitizers must agree)"]

    def nontrivial(self, p):
        return len([t for t in p.tags if t.startswith(("stmt:", "loop:", "goto", "duff", "recursion"))]) >= 3
