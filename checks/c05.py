"""C05: every access reaches the object it names and no other."""
from pbt.engine import Property, Case
from pbt.memgen import Mem
from checks.c04 import ProgramCheck


class P(ProgramCheck, Property):
    id = "C05"
    batch = 8
    quick_cases = 8 * 350
    thorough_factor = 12
    modes = ["c", "c-O1", "S", "c-nopic", "c-O1"]
    profile = dict(control=1, memory=6)
    rule = ("A case defines objects of random aggregate types between guard bytes, writes them through random "
            "lvalue paths (members, indices, pointers, conditional and call results, struct assignment and values, "
            "memcpy, pointer walks, variable length arrays, literals), and dumps all leaves and guards; or it is a "
            "whole program dominated by memory accesses, including type punning through unions and byte pointers. "
            "Output must equal that of the program compiled by gcc. Non-trivial: at least two kinds of access.")
    assumptions = ["generated programs have no undefined behaviour (before a mismatch counts, gcc -O2, clang and sanitizers must agree)"]

    def gen(self, src, index):
        if src.chance(25):
            return super().gen(src, index)
        m = Mem(src)
        text = m.build()
        mode = src.choice(self.modes)
        kinds = m.tags & {"leaf", "struct-copy", "pointer-walk", "vla", "literal-object", "index-loop", "by-value"}
        return Case(text, nontrivial=len(kinds) >= 2, tags=m.tags | {"mode:" + mode}, sample=text,
                    text=text, call="@go();", exp=None, mode=mode)
