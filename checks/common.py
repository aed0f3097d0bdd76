"""Shared by checks whose cases are fragments of one program: text with '@' as
name prefix, a call, and the expected output."""
from pbt.engine import Fail, Skip, OK
from pbt import cdiff


def hexv(v):
    return "%x" % (v & ((1 << 64) - 1))


class BatchProgram:
    std = "c99"
    prelude = ""
    libs = ()

    def program(self, cases):
        src = cdiff.PRELUDE + self.prelude
        main = ""
        exp = ""
        for i, c in enumerate(cases):
            src += c.text.replace("@", "c%d_" % i)
            main += '    os("#%d"); %s\n' % (i, c.call.replace("@", "c%d_" % i))
            if c.exp is None:
                exp = None
            elif exp is not None:
                exp += "#%d\n" % i + "".join(x + "\n" for x in c.exp)
        src += "int main(void)\n{\n%s    return 0;\n}\n" % main
        return src, exp.encode() if exp is not None else None

    def singly(self, ctx, cases):
        out = []
        for c in cases:
            o = self.run_batch(ctx, [c])
            out.append(o if isinstance(o, Fail) else o[0])
        return out

    def extra(self, ctx, cases, src, ref):
        """Further relations on a program; returns OK or Fail."""
        return OK

    def run_batch(self, ctx, cases):
        src, exp = self.program(cases)
        ref, err = cdiff.reference(ctx, src, std=self.std)
        if ref is None or exp is not None and ref.out != exp:
            if len(cases) > 1:
                return self.singly(ctx, cases)
            return [Skip("gcc: %s" % (err or cdiff.first_difference(exp, ref.out)))]
        modes = sorted(set(c.mode for c in cases))
        f = cdiff.check_modes(ctx, src, ref.out, ref.code, modes, std=self.std)
        if f is OK:
            f = self.extra(ctx, cases, src, ref)
        if f is not OK:
            why = cdiff.doubtful(ctx, src, self.std, ref)
            if why:
                return self.singly(ctx, cases) if len(cases) > 1 else [Skip("doubtful: " + why)]
            return f
        return [OK] * len(cases)

    def render(self, ctx, cases):
        src, exp = self.program(cases)
        if exp is None:
            ref, err = cdiff.reference(ctx, src, std=self.std)
            exp = ref.out if ref else (err or "").encode()
        return {"repro.c": src, "expected.txt": exp}

    def known_still_fails(self, ctx, k):
        o = cdiff.check_modes(ctx, cdiff.PRELUDE + k["source"], k["expected"].encode(),
                              k.get("code", 0), k.get("modes", ["c"]), std=k.get("std", self.std))
        return isinstance(o, Fail)
