"""C18: lacc compiled by lacc behaves like lacc compiled by the host compiler."""
import os
import re
import shutil
from concurrent.futures import ThreadPoolExecutor

from pbt.engine import Property, Case, Fail, Skip, OK
from pbt.toolchain import run, write
from pbt import corpus
from checks.c17 import options

STACK = ["sh", "-c", 'ulimit -s 1000000; exec "$0" "$@"']


class P(Property):
    id = "C18"
    rule = ("an input, valid or not, from the generators of all other checks or of extreme size, with random options, compiled by "
            "the host-built lacc and by two self-compiled generations; output, messages and exit status must be identical; "
            "non-trivial: accepted, with output of at least 200 bytes, or rejected with a message")
    variants = ("lacc", "selfhost")
    batch = 6
    quick_cases = 6000
    thorough_factor = 12
    assumptions = ["the host compiler compiles lacc correctly"]

    def gen(self, src, index):
        k = src.draw(100)
        if k < 12:
            x, t = corpus.sized(src)
            tags = {"sized"} | {i.split(":")[0] for i in t}
        elif k < 20:
            x = corpus.one(src, kinds={"mutate", "c15"})
            tags = {x.kind}
        elif k < 35:
            x = corpus.one(src, kinds={"c02", "c03", "c08"})
            tags = {x.kind}
        else:
            x = corpus.one(src)
            tags = {x.kind}
        mode = src.weighted([(5, "-c"), (5, "-S"), (3, "-E"), (2, "-dot")])
        opts = options(src)
        std = x.std if src.chance(70) else src.choice(["c89", "c99", "c11"])
        who = src.sample(["boot-O0", "boot-O3", "self-O1", "self-O3", "self-S", "self-O0"], 2)
        return Case(key=x.text() + mode + " ".join(opts), tags=tags | {mode} | set(opts) | set(who), x=x, mode=mode, opts=opts,
                    std=std, who=who, sample=x.text()[:1200], nontrivial=False)

    def lacc(self, ctx, which, c, d, out):
        p = os.path.join(d, out)
        if os.path.exists(p):
            os.unlink(p)
        r = run(STACK + [ctx.variants[which], "-std=" + c.std, c.mode] + c.opts + c.x.opts + [c.x.main, "-o", out], cwd=d, cpu=60, mem=0)
        data = None
        if os.path.exists(p):
            with open(p, "rb") as f:
                data = f.read()
        return r, data

    def one(self, ctx, c):
        if ctx.selfhost_error:
            return Fail(ctx.selfhost_error)
        d = os.path.join(ctx.work(), "c18")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for name, text in c.x.files.items():
            q = os.path.join(d, name)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            write(q, text)
        r, a = self.lacc(ctx, "lacc", c, d, "out")
        if r.timeout:
            return OK
        c.nontrivial = len(a or b"") >= 200 if r.code == 0 else len(r.err) > 10
        for w in c.who:
            q, b = self.lacc(ctx, w, c, d, "out")
            if q.timeout:
                return Skip("time out")
            what = "lacc %s compiled by lacc (%s): " % (" ".join(["-std=" + c.std, c.mode] + c.opts + c.x.opts), w)
            if r.code != q.code:
                return Fail(what + "exit status %d instead of %d: %s" % (q.code, r.code, q.err[-300:].decode("latin-1")))
            if r.code not in (0, 1):
                continue            # crash of both; see C15 and C16
            if r.code == 0 and a != b:
                return Fail(what + "output differs " + self.diff(b, a))
            if r.out != q.out:
                return Fail(what + "standard output differs " + self.diff(q.out, r.out))
            if r.err != q.err:
                return Fail(what + "messages differ " + self.diff(q.err, r.err))
        return OK

    def diff(self, a, b):
        if a is None or b is None:
            return "(one is missing)"
        if b"\0" not in a + b:
            for i, (x, y) in enumerate(zip(a.split(b"\n"), b.split(b"\n"))):
                if x != y:
                    return "on line %d: %r instead of %r" % (i + 1, x[-150:], y[-150:])
        k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return "at byte %d of %d and %d" % (k, len(a), len(b))

    def run_batch(self, ctx, cases):
        return [self.one(ctx, c) for c in cases]

    def fixed(self, ctx):
        yield "selfhost-builds", Fail(ctx.selfhost_error) if ctx.selfhost_error else OK
        if ctx.selfhost_error:
            return
        # The compiler's own sources, by all generations.
        for opts in ([], ["-O3", "-g"], ["-S", "-O1"], ["-E"], ["-dot", "-O2"]):
            mode = opts[:1] if opts[:1] in (["-S"], ["-E"], ["-dot"]) else ["-c"]
            w0 = ctx.work()

            def job(s):
                o = os.path.join(w0, "self-%s.out" % s.replace("/", "-"))
                first = None
                for w in ["lacc"] + [g[0] for g in ctx.GENERATIONS]:
                    r = run(STACK + [ctx.variants[w], "-std=c89"] + mode + [x for x in opts if x not in mode] + [
                        "-Iinclude", "-include", "config.h", s, "-o", o], cwd=ctx.src, cpu=60, mem=0)
                    data = b""
                    if os.path.exists(o):
                        with open(o, "rb") as f:
                            data = f.read()
                        os.unlink(o)
                    got = (r.code, r.out, r.err, data)
                    first = first or got
                    if got != first:
                        return Fail("lacc %s of %s by generation %s: exit status %d; %s" % (
                            " ".join(opts), s, w, r.code, self.diff(data, first[3])))
                return OK
            with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
                bad = [x for x in ex.map(job, ctx.sources()) if x is not OK] + [OK]
            yield "sources" + "".join(opts), bad[0]

    def render(self, ctx, cases):
        c = cases[0]
        out = {k.replace("./", ""): v for k, v in c.x.files.items()}
        out["how.txt"] = "lacc %s %s\ncompare lacc built by gcc with %s\n" % (
            " ".join(["-std=" + c.std, c.mode] + c.opts + c.x.opts), c.x.main, " and ".join(c.who))
        return out
