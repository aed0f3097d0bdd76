"""C17: compilation is a deterministic function of the source and the options."""
import os
import re
import shutil

from pbt.engine import Property, Case, Fail, Skip, OK
from pbt.toolchain import run, write, CLEAN_ENV
from pbt import corpus

SUFFIX = {"-c": ".o", "-S": ".s", "-dot": ".dot", "-E": None, "exe": ".o"}


def options(src):
    o = []
    if src.chance(45):
        o.append("-O%d" % src.choice([1, 1, 2, 3]))
    for p, x in ((30, "-g"), (20, "-fno-PIC"), (15, "-fno-common"), (6, "-v"), (5, "-w"), (5, "--dump-symbols"),
                 (5, "--dump-types"), (5, "-DX_OPTION=3")):
        if src.chance(p):
            o.append(x)
    return o


class P(Property):
    id = "C17"
    rule = ("two to six files compiled in one invocation, whose outputs and messages must be those of separate invocations; "
            "or one file compiled repeatedly while environment variables, heap contents, address layout, directory, "
            "name of the output, and standard streams change, with byte-identical output; non-trivial: at least two files "
            "accepted, or output of at least 200 bytes")
    batch = 6
    quick_cases = 6000
    thorough_factor = 12
    assumptions = ["the generated files do not use __DATE__ and __TIME__"]

    def gen(self, src, index):
        if src.chance(60):
            return self.many(src)
        return self.environment(src)

    def many(self, src):
        n = src.weighted([(6, 2), (4, 3), (1, 6)])
        ins = []
        good = src.chance(80)
        while len(ins) < n:
            k = len(ins)
            if src.chance(20):
                x = corpus.sized(src, "t%d.c" % k)[0]
            else:
                x = corpus.one(src, "t%d.c" % k, kinds=None if not good else GOOD)
            if x.kind == "c12" and ins:
                continue
            ins.append(x)
        mode = src.weighted([(5, "-c"), (4, "-S"), (3, "-E"), (1, "-dot"), (2, "exe")])
        std = ins[0].std if src.chance(70) else src.choice(["c89", "c99", "c11"])
        opts = options(src)
        if mode == "-E":
            opts = [o for o in opts if not o.startswith("--dump")]
        tags = {"many", "files:%d" % n, mode} | {x.kind for x in ins}
        c = Case(key="".join(x.text() for x in ins) + mode + " ".join(opts), tags=tags, kind="many", ins=ins, mode=mode,
                 opts=opts, std=std, sample="".join(x.text()[:500] for x in ins), nontrivial=False)
        return c

    def environment(self, src):
        if src.chance(15):
            x = corpus.sized(src)[0]
        else:
            x = corpus.one(src)
        mode = src.weighted([(5, "-c"), (4, "-S"), (3, "-E"), (1, "-dot")])
        vs = []
        for _ in range(src.int(2, 3)):
            v = {}
            k = src.draw(9)
            if k == 0:
                v["env"] = {"FILLER_%d" % i: "x" * src.draw(3000) for i in range(src.int(1, 6))}
            elif k == 1:
                v["env"] = {"MALLOC_PERTURB_": str(src.int(1, 255))}
            elif k == 2:
                v["env"] = src.choice([{"LANG": "de_DE.UTF-8", "LC_ALL": "de_DE.UTF-8", "LC_NUMERIC": "de_DE"}, {"TZ": "UTC+9"},
                                       {"HOME": "/tmp", "TERM": "dumb"}, {"SOURCE_DATE_EPOCH": "1"}, {"C_INCLUDE_PATH": "/usr"},
                                       {"CPATH": "/usr/share"}, {"POSIXLY_CORRECT": "1"}, {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"},
                                       {"MALLOC_ARENA_MAX": "1", "MALLOC_TOP_PAD_": "100000"}, {"COLUMNS": "20"}])
            elif k == 3:
                v["aslr"] = True
            elif k == 4:
                v["dir"] = src.choice(["another", "a/b/c", "with space", "x" * 150])
            elif k == 5:
                v["out"] = src.choice(["other.name", "sub/dir/out.o", "./out", "default", "/dev/stdout"])
            elif k == 6:
                v["again"] = True
            elif k == 7:
                v["stale"] = src.choice([b"x" * 100000, b"", b"\x7fELF"])
            else:
                v["stack"] = src.choice(["512", "4096", "65536"])
            vs.append(v)
        opts = options(src)
        std = x.std if src.chance(70) else src.choice(["c89", "c99", "c11"])
        tags = {"environment", mode, x.kind} | {k for v in vs for k in v}
        return Case(key=x.text() + mode + " ".join(opts) + str(vs), tags=tags, kind="environment", ins=[x], mode=mode, opts=opts,
                    std=std, vs=vs, sample=x.text()[:800] + str(vs), nontrivial=False)

    def put(self, d, c, only=None):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for x in c.ins if only is None else [only]:
            for name, text in x.files.items():
                q = os.path.join(d, name)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                write(q, text)

    def command(self, ctx, c):
        m = [] if c.mode == "exe" else [c.mode]
        cmd = [ctx.lacc, "-std=" + c.std] + m + c.opts
        for x in c.ins:
            if x.kind == "c12":
                cmd += x.opts
        return cmd

    def check_many(self, ctx, c, base):
        d = os.path.join(base, "all")
        cmd = self.command(ctx, c)
        names = [x.main for x in c.ins]
        out = [self.output(c, n) for n in names]
        if len(set(out)) < len(out):
            return OK
        self.put(d, c)
        r = run(cmd + names + (["-o", "prog"] if c.mode == "exe" else []), cwd=d, cpu=40)
        if r.timeout:
            return OK
        text = b""
        err = b""
        accepted = 0
        for x, o in zip(c.ins, out):
            s = os.path.join(base, "one")
            self.put(s, c)
            # The executable's objects are those of -c.
            one = [cmd[0], "-c"] + cmd[1:] if c.mode == "exe" else cmd
            q = run(one + [x.main], cwd=s, cpu=30)
            if q.timeout:
                return OK
            text += q.out
            err += q.err
            if q.code and q.code != 1:
                return OK           # C15's and C16's concern
            a, b = self.read(s, o), self.read(d, o)
            if o and a != b:
                return Fail("%s of %s differs from that of a separate invocation of lacc %s: %s%s" % (
                    o, " ".join(names), " ".join(cmd[1:]), self.diff(b, a),
                    "" if r.code == q.code else "; exit status %d and %d: %s" % (r.code, q.code, r.err[-300:])))
            if q.code:
                break
            accepted += 1
        if r.out != text and c.mode != "exe":
            return Fail("standard output of %s is not that of separate invocations of lacc %s: %s" % (
                " ".join(names), " ".join(cmd[1:]), self.diff(r.out, text)))
        if c.mode != "exe" or accepted < len(c.ins):
            if r.err != err:
                return Fail("messages for %s are not those of separate invocations of lacc %s: %s" % (
                    " ".join(names), " ".join(cmd[1:]), self.diff(r.err, err)))
            if bool(r.code) != (accepted < len(c.ins)):
                return Fail("lacc %s %s exits with %d, separate invocations with %d" % (
                    " ".join(cmd[1:]), " ".join(names), r.code, q.code))
        c.nontrivial = accepted >= 2
        return OK

    def output(self, c, name):
        s = SUFFIX[c.mode]
        return os.path.basename(name).rsplit(".", 1)[0] + s if s else None

    def read(self, d, name):
        if not name:
            return None
        try:
            with open(os.path.join(d, name), "rb") as f:
                return f.read()
        except OSError:
            return None

    def diff(self, a, b):
        if a is None or b is None:
            return "%s is missing" % ("the first" if a is None else "the second")
        if len(a) < 4000000 and b"\0" not in a + b:
            for i, (x, y) in enumerate(zip(a.split(b"\n"), b.split(b"\n"))):
                if x != y:
                    return "line %d is %r and %r" % (i + 1, x[-150:], y[-150:])
        k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return "at byte %d of %d and %d" % (k, len(a), len(b))

    def once(self, ctx, c, base, v):
        x = c.ins[0]
        d = os.path.join(base, v.get("dir", "first"))
        if not v.get("again"):
            self.put(d, c)
        cmd = self.command(ctx, c) + [x.main]
        out = v.get("out", "out")
        if out == "default":
            out = self.output(c, x.main)
            if out is None:
                out = "/dev/stdout"
        else:
            if out.startswith("sub/"):
                os.makedirs(os.path.join(d, "sub/dir"), exist_ok=True)
            cmd += ["-o", out]
        if "stale" in v:
            with open(os.path.join(d, out), "wb") as f:
                f.write(v["stale"])
        if v.get("aslr"):
            cmd = ["setarch", "-R"] + cmd
        if "stack" in v:
            cmd = ["sh", "-c", 'ulimit -s %s 2>/dev/null; exec "$0" "$@"' % v["stack"]] + cmd
        env = dict(CLEAN_ENV, **v.get("env", {}))
        r = run(cmd, cwd=d, cpu=30, env=env)
        if out == "/dev/stdout":
            return r.code, r.out, None, r.err, r
        if not os.path.isfile(os.path.join(d, out)):
            return r.code, None, r.out, r.err, r
        return r.code, self.read(d, out), r.out, r.err, r

    def check_environment(self, ctx, c, base):
        a = self.once(ctx, c, base, {})
        if a[0] not in (0, 1):
            return OK
        c.nontrivial = a[0] == 0 and len(a[1] or b"") >= 200
        for v in c.vs:
            if "stack" in v and c.ins[0].kind == "sized":
                continue
            if (v.get("out") == "/dev/stdout" or c.mode == "-E" and v.get("out") == "default") and (any(o.startswith("--dump") or o == "-v" for o in c.opts)):
                continue
            b = self.once(ctx, c, base, v)
            if b[0] in (126, 127) and b[0] != a[0]:
                return Skip("not run: " + str(sorted(v)))
            what = "lacc %s with %s: " % (" ".join(self.command(ctx, c)[1:]), str(v)[:200])
            if a[0] != b[0]:
                return Fail(what + "exit status %d and %d %s" % (b[0], a[0], b[3][-300:]))
            if a[0] == 0 and a[1] != b[1]:
                return Fail(what + "output differs: " + self.diff(b[1], a[1]))
            if b[2] is not None and a[2] != b[2]:
                return Fail(what + "standard output differs: " + self.diff(b[2], a[2]))
            if a[3] != b[3]:
                return Fail(what + "messages differ: " + self.diff(b[3], a[3]))
        return OK

    def one(self, ctx, c):
        base = os.path.join(ctx.work(), "c17")
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        return self.check_many(ctx, c, base) if c.kind == "many" else self.check_environment(ctx, c, base)

    def run_batch(self, ctx, cases):
        return [self.one(ctx, c) for c in cases]

    def render(self, ctx, cases):
        c = cases[0]
        out = {}
        for x in c.ins:
            out.update({k.replace("./", ""): v for k, v in x.files.items()})
        out["how.txt"] = "%s %s\n%s\n" % (" ".join(["lacc"] + self.command(ctx, c)[1:]), " ".join(x.main for x in c.ins),
                                          "compare with separate invocations" if c.kind == "many" else
                                          "compare with: " + str(c.vs))
        return out


GOOD = {"c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c12", "c14", "headers", "trivial"}
