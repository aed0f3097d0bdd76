"""C16: lacc is free of memory errors on any program it accepts."""
import os
import re
import shutil
from concurrent.futures import ThreadPoolExecutor

from pbt.engine import Property, Case, Fail, Skip, OK
from pbt.toolchain import run, write, CLEAN_ENV
from pbt import corpus, cdiff

SAN = dict(CLEAN_ENV, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=86:detect_stack_use_after_return=1"
           ":strict_string_checks=1:allocator_may_return_null=1:handle_abort=1",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=86", MSAN_OPTIONS="exitcode=86:poison_in_malloc=1")
REPORT = re.compile(r"(ERROR: AddressSanitizer[^\n]*|runtime error: [^\n]*|WARNING: MemorySanitizer[^\n]*|[^\n]*Assertion [^\n]* failed[^\n]*)")
FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ (?:in )?(\w+)")
TARGETS = [(10, ["-c"]), (8, ["-S"]), (5, ["-E"]), (2, ["-dot"])]


def options(src):
    o = list(src.weighted(TARGETS))
    if src.chance(50):
        o.append("-O%d" % src.choice([1, 1, 2, 3]))
    for p, x in ((25, "-g"), (20, "-fno-PIC"), (10, "-v"), (15, "-fno-common"), (5, "-w"), (5, "-pedantic"),
                 (5, "--dump-symbols"), (5, "--dump-types"), (3, "-mno-sse")):
        if src.chance(p):
            o.append(x)
    return o


class P(Property):
    id = "C16"
    rule = ("an input of one of two kinds: a file from the generators of the other checks, with random options, or a file with "
            "some dimension (number of declarations, members, parameters, labels, blocks, nesting, length of line, string, "
            "macro, ...) at a size around a power of two up to 2^13, or up to three such; or a program with such a "
            "dimension whose output must be that of the program compiled by gcc; non-trivial: accepted by lacc")
    variants = ("lacc", "asan", "msan")
    batch = 4
    quick_cases = 2600
    thorough_factor = 15
    assumptions = ["AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer report what executed code does wrong; "
                   "errors on paths no generated input reaches, and overruns within one object, are not seen"]

    def gen(self, src, index):
        if src.chance(18):
            text, k, n = corpus.observed(src)
            mode = src.choice(["c", "c-O1", "S", "c-O2", "S-O1", "c-g", "E", "c-nopic"])
            return Case(key=text + mode, tags={"result", "%s:2^%d" % (k, n.bit_length() - 1), mode}, kind="result", text=text,
                        mode=mode, sample=text[:1500], nontrivial=n > 8)
        ins = []
        tags = set()
        for i in range(src.weighted([(9, 1), (1, 2), (1, 3)])):
            if src.chance(45):
                x, t = corpus.sized(src, "t%d.c" % i)
                tags |= set(t)
                tags.add("sized")
            else:
                x = corpus.one(src, "t%d.c" % i)
                tags.add(x.kind)
            if src.chance(15):
                x.files[x.main] = corpus.raw(src, x.files[x.main])
                tags.add("raw bytes")
            ins.append(x)
        opts = options(src)
        which = src.choice(["asan", "asan", "msan"])
        std = ins[0].std if src.chance(80) else src.choice(["c89", "c99", "c11"])
        key = "".join(x.text() for x in ins) + " ".join(opts) + which
        if len(ins) > 1:
            tags.add("files")
        return Case(key=key, kind="sanitize", tags=tags | set(opts), ins=ins, opts=opts, which=which, std=std, sample=ins[0].text()[:1500],
                    nontrivial=False)

    def command(self, c):
        cmd = ["-std=" + c.std] + c.opts
        for x in c.ins[:1]:
            cmd += x.opts
        return cmd + [x.main for x in c.ins]

    def result(self, ctx, c):
        """Entries made before a table grew are intact: the program works."""
        ref, err = cdiff.reference(ctx, c.text, std="c99")
        if ref is None:
            return Skip("gcc: " + (err or "")[:80])
        return cdiff.check_modes(ctx, c.text, ref.out, ref.code, [c.mode], std="c99")

    def one(self, ctx, c):
        if c.kind == "result":
            return self.result(ctx, c)
        d = os.path.join(ctx.work(), "c16")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for x in c.ins:
            for name, text in x.files.items():
                q = os.path.join(d, name)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                write(q, text)
        cmd = self.command(c)
        # Instrumented frames are several times larger.
        r = run(["sh", "-c", 'ulimit -s 1000000; exec "$0" "$@"', ctx.variants[c.which]] + cmd, cwd=d, cpu=60, mem=0, env=SAN)
        # Accepted means that the plain build accepts.
        err = r.err.decode("latin-1")
        m = REPORT.search(err)
        if not m and not r.crashed:
            c.nontrivial = r.code == 0
            return OK
        p = run([ctx.lacc] + cmd, cwd=d, cpu=30)
        ok = p.code == 0
        if not ok and all(x.valid and x.kind != "mutate" for x in c.ins) and p.crashed:
            ok = True
        if r.timeout and not m:
            if p.timeout:
                return Fail("lacc %s does not end in 30 s of CPU time" % " ".join(cmd)) if ok else OK
            return Skip("time out of the instrumented build")
        if not ok:
            return OK
        frames = [f for f in FRAME.findall(err[m.start():] if m else err) if not f.startswith("__")][:5]
        return Fail("%s in %s (%s build, lacc %s)\n%s" % (
            re.sub(r"0x[0-9a-f]+|==\d+==|\bpc .*", "", m[1]) if m else "status %d" % r.code, " < ".join(frames), c.which,
            " ".join(cmd), "\n".join(l for l in err.split("\n") if "runtime error" in l)[:300]))

    def run_batch(self, ctx, cases):
        return [self.one(ctx, c) for c in cases]

    def render(self, ctx, cases):
        c = cases[0]
        if c.kind == "result":
            return {"repro.c": c.text, "how.txt": "compare the output of the program with that of gcc; mode %s\n" % c.mode}
        out = {}
        for x in c.ins:
            out.update({k.replace("./", ""): v for k, v in x.files.items()})
        out["how.txt"] = "lacc built with %s: lacc %s\n" % (c.which, " ".join(self.command(c)))
        return out

    # The compiler's own sources, in all forms of output.
    def fixed(self, ctx):
        src = os.path.join(ctx.src, "src")
        files = [os.path.join(d, f) for d, _, fs in sorted(os.walk(src)) for f in sorted(fs) if f.endswith(".c")]
        w = ctx.work()

        def job(a):
            which, k, f, opts = a
            amal = ["-DAMALGAMATION"] if os.path.basename(f) == "lacc.c" else []
            cmd = ["-std=c89", "-I", "include", "-include", "config.h"] + amal + opts + [
                os.path.relpath(f, ctx.src), "-o", os.path.join(w, "self-%s-%d%s" % (which, k, opts[0]))]
            r = run(["sh", "-c", 'ulimit -s 1000000; exec "$0" "$@"', ctx.variants[which]] + cmd,
                    cwd=ctx.src, cpu=200, mem=0, env=SAN)
            m = REPORT.search(r.err.decode("latin-1"))
            if (m or r.crashed) and not run([ctx.lacc] + cmd, cwd=ctx.src, cpu=60).code:
                return Fail("%s build, lacc %s: %s" % (which, " ".join(cmd), m[1] if m else "status %d" % r.code))
            return None
        for which in ("asan", "msan"):
            jobs = []
            for k, f in enumerate(files):
                if (k + (which == "msan")) % 2 and os.path.basename(f) != "lacc.c":
                    continue
                for opts in (["-c", "-O1", "-g"], ["-E"]) if k % 3 else (["-S", "-O3"], ["-dot"]):
                    jobs.append((which, k, f, opts))
            with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
                bad = [x for x in ex.map(job, jobs) if x]
            yield "sources-" + which, bad[0] if bad else OK

    def known_still_fails(self, ctx, k):
        """A function of k["blocks"] blocks."""
        f = os.path.join(ctx.work(), "known.c")
        write(f, "int f(int x) {\n" + "".join("if (x > %d) x++; else x--;\n" % i for i in range(k["blocks"])) + "return x; }\n")
        r = run([ctx.lacc, "-c", f, "-o", f[:-2] + ".o"], cwd=ctx.work(), cpu=20)
        return r.code in (-11, 139)
