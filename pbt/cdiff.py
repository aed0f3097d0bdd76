"""Compile generated C with lacc and with the reference, run, compare."""
import os
from .engine import Fail, Skip, OK
from .toolchain import run, write, GCC

PRELUDE = """\
void oi(int, long); void of(int, float); void od(int, double);
void ol(int, long double); void om(int, const void *, unsigned long);
void os(const char *);
void rt_scramble(void);
"""


def text_of(b):
    return b.decode("utf-8", "replace")


def compile_ref(ctx, src, tag="ref", std="c99", cc="gcc", opts=("-O0",), objs=(), link=True):
    w = ctx.work()
    c, o, x = (os.path.join(w, tag + e) for e in (".c", ".o", ".out"))
    write(c, src)
    base = GCC if cc == "gcc" else ["clang", "-w", "-fno-builtin", "-fcf-protection=none"]
    r = run(base + list(opts) + ["-std=" + std, "-fno-pie", "-c", c, "-o", o], cwd=w, cpu=60)
    if r.code:
        return None, text_of(r.err)[:1500]
    if not link:
        return o, None
    return do_link(ctx, [o] + list(objs), x)


def do_link(ctx, objs, out):
    r = run(["ld", "--no-warnings", "-o", out, ctx.rt] + objs, cwd=ctx.work(), cpu=20)
    if r.code:
        r = run(["ld", "-o", out, ctx.rt] + objs, cwd=ctx.work(), cpu=20)
        if r.code:
            return None, "link: " + text_of(r.err)[:1500]
    return out, None


MODES = {
    "c": ["-c"],
    "c-O1": ["-c", "-O1"],
    "c-O2": ["-c", "-O2"],
    "c-O3": ["-c", "-O3"],
    "c-nopic": ["-c", "-fno-PIC"],
    "c-nopic-O1": ["-c", "-fno-PIC", "-O1"],
    "c-g": ["-c", "-g"],
    "S": ["-S"],
    "S-O1": ["-S", "-O1"],
    "S-nopic": ["-S", "-fno-PIC"],
    "E": ["-E"],
    "self": ["-c"],
}


def compile_lacc(ctx, src, mode="c", tag="t", std="c99", extra=(), lacc=None):
    """Object file made by lacc in the given mode, or (None, message)."""
    w = ctx.work()
    c, o, s, i = (os.path.join(w, tag + "-" + mode + e) for e in (".c", ".o", ".s", ".i"))
    if src is not None:
        write(c, src)
    lacc = lacc or ctx.variants["selfhost" if mode == "self" else "lacc"]
    flags = MODES[mode]
    base = [lacc, "-std=" + std] + list(extra)
    try:
        os.unlink(o)
    except OSError:
        pass
    if mode == "E":
        r = run(base + ["-E", c, "-o", i], cwd=w)
        if r.code or r.timeout:
            return None, "lacc -E exits with %d: %s" % (r.code, text_of(r.err)[-800:])
        r = run(base + ["-c", i, "-o", o], cwd=w)
        if r.code or r.timeout:
            return None, "lacc -c of preprocessed text exits with %d: %s" % (
                r.code, text_of(r.err)[-800:])
    elif mode.startswith("S"):
        r = run(base + flags + [c, "-o", s], cwd=w)
        if r.code or r.timeout:
            return None, "lacc %s exits with %d: %s" % (
                " ".join(flags), r.code, text_of(r.err)[-800:])
        r = run(["as", s, "-o", o], cwd=w, cpu=20)
        if r.code:
            return None, "as rejects the output of lacc -S: " + text_of(r.err)[:800]
    else:
        r = run(base + flags + [c, "-o", o], cwd=w)
        if r.code or r.timeout:
            return None, "lacc %s exits with %d: %s" % (
                " ".join(flags), r.code, text_of(r.err)[-800:])
    if not os.path.exists(o):
        return None, "lacc exits with 0 but writes no output"
    return o, None


def run_program(ctx, exe, cpu=5):
    return run([exe], cwd=ctx.work(), cpu=cpu, wall=60)


def describe(r):
    if r.timeout or r.code in (-24,):
        return "does not terminate"
    if r.code < 0:
        return "killed by signal %d" % -r.code
    return "exits with %d" % r.code


def first_difference(exp, got):
    e, g = text_of(exp).split("\n"), text_of(got).split("\n")
    for i in range(max(len(e), len(g))):
        a = e[i] if i < len(e) else "(end)"
        b = g[i] if i < len(g) else "(end)"
        if a != b:
            return "output line %d: expected '%s', got '%s'" % (i + 1, a[:200], b[:200])
    return "no difference"


def check_modes(ctx, src, expected, code, modes, std="c99", objs=(), extra=()):
    """Fail if a mode does not reproduce the expected output and exit code."""
    for mode in modes:
        o, err = compile_lacc(ctx, src, mode, std=std, extra=extra)
        if o is None:
            return Fail("[%s] %s" % (mode, err))
        x, err = do_link(ctx, [o] + list(objs), o[:-2] + ".out")
        if x is None:
            return Fail("[%s] %s" % (mode, err))
        r = run_program(ctx, x)
        if r.code != code or r.timeout:
            return Fail("[%s] program %s, expected exit status %d; %s" % (
                mode, describe(r), code, first_difference(expected, r.out)))
        if r.out != expected:
            return Fail("[%s] %s" % (mode, first_difference(expected, r.out)))
    return OK


def reference(ctx, src, std="c99", objs=(), opts=("-O0",), cc="gcc", tag="ref"):
    x, err = compile_ref(ctx, src, std=std, objs=objs, opts=opts, cc=cc, tag=tag)
    if x is None:
        return None, "%s rejects: %s" % (cc, err)
    r = run_program(ctx, x)
    if r.timeout or r.code < 0 or r.code == 99:
        return None, "%s program %s" % (cc, describe(r))
    return r, None


def doubtful(ctx, src, std, ref, objs=()):
    """Before a mismatch counts: do other compilations with the reference
    agree, and do sanitizers find nothing undefined? Returns a reason to
    disregard the case, or None."""
    for cc, opts in (("gcc", ("-O2", "-fno-strict-aliasing")), ("clang", ("-O0",)), ("clang", ("-O1",))):
        r, err = reference(ctx, src, std, objs, opts, cc, tag="alt")
        if r is None:
            return err
        if r.out != ref.out or r.code != ref.code:
            return "references disagree (%s %s)" % (cc, opts[0])
    return sanitize(ctx, src, std)


SANITIZERS = (
    ("gcc", ["-fsanitize=address,undefined", "-fno-sanitize=alignment",
             "-fno-sanitize-recover=all"]),
    ("clang", ["-fsanitize=memory"]),
)


def sanitize(ctx, src, std="c99"):
    """A reason to believe that the program has undefined behaviour."""
    w = ctx.work()
    c, x = os.path.join(w, "san.c"), os.path.join(w, "san.out")
    write(c, src)
    rt = os.path.join(os.path.dirname(os.path.abspath(__file__)), "rt_hosted.c")
    for cc, flags in SANITIZERS:
        r = run([cc, "-w", "-g", "-O0", "-std=" + std, "-fno-builtin"] + flags +
                [c, rt, "-o", x], cwd=w, cpu=60, mem=0)
        if r.code:
            return "sanitizer build: " + text_of(r.err)[:500]
        r = run([x], cwd=w, cpu=20, mem=0,
                env={"PATH": "/usr/bin:/bin",
                     "ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1"})
        t = text_of(r.err)
        if "runtime error" in t or "AddressSanitizer" in t or "MemorySanitizer" in t:
            return "undefined behaviour: " + t[:400]
    return None
