"""Builds lacc from /repo's working tree, and runs compilers and programs."""
import atexit
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("LACC_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
CLEAN_ENV = {
    "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "HOME": "/nonexistent",
}


class R:
    """Result of a process."""
    __slots__ = ("code", "out", "err", "timeout")

    def __init__(self, code, out, err, timeout=False):
        self.code, self.out, self.err, self.timeout = code, out, err, timeout

    @property
    def crashed(self):
        return self.timeout or self.code < 0


LAUNCHER = None            # limit.c, built by Build


def run(cmd, cwd=None, cpu=10, mem=4 << 30, fsize=64 << 20, stdin=None,
        env=None, wall=120):
    """Runs a command under resource limits. Time is limited in CPU seconds,
    so a loaded machine does not turn into a failure."""
    if LAUNCHER:
        cmd = [LAUNCHER, str(cpu), str(mem), str(fsize)] + cmd
    try:
        p = subprocess.Popen(
            cmd, cwd=cwd, stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE,
            env=env or CLEAN_ENV, start_new_session=True)
    except OSError as e:
        return R(127, b"", str(e).encode())
    try:
        out, err = p.communicate(stdin, timeout=wall)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, err = p.communicate()
        return R(-9, out, err, True)
    return R(p.returncode, out, err, p.returncode in (-24, -9))


class Build:
    """A scratch directory with a copy of /repo's sources and builds of it."""

    def __init__(self, variants):
        base = os.environ.get("VERIF_SCRATCH", tempfile.gettempdir())
        self.dir = tempfile.mkdtemp(prefix="verif-lacc-", dir=base)
        self.pid = os.getpid()
        atexit.register(self.cleanup)
        global LAUNCHER
        LAUNCHER = None
        limit = os.path.join(self.dir, "limit")
        r = run(["gcc", "-O1", "-static", os.path.join(HERE, "limit.c"), "-o", limit])
        if r.code:
            r = run(["gcc", "-O1", os.path.join(HERE, "limit.c"), "-o", limit])
        if r.code:
            self.die("limit.c", r)
        LAUNCHER = limit
        src = os.path.join(self.dir, "repo")
        os.makedirs(src)
        for name in ("src", "include", "lib"):
            shutil.copytree(os.path.join(REPO, name), os.path.join(src, name))
        for name in ("configure", "Makefile"):
            shutil.copy(os.path.join(REPO, name), src)
        self.src = src
        self.lib = os.path.join(src, "lib")
        r = run(["sh", "./configure", "CC=gcc", "--libdir=" + self.lib], cwd=src, cpu=60)
        if r.code:
            self.die("configure", r)
        r = run(["make"], cwd=src, cpu=300, wall=600)
        if r.code or not os.path.exists(src + "/bin/lacc"):
            self.die("make", r)
        self.lacc = src + "/bin/lacc"
        self.inc = ["-I", "include", "-include", "config.h", "-DAMALGAMATION"]
        self.variants = {"lacc": self.lacc}
        jobs = [v for v in variants if v != "lacc"]
        if jobs:
            failed = []

            def build(v):
                try:
                    getattr(self, "build_" + v)()
                except SystemExit:
                    failed.append(v)
            ts = [threading.Thread(target=build, args=(v,)) for v in jobs]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if failed:
                sys.exit(2)
        # Runtime for generated programs.
        self.rt = os.path.join(self.dir, "rt.o")
        r = run(["gcc", "-O1", "-c", "-fno-stack-protector", "-fno-pie", "-ffreestanding",
                 "-fcf-protection=none", "-mno-red-zone",
                 os.path.join(HERE, "rt.c"), "-o", self.rt], cpu=60)
        if r.code:
            self.die("rt.c", r)

    def die(self, what, r):
        sys.stdout.write("build of lacc failed (%s)\n" % what)
        sys.stdout.write((r.out + r.err).decode("utf-8", "replace")[-3000:])
        sys.stdout.flush()
        sys.exit(2)

    def build_asan(self):
        out = os.path.join(self.dir, "lacc-asan")
        r = run(["gcc", "-std=gnu89", "-g", "-O1", "-w", "-fsanitize=address,undefined",
                 # memset of no bytes at null has no effect on any result.
                 "-fno-sanitize=nonnull-attribute,alignment", "-fno-sanitize-recover=undefined"] + self.inc +
                ["src/lacc.c", "-o", out], cwd=self.src, cpu=300, mem=0, wall=600)
        if r.code:
            self.die("asan", r)
        self.variants["asan"] = out

    def build_msan(self):
        """Reads of uninitialized memory; clang has this, gcc does not."""
        out = os.path.join(self.dir, "lacc-msan")
        r = run(["clang", "-std=gnu89", "-g", "-O1", "-w", "-fsanitize=memory", "-fno-sanitize-recover=all"] + self.inc +
                ["src/lacc.c", "-o", out], cwd=self.src, cpu=300, mem=0, wall=600)
        if r.code:
            self.die("msan", r)
        self.variants["msan"] = out

    # name: (compiled by, options, how)
    GENERATIONS = [
        ("boot-O0", "lacc", [], "files"),
        ("boot-O3", "lacc", ["-O3", "-fno-PIC"], "files"),
        ("self-O1", "boot-O0", ["-O1"], "files"),
        ("self-O3", "boot-O3", ["-O3"], "whole"),
        ("self-S", "boot-O3", ["-S", "-O2", "-std=c99"], "files"),
        ("self-O0", "self-O1", [], "files"),
    ]

    def sources(self):
        """Files compiled separately in a build without amalgamation."""
        try:
            mak = open(self.src + "/config.mak").read()
            srcs = re.findall(r"src/\S+\.c", re.search(r"^SOURCES = \\\n((?:\t.*\n)*)", mak, re.M)[1])
        except (OSError, TypeError):
            srcs = []
        if not srcs:
            for d, _, fs in os.walk(self.src + "/src"):
                srcs += [os.path.relpath(os.path.join(d, f), self.src) for f in fs if f.endswith(".c")]
        return sorted(srcs)

    def compile_self(self, cc, opts, how, d):
        """Compiles lacc with itself; returns an error message, or None."""
        os.makedirs(d, exist_ok=True)
        amal = ["-DAMALGAMATION"] if how == "whole" else []

        def one(s):
            o = os.path.join(d, os.path.basename(s)[:-2])
            cmd = [cc, "-std=c89"] + opts + amal + ["-Iinclude", "-include", "config.h"]
            if "-S" in opts:
                r = run(cmd + [s, "-o", o + ".s"], cwd=self.src, cpu=60)
                if not r.code:
                    r = run(["as", o + ".s", "-o", o + ".o"], cwd=self.src, cpu=60)
            else:
                r = run(cmd + ["-c", s, "-o", o + ".o"], cwd=self.src, cpu=60)
            if r.code or r.timeout:
                return "%s cannot compile %s (exit status %d): %s" % (
                    " ".join(cmd), s, r.code, r.err.decode("utf-8", "replace")[-500:])
            return None
        srcs = ["src/lacc.c"] if how == "whole" else self.sources()
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for e in ex.map(one, srcs):
                if e:
                    return e
        objs = [os.path.join(d, os.path.basename(s)[:-2] + ".o") for s in srcs]
        pie = ["-no-pie"] if "-fno-PIC" in opts else []
        r = run(["gcc"] + pie + objs + ["-o", os.path.join(d, "lacc")], cpu=60)
        if r.code:
            return "does not link: " + r.err.decode("utf-8", "replace")[-500:]
        return None

    def build_selfhost(self):
        """lacc compiled by lacc, in several generations."""
        self.selfhost_error = None
        for name, by, opts, how in self.GENERATIONS:
            e = self.compile_self(self.variants[by], opts, how, os.path.join(self.dir, name))
            if e:
                self.selfhost_error = "%s: %s" % (name, e)
                return
            self.variants[name] = os.path.join(self.dir, name, "lacc")

    def cleanup(self):
        if os.getpid() == self.pid and self.dir.startswith(
                os.environ.get("VERIF_SCRATCH", tempfile.gettempdir())) \
                and "verif-lacc-" in self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)

    _work = None

    def work(self):
        """A scratch directory of this worker process."""
        if self._work is None or self._work[0] != os.getpid():
            d = tempfile.mkdtemp(prefix="w", dir=self.dir)
            self._work = (os.getpid(), d)
        return self._work[1]


# Reference compiler: GNU C with the same signedness and layout choices.
GCC = ["gcc", "-w", "-fno-stack-protector", "-fcf-protection=none", "-fno-builtin"]


def write(path, text):
    with open(path, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode("latin-1"))
