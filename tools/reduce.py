#!/usr/bin/env python3
"""Development aid: shrinks a C program on which lacc and gcc differ by
deleting token ranges.  reduce.py file.c MODE [substring of the message]"""
import multiprocessing as mp
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import toolchain, cdiff
from pbt.engine import Fail

TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|[A-Za-z_0-9.]+|<<=|>>=|->|\+\+|--|&&|\|\||[-+*/%&|^<>=!]=|<<|>>|\s+|.')


def test(job):
    toks, mode, want = job
    src = "".join(toks)
    ref, err = cdiff.reference(CTX, src, std=STD)
    if ref is None:
        return False
    f = cdiff.check_modes(CTX, src, ref.out, ref.code, [mode], std=STD)
    if not isinstance(f, Fail) or want and want not in f:
        return False
    return not cdiff.doubtful(CTX, src, STD, ref)


def spans(toks):
    """Interesting deletions: lines, statements, bracket groups, ranges."""
    n = len(toks)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            yield i, i + size, None
        size //= 2
    st = []
    for i, t in enumerate(toks):
        if t in "([{":
            st.append(i)
        elif t in ")]}" and st:
            j = st.pop()
            yield j, i + 1, ["0"]
            yield j, i + 1, None
            yield j, i + 1, toks[j + 1:i]
            k = j - 1
            while k >= 0 and not toks[k].strip():
                k -= 1
            yield k, i + 1, ["0"]
            yield k, i + 1, None


if __name__ == "__main__":
    path, mode = sys.argv[1:3]
    want = sys.argv[3] if len(sys.argv) > 3 else ""
    STD = os.environ.get("STD", "c99")
    CTX = toolchain.Build(["lacc"] + (["selfhost"] if mode == "self" else []))
    toks = TOK.findall(open(path).read())
    with mp.get_context("fork").Pool(8) as pool:
        assert test((toks, mode, want)), "does not fail"
        progress = True
        while progress:
            progress = False
            cands = []
            for a, b, rep in list(spans(toks)):
                cands.append((a, b, rep))
            i = 0
            while i < len(cands):
                block = cands[i:i + 16]
                i += 16
                js = [(toks[:a] + (r or []) + toks[b:], mode, want) for a, b, r in block]
                js = [j for j in js if len(j[0]) < len(toks)]
                for j, ok in zip(js, pool.map(test, js, 1)):
                    if ok:
                        toks = j[0]
                        progress = True
                        cands = list(spans(toks))
                        i = max(0, i - 64)
                        break
            sys.stderr.write("%d tokens\n" % len(toks))
    out = path[:-2] + ".red.c"
    open(out, "w").write("".join(toks))
    print("".join(toks))
