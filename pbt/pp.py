"""Preprocessing tokens of C, and running -E of the compilers."""
import os
import re
from pbt.toolchain import run, write
from pbt import cdiff

TOKEN = re.compile(r'''
    (?P<ws>[ \t\v\f\r\n]+)
  | (?P<str>"(?:\\.|[^"\\\n])*")
  | (?P<chr>'(?:\\.|[^'\\\n])*')
  | (?P<num>\.?[0-9](?:[eEpP][+-]|[0-9A-Za-z_.\x80-\xff])*)
  | (?P<id>[A-Za-z_\x80-\xff][A-Za-z0-9_\x80-\xff]*)
  | (?P<op>\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&^|]=|\#\#|.)
''', re.X | re.S)


def tokens(text):
    """Spelling of all preprocessing tokens in text; line markers removed."""
    if isinstance(text, bytes):
        text = text.decode("latin-1")
    # gcc prints extended characters as universal character names.
    text = re.sub(r"\\U0000([0-9a-f]{4})", lambda m: chr(int(m[1], 16)).encode().decode("latin-1"), text)
    return [m[0] for m in TOKEN.finditer(text) if m.lastgroup != "ws"]


def preprocess(cc, args, path, cwd, std, cpu=10):
    """(tokens or None, message)"""
    r = run(cc + ["-E", "-std=" + std] + args + [path], cwd=cwd, cpu=cpu, wall=60)
    if r.timeout or r.code < 0:
        return None, "exit %s%s: %s" % (r.code, " (time out)" if r.timeout else "", cdiff.text_of(r.err)[-400:]), r
    if r.code:
        return None, cdiff.text_of(r.err)[:4000], r
    return tokens(r.out), None, r


def split(toks, marker):
    """Sections introduced by `marker NUMBER`: {number: tokens}; tokens in
    front of the first are dropped."""
    out = {}
    cur = None
    i = 0
    while i < len(toks):
        if toks[i] == marker and i + 1 < len(toks):
            cur = out.setdefault(toks[i + 1], [])
            i += 2
            continue
        if cur is not None:
            cur.append(toks[i])
        i += 1
    return out


def diff(exp, got):
    for i, (a, b) in enumerate(zip(exp, got)):
        if a != b:
            return "token %d is %s, expected %s (after: %s)" % (i + 1, b, a, " ".join(exp[max(0, i - 6):i]))
    if len(exp) > len(got):
        return "lacks %s (after: %s)" % (exp[len(got)], " ".join(got[-6:]))
    if len(got) > len(exp):
        return "has %s in excess (after: %s)" % (got[len(exp)], " ".join(exp[-6:]))
    return None
