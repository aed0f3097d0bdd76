"""Reading relocatable ELF files, and a form of them in which two encodings of
the same assembly program are equal."""
import re
import struct

KIND = {0: "NOTYPE", 1: "OBJECT", 2: "FUNC", 3: "SECTION", 4: "FILE"}
BIND = {0: "LOCAL", 1: "GLOBAL", 2: "WEAK"}


class Sym:
    __slots__ = ("name", "value", "size", "kind", "bind", "vis", "sec")


class Sec:
    __slots__ = ("name", "type", "flags", "offset", "size", "link", "info", "align", "entsize", "data", "relocs")


class Elf:
    def __init__(self, path):
        with open(path, "rb") as f:
            b = f.read()
        if b[:4] != b"\x7fELF" or b[4] != 2 or b[5] != 1:
            raise ValueError("not a 64-bit little-endian ELF file")
        self.type, self.machine = struct.unpack_from("<HH", b, 16)
        shoff, = struct.unpack_from("<Q", b, 40)
        shentsize, shnum, shstrndx = struct.unpack_from("<HHH", b, 58)
        self.secs = []
        for i in range(shnum):
            s = Sec()
            (name, s.type, s.flags, _, s.offset, s.size, s.link, s.info, s.align, s.entsize) = \
                struct.unpack_from("<IIQQQQIIQQ", b, shoff + i * shentsize)
            s.name = name
            if s.type not in (0, 8) and s.offset + s.size > len(b):
                raise ValueError("section %d lies outside of the file" % i)
            s.data = b[s.offset:s.offset + s.size] if s.type != 8 else None
            s.relocs = []
            self.secs.append(s)
        strs = self.secs[shstrndx].data
        for s in self.secs:
            s.name = cstr(strs, s.name)
        self.syms = []
        for s in self.secs:
            if s.type == 2:
                names = self.secs[s.link].data
                for j in range(0, s.size, 24):
                    y = Sym()
                    n, info, other, shndx, y.value, y.size = struct.unpack_from("<IBBHQQ", s.data, j)
                    y.name = cstr(names, n)
                    y.kind, y.bind, y.vis = KIND.get(info & 15, info & 15), BIND.get(info >> 4, info >> 4), other & 3
                    y.sec = {0: "UND", 0xfff1: "ABS", 0xfff2: "COM"}.get(shndx)
                    if y.sec is None:
                        y.sec = self.secs[shndx].name
                    self.syms.append(y)
                self.first_global = s.info
        for s in self.secs:
            if s.type == 4:
                for j in range(0, s.size, 24):
                    off, info, add = struct.unpack_from("<QQq", s.data, j)
                    self.secs[s.info].relocs.append((off, info & 0xffffffff, self.syms[info >> 32], add))

    def sec(self, name):
        for s in self.secs:
            if s.name == name:
                return s
        return None


def cstr(b, i):
    return b[i:b.index(b"\0", i)].decode("latin-1")


INSN = re.compile(r"^ *([0-9a-f]+):\t(.*)$")


def disassemble(run, path, cwd):
    """List of (address, text) of .text."""
    r = run(["objdump", "-d", "-w", "-j", ".text", "--no-show-raw-insn", path], cwd=cwd, cpu=20)
    out = []
    for line in r.out.decode("latin-1").split("\n"):
        m = INSN.match(line)
        if m:
            out.append((int(m.group(1), 16), m.group(2).strip()))
    return out


def normal(elf, insns):
    """(instructions, data sections, symbols) without what encodings and
    symbol choices of assemblers may differ in."""
    text = elf.sec(".text")
    size = text.size if text else 0
    index = {a: i for i, (a, _) in enumerate(insns)}
    index[size] = len(insns)
    rel = {}
    for off, typ, sym, add in (text.relocs if text else ()):
        rel[off] = (typ, sym, add)

    # Objects of .data and .bss go by name, whatever their order.
    objects = {}
    for y in elf.syms:
        if y.sec in (".data", ".bss") and y.kind == "OBJECT":
            objects.setdefault(y.sec, []).append((y.value, y.size, y.name))
    for sec in objects:
        objects[sec].sort()

    def located(sec, v):
        # An address between two objects may be the end of one.
        c = ["%s%+d" % (name, v - start) for start, size, name in objects.get(sec, ()) if start <= v <= start + size]
        return "{%s}" % "|".join(c) if c else "%s%+d" % (sec, v)

    def place(sym, add):
        if sym.sec == ".text" and (sym.bind == "LOCAL" or sym.kind == "SECTION"):
            v = sym.value + add
            return "text@%s" % index.get(v, "?%x" % v)
        if sym.sec in ("UND", "COM", "ABS") or sym.bind != "LOCAL":
            return "%s%+d" % (sym.name, add)
        return located(sym.sec, sym.value + add)

    # ---- code
    code = []
    for k, (a, t) in enumerate(insns):
        end = insns[k + 1][0] if k + 1 < len(insns) else size
        t, _, note = t.partition("#")
        t = re.sub(r"\s+", " ", t.strip())
        t = re.sub(r"^((?:sh|sa|ro|rc)[lr][bwlq]?) \$0x1,", r"\1 $1,", t)
        here = [(o, rel[o]) for o in range(a, end) if o in rel]
        m = re.match(r"^(\S+) ([0-9a-f]+)( <.*>)?$", t)
        if m and (m.group(1)[0] == "j" or m.group(1).startswith("call")):
            op = m.group(1)
            if here:
                (o, (typ, sym, add)), = here
                t = "%s %s" % (op, place(sym, add + end - o))
            else:
                v = int(m.group(2), 16)
                t = "%s text@%s" % (op, index.get(v, "?%x" % v))
        elif here:
            for o, (typ, sym, add) in here:
                if typ in (9, 41, 42):
                    t = re.sub(r"-?0x[0-9a-f]+\(%rip\)", "GOT[%s%+d]" % (sym.name, add + end - o), t, count=1)
                elif typ == 2:
                    t = re.sub(r"-?0x[0-9a-f]+\(%rip\)", "[%s]" % place(sym, add + end - o), t, count=1)
                else:
                    t += " {%d %s}" % (typ, place(sym, add))
        code.append(t)

    # ---- data
    data = {}
    for s in elf.secs:
        if s.name in objects:
            last = 0
            for start, size, name in objects[s.name]:
                if start < last or start + size > s.size:
                    data["object:%s" % name] = "overlaps or lies outside of the section"
                    continue
                last = start + size
                rs = sorted((o - start, typ, place(sym, add)) for o, typ, sym, add in s.relocs if start <= o < last)
                data["object:%s" % name] = (0, s.flags & 7, size, s.data[start:last] if s.data else bytes(size),
                                          tuple(rs))
        elif s.flags & 2 and s.name != ".text" and s.size and not s.name.startswith(".note"):
            rs = sorted((o, typ, place(sym, add)) for o, typ, sym, add in s.relocs)
            data[s.name] = (s.type, s.flags & 7, s.size, s.data, tuple(rs))

    # ---- symbols
    syms = []
    for y in elf.syms:
        if y.kind == "SECTION" or y.name in ("", "_GLOBAL_OFFSET_TABLE_") or y.name.startswith((".L", ".C")):
            continue
        kind, size, value, sec = y.kind, y.size, y.value, y.sec
        if y.sec == "UND":
            kind, size, value = "", 0, 0
        elif y.sec == ".text":
            size = index.get(value + size, "?%x" % size)
            value = index.get(value, "?%x" % value)
        elif y.sec in (".data", ".bss"):
            value, sec = 0, "data"       # zero objects may be in either
        syms.append((y.name, kind, y.bind, y.vis, sec, value, size))
    return code, data, sorted(syms, key=str)


ANY = re.compile(r"\{([^{}]*[+-]\d+)\}")


def agree(x, y):
    """Equal but for alternatives, of which one is common."""
    if x == y:
        return True
    if not isinstance(x, str):
        return len(x) == len(y) and all(u == v or isinstance(u, (str, tuple)) and agree(u, v) for u, v in zip(x, y)) \
            if isinstance(x, tuple) and isinstance(y, tuple) else False
    if not isinstance(y, str) or ANY.sub("", x) != ANY.sub("", y):
        return False
    return all(set(u.split("|")) & set(v.split("|")) for u, v in zip(ANY.findall(x), ANY.findall(y)))


def difference(a, b):
    """Description of the first difference of two normal forms, or None."""
    for i in range(max(len(a[0]), len(b[0]))):
        x = a[0][i] if i < len(a[0]) else "(end)"
        y = b[0][i] if i < len(b[0]) else "(end)"
        if not agree(x, y):
            return "instruction %d of .text: '%s' and '%s'" % (i, x, y)
    for n in sorted(set(a[1]) | set(b[1])):
        x, y = a[1].get(n), b[1].get(n)
        if x is None or y is None:
            return "section %s only in one" % n
        if isinstance(x, str) or isinstance(y, str):
            return "object %s: %s" % (n, x if isinstance(x, str) else y)
        if x[:3] != y[:3]:
            return "section %s: type, flags, size %s and %s" % (n, x[:3], y[:3])
        if x[3] != y[3]:
            # Bytes that relocations replace do not count.
            m = bytearray(x[3]), bytearray(y[3])
            for o, typ, _ in x[4]:
                for z in m:
                    z[o:o + (8 if typ == 1 else 4)] = b"\0" * (8 if typ == 1 else 4)
            if m[0] != m[1]:
                i = [i for i in range(len(m[0])) if m[0][i] != m[1][i]][0]
                return "section %s: byte %d is %d and %d" % (n, i, m[0][i], m[1][i])
        if not agree(x[4], y[4]):
            d = sorted(set(x[4]) ^ set(y[4]))
            return "section %s: relocations differ: %s" % (n, d[:3])
    if a[2] != b[2]:
        d = [x for x in a[2] if x not in b[2]], [y for y in b[2] if y not in a[2]]
        return "symbols: %s and %s" % (d[0][:3], d[1][:3])
    return None
