"""C01: integer expressions have the value, type and effects C gives them."""
from pbt.engine import Property, Case, Fail, Skip, OK
from pbt.exprgen import Gen, Env, Func, Node, Slot
from pbt.cmodel import *
from pbt import cmodel, cdiff
from checks.common import BatchProgram, hexv


class P(BatchProgram, Property):
    id = "C01"
    batch = 24
    quick_cases = 24 * 450
    thorough_factor = 12
    rule = ("A case is a set of objects of every storage kind and integer type, "
            "helper functions, and 3 to 8 full expressions in different contexts; "
            "the expected value of each is computed by a model of C's integer "
            "types while it is generated and must also be what gcc computes. "
            "Non-trivial: at least 4 operators of at least 3 kinds and at least "
            "one operand read from an object.")
    assumptions = ["the model in pbt/cmodel.py and gcc agree (cases where they do not are not decided)"]
    feats = {}

    def gen(self, src, index):
        funcs = [Func(src, i) for i in range(src.int(0, 3))]
        env = Env(src, self.feats)
        g = Gen(src, env.slots, funcs, maxdepth=src.int(2, 6), feats=self.feats)
        body, exp = [], []
        helper = []
        rid = [0]

        def out(expr, v):
            rid[0] += 1
            exp.append("%d %s" % (rid[0], hexv(v)))
            return "oi(%d, %s);" % (rid[0], expr)

        tags = set()
        for i in range(src.int(2, 7)):
            k = src.weighted([(6, "init"), (5, "if"), (3, "sizeof"), (4, "arg"), (4, "opassign"),
                              (3, "while"), (3, "switch"), (2, "for"), (2, "do"),
                              (2, "index"), (3, "stmt"), (3, "return"), (2, "not"), (4, "promote")])
            tags.add("ctx:" + k)
            if k == "promote":
                # One operator next to an operand, where its promoted type shows.
                fields = [s for s in g.slots if s.kind == "field"]
                if not g.slots:
                    continue
                for _ in range(src.int(1, 3)):
                    s = src.choice(fields if fields and src.chance(70) else g.slots)
                    text, prec = src.choice(s.texts)
                    n = Node(text, prec, s.t, s.v, s.w)
                    form, ops = src.choice([("%s - %d", "-"), ("~%s", "~"), ("-%s", "-"), ("%s - %d < 0", "-<"),
                                            ("(%s - %d) / 3", "-/"), ("(%s - %d) >> 1", "->"), ("(%s - %d) %% 7", "-%"),
                                            ("(%s - %d) * 1L", "-l"), ("%s < %d - %d", "<-")])
                    c = src.choice([1, 2, 10, 100, 70000, s.v + 1 if 0 <= s.v < 1000000 else 3])
                    o = "(%s)" % text if prec < 13 else text
                    if "%s" == form[:2] and prec < 12:
                        o = "(%s)" % text
                    try:
                        if len(ops) == 1 and "%d" not in form:
                            v, t = unary(ops, n.v, n.pt)
                            e = form % o
                        elif ops == "<-":
                            e = form % (o, c, 2 * c)
                            v, t = arith("<", n.v, n.pt, -c, INT)
                        else:
                            v, t = arith("-", n.v, n.pt, c, INT)
                            e = form % (o, c)
                            if ops == "-<":
                                v, t = arith("<", v, t, 0, INT)
                            elif ops == "-/":
                                v, t = arith("/", v, t, 3, INT)
                            elif ops == "->":
                                v, t = arith(">>", v, t, 1, INT)
                            elif ops == "-%":
                                v, t = arith("%", v, t, 7, INT)
                            elif ops == "-l":
                                v, t = arith("*", v, t, 1, LONG)
                    except Undefined:
                        continue
                    if s.wide:
                        continue
                    g.ops.add("promoted " + ops)
                    body.append(out(e, conv(v, LONG)))
                continue
            if k == "init":
                n = g.full()
                t = src.choice(cmodel.ALL) if src.chance(60) else n.pt
                v = conv(n.v, t)
                if src.chance(50):
                    body.append("{ %s r = %s; %s }" % (t.name, g.par(n, 1), out("r", v)))
                else:
                    body.append("{ %s r; r = %s; %s }" % (t.name, g.par(n, 1), out("r", v)))
            elif k == "if":
                n = g.full()
                a, b = src.draw(100), src.draw(100) + 100
                o = out("r", a if n.v else b)
                body.append("{ int r; if (%s) r = %d; else r = %d; %s }" % (n.text, a, b, o))
            elif k == "sizeof":
                save = [(s, s.v) for s in g.slots]
                n = g.full()
                for s, v in save:
                    s.v = v
                if n.w is not None or n.prec < 1:
                    n = g.unary("!", n)
                body.append(out("sizeof(%s)" % n.text, n.t.size))
            elif k == "arg":
                n = g.full()
                body.append(out(g.par(n, 1), conv(n.v, LONG)))
            elif k == "not":
                n = g.full()
                if n.prec < 1:
                    n = Node("(%s)" % n.text, 16, n.t, n.v, n.w)
                body.append(out("-1 < %s" % g.par(n, 10),
                                arith("<", -1, INT, n.v, n.pt)[0]))
            elif k == "opassign":
                t = src.choice(cmodel.ALL)
                s = Slot(t, value(src, t), [("r", 16)])
                r0 = s.v
                n = g.full()
                op = src.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"])
                try:
                    v, _ = arith(op, r0, t, n.v, n.pt)
                except Undefined:
                    op = "^"
                    v, _ = arith(op, r0, t, n.v, n.pt)
                tags.add("op:" + op + "=")
                o = out("r", conv(v, t))
                body.append("{ %s r = %s; r %s= %s; %s }" % (
                    t.name, literal(src, r0, t)[0], op, g.par(n, 1), o))
            elif k == "while":
                n = g.full()
                body.append("{ int r = 5; while (%s) { r = 7; break; } %s }" % (
                    n.text, out("r", 7 if n.v else 5)))
            elif k == "for":
                n = g.full()
                body.append("{ int r = 5; for (; %s; r = 9) { r = 7; break; } %s }" % (
                    n.text, out("r", 7 if n.v else 5)))
            elif k == "do":
                n = g.full()
                body.append("{ int r = 0; do { if (r++) break; } while (%s); %s }" % (
                    n.text, out("r", 2 if n.v else 1)))
            elif k == "switch":
                n = g.full()
                t = n.pt
                labels = {}
                hit = src.chance(70)
                if hit:
                    labels[n.v] = 1
                for j in range(src.int(1, 5)):
                    d = src.choice([n.v + 1, n.v - 1, n.v ^ (1 << src.draw(32)), value(src, t)])
                    labels.setdefault(conv(d, t), j + 2)
                items = src.shuffle(sorted(labels.items()))
                default = src.chance(60)
                exp_v = labels.get(n.v, 77 if default else 0)
                txt = "".join("case %s: r = %d; break; " % (literal(src, v, t)[0], j)
                              for v, j in items)
                if default:
                    txt += "default: r = 77; "
                body.append("{ int r = 0; switch (%s) { %s} %s }" % (
                    n.text, txt, out("r", exp_v)))
            elif k == "index":
                n = g.full()
                if n.prec < 7:
                    n = Node("(%s)" % n.text, 16, n.t, n.v, n.w)
                v, _ = arith("&", n.v, n.pt, 7, INT)
                arr = [src.draw(256) for _ in range(8)]
                body.append("{ static unsigned char a[8] = {%s}; %s }" % (
                    ", ".join(map(str, arr)), out("a[%s & 7]" % g.par(n, 7), arr[v])))
            elif k == "stmt":
                n = g.full()
                body.append(n.text + ";")
            elif k == "return":
                # Conversion to the return type of a function.
                g2 = Gen(src, [], funcs, maxdepth=3, feats=self.feats)
                ps = []
                for j in range(src.int(1, 4)):
                    t = src.choice(cmodel.ALL)
                    v = value(src, t)
                    ps.append((t, v))
                    g2.slots.append(Slot(t, v, [("p%d" % j, 16)]))
                n = g2.full()
                g.ops |= g2.ops
                rt = src.choice(cmodel.ALL)
                name = "@r%d" % len(helper)
                helper.append("static %s %s(%s) { return %s; }\n" % (
                    rt.name, name, ", ".join("%s p%d" % (t.name, j) for j, (t, _) in enumerate(ps)),
                    n.text))
                body.append(out("%s(%s)" % (name, ", ".join(
                    literal(src, v, t)[0] for t, v in ps)), conv(conv(n.v, rt), LONG)))
        for s in g.slots:
            if s in g.mutated or src.chance(20):
                body.append(out(s.texts[0][0], conv(s.v, LONG)))
        text = "".join(f.text() for f in funcs) + "".join(x + "\n" for x in env.glob) \
            + "".join(helper)
        text += "void @t(%s)\n{\n" % (", ".join(d for d, _ in env.params) or "void")
        text += "".join("    %s\n" % x for x in env.loc + env.init + body) + "}\n"
        call = "@t(%s);" % ", ".join(a for _, a in env.params)
        kinds = set(s.kind for s in g.slots)
        tags |= set("op:" + o for o in g.ops) | set("slot:" + k for k in kinds)
        return Case(text + call, nontrivial=len(g.ops) >= 3 and bool(g.slots),
                    tags=tags, sample=text + "expected:\n" + "\n".join(exp),
                    text=text, call=call, exp=exp,
                    mode=src.choice(["c", "c-O1", "c-nopic", "S", "c-O1", "c-nopic-O1"]))
