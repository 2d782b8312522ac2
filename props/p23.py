"""P23: .addinstr"""
from core import Violation, diags, expect_bytes, ok_output
from expr import M, O, lit, mixcase
from p06 import label_table, merge
from prog import Node, Prog
import ez80ref, z80ref

PROP = "P23"
TECHNIQUE = "random instruction definitions among random programs of built-in instructions against the reference encoder; faulty definitions against the diagnostics they must give"
NOTE = ("Definitions whose size agrees with their bytes, up to three operands (wildcards) of 8 or 16 bits (24 in ADL mode), with or without trailing opcode byte. "
        "Forms that would capture each other's text (a wildcard where another form has a register) are used only where the newest matching form is the intended one. Mixed operand sizes are not judged.")
RULE = "distinct programs that use at least one added instruction, or have a faulty definition"
LITS = ["A", "B", "HL", "(HL)", "(HL+)", "(HL-)", "Q", "XY", "(SP)", "IX", "(BC)", "M", "ZZ", "(X)", "[HL]", "AF", "I"]
WILD = ["*", "*", "*", "(*)", "(IX+*)", "(SP+*)", "(IY-*)"]
NEWMN = ["bcall_", "foo", "mul_", "LDX", "zap", "Nope", "jrx", "a_b", "i2", "DADD", "push2", "retx", "ld_"]
# operands no built-in form of the mnemonic has
OLD = [("LD", ["A", "(HL+)"]), ("LD", ["(SP+*)", "A"]), ("LD", ["Q", "*"]), ("ADD", ["A", "(HL-)"]), ("ADC", ["A", "(HL+)"]), ("INC", ["(HL+)"]), ("RLC", ["(SP+*)"]), ("PUSH", ["Q"]),
       ("RET", ["Q"]), ("NOP", ["Q"]), ("NOP", ["(SP+*)"]), ("EX", ["Q", "ZZ"]), ("HALT", ["Q", "Q", "Q"]), ("CPL", ["ZZ"]), ("LD", ["ZZ", "Q"]), ("LD", ["[HL]", "A"])]


class Form:
    def __init__(self, src, mn, ops):
        self.mn, self.ops = mn, ops
        n = len([o for o in ops if "*" in o])
        self.width = src.choice([1, 2]) if n else 0
        self.nargs = n
        z = src.int(1, 4)
        self.data = bytes(src.choice([0, 0xED, 0xDD, 255, src.draw(256)]) for _ in range(z))
        if src.draw(12) == 0:
            self.data += bytes(src.int(1, 4))       # leading zeros of the number are its last bytes
        self.end = src.draw(256) if src.draw(4) == 0 else None
        self.size = len(self.data) + n * self.width + (self.end is not None)

    def text(self, src):
        c = lambda s: mixcase(src, s)
        sep = lambda: src.choice([" ", "  ", "\t", " \t"])
        ops = c(",".join(self.ops))
        if not ops or src.draw(6) == 0:
            ops = '"%s"' % ops
        s = c(".addinstr") + sep() + c(self.mn) + sep() + ops + sep()
        s += c("%0*X" % (2 * len(self.data), int.from_bytes(self.data, "little"))) + sep() + src.choice(["%d", "%d", "$%X", "(%d)"]) % self.size
        if self.end is not None:
            s += sep() + c(src.choice(["NOP", "x", "R1"])) + sep() + src.choice(["1", "0", "3"]) + sep() + c("%02X" % self.end)
        elif src.draw(2):
            s += sep() + c("NOP") + (sep() + "1" if src.draw(2) else "")
        return s + src.choice(["", "", " ", " ; comment", ";c"])

    def use_size(self, adl):
        return self.size + (self.nargs if adl and self.width == 2 else 0)


def matches(f, ops):
    """Would the form take the operands of a use (None: a number)?"""
    if len(f.ops) != len(ops):
        return False
    for p, o in zip(f.ops, ops):
        i = p.find("*")
        if i < 0 and p != o or i >= 0 and not (o.startswith(p[:i]) and o.endswith(p[i + 1:])):
            return False
    return True


def gen(src, ez):
    forms = {}              # mnemonic -> forms, newest first

    def nodes(p):
        out = []
        for _ in src.many(2, 14, 40):
            k = src.weighted([(3, "def"), (5, "use"), (5, "ins"), (2, "data"), (2, "label"), (1, "equ"), (1, "fill")])
            if k == "def":
                z = src.draw(4)
                if z == 0:
                    mn, ops = src.choice(OLD)
                    ops = list(ops)
                elif z == 1 and forms:
                    mn = src.choice(sorted(forms))
                    ops = [src.choice(LITS + WILD) for _ in range(src.int(0, 3))] if mn in [x.upper() for x in NEWMN] else forms[mn][0].ops
                else:
                    mn = src.choice(NEWMN).upper()
                    ops = [src.choice(LITS + WILD) for _ in range(src.choice([0, 1, 1, 2, 3]))]
                f = Form(src, mn, ops)
                forms.setdefault(mn, []).insert(0, f)
                out.append(Node("def", size=0, text=f.text(src)))
            elif k == "use":
                if not forms:
                    continue
                mn = src.choice(sorted(forms))
                f = src.choice(forms[mn])
                first = next(g for g in forms[mn] if matches(g, f.ops))
                if first.ops != f.ops:
                    continue
                out.append(Node("use", size=first.use_size(ez), form_=first))
            else:
                out.append(p.make(k))
        return out

    kw = dict(nodes=nodes)
    if ez:
        kw.update(forms=[ez80ref.Bound(f, src.choice(["", "", ""] + ez80ref.SUFFIXES[1:]), 1) for f in (src.choice(ez80ref.FORMS) for _ in range(30))], amask=0xFFFFFF, wide=False)
    p = Prog(src, **kw)
    used = 0
    for nd in p.nodes:
        if nd.kind == "def":
            nd.toks = [("x", nd.text)]
        elif nd.kind == "use":
            used += 1
            f = nd.form_
            w = 3 if ez and f.width == 2 else f.width
            b = bytearray(f.data)
            toks = [("w", f.mn.lower())]
            for i, o in enumerate(f.ops):
                toks += [M] if i == 0 else [O, ("x", ","), O]
                if "*" in o:
                    v = src.edgy(-(1 << 8 * w - 1), (1 << 8 * w) - 1)
                    t = lit(src, v, True) if v >= 0 else [("x", "-")] + lit(src, -v, False)
                    names = [n for n, x in p.final.items() if -(1 << 8 * w - 1) <= x < 1 << 8 * w]
                    if names and src.draw(2):
                        n = src.choice(names)
                        v, t = p.final[n], [("s", n)]
                    b += (v & 0xFFFFFF).to_bytes(3, "little")[:w]
                    j = o.index("*")
                    if o[:j]:
                        toks += [("x", mixcase(src, o[:j])), O]
                    toks += t
                    if o[j + 1:]:
                        toks += [O, ("x", o[j + 1:])]
                else:
                    toks.append(("w", o.lower()))
            if f.end is not None:
                b.append(f.end)
            nd.toks = toks
            nd.data = bytes(b)
    return p, used


def program(src, t, ez=False):
    p, used = gen(src, ez)
    l, b = label_table(p)
    lines = p.lines() + l
    files = {}
    z = src.draw(5)
    if z == 0 and len(lines) > 2:
        # the definitions may stand in an include file
        i = src.int(0, len(lines) - 1)
        j = src.int(i, len(lines))
        files["x.inc"] = "\n".join(lines[i:j]) + "\n"
        lines[i:j] = ['#include "x.inc"']
    s = "\n".join(lines) + "\n"
    r = t.asm(s, ["-E"] if ez else [], files=files)
    expect_bytes(merge(p, b), ok_output(r))
    if used:
        t.nontrivial(s + repr(files))
        t.sample(s)
    t.label("uses %d" % min(used, 6))


def ez80(src, t):
    program(src, t, True)


def faulty(src, t):
    """Definitions that are incomplete or too long are diagnosed, and define nothing."""
    k = src.choice(["nothing", "mn", "args", "data", "long", "many", "hex", "before", "size"])
    mn = src.choice(NEWMN)
    args = src.choice(['""', "*", "A", "(HL),*"])
    if k == "nothing":
        d = ".addinstr" + src.choice(["", " ", " ;c"])
    elif k == "mn":
        d = ".addinstr %s" % mn + src.choice(["", " ", " ; 1 2 3"])
    elif k == "args":
        d = ".addinstr %s %s" % (mn, args) + src.choice(["", " ", "\t;c"])
    elif k == "data":
        d = ".addinstr %s %s %s" % (mn, args, src.choice(["00", "ED", "DDCB"])) + src.choice(["", " ", " ; 2"])
    elif k == "long":
        d = ".addinstr %s %s %s %d" % (mn, args, "".join(src.choice("123456789ABCDEF") for _ in range(2 * src.int(5, 30))), src.int(1, 8))
    elif k == "many":
        d = ".addinstr %s %s 00 %d" % (mn, ",".join(["*"] * src.int(4, 12)), src.int(5, 20))
    elif k == "hex":
        d = ".addinstr %s %s %s 2" % (mn, args, src.choice(["0G", "XY", "1-", "$ED", "EDh"]))
    elif k == "size":
        d = ".addinstr %s %s 00 %s" % (mn, args, src.choice(["1+", "nosuch+", "2*"]))
    else:
        d = " " + mn.lower() + src.choice(["", " 1", " a"])      # used without a definition
    if src.draw(2):
        d = " " + d
    pre = [" .db %d" % src.draw(256) for _ in range(src.draw(4))]
    post = src.choice([[], [" nop"], [" ld a,5", "; c"]])
    s = "\n".join(pre + [d] + post) + "\n"
    r = t.asm(s)
    ds = diags(r)
    if r.rc == 0 or not ds or any(x.line != len(pre) + 1 for x in ds) or not any(x.kind == "error" for x in ds):
        raise Violation("a faulty definition (%s) is not diagnosed, or not at its line: exit %d" % (k, r.rc), output=r.text()[:600])
    t.nontrivial(s)
    t.label(k)


def parts(tier):
    q = tier == "quick"
    return [("program", program, 9000 if q else 200000), ("ez80", ez80, 4000 if q else 80000), ("faulty", faulty, 2000 if q else 20000)]
