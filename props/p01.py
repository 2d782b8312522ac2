"""P01: instruction encodings against the reference encoder."""
import prog
import z80ref
from core import Violation, diags, expect_bytes, ok_output, Discard
from expr import make_style, text, lit
from prog import Node, Prog

PROP = "P01"
TECHNIQUE = "differential testing against an independent reference encoder (full sweep of forms and one-byte field values, random mixes, negative combinations)"
NOTE = "Every instruction form and every value of every one-byte field is assembled and compared with the reference encoder; 16-bit operands, layouts and mixes are sampled. Trusts lib/z80ref.py."
RULE = ("distinct assembled source texts: 'sweep_forms' cases hold one given form of the 1200+ Z80 forms (every form is hit) with generated "
        "operand values and layout, 'mix' cases programs of many forms; 'neg' cases operand combinations that are no Z80 instruction")
ASSUMPTIONS = ["the reference encoder lib/z80ref.py states the Z80 instruction set (built from the opcode structure, not from the assembler's tables)"]
FORMS = z80ref.FORMS


def render(nd, src):
    if nd.kind in ("label", "equ"):
        return text(nd.toks)
    return src.choice([" ", "\t", "   "]) + text(nd.toks, make_style(src, sym_case=False))


def one(src, t, forms, n):
    """Instructions, each preceded by nothing and followed by a .dw $ now and then."""
    def nodes(p):
        out = [Node("org", value=src.choice([0, 0x9D95, 0x4000, src.int(0, 0xFE00)]))]
        for f in forms:
            out.append(Node("ins", form=f, size=f.size, slots=list(f.slots)))
            if src.bool(0.5):
                out.append(p.make("label"))
                out.append(Node("here"))
        out.append(p.make("label"))
        out.append(Node("here"))
        return out
    p = Prog.__new__(Prog)
    Prog.__init__(p, src, nodes=lambda q: [finish(x) for x in nodes(q)], fwd=0.15, names=0.25)
    for k, nd in enumerate(p.nodes):
        if nd.kind == "here":
            nd.data = (nd.addr & 0xFFFF).to_bytes(2, "little") * 2
            nd.toks = [("w", ".dw"), ("m",), ("x", "$"), ("o",), ("x", ","), ("s", p.nodes[k - 1].name)]
    s = "\n".join(render(nd, src) for nd in p.nodes) + "\n"
    r = t.asm(s)
    expect_bytes(p.output(), ok_output(r))
    t.nontrivial(s)
    t.sample(s)
    t.label("instructions", len(forms))
    for nd in p.nodes:
        if nd.kind == "ins" and nd.deferred:
            t.label("deferred operand")


def finish(nd):
    if nd.kind == "here":
        nd.size = 4
    return nd


def sweep_forms(src, t):
    f = FORMS[src.draw(len(FORMS))]
    t.label("forms")
    one(src, t, [f] * (1 + src.draw(4)) if f.slots else [f], 1)


def mix(src, t):
    one(src, t, [src.choice(FORMS) for _ in src.many(2, 15, 60)], 0)


def sweep_values(src, t):
    """Every value of every one-byte field."""
    f = WITHBYTE[src.draw(len(WITHBYTE))]
    k = next(i for i, s in enumerate(f.slots) if s in "ndeb")
    kind = f.slots[k]
    lines = [" .org $4000"]
    out = bytearray()
    pc = 0x4000
    rng = {"n": range(-128, 256), "d": range(-128, 128), "b": range(8), "e": range(-128, 128)}[kind]
    oth = {"n": src.int(-128, 255), "d": src.int(-128, 127), "b": src.int(0, 7), "w": src.int(0, 65535)}
    for v in rng:
        vals = []
        texts = []
        for i, s in enumerate(f.slots):
            x = v if i == k else oth[s]
            if s == "e":
                x = pc + f.size + v
                texts.append("$%+d" % (x - pc) if v & 1 else "%d" % x)
            elif s == "d":
                texts.append("%+d" % x)
            else:
                texts.append(str(x))
            vals.append(x)
        ops = f.render(texts)
        lines.append(" " + f.mn.lower() + " " + ",".join(ops).lower())
        out += f.encode(vals, pc)
        pc += f.size
    r = t.asm("\n".join(lines) + "\n")
    expect_bytes(bytes(out), ok_output(r), "bytes of %r over all values" % f)
    t.nontrivial("\n".join(lines))
    t.label("field value enumerations")


WITHBYTE = [f for f in FORMS if any(s in "ndeb" for s in f.slots)]

ATOMS = ["A", "B", "C", "D", "E", "H", "L", "I", "R", "F", "AF", "BC", "DE", "HL", "SP", "IX", "IY", "IXH", "IXL", "IYH", "IYL",
         "(HL)", "(BC)", "(DE)", "(SP)", "(C)", "(IX)", "(IY)", "(IX+5)", "(IY-7)", "NZ", "Z", "NC", "PO", "PE", "P", "M", "AF'",
         "3", "200", "40000", "(3)", "(200)", "(40000)"]


def fits(op, a):
    """Can operand text a be an instance of the pattern?"""
    if "{" not in op:
        return op == a
    k = op[op.index("{") + 1]
    pre = op[:op.index("{")]
    if k == "d":
        return a.startswith(pre) and (a[len(pre)] in "+-)")
    if pre == "(":
        if not (a.startswith("(") and a[1].isdigit()):
            return False
        v = int(a[1:-1])
    elif not a[0].isdigit():
        return False
    else:
        v = int(a)
    if k == "n":
        return v < 256
    if k == "b":
        return v < 8
    if k == "r":
        return v in z80ref.RST
    return True


def legal(mn, ops):
    for f in FORMS:
        if f.mn == mn and len(f.ops) == len(ops) and all(fits(p, o) for p, o in zip(f.ops, ops)):
            return True
    return False


def neg(src, t):
    """Operand combinations outside the instruction set."""
    good = [" .org $9D95"]
    mn = src.choice(z80ref.MNEMONICS)
    if src.draw(3):
        f = src.choice([f for f in FORMS if f.mn == mn])
        ops = [o if "{" not in o else src.choice(ATOMS) for o in f.ops]
        k = src.draw(3)
        if k == 0 and ops:
            ops[src.draw(len(ops))] = src.choice(ATOMS)
        elif k == 1 and ops:
            del ops[src.draw(len(ops))]
        elif k == 2:
            ops.insert(src.draw(len(ops) + 1), src.choice(ATOMS))
    else:
        ops = [src.choice(ATOMS) for _ in range(src.draw(4))]
    if legal(mn, ops):
        raise Discard("legal")
    pre = src.draw(3)
    line = " " + mn.lower() + (" " + ",".join(ops).lower() if ops else "")
    s = "\n".join(good + [" nop"] * pre + [line, " nop"]) + "\n"
    r = t.asm(s)
    ds = diags(r)
    if not ds or r.rc == 0 and not any(d.kind == "error" for d in ds):
        raise Violation("%r is not a Z80 instruction but was assembled without a diagnostic" % line.strip(), output=r.text())
    if not all(d.line == 2 + pre for d in ds):
        raise Violation("diagnostic for %r names a wrong line: %r" % (line, ds), output=r.text())
    t.nontrivial(line)
    t.label("rejected combinations")


def parts(tier):
    q = tier == "quick"
    return [("sweep_forms", sweep_forms, len(FORMS) * (2 if q else 40)),
            ("sweep_values", sweep_values, len(WITHBYTE) * (1 if q else 3)),
            ("neg", neg, 8000 if q else 120000),
            ("mix", mix, 3000 if q else 60000)]
