"""P02: eZ80 encodings, ADL modes and suffixes against the eZ80 reference encoder."""
import ez80ref
import z80ref
from core import Discard, Violation, diags, expect_bytes, ok_output
from expr import make_style, text
from p01 import ATOMS, fits
from p06 import wrap
from prog import Node, Prog, plain

PROP = "P02"
TECHNIQUE = "differential testing against an independent eZ80 reference encoder: sweep of every form under every suffix and ADL state, random mixes, negative combinations"
NOTE = "Every form is assembled under all 9 suffix choices in both ADL states; operands, order and layout are sampled. Trusts lib/ez80ref.py."
RULE = "distinct sources ('sweep_forms': one form under all 18 suffix/ADL states; 'mix': programs changing ADL and suffixes; 'neg': forms outside the selected instruction set)"
ASSUMPTIONS = ["lib/ez80ref.py states the eZ80 instruction set (from the opcode maps, not from the assembler's tables)"]
FORMS = ez80ref.FORMS
OLD = {(f.mn, f.ops) for f in z80ref.FORMS}
NEW = [f for f in FORMS if (f.mn, f.ops) not in OLD]
GONE = [f for f in z80ref.FORMS if (f.mn, f.ops) not in ez80ref.KEYS]


def adl_line(src, a):
    if a:
        return src.choice([".assume adl=1", ".assume ADL=1", ".assume adl", ".ASSUME adl = 2", ".assume Adl=1+1", ".assume adl=-1", ".assume adl = 256", ".assume adl=-65536",
                           ".assume adl=1==1", ".assume adl=$1000000"])
    return src.choice([".assume adl=0", ".assume ADL=0", ".assume adl = 0", ".assume adl=1-1", ".assume adl=1==2", ".assume ADL = 5&2"])


def here(p):
    return Node("here", size=6)


def assemble(src, t, gen, layout=None, files=None, **kw):
    p = Prog(src, nodes=gen, wide=False, amask=0xFFFFFF, org_max=0xFFFFF0, **kw)
    for k, nd in enumerate(p.nodes):
        if nd.kind == "here":
            nd.data = (nd.addr & 0xFFFFFF).to_bytes(3, "little") * 2
            nd.toks = [("w", ".dl"), ("m",), ("x", "$"), ("o",), ("x", ","), ("s", nd.lab.name)]
    lines = layout(p) if layout else None
    if lines is None:
        lines = []
        for nd in p.nodes:
            if nd.kind in ("label", "equ"):
                lines.append(text(nd.toks))
            elif nd.kind == "raw":
                lines.append(nd.text)
            else:
                lines.append(" " + text(nd.toks, make_style(src, sym_case=False)))
    s = "\n".join(lines) + "\n"
    r = t.asm(s, ["-E"], files=files)
    expect_bytes(p.output(), ok_output(r))
    t.nontrivial(s)
    t.sample(s)
    return p


def sweep_forms(src, t):
    f = FORMS[src.draw(len(FORMS))]

    def gen(p):
        out = [Node("org", value=src.choice([0xD1A881, 0, 0x4000, src.int(0, 0xFFF000)]))]
        adl = 1
        for st in src.shuffle([(a, s) for a in (0, 1) for s in ez80ref.SUFFIXES]):
            if st[0] != adl:
                adl = st[0]
                out.append(Node("raw", text=" " + adl_line(src, adl)))
            b = ez80ref.Bound(f, st[1], adl)
            out.append(Node("ins", form=b, size=b.size, slots=list(b.slots)))
        lab = p.make("label")
        out += [lab, Node("here", size=6, lab=lab)]
        return out
    assemble(src, t, gen, fwd=0.15, names=0.2)
    t.label("forms")


def gen_mix(src, p):
    out = [Node("org", value=src.choice([0xD1A881, 0, src.int(0, 0xFF0000)]))]
    adl = 1
    for _ in src.many(2, 16, 60):
        k = src.draw(10)
        if k == 0:
            adl = src.draw(2)
            out.append(Node("raw", text=" " + adl_line(src, adl)))
        elif k == 1:
            lab = p.make("label")
            out += [lab, Node("here", size=6, lab=lab)]
        elif k == 2:
            out.append(p.make("data"))
        else:
            f = src.choice(NEW) if src.draw(3) == 0 else src.choice(FORMS)
            b = ez80ref.Bound(f, src.choice(ez80ref.SUFFIXES) if src.draw(2) else "", adl)
            out.append(Node("ins", form=b, size=b.size, slots=list(b.slots)))
    return out


def mix(src, t):
    assemble(src, t, lambda p: gen_mix(src, p), fwd=0.3, names=0.4)


def nested(src, t):
    """The same inside macros, includes, conditionals and run(): ADL state is one global state."""
    files = {}
    assemble(src, t, lambda p: gen_mix(src, p), layout=lambda p: wrap(src, p.nodes, files, 2, [0]), files=files, fwd=0.3, names=0.4)


def neg(src, t):
    """Forms outside the selected instruction set are diagnosed."""
    k = src.draw(4)
    args = ["-E"]
    if k == 0:
        f = src.choice(GONE)
        if f.mn in ("SLL", "SL1"):
            t.label("no SLL")
        mn, ops = f.mn, list(f.ops)
    elif k == 1:
        f = src.choice(NEW)
        mn, ops, args = f.mn, list(f.ops), []
    elif k == 2:
        f = src.choice(FORMS)
        mn, ops = f.mn + src.choice([".x", ".sl", ".ss", ".lll", ".i", ".ls", ".silx", ".", ".ill", "s", "l"]), list(f.ops)
        if (mn,) in [(x,) for x in ez80ref.MNEMONICS]:
            raise Discard("legal")
    else:
        f = src.choice(z80ref.FORMS)
        mn, ops, args = f.mn + src.choice(ez80ref.SUFFIXES[1:]), list(f.ops), []
    ops = [o.replace("{d}", "+5").replace("{n}", "3").replace("{w}", "3").replace("{e}", "$").replace("{b}", "3").replace("{r}", "8") for o in ops]
    if k == 0 and any(g.mn == mn and len(g.ops) == len(ops) and all(fits(x, o) for x, o in zip(g.ops, ops)) for g in FORMS):
        raise Discard("legal")
    if k == 1 and any(g.mn == mn and len(g.ops) == len(ops) and all(fits(x, o) for x, o in zip(g.ops, ops)) for g in z80ref.FORMS):
        raise Discard("legal")
    line = " " + mn.lower() + (" " + ",".join(ops).lower() if ops else "")
    s = " nop\n" * src.draw(3) + line + "\n nop\n"
    n = s.count("\n") - 1
    r = t.asm(s, args)
    ds = diags(r)
    if not any(d.kind == "error" and d.line == n for d in ds):
        raise Violation("%r is not in the selected instruction set (%s) but was not rejected" % (line, " ".join(args) or "Z80"), output=r.text())
    t.nontrivial(line + " ".join(args))
    t.label("rejected")


def parts(tier):
    q = tier == "quick"
    return [("sweep_forms", sweep_forms, len(FORMS) * (3 if q else 60)), ("mix", mix, 5000 if q else 120000),
            ("nested", nested, 3000 if q else 80000), ("neg", neg, 4000 if q else 60000)]
