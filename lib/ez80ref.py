"""Reference encoder for the eZ80 (Zilog UM0077 opcode maps), on top of z80ref."""
import z80ref
from z80ref import Form, R8

# suffix prefix bytes: (L, IL) -> byte
PREFIX = {(0, 0): 0x40, (1, 0): 0x49, (0, 1): 0x52, (1, 1): 0x5B}
SUFFIXES = ["", ".s", ".l", ".is", ".il", ".sis", ".lis", ".sil", ".lil"]


def lengths(suffix, adl):
    """(data mode L, instruction mode IL) selected by a suffix in the given ADL state."""
    a = 1 if adl else 0
    return {"": (a, a), ".s": (0, a), ".l": (1, a), ".is": (a, 0), ".il": (a, 1),
            ".sis": (0, 0), ".lis": (1, 0), ".sil": (0, 1), ".lil": (1, 1)}[suffix]


def _forms():
    F = []
    for f in z80ref.FORMS:
        if f.mn in ("SLL", "SL1"):
            continue
        if f.mn == "LD" and f.ops in (("B", "B"), ("C", "C"), ("D", "D"), ("E", "E")):
            continue                # these opcodes are the suffix prefixes
        if f.ops == ("(C)", "0"):
            continue
        if f.undoc and "{d}" in "".join(f.ops):
            continue                # register copies of DDCB/FDCB
        F.append(f)

    def add(mn, ops, enc):
        F.append(Form(mn, ops, enc, 0))

    for k, rr in enumerate(["BC", "DE", "HL"]):
        add("LD", [rr, "(HL)"], [0xED, 0x07 | k << 4])
        add("LD", ["(HL)", rr], [0xED, 0x0F | k << 4])
    add("LD", ["IY", "(HL)"], [0xED, 0x31])
    add("LD", ["IX", "(HL)"], [0xED, 0x37])
    add("LD", ["(HL)", "IY"], [0xED, 0x3E])
    add("LD", ["(HL)", "IX"], [0xED, 0x3F])
    for pre, me, ot in ((0xDD, "IX", "IY"), (0xFD, "IY", "IX")):
        mem = "(" + me + "{d})"
        for k, rr in enumerate(["BC", "DE", "HL"]):
            add("LD", [rr, mem], [pre, 0x07 | k << 4, "d"])
            add("LD", [mem, rr], [pre, 0x0F | k << 4, "d"])
        add("LD", [ot, mem], [pre, 0x31, "d"])
        add("LD", [me, mem], [pre, 0x37, "d"])
        add("LD", [mem, ot], [pre, 0x3E, "d"])
        add("LD", [mem, me], [pre, 0x3F, "d"])
    add("LD", ["A", "MB"], [0xED, 0x6E])
    add("LD", ["MB", "A"], [0xED, 0x6D])
    add("LD", ["I", "HL"], [0xED, 0xC7])
    add("LD", ["HL", "I"], [0xED, 0xD7])
    for y in range(8):
        if y != 6:
            add("OUT", ["(BC)", R8[y]], [0xED, 0x41 | y << 3])
            add("IN", [R8[y], "(BC)"], [0xED, 0x40 | y << 3])
            add("OUT0", ["({n})", R8[y]], [0xED, 0x01 | y << 3, "n"])
            add("IN0", [R8[y], "({n})"], [0xED, 0x00 | y << 3, "n"])
        add("TST", ["A", R8[y]], [0xED, 0x04 | y << 3])
    add("IN", ["F", "(BC)"], [0xED, 0x70])
    add("IN", ["(C)"], [0xED, 0x70])
    add("IN", ["(BC)"], [0xED, 0x70])
    add("IN0", ["F", "({n})"], [0xED, 0x30, "n"])
    add("IN0", ["({n})"], [0xED, 0x30, "n"])
    add("TST", ["A", "{n}"], [0xED, 0x64, "n"])
    add("TSTIO", ["{n}"], [0xED, 0x74, "n"])
    for k, rr in enumerate(["BC", "DE", "HL"]):
        add("LEA", [rr, "IX{d}"], [0xED, 0x02 | k << 4, "d"])
        add("LEA", [rr, "IY{d}"], [0xED, 0x03 | k << 4, "d"])
    add("LEA", ["IX", "IX{d}"], [0xED, 0x32, "d"])
    add("LEA", ["IY", "IY{d}"], [0xED, 0x33, "d"])
    add("LEA", ["IX", "IY{d}"], [0xED, 0x54, "d"])
    add("LEA", ["IY", "IX{d}"], [0xED, 0x55, "d"])
    add("PEA", ["IX{d}"], [0xED, 0x65, "d"])
    add("PEA", ["IY{d}"], [0xED, 0x66, "d"])
    for k, rr in enumerate(["BC", "DE", "HL", "SP"]):
        add("MLT", [rr], [0xED, 0x4C | k << 4])
    for mn, op in (("INIM", 0x82), ("OTIM", 0x83), ("INI2", 0x84), ("INDM", 0x8A), ("OTDM", 0x8B), ("IND2", 0x8C),
                   ("INIMR", 0x92), ("OTIMR", 0x93), ("INI2R", 0x94), ("INDMR", 0x9A), ("OTDMR", 0x9B), ("IND2R", 0x9C),
                   ("OUTI2", 0xA4), ("OUTD2", 0xAC), ("OTI2R", 0xB4), ("OTD2R", 0xBC), ("INIRX", 0xC2), ("OTIRX", 0xC3),
                   ("INDRX", 0xCA), ("OTDRX", 0xCB), ("SLP", 0x76), ("STMIX", 0x7D), ("RSMIX", 0x7E)):
        add(mn, [], [0xED, op])
    return F


FORMS = _forms()
MNEMONICS = sorted({f.mn for f in FORMS})
KEYS = {(f.mn, f.ops) for f in FORMS}
assert len(KEYS) == len(FORMS)


class Bound:
    """A form under a suffix and ADL state; has what prog.Prog needs of a form."""
    __slots__ = ("form", "mn", "ops", "slots", "size", "prefix", "long", "undoc")

    def __init__(self, form, suffix, adl):
        self.form = form
        self.mn = form.mn + suffix.upper()
        l, il = lengths(suffix, adl)
        self.long = bool(il)
        self.prefix = [PREFIX[(l, il)]] if suffix else []
        self.ops = tuple(o.replace("{w}", "{l}") if il else o for o in form.ops)
        self.slots = [o[o.index("{") + 1] for o in self.ops if "{" in o]
        self.size = form.size + len(self.prefix) + (1 if il and "w" in form.slots else 0)
        self.undoc = form.undoc

    def encode(self, vals, pc):
        by = dict(zip(self.slots, vals))
        out = bytearray(self.prefix)
        for x in self.form.enc:
            if isinstance(x, int):
                out.append(x)
            elif isinstance(x, tuple):
                out.append(x[1] | (by["b"] & 7) << 3)
            elif x in "nd":
                out.append(by[x] & 255)
            elif x == "w":
                v = by["l" if self.long else "w"] & 0xFFFFFF
                out += v.to_bytes(3, "little")[:3 if self.long else 2]
            elif x == "e":
                out.append((by["e"] - (pc + self.size)) & 255)
            elif x == "r":
                out.append(0xC7 | by["r"])
        return bytes(out)
