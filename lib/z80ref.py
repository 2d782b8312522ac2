"""Reference encoder for the Z80, written from the decode structure of the instruction set
(x/y/z/p/q fields, DD/FD/CB/ED prefixes) and the Zilog timing tables; it does not use the
assembler's own tables.

A Form is one (mnemonic, operand pattern). Operand patterns are tuples of literal strings with at
most one slot each: {n} byte, {w} word, {d} index displacement, {e} relative target, {b} bit number,
{r} restart vector. enc is a tuple of ints and slot letters in emission order; ('b', base) is
base | bit << 3.
"""

R8 = ["B", "C", "D", "E", "H", "L", "(HL)", "A"]
RP = ["BC", "DE", "HL", "SP"]
RP2 = ["BC", "DE", "HL", "AF"]
CC = ["NZ", "Z", "NC", "C", "PO", "PE", "P", "M"]
ALU = ["ADD", "ADC", "SUB", "SBC", "AND", "XOR", "OR", "CP"]
ROT = ["RLC", "RRC", "RL", "RR", "SLA", "SRA", "SLL", "SRL"]


class Form:
    __slots__ = ("mn", "ops", "enc", "tmin", "tmax", "slots", "size", "undoc")

    def __init__(self, mn, ops, enc, tmin, tmax=None, undoc=False):
        self.mn = mn
        self.ops = tuple(ops)
        self.enc = tuple(enc)
        self.tmin = tmin
        self.tmax = tmin if tmax is None else tmax
        self.undoc = undoc
        self.slots = [o[o.index("{") + 1] for o in self.ops if "{" in o]
        self.size = sum(2 if x == "w" else 1 for x in self.enc)

    def __repr__(self):
        return self.mn + " " + ",".join(self.ops)

    def render(self, texts):
        """texts: one string per slot, in operand order."""
        it = iter(texts)
        out = []
        for o in self.ops:
            if "{" in o:
                i = o.index("{")
                out.append(o[:i] + next(it) + o[i + 3:])
            else:
                out.append(o)
        return out

    def encode(self, vals, pc):
        """vals: one integer per slot, in operand order; pc: address of the instruction."""
        by = {}
        for s, v in zip(self.slots, vals):
            by[s] = v
        out = bytearray()
        for x in self.enc:
            if isinstance(x, int):
                out.append(x)
            elif isinstance(x, tuple):
                out.append(x[1] | (by["b"] & 7) << 3)
            elif x == "n":
                out.append(by["n"] & 255)
            elif x == "d":
                out.append(by["d"] & 255)
            elif x == "w":
                out += bytes((by["w"] & 255, by["w"] >> 8 & 255))
            elif x == "e":
                out.append((by["e"] - (pc + self.size)) & 255)
            elif x == "r":
                out.append(0xC7 | by["r"])
            else:
                raise AssertionError(x)
        return bytes(out)


def _forms():
    F = []

    def add(mn, ops, enc, tmin, tmax=None, undoc=False):
        F.append(Form(mn, ops, enc, tmin, tmax, undoc))

    def m(r, reg, mem):
        return mem if r == 6 else reg

    # ---- x = 1: LD r,r' / HALT
    for y in range(8):
        for z in range(8):
            if y == 6 and z == 6:
                add("HALT", [], [0x76], 4)
            else:
                add("LD", [R8[y], R8[z]], [0x40 | y << 3 | z], 7 if 6 in (y, z) else 4)
    # ---- x = 2 and ALU immediate
    for y, a in enumerate(ALU):
        for z in range(8):
            enc = [0x80 | y << 3 | z]
            add(a, ["A", R8[z]], enc, m(z, 4, 7))
            if a not in ("ADD", "ADC", "SBC"):
                add(a, [R8[z]], enc, m(z, 4, 7))
        add(a, ["A", "{n}"], [0xC6 | y << 3, "n"], 7)
        if a not in ("ADD", "ADC", "SBC"):
            add(a, ["{n}"], [0xC6 | y << 3, "n"], 7)
    # ---- x = 0
    add("NOP", [], [0x00], 4)
    add("EX", ["AF", "AF'"], [0x08], 4)
    add("DJNZ", ["{e}"], [0x10, "e"], 8, 13)
    add("JR", ["{e}"], [0x18, "e"], 12)
    for y in range(4):
        add("JR", [CC[y], "{e}"], [0x20 | y << 3, "e"], 7, 12)
    for p in range(4):
        add("LD", [RP[p], "{w}"], [0x01 | p << 4, "w"], 10)
        add("ADD", ["HL", RP[p]], [0x09 | p << 4], 11)
        add("INC", [RP[p]], [0x03 | p << 4], 6)
        add("DEC", [RP[p]], [0x0B | p << 4], 6)
    add("LD", ["(BC)", "A"], [0x02], 7)
    add("LD", ["(DE)", "A"], [0x12], 7)
    add("LD", ["({w})", "HL"], [0x22, "w"], 16)
    add("LD", ["({w})", "A"], [0x32, "w"], 13)
    add("LD", ["A", "(BC)"], [0x0A], 7)
    add("LD", ["A", "(DE)"], [0x1A], 7)
    add("LD", ["HL", "({w})"], [0x2A, "w"], 16)
    add("LD", ["A", "({w})"], [0x3A, "w"], 13)
    for y in range(8):
        add("INC", [R8[y]], [0x04 | y << 3], m(y, 4, 11))
        add("DEC", [R8[y]], [0x05 | y << 3], m(y, 4, 11))
        add("LD", [R8[y], "{n}"], [0x06 | y << 3, "n"], m(y, 7, 10))
    for y, mn in enumerate(["RLCA", "RRCA", "RLA", "RRA", "DAA", "CPL", "SCF", "CCF"]):
        add(mn, [], [0x07 | y << 3], 4)
    # ---- x = 3
    for y in range(8):
        add("RET", [CC[y]], [0xC0 | y << 3], 5, 11)
        add("JP", [CC[y], "{w}"], [0xC2 | y << 3, "w"], 10)
        add("CALL", [CC[y], "{w}"], [0xC4 | y << 3, "w"], 10, 17)
    add("RST", ["{r}"], ["r"], 11)
    for p in range(4):
        add("POP", [RP2[p]], [0xC1 | p << 4], 10)
        add("PUSH", [RP2[p]], [0xC5 | p << 4], 11)
    add("RET", [], [0xC9], 10)
    add("EXX", [], [0xD9], 4)
    add("JP", ["(HL)"], [0xE9], 4)
    add("LD", ["SP", "HL"], [0xF9], 6)
    add("JP", ["{w}"], [0xC3, "w"], 10)
    add("OUT", ["({n})", "A"], [0xD3, "n"], 11)
    add("IN", ["A", "({n})"], [0xDB, "n"], 11)
    add("EX", ["(SP)", "HL"], [0xE3], 19)
    add("EX", ["DE", "HL"], [0xEB], 4)
    add("DI", [], [0xF3], 4)
    add("EI", [], [0xFB], 4)
    add("CALL", ["{w}"], [0xCD, "w"], 17)
    # ---- ED
    for y in range(8):
        if y != 6:
            add("IN", [R8[y], "(C)"], [0xED, 0x40 | y << 3], 12)
            add("OUT", ["(C)", R8[y]], [0xED, 0x41 | y << 3], 12)
    add("IN", ["F", "(C)"], [0xED, 0x70], 12, undoc=True)
    add("OUT", ["(C)", "0"], [0xED, 0x71], 12, undoc=True)
    for p in range(4):
        add("SBC", ["HL", RP[p]], [0xED, 0x42 | p << 4], 15)
        add("ADC", ["HL", RP[p]], [0xED, 0x4A | p << 4], 15)
        if RP[p] != "HL":
            add("LD", ["({w})", RP[p]], [0xED, 0x43 | p << 4, "w"], 20)
            add("LD", [RP[p], "({w})"], [0xED, 0x4B | p << 4, "w"], 20)
    add("NEG", [], [0xED, 0x44], 8)
    add("RETN", [], [0xED, 0x45], 14)
    add("RETI", [], [0xED, 0x4D], 14)
    for i, op in ((0, 0x46), (1, 0x56), (2, 0x5E)):
        add("IM", [str(i)], [0xED, op], 8)
    add("LD", ["I", "A"], [0xED, 0x47], 9)
    add("LD", ["R", "A"], [0xED, 0x4F], 9)
    add("LD", ["A", "I"], [0xED, 0x57], 9)
    add("LD", ["A", "R"], [0xED, 0x5F], 9)
    add("RRD", [], [0xED, 0x67], 18)
    add("RLD", [], [0xED, 0x6F], 18)
    for y, suf in ((4, "I"), (5, "D"), (6, "IR"), (7, "DR")):
        for z, base in enumerate(("LD", "CP", "IN", "OUT")):
            mn = base + suf
            if base == "OUT" and y >= 6:
                mn = "OT" + suf
            add(mn, [], [0xED, 0x80 | y << 3 | z], 16, 21 if y >= 6 else 16)
    # ---- CB
    for y in range(8):
        for nm in ([ROT[y]] if y != 6 else ["SLL", "SL1"]):
            for z in range(8):
                add(nm, [R8[z]], [0xCB, y << 3 | z], m(z, 8, 15), undoc=y == 6)
    for x, mn in ((1, "BIT"), (2, "RES"), (3, "SET")):
        for z in range(8):
            add(mn, ["{b}", R8[z]], [0xCB, ("b", x << 6 | z)], (12 if x == 1 else 15) if z == 6 else 8)
    # ---- DD / FD
    for pre, ix in ((0xDD, "IX"), (0xFD, "IY")):
        mem = "(" + ix + "{d})"
        for p in range(4):
            add("ADD", [ix, ix if p == 2 else RP[p]], [pre, 0x09 | p << 4], 15)
        add("LD", [ix, "{w}"], [pre, 0x21, "w"], 14)
        add("LD", ["({w})", ix], [pre, 0x22, "w"], 20)
        add("LD", [ix, "({w})"], [pre, 0x2A, "w"], 20)
        add("INC", [ix], [pre, 0x23], 10)
        add("DEC", [ix], [pre, 0x2B], 10)
        add("POP", [ix], [pre, 0xE1], 14)
        add("PUSH", [ix], [pre, 0xE5], 15)
        add("EX", ["(SP)", ix], [pre, 0xE3], 23)
        add("JP", ["(" + ix + ")"], [pre, 0xE9], 8)
        add("LD", ["SP", ix], [pre, 0xF9], 10)
        add("INC", [mem], [pre, 0x34, "d"], 23)
        add("DEC", [mem], [pre, 0x35, "d"], 23)
        add("LD", [mem, "{n}"], [pre, 0x36, "d", "n"], 19)
        for z in range(8):
            if z != 6:
                add("LD", [R8[z], mem], [pre, 0x46 | z << 3, "d"], 19)
                add("LD", [mem, R8[z]], [pre, 0x70 | z, "d"], 19)
        for y, a in enumerate(ALU):
            for ops in [["A", mem]] + ([[mem]] if a not in ("ADD", "ADC", "SBC") else []):
                add(a, ops, [pre, 0x86 | y << 3, "d"], 19)
        for y in range(8):
            for nm in ([ROT[y]] if y != 6 else ["SLL", "SL1"]):
                add(nm, [mem], [pre, 0xCB, "d", y << 3 | 6], 23, undoc=y == 6)
                for z in range(8):
                    if z != 6:
                        add(nm, [R8[z], mem], [pre, 0xCB, "d", y << 3 | z], 23, undoc=True)
        add("BIT", ["{b}", mem], [pre, 0xCB, "d", ("b", 0x46)], 20)
        for x, mn in ((2, "RES"), (3, "SET")):
            add(mn, ["{b}", mem], [pre, 0xCB, "d", ("b", x << 6 | 6)], 23)
            for z in range(8):
                if z != 6:
                    add(mn, [R8[z], "{b}", mem], [pre, 0xCB, "d", ("b", x << 6 | z)], 23, undoc=True)
        # halves
        h = {4: ix + "H", 5: ix + "L"}
        for y in (4, 5):
            add("INC", [h[y]], [pre, 0x04 | y << 3], 8, undoc=True)
            add("DEC", [h[y]], [pre, 0x05 | y << 3], 8, undoc=True)
            add("LD", [h[y], "{n}"], [pre, 0x06 | y << 3, "n"], 11, undoc=True)
            for z in range(8):
                if z == 6:
                    continue
                add("LD", [h[y], h.get(z, R8[z])], [pre, 0x40 | y << 3 | z], 8, undoc=True)
                if z not in (4, 5):
                    add("LD", [R8[z], h[y]], [pre, 0x40 | z << 3 | y], 8, undoc=True)
            for k, a in enumerate(ALU):
                for ops in [["A", h[y]]] + ([[h[y]]] if a not in ("ADD", "ADC", "SBC") else []):
                    add(a, ops, [pre, 0x80 | k << 3 | y], 8, undoc=True)
    return F


FORMS = _forms()
BYKEY = {(f.mn, f.ops): f for f in FORMS}
assert len(BYKEY) == len(FORMS)
MNEMONICS = sorted({f.mn for f in FORMS})
RST = [0, 8, 0x10, 0x18, 0x20, 0x28, 0x30, 0x38]
