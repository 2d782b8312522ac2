"""P28: the shipped include files (inc/)."""
import os
from core import REPO, Violation, Discard, alive, expect_bytes, ok_output
from expr import mixcase

PROP = "P28"
TECHNIQUE = "random programs on top of the shipped include files against models of what these describe: the equates by a table of their values, bcall and jump macros, z80ext.inc instructions as the instruction sequences they stand for, relocated blocks, and applications of several pages with the sizes they report"
NOTE = ("Sampled. The values of the equates are a committed table (corpus/p28/values.txt), evaluated from the include files by an independent evaluator. "
        "arrays.inc is not covered: its macro lacks a closing quote and never worked.")
RULE = "distinct programs that use at least one name, macro or instruction of an include file"
INC = os.path.join(REPO, "inc")
# what a program has to define first
PRELUDE = {"ti83asm.inc": ["#define equ .equ", "#define EQU .equ"], "tokens.inc": ["#define equ .equ", "#define EQU .EQU"],
           "ti84pce.inc": ["#define anovaf_vars 0D0136Eh"], "ti83plus.inc": []}
VALUES = {}


def values():
    if not VALUES:
        cur = None
        for l in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "corpus", "p28", "values.txt")):
            if l[0] == "[":
                cur = VALUES.setdefault(l.strip()[1:-1], {})
            else:
                n, v = l.split()
                cur[n] = int(v, 16)
    return VALUES


def le(v, n):
    return (v & ((1 << 8 * n) - 1)).to_bytes(n, "little")


def inc(src, f):
    return src.choice(['#include "%s"', '#INCLUDE\t"%s" ;x']) % f


def equates(src, t):
    """Names of the include files have their values, wherever the file is included."""
    f = src.choice(sorted(PRELUDE))
    vals = values()[f]
    names = sorted(vals)
    case = f != "tokens.inc" and src.draw(3) == 0       # (tokens.inc spells some names in two ways)
    lines, out = [], bytearray()
    ez = f == "ti84pce.inc"
    pick = [src.choice(names) for _ in src.many(4, 25, 60)]
    uses = []
    for n in pick:
        v = vals[n]
        w = n if case or src.draw(2) else mixcase(src, n)
        k = src.draw(6)
        d = src.int(0, 9)
        if k == 0:
            uses.append((" .dl %s" % w, le(v, 3)))
        elif k == 1:
            uses.append((" .dw (%s+%d)&0FFFFh" % (w, d), le(v + d, 2)))
        elif k == 2:
            uses.append((" .db %d+%s&255" % (d, w), le(v + d, 1)))
        elif k == 3 and v <= 0xFFFF:
            uses.append((" ld hl,%s" % w, b"\x21" + le(v, 3 if ez else 2)))
        elif k == 4:
            uses.append(("#if %s == %d\n .db 1\n#else\n .db 2\n#endif" % (w, v), None))
        else:
            uses.append((" .dl %s-%d" % (w, d), le(v - d, 3)))
    late = src.draw(3) == 0      # names before the file that gives their values
    a, b = [], []
    for u, by in uses:
        if late and by and src.draw(2):
            a.append(u)
            out += by
    for u, by in uses:
        if u not in a:
            b.append(u)
            out += by or b"\1"
    lines = PRELUDE[f] + a + [inc(src, f)] + b
    s = "\n".join(lines) + "\n"
    if any(l.startswith("#if") for l in a):
        raise Discard("order")
    r = t.asm(s, ["-I", INC] + (["-A"] if case else []) + (["-E"] if ez else []))
    expect_bytes(bytes(out), ok_output(r))
    t.nontrivial(s)
    t.sample(s)
    t.label(f)


def table(src, t):
    """The symbol table of a program with an include file lists all its names and values."""
    f = src.choice(sorted(PRELUDE))
    vals = values()[f]
    s = "\n".join(PRELUDE[f] + [inc(src, f), " .db %d" % src.int(0, 255)]) + "\n"
    case = f != "tokens.inc" and src.draw(2) == 0
    if not case:
        vals = {n.upper(): v for n, v in vals.items()}
    r = t.run({"in.asm": s}, ["-N"] + (["-A"] if case else []) + ["-L", "-I", INC, "in.asm", "out.bin"], want=("out.bin", "out.lab"))
    alive(r)
    if r.rc or r.files["out.lab"] is None:
        raise Violation("%s is not accepted: exit %d" % (f, r.rc), output=r.text()[-400:])
    got = {}
    for l in r.files["out.lab"].decode("latin-1").split("\n"):
        n, _, v = l.partition(" = ")
        if v.strip().startswith("$"):
            got[n.strip()] = int(v.strip()[1:], 16)
    bad = [(n, v, got.get(n)) for n, v in vals.items() if got.get(n) != v]
    if bad:
        raise Violation("%s: %d names are not in the symbol table with their values: %r" % (f, len(bad), bad[:4]))
    t.nontrivial(s)


def macros(src, t):
    """bcall, bjump and relatives of ti83plus.inc."""
    vals = values()["ti83plus.inc"]
    calls = sorted(n for n, v in vals.items() if n[0] == "_" and v <= 0xFFFF)
    lines, out = [inc(src, "ti83plus.inc"), " .org 9D93h"], bytearray()
    for _ in src.many(1, 8, 24):
        k = src.draw(9)
        n = src.choice(calls)
        v = vals[n]
        w, lead = mixcase(src, n), src.choice([" ", "\t", "  "])
        if k == 0:
            x, b = "bcall(%s)", b"\xef"
        elif k == 1:
            x, b = "B_CALL %s", b"\xef"
        elif k == 2:
            x, b = "bjump(%s)", b"\xcd\x50\x00"
        elif k == 3:
            x, b = "bcallz(%s)", b"\x20\x03\xef"
        elif k == 4:
            x, b = "bcallnz(%s)", b"\x28\x03\xef"
        elif k == 5:
            x, b = "bcallc(%s)", b"\x30\x03\xef"
        elif k == 6:
            x, b = "bcallnc(%s)", b"\x38\x03\xef"
        elif k == 7:
            lines.append(lead + "AppOnErr(%s)" % w)
            out += b"\x21" + le(v, 2) + b"\xcd\x59\x00"
            continue
        else:
            lines.append(lead + "AppOffErr")
            out += b"\xcd\x5c\x00"
            continue
        if x[0] != "B":
            x = mixcase(src, x.split("(")[0]) + "(%s)"
        lines.append(lead + x % w)
        out += b + le(v, 2)
    s = "\n".join(lines) + "\n"
    r = t.asm(s, ["-I", INC])
    expect_bytes(bytes(out), ok_output(r))
    t.nontrivial(s)


def ext_table():
    """Instructions of z80ext.inc and the machine code of what they stand for."""
    T = {}
    R = {"B": 0, "C": 1, "D": 2, "E": 3, "H": 4, "L": 5, "A": 7}
    for sg, i in (("+", 0x23), ("-", 0x2B)):
        hl = "(HL%s)" % sg
        for n, b in (("ADC A,", 0x8E), ("ADD A,", 0x86), ("AND ", 0xA6), ("DEC ", 0x35), ("INC ", 0x34), ("OR ", 0xB6), ("SBC A,", 0x9E), ("SUB ", 0x96), ("XOR ", 0xAE)):
            T[n + hl] = bytes([b, i])
        for n, b in (("RL", 0x16), ("RR", 0x1E), ("RRC", 0x0E), ("SLA", 0x26), ("SL1", 0x36), ("SLL", 0x36), ("SRA", 0x2E), ("SRL", 0x3E)):
            T[n + " " + hl] = bytes([0xCB, b, i])
        for r in "ABCDE":
            T["LD %s,%s" % (hl, r)] = bytes([0x70 | R[r], i])
            T["LD %s,%s" % (r, hl)] = bytes([0x46 | R[r] << 3, i])
        T["LD %s,*" % hl] = bytes([0x36, -1 & 0xFF, i])
        for p, c in (("BC", 0), ("DE", 0x10)):
            T["LD (%s%s),A" % (p, sg)] = bytes([c | 2, (c | 3) + (8 if sg == "-" else 0)])
        T["LD A,(BC%s)" % sg] = bytes([0x0A, 3 if sg == "+" else 0x0B])
    for r in R:
        T["LD (HL),%s" % r] = bytes([0x70 | R[r]])
    T["LD (BC),A"], T["LD (DE),A"] = b"\x02", b"\x12"
    T["LD HL,A,(HL)"] = b"\x7e\x23\x66\x6f"
    P = ("BC", "DE", "HL")
    for d in P:
        for s in P:
            if d != s:
                T["LD %s,%s" % (d, s)] = bytes([0x40 | R[d[1]] << 3 | R[s[1]], 0x40 | R[d[0]] << 3 | R[s[0]]])
    # (as published: only these five loads from (HL+-) and no others)
    return T


EXT = ext_table()


def ext(src, t):
    """z80ext.inc: every instruction is the sequence it abbreviates; the standard set still works."""
    lines, out = [inc(src, "z80ext.inc")], bytearray()
    names = sorted(EXT)
    for _ in src.many(2, 12, 40):
        if src.draw(5) == 0:
            x, b = src.choice([("ld a,(hl)", b"\x7e"), ("inc hl", b"\x23"), ("ld hl,1234h", b"\x21\x34\x12"), ("ld (hl),7", b"\x36\x07"), ("or (hl)", b"\xb6"), ("add a,(ix+3)", b"\xdd\x86\x03"), ("ld a,(bc)", b"\x0a"), ("add hl,de", b"\x19")])
            lines.append(" " + x)
            out += b
            continue
        n = src.choice(names)
        b = EXT[n]
        x = mixcase(src, n)
        if n.endswith("*"):
            v = src.int(0, 255)
            x = x[:-1] + src.choice(["%d" % v, "$%X" % v, "%d+fw" % v])
            b = b[:1] + bytes([v]) + b[2:]
        op, _, rest = x.partition(" ")
        g = src.choice(["", "", " "])
        x = op + src.choice([" ", "\t", "  "]) + rest.replace(",", "," + g).replace("(", "(" + g)
        lines.append(src.choice([" ", "\t"]) + x)
        out += b
    lines.append("fw = 0")
    s = "\n".join(lines) + "\n"
    r = t.asm(s, ["-I", INC])
    expect_bytes(bytes(out), ok_output(r))
    t.nontrivial(s)


def relocate(src, t):
    """Blocks of relocate.inc: labels inside have their run-time addresses, behind them the counter goes on as if nothing had happened."""
    org = src.choice([0, 0x100, 0x8000, src.int(0, 0x7000)])
    lines, out, labs, fix = [inc(src, "relocate.inc"), " .org %d" % org], bytearray(), {}, []
    pc, old, said = org, None, []

    def emit(x, b, n=None):
        nonlocal pc
        lines.append(x)
        if n is not None:
            fix.append((len(out) + len(b) - 2, n))
        out.extend(b)
        pc += len(b)
    base = 0
    for _ in src.many(3, 12, 40):
        k = src.draw(10)
        if k < 2:
            n = "l%d" % len(labs)
            labs[n] = pc
            lines.append(n + src.choice([":", ""]))
        elif k == 2:
            emit(" .dw $", le(pc, 2))
        elif k == 3 and labs:
            n = src.choice(sorted(labs) + ["l%d" % (len(labs) + src.draw(2))])
            x, b = src.choice([(" .dw %s", b"\0\0"), (" ld hl,%s", b"\x21\0\0"), (" call %s", b"\xcd\0\0"), (" ld (%s),a", b"\x32\0\0")])
            emit(x % n, b, n)
        elif k < 6:
            v = src.int(0, 9)
            x, b = src.choice([(" .db %d" % v, bytes([v])), (" .fill %d,3" % v, b"\3" * v), (" nop \\ inc a", b"\0\x3c"), (" jr $", b"\x18\xfe"), (" jp $", b"\xc3" + le(pc, 2))])
            emit(x, b)
        elif k < 8:
            if old is None:
                v = src.choice([0x8000, 0xC000, src.int(0, 0xF000), 0x9D93])
                x = src.choice(["%d" % v, "$%X" % v, "%d+%d" % (v // 2, v - v // 2)])
                if labs and src.draw(4) == 0:
                    n = src.choice(sorted(labs))
                    v, x = labs[n] + 3, n + "+3"
                lines.append(src.choice([" ", "\t"]) + mixcase(src, "relocate") + "(%s)" % x)
                old, base, pc = pc, v, v
            elif src.draw(4) == 0:
                lines.append(" relocate(%d)" % src.int(0, 0xFFFF))
                said.append("nest")
        elif old is not None:
            lines.append(" " + mixcase(src, "endrelocate") + src.choice(["()", "()", ""]))
            pc, old = pc - base + old, None
        elif src.draw(4) == 0:
            lines.append(" endrelocate()")
            said.append("none")
    for _, n in fix:
        if n not in labs:
            labs[n] = pc
            lines.append(n + ":")
    for at, n in fix:
        out[at:at + 2] = le(labs[n], 2)
    if max(list(labs.values()) + [pc]) > 0xFFFF:
        raise Discard("beyond 64 K")
    s = "\n".join(lines) + "\n"
    r = t.asm(s, ["-I", INC])
    if r.rc or r.files["out.bin"] is None:
        raise Violation("valid program rejected: exit %d" % r.rc, output=r.text()[-400:])
    expect_bytes(bytes(out), r.files["out.bin"])
    text = r.text()
    # (the line they name is that of the macro)
    got = ["nest" if "cannot nest relocate blocks" in l else "none" for l in text.split("\n") if "cannot nest relocate" in l or "corresponds to this endrelocate" in l]
    if got != said:
        raise Violation("messages %r, expected %r" % (got[:3], said[:3]))
    if base or said:
        t.nontrivial(s)
    t.label("blocks" if base else "none")


def app_header(name):
    h = bytes.fromhex("800F00000000" "80120104" "802101" "803101" "8048") + name + b" " * (8 - len(name))
    h += bytes.fromhex("808100" "8090" "03260904046F1B80" + "020D40" "A16B99F659BC67" "F5859C096C0FB4039BC9" "03322CE00320E32CF42D" "73B427C4A07254B9EA7C" +
                       "3BAA16F677837AEE1AD4" "424C6B8B131FBB938BFC" "191C3CEC4DE575" "807F00000000") + bytes(16)
    return h


def signed(src, t):
    """The same written as .8xk: the header is completed and the whole application signed."""
    app(src, t, True)


def app(src, t, sign=False):
    """Applications of app.inc: the header, pages filled to 16 K, addresses on each page, and the sizes that are printed."""
    name = bytes(src.choice(b"ABCXYZabc019 -.") for _ in src.many(1, 5, 8))
    lines, want, fix, labs = [inc(src, "app.inc")], [], [], {}
    out = bytearray(app_header(name))
    page, free, start, pages = 0, 0, 0, 1
    lines.append(' defpage(0,"%s")' % name.decode())
    want += ['Beginning APP "%s", courtesy of SPASM macros' % name.decode()]
    bad = None
    while True:
        for _ in src.many(0, 4, 12):
            pc = 0x4000 + (len(out) - start)
            k = src.draw(6)
            if k == 0:
                n = "a%d" % len(labs)
                labs[n] = pc
                lines.append(n + ":")
            elif k == 1 and labs:
                n = src.choice(sorted(labs) + ["a%d" % len(labs)])
                fix.append((len(out), n))
                lines.append(" .dw %s & 0FFFFh" % n)
                out += b"\0\0"
            elif k == 2:
                lines.append(" .dw $ & 0FFFFh")
                out += le(pc, 2)
            elif k == 3:
                n = src.choice([src.int(0, 50), src.int(0, 9000), max(0, 0x8000 - pc), max(0, 0x8000 - pc - 1), max(0, 0x8000 - pc + src.int(1, 9))] if src.draw(3) == 0 else [src.int(0, 200)])
                lines.append(" .fill %d,%d" % (n, n & 255))
                out += bytes([n & 255]) * n
            else:
                b = src.bytes(src.int(1, 6))
                lines.append(" .db " + ",".join("%d" % x for x in b))
                out += b
        pc = 0x4000 + (len(out) - start)
        last = src.draw(3) == 0 or page > 4
        if last and src.draw(6) == 0 and not bad:
            k = src.choice([page, 0] + ([page - 1] if page else []))
            if k:
                lines.append(" defpage(%d)" % k)
                bad = "Your page numbers must increase." if pc <= 0x8000 else ""
            else:
                lines.append(' defpage(0,"again")')
                bad = "There was already a page 0."
            break
        if pc > 0xFFFF:
            raise Discard("beyond 64 K")
        if pc > 0x8000:
            bad = "Page %d went over bounds by %d bytes." % (page, pc - 0x8000)
        if last:
            lines.append(src.choice([" validate", " validate()"]))
            if not bad:
                free += 0x8000 - pc
                want.append("Page %d free space: %d" % (page, 0x8000 - pc))
                want.append('Success: Page sizes validated and "%s" is ready for signing.' % name.decode())
                want.append("           In %d page(s), %d bytes are available." % (page + 1, free))
            break
        nxt = page + 1 if src.draw(5) else page + src.int(2, 3)
        lines.append(" defpage(%d)" % nxt)
        if bad:
            break
        if nxt > page + 1:
            want.append("Warning: Skipping page %d at user request." % (page + 1))
        want.append("Page %d free space: %d" % (page, 0x8000 - pc))
        free += 0x8000 - pc
        out += bytes(0x8000 - pc + (nxt - page - 1) * 0x4000)
        start, page = len(out), nxt
    for at, n in fix:
        if n not in labs:
            if bad:
                raise Discard("errors of its own")
            labs[n] = 0x4000 + len(out) - start
            lines.append(n + ":")
        out[at:at + 2] = le(labs[n], 2)
    s = "\n".join(lines) + "\n"
    o = "o.8xk" if sign else "out.bin"
    r = t.run({"in.asm": s}, ["-N", "-I", INC, "in.asm", o], want=(o,))
    alive(r)
    text = [l.split("m")[-1] if l.startswith("\x1b") else l for l in r.text().split("\n")]
    if bad is not None:
        if r.rc < 2 or bad not in r.text():
            raise Violation("%s: exit status %d" % (bad, r.rc), output=r.text()[-500:])
        t.nontrivial(s)
        t.label("diagnosed")
        return
    if sign:
        import p15
        n = len(out)
        if 1 <= (n + 96) % 16384 < 97 and n + 96 > 16384:
            if r.files[o] or r.rc == 0:
                raise Violation("no room for the signature on the last page (%d bytes), but exit %d" % (n, r.rc), output=r.text()[-500:])
            return
        small = (n + 96) % 16384 < 1024 and n + 96 >= 16384 and (n + 96) % 16384
        if r.files[o] is None or r.rc != (3 if small else 0):
            raise Violation("valid application of %d bytes: exit %d" % (n, r.rc), output=r.text()[-500:])
        out[2:6] = (n - 6).to_bytes(4, "big")
        out[28] = (n + 16383) // 16384
        got, _ = p15.parse(r.files[o], bytes(out))
        if got != name + b" " * (8 - len(name)):
            raise Violation("the application is named %r, not %r" % (got, name))
    else:
        if r.rc or r.files[o] is None:
            raise Violation("valid program rejected: exit %d" % r.rc, output=r.text()[-400:])
        expect_bytes(bytes(out), r.files[o])
    got = [l for l in text if l.startswith(("Beginning", "Page ", "Success", "           In", "Warning"))]
    if got != want:
        raise Violation("the application reports %r, expected %r" % (got, want))
    t.nontrivial(s)
    t.label("pages %d" % (page + 1))


def parts(tier):
    q = tier == "quick"
    return [("equates", equates, 1000 if q else 12000), ("table", table, 30 if q else 200), ("macros", macros, 600 if q else 8000), ("ext", ext, 2500 if q else 40000),
            ("relocate", relocate, 4000 if q else 60000), ("app", app, 2500 if q else 30000), ("signed", signed, 400 if q else 6000)]
