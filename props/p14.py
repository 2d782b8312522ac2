"""P14: .bin, .rom and .hex outputs decoded by an independent reader."""
from core import Violation, diags, alive, expect_bytes
from expr import mixcase
from p06 import program, label_table, merge

PROP = "P14"
TECHNIQUE = "random programs and sizes written as .bin, .rom, .hex and with unknown or missing extensions, decoded by an independent Intel HEX reader and compared with the model's bytes"
NOTE = "Sizes 0-70000 biased to record, page and bank boundaries; a few of 0.5-7 MB. Output paths without an extension contain no dot."
RULE = "distinct (output name, program) with a non-empty program"
SIZES = [0, 1, 2, 31, 32, 33, 63, 64, 65, 255, 256, 16383, 16384, 16385, 16384 + 31, 16384 + 32, 32767, 32768, 32769, 49152, 65535, 65536]


def need(c, msg):
    if not c:
        raise Violation("not well-formed Intel HEX: " + msg)


def decode_hex(d, pages=True):
    """The bytes of a TI-style Intel HEX text: address (page, offset) -> byte, in file order."""
    try:
        lines = d.decode("ascii").split("\r\n")
    except UnicodeDecodeError:
        raise Violation("not ASCII")
    if lines[-1] == "":
        lines.pop()
    mem = []
    page = None
    need(lines, "empty file")
    for i, l in enumerate(lines):
        need(l[:1] == ":", "line %d does not start with ':': %r" % (i + 1, l[:60]))
        need(len(l) % 2 == 1 and all(c in "0123456789ABCDEF" for c in l[1:]), "line %d: digits %r" % (i + 1, l[:60]))
        b = bytes.fromhex(l[1:])
        need(len(b) >= 5 and b[0] == len(b) - 5, "line %d: count %r" % (i + 1, l[:80]))
        need(sum(b) & 255 == 0, "line %d: checksum %r" % (i + 1, l[:80]))
        ty, addr, data = b[3], b[1] << 8 | b[2], b[4:-1]
        if ty == 1:
            need(i == len(lines) - 1 and not data and addr == 0, "end record on line %d of %d: %r" % (i + 1, len(lines), l))
            return mem
        if ty == 2:
            need(addr == 0 and len(data) == 2, "page record %r" % l)
            page = data[0] << 8 | data[1]
        elif ty == 0:
            need(page is not None, "data before any page record")
            need(len(data) > 0, "empty data record")
            for k, x in enumerate(data):
                mem.append((page, addr + k, x))
        else:
            need(False, "record type %d" % ty)
    raise Violation("no end record")


def check_hex(d, data):
    mem = decode_hex(d)
    got = bytes(x for _, _, x in mem)
    expect_bytes(data, got, "HEX data")
    for i, (pg, a, _) in enumerate(mem):
        if pg != i // 16384 or a != 0x4000 + i % 16384:
            raise Violation("byte %d is at page %d address %04X, expected page %d address %04X" % (i, pg, a, i // 16384, 0x4000 + i % 16384))


def name(src, kind):
    base = src.choice(["out", "a", "A.b", "x y", "rom", "prog.8xp", "hex", "bin.hex", "q"])
    d = src.choice(["", "", "", "./", "sub/", "d.e/"])
    if kind == "none":
        return src.choice(["", "sub/"]) + src.choice(["out", "hex", "rom", "x y"])
    if kind == "unknown":
        return d + base + "." + src.choice(["hexx", "he", "h", "b", "xyz", "r0m", "8x", "bi", "bin2", "txt", "rom.x", "com"])
    return d + base + "." + mixcase(src, kind)


def check(t, src, lines, data, kinds):
    kind = src.choice(kinds)
    out = name(src, kind)
    fs = {"in.asm": "\n".join(lines) + "\n"}
    if "/" in out:
        fs[out[:out.rindex("/") + 1] + "keep"] = ""
    r = t.run(fs, ["-N", "in.asm", out], want=(out,))
    alive(r)
    f = r.files[out]
    if f is None:
        raise Violation("no output file %s (exit %d)" % (out, r.rc), output=r.text()[-800:])
    if kind == "hex":
        check_hex(f, data)
    elif kind == "rom":
        expect_bytes(data + b"\xff" * (524288 - len(data)), f, "ROM image")
    else:
        expect_bytes(data, f, "raw output")
    warned = "warning SW803" in r.text()
    if warned != (kind == "unknown"):
        raise Violation("unknown-extension warning %s for %s" % ("given" if warned else "missing", out), output=r.text()[-500:])
    if kind != "unknown" and r.rc != 0:
        raise Violation("exit %d for %s" % (r.rc, out), output=r.text()[-500:])
    t.label(kind)
    if data:
        t.nontrivial(out + fs["in.asm"])
        t.sample("%s\n%s" % (out, "\n".join(lines)[:400]))


def modelled(src, t):
    p = program(src, n=10)
    l, b = label_table(p)
    check(t, src, p.lines() + l, merge(p, b), ["hex", "hex", "bin", "none", "unknown"])


def blob(src, n):
    """Source and bytes of n bytes with little structure."""
    lines, out = [], bytearray()
    lines.append("#macro gen(s,n)")
    lines.append(" ;")
    lines.append("#endmacro")
    del lines[:]
    while len(out) < n:
        left = n - len(out)
        if src.draw(2) and left > 40:
            c, v = src.int(1, left if left < 4000 else left // 2), src.int(0, 255)
            lines.append(" .fill %d,%d" % (c, v))
            out += bytes([v]) * c
        else:
            b = src.bytes(min(left, src.int(1, 24)))
            lines.append(" .db " + ",".join("%d" % x for x in b))
            out += b
    return lines, bytes(out)


def sizes(src, t):
    k = src.draw(8)
    n = src.choice(SIZES) if k < 4 else src.int(0, 300) if k < 6 else src.int(0, 70000)
    lines, data = blob(src, n)
    check(t, src, lines or [""], data, ["hex", "hex", "hex", "bin", "none", "unknown"])


def rom(src, t):
    n = src.choice([0, 1, 524286, 524287, 524288, src.int(0, 524288), src.int(0, 5000)])
    lines, data = blob(src, n)
    check(t, src, lines or [""], data, ["rom"])


def large(src, t):
    """Several megabytes: page numbers beyond 8 bits."""
    n = src.choice([256 * 16384 + 40, 256 * 16384 - 1, src.int(1 << 19, 7 << 20)])
    head = src.bytes(8)
    lines = [" .db " + ",".join("%d" % x for x in head), " .fill %d,%d" % (n, 85), " .db 1,2,3"]
    check(t, src, lines, head + bytes([85]) * n + b"\1\2\3", ["hex", "bin"])


def parts(tier):
    q = tier == "quick"
    return [("modelled", modelled, 4000 if q else 100000), ("sizes", sizes, 4000 if q else 60000), ("rom", rom, 150 if q else 3000),
            ("large", large, 8 if q else 100)]
