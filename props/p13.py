"""P13: TI variable files parsed by an independent reader."""
from core import Violation, Discard, diags, alive, expect_bytes
from expr import mixcase
from p06 import program, label_table, merge

PROP = "P13"
TECHNIQUE = "random programs and file names written in every TI container type, parsed by an independent reader and compared with the model's bytes"
NOTE = ("Nine container types, names of 1-12 characters with and without directories, sizes 0-60000 and around the limit of the 16-bit lengths. The length of the variable header of TI-85 "
        "files is taken as 6 + name length, up to and including the second data length.")
RULE = "distinct (type, file name, program) with a non-empty program"
TYPES = ["73p", "82p", "83p", "8xp", "8xv", "85p", "86p", "85s", "86s"]
SIG = {"73p": b"**TI73**", "82p": b"**TI82**", "83p": b"**TI83**", "8xp": b"**TI83F*", "8xv": b"**TI83F*",
       "85p": b"**TI85**", "86p": b"**TI86**", "85s": b"**TI85**", "86s": b"**TI86**"}
VTYPE = {"73p": 6, "82p": 6, "83p": 6, "8xp": 6, "8xv": 0x15, "85p": 0x12, "86p": 0x12, "85s": 0x0C, "86s": 0x0C}
UP = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"


class Bad(Exception):
    pass


def need(c, msg):
    if not c:
        raise Violation("not a well-formed file: " + msg)


def parse(kind, d):
    """Returns (vartype, name, program data)."""
    sig = SIG[kind]
    need(d[:8] == sig, "signature %r" % d[:8])
    end = {"85": 0x0C}.get(kind[:2], 0x0A)
    need(d[8:11] == bytes([0x1A, end, 0]), "signature bytes %r" % d[8:11])
    need(len(d) >= 57, "too short")
    comment = d[11:53]
    need(comment.rstrip(b"\0").isascii(), "comment")
    n = int.from_bytes(d[53:55], "little")
    need(len(d) == 55 + n + 2, "section length %d, file has %d" % (n, len(d) - 57))
    sec = d[55:55 + n]
    need(int.from_bytes(d[55 + n:], "little") == sum(sec) & 0xFFFF, "checksum")
    hl = int.from_bytes(sec[0:2], "little")
    size = int.from_bytes(sec[2:4], "little")
    vt = sec[4]
    if kind[:2] == "85":
        nl = sec[5]
        need(hl == 6 + nl, "header length %d for a name of %d" % (hl, nl))
        name = sec[6:6 + nl]
        p = 6 + nl
    elif kind[:2] == "86":
        nl = sec[5]
        need(nl <= 8, "name length %d" % nl)
        need(hl == 12, "header length %d" % hl)
        name = sec[6:14]
        need(name[nl:] == bytes(8 - nl) and 0 not in name[:nl], "name field %r of length %d" % (name, nl))
        name = name[:nl]
        p = 14
    else:
        name = sec[5:13]
        need(hl == (13 if kind[:2] == "8x" else 11), "header length %d" % hl)
        p = 13
        if kind[:2] == "8x":
            need(sec[13:15] == b"\0\0", "version/flag %r" % sec[13:15])
            p = 15
        k = name.find(b"\0")
        if k >= 0:
            need(name[k:] == bytes(8 - k), "name padding %r" % name)
            name = name[:k]
    need(sec[p:p + 2] == sec[2:4], "the two variable sizes differ")
    body = sec[p + 2:]
    need(len(body) == size, "variable size %d, data %d" % (size, len(body)))
    m = int.from_bytes(body[:2], "little")
    need(m == size - 2, "program size word %d of %d" % (m, size))
    return vt, name, body[2:]


def payload(kind, data):
    if kind == "82p":
        return b"\xD5\x00\x11" + data
    if kind == "83p":
        return data.hex().upper().encode() + b"\x3f\xd4\x3f0000\x3f\xd4"
    if kind == "86p":
        return b"\x8E\x28" + data
    return data


def section(kind, name, data):
    """The length of the data section."""
    head = {"85": 8 + len(name[:8]), "86": 16, "8x": 17}.get(kind[:2], 15)
    return head + 2 + len(payload(kind, data))


def check(t, src, kind, lines, data, files=None, args=()):
    base = src.choice([UP[src.draw(26)], UP[src.draw(26)], "abcxyz"[src.draw(6)]])
    for _ in src.many(0, 3.5, 11):
        k = src.draw(4)
        base += UP[src.draw(26)] if k < 2 else "%d" % src.draw(10) if k == 2 else UP[src.draw(26)].lower()
    odd = src.draw(5) == 0
    if odd:
        # only the last dot starts the extension; other characters are kept, for most types with a warning
        base += src.choice([".", ".", "_", "-", " ", "+", "!"]) + src.choice(["a", "X1", "v2", "8xp"])
    d = src.choice(["", "", "./", "sub/", "a.b/", "Deep/er.d/"])
    ext = mixcase(src, kind)
    out = d + base + "." + ext
    fs = {"in.asm": "\n".join(lines) + "\n"}
    fs.update(files or {})
    if "/" in d and d != "./":
        fs[d + "keep.txt"] = ""
    r = t.run(fs, ["-N"] + list(args) + ["in.asm", out], want=(out,))
    alive(r)
    if section(kind, base, data) > 65535:
        # no such file can exist: the length does not fit in its field
        if r.rc == 0 or b" SW550: " not in r.raw:
            raise Violation("a program too large for %s is not reported: exit %d %r" % (out, r.rc, diags(r)), output=r.text()[-600:])
        t.label("too large")
        t.nontrivial(out + fs["in.asm"])
        return
    if b" SW550: " in r.raw:
        raise Violation("a program that fits in %s is reported as too large" % out, output=r.text()[-600:])
    if r.files[out] is None:
        raise Violation("no output file %s (exit %d)" % (out, r.rc), output=r.text()[-800:])
    vt, name, body = parse(kind, r.files[out])
    need(vt == VTYPE[kind], "variable type %02X" % vt)
    nm = base
    if kind == "8xv":
        nm = nm[0].upper() + nm[1:]
    elif kind[:2] not in ("85", "86", "82"):
        nm = nm.upper()
    want = (b"\xDC" if kind == "82p" else b"") + nm.encode()
    need(name == want[:8], "name %r for file %s" % (name, out))
    expect_bytes(payload(kind, data), body, "program data of %s" % out)
    errs = [x for x in diags(r) if x.kind == "error"]
    if errs or r.rc > (1 if len(body) + 2 <= 24575 else 3):
        raise Violation("valid program: exit %d %r" % (r.rc, errs))
    ce = "-E" in args
    if not (kind == "8xp" and (ce and data[:2] != b"\xef\x7b" or not ce and data[:2] not in (b"\xbb\x6d", b"\xef\x69"))) \
            and len(body) + 2 <= 24575 and r.rc != (1 if odd and kind[:2] not in ("85", "86", "82") else 0):
        raise Violation("exit %d for %s: %r" % (r.rc, out, diags(r)), output=r.text()[-600:])
    t.label(kind)
    if data:
        t.nontrivial(out + fs["in.asm"])


def modelled(src, t):
    kind = src.choice(TYPES)
    p = program(src, n=10)
    l, b = label_table(p)
    lines = p.lines() + l
    data = merge(p, b)
    check(t, src, kind, lines, data)
    t.sample("%s\n%s" % (kind, "\n".join(lines)))


def sizes(src, t):
    """Chosen sizes and byte values: length fields and checksums beyond 8 and 16 bits."""
    kind = src.choice(TYPES)
    head = src.choice([b"", b"\xbb\x6d", b"\xef\x69", b"\xef\x7b"])
    top = 28000 if kind == "83p" else 60000
    n = src.choice([0, 1, 2, 253, 254, 255, 256, 257, src.int(0, 600), src.int(0, 24000), src.int(0, top)])
    v = src.choice([0, 255, 254, 1, src.int(0, 255)])
    tail = src.bytes(src.int(0, 6))
    lines = [" .db %s" % ",".join("$%02X" % b for b in x) for x in (head,) if x] + ([" .fill %d,%d" % (n, v)] if n else [])
    lines += [" .db %s" % ",".join("%d" % b for b in tail)] if tail else []
    data = head + bytes([v]) * n + tail
    check(t, src, kind, lines or [" "], data, args=src.choice([(), (), ("-E",)]))


def limits(src, t):
    """Sizes around the largest that the 16-bit length of the data section can tell, and around that of a calculator's memory."""
    kind = src.choice(TYPES)
    head = src.choice([b"", b"\xbb\x6d", b"\xef\x7b"])
    room = src.choice([65535, 65535, 24575]) - (len(payload(kind, b"")) + 2 + {"85": 12, "86": 16, "8x": 17}.get(kind[:2], 15))
    n = room // (2 if kind == "83p" else 1) - len(head) + src.int(-30, 40)
    v = src.int(0, 255)
    lines = [" .db %s" % ",".join("$%02X" % b for b in x) for x in (head,) if x] + [" .fill %d,%d" % (n, v)]
    check(t, src, kind, lines, head + bytes([v]) * n, args=src.choice([("-E",), ("-E",), ()]))


def parts(tier):
    q = tier == "quick"
    return [("modelled", modelled, 5000 if q else 150000), ("sizes", sizes, 5000 if q else 100000), ("limits", limits, 2500 if q else 30000)]
