"""P15: 8XK applications: completed header, Intel HEX body and Rabin signature verified independently."""
import hashlib
from core import Violation, Discard, alive, diags, expect_bytes
from expr import mixcase
from p14 import check_hex

PROP = "P15"
TECHNIQUE = "random application headers and bodies written as .8xk, parsed and signature-verified (sig^2 mod n against the MD5) by an independent reader; headers with one field removed or damaged"
NOTE = ("Field sizes 0-12 (the one-nibble form); 1-20 pages. The public modulus is the freeware key 0104. Sizes whose last page has no room for the "
        "96-byte signature must be rejected.")
RULE = "distinct application sources that were signed, or rejected for the field that is missing"
N = int.from_bytes(bytes.fromhex(
    "AD2431DA2297E4175EAC61A3154FA3D8471157" "94DD330AB7FF36BA59FEDA195FEA7C1674"
    "3BD7BCED8A0DA885E5E5C34D5BF20D0AB3EF9181ED39BA2C4D898E87"), "little")


def need(c, msg):
    if not c:
        raise Violation("not a correct application file: " + msg)


def parse(d, app):
    """d: file; app: bytes as assembled, with length and page fields already completed."""
    need(d[:8] == b"**TIFL**", "identifier %r" % d[:8])
    need(d[8:16] == bytes([1, 1, 1, 0x88, 1, 1, 0x19, 0x97]), "version, flags and date %r" % d[8:16])
    nl = d[16]
    need(nl <= 8, "name length %d" % nl)
    name = d[17:25]
    need(name[nl:] == bytes(8 - nl), "name padding %r" % name)
    need(d[25:48] == bytes(23), "filler")
    need(d[48:50] == b"\x73\x24", "device and data type %r" % d[48:50])
    need(d[50:74] == bytes(24), "filler")
    ln = int.from_bytes(d[74:78], "little")
    need(ln == len(d) - 78, "length field %d, file has %d" % (ln, len(d) - 78))
    # the body: application then 96 bytes of signature block
    md = hashlib.md5(app).digest()
    m = int.from_bytes(md, "little") * 256 + 1
    from p14 import decode_hex
    mem = decode_hex(d[78:])
    body = bytes(x for _, _, x in mem)
    check_hex(d[78:], body)
    expect_bytes(app, body[:len(app)], "application data")
    foot = body[len(app):]
    need(len(foot) == 96, "signature block of %d bytes" % len(foot))
    need(foot[:2] == b"\x02\x2d", "signature field %r" % foot[:3])
    sl = foot[2]
    need(0 < sl <= 64, "signature length %d" % sl)
    sig = int.from_bytes(foot[3:3 + sl], "little")
    rest = foot[3 + sl:]
    if rest[0] == 0:
        f, rest = 0, rest[1:]
    else:
        need(rest[0] == 1, "f length %d" % rest[0])
        f, rest = rest[1], rest[2:]
    need(f <= 3, "f=%d" % f)
    need(rest == b"\xff" * len(rest), "padding %r" % rest)
    want = {0: -2 * m, 1: -m, 2: m, 3: 2 * m}[f] % N
    need(pow(sig, 2, N) == want, "the signature does not verify against the MD5 of the application (f=%d)" % f)
    return name[:nl], f


def header(src, drop=None):
    """Field list [(kind, bytes)]; returns bytes and the offsets of the length and page fields."""
    nm = bytes(src.choice(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789aMz _[%.\xc8\x01") for _ in src.many(1, 6, 8))
    if src.draw(8) == 7:
        nm += b"XYZ12"[:src.int(1, 4)]
        nm = nm[:12]
    f = []
    if drop != "type":
        f.append(("type", b"\x80\x12\x01\x04"))
    if drop != "name":
        f.append(("name", bytes([0x80, 0x40 | len(nm)]) + nm))
    if drop != "pages":
        f.append(("pages", b"\x80\x81" + bytes([src.choice([1, 2, 0, 99, 255])])))
    for _ in src.many(0, 1.5, 4):
        # other fields: revision, build, splash, expiry ... of any size
        ty = src.choice([0x20, 0x30, 0x90, 0x00, 0xA0, 0x10, 0x80, 0x50, 0x60, 0xC0])
        n = src.int(0, 9)
        if ty | n in (0x12, 0x81):
            continue
        f.append(("other", bytes([0x80, ty | n]) + src.bytes(n)))
    if src.draw(2):
        f = src.shuffle(f)
    out = bytearray(b"\x80\x0f" + src.bytes(4))
    at = None
    for k, b in f:
        if k == "pages":
            at = len(out) + 2
        out += b
    if src.draw(2):
        out += b"\x80\x70"
    else:
        out += bytes([src.choice([0, 0x40, 1, 0x7F])])
    return out, at, nm, f


def db(b):
    return [" .db " + ",".join("$%02X" % x for x in b[i:i + 24]) for i in range(0, len(b), 24)]


def body(src, have):
    """Size of the whole application and the source of what follows the header."""
    k = src.draw(9)
    P = 16384
    if k == 0:
        n = have
    elif k < 4:
        n = have + src.int(0, 400)
    elif k < 6:
        n = src.choice([P - 97, P - 96, P - 95, P - 1, P, P + 1, 2 * P - 96, 2 * P - 97, 2 * P - 95, 2 * P, 3 * P - 96, P + 1024 - 96, P + 1023 - 96,
                        2 * P + 1, 31 * 32, 32 * 40 - 96, P - 96 - 32])
    elif k < 8:
        n = src.int(have, 3 * P)
    elif src.draw(4):
        n = src.int(have, 8 * P)
    else:
        n = src.int(4 * P, 20 * P)
    n = max(n, have)
    left = n - have
    lines, out = [], bytearray()
    tail = src.bytes(min(left, src.int(0, 12)))
    v = src.int(0, 255)
    if left - len(tail):
        lines.append(" .fill %d,%d" % (left - len(tail), v))
        out += bytes([v]) * (left - len(tail))
    out += tail
    return lines + db(tail), bytes(out)


def run(src, t, lines):
    out = src.choice(["", "sub/"]) + src.choice(["app", "MYAPP", "x.y"]) + "." + mixcase(src, "8xk")
    s = "\n".join(lines) + "\n"
    r = t.run({"in.asm": s, "sub/k": ""}, ["-N", "in.asm", out], want=(out,))
    alive(r)
    return r, r.files[out], s


def signed(src, t):
    h, at, nm, _ = header(src)
    bl, bb = body(src, len(h))
    app = bytearray(h + bb)
    r, f, s = run(src, t, db(h) + bl)
    n = len(app)
    if 1 <= (n + 96) % 16384 < 97 and n + 96 > 16384:
        if f or r.rc == 0 or "SE505" not in r.text():
            raise Violation("no room for the signature on the last page (%d bytes), but exit %d" % (n, r.rc), output=r.text()[-500:])
        t.label("no room")
        return
    if f is None:
        raise Violation("no output (exit %d)" % r.rc, output=r.text()[-500:])
    small = (n + 96) % 16384 < 1024 and n + 96 >= 16384 and (n + 96) % 16384
    if r.rc != (3 if small else 0) or "error" in r.text():
        raise Violation("valid application of %d bytes: exit %d" % (n, r.rc), output=r.text()[-500:])
    app[2:6] = (n - 6).to_bytes(4, "big")
    app[at] = (n + 16383) // 16384
    name, fv = parse(f, bytes(app))
    need(name == nm[:8], "name %r, header says %r" % (name, nm))
    t.nontrivial(s)
    t.sample(s[:700])
    t.label("f=%d" % fv)
    t.label("pages=%d" % app[at])


def damaged(src, t):
    k = src.choice(["length", "type", "typeval", "pages", "name", "gap"])
    h, at, nm, fl = header(src, drop=k)
    if k == "length":
        h[src.draw(2)] ^= 1 << src.draw(8)
        code = "SE501"
    elif k == "typeval":
        i = bytes(h).index(b"\x80\x12\x01\x04", 6)
        h[i + src.int(2, 3)] ^= 1 << src.draw(8)
        code = "SE502"
    elif k == "gap":
        # the field list ends before the required fields
        i = len(h)
        p = 6
        for kind, b in fl:
            if kind in ("type", "pages", "name"):
                break
            p += len(b)
        h[p:p] = bytes([src.choice([0, 1, 0x7F, 0xFF])])
        code = {"type": "SE502", "pages": None, "name": None}[kind]
    else:
        code = {"type": "SE502", "pages": "SE503", "name": "SE504"}[k]
    bl, bb = body(src, len(h))
    if len(h + bb) > 16384 - 96:
        raise Discard("too large")
    r, f, s = run(src, t, db(h) + bl)
    if r.rc == 0 or f:
        raise Violation("header without a valid %s field accepted: exit %d, file of %s bytes" % (k, r.rc, len(f or b"")), output=r.text()[-400:])
    if "error" not in r.text() or code and code not in r.text():
        raise Violation("header without a valid %s field: expected %s" % (k, code), output=r.text()[-400:])
    t.nontrivial(s)
    t.label("no " + k)


def parts(tier):
    q = tier == "quick"
    return [("signed", signed, 5000 if q else 80000), ("damaged", damaged, 2000 if q else 30000)]
