"""P24: bitmaps."""
import struct
from core import Violation, diags, expect_bytes

PROP = "P24"
TECHNIQUE = "random BMP files and __BM_* settings (and .option lists) against a reference converter"
NOTE = ("1, 4, 8 and 24 bit uncompressed bottom-up BMPs with a 40 byte header whose pixels follow the palette; image maps whose images fill the bitmap. "
        "16 and 32 bit files (colours are misread), top-down files and maps that do not divide the bitmap are not judged. Colours within 1e-6 of a shade boundary are avoided.")
RULE = "distinct (file, settings) with at least one setting other than the defaults or more than one row"


def shade(c, n):
    lum = (0.2126 / 255.0) * c[0] + (0.7152 / 255.0) * c[1] + (0.0722 / 255.0) * c[2]
    return (0.99 - lum) * n


def bmp(src, w, h, bpp, pal, rows, clr_used):
    scan = (w * bpp + 31) // 32 * 4
    data = b""
    for r in reversed(rows):
        if bpp == 24:
            b = b"".join(bytes([c[2], c[1], c[0]]) for c in r)
        else:
            s = "".join(format(x, "0%db" % bpp) for x in r)
            s += src.choice("01") * (-len(s) % 8)
            b = bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8))
        data += b + bytes([src.choice([0, 255])]) * (scan - len(b))
    p = b"".join(bytes([c[2], c[1], c[0], 0]) for c in pal)
    off = 54 + len(p)
    size = off + len(data)
    return (b"BM" + struct.pack("<IHHI", size, 0, 0, off) +
            struct.pack("<IiiHHIIiiII", 40, w, h, 1, bpp, 0, src.choice([0, len(data)]), src.choice([0, 2835]), 0, clr_used, src.choice([0, clr_used])) + p + data)


class Conv:
    """Converts one image."""

    def __init__(self, o):
        self.o = o
        self.out = bytearray()
        self.warn = 0

    def get(self, k, dflt=0):
        v = self.o.get(k)
        return dflt if v is None else v

    def header(self, w, h):
        o = self.o
        if o.get("BM_HDR") != 1 or o.get("BM_HDR_FMT") is None:
            return
        layers = o["BM_SHD"].bit_length() - 1 + (o.get("BM_MSK") == 1)
        size = sum((max(x, self.minw()) + 7) // 8 for _, x in self.strips(w)) * h * layers
        for t in o["BM_HDR_FMT"]:
            t = t.lower()
            v = {"w": w, "h": h, "s": size, "b": o["BM_SHD"]}.get(t[0])
            if t not in ("w", "ww", "h", "hh", "s", "ss", "b"):
                self.out.append(0)
                self.warn += 1
            elif len(t) == 2:
                self.out += (v & 0xFFFF).to_bytes(2, "little")
            else:
                self.warn += t != "b" and v > 255
                self.out.append(v & 255)

    def minw(self):
        return self.get("BM_MIN_W", -1)

    def strips(self, w):
        m = self.minw()
        if m > 0 and w > m:
            return [(x, min(m, w - x)) for x in range(0, w, m)]
        return [(0, w)]

    def image(self, px):
        """px: rows of (r,g,b), top to bottom"""
        o = self.o
        h, w = len(px), len(px[0])
        n = o["BM_SHD"]
        inv = o.get("BM_INV_RGB")
        mk = o.get("BM_MSK_RGB") or (0, 255, 0)
        for x0, sw in self.strips(w):
            total = (max(sw, self.minw()) + 7) // 8 * 8
            pic, mask = [], []
            for row in px:
                a = [0] * total
                b = [1] * total
                for i, c in enumerate(row[x0:x0 + sw]):
                    if inv is not None and c == inv:
                        a[i] = n - 1
                    else:
                        a[i] = max(0, int(shade(c, n)))
                        b[i] = int(c == mk)
                pic.append(a)
                mask.append(b)
            img = b"".join(self.pack([v >> k & 1 for v in r]) for k in range(n.bit_length() - 2, -1, -1) for r in pic)
            msk = b""
            if o.get("BM_MSK") == 1:
                msk = b"".join(self.pack(r) for r in mask)
                if o.get("BM_MSK_INV") == 1:
                    msk = bytes(x ^ 255 for x in msk)
            self.out += msk + img if o.get("BM_MSK_1ST") == 1 else img + msk

    @staticmethod
    def pack(bits):
        return bytes(int("".join(map(str, bits[i:i + 8])), 2) for i in range(0, len(bits), 8))


GREYS = [(0, 0, 0), (255, 255, 255), (0, 255, 0), (255, 0, 0), (0, 0, 255), (128, 128, 128), (192, 192, 192), (255, 255, 0), (64, 64, 64), (254, 254, 254), (1, 1, 1)]


def colour(src, n):
    for _ in range(20):
        c = src.choice(GREYS) if src.draw(2) else (src.int(0, 255), src.int(0, 255), src.int(0, 255)) if src.draw(2) else (src.int(0, 255),) * 3
        s = shade(c, n)
        if abs(s - round(s)) > 1e-6:
            return c
    return (0, 0, 0)


def setting(src, name, value, lines):
    z = src.draw(3)
    last = lines[-1] if lines else ""
    if z < 2 and ".option" in last and len(last) < 150 and src.draw(2):
        # one more option in the list of the line before
        nm = src.choice([name, name.lower()])
        lines[-1] += src.choice([",", ", ", " , "]) + (nm if value == "1" and src.draw(2) else nm + src.choice(["=", " = "]) + value)
        return
    nm = src.choice([name, name.lower(), name.title()])
    if z == 0:
        lines.append(" .option %s = %s" % (nm, value))
    elif z == 1:
        lines.append(".option %s=%s" % (nm, value))
    else:
        lines.append("#define __%s %s" % (nm, value))


def num(src, v):
    return src.choice(["%d", "%d", "$%X", "%d+0" if v >= 0 else "%d"]) % v


def one(src, t):
    lines, out = [], bytearray()
    pc = src.choice([0, 0x8000, 0x9D95])
    lines.append(" .org %d" % pc)
    files = {}
    o = {"BM_SHD": 2}
    warn = 0
    tail = bytearray()
    tails = []
    plain = True
    for k in range(src.choice([1, 1, 1, 2, 3])):
        # settings
        new = {}
        if src.draw(2):
            new["BM_SHD"] = src.choice([2, 4, 8, 16, 4, 32, 64, 128, 256, 1])
        for nm in ("BM_HDR", "BM_MSK", "BM_MSK_1ST", "BM_MSK_INV"):
            if src.draw(3) == 0:
                new[nm] = src.choice([1, 1, 0])
        if src.draw(3) == 0:
            new["BM_MIN_W"] = src.choice([8, 16, 1, 3, 24, src.int(1, 40)])
        if src.draw(4) == 0:
            new["BM_MSK_RGB"] = src.choice(GREYS)
        if src.draw(4) == 0:
            new["BM_INV_RGB"] = src.choice(GREYS)
        if src.draw(3) == 0 or new.get("BM_HDR") and "BM_HDR_FMT" not in o:
            new["BM_HDR_FMT"] = [src.choice(["w", "h", "ww", "hh", "b", "s", "ss", "W", "Hh", "ss"] + ["q"] * (src.draw(8) == 0)) for _ in range(src.int(1, 5))]
        if src.draw(5) == 0:
            new["BM_PAD"] = src.int(0, 3)
        o.update(new)
        ns = o["BM_SHD"]
        # the bitmap
        bpp = src.choice([1, 4, 8, 24])
        mp = None
        pad = o.get("BM_PAD", 0)
        if src.draw(4) == 0:
            nx, ny = src.int(1, 4), src.int(1, 4)
            w, h = nx * (src.int(1, 12) + 2 * pad), ny * (src.int(1, 8) + 2 * pad)
            mp = [nx, ny] + ([src.int(1, nx * ny + 1)] if src.draw(3) == 0 else [])
            # only the columns: one row
            if ny == 1 and src.draw(2) and len(mp) == 2:
                mp = [nx]
        else:
            w, h = src.choice([1, 8, 7, 9, 16, 31, 33, src.int(1, 40), src.int(1, 40), src.int(200, 300)]), src.choice([1, 2, 8, src.int(1, 20), src.int(1, 20)])
            if w < 40 and src.draw(12) == 0:
                h = src.int(250, 300)
        if bpp == 24:
            pal, clr = [], 0
            cs = [colour(src, ns) for _ in range(src.int(1, 8))]
            cs += [c for c in (o.get("BM_MSK_RGB"), o.get("BM_INV_RGB")) if c and abs(shade(c, ns) - round(shade(c, ns))) > 1e-6]
            rows = [[src.choice(cs) for _ in range(w)] for _ in range(h)] if w * h < 900 else pattern(src, cs, w, h)
            px = rows
        else:
            clr = src.choice([0, src.int(1, 1 << bpp), 1 << bpp])
            n = clr or 1 << bpp
            pal = [colour(src, ns) for _ in range(min(n, 12))]
            if n > 12:
                pal += [pal[i * 7 % 12] for i in range(n - 12)]
            for c in (o.get("BM_MSK_RGB"), o.get("BM_INV_RGB")):
                if c and src.draw(3) and abs(shade(c, ns) - round(shade(c, ns))) > 1e-6:
                    pal[src.draw(len(pal))] = c
            ix = list(range(n))
            rows = [[src.choice(ix) for _ in range(w)] for _ in range(h)] if w * h < 900 else pattern(src, ix, w, h)
            px = [[pal[i] for i in r] for r in rows]
        f = "b%d.%s" % (k, src.choice(["bmp", "BMP", "gif", "x"]))
        files[f] = bmp(src, w, h, bpp, pal, rows, clr)
        for nm, v in new.items():
            if nm in ("BM_MSK_RGB", "BM_INV_RGB"):
                s = src.choice(["RGB(%d,%d,%d)" % v, "$%02X%02X%02X" % v, "%d" % (v[0] << 16 | v[1] << 8 | v[2])])
            elif nm == "BM_HDR_FMT":
                s = v[0]
                for x in v[1:]:
                    s += src.choice([",", ";", "x", " ", ", "]) + x
                if src.draw(2) or ";" in s or "," in s:
                    s = '"%s"' % s
            else:
                s = num(src, v)
            setting(src, nm, s, lines)
        if mp:
            s = "%d" % mp[0]
            for x in mp[1:]:
                s += src.choice([",", "x", ", "]) + "%d" % x
            if src.draw(2) or "," in s:
                s = '"%s"' % s
            setting(src, "BM_MAP", s, lines)
        c = Conv(o)
        lab = "pic%d" % k if src.draw(2) else None
        inc = src.choice(["#include %s", '#include "%s"', '#INCLUDE "%s" ; c']) % f
        if lab:
            lines += src.choice([[lab + ":", inc], [lab, "", "; c", inc], [lab + " " + inc], [lab + ":" + inc]])
        else:
            lines += [" .db %d" % k, inc] if src.draw(2) else [inc]
            if lines[-2].startswith(" .db"):
                out.append(k)
                pc += 1
        start = pc
        vals = []
        if not mp:
            c.header(w, h)
            c.image(px)
            vals = [("_WIDTH", w), ("_HEIGHT", h)]
            pc += len(c.out)
        else:
            nx, ny = mp[0], mp[1] if len(mp) > 1 else 1
            cw, ch = w // nx, h // ny
            iw, ih = cw - 2 * pad, ch - 2 * pad
            limit = mp[2] if len(mp) > 2 else 1 << 30
            vals = [("_WIDTH", iw), ("_HEIGHT", ih)]
            m = 0
            for x in range(nx):
                for y in range(ny):
                    if m == limit:
                        break
                    m += 1
                    vals.append(("%d" % m, start + len(c.out)))
                    c.header(iw, ih)
                    c.image([r[x * cw + pad:x * cw + pad + iw] for r in px[y * ch + pad:y * ch + pad + ih]])
            vals.append(("_COUNT", m))
            pc += len(c.out)
        out += c.out
        warn += c.warn
        lines.append(src.choice([" .dw $", ".dw $ ; end"]))
        out += (pc & 0xFFFF).to_bytes(2, "little")
        pc += 2
        if lab:
            tails += [(lab + a, v) for a, v in vals] + [(lab, start)]
        plain = plain and not new and not mp and h == 1
        t.label("bpp %d" % bpp)
        t.label("map" if mp else "whole")
        t.label("shades %d" % ns)
        for nm in o:
            t.label(nm)
    for n, v in tails:
        lines.append(" .dw %s" % n)
        out += (v & 0xFFFF).to_bytes(2, "little")
    s = "\n".join(lines) + "\n"
    r = t.asm(s, files=files)
    ds = diags(r)
    if r.rc != (1 if warn else 0) or len(ds) != warn or any(d.kind != "warning" for d in ds) or r.files["out.bin"] is None:
        raise Violation("exit %d, %d diagnostics, %d warnings expected" % (r.rc, len(ds), warn), output=r.text()[:1000])
    expect_bytes(bytes(out), r.files["out.bin"])
    if not plain:
        t.nontrivial(s + repr(sorted(files.items())))
        t.sample(s)


def pattern(src, cs, w, h):
    """Large pictures from few draws."""
    a, b, c = src.int(1, 9), src.int(1, 9), src.int(1, 50)
    return [[cs[(x * a + y * b + x * y // c) % len(cs)] for x in range(w)] for y in range(h)]


def options(src, t):
    """.option lists as the defines they make."""
    names = ["opt%d" % k for k in range(4)] + ["BM_X", "a", "Z9_x"]
    lines, out = [], bytearray()
    have = {}
    hi = src.int(0, 300)
    lines.append("sym = %d" % hi)
    for _ in src.many(1, 2.5, 7):
        its = []
        for _ in src.many(1, 2, 6):
            n = src.choice(names)
            k = src.draw(8)
            v = src.int(0, 9) if src.draw(2) else src.int(0, 65535)
            if k == 0:
                its.append(n)
                v = b"\1\0"
            elif k == 1:
                its.append('%s="s%d,;x"' % (n, v))
                v = b"s%d,;x" % v
            elif k == 2:
                its.append("%s=%d+sym" % (n, v))
                v = (v + hi & 0xFFFF).to_bytes(2, "little")
            elif k == 3:
                its.append("%s = (%d&255)" % (n, v))
                v = (v & 255).to_bytes(2, "little")
            else:
                its.append(n + src.choice(["=", " = ", "= "]) + src.choice(["%d", "$%X", "%05d"]) % v)
                v = v.to_bytes(2, "little")
            have[n.upper()] = v
        lines.append(src.choice([" .option ", ".option ", "\t.OPTION\t"]) + src.choice([",", ", "]).join(its) + src.choice(["", "", " ; c"]))
        if src.draw(3) == 0 and have:
            n = src.choice(sorted(have))
            lines.append(src.choice(["#undef __", "#UNDEFINE __"]) + n)
            del have[n]
        for n in names:
            if src.draw(2):
                w = "__" + src.choice([n, n.lower(), n.upper()])
                if n.upper() in have:
                    lines.append(" .dw " + w)
                    out += have[n.upper()]
                else:
                    lines += ["#ifdef " + w, " .dw $", "#else", " .db 77", "#endif"]
                    out.append(77)
    s = "\n".join(lines) + "\n"
    r = t.asm(s)
    if r.rc or diags(r):
        raise Violation("valid options diagnosed: exit %d" % r.rc, output=r.text()[:600])
    expect_bytes(bytes(out), r.files["out.bin"])
    t.nontrivial(s)


def parts(tier):
    q = tier == "quick"
    return [("bmp", one, 12000 if q else 250000), ("options", options, 2000 if q else 40000)]
