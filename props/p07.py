"""P07: data directives against a byte-level model."""
from core import expect_bytes, ok_output
from expr import Env, ESC, NOESC, char_text, i32, lit, text, valued

PROP = "P07"
TECHNIQUE = "random data directives with adversarial strings and literals against a byte-level model"
NOTE = "Sampled; items up to 254 characters (the assembler's documented limit per item); the random escape \\# is excluded."
RULE = "distinct sources with at least one string or character literal containing a syntax character or escape"
WIDTH = {".db": 1, ".byte": 1, ".dw": 2, ".word": 2, ".dl": 3, ".long": 3}
SYNTAX = b"\"'\\,;()#.:= \t\n\r\x00+-*%$"
RANGE = {1: (-128, 255), 2: (-32768, 65535), 3: (-(1 << 23), (1 << 24) - 1)}


def gen_bytes(src, hi=40, zero=True):
    out = bytearray()
    for _ in src.many(0, src.choice([1, 5, 20]), hi):
        k = src.draw(8)
        if k <= 2:
            out.append(97 + src.draw(26))
        elif k <= 5:
            out.append(src.choice(SYNTAX))
        elif k == 6:
            out.append(32 + src.draw(95))
        else:
            out.append(src.int(0, 255))
    return bytes(c for c in out if zero or c)


def quote(src, s):
    o = ['"']
    for i, c in enumerate(s):
        if c == 34:
            o.append('\\"')
        elif c == 92:
            o.append("\\\\")
        elif c == 10:
            o.append(src.choice(["\\n", "\\N"]))
        elif c == 13:
            o.append(src.choice(["\\r", "\\R"]))
        elif c == 9 and src.draw(3):
            o.append(src.choice(["\\t", "\\T"]))
        elif c == 0:
            o.append("\\0")
        elif c == 39 and src.draw(2):
            o.append("\\'")
        elif c in NOESC and src.draw(12) == 0:
            o.append("\\" + chr(c))
        else:
            o.append(chr(c))
    return "".join(o) + '"'


def value_text(src, v, names):
    """Text of an item with value v."""
    k = src.draw(6)
    if k == 0 and (32 <= v < 127 or 128 <= v < 256 or v in ESC):
        return char_text(v, src)
    if k == 1 and names:
        t, _ = valued(src, v, Env(names), depth=1, must=src.choice(names))
        return text(t)
    t, _ = valued(src, v, Env(names), depth=1)
    return text(t)


def sep(src):
    return src.choice([",", ",", ", ", " ,", " , ", ",\t"])


def data(src, t):
    lines, out = [], bytearray()
    hard = False
    fut = [("later%d" % i, src.edgy(-100, 70000)) for i in range(src.draw(3))]
    names = list(fut)
    defs = []
    for _ in src.many(1, 4, 14):
        d = src.choice(sorted(WIDTH))
        w = WIDTH[d]
        items = []
        for _ in src.many(1, 3, 14):
            k = src.draw(7)
            if k <= 2:
                s = gen_bytes(src)
                items.append(quote(src, s))
                out += s
                hard = hard or any(c in SYNTAX for c in s)
            elif k == 3 and defs:
                n, b = src.choice(defs)
                if any(isinstance(x, int) and not RANGE[w][0] <= x <= RANGE[w][1] for x in b):
                    n, b = "0", [0]
                items.append(n)
                for x in b:
                    out += x if isinstance(x, bytes) else (x & 0xFFFFFFFF).to_bytes(4, "little")[:w]
            else:
                lo, hi = RANGE[w]
                v = src.edgy(lo, hi)
                if w > 1 and src.draw(10) == 0:
                    v = i32(src.int(0, 0xFFFFFFFF))
                tx = value_text(src, v, names)
                if len(tx) > 240:
                    tx = str(v)
                hard = hard or "'" in tx
                items.append(tx)
                out += (v & 0xFFFFFFFF).to_bytes(4, "little")[:w]
        sp = src.choice([" ", "\t", "  "])
        body = items[0]
        for x in items[1:]:
            body += sep(src) + x
        end = src.choice(["", "", "", " ", " ; \"not data\" 'x", "\t;c", " \\ nop"])
        lines.append(" " + d + sp + body + end)
        if end == " \\ nop":
            out.append(0)
        if src.draw(5) == 0:
            # a define that stands for a string or a list of items
            n = "defn%d" % len(defs)
            its, b = [], []
            wide = src.draw(3) == 0
            for _ in src.many(1, 2, 4):
                if src.draw(2):
                    x = bytes(c for c in gen_bytes(src, 10, False) if c not in b";\n\r")
                    its.append(quote(src, x))
                else:
                    x = src.edgy(*RANGE[2]) if wide else src.int(0, 255)
                    tx = value_text(src, x, names) if src.draw(2) else str(x)
                    if len(tx) > 100 or ";" in tx:
                        tx = str(x)
                    its.append(tx)
                b.append(x)
            lines.append("#define %s %s" % (n, src.choice([", ", ",", " , "]).join(its)))
            defs.append((n, b))
    for n, v in fut:
        lines.append("%s = %d" % (n, v))
    s = "\n".join(lines) + "\n"
    r = t.asm(s)
    expect_bytes(bytes(out), ok_output(r))
    if hard:
        t.nontrivial(s)
        t.sample(s)


def all_bytes(src, t):
    """Every byte value as string character (sweep) in every directive, at varying positions."""
    c = src.draw(256)
    d = src.choice(sorted(WIDTH))
    a, b = gen_bytes(src, 8), gen_bytes(src, 8)
    s = a + bytes([c]) + b
    lines = [" %s %s" % (d, quote(src, s))]
    out = bytearray(s)
    if 32 <= c < 127 or c >= 128 or c in ESC:
        lines.append(" %s %s" % (d, char_text(c, src)))
        out += c.to_bytes(WIDTH[d], "little")
        lines.append(" %s 1+%s*2, %s" % (d, char_text(c, src), quote(src, bytes([c]))))
        v = (1 + c) * 2
        if WIDTH[d] == 1 and v > 255:
            lines.pop()
        else:
            out += v.to_bytes(WIDTH[d], "little") + bytes([c])
    lines.append(" .db 0")
    out.append(0)
    s = "\n".join(lines) + "\n"
    expect_bytes(bytes(out), ok_output(t.asm(s)))
    t.nontrivial(s)


def long_items(src, t):
    """Strings up to the limit of one item, lists with very many items."""
    lines, out, here = [], bytearray(), []
    for _ in src.many(1, 2, 5):
        if src.draw(2):
            n = src.choice([src.int(0, 252), 252, 251, 250])
            s = bytes(97 + (i + n) % 26 for i in range(n))
            if src.draw(2):
                s = s.replace(b"c", b",").replace(b"f", b"(").replace(b"q", b";")
            lines.append(' .db "%s"' % s.decode())
            out += s
        else:
            n = src.choice([src.int(1, 300), 1000])
            d = src.choice(sorted(WIDTH))
            vs = [src.draw(256) for _ in range(n)]
            lines.append(" %s %s" % (d, ",".join(map(str, vs))))
            for v in vs:
                out += v.to_bytes(WIDTH[d], "little")
        # what the item did to the location counter
        k = src.draw(4)
        if k == 0:
            lines.append(" .dw $")
            out += len(out).to_bytes(2, "little")
        elif k == 1:
            lines.append("here%d:" % len(lines))
            here.append((lines[-1][:-1], len(out)))
        elif k == 2:
            lines.append(" jp $+3")
            out += b"\xc3" + (len(out) + 3).to_bytes(2, "little")
    for n, v in here:
        lines.append(" .dl %s" % n)
        out += v.to_bytes(3, "little")
    s = "\n".join(lines) + "\n"
    expect_bytes(bytes(out), ok_output(t.asm(s)))
    t.nontrivial(s)


def parts(tier):
    q = tier == "quick"
    return [("data", data, 14000 if q else 400000), ("sweep_bytes", all_bytes, 1536 if q else 40960), ("long", long_items, 800 if q else 20000)]
