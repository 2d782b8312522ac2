"""P17: the listing parsed back and compared, line by line, with what the reference model says each source line contributed."""
import re
from core import Violation, Discard, alive, diags, expect_bytes, hexdiff
from expr import make_style, text
from p06 import program, merge, KINDS, esc
from prog import plain

PROP = "P17"
TECHNIQUE = "random programs in nested files, macros, conditionals and run() listed with -T; the listing is parsed into (file, line, address, bytes, text) records and compared with the model's"
NOTE = ("Continuation lines of skipped blocks and macro definitions are checked for number and text only. .nolist/.list stand on lines of their own; "
        "with them in a program the banners naming files are not checked. A #endif of a skipped block is not followed by further statements on its line.")
RULE = "distinct sources with a deferred value, a line of more than four bytes or a nested construct in the listing"
ROW = re.compile(r"^ *(\d+) ([0-9A-F]{2,}):([0-9A-F]{4}) (.{12})(.*)$", re.S)
CONT = re.compile(r"^ {14}(.{12})(.*)$", re.S)
CELLS = re.compile(r"^((?:[0-9A-F]{2} )*)((?:-  )*)$")


def parse_lst(d):
    """-> [[file, line, addr, bytes or None, text]]"""
    recs = []
    cur = None
    lines = d.decode("latin-1").split("\n")
    if lines[-1] != "":
        raise Violation("the listing does not end with a line end: %r" % lines[-1][-60:])
    lines.pop()
    open_row = False          # the last row had four byte cells and may continue
    for i, l in enumerate(lines):
        m = re.match(r'^Listing for file "(.*)"\r?$', l)
        if m:
            cur = m.group(1)
            continue
        if re.match(r"^Listing for built-in fcreate\r?$", l):
            cur = "Built-in fcreate"
            continue
        m = CONT.match(l)
        if m and recs and recs[-1][3] is not None and CELLS.match(m.group(1)):
            c = CELLS.match(m.group(1))
            if recs[-1][4] != "":
                raise Violation("listing row %d continues a line whose text was already given: %r" % (i + 1, l))
            if len(recs[-1][3]) % 4:
                raise Violation("listing row %d continues an incomplete row: %r" % (i + 1, l))
            recs[-1][3] += bytes.fromhex(c.group(1))
            recs[-1][4] = m.group(2)
            continue
        m = ROW.match(l)
        if not m:
            raise Violation("unreadable listing row %d: %r" % (i + 1, l[:100]))
        cells = m.group(4)
        if cells == " " * 12:
            data = None
        else:
            c = CELLS.match(cells)
            if not c:
                raise Violation("unreadable bytes in listing row %d: %r" % (i + 1, l[:100]))
            data = bytes.fromhex(c.group(1))
        recs.append([cur, int(m.group(1)), int(m.group(2) + m.group(3), 16), data, m.group(5)])
    for r in recs:
        r[4] = r[4].rstrip("\r")
    return recs


class Emit:
    def __init__(self, src, crlf=False):
        self.src = src
        self.files = {}
        self.recs = []
        self.on = True
        self.n = 0
        self.nolist = False
        self.style = make_style(src, blanks=True)
        self.interesting = False
        self.crlf = crlf
        self.pc = 0

    def line(self, ctx, s, data=b"", addr=None):
        name, lines = ctx
        lines.append(s)
        if self.on:
            self.recs.append([name, len(lines), self.pc if addr is None else addr, data, s])

    def show(self, nd):
        if nd.kind in ("label", "equ", "anon"):
            return text(nd.toks)
        if self.src.draw(3) == 0:
            return " " + text(nd.toks, self.style)
        return " " + text(nd.toks)

    def comment(self):
        return self.src.choice(["", "", "", "", " ; note", "\t;x", " ;    1 00:0000 ", "  ", ";\"'"])

    def nodes(self, ctx, nodes, depth, plain_only=False):
        src = self.src
        i = 0
        while i < len(nodes):
            self.pc = nodes[i].addr
            if src.draw(7) == 0:
                self.filler(ctx, plain_only)
                continue
            if depth > 0 and not plain_only and src.draw(4) == 0:
                j = min(len(nodes), i + src.int(1, 5))
                self.group(ctx, nodes[i:j], depth)
                i = j
                continue
            # one or several statements on a line
            j = i + 1
            while j < len(nodes) and nodes[j].kind not in ("label", "equ", "anon") and src.draw(4) == 0:
                j += 1
            s = " \\".join([self.show(nd) for nd in nodes[i:j]]) + self.comment()
            data = b"".join(nd.data for nd in nodes[i:j])
            if nodes[i].kind == "import":
                s = self.show(nodes[i])
                j, data = i + 1, nodes[i].data
            self.line(ctx, s, data, nodes[i].addr)
            if len(data) > 4 or any(nd.deferred for nd in nodes[i:j]):
                self.interesting = True
            i = j
        return

    def filler(self, ctx, plain_only):
        src = self.src
        k = src.draw(3 if plain_only else 6)
        if k <= 2:
            self.line(ctx, src.choice(["", "", "; comment", "  ", "\t; c", "   ;", ";"]))
        elif k == 3:
            self.block(ctx, "#comment", [src.choice(["", "text here", " .db 1", "#endif", "  1 00:0000"]) for _ in src.many(0, 2, 5)], "#endcomment")
        elif k == 4:
            self.block(ctx, "#if 0", [src.choice(["", " .db 1", "lab_%d:" % self.n, " bogus"]) for _ in src.many(0, 2, 5)], "#endif", loose=True)
        else:
            self.nolist = True
            if src.draw(2):
                if self.on:
                    self.on = False
                    self.line(ctx, src.choice([" .nolist", ".nolist", "\t.NoList"]))
                else:
                    self.line(ctx, " .nolist")
            else:
                was = self.on
                self.line(ctx, src.choice([" .list", "\t.LIST"]))
                self.on = True

    def block(self, ctx, first, body, last, loose=False):
        """A construct skipped as a whole; its lines are listed, the later ones without bytes."""
        a = len(self.recs)
        self.line(ctx, first)
        if not loose:
            for l in body + [last]:
                self.line(ctx, l, None)
        else:
            for l in body:
                self.line(ctx, l, None)
            self.line(ctx, last, None)
        self.interesting = True

    def group(self, ctx, nodes, depth):
        src = self.src
        self.n += 1
        n = self.n
        self.interesting = True
        k = src.choice(["macro", "include", "if", "else", "run"])
        if k == "include":
            f = "%sinc_%d.inc" % ("sub/" if src.draw(4) == 0 else "", n)
            inner = (f, [])
            self.line(ctx, src.choice(['#include "%s"', ' #include "%s" ; c', "#INCLUDE \"%s\""]) % f)
            was = self.on
            self.nodes(inner, nodes, depth - 1)
            self.files[f] = "\n".join(inner[1]) + ("\n" if src.draw(2) or not inner[1] else "")
        elif k == "macro" and all(nd.kind not in ("import",) for nd in nodes):
            body = [" ;"] + [plain(nd) for nd in nodes]
            self.block(ctx, "#macro mac_%d" % n, body, "#endmacro")
            self.line(ctx, " mac_%d%s" % (n, src.choice(["", "()", " ; call"])), b"".join(nd.data for nd in nodes), nodes[0].addr)
        elif k == "if":
            self.line(ctx, "#if 1")
            self.nodes(ctx, nodes, depth - 1)
            self.pc = nodes[-1].after
            if src.draw(2):
                self.block(ctx, "#else", [" .db 1"], "#endif", loose=True)
            else:
                self.line(ctx, "#endif")
        elif k == "else":
            self.block(ctx, "#if 0", [" .db 1", ""][:src.draw(3)], "#else", loose=True)
            self.nodes(ctx, nodes, depth - 1)
            self.pc = nodes[-1].after
            self.line(ctx, "#endif")
        elif k == "run" and all(nd.kind != "import" and len(esc(plain(nd))) < 200 for nd in nodes):
            self.line(ctx, " clr()")
            for nd in nodes:
                self.line(ctx, ' wr("%s")' % esc(plain(nd)))
            self.line(ctx, " run()")
            inner = ("Built-in fcreate", [])
            for nd in nodes:
                self.line(inner, plain(nd), nd.data, nd.addr)
        else:
            self.nodes(ctx, nodes, 0)


def compare(exp, got, e):
    for i, (x, g) in enumerate(zip(exp, got)):
        xf, xl, xa, xd, xs = x
        gf, gl, ga, gd, gs = g
        where = "record %d (source line %d of %s: %r)" % (i + 1, xl, xf, xs)
        if xl != gl:
            raise Violation("%s: listed as line %d (%r)" % (where, gl, gs))
        if xs != gs:
            raise Violation("%s: listed text %r" % (where, gs))
        if xd is None:
            if gd not in (None, b""):
                raise Violation("%s: bytes %s listed for a line that has none" % (where, gd.hex(" ")))
            if xa != ga:
                raise Violation("%s: address %X listed, %X expected" % (where, ga, xa))
            continue
        if gd is None or xd != gd:
            raise Violation("%s: bytes %s listed, contributed %s" % (where, (gd or b"").hex(" "), xd.hex(" ")))
        if xa != ga:
            raise Violation("%s: address %X listed, %X expected" % (where, ga, xa))
        if not e.nolist:
            gf = gf or "in.asm"
            if not (gf == xf or gf.endswith("/" + xf)):
                raise Violation("%s: listed under file %s" % (where, gf))
    if len(exp) != len(got):
        x = (exp + got)[min(len(exp), len(got))] if len(exp) > len(got) else got[len(exp)]
        raise Violation("%d lines listed, %d expected; first %s: %r" % (len(got), len(exp), "missing" if len(exp) > len(got) else "extra", x))


def setup(p):
    end = p.end_pc
    ns = p.nodes
    for i, nd in enumerate(ns):
        nd.after = ns[i + 1].addr if i + 1 < len(ns) else end


def go(src, t, p, depth):
    setup(p)
    e = Emit(src)
    ctx = ("in.asm", [])
    z = src.draw(40)
    if z < 2:
        # high line numbers
        n = src.choice([990, 998, 9990]) + src.draw(12) if z else src.choice([99985, 99998, 131070])
        if z:
            for _ in range(n):
                e.line(ctx, "")
        else:
            # (most of them hidden)
            e.nolist, e.on = True, False
            e.line(ctx, " .nolist")
            ctx[1].extend([""] * n)
            e.line(ctx, " .list")
            e.on = True
    e.nodes(ctx, p.nodes, depth)
    e.pc = p.end_pc
    if not ctx[1] or src.draw(2):
        e.line(ctx, "; end")
    crlf = src.draw(4) == 0
    nl = "\r\n" if crlf else "\n"
    # every line needs its text: an unterminated blank last line does not exist
    last = ctx[1][-1]
    s = nl.join(ctx[1]) + (nl if last == "" or src.draw(3) else "")
    files = dict(e.files)
    if crlf:
        files = {k: v.replace("\n", "\r\n") for k, v in files.items()}
    for k, v in list(files.items()):
        if not v.strip("\r\n") or v.split("\n")[-1] == "" and not v.endswith("\n"):
            files[k] = v + nl if not v.endswith("\n") else v
    for nd in p.nodes:
        if nd.kind == "import":
            files[nd.fname] = nd.data
    files["in.asm"] = s
    r = t.run(files, ["-N", "-T", "in.asm", "out.bin"], want=("out.bin", "out.lst"))
    alive(r)
    if r.rc or diags(r):
        raise Violation("valid program: exit %d" % r.rc, output=r.text()[-800:])
    expect_bytes(merge(p, b""), r.files["out.bin"])
    if r.files["out.lst"] is None:
        raise Violation("no listing")
    got = parse_lst(r.files["out.lst"])
    try:
        compare(e.recs, got, e)
    except Violation as v:
        v.detail["listing"] = r.files["out.lst"].decode("latin-1")[:3000]
        raise
    if e.interesting:
        t.nontrivial(s + repr(sorted(files.items())))
        t.sample(s[:1200])
    for nd in p.nodes:
        if nd.deferred:
            t.label("deferred statements")


def flat(src, t):
    go(src, t, program(src, n=14, kinds=KINDS, fwd=0.5, org_max=src.choice([0xFFFF, 0xFFFF, 0xFFFFFF, 0x3FFFFFFF])), 0)


def nested(src, t):
    go(src, t, program(src, n=14, kinds=KINDS + [(2, "import")], fwd=0.4, org_max=src.choice([0xFFFF, 0xFFFF, 0xFFFFFF, 0x3FFFFFFF])), 3)


def big(src, t):
    """Listings larger than their buffer and rows of many bytes."""
    lines, out, recs, pc = [], bytearray(), [], 0
    e = Emit(src)
    ctx = ("in.asm", [])
    val = src.int(0, 0xFFFF)
    for _ in range(src.int(1, 40)):
        k = src.draw(4)
        if k == 0:
            c, v = src.int(0, 4000), src.int(0, 255)
            s, b = " .fill %d,%d" % (c, v), bytes([v]) * c
        elif k == 1:
            x = src.int(1, 60)
            s = " .dw " + ",".join(["later"] * x)
            b = val.to_bytes(2, "little") * x
        elif k == 2:
            s, b = "; " + "comment " * src.int(0, 200), b""
        else:
            x = bytes(97 + src.draw(26) for _ in range(src.int(1, 90)))
            s, b = ' .db "%s",later&255' % x.decode(), x + bytes([val & 255])
        e.line(ctx, s, b, pc)
        out += b
        pc += len(b)
    e.line(ctx, "later = %d" % val, b"", pc)
    s = "\n".join(ctx[1]) + "\n"
    r = t.run({"in.asm": s}, ["-N", "-T", "in.asm", "out.bin"], want=("out.bin", "out.lst"))
    alive(r)
    expect_bytes(bytes(out), r.files["out.bin"])
    compare(e.recs, parse_lst(r.files["out.lst"]), e)
    t.nontrivial(s)


def parts(tier):
    q = tier == "quick"
    return [("flat", flat, 5000 if q else 100000), ("nested", nested, 9000 if q else 200000), ("big", big, 400 if q else 8000)]
