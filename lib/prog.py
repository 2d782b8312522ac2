"""Program model: a reference two-pass assembler over generated syntax trees.

A program is built in three steps, so that every program is valid by construction and its meaning is
known before the assembler sees it:
  1. skeleton  - statements with holes (operands to be chosen), symbols with their values
  2. layout    - addresses and output offsets (sizes never depend on operand values)
  3. filling   - every hole gets a target value allowed by its field and an expression evaluating
                 to it from the symbols visible at that point (or, when deferred evaluation is
                 possible, from later ones)
"""
import z80ref
from core import Discard
from expr import (Env, M, O, first_char, gen, i32, lit, text, valued)

RESERVED = set("""A B C D E F H L I R MB BC DE HL SP AF IX IY IXH IXL IYH IYL NZ Z NC PO PE P M
SPASM SPASMVER __LINE __FILE TRUE FALSE RGB GETC EVAL CONCAT BUF CLR WR RUN __R __G __B __A __N
__BM_SHD __BM_MSK_RGB
DB DW DL ORG BYTE WORD LONG FILL BLOCK ADDINSTR ECHO ERROR LIST NOLIST EQU SHOW OPTION SEEK ASSUME END
DEFINE INCLUDE IF IFDEF IFNDEF ELSE ELIF ENDIF UNDEF UNDEFINE COMMENT ENDCOMMENT MACRO ENDMACRO IMPORT
DEFCONT REGION ENDREGION _""".split()) | set(z80ref.MNEMONICS) | set(
    """LEA PEA TST TSTIO MLT IN0 OUT0 STMIX RSMIX SLP INIM INIMR INDM INDMR OTIM OTIMR OTDM OTDMR INI2 INI2R
IND2 IND2R OUTI2 OTI2R OUTD2 OTD2R INIRX INDRX OTIRX OTDRX EI HALT""".split())

BASES = ["foo", "bar", "label", "loop", "x", "y1", "data", "ixfoo", "iyx", "ix_t", "IY9", "hl2", "afx", "bc_", "nzflag", "ldir2", "add1",
         "call_me", "_start", "a1", "b0", "c9", "eq?", "n!", "t[0]", "sub.x", "db1", "word2", "spx", "if2", "verylonglabelname",
         "Mixed", "ABC", "DEAD", "ff", "zz"]


def gen_name(src, used, case=False, bases=BASES):
    """A fresh symbol name; used holds upper-cased (or exact, with case) names."""
    n = src.choice(bases)
    if src.bool(0.25):
        n = n.upper() if src.draw(2) else n.capitalize()
    k = 0
    while (n if case else n.upper()) in used or n.upper() in RESERVED:
        k += 1
        n = n + (str(src.draw(10)) if k < 4 else "_%d" % len(used))
    used.add(n if case else n.upper())
    return n


class Node:
    """kind: label ins data fill org seek equ blank anon raw"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.size = 0
        self.addr = None
        self.pos = None
        self.data = b""
        self.toks = []
        self.deferred = False
        self.overwritten = False
        self.__dict__.update(kw)


class Prog:
    """opts: weights per kind; fwd (probability that a deferrable hole uses a later symbol)."""

    def __init__(self, src, n=12, kinds=None, forms=None, fwd=0.3, names=0.4, case=False, org_max=0xFFFF,
                 redef=0.0, max_fill=12, origin=None, chars=True, wide=True, anon=False, bases=BASES,
                 rst_fwd=True, undoc=True, dollar=True, strings=True, used=None, nodes=None,
                 amask=0xFFFF):
        self.src = src
        self.chars = chars
        self.amask = amask
        self.fwd = fwd
        self.pnames = names
        self.case = case
        self.wide = wide
        self.anon = anon
        self.rst_fwd = rst_fwd
        self.dollar = dollar
        self.strings = strings
        self.max_fill = max_fill
        self.org_max = org_max
        self.redef = redef
        self.bases = bases
        self.used = set() if used is None else used
        self.forms = forms or z80ref.FORMS
        self.kinds = kinds or [(8, "ins"), (4, "data"), (4, "label"), (2, "equ"), (1, "fill"), (1, "org")]
        self.nodes = []
        self.equs = {}
        if nodes is not None:
            self.nodes = nodes(self)
        else:
            self.skeleton(n, origin)
        self.layout()
        self.fill_holes()

    # -------------------------------------------------------- 1
    def skeleton(self, n, origin):
        src = self.src
        if origin is not None:
            self.nodes.append(Node("org", value=origin))
        for _ in src.many(1, n, 4 * n):
            k = src.weighted(self.kinds)
            self.nodes.append(self.make(k))

    def make(self, k):
        src = self.src
        if k == "ins":
            f = src.choice(self.forms)
            return Node("ins", form=f, size=f.size, slots=list(f.slots))
        if k == "data":
            w = src.choice([1, 1, 2, 2, 3])
            items = []
            for _ in src.many(1, 2.5, 8):
                if self.strings and src.bool(0.2):
                    items.append(("s", gen_string(src)))
                else:
                    items.append(("v", None))
            return Node("data", width=w, items=items, size=sum(len(s) if a == "s" else w for a, s in items),
                        dname=src.choice({1: [".db", ".byte"], 2: [".dw", ".word"], 3: [".dl", ".long"]}[w]))
        if k == "label":
            return Node("label", name=gen_name(src, self.used, self.case, self.bases), colon=src.bool(0.7))
        if k == "equ":
            v = src.choice([src.int(0, 255), src.int(0, 65535), i32(src.int(0, 0xFFFFFFFF)), -src.int(0, 200)])
            if self.equs and src.bool(self.redef):
                n = src.choice(sorted(self.equs))
            else:
                n = gen_name(src, self.used, self.case, self.bases)
                self.equs[n] = 1
            return Node("equ", name=n, value=v, style=src.choice(["=", ".equ"]), colon=src.bool(0.2))
        if k == "fill":
            c = src.choice([0, 1, 2, src.int(0, self.max_fill)])
            v = src.choice([None, src.edgy(-128, 255)])
            return Node("fill", count=c, value=v, size=c, dname=src.choice([".fill", ".block"]))
        if k == "org":
            return Node("org", value=src.choice([0, 0x8000, src.int(0, self.org_max), 0x9D95 if self.org_max >= 0x9D95 else 0, self.org_max - src.draw(30)]))
        if k == "seek":
            return Node("seek", back=src.draw(1000))
        if k == "blank":
            return Node("blank")
        if k == "anon":
            return Node("anon")
        raise AssertionError(k)

    # -------------------------------------------------------- 2
    def layout(self):
        pc = pos = 0
        hi = 0
        self.anons = []
        for nd in self.nodes:
            nd.addr, nd.pos = pc, pos
            if nd.kind == "org":
                pc = nd.value
            elif nd.kind == "seek":
                lo = pc - pos                 # address of output offset 0 under the current origin
                tgt_pos = nd.back * (hi + 1) // 1000
                nd.value = lo + tgt_pos
                if nd.value < 0:
                    nd.value = pc
                    tgt_pos = pos
                pc, pos = nd.value, tgt_pos
            elif nd.kind == "label":
                nd.value = pc
            elif nd.kind == "anon":
                nd.index = len(self.anons)
                self.anons.append(pc)
            else:
                pc += nd.size
                pos += nd.size
                hi = max(hi, pos)
        self.end_pc, self.end_pos = pc, pos
        final = {}
        for nd in self.nodes:
            if nd.kind in ("label", "equ"):
                final[nd.name] = nd.value
        self.final = final
        # known finding: a deferred value overwrites what .seek put over its place later, so
        # statements that are overwritten later do not defer
        if any(nd.kind == "seek" for nd in self.nodes):
            # (callers may append a table of 4 bytes per symbol)
            later = set(range(pos, pos + 4 * len(final)))
            for nd in reversed(self.nodes):
                r = range(nd.pos, nd.pos + nd.size)
                nd.overwritten = any(x in later for x in r)
                later.update(r)

    # -------------------------------------------------------- 3
    def fill_holes(self):
        src = self.src
        known = {}
        seen_anon = 0
        for i, nd in enumerate(self.nodes):
            if nd.kind == "anon":
                seen_anon += 1
            self.known_now = known
            self.no_defer = nd.overwritten
            self.seen_anon = seen_anon
            if nd.kind == "ins":
                self.fill_ins(nd)
            elif nd.kind == "data":
                self.fill_data(nd)
            elif nd.kind == "fill":
                t, _ = self.expr(nd.count, nd.addr, False, nolead=False)
                nd.toks = [("w", nd.dname), M] + t
                if nd.value is not None:
                    t, _ = self.expr(nd.value, nd.addr, False)
                    nd.toks += [O, ("x", ","), O] + t
                nd.data = bytes([(nd.value or 0) & 255]) * nd.count
            elif nd.kind in ("org", "seek"):
                t, _ = self.expr(nd.value, nd.addr, False)
                nd.toks = [("w", "." + nd.kind), M] + t
            elif nd.kind == "equ":
                t, _ = self.expr(nd.value, nd.addr, False, skip=nd.name)
                nd.toks = [("s", nd.name)] + ([("x", ":")] if nd.colon else [])
                nd.toks += [O if nd.style == "=" else M] + [("w", nd.style)] + [O if nd.style == "=" else M] + t
                known[nd.name] = nd.value
            elif nd.kind == "label":
                nd.toks = [("s", nd.name)] + ([("x", ":")] if nd.colon else [])
                known[nd.name] = nd.value
            elif nd.kind == "anon":
                nd.toks = [("x", "_")] + ([("x", ":")] if src.draw(2) else [])

    def env(self, pc, deferrable, fwd_only=False):
        known = self.known_now
        names = [(k, v) for k, v in known.items()]
        fut = [(k, v) for k, v in self.final.items() if k not in known]
        anon = []
        if self.anon:
            c = self.seen_anon            # anonymous labels before this statement
            for k in range(1, 4):
                if c - k >= 0:
                    anon.append(("-" * k + "_", self.anons[c - k]))
            if deferrable:
                for k in range(0, 4):           # _ and +_ are the same label
                    i = c + max(k, 1) - 1
                    if i < len(self.anons):
                        anon.append(("+" * k + "_", self.anons[i]))
        return names, fut, anon

    def expr(self, target, pc, deferrable, nolead=False, skip=None, depth=1):
        src = self.src
        deferrable = deferrable and not self.no_defer
        names, fut, anon = self.env(pc, deferrable)
        names = [x for x in names if x[0] != skip]
        must = None
        deferred = False
        if deferrable and fut and src.bool(self.fwd):
            must = src.choice(fut)
            names = names + fut
            deferred = True
        elif names and src.bool(self.pnames):
            must = src.choice(names)
        if not deferrable:
            anon = [a for a in anon if a[0].startswith("-")]
        e = Env(names, pc if self.dollar else None, self.chars, anon)
        t, used = valued(src, target, e, depth=depth, must=must, nolead=nolead)
        if any(u in self.final and u not in self.known_now for u in used) or any(u[0] in "_+" and u.strip("+") == "_" for u in used):
            deferred = True
        return t, deferred

    def fill_ins(self, nd):
        src = self.src
        f = nd.form
        texts, vals = [], []
        for s, op in zip(f.slots, [o for o in f.ops if "{" in o]):
            v = self.slot_value(s, nd)
            lead = op[0] == "{"
            if s == "d":
                t, d = self.disp(v, nd.addr)
            else:
                t, d = self.expr(v, nd.addr, not (s == "r" and not self.rst_fwd), nolead=True)
            nd.deferred |= d
            vals.append(v)
            texts.append(t)
        nd.vals = vals
        nd.data = f.encode(vals, nd.addr)
        it = iter(texts)
        toks = [("w", f.mn.lower())]
        for k, o in enumerate(f.ops):
            toks += [M] if k == 0 else [O, ("x", ","), O]
            if "{" in o:
                i = o.index("{")
                pre, post = o[:i], o[i + 3:]
                if pre == "(":
                    toks += [("x", "("), O] + next(it) + [O, ("x", ")")]
                elif pre and pre[0] != "(":
                    toks += [("w", pre.lower()), O] + next(it)
                elif pre:
                    toks += [("x", "("), O, ("w", pre[1:].lower()), O] + next(it) + [O, ("x", ")")]
                else:
                    toks += next(it)
            elif o.startswith("("):
                toks += [("x", "("), O, ("w", o[1:-1].lower()), O, ("x", ")")]
            else:
                toks += [("w", o.lower())]
        nd.toks = toks

    def slot_value(self, s, nd):
        src = self.src
        if s == "n":
            return src.edgy(-128, 255)
        if s == "w":
            if self.wide and src.draw(12) == 0:
                return i32(src.int(0, 0xFFFFFFFF))
            return src.edgy(-32768, 65535)
        if s == "l":
            if src.draw(12) == 0:
                return i32(src.int(0, 0xFFFFFFFF))
            return src.edgy(-(1 << 23), (1 << 24) - 1, (0x10000, 0xD1A881))
        if s == "d":
            return src.edgy(-128, 127)
        if s == "b":
            return src.int(0, 7)
        if s == "r":
            return src.choice(z80ref.RST)
        if s == "e":
            end = (nd.addr & self.amask) + nd.size
            lo, hi = max(0, end - 128), min(self.amask, end + 127)
            if end > self.amask + 120:
                raise Discard("address space exhausted")
            tgt = src.choice([lo, hi, src.int(lo, hi), src.int(lo, hi)])
            cand = [v for v in self.final.values() if lo <= v <= hi]
            if cand and src.bool(0.5):
                tgt = src.choice(cand)
            return tgt
        raise AssertionError(s)

    def disp(self, v, pc):
        """Text of an index displacement: nothing, +expr or -expr; evaluated from 0 left to right."""
        src = self.src
        if v == 0 and src.draw(3) == 0:
            return [], False
        if v <= 0 and src.bool(0.5):
            return [("x", "-"), O] + lit(src, -v, self.chars), False
        if v < 0 and src.bool(0.3):
            t, d = self.expr(-v, pc, True)
            return [("x", "-"), O, ("x", "(")] + t + [("x", ")")], d
        t, d = self.expr(v, pc, True)
        return [("x", "+"), O] + t, d

    def fill_data(self, nd):
        src = self.src
        out = bytearray()
        toks = [("w", nd.dname), M]
        addr = nd.addr
        lo, hi = {1: (-128, 255), 2: (-32768, 65535), 3: (-(1 << 23), (1 << 24) - 1)}[nd.width]
        nd.vals = []
        for k, (a, s) in enumerate(nd.items):
            if k:
                toks += [O, ("x", ","), O]
            if a == "s":
                toks.append(("x", string_text(src, s)))
                out += s
                addr += len(s)
            else:
                v = src.edgy(lo, hi)
                if self.wide and nd.width > 1 and src.draw(12) == 0:
                    v = i32(src.int(0, 0xFFFFFFFF))
                t, d = self.expr(v, addr, True)
                nd.deferred |= d
                toks += t
                nd.vals.append(v)
                out += (v & 0xFFFFFFFF).to_bytes(4, "little")[:nd.width]
                addr += nd.width
        nd.toks = toks
        nd.data = bytes(out)

    # -------------------------------------------------------- results
    def output(self):
        buf = bytearray()
        for nd in self.nodes:
            if nd.data:
                if len(buf) < nd.pos:
                    raise AssertionError("gap")
                buf[nd.pos:nd.pos + len(nd.data)] = nd.data
        return bytes(buf[:self.end_pos])

    def lines(self):
        """One statement per line, plain."""
        return [plain(nd) for nd in self.nodes]

    def source(self):
        return "\n".join(self.lines()) + "\n"


def plain(nd):
    if nd.kind in ("label", "equ", "anon"):
        return text(nd.toks)
    if nd.kind == "blank":
        return ""
    if nd.kind == "raw":
        return nd.text
    return " " + text(nd.toks)


def gen_string(src, lo=0, avg=5, hi=20):
    out = bytearray()
    for _ in src.many(lo, avg, hi):
        k = src.draw(6)
        if k < 3:
            out.append(97 + src.draw(26))
        elif k == 3:
            out.append(src.int(32, 126))
        elif k == 4:
            out += src.choice([b"\\", b"\"", b"'", b",", b";", b"(", b")", b"\n", b"\t", b"\r", b"#", b" "])
        else:
            out.append(48 + src.draw(10))
    return bytes(out)


def string_text(src, s):
    out = ['"']
    for c in s:
        if c == 34:
            out.append('\\"')
        elif c == 92:
            out.append("\\\\")
        elif c == 10:
            out.append(src.choice(["\\n", "\\N"]))
        elif c == 13:
            out.append("\\r")
        elif c == 9:
            out.append(src.choice(["\\t", "\\T"]))
        elif c == 39 and src.draw(2):
            out.append("\\'")
        else:
            out.append(chr(c))
    return "".join(out) + '"'
