"""P05: forward references against the model and against the same program with its symbols defined first."""
from core import Discard, Violation, diags, expect_bytes, ok_output
from prog import Prog
from p06 import merge, label_table, wrap
from prog import plain
import z80ref

PROP = "P05"
TECHNIQUE = "random programs with mostly forward operands against a two-pass model; metamorphic: symbols defined first, last and in between give the same bytes"
NOTE = ("Sampled. Macro arguments that mix a forward symbol with a define of several parts are excluded (known finding), "
        "as are shifts and divisions by forward values.")
RULE = "distinct sources with at least one operand resolved only in the second pass"
FORMS = [f for f in z80ref.FORMS if f.slots]
WIDE = [(0xFFFF, 0xFFFF), (0xFFFF, 0xFFFF), (0xFFFFFF, 0xFFFF), (0x7FFF0000, 0xFFFF)]
OPS = ["+", "-", "*", "&", "|", "^", "==", "!=", "<", ">", "<=", ">=", "&&", "||"]


def model(src, t):
    om, am = src.choice(WIDE)
    p = Prog(src, n=14, forms=FORMS, org_max=om, amask=am, fwd=0.75, names=0.8, anon=src.draw(2) == 1, case=False,
             kinds=[(8, "ins"), (5, "data"), (4, "label"), (3, "equ"), (2, "anon"), (1, "org"), (1, "fill")])
    l, b = label_table(p)
    if src.draw(3) == 0:
        s = "\n".join(p.lines() + l) + "\n"
        files = {}
    else:
        files = {}
        nodes = p.nodes
        if any(nd.kind == "anon" for nd in nodes):
            s = "\n".join(p.lines() + l) + "\n"
        else:
            s = "\n".join(wrap(src, nodes, files, 2, [0]) + l) + "\n"
    r = t.asm(s, files=files)
    expect_bytes(merge(p, b), ok_output(r))
    if any(nd.deferred for nd in p.nodes):
        t.nontrivial(s)
        t.sample(s)
    for nd in p.nodes:
        if nd.deferred:
            t.label("deferred " + (nd.kind if nd.kind != "ins" else "".join(sorted(set(nd.form.slots)))))


class G:
    def __init__(self, src):
        self.src = src
        self.syms = {"sym%d" % i: src.edgy(-70000, 100000) for i in range(src.int(1, 5))}
        self.defs = {}      # current defines: name -> compound?
        self.eqs = ["eq%d" % i for i in range(src.draw(3))]
        self.anons = 0
        self.macros = {}
        self.fwd = False

    def prim(self, params, arg):
        """arg: inside a macro argument (no compound names)."""
        src = self.src
        k = src.draw(10)
        if k <= 3:
            self.fwd = True
            return src.choice(sorted(self.syms))
        if k == 4 and self.defs:
            ds = [d for d in sorted(self.defs) if not (arg and self.defs[d])]
            if ds:
                return src.choice(ds)
        if k == 5 and params and not arg:
            return src.choice(params)
        if k == 6 and self.eqs:
            return src.choice(self.eqs)
        if k == 7:
            return "$" if not arg else str(src.int(0, 99))
        if k == 8 and self.anons > 0 and not params and not arg:
            return src.choice(["(-_)"])
        if k == 9:
            return "(" + self.expr(params, arg, 1) + ")"
        return src.choice([str(src.int(0, 300)), "$%X" % src.int(0, 0xFFFF), "%" + bin(src.int(0, 31))[2:], "'%s'" % chr(97 + src.draw(26))])

    def expr(self, params=(), arg=False, mx=3):
        src = self.src
        out = src.choice(["", "", "", "-", "~"]) + self.prim(params, arg)
        for _ in src.many(0, 1.2, mx):
            out += src.choice(["", " "]) + src.choice([" != ", "+", "-", "*", "&", "|", "^", "==", "<", ">", "<=", ">=", "&&", "||"]) + " " * src.draw(2) + self.prim(params, arg)
        return out

    def stmt(self, params=()):
        src = self.src
        e = lambda: self.expr(params)
        k = src.draw(14)
        if k == 0:
            return " .db " + ",".join("(" + e() + ")&255" for _ in src.many(1, 1.5, 4))
        if k <= 2:
            return " .dw " + ",".join(e() for _ in src.many(1, 1.5, 4))
        if k <= 4:
            return " .dl " + ",".join(e() for _ in src.many(1, 1.5, 4))
        if k == 5:
            return " ld %s,0+%s" % (src.choice(["hl", "bc", "ix", "sp"]), e())
        if k == 6:
            return " ld %s,0+%s&255" % (src.choice(["a", "e", "(hl)"]), e())
        if k == 7:
            return " ld %s,(%s+%s&127)" % (src.choice(["b", "l"]), src.choice(["ix", "iy"]), e())
        if k == 8:
            return " %s 0+%s&7,%s" % (src.choice(["bit", "set", "res"]), e(), src.choice(["a", "(hl)", "(ix-3)", "(iy+sym0&63)"]))
        if k == 9:
            return " rst 0+%s&7*8" % e()
        if k == 10:
            return " jr 0+%s*0+$+%d" % (e(), src.int(-100, 100))
        if k == 11:
            return " ld (%s),a" % (e() if params == () and src.draw(2) else "0+" + e())
        if k == 12:
            return " %s 0+%s" % (src.choice(["call", "jp", "jp nz,"]), e())
        return " ld (ix-%s&63),0+%s&127" % (src.choice(sorted(self.syms)), e())


def metamorphic(src, t):
    g = G(src)
    body = []           # list of statement groups (lists of lines)
    pre = []
    for k, n in enumerate(g.eqs):
        pre.append("%s = %d" % (n, src.edgy(-300, 70000)))
    for i in range(src.draw(4)):
        ps = ["p", "q", "r"][:src.draw(3) + 1]
        fwd = g.fwd
        lines = [g.stmt(tuple(ps)) for _ in src.many(1, 2, 4)]
        if g.macros and src.draw(3) == 0:
            n = src.choice(sorted(g.macros))
            lines.append(" %s(%s)" % (n, ",".join(src.choice(["%d" % src.int(0, 99), src.choice(ps), src.choice(sorted(g.syms))]) for _ in range(g.macros[n]))))
        n = "mac%d" % i
        pre.append("\n".join(["#macro %s(%s)" % (n, ",".join(ps)), " ;"] + lines + ["#endmacro"]))
        g.macros[n] = len(ps)
    nfwd = False
    for _ in src.many(1, 8, 30):
        k = src.draw(12)
        if k <= 1:
            n = "D%d" % src.draw(3)
            if src.draw(2):
                body.append("#define %s (%s)" % (n, g.expr()) if False else "#define %s %s" % (n, src.choice(sorted(g.syms) + ["17", "$20"])))
                g.defs[n] = False
            else:
                # its own old contents may be part of the new ones
                old = dict(g.defs)
                g.defs = {k: v for k, v in g.defs.items()}
                e = g.expr()
                body.append("#define %s %s" % (n, e if " != " not in e else e))
                g.defs = old
                g.defs[n] = True
        elif k == 2 and g.macros:
            n = src.choice(sorted(g.macros))
            body.append(" %s(%s)" % (n, ", ".join(g.expr((), True) for _ in range(g.macros[n]))))
            nfwd = True
        elif k == 3:
            body.append("_:")
            g.anons += 1
        elif k == 4:
            body.append(" .org %d" % src.int(0, 60000))
        else:
            g.fwd = False
            body.append(g.stmt())
            nfwd = nfwd or g.fwd
    defs = ["%s = %d" % (n, v) if v >= 0 or src.draw(2) else "%s .equ 0-%d" % (n, -v) for n, v in sorted(g.syms.items())]
    a = "\n".join(pre[:len(g.eqs)] + defs + pre[len(g.eqs):] + body) + "\n"
    ra = t.asm(a)
    b = "\n".join(pre + body + src.shuffle(defs)) + "\n"
    rb = t.asm(b)
    # every symbol somewhere in between
    mid = list(body)
    for d in defs:
        mid.insert(src.draw(len(mid) + 1), d)
    c = "\n".join(pre + mid) + "\n"
    rc = t.asm(c)
    da, db, dc = (sorted((d.kind, d.code or d.msg) for d in diags(r)) for r in (ra, rb, rc))
    if ra.rc == 3:
        # the program has a fault of its own (a recursive define, say); nothing to compare
        t.label("faulty")
        return
    for what, r, d, s in (("last", rb, db, b), ("in between", rc, dc, c)):
        if r.files["out.bin"] is None or (r.rc, d) != (ra.rc, da):
            raise Violation("defining the symbols %s changes the outcome: exit %d %r instead of %d %r" % (what, r.rc, diags(r), ra.rc, diags(ra)), first=a, later=s)
        try:
            expect_bytes(ra.files["out.bin"], r.files["out.bin"], "bytes with the symbols defined %s" % what)
        except Violation as v:
            raise Violation(v.msg, first=a, later=s)
    if nfwd:
        t.nontrivial(b)
        t.sample(b)


def redefinition(src, t):
    """A symbol or define changed after a deferred use must not change that use."""
    lines, out = [], bytearray()
    cur = {}
    for _ in src.many(2, 6, 20):
        n = src.choice(["x", "y", "D", "E"])
        if n not in cur or src.draw(3) == 0:
            v = src.int(0, 5000)
            cur[n] = v
            lines.append("%s = %d" % (n, v) if n in "xy" else "#define %s %d" % (n, v))
        else:
            op = src.choice("+-*")
            k = src.int(1, 50)
            f = 1000
            v = {"+": f + cur[n], "-": f - cur[n], "*": f * cur[n]}[op] + k
            m = src.draw(3)
            e = "later%s%s+%d" % (op, n, k)
            if m == 0:
                lines.append(" .dl " + e)
            elif m == 1:
                lines.append(" mm(%s)" % e)
            else:
                lines.append(" ld hl,%s" % e)
                out += b"\x21" + (v & 0xFFFF).to_bytes(2, "little")
                continue
            out += (v & 0xFFFFFF).to_bytes(3, "little")
    s = "\n".join(["#macro mm(p)", " .dl p", "#endmacro"] + lines + ["later = 1000"]) + "\n"
    r = t.asm(s)
    if any(d.kind == "error" for d in diags(r)) or r.files["out.bin"] is None:
        raise Violation("valid program rejected: exit %d %r" % (r.rc, diags(r)))
    expect_bytes(bytes(out), r.files["out.bin"])
    t.nontrivial(s)


HEXY = ["beef", "face", "dad", "cab", "a1b", "fade", "b0b", "e5"]
TRICKY = [("'\"'", 34), ("';'", 59), ("'\\\\'", 92), ("'\\''", 39), ("'\\n'", 10), ("' '", 32), ("','", 44), ("'('", 40), ("')'", 41),
          ("'$'", 36), ("'%'", 37), ("'#'", 35), ("'p'", 112), ("'q'", 113), ("'+'", 43), ("'A'", 65), ("'.'", 46), ("'_'", 95)]


def expand(src, t):
    """Macro bodies and chains of defines over a forward symbol: what stands before the names in the
    expression (a quote in a literal char, a hex number that spells a name) does not keep them from being replaced."""
    names = src.shuffle(HEXY + ["p", "q", "Len", "x_1", "_u"])
    fw = {"later": src.int(0, 60000), "sym2": src.int(0, 999)}
    defs = []           # (name, value or (value with the forward symbol))
    lines, out = [], bytearray()
    for _ in range(src.draw(3)):
        n, v = names.pop(), src.int(0, 255)
        lines.append("#define %s %d" % (n, v) if src.draw(3) else "%s = %d" % (n, v))
        defs.append((n, v))
    # a chain of defines that ends in a forward symbol
    chain = []
    if src.draw(2):
        prev, v = "later", fw["later"]
        groups = 0      # a define and a group are a level each; 20 are allowed
        for i in range(src.choice([1, 2, 5, 10, 14, 15, 16])):
            if i + groups >= 16:
                break
            n = "c%d_" % i
            e = prev
            if src.draw(3) == 0 and i + groups < 14:
                groups += 1
                w = src.int(0, 99)
                k = src.draw(3)
                e, v = [("%s+%d" % (prev, w), v + w), ("%d+%s" % (w, prev), v + w), ("(%s-%d)" % (prev, w), v - w)][k]
            lines.append("#define %s %s" % (n, e))
            prev = n
        chain.append((prev, v))
        t.label("chain of %d" % (i + 1))

    def expr(params):
        e, v = None, 0
        late = False
        for i in range(src.int(2, 6)):
            k = src.draw(7)
            if k == 0:
                a, x = src.choice(TRICKY)
            elif k == 1:
                h = src.choice(["beef", "face", "dad", "cab", "a1b", "fade", "b0b", "e5", "BEEF", "12", "0cab"])
                a, x = "$" + h, int(h, 16)
            elif k <= 3 and params:
                a, x = src.choice(params)
            elif k == 4 and defs + chain:
                a, x = src.choice(defs + chain)
            elif k == 5:
                a, x = src.choice([("$", None), (str(src.draw(99)),) * 2, ("%101", 5), ("0feh", 254), ("101b", 5)])
                x = int(x) if x is not None else None
            else:
                a, x = src.choice(sorted(fw.items()))
                late = True
            if x is None:
                a, x = "%d" % (7 + i), 7 + i
            op = src.choice(["+", "-", " + ", "*", "|", "&", "^"])
            if e is None:
                e, v = a, x
            else:
                e, o = e + op + a, op.strip()
                v = {"+": v + x, "-": v - x, "*": v * x, "|": v | x, "&": v & x, "^": v ^ x}[o]
        if not late:
            e, v = e + "+later", v + fw["later"]
        return e, v

    def stmt(params):
        k = src.draw(4)
        e, v = expr(params)
        if len(e) > 110:
            raise Discard("too long")
        if k == 0:
            return " .dw %s" % e, (v & 0xFFFF).to_bytes(2, "little")
        if k == 1:
            e2, v2 = expr(params)
            return " .dl %s,%s" % (e, e2), (v & 0xFFFFFF).to_bytes(3, "little") + (v2 & 0xFFFFFF).to_bytes(3, "little")
        if k == 2:
            return " ld hl,0|%s" % e, b"\x21" + (v & 0xFFFF).to_bytes(2, "little")
        return " .dl %s" % e, (v & 0xFFFFFF).to_bytes(3, "little")
    for i in range(src.int(1, 4)):
        if src.draw(4):
            free = list(names)
            ps = [(free.pop(), src.int(0, 255)) for _ in range(src.int(1, 3))]
            body = [stmt(ps) for _ in range(src.int(1, 4))]
            lines += ["#macro m%d(%s)" % (i, ",".join(n for n, _ in ps)), " ;"] + [b[0] for b in body] + ["#endmacro"]
            lines.append(" m%d(%s)" % (i, ",".join(str(v) for _, v in ps)))
            out += b"".join(b[1] for b in body)
        else:
            l, b = stmt([])
            lines.append(l)
            out += b
    s = "\n".join(lines + ["%s = %d" % d for d in sorted(fw.items())]) + "\n"
    r = t.asm(s)
    expect_bytes(bytes(out), ok_output(r))
    t.nontrivial(s)
    t.sample(s)


def textual_args(t):
    """Known finding: an unresolved macro argument is kept as ungrouped text."""
    r = t.asm("#define X 1+2\n#macro m(p)\n .dw p\n#endmacro\n m(3*X+later)\nlater = 0\n")
    return r.files["out.bin"] == b"\x05\x00"


FINDINGS = {"textual-args": textual_args}


def parts(tier):
    q = tier == "quick"
    return [("model", model, 9000 if q else 250000), ("metamorphic", metamorphic, 5000 if q else 130000),
            ("expand", expand, 3000 if q else 80000), ("redefinition", redefinition, 2500 if q else 60000)]
