"""P10: anonymous labels against a position-counting model."""
from core import Violation, Discard, diags, alive, expect_bytes, ok_output

PROP = "P10"
TECHNIQUE = "random programs with anonymous labels spread over lines, joined statements, macros, includes, run() and skipped branches; every reference is observed through emitted bytes and compared with a model counting labels from the referencing statement"
NOTE = "Sampled: up to some thousand labels and distances up to the number of labels; a reference to a missing label must be diagnosed on its line."
RULE = "distinct sources with at least two anonymous labels and a reference in each direction or at distance two or more"
SIZES = {"dw": 2, "dl": 3, "jp": 3, "jr": 2, "hl": 3, "mix": 2, "two": 4, "equ": 2, "if": 2, "djnz": 2, "def": 2, "arg": 2, "mem": 4, "echo": 0}


class It:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.refs = [1, 1]
        self.insts = []         # (address, labels before)
        self.__dict__.update(kw)


def ref(n):
    """n<0: that many labels back; n>=1: that many forward."""
    return "-" * -n + "_" if n < 0 else "+" * n + "_"


class G:
    def __init__(self, src, t):
        self.src, self.t = src, t
        self.files = {}
        self.n = 0
        self.macros = []        # (name, items)
        self.items = []

    def items_of(self, avg, depth, top=True):
        src = self.src
        out = []
        for _ in src.many(1, avg, 5 * avg):
            k = src.weighted([(6, "lab"), (8, "ref"), (2, "gap"), (1, "org"), (1, "named"), (2, "sub"), (1, "call"), (1, "skip")])
            if k == "lab":
                out.append(It("lab", size=0, colon=src.draw(2), join=src.draw(3)))
            elif k == "ref":
                ks = ["dw", "dl", "jp", "jr", "hl", "mix", "two", "djnz", "def", "mem", "echo"] + (["equ", "if", "arg"] if top else [])
                kk = src.choice(ks)
                out.append(It("ref", how=kk, size=SIZES[kk], want=[src.choice([-1, 1, -2, 2, 1, -1, 3, -3, -src.int(1, 9), src.int(1, 9)]) for _ in range(2)], bare=src.draw(2),
                              op=src.choice(["+", "-", "&", "|", "^"]), sp=[src.draw(2), src.draw(2)], lit=src.int(0, 300), par=src.draw(3)))
            elif k == "gap":
                out.append(It("gap", size=src.int(0, 12)))
            elif k == "org" and top:
                out.append(It("org", size=0, value=src.int(0, 0xF000)))
            elif k == "named" and top:
                self.n += 1
                out.append(It("named", size=0, name=src.choice(["a_%d", "_%d", "l%d_"]) % self.n))
            elif k == "sub" and depth:
                how = src.choice(["inc", "run", "if"])
                out.append(It("sub", size=0, how=how, items=self.items_of(3, depth - 1, top and how != "run")))
            elif k == "call" and self.macros:
                out.append(It("call", size=0, m=src.choice(self.macros)))
            elif k == "skip":
                out.append(It("skip", size=0, how=src.draw(3)))
        return out

    def flat(self, items, out):
        for i in items:
            if i.kind == "sub":
                self.flat(i.items, out)
            elif i.kind == "call":
                self.flat(i.m[1], out)
            else:
                out.append(i)
        return out

    def make(self):
        src = self.src
        for k in range(src.draw(3)):
            self.macros.append(("mac%d" % k, self.items_of(4, 0, False)))
        self.items = self.items_of(14, 2)
        if sum(1 for _ in self.flat(self.items, [])) > 3000:
            raise Discard("big")
        self.seq = self.flat(self.items, [])
        self.labels = []
        pc = 0
        for i in self.seq:
            if i.kind == "lab":
                self.labels.append(pc)
            elif i.kind == "org":
                pc = i.value
            elif i.kind == "named":
                pass
            i.insts.append((pc, len(self.labels)))
            pc += i.size
        total = len(self.labels)
        for i in self.seq:
            if i.kind == "ref" and not getattr(i, "done", False):
                i.done = True
                back = min(b for _, b in i.insts)
                fwd = min(total - b for _, b in i.insts)
                i.refs = []
                for w in i.want:
                    if i.how in ("equ", "if"):
                        w = -abs(w)
                    if w < 0 and back == 0:
                        w = -w if i.how not in ("equ", "if") else 0
                    if w > 0 and fwd == 0:
                        w = -w if back else 0
                    i.refs.append(max(w, -back) if w < 0 else min(w, fwd))
                if i.how in ("jr", "djnz") and i.refs[0]:
                    if any(not -128 <= self.target(i.refs[0], b) - (a + 2) <= 127 for a, b in i.insts) or any(a > 0xFF00 for a, b in i.insts):
                        i.how = "dw"

    def target(self, r, before):
        return self.labels[before + r] if r < 0 else self.labels[before + r - 1]

    def val(self, i, k, inst):
        return self.target(i.refs[k], inst[1]) if i.refs[k] else i.lit

    def txt(self, i, k):
        r = i.refs[k]
        if not r:
            return str(i.lit)
        if r == 1 and i.bare:
            return "_"
        return ref(r)

    def two(self, i):
        """Two references and an operator; operators and signs may touch where that is unambiguous."""
        a, b = self.txt(i, 0), self.txt(i, 1)
        return a + " " * i.sp[0] + i.op + (" " if i.sp[1] or b[0] in "+" and i.op == "+" else "") + b

    def apply(self, i, inst):
        a, b = self.val(i, 0, inst), self.val(i, 1, inst)
        return {"+": a + b, "-": a - b, "&": a & b, "|": a | b, "^": a ^ b}[i.op]

    def stmt(self, i):
        a = self.txt(i, 0)
        if i.par == 1 and i.how in ("dw", "dl", "def", "two", "arg"):
            a = "(%s)" % a
        h = i.how
        if h == "dw":
            return [" .dw " + a]
        if h == "dl":
            return [" .dl " + a]
        if h == "jp":
            return [" jp nz," + a]
        if h == "jr":
            return [" jr c," + a]
        if h == "djnz":
            return [" djnz " + a]
        if h == "hl":
            return [" ld hl," + a]
        if h == "mem":
            return [" ld bc,(" + a + ")"]
        if h == "mix":
            return [" .dw " + self.two(i)]
        if h == "two":
            return [" .dw %s,%s" % (a, self.txt(i, 1))]
        if h == "echo":
            return [" .echo " + (self.two(i) if i.par else a)]
        if h == "def":
            self.n += 1
            return ["#define ref%d %s" % (self.n, self.two(i)), " .dw ref%d" % self.n]
        if h == "arg":
            return [" emit(%s)" % a]
        if h == "equ":
            self.n += 1
            return ["eq%d %s %s" % (self.n, "=" if i.bare else ".equ", a), " .dw eq%d" % self.n]
        if h == "if":
            self.n += 1
            v = self.val(i, 0, i.insts[0])
            return ["#if %s == %d" % (a, v if i.bare else v + 1), " .db 1,2", "#else", " .db 3,4", "#endif"]
        raise AssertionError(h)

    def data(self, i, inst):
        a = self.val(i, 0, inst)
        w = (a & 0xFFFF).to_bytes(2, "little")
        h = i.how
        if h == "echo":
            self.echoes.append(self.apply(i, inst) if i.par else a)
            return b""
        if h in ("dw", "equ", "arg"):
            return w
        if h == "dl":
            return (a & 0xFFFFFF).to_bytes(3, "little")
        if h == "jp":
            return b"\xc2" + w
        if h == "jr":
            return bytes([0x38, (a - inst[0] - 2) & 255])
        if h == "djnz":
            return bytes([0x10, (a - inst[0] - 2) & 255])
        if h == "hl":
            return b"\x21" + w
        if h == "mem":
            return b"\xed\x4b" + w
        if h in ("mix", "def"):
            return (self.apply(i, inst) & 0xFFFF).to_bytes(2, "little")
        if h == "two":
            return w + (self.val(i, 1, inst) & 0xFFFF).to_bytes(2, "little")
        return b"\1\2" if i.bare else b"\3\4"

    def emit(self, items, out):
        src = self.src
        pend = None             # a label waiting for its statement
        for i in items:
            lines = []
            if i.kind == "lab":
                s = "_:" if i.colon else "_"
                if pend:
                    out.append(pend)
                    pend = None
                if i.join:
                    pend = s
                else:
                    out.append(s)
                continue
            if i.kind == "ref":
                if i.how in ("jr", "djnz") and not i.refs[0]:
                    i.how = "dw"
                lines = self.stmt(i)
            elif i.kind == "gap":
                lines = [" .fill %d,$AA" % i.size] if i.size else [""]
            elif i.kind == "org":
                lines = [" .org %d" % i.value]
            elif i.kind == "named":
                lines = [i.name + ":"]
            elif i.kind == "call":
                lines = [" " + i.m[0]]
            elif i.kind == "skip":
                lines = [["#if 0", "_:", " .dw -_", "#endif"], ["#comment", "_", "#endcomment"], ["#ifdef nosuch", "_: nop", "#else", " ;_", "#endif"]][i.how]
            elif i.kind == "sub":
                inner = []
                self.emit(i.items, inner)
                if i.how == "inc":
                    self.n += 1
                    f = "f%d.inc" % self.n
                    self.files[f] = "\n".join(inner) + "\n"
                    lines = ['#include "%s"' % f]
                elif i.how == "run" and not any(l.startswith("#") or "run()" in l or l.startswith(" mac") for l in inner):
                    lines = [" clr()"] + [' wr("%s")' % l for l in inner] + [" run()"]
                elif i.how == "if":
                    lines = ["#if 1"] + inner + ["#endif"]
                else:
                    lines = inner
            if pend:
                if lines and lines[0][:1] == " ":
                    lines = [pend + (" \\" if pend == "_:" and i.kind == "gap" else "") + lines[0]] + lines[1:]
                else:
                    lines = [pend] + lines
                pend = None
            out += lines
        if pend:
            out.append(pend)

    def source(self):
        out = ["#macro emit(x)", " .dw x", "#endmacro"]
        for n, items in self.macros:
            body = []
            self.emit(items, body)
            out += ["#macro " + n, " ;"] + body + ["#endmacro"]
        self.emit(self.items, out)
        return "\n".join(out) + "\n"

    def bytes(self):
        self.echoes = []
        out = bytearray()
        seen = {}
        for i in self.seq:
            k = seen.get(id(i), 0)
            seen[id(i)] = k + 1
            if i.kind == "ref":
                out += self.data(i, i.insts[k])
            elif i.kind == "gap":
                out += b"\xaa" * i.size
        return bytes(out)


def model(src, t):
    g = G(src, t)
    g.make()
    s = g.source()
    r = t.asm(s, files=g.files)
    expect_bytes(g.bytes(), ok_output(r))
    exp = "".join("%d\n" % (x if x < 1 << 31 else x - (1 << 32)) for x in g.echoes)
    if "Pass two... \n" + exp + "Assembly time" not in r.text():
        raise Violation("echoed values differ", expected=exp[:600], got=r.text()[:900])
    refs = [x for i in g.seq if i.kind == "ref" for x in i.refs if x]
    if len(g.labels) >= 2 and (any(abs(x) > 1 for x in refs) or min(refs, default=1) < 0 < max(refs, default=-1)):
        t.nontrivial(s)
        t.sample(s)
    for x in refs:
        t.label("distance %s%s" % ("-" if x < 0 else "+", min(abs(x), 5)))


def many(src, t):
    """Long runs of labels, far references."""
    n = src.choice([40, 300, src.int(2, 2000), src.int(4000, 9000)])
    gaps = [src.int(0, 6) for _ in range(16)]
    marks = sorted(set(src.int(0, n) for _ in range(src.int(1, 6))))
    lines, exp, addrs, refs = [], bytearray(), [], []
    pc = src.choice([0, 0, src.int(0, 0xFFFF), src.int(0xFF00, 0x10010), src.int(0x10000, 0xFF0000)])
    ez = src.draw(2)
    if pc or src.draw(2):
        lines.append(" .org %d" % pc)
    for k in range(n + 1):
        if k in marks:
            back = src.choice([1, 2, src.int(1, 30), src.int(1, 200)])
            fwd = src.choice([1, 2, src.int(1, 30), src.int(1, 200)])
            back, fwd = min(back, k), min(fwd, n - k)
            e = [x for x in (-back, fwd) if x]
            lines.append(" .dl " + ",".join(ref(x) for x in e))
            refs.append((len(exp), k, e))
            exp += bytes(3 * len(e))
            pc += 3 * len(e)
        if k < n:
            lines.append("_" + ":" * (k % 2) + " .fill %d" % gaps[k % 16])
            addrs.append(pc)
            exp += bytes(gaps[k % 16])
            pc += gaps[k % 16]
    for pos, k, e in refs:
        for j, x in enumerate(e):
            exp[pos + 3 * j:pos + 3 * j + 3] = addrs[k + x if x < 0 else k + x - 1].to_bytes(3, "little")
    s = "\n".join(lines) + "\n"
    r = t.asm(s, ["-E"] if ez else [])
    expect_bytes(bytes(exp), ok_output(r))
    t.nontrivial(s)
    t.label("labels>4096" if n > 4096 else "labels")


def missing(src, t):
    """One reference that has no label: diagnosed on its line."""
    n = src.draw(4)
    lines, pos = [], src.int(0, n)
    bad = None
    for k in range(n + 1):
        if k == pos:
            over = src.int(1, 3)
            x = -(k + over) if src.draw(2) else n - k + over
            st = src.choice([" .dw %s", " .dl 4,%s", " jp %s", " ld hl,%s", " .dw %s+1", " call nz,%s", " ld a,(%s)", "#define zz %s\n .dw zz", " jr %s", " .dw (%s)"]) % ref(x)
            bad = x
            lines += st.split("\n")
            line = sum(1 for _ in lines)
        if k < n:
            lines.append(src.choice(["_", "_:", "_ nop"]))
            if src.draw(3) == 0:
                lines.append(src.choice([" nop", "foo%d:" % k, "", " .dw %s" % ref(-(k + 1))]))
    s = "\n".join(lines) + "\n"
    r = t.asm(s)
    ds = diags(r)
    # inside a define the error stands at the define's contents, with a note naming the use
    note = "in.asm:%d: Error during" % line in r.text()
    if not any(d.kind == "error" and (d.line == line or note) for d in ds):
        raise Violation("reference %s to a missing label on line %d is not diagnosed" % (ref(bad), line), output=r.text()[-600:])
    for d in ds:
        if d.line != line and not (note and d.line == line - 1):
            raise Violation("unexpected diagnostic %r" % d, output=r.text()[-600:])
    t.nontrivial(s)


def parts(tier):
    q = tier == "quick"
    return [("model", model, 12000 if q else 250000), ("missing", missing, 2000 if q else 20000), ("many", many, 300 if q else 6000)]
