"""P22: the built-in text buffers (buf, clr, wr, run) against a model of ten independent buffers."""
from core import Violation, Discard, diags, alive, expect_bytes, ok_output
from expr import Env, gen, text, mixcase
from prog import string_text

PROP = "P22"
TECHNIQUE = "stateful model-based generation: random histories of buf/clr/wr/run (also inside macros, includes, conditionals, joined lines and buffer contents themselves) against a model of ten text buffers and the bytes their contents emit"
NOTE = "Sampled histories of up to about 40 operations, contents nested up to 4 deep. Values given to wr must be known when wr is read (others have to be diagnosed)."
RULE = "distinct sources in which run() assembles at least one line"


class Line:
    """One statement: its text and what assembling it does."""
    __slots__ = ("text", "act", "sub")

    def __init__(self, text, act, sub=None):
        self.text, self.act, self.sub = text, act, sub


class Fault(Exception):
    pass


class W:
    """The assembler's state as far as this property goes."""

    def __init__(self):
        self.bufs = [None] * 10
        self.cur = 0
        self.out = bytearray()
        self.org = 0
        self.pc = 0
        self.labels = {}
        self.runs = 0
        self.steps = 0
        self.fix = []
        self.macros = {}

    def emit(self, b):
        self.out += b
        self.pc += len(b)

    def do(self, l):
        self.steps += 1
        if self.steps > 4000 or len(self.out) > 4000:
            raise Discard("too long")
        l.act(self)


class G:
    def __init__(self, src):
        self.src = src
        self.n = 0
        self.nonce = 0
        self.names = []      # labels that are certainly defined when top-level statements run
        self.macros = {}
        self.later = [("later%d" % k, src.int(0, 250)) for k in range(2)]
        self.w = W()
        self.files = {}
        # some kinds are favoured, differently in every case
        fav = {src.choice(["clr", "macro", "buf", "wr", "run", "joined"]) for _ in range(src.draw(4))}
        self.weights = [(w * (4 if k in fav else 1), k) for w, k in [(5, "db"), (4, "wr"), (2, "buf"), (3, "run"), (1, "clr"), (2, "ins"), (1, "pc"), (1, "later"), (1, "joined"), (1, "macro"), (1, "str")]]

    def q(self, s):
        return string_text(self.src, s.encode("latin-1"))

    # -------- statements; depth counts nesting of contents
    def stmt(self, depth):
        src = self.src
        k = src.weighted(self.weights)
        if k == "db":
            vs = [src.draw(256) for _ in src.many(1, 2, 4)]
            if depth < 3 and src.draw(20) == 0:
                # a long line, whole or put together from pieces
                vs = [src.draw(256) for _ in range(src.int(20, 55))]
            b = bytes(vs)
            return Line(" .db " + ",".join(map(str, vs)), lambda w: w.emit(b))
        if k == "str":
            s = bytes(src.choice(b'ab \\"\';,)(#') for _ in range(src.int(1, 6)))
            return Line(" .db " + string_text(src, s), lambda w: w.emit(s))
        if k == "ins":
            t, b = src.choice([("nop", b"\0"), ("ld a,5", b"\x3e\5"), ("add a,(ix+3)", b"\xdd\x86\3"), ("ld (hl),'x'", b"\x36x"), ("ex af,af'", b"\x08")])
            return Line(" " + t, lambda w: w.emit(b))
        if k == "pc":
            def act(w):
                w.emit((w.pc & 0xFFFF).to_bytes(2, "little"))
            return Line(" .dw $", act)
        if k == "later":
            n, v = src.choice(self.later)
            return Line(" .db %s+1" % n, lambda w: w.emit(bytes([v + 1])))
        if k == "buf":
            n = src.draw(10) if src.draw(3) else src.draw(2)
            def act(w):
                w.cur = n
            t = src.choice(["%d", "%d", "$%X", "%d+0", " %d "])
            return Line(" %s(%s)" % (self.kw("buf"), t % n), act)
        if k == "clr":
            def act(w):
                w.bufs[w.cur] = []
            return Line(" %s()" % self.kw("clr"), act)
        if k == "run" and depth == 0 and self.w.bufs[self.w.cur] is None and src.draw(10):
            k = "wr"
        if k == "run" and depth and src.draw(8):
            a = self.wr(depth)
            def act(w):
                w.do(a)
                self.run(w)
            return Line(a.text + " \\ %s()" % self.kw("run"), act) if "\n" not in a.text else a
        if k == "run":
            return Line(" %s()" % self.kw("run"), self.run)
        if k == "joined":
            a, b = self.stmt(max(1, depth)), self.stmt(max(1, depth))
            def act(w):
                w.do(a)
                w.do(b)
            return Line(a.text + " \\" + b.text, act)
        if k == "macro" and depth == 0 and not (self.macros and src.draw(3)):
            body = [self.stmt(1) for _ in src.many(1, 2, 6)]
            self.n += 1
            name = src.choice(["bm%d", "bm%d", "runner%d", "run%d_", "buf%d", "wr%d", "wrap%d", "clr%d", "_run%d"]) % self.n
            def act(w):
                w.macros[name] = body
            return Line("#macro %s()\n ;\n%s\n#endmacro" % (name, "\n".join(l.text for l in body)), act, name)
        if k == "macro":
            ms = sorted(self.macros)
            if not ms:
                return self.stmt(depth)
            m = src.choice(ms)
            def act(w):
                for l in self.macros[m]:
                    w.do(l)
            return Line(" %s()" % m, act)
        return self.wr(depth)

    def kw(self, s):
        return mixcase(self.src, s) if self.src.draw(4) == 0 else s

    @staticmethod
    def run(w):
        b = w.bufs[w.cur]
        if b is None:
            raise Fault("SE301")
        w.bufs[w.cur] = None
        if b:
            w.runs += 1
        for l in b:
            w.do(l)

    def wr(self, depth):
        """wr(...) of a line; parts of the line may come from values."""
        src = self.src
        k = src.draw(8)
        if k <= 1:
            # numbers rendered by wr: " .db ", <expr>, ",", <expr>
            parts, vals = [], []
            d, size, lo = src.choice([(".db", 1, 8), (".dw", 2, 16), (".dl", 3, 24)])
            for i in range(src.int(1, 3)):
                if i:
                    parts.append('","')
                    vals.append(",")
                known = self.names if depth == 0 else []
                t, v, used = gen(src, Env(known), depth=1, avg=0.6, maxops=3, must=src.choice(known) if known and src.draw(2) else None)
                if "$" in used:
                    raise Discard("pc")
                if size == 1 and not -128 <= v <= 255:
                    t, v = [("n", str(v & 255))], v & 255
                parts.append(text(t))
                vals.append(v)
            nums = [v for v in vals if v != ","]
            b = b"".join((v & ((1 << lo) - 1)).to_bytes(size, "little") for v in nums)
            line = Line(" %s %s" % (d, "".join(map(str, vals))), lambda w: w.emit(b))
            arg = [self.q(" %s " % d)] + parts
        elif k == 2:
            # $ is the address of the wr itself
            cell = {}
            def mk(w):
                v = w.pc
                return Line(" .dw %d" % v, lambda w: w.emit((v & 0xFFFF).to_bytes(2, "little")))
            def act(w):
                if w.bufs[w.cur] is None:
                    w.bufs[w.cur] = []
                w.bufs[w.cur].append(mk(w))
            return Line(" %s(%s)" % (self.kw("wr"), self.q(" .dw ") + ",$"), act)
        elif k == 3 and depth < 3:
            # a group of lines that belong together
            c = src.draw(2)
            a, b = self.stmt(3), self.stmt(3)
            lines = ["#if %d" % c, a.text, "#else", b.text, "#endif"]
            if max(len(a.text), len(b.text)) > 120:
                raise Discard("long")
            def act(w):
                if w.bufs[w.cur] is None:
                    w.bufs[w.cur] = []
                w.bufs[w.cur].append(a if c else b)
            sep = src.choice(["\n", "\n", " \\"])
            return Line(sep.join(" wr(%s)" % self.q(l) for l in lines), act)
        else:
            line = self.stmt(depth + 1) if depth < 3 else Line(" nop", lambda w: w.emit(b"\0"))
            t = line.text
            arg = []
            while len(arg) < 3 and len(t) > 2 and src.draw(3) == 0:
                i = src.int(1, len(t) - 1)
                arg.append(self.q(t[:i]))
                t = t[i:]
            arg.append(self.q(t))
            if src.draw(4) == 0 and "\\" not in line.text[-1:]:
                arg.append(self.q(src.choice([" ; c", "\t", ";\"x", "  "])))
        a = src.choice([",", ", ", " ,"]).join(arg)
        if len(a) > 240:
            raise Discard("long")
        def act(w):
            if w.bufs[w.cur] is None:
                w.bufs[w.cur] = []
            w.bufs[w.cur].append(line)
        return Line(" %s(%s)" % (self.kw("wr"), a), act)


def history(src, t):
    g = G(src)
    w = g.w
    lines, at = [], 1
    fault = None
    org = src.choice([0, 0x8000, 0x9D95])
    w.pc = org
    lines.append(" .org %d" % org)
    for _ in src.many(2, 14, 40):
        l = g.stmt(0)
        txt = l.text
        if l.sub is None and "\n" not in txt and src.draw(10) == 0:
            g.n += 1
            n = "lb%d" % g.n
            txt = n + ":" + txt
            w.labels[n] = w.pc
            g.names.append((n, w.pc))
        elif l.sub is None and src.draw(12) == 0:
            f = "i%d.asm" % len(g.files)
            g.files[f] = txt + "\n"
            txt = '#include "%s"' % f
        try:
            w.do(l)
        except Fault as e:
            fault = (str(e), len("\n".join(lines + [txt]).split("\n")), txt)
        if l.sub:
            g.macros[l.sub] = w.macros[l.sub]
        lines.append(txt)
        if fault:
            break
        if any(sum(len(x.text) for x in b or []) > 30000 for b in w.bufs):
            raise Discard("long")
    if not fault:
        for n in range(10):
            if w.bufs[n] is not None and src.draw(3) == 0:
                lines.append(" buf(%d) \\ run()" % n)
                w.cur = n
                try:
                    w.do(Line("", g.run))
                except Fault as e:
                    fault = (str(e), len("\n".join(lines).split("\n")), lines[-1])
                    break
    lines += ["%s = %d" % nv for nv in g.later]
    s = "\n".join(lines) + "\n"
    opts = src.sample(["-T", "-L", "-S", "-A"], src.draw(3)) if src.draw(3) == 0 else []
    if any(len(l) > 4000 for l in lines):
        raise Discard("long")
    if "-A" in opts and any(c.isupper() for c in s if c != "X" and c != "H"):
        pass
    r = t.asm(s, opts, files=g.files)
    if fault:
        ds = diags(r)
        if not any(d.code == fault[0] for d in ds) or r.rc == 0 or r.files["out.bin"] is not None:
            raise Violation("run() of an empty buffer is not diagnosed", output=r.text()[:800])
        t.nontrivial(s)
        t.label("fault")
        return
    expect_bytes(bytes(w.out), ok_output(r))
    if w.runs:
        t.nontrivial(s)
        t.sample(s)
    t.label("runs %s" % ("0" if not w.runs else "1-3" if w.runs < 4 else ">3"))


BAD = [" buf(10)", " buf(-1)", " buf(nosuch)", " buf()", " buf(1/0)", " buf(1000000)", " buf($FFFFFFFF)", " run()", " wr(nosuch)", ' wr("a",nosuch+1)', ' wr("a',
       ' wr("a" 5)', ' wr("a"+1)', " wr(1/0)", " wr($GG)", ' wr("a",)', " buf(0)) ", " clr())", " buf(later)", ' wr(" .db ",later)']


def faulty(src, t):
    """A faulty buffer statement is diagnosed on its own line, nothing else is; a faulty line of a
    buffer's contents is diagnosed with its line number in the buffer, at the line of the run()."""
    n = src.draw(5)
    good = [' wr(" .db 1")', " buf(3)", " clr()", " nop", "", ' wr(" .db 1")\n run()']
    lines = []
    for _ in range(n):
        lines += src.choice(good).split("\n")
    tail = ["later = 3", " nop"][:src.draw(3)] or ["later = 3"]
    if src.draw(2):
        b = src.choice(BAD)
        if b == " run()":
            lines.append(" buf(7)")
        s = "\n".join(lines + [b] + tail) + "\n"
        r = t.asm(s)
        ds = diags(r)
        at = len(lines) + 1
        if not ds or r.rc == 0:
            raise Violation("'%s' is not diagnosed" % b.strip(), output=r.text()[-600:])
        for d in ds:
            if d.line != at or not d.file.endswith("in.asm"):
                raise Violation("diagnostic not for line %d" % at, output=r.text()[-600:])
        t.label(b.strip())
    else:
        pre = src.draw(4)
        post = src.draw(3)
        b = src.choice([" foo", " ld a,(1/0)", " .nosuch", " .db 1/0", "#nosuch", " ex hl,bc,de", ' .error "x"', " .org nosuch"])
        lines += [" buf(5)"] + [src.choice([' wr(" nop")', ' wr("")', ' wr("; c")', ' wr(" .db 1 \\\\ .db 2")'])] * pre + [" wr(%s)" % string_text(src, b.encode())]
        lines += [' wr(" nop")'] * post
        lines += [""] * src.draw(2) + [" run()"]
        s = "\n".join(lines + tail) + "\n"
        r = t.asm(s)
        ds = diags(r)
        if not ds or r.rc == 0:
            raise Violation("a faulty line of a buffer is not diagnosed", output=r.text()[-600:])
        for d in ds:
            if "fcreate" not in d.file or d.line != pre + 1:
                raise Violation("diagnostic not for line %d of the buffer" % (pre + 1), output=r.text()[-600:])
        if "in.asm:%d: " % len(lines) not in r.text():
            raise Violation("the line of the run() is not named", output=r.text()[-600:])
        t.label("contents")
    t.nontrivial(s)


def parts(tier):
    q = tier == "quick"
    return [("history", history, 14000 if q else 300000), ("faulty", faulty, 2500 if q else 30000)]
