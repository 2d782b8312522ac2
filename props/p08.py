"""P08: conditional assembly against a tree-walking model."""
import re
from core import Discard, Violation, diags, expect_bytes, ok_output
from expr import Env, gen, mixcase, text, valued

PROP = "P08"
TECHNIQUE = "random trees of conditionals with effects and traps in every branch, against a tree-walking model; mutations that unbalance the structure"
NOTE = ("Sampled trees (depth <= 5). Lines whose first word merely begins with a conditional's name (#iffy) are not generated inside "
        "skipped branches; a #comment inside a conditional contains balanced conditionals only.")
RULE = "distinct sources with at least one skipped and one assembled branch"


class M:
    def __init__(self, src, t):
        self.src, self.t = src, t
        self.lines = []         # output lines
        self.exp = bytearray()
        self.defs = {}          # name -> value
        self.consts = {"k1": 1, "k0": 0, "big": 70000}
        self.marks = set()
        self.n = 0
        self.taken = self.skipped = 0
        self.nlab = 0
        self.depth = 0

    def word(self, w):
        return mixcase(self.src, w) if self.src.draw(3) == 0 else w

    def pad(self):
        return self.src.choice(["", "", "", " ", "\t", "   "])

    def tail(self):
        return self.src.choice(["", "", "", " ", " ; note", "\t;#endif"])

    def cond(self, truth):
        src = self.src
        names = list(self.consts.items()) + [(k, v) for k, v in self.defs.items()]
        v = src.choice([1, 1, 2, -1, 256, 0x10000, -32768, 1 << 30]) if truth else 0
        if src.bool(0.5):
            # a comparison or logical operation
            t, val, _ = gen(src, Env(names), depth=1, avg=1.0, maxops=3)
            op = src.choice(["==", "=", "!=", "<", ">", "<=", ">="])
            if truth:
                w = {"==": val, "=": val, "!=": val ^ 1, "<": min(val + 1, 0x7FFFFFFF), ">": max(val - 1, -(1 << 31)), "<=": val, ">=": val}[op]
                if op == "<" and val == 0x7FFFFFFF or op == ">" and val == -(1 << 31):
                    op, w = "==", val
            else:
                w = {"==": val ^ 1, "=": val ^ 1, "!=": val, "<": val, ">": val, "<=": max(val - 1, -(1 << 31)), ">=": min(val + 1, 0x7FFFFFFF)}[op]
                if op == "<=" and val == -(1 << 31) or op == ">=" and val == 0x7FFFFFFF:
                    op, w = "!=", val
            return text(t) + " " + op + " " + ("%d" % w if w >= 0 else "$%X" % (w & 0xFFFFFFFF))
        t, _ = valued(src, v, Env(names), depth=1)
        return text(t)

    def garbage(self):
        src = self.src
        return src.choice([" .db 99", " bogus a,b", ".error \"no\"", "#define d1 7", "#undef d2", "#define d3", "lost%d:" % src.draw(3),
                           " .org $5000", " .db 1000", " jr $+5000", '#include "nofile"', " .db undefinedname", "k1 = 77", "12 + * 4",
                           ' .db "#endif"', " nop ; #endif", "@@@", " .end", "#comment", "#endcomment", "#defcont x", "#macro broken(",
                           "", "  ; comment", " .echo \"no\"", " wr(\"no\")", "#undef big", " ld a,(", "don't", " .db \"open", " .dw 1/0", " .seek 3",
                           " .addinstr NOP \"\" 1234 2 NOP 1", " .option q=1", " .nolist", ") nop", " )", ")", " )) ;", "f(1) .db 1", "a) )", " ld a,(hl))", ")#endif", "#define ) 5", "]", "1 + 2)"])

    def emit(self, live):
        src = self.src
        self.n += 1
        k = src.draw(12)
        if not live and src.bool(0.6):
            self.lines.append(self.garbage())
            return
        if k <= 2:
            self.lines.append(" .dw %d" % self.n)
            if live:
                self.exp += self.n.to_bytes(2, "little")
        elif k <= 4:
            self.lines.append(" .dw __LINE")
            if live:
                self.exp += len(self.lines).to_bytes(2, "little")
        elif k == 5:
            d = "d%d" % src.draw(6)
            v = src.int(0, 3)
            w = src.draw(10)
            if w <= 2:
                self.lines.append("#define " + d)
                v = 1
            elif w == 3:
                self.lines.append(src.choice(["#define %s eval(%d)", "#define %s eval(%d-0)", "#define %s concat(%d)", '#define %s concat("%d")']) % (d, v))
            else:
                self.lines.append("#define %s %d" % (d, v))
            if live:
                self.defs[d] = v
        elif k == 6:
            d = "d%d" % src.draw(6)
            self.lines.append("%s %s" % (self.word(src.choice(["#undef", "#undefine"])), d))
            if live:
                self.defs.pop(d, None)
        elif k == 7:
            self.nlab += 1
            self.lines.append("lab%d%s" % (self.nlab, src.choice([":", "", " = %d" % self.n])))
            if live:
                v = self.n if "=" in self.lines[-1] else len(self.exp)
                self.consts["lab%d" % self.nlab] = v
        elif k == 11 and not live or k == 11 and src.bool(0.4):
            # names that only #ifdef and #ifndef ask about: macros (also empty ones) and function-like defines
            d = "f%d" % src.draw(4)
            z = src.draw(5)
            if z == 4:
                self.lines.append("#undef " + d)
            elif z == 3:
                self.lines.append("#define %s(x)%s" % (d, src.choice([" x+1", " x"])))
            else:
                self.lines += ["#macro %s%s" % (d, src.choice(["", "()", "(x)", "(x,y)"]))] + [[], [" ;"], [" ;", " .db 9"]][z] + ["#endmacro"]
            if live:
                (self.marks.discard if z == 4 else self.marks.add)(d)
        elif k == 8 and self.defs:
            d = src.choice(sorted(self.defs))
            self.lines.append(" .db %s" % d)
            if live:
                self.exp.append(self.defs[d])
        elif k == 9:
            self.lines.append(" nop \\ .db %d \\ inc a" % (self.n & 127))
            if live:
                self.exp += bytes([0, self.n & 127, 0x3C])
        elif live:
            # a skipped comment block
            self.lines.append(self.pad() + self.word("#comment"))
            for _ in src.many(0, 2, 6):
                g = src.choice([self.garbage().replace("#endcomment", ""), "#if 1", "#endif", "#else", " .db 3", "#elif 0", "text"])
                if self.depth and g in ("#if 1", "#endif"):
                    self.lines += ["#if 1", " .db 4", "#endif"]
                else:
                    self.lines.append(g)
            self.lines.append(self.pad() + self.word("#endcomment") + self.tail())

    def block(self, live, depth):
        for _ in self.src.many(0, 2.2, 8):
            if depth > 0 and self.src.draw(3) == 0:
                self.conditional(live, depth - 1)
            else:
                self.emit(live)

    def conditional(self, live, depth):
        src = self.src
        done = False
        first = True
        n = 0
        self.depth += 1
        for _ in src.many(1, 1.8, 5):
            truth = src.draw(2) == 1
            kind = "if" if not first else src.choice(["if", "if", "if", "ifdef", "ifndef"])
            if kind == "if":
                if live and not done:
                    c = self.cond(truth)
                else:
                    c = src.choice(["1", "0", "nosuchname", "1/0", "(", "k1 == 1", "1+"])
                self.lines.append(self.pad() + self.word("#if" if first else "#elif") + src.choice([" ", "\t", "  "]) + c + self.tail())
            else:
                d = "%s%d" % (src.choice("ddf"), src.draw(6))
                truth = (d in self.defs or d in self.marks) == (kind == "ifdef")
                self.lines.append(self.pad() + self.word("#" + kind) + src.choice([" ", "\t", "  "]) + mixcase(src, d) + self.tail())
            on = live and not done and truth
            self.count(on, live)
            self.block(on, depth)
            done = done or truth
            first = False
            n += 1
        if src.bool(0.5):
            self.lines.append(self.pad() + self.word("#else") + self.tail())
            on = live and not done
            self.count(on, live)
            self.block(on, depth)
        self.lines.append(self.pad() + self.word("#endif") + self.tail())
        self.depth -= 1

    def count(self, on, live):
        if on:
            self.taken += 1
        elif live:
            self.skipped += 1


def prologue(m):
    m.lines += ["k1 = 1", "k0 = 0", "big = 70000"]


def tree(src, t):
    m = M(src, t)
    prologue(m)
    args = []
    for _ in range(src.draw(3)):
        # defined on the command line
        d, v = "d%d" % src.draw(6), src.choice([0, 0, 1, 2])
        w = src.draw(3)
        if d in m.defs:
            continue
        args += [["-D" + d], ["-D" + d + "=%d" % v], ["-D", d + "=%d" % v]][w]
        m.defs[d] = v if w else 1
    for _ in src.many(1, 2, 5):
        m.block(True, 4)
        m.conditional(True, 4)
    # what the skipped branches must not have changed
    for d in range(6):
        m.lines += ["#ifdef d%d" % d, " .db d%d" % d, "#else", " .db 200", "#endif"]
        m.exp.append(m.defs.get("d%d" % d, 200))
    m.lines.append(" .db k1,k0 \\ .dl big")
    m.exp += bytes([1, 0]) + (70000).to_bytes(3, "little")
    for k in sorted(m.consts):
        if k.startswith("lab"):
            m.lines.append(" .dw " + k)
            m.exp += (m.consts[k] & 0xFFFF).to_bytes(2, "little")
    fault = src.draw(5) == 4
    if fault:
        m.lines.append(" bogus_instruction")
    s = src.choice(["\n", "\n", "\r\n"]).join(m.lines) + "\n"
    r = t.asm(s, args)
    if fault:
        ds = [d for d in diags(r) if d.kind == "error"]
        if r.rc != 3 or len(ds) != 1 or ds[0].line != len(m.lines):
            raise Violation("the only faulty line is %d, got %r exit %d" % (len(m.lines), diags(r), r.rc))
    else:
        expect_bytes(bytes(m.exp), ok_output(r))
    if m.taken and m.skipped:
        t.nontrivial(s)
        t.sample(s)
    t.label("branches assembled", m.taken)
    t.label("branches skipped", m.skipped)


def in_macro(src, t):
    """Conditionals on parameters inside a macro, invoked several times."""
    m = M(src, t)
    conds = [("p == %d", lambda p, k: p == k), ("p > %d", lambda p, k: p > k), ("p & %d", lambda p, k: p & k), ("%d != p", lambda p, k: p != k)]
    # whether the optional parameter was given
    asks = [("#ifdef q", lambda p, k: q_given[0]), ("#ifndef q", lambda p, k: not q_given[0]), ("#ifdef Q", lambda p, k: q_given[0]), ("#ifndef p", lambda p, k: False)]
    q_given = [False]
    body = []

    def gen_block(depth):
        out = []
        for _ in src.many(0, 1.6, 5):
            if depth and src.draw(2) == 0:
                arms = []
                for _ in src.many(1, 1.7, 4):
                    arms.append((src.choice(conds + (asks if not arms else [])), src.int(0, 4), gen_block(depth - 1)))
                els = gen_block(depth - 1) if src.draw(2) else None
                out.append(("if", arms, els))
            else:
                m.n += 1
                out.append(("db", m.n & 255))
        return out

    def render(b):
        for x in b:
            if x[0] == "db":
                body.append(" .db %d" % x[1])
            else:
                for i, (c, k, bb) in enumerate(x[1]):
                    body.append(c[0] if c[0][0] == "#" else "%s %s" % ("#elif" if i else "#if", c[0] % k))
                    render(bb)
                if x[2] is not None:
                    body.append("#else")
                    render(x[2])
                body.append("#endif")

    def value(b, p, out):
        for x in b:
            if x[0] == "db":
                out.append(x[1])
            else:
                for c, k, bb in x[1]:
                    if c[1](p, k):
                        value(bb, p, out)
                        break
                else:
                    if x[2] is not None:
                        value(x[2], p, out)

    b = gen_block(3)
    render(b)
    lines = ["#macro mm(p,q)", " ;"] + body + ["#endmacro"]
    out = []
    for _ in src.many(1, 3, 8):
        p = src.int(0, 5)
        wrap = src.draw(4)
        if wrap == 3:
            lines += ["#if %d" % src.draw(2)]
            on = lines[-1] == "#if 1"
        q_given[0] = src.draw(2) == 1
        lines.append(" mm(%d%s)" % (p, src.choice([",0", ", 7", ",\"\"", ",\"s\""]) if q_given[0] else ""))
        if wrap == 3:
            lines.append("#endif")
        if wrap != 3 or on:
            value(b, p, out)
    lines.append(" .db 170")
    out.append(170)
    s = "\n".join(lines) + "\n"
    expect_bytes(bytes(out), ok_output(t.asm(s)))
    if any(x[0] == "if" for x in b):
        t.nontrivial(s)
        t.sample(s)


def joined(src, t):
    """Conditionals written on one line with backslashes."""
    lines, out = [], bytearray()

    def arm(on):
        k = src.int(1, 250)
        if on:
            out.append(k)
        return " .db %d" % k

    for _ in src.many(1, 3, 8):
        parts = []
        truth, t2 = src.draw(2), src.draw(2)
        parts.append("#if %d" % truth)
        parts.append(arm(truth))
        done = truth
        if src.draw(2):
            parts.append("#elif %d" % t2)
            parts.append(arm(t2 and not done))
            done = done or t2
        if src.draw(2):
            parts.append("#else")
            parts.append(arm(not done))
        parts.append("#endif")
        for _ in src.many(0, 0.7, 2):
            parts.append(arm(True))
        if src.draw(3):
            lines.append(" \\ ".join(parts))
        else:
            i = src.draw(len(parts))
            lines.append(" \\ ".join(parts[:i + 1]))
            if parts[i + 1:]:
                lines.append(" \\ ".join(parts[i + 1:]))
        lines.append(" .db __LINE")
        out.append(len(lines))
    s = "\n".join(lines) + "\n"
    expect_bytes(bytes(out), ok_output(t.asm(s)))
    t.nontrivial(s)


def unbalanced(src, t):
    m = M(src, t)
    prologue(m)
    for _ in src.many(1, 1.5, 3):
        m.block(True, 3)
        m.conditional(True, 3)
    m.block(True, 0)
    k = src.draw(2)
    lines = list(m.lines)
    if any(re.match(r"\s*#(end)?comment", x, re.I) for x in lines):
        # comment blocks hide directives from the structure; keep the mutation unambiguous
        # removing the markers would expose their bodies: only use cases without them
        raise Discard("comment block")
    if k == 0:
        ends = [i for i, x in enumerate(lines) if re.match(r"\s*#endif", x, re.I)]
        del lines[src.choice(ends)]
        at = None
    else:
        # positions outside every conditional
        depth, spots, inside = 0, [], False
        for i, x in enumerate(lines):
            if depth == 0 and not inside:
                spots.append(i)
            # the body of a macro is not looked at before it is invoked (none is)
            inside = (inside or x.startswith("#macro f")) and x != "#endmacro"
            if re.match(r"\s*#if", x, re.I):
                depth += 1
            elif re.match(r"\s*#endif", x, re.I):
                depth -= 1
        spots.append(len(lines))
        at = src.choice(spots)
        lines.insert(at, src.choice(["#endif", "#else", "#elif 1", " #ENDIF", "#elif 0"]))
    s = "\n".join(lines) + "\n"
    r = t.asm(s)
    errs = [d for d in diags(r) if d.kind == "error"]
    if r.rc == 0 or not errs or r.files["out.bin"] is not None:
        raise Violation("unbalanced conditionals accepted (%s): exit %d, %r" % ("missing #endif" if at is None else "stray on line %d" % (at + 1), r.rc, diags(r)))
    if at is not None and not any(d.line == at + 1 for d in errs):
        raise Violation("stray conditional on line %d reported elsewhere: %r" % (at + 1, errs))
    t.nontrivial(s)
    t.label("missing #endif" if at is None else "stray")


def deep(src, t):
    """Conditionals nested up to 60 deep, in taken and in skipped branches (also inside skipped macros and comments)."""
    lines, out = [], []
    stack = []      # [taken so far, active here, has else]
    live = lambda: all(x[1] for x in stack)
    n = 0

    def emit():
        lines.append(" .db %d" % (len(out) * 7 + len(lines) & 255))
        if live():
            out.append(int(lines[-1][5:]))

    depth = src.int(8, 60)
    lo = src.draw(3)            # 0: mostly taken, 1: mixed, 2: mostly skipped
    for _ in range(src.int(1, 3)):
        while len(stack) < depth:
            v = [1, src.draw(2), 0][lo] if src.draw(10) else src.draw(2)
            w = src.draw(4)
            if w == 0:
                lines.append("#ifdef " + ("yes" if v else "no"))
            elif w == 1:
                lines.append("#ifndef " + ("no" if v else "yes"))
            else:
                lines.append("#if " + ("1" if v else "0"))
            stack.append([bool(v), bool(v), False])
            if src.draw(3) == 0:
                emit()
        stop = src.int(0, depth)
        while len(stack) > stop:
            if src.draw(4) == 0 and not stack[-1][2]:
                x = stack[-1]
                w = src.draw(3)
                if w:
                    v = w == 2
                    lines.append("#elif %d" % v)
                    x[1] = v and not x[0]
                    x[0] = x[0] or v
                else:
                    lines.append("#else")
                    x[1] = not x[0]
                    x[0] = x[2] = True
                emit()
            else:
                stack.pop()
                lines.append("#endif")
                if src.draw(3) == 0:
                    emit()
    while stack:
        stack.pop()
        lines.append("#endif")
    emit()
    s = "#define yes\n" + "\n".join(lines) + "\n"
    expect_bytes(bytes(out), ok_output(t.asm(s)))
    t.nontrivial(s)


def second_else(t):
    """Known finding: a second #else (or an #elif after #else) of one #if is not diagnosed."""
    r = t.asm("#if 1\n .db 1\n#else\n .db 2\n#else\n .db 3\n#endif\n")
    return r.rc == 0


FINDINGS = {"second-else": second_else}


def parts(tier):
    q = tier == "quick"
    return [("tree", tree, 9000 if q else 250000), ("in_macro", in_macro, 3000 if q else 80000), ("deep", deep, 800 if q else 20000),
            ("joined", joined, 1500 if q else 30000),
            ("unbalanced", unbalanced, 3000 if q else 80000)]
