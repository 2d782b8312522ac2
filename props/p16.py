"""P16: the symbol table file against a model of the program's symbols."""
import re
from core import Violation, Discard, alive, diags, expect_bytes
from expr import Env, apply_op, gen, i32, lit, mixcase, text, valued
from p06 import program, label_table, merge
from prog import RESERVED, gen_name

PROP = "P16"
TECHNIQUE = "random histories of labels, equates, defines, redefinitions and undefinitions against a map model; the .lab file is parsed and compared entry by entry and with the values the output bytes have"
NOTE = "A redefined define does not refer to symbols (labels in it are bound early). Up to 60 symbols per case (400 in the 'many' part); defines whose contents are neither plainly numeric nor plainly not an expression are not generated."
RULE = "distinct sources with at least three symbols in the table"
BUILTIN = {"__BM_MSK_RGB": 0xFF00, "__BM_SHD": 2, "FALSE": 0, "SPASM": 1, "SPASMVER": 2, "TRUE": 1}
WORDS = ["foo", "bar", "Foo2", "a", "b", "z", "x.y", "a_b", "a!", "ab", "aB1", "zz", "_q", "m1", "m10", "m2", "Q", "t[1]", "e?", "L_", "lab", "LAB2"]


class Model:
    """Text and meaning of a symbol history."""
    def __init__(self, src, case):
        self.src, self.case = src, case
        self.labels = {}      # key -> [name, value]
        self.defs = {}        # key -> [name, ("num", fn)|("text",)]
        self.lines = []
        self.pc = 0
        self.out = bytearray()
        self.warn = False

    def key(self, n):
        return n if self.case else n.upper()

    def pick(self):
        src = self.src
        n = src.choice(WORDS)
        if src.bool(0.3):
            n += "%d" % src.draw(4)
        if src.bool(0.3):
            n = mixcase(src, n)
        if n.upper() in RESERVED:
            n += "_"
        return n

    def value(self):
        src = self.src
        k = src.draw(5)
        return src.int(0, 300) if k < 2 else src.int(0, 65535) if k == 2 else i32(src.int(0, 0xFFFFFFFF)) if k == 3 else -src.int(1, 40000)

    def numeric(self, k):
        """Final value of a define, or None."""
        d = self.defs[k]
        if d[1] is None:
            return None
        kind, v = d[1]
        if kind == "num":
            return v
        base, op, c = v                   # contents 'base op c'
        b = self.final(base)
        return None if b is None else apply_op(op, b, c)

    def final(self, n, depth=0):
        k = self.key(n)
        if k in self.labels:
            return self.labels[k][1]
        if k in self.defs:
            return self.numeric(k)
        return None

    def step(self):
        src = self.src
        n = self.pick()
        k = self.key(n)
        w = src.draw(12)
        if w <= 2:
            if k in self.labels or k in self.defs:
                return
            self.lines.append(n + (":" if src.draw(2) else ""))
            self.labels[k] = [n, self.pc]
        elif w <= 5:
            if k in self.defs or k in self.labels and src.draw(2):
                return
            v = self.value()
            names = [(x[0], x[1]) for x in self.labels.values() if self.key(x[0]) != k]
            t, _ = valued(src, v, Env(names, self.pc), depth=1)
            if k in self.labels:
                if self.labels[k][1] != self.pc:
                    self.warn = True
                self.labels[k][1] = v
            else:
                self.labels[k] = [n, v]
            self.lines.append(n + (":" if src.draw(3) == 0 else "") + src.choice([" = ", " .equ ", "=", "\t.EQU\t"]) + text(t))
        elif w <= 8:
            if k in self.labels:
                return
            if k in self.defs and self.defs[k][0] is not None:
                n = self.defs[k][0]
            z = src.draw(6)
            if z <= 2:
                v = self.value()
                t, _ = valued(src, v, Env([(x[0], x[1]) for x in self.labels.values()] if z == 2 and src.draw(2) and False else []), depth=1)
                self.lines.append("#define %s %s" % (n, text(t)))
                new = ("num", v)
            elif z == 3:
                self.lines.append("#define %s" % n)
                new = ("num", 1)
            elif z == 4 and k not in self.defs:
                base = src.choice([x[0] for x in self.labels.values()] or ["nosuch"])
                if src.draw(4) == 0:
                    base = "never_defined"
                op, c = src.choice(["+", "-", "*", "&", "^"]), src.int(1, 300)
                self.lines.append("#define %s %s%s%d" % (n, base, op, c))
                new = ("ref", (base, op, c))
            else:
                self.lines.append(src.choice(["#define %s(p) 5", "#define %s(p,q) p+q", "#define %s ld a,b", "#define %s +", "#define %s 5 5", "#define %s )",
                                              "#define %s 1/0", "#macro %s\n ;\n nop\n#endmacro", "#macro %s(u)\n ;\n nop\n#endmacro"]) % n)
                new = None
            self.defs[k] = [n, new]
        elif w == 9:
            if k in self.defs and src.draw(4):
                pass
            elif self.defs and src.draw(4):
                k = src.choice(sorted(self.defs))
                n = self.defs[k][0]
            elif k in self.labels:
                return
            self.lines.append("#undef " + (n if self.case else mixcase(src, n)))
            self.defs.pop(k, None)
        elif w == 10:
            c = src.int(0, 40)
            if src.draw(3) == 0:
                self.pc = src.int(0, 0x1FFFF)
                self.lines.append(" .org %d" % self.pc)
            self.lines.append(" .fill %d" % c)
            self.out += bytes(c)
            self.pc += c
        else:
            # symbols that must not appear: skipped, macro parameters, local anonymous labels
            z = src.draw(4)
            if z == 0:
                self.lines += ["#if 0", "skipped_%d: .equ 5" % len(self.lines), "#define skipd_%d 4" % len(self.lines), "#endif"]
            elif z == 1:
                m = "mac_%d" % len(self.lines)
                self.lines += ["#macro %s(par_a,par_b)" % m, " ;", " .db par_a,par_b", "#endmacro", " %s(1,2)" % m]
                self.out += bytes([1, 2])
                self.pc += 2
                self.defs[self.key(m)] = [m, None]
            elif z == 2:
                self.lines.append("_")
            else:
                self.lines.append("; ghost: = 5")

    def table(self):
        """name -> 32-bit value"""
        r = {}
        for n, v in self.labels.values():
            r[n if self.case else n.upper()] = v & 0xFFFFFFFF
        for k, (n, d) in self.defs.items():
            v = self.numeric(k)
            if v is not None:
                r[n if self.case else n.upper()] = v & 0xFFFFFFFF
        return r


def parse_lab(d):
    ents = []
    txt = d.decode("latin-1")
    if txt and not txt.endswith("\n"):
        raise Violation("last line of the symbol table is incomplete: %r" % txt[-60:])
    for l in txt.split("\n")[:-1]:
        m = re.match(r"^(\S+) = \$([0-9A-F]{4,8})$", l)
        if not m:
            raise Violation("malformed symbol table line %r" % l)
        if len(m.group(2)) > 4 and m.group(2)[0] == "0":
            raise Violation("malformed value %r" % l)
        ents.append((m.group(1), int(m.group(2), 16)))
    return ents


def compare(table, lab):
    ents = parse_lab(lab)
    names = [n for n, _ in ents]
    low = [n.lower() for n in names]
    if low != sorted(low):
        i = next(i for i in range(len(low) - 1) if low[i] > low[i + 1])
        raise Violation("symbol table not in order: %s before %s" % (names[i], names[i + 1]))
    if len(set(names)) != len(names):
        raise Violation("symbol listed twice: %r" % [n for n in names if names.count(n) > 1][:4])
    got = dict(ents)
    if "__LINE" not in got:
        raise Violation("__LINE missing")
    del got["__LINE"]
    if got != table:
        d = {k: (table.get(k), got.get(k)) for k in set(table) | set(got) if table.get(k) != got.get(k)}
        raise Violation("symbol table differs (expected, listed): %r" % sorted(d.items())[:6])


def finish(src, t, m, args=()):
    tab = m.table()
    # the values the output bytes use
    names = sorted(tab)
    lines = list(m.lines)
    exp = bytearray(m.out)
    for i in range(0, len(names), 4):
        lines.append(" .dl " + ", ".join(names[i:i + 4]))
        for n in names[i:i + 4]:
            exp += (tab[n] & 0xFFFFFF).to_bytes(3, "little")
    tab.update(BUILTIN)
    extra = src.sample(["-T", "-S", "-O"], src.draw(3) if src.draw(3) == 0 else 0)
    s = "\n".join(lines) + "\n"
    out = src.choice(["out.bin", "sub/o.rom", "x.y.hex", "noext"])
    lab = {"out.bin": "out.lab", "sub/o.rom": "sub/o.lab", "x.y.hex": "x.y.lab", "noext": "noext.lab"}[out]
    r = t.run({"in.asm": s, "sub/k": ""}, ["-N", "-L"] + list(args) + extra + ["in.asm", out], want=(out, lab))
    alive(r)
    errs = [d for d in diags(r) if d.kind == "error"]
    if errs or r.rc != (1 if m.warn else 0):
        raise Violation("valid program: exit %d %r" % (r.rc, errs[:3]), output=r.text()[-800:])
    if r.files[lab] is None:
        raise Violation("no symbol table file %s" % lab)
    compare(tab, r.files[lab])
    if out == "out.bin" and "-O" not in extra:
        expect_bytes(bytes(exp), r.files[out])
    if len(names) >= 3:
        t.nontrivial(s)
        t.sample(s)


def history(src, t):
    case = src.draw(3) == 0
    m = Model(src, case)
    args = ["-A"] if case else []
    for _ in src.many(0, 0.4, 3):
        n = m.pick()
        if m.key(n) in m.defs:
            continue
        v = src.choice([src.int(0, 70000), src.int(0, 70000), -src.int(1, 70000)])
        z = src.draw(3)
        args += (["-D" + n], ["-D%s=%d" % (n, v)], ["-D", "%s=%d" % (n, v)])[z]
        m.defs[m.key(n)] = [n, ("num", 1 if z == 0 else v)]
    if case and src.draw(2):
        args = args[1:] + args[:1]
    for _ in src.many(2, 14, 60):
        m.step()
    finish(src, t, m, args)


def many(src, t):
    """Hundreds of symbols: table growth, insertion order, equal prefixes."""
    m = Model(src, False)
    n = src.int(50, 400)
    for i in range(n):
        nm = "s%s%d" % ("aBc_"[src.draw(4)], src.draw(100000))
        if nm.upper() in m.labels or nm.upper() in m.defs:
            continue
        v = i * 7 + src.draw(5)
        if src.draw(2):
            m.lines.append("%s = %d" % (nm, v))
            m.labels[nm.upper()] = [nm, v]
        else:
            m.lines.append("#define %s %d" % (nm, v))
            m.defs[nm.upper()] = [nm, ("num", v)]
        if m.defs and src.draw(8) == 7:
            k = src.choice(sorted(m.defs))
            m.lines.append("#undef " + k.lower())
            del m.defs[k]
    finish(src, t, m)


def programs(src, t):
    """Symbols of whole programs (forward references, origins, instructions)."""
    p = program(src, n=14)
    l, b = label_table(p)
    s = "\n".join(p.lines() + l) + "\n"
    r = t.run({"in.asm": s}, ["-N", "-L", "in.asm", "out.bin"], want=("out.bin", "out.lab"))
    alive(r)
    if r.rc or r.files["out.lab"] is None:
        raise Violation("exit %d" % r.rc, output=r.text()[-600:])
    expect_bytes(merge(p, b), r.files["out.bin"])
    tab = {n.upper(): v & 0xFFFFFFFF for n, v in p.final.items()}
    tab.update(BUILTIN)
    compare(tab, r.files["out.lab"])
    if len(p.final) >= 3:
        t.nontrivial(s)


def parts(tier):
    q = tier == "quick"
    return [("history", history, 8000 if q else 200000), ("many", many, 400 if q else 8000), ("programs", programs, 3000 if q else 60000)]
