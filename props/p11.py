"""P11: symbol histories against a map model."""
import os, re
from core import Violation, Discard, alive, diags, expect_bytes
from expr import i32, mixcase
from prog import RESERVED

PROP = "P11"
TECHNIQUE = "random histories of symbol operations and lookups (small colliding name pools, pools of thousands, -A, -D) against a map model; every lookup is observed in the bytes, every undefined name and conflict by its diagnostic"
NOTE = ("Sampled histories, up to 60 operations on about 20 names and up to 6000 on large pools. An equate that refers to its own previous value is a known finding and not generated. "
        "How often a changed label is warned about is not judged, only that no error is reported.")
RULE = "distinct histories in which at least one looked-up name was redefined, undefined, shares its letters with another or is undefined"
LIMIT = 4000
POOL = ["foo", "Foo", "FOO", "fOO", "foo1", "foo10", "fo", "bar", "BAR", "ba", "x", "X", "xx", "y_", "_y", "Y_", "n!", "n?", "t[1]", "t[10]", "q.r", "Q.R", "a_very_long_name", "a_very_long_namE", "a_very_long_name_"]


class H:
    def __init__(self, src, case, pool):
        self.src, self.case, self.pool = src, case, pool
        self.tab = {}           # key -> ["label"|"num"|"ref"|"odd", value]
        self.hist = {}          # key -> number of changes
        self.lines = []
        self.out = bytearray()
        self.late = []          # (offset, size, function of the final table)
        self.reflines = set()   # lines of defines that refer to others: errors in them may be located there
        self.undefined = set()  # lines that must be diagnosed
        self.pc = 0
        self.rank = {}
        self.warned = False
        self.conflicts = []
        self.interesting = False

    def key(self, n):
        return n if self.case else n.encode().upper().decode() if n.isascii() else n

    def name(self, k=None):
        """A name, in the spelling of its key or another that means the same."""
        src = self.src
        n = src.choice(self.pool) if k is None else k
        if not self.case and n.isascii() and src.draw(3) == 0:
            n = mixcase(src, n)
        return n

    def get(self, n):
        """(base, function) with base None when the value is known: chains of references are followed as text."""
        k = self.key(n)
        e = self.tab.get(k)
        if e is None:
            return n, lambda v: v
        if e[0] == "ref":
            b, op, c = e[1]
            base, f = self.get(b)
            ap = {"+": lambda v: i32(v + c), "-": lambda v: i32(v - c), "*": lambda v: i32(v * c), "^": lambda v: i32(v ^ c)}[op]
            return base, lambda v, f=f: ap(f(v))
        if e[0] == "odd":
            return "", None
        return None, lambda v, x=e[1]: x

    def val(self):
        src = self.src
        k = src.draw(5)
        return src.int(0, 300) if k < 2 else src.int(0, 65535) if k == 2 else i32(src.int(0, 0xFFFFFFFF)) if k == 3 else -src.int(1, 40000)

    def num(self, v):
        if v < 0:
            return "-%d" % -v if v != -(1 << 31) else "$80000000"
        return self.src.choice(["%d", "$%X", "0%XH"]) % v

    def emit(self, size, deps, f):
        """size bytes of f(value of deps) - known now or patched in at the end."""
        base, g = deps
        if base is None:
            self.out += (f(g(None)) & 0xFFFFFFFF).to_bytes(4, "little")[:size]
        else:
            self.late.append((len(self.out), size, base, lambda v: f(g(v)), len(self.lines)))
            self.out += bytes(size)
        self.pc += size

    def lookup(self):
        src = self.src
        n = self.name()
        if src.draw(4) and self.tab:
            n = self.name(src.choice(sorted(self.tab)))
        d = self.get(n)
        if d[1] is None:
            return
        k = self.key(n)
        if self.hist.get(k, 0) > 1 or d[0] is not None or k not in self.tab:
            self.interesting = True
        w = src.draw(8)
        if w <= 2:
            self.lines.append(" .db " + n + ">>24&255")
            self.emit(1, d, lambda v: v >> 24 & 255)
            self.lines.append(" .dl " + n)
            self.emit(3, d, lambda v: v)
        elif w == 3:
            self.lines.append(" ld hl," + n)
            self.out.append(0x21)
            self.pc += 1
            self.emit(2, d, lambda v: v)
        elif w == 4:
            self.lines.append(" .dw 7+%s, 9" % n)
            self.emit(2, d, lambda v: 7 + v)
            self.emit(2, (None, lambda v: 9), lambda v: v)
        elif w == 5 and d[0] is None:
            v = d[1](None)
            z = src.draw(2)
            self.lines += ["#if %s == %s" % (n, self.num(v) if z else self.num(i32(v + 1))), " .db 1", "#else", " .db 2", "#endif"]
            self.out.append(1 if z else 2)
            self.pc += 1
        elif w == 6:
            e = self.tab.get(self.key(n))
            z = src.draw(2)
            self.lines += [["#ifndef ", "#ifdef "][z] + n, " .db 3", "#else", " .db 4", "#endif"]
            self.out.append(3 if bool(e and e[0] != "label") == bool(z) else 4)
            self.pc += 1
        elif d[0] is None:
            v = d[1](None) & 31
            self.lines.append(" .fill %s&31, 255" % n)
            self.out += b"\xff" * v
            self.pc += v

    def change(self, k):
        self.hist[k] = self.hist.get(k, 0) + 1

    def step(self):
        src = self.src
        w = src.draw(12)
        if w <= 4:
            return self.lookup()
        n = self.name()
        k = self.key(n)
        if k.upper() in RESERVED:
            return
        e = self.tab.get(k)
        if w == 5:
            if e and (e[0] != "label" or src.draw(2)):
                return
            self.lines.append(n + src.choice([":", ""]))
            self.tab[k] = ["label", self.pc]
            self.change(k)
        elif w <= 7:
            if e and e[0] != "label":
                return
            v = self.val()
            ops = [(x, y[1]) for x, y in self.tab.items() if y[0] in ("label", "num") and x != k]
            if ops and src.draw(3) == 0:
                o, ov = src.choice(sorted(ops))
                self.lines.append("%s = %s%s%s" % (n, self.name(o), "+", "$%X" % (v - ov & 0xFFFFFFFF)))
            else:
                self.lines.append(n + src.choice([" = ", "=", " .equ ", ": .EQU "]) + self.num(v))
            self.tab[k] = ["label", v]
            self.change(k)
        elif w <= 10:
            if e and e[0] == "label":
                return
            z = src.draw(8)
            if z <= 3:
                v = self.val()
                self.lines.append("#define %s %s" % (n, self.num(v)))
                new = ["num", v]
            elif z == 4 and e and e[0] == "num":
                c = src.int(1, 500)
                self.lines.append("#define %s %s+%d" % (n, self.name(k), c))
                new = ["num", i32(e[1] + c)]
            elif z == 5:
                self.lines.append("#define " + n)
                new = ["num", 1]
            elif z == 6 and e is None:
                self.rank.setdefault(k, len(self.rank))
                b = self.name()
                kb = self.key(b)
                if kb.upper() in RESERVED:
                    return
                self.rank.setdefault(kb, len(self.rank))
                if self.rank[kb] >= self.rank[k] or self.tab.get(kb, "?")[0] == "odd":
                    return
                op, c = src.choice("+-*^"), src.int(1, 300)
                self.lines.append("#define %s %s%s%d" % (n, b, " ^ " if op == "^" else op, c))
                new = ["ref", (b, op, c)]
                self.reflines.add(len(self.lines))
            elif z == 7 and e is None and not any(self.key(x[2]) == k for x in self.late) and not any(y[0] == "ref" and self.key(y[1][0]) == k for y in self.tab.values()):
                self.lines += ["#macro %s(u,%s)" % (n, self.name()), " ;", " nop", "#endmacro"]
                new = ["odd", None]
            else:
                return
            self.tab[k] = new
            self.change(k)
        else:
            if self.tab and src.draw(4):
                k = src.choice(sorted(self.tab))
                n = self.name(k)
                e = self.tab[k]
            self.lines.append(src.choice(["#undef ", "#undefine "]) + n)
            if e and e[0] != "label":
                del self.tab[k]
                self.change(k)

    def finish(self):
        for off, size, base, f, line in self.late:
            b, g = self.get(base)
            if b is None:
                self.out[off:off + size] = (f(g(None)) & 0xFFFFFFFF).to_bytes(4, "little")[:size]
            else:
                self.undefined.add(line)


def judge(t, h, args):
    h.finish()
    s = "\n".join(h.lines) + "\n"
    r = t.asm(s, args)
    errs = [d for d in diags(r) if d.kind == "error"]
    warn = [d for d in diags(r) if d.kind != "error" and "redefinition" not in d.msg and "previous definition" not in d.msg]
    if warn:
        raise Violation("unexpected diagnostics %r" % warn[:3])
    got = {d.line for d in errs} - h.reflines
    seen = {int(x) for x in re.findall(r"(?m)^in\.asm:(\d+): ", r.text())}
    if not got <= h.undefined or not h.undefined <= seen or any(d.file != "in.asm" or d.code != "SE106" for d in errs):
        raise Violation("errors at lines %s, undefined names are at lines %s; %r" % (sorted(got - h.undefined), sorted(h.undefined - got), errs[:3]))
    if r.rc not in ((2,) if errs else (0, 1)) or r.files["out.bin"] is None:
        raise Violation("exit %d" % r.rc, output=r.text()[-600:])
    # bytes of the undefined lines are not judged
    got = bytearray(r.files["out.bin"])
    if len(got) == len(h.out):
        for off, size, base, f, line in h.late:
            if line in h.undefined:
                got[off:off + size] = h.out[off:off + size]
    expect_bytes(bytes(h.out), bytes(got))
    return s


def cmdline(src, h):
    args = []
    for _ in src.many(0, 0.5, 4):
        n = h.name()
        if h.key(n).upper() in RESERVED:
            continue
        v = h.val()
        z = src.draw(4)
        args += (["-D" + n], ["-D%s=%d" % (n, v)], ["-D", "%s=%d" % (n, v)], ["-D", n])[z]
        h.tab[h.key(n)] = ["num", 1 if z in (0, 3) else v]
        h.change(h.key(n))
    if h.case:
        i = src.draw(3)
        args = (["-A"] + args, args + ["-A"], ["-A"] + args)[i]
    return args


def history(src, t):
    pool = src.sample(POOL, src.int(3, 14))
    h = H(src, src.draw(3) == 0, pool)
    args = cmdline(src, h)
    for _ in src.many(4, 24, 60):
        h.step()
    for n in pool:
        if src.draw(2):
            d = h.get(n)
            if d[1]:
                h.lines.append(" .dl " + n)
                h.emit(3, d, lambda v: v)
    s = judge(t, h, args)
    if h.interesting:
        t.nontrivial(s + repr(args))
        t.sample(s)
    for k in h.tab.values():
        t.label(k[0])


def inmacro(src, t):
    """Operations made by macro bodies, with parameters in force, have the same effect as in the open."""
    pool = src.sample(POOL, src.int(3, 9))
    h = H(src, src.draw(2) == 0, pool)
    args = cmdline(src, h)
    groups, top, n = [], [], 0
    for _ in range(src.int(1, 5)):
        at = len(h.lines)
        for _ in src.many(1, 6, 15):
            h.step()
        seg = h.lines[at:]
        del h.lines[at:]
        if src.draw(3) and not any("#macro" in l for l in seg):
            n += 1
            ps = ["par%d" % i for i in range(src.draw(3))]
            if ps and src.draw(2):
                # one of the numbers travels through a parameter
                for i, l in enumerate(seg):
                    m = re.match(r"(#define \S+|\S+ =) (\d+)$", l)
                    if m:
                        seg[i] = m.group(1) + " " + ps[0]
                        if l[0] == "#" and src.draw(2) == 0:
                            seg[i] = l
                            break
                        if l[0] == "#":
                            seg[i] = l          # a define keeps its text, and the parameter ends with the call
                            break
                        vals = [m.group(2)] + ["0"] * (len(ps) - 1)
                        break
                else:
                    vals = ["0"] * len(ps)
                if not any(" " + ps[0] in l for l in seg):
                    vals = ["0"] * len(ps)
            else:
                vals = [str(src.draw(9)) for _ in ps]
            name = "mcr%d" % n
            groups += ["#macro %s%s" % (name, "(" + ",".join(ps) + ")" if ps else ""), " ;"] + seg + ["#endmacro"]
            h.lines.append(" %s%s" % (name, "(" + ",".join(vals) + ")" if ps else ""))
        else:
            h.lines += seg
    for nm in pool:
        d = h.get(nm)
        if d[1] and src.draw(2):
            h.lines.append(" .dl " + nm)
            h.emit(3, d, lambda v: v)
    h.finish()
    if h.undefined:
        raise Discard("undefined")
    s = "\n".join(groups + h.lines) + "\n"
    r = t.asm(s, args)
    ds = [d for d in diags(r) if "redefinition" not in d.msg and "previous definition" not in d.msg]
    if ds or r.rc > 1:
        raise Violation("diagnosed: exit %d, %r" % (r.rc, ds[:3]), output=r.text()[-600:])
    expect_bytes(bytes(h.out), r.files["out.bin"])
    if n:
        t.nontrivial(s + repr(args))
        t.label("with -A" if h.case else "without -A")


def grow(src, t):
    """Definitions that are extended from their own previous contents, up to thousands of characters."""
    case = src.draw(3) == 0
    n = src.int(1, 3)
    names = src.sample(["x", "List", "acc_", "TAB", "text"], n)
    kinds = [src.choice(["list", "sum", "string"]) for _ in names]
    state, lines, out, longest = {}, [], bytearray(), 0
    width = src.choice([1, 3, 5, 20, 70])
    for _ in src.many(3, src.choice([8, 40, 120]), 400):
        i = src.draw(n)
        nm, k = names[i], kinds[i]
        use = nm if case else mixcase(src, nm)
        tail = {"list": ",%0*d" % (width, src.draw(256)), "sum": "+%0*d" % (width, src.draw(256)), "string": ',"%s"' % "".join(src.choice("abcXYZ ,+") for _ in range(1 + src.draw(width + 1)))}[k]
        cur = state.get(nm)
        w = src.draw(12)
        if cur is None:
            lines.append("#define %s %s" % (use, tail[1:]))
            state[nm] = [tail[1:]]
        elif w == 0:
            lines.append("#undef " + use)
            del state[nm]
        elif w == 1:
            if k == "sum":
                lines.append(" .dl " + use)
                out += (sum(int(x) for x in cur)).to_bytes(3, "little")
            else:
                lines.append(" .db " + use)
                for x in cur:
                    out += x[1:-1].encode() if x[0] == '"' else bytes([int(x)])
        else:
            if len(use) + sum(len(x) + 1 for x in cur) + len(tail) > LIMIT:
                continue
            front = w == 2
            lines.append("#define %s %s" % (use, tail[1:] + tail[0] + use if front else use + tail))
            if front:
                cur.insert(0, tail[1:])
            else:
                cur.append(tail[1:])
            longest = max(longest, sum(len(x) + 1 for x in cur))
    for nm in names:
        cur = state.get(nm)
        if cur:
            if kinds[names.index(nm)] == "sum":
                lines.append(" .dl " + nm)
                out += (sum(int(x) for x in cur)).to_bytes(3, "little")
            else:
                lines.append(" .db " + nm)
                for x in cur:
                    out += x[1:-1].encode() if x[0] == '"' else bytes([int(x)])
    s = "\n".join(lines) + "\n"
    r = t.asm(s, ["-A"] if case else [])
    ds = [d for d in diags(r) if "redefinition" not in d.msg and "previous definition" not in d.msg]
    if ds or r.rc > 1:
        raise Violation("diagnosed: exit %d, %r" % (r.rc, ds[:3]), output=r.text()[-600:])
    expect_bytes(bytes(out), r.files["out.bin"])
    if longest > 20:
        t.nontrivial(s)
    t.label("longest >%d" % (longest // 250 * 250))


def large(src, t):
    """Thousands of names with common prefixes; all are looked up at the end."""
    case = src.draw(2) == 1
    n = src.int(300, 3000)
    pre = src.choice(["l", "label_", "x" * 40, "A", "_"])
    fmt = src.choice(["%d", "%05d", "%x", "%dend", "%s"])
    pool = [pre + (fmt % i if fmt != "%s" else "".join("aAbB"[i >> 2 * j & 3] for j in range(6))) for i in range(n)]
    h = H(src, case, pool)
    args = ["-A"] if case else []
    step = src.int(1, 9)
    for i in range(n):
        nm = pool[i * step % n]
        k = h.key(nm)
        e = h.tab.get(k)
        if k.upper() in RESERVED:
            continue
        if e is None:
            z = i % 3
            v = i * 2654435761 % 1000003
            if z == 0:
                h.lines.append("#define %s %d" % (nm, v))
                h.tab[k] = ["num", v]
            elif z == 1:
                h.lines.append("%s = %d" % (nm, v))
                h.tab[k] = ["label", v]
            else:
                h.lines.append(nm + ":")
                h.tab[k] = ["label", h.pc]
                h.lines.append(" nop")
                h.out.append(0)
                h.pc += 1
        elif e[0] == "num":
            if src.draw(2):
                h.lines.append("#undef " + nm)
                del h.tab[k]
            else:
                h.lines.append("#define %s %d" % (nm, i))
                h.tab[k] = ["num", i]
        if i % 8 == 7:
            nm = pool[src.draw(n)]
            if h.key(nm).upper() not in RESERVED:
                h.lines.append(" .dl " + nm)
                h.emit(3, h.get(nm), lambda v: v)
        if i % 64 == 63 and src.draw(2):
            ds = sorted(k for k, e in h.tab.items() if e[0] == "num")
            if ds:
                k = src.choice(ds)
                h.lines.append("#undef " + k)
                del h.tab[k]
    for nm in pool[::src.int(1, 3)]:
        if h.key(nm).upper() not in RESERVED:
            h.lines.append(" .dl " + nm)
            h.emit(3, h.get(nm), lambda v: v)
    t.nontrivial(judge(t, h, args))


def conflict(src, t):
    """A label and a define of the same name: the later one is diagnosed, wherever and however often."""
    h = H(src, src.draw(3) == 0, src.sample(POOL, src.int(4, 12)))
    args = cmdline(src, h)
    bad = set()
    for _ in src.many(4, 14, 40):
        if src.draw(4) == 0 and h.tab:
            k = src.choice(sorted(h.tab))
            n = h.name(k)
            if h.tab[k][0] == "label":
                h.lines.append("#define " + n + src.choice(["", " 5", " a b", "(x) x"]))
            else:
                h.lines.append(n + src.choice([":", "", " = 5", " .equ 7", ": nop" if False else ":"]))
            bad.add(len(h.lines))
        else:
            h.step()
    if not bad:
        raise Discard("no conflict")
    h.finish()
    s = "\n".join(h.lines) + "\n"
    r = t.asm(s, args)
    alive(r)
    got = {d.line for d in diags(r) if d.kind == "error" and "conflicting" in d.msg}
    other = [d for d in diags(r) if d.kind == "error" and "conflicting" not in d.msg and "previous definition" not in d.msg
             and d.code != "SE106" and not (d.code == "SE114" and d.line in bad)]
    if got != bad:
        raise Violation("conflicting definitions on lines %s, diagnosed on %s" % (sorted(bad), sorted(got)))
    if other:
        raise Violation("other errors: %r" % other[:3])
    if r.rc < 2:
        raise Violation("conflict accepted: exit %d" % r.rc)
    t.nontrivial(s)


def dline(src, t):
    """-D against #define at the start of the source."""
    defs, args = [], []
    names = src.sample(["foo", "Bar", "baz9", "q_", "CFG"], src.int(1, 4))
    for n in names:
        v = src.choice(["", "=5", "=-3", "=$1F", "=1+2*3", "=later+1", "=%s" % names[0] if n != names[0] else "=7", '="a,b"', "=(4)", "='x'", "=%101", "=1==1", "=a", "=1,2", '="x y"'])
        w = src.draw(2)
        args += ["-D" + n + v] if w else ["-D", n + v]
        defs.append("#define " + n + (" " + v[1:] if v else ""))
    body = []
    for _ in src.many(1, 6, 20):
        n = src.choice(names)
        n = mixcase(src, n) if "-A" not in args else n
        body.append(src.choice([" .db %s", " .dw %s", " .dl %s,1", " ld hl,%s", "#ifdef %s\n .db 9\n#endif", "#if %s\n .db 8\n#else\n .db 7\n#endif", " ld %s,b", "#undef %s", "#define %s 77", "#define %s"]) % n)
    case = src.draw(3) == 0
    if case:
        args.insert(src.draw(1), "-A")
    body.append("later = 40")
    a = "\n".join(body) + "\n"
    ra = t.asm(a, args)
    b = "\n".join(defs + body) + "\n"
    rb = t.asm(b, ["-A"] if case else [])
    sa = [(d.kind, d.code, max(d.line or 0, 0)) for d in diags(ra)]
    sb = [(d.kind, d.code, max((d.line or 0) - len(defs), 0)) for d in diags(rb)]
    if (ra.rc, sa) != (rb.rc, sb) or ra.files["out.bin"] != rb.files["out.bin"]:
        raise Violation("-D and #define differ: exit %d and %d, %r and %r, bytes %r and %r" % (ra.rc, rb.rc, sa[:4], sb[:4], ra.files["out.bin"], rb.files["out.bin"]), args=repr(args), source=a)
    t.nontrivial(a + repr(args))


def where(src, t):
    """Messages about redefinitions and conflicts stand for the new definition and lead to an earlier one, over several files."""
    files = {"in.asm": [], "a.inc": [], "b.inc": []}
    defs, want = {}, []
    pool = src.sample(["one", "Two", "x3", "LAST"], src.int(1, 4))

    def fill(f, inc):
        ls = files[f]
        at = src.draw(6) if inc else -1
        n = src.int(at + 1 if inc else 1, 9)
        for k in range(n):
            if k == at:
                ls.append('#include "%s"' % inc[0])
                fill(inc[0], inc[1:])
                continue
            if src.draw(5) == 0:
                ls.append(src.choice(["", " ;x", " nop"]))
                continue
            name = src.choice(pool)
            here = (f, len(ls) + 1)
            old = defs.get(name)
            v = src.int(40000, 40003)
            kind = src.choice(["define", "equ"]) if old is None or src.draw(3) == 0 else src.choice(["equ", old[0]])
            w = mixcase(src, name)
            ls.append("#define %s %d" % (w, v) if kind == "define" else "%s = %d" % (w, v))
            if old is None:
                defs[name] = [kind, v, [here]]
            elif old[0] != kind:
                want.append(("conflicting", name, here, list(old[2])))
            else:
                if kind == "equ":
                    # (the same value once more may be announced or not)
                    want.append(("redefinition", name, here, list(old[2])) if old[1] != v else ("again", name, here, list(old[2])))
                old[1] = v
                old[2].append(here)
    fill("in.asm", src.choice([["a.inc"], ["a.inc", "b.inc"], []]))
    if not any(w[0] != "again" for w in want):
        raise Discard("no message")
    texts = {f: "\n".join(l) + "\n" for f, l in files.items()}
    s = texts.pop("in.asm")
    r = t.asm(s, files=texts)
    alive(r)
    ds = [d for d in diags(r) if "redefinition of" in d.msg or "conflicting" in d.msg or "previous definition" in d.msg]
    ds = [(d, os.path.basename(d.file), d.line) for d in ds if d.msg.split("'")[1].lower() in [x.lower() for x in pool]]
    # (a #define may or may not be announced as a redefinition: not judged here)
    k = 0
    for what, name, here, prev in want:
        if what == "again":
            if k + 1 >= len(ds) or ds[k][1:] != here:
                continue
            what = "redefinition"
        if k + 1 >= len(ds):
            raise Violation("no message: %s of %s at %s" % (what, name, here), output=r.text()[-500:])
        (d, f, l), (d2, f2, l2) = ds[k:k + 2]
        k += 2
        if what not in d.msg or d.msg.split("'")[1].lower() != name.lower() or (f, l) != here:
            raise Violation("%s of %s at %s reported as %r" % (what, name, here, d))
        if "previous" not in d2.msg or d2.msg.split("'")[1].lower() != name.lower() or (f2, l2) not in prev:
            raise Violation("%s of %s at %s: the previous definition is one of %s, not %r" % (what, name, here, prev, d2))
    if k != len(ds):
        raise Violation("unexpected message %r" % (ds[k][0],))
    t.nontrivial(s + repr(texts))


def self_equate(t):
    """Known finding: an equate that refers to its own name sees the location counter, not the previous value."""
    r = t.asm(" .org 100\nx = 5\nx = x+1\n .db x\n")
    return r.files["out.bin"] == b"\x65"


FINDINGS = {"self-equate": self_equate}


def parts(tier):
    q = tier == "quick"
    return [("history", history, 12000 if q else 300000), ("conflict", conflict, 4000 if q else 90000), ("where", where, 2500 if q else 40000), ("dline", dline, 4000 if q else 90000),
            ("inmacro", inmacro, 4000 if q else 90000), ("grow", grow, 1500 if q else 30000), ("large", large, 120 if q else 3000)]
