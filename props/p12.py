"""P12: include trees, imports and the search for files."""
from core import Violation, diags, expect_bytes, ok_output
from p06 import KINDS, label_table, merge, program, wrap

PROP = "P12"
TECHNIQUE = "random programs split into random trees of include files against the reference model of the unsplit program; random search paths against a lookup model; imports of random bytes"
NOTE = ("Sampled trees up to depth 5, mixed line ends, BOMs, missing final newlines, files in subdirectories and -I directories; __LINE, __FILE and diagnostics at generated places. "
        "Windows path handling is not exercised. #if blocks are not split across files.")
RULE = "distinct programs with at least one include or import"
BOM = b"\xef\xbb\xbf"


class Files:
    """Include files with names in subdirectories and -I directories."""

    def __init__(self, src, t):
        self.src = src
        self.dirs = src.sample(["lib", "lib/deep", "Inc", "a b", "x.y", "z"], src.int(0, 3))
        self.files = {}
        self.n = 0
        self.args = []
        rest = list(self.dirs)
        while rest:
            k = src.int(1, len(rest))
            grp, rest = rest[:k], rest[k:]
            s = src.choice([";", ","]).join(grp)
            self.args += ["-I" + s] if src.draw(2) else ["-I", s]
        self.root = t.main.dir

    def path(self):
        """(name as written in the #include line, key in self.files)"""
        src = self.src
        self.n += 1
        ext = src.choice([".inc", ".asm", "", ".z80", ".x.inc", ".BMP"])
        base = src.choice(["f%d", "File_%d", "%dq", "f-%d", "long" * 38 + "%d", "sp ace%d", "BM%d"]) % self.n + ext
        d = src.choice(["", "", "sub/", "sub/two/", "S u b/"])
        w = d + base
        if self.dirs and src.draw(2):
            key = src.choice(self.dirs) + "/" + w
        else:
            key = w
        shown = w
        if src.draw(4) == 0:
            shown = w.replace("/", "\\")
        if src.draw(6) == 0:
            shown = "./" + shown
        full = self.root + "/" + key
        if src.draw(8) == 0:
            shown = full
        if " " in w or "\\" in shown or src.draw(3):
            shown = '"' + shown + '"'
        return shown, key

    def found(self, shown, key):
        """The path the assembler reports for it."""
        s = shown.strip('"').replace("\\", "/")
        if s.startswith("/"):
            return s
        w = s[2:] if s.startswith("./") else s
        base = key[:len(key) - len(w)].rstrip("/")
        return (base if base else self.root) + "/" + s

    def store(self, lines, bom=True):
        src = self.src
        e = src.choice(["\n", "\n", "\r\n", "mix"])
        s = "".join(l + (src.choice(["\n", "\r\n"]) if e == "mix" else e) for l in lines)
        z = src.draw(4)
        if z == 0:
            s = s.rstrip("\r\n")
        elif z == 1:
            s += "\n" * src.int(1, 3)
        return (BOM if bom and src.draw(4) == 0 else b"") + s.encode("latin-1")

    def directive(self, shown, what="#include"):
        src = self.src
        what = src.choice([what, what.upper(), what.title()])
        return src.choice(["", "", " ", "\t"]) + what + src.choice([" ", "  ", "\t"]) + shown + src.choice(["", "", " ", " ;c", "\t;\"'"])


def ends(lines, i):
    """Where a run of whole blocks that starts at i may end."""
    d, out = 0, []
    for j in range(i, min(len(lines), i + 14)):
        w = lines[j].lower()
        if w.startswith(("#if", "#macro")):
            d += 1
        elif w.startswith(("#endif", "#endmacro")):
            d -= 1
        if d < 0 or d == 0 and w.startswith(("#else", "#elif")):
            break
        if d == 0:
            out.append(j + 1)
    return out


def split(src, F, lines, depth):
    """The lines with some runs moved into include files."""
    if depth == 0:
        return lines
    out, i = [], 0
    while i < len(lines):
        if src.draw(5) == 0 and lines[i] != " ;":
            j = src.choice([i] + ends(lines, i))
            shown, key = F.path()
            F.files[key] = F.store(split(src, F, lines[i:j], depth - 1))
            out.append(F.directive(shown))
            i = j
        else:
            out.append(lines[i])
            i += 1
    return out


def tree(src, t):
    F = Files(src, t)
    p = program(src, n=16, kinds=KINDS + [(2, "import"), (1, "anon")], anon=True)
    l, b = label_table(p)
    F.files.update({nd.fname: nd.data for nd in p.nodes if nd.kind == "import"})
    lines = wrap(src, p.nodes, F.files, 2, [0]) + l
    lines = split(src, F, lines, src.int(1, 5))
    main = F.store(lines)
    r = t.asm(main, F.args, files=F.files)
    expect_bytes(merge(p, b), ok_output(r))
    if F.n:
        t.nontrivial(main + repr(F.files).encode())
        t.sample(main.decode("latin-1"))
    t.label("files %d" % min(F.n, 6))


class Ctx:
    """Files made of data, __LINE, __FILE and faulty lines, with the bytes and diagnostics they give."""

    def __init__(self, src, t, faults):
        self.src = src
        self.F = Files(src, t)
        self.faults = faults            # 0 none, 1 while reading, 2 in the second pass
        self.out = bytearray()
        self.diags = []
        self.bad = 0
        self.budget = 60
        self.guards = 0
        self.macros = {}

    def body(self, name, depth):
        src, out = self.src, []
        for _ in src.many(1, 5, 14):
            self.budget -= 1
            n = len(out) + 1
            k = src.weighted([(4, "line"), (3, "file"), (3, "db"), (4, "inc" if depth and self.budget > 0 else "db"), (2, "multi"), (2, "blank"), (1, "if"), (1, "macro"),
                              (1, "skip"), (1, "joined"), (4 if self.faults else 0, "fault")])
            if k == "line":
                out.append(src.choice([" .dw __LINE", ".dw __line", " .dw __LINE ; x", " .dw __LINE+0"]))
                self.out += n.to_bytes(2, "little")
            elif k == "file":
                out.append(" .db __FILE,0")
                self.out += name.encode() + b"\0"
            elif k == "db":
                v = src.int(0, 255)
                out.append(" .db %d" % v)
                self.out.append(v)
            elif k == "blank":
                out += src.choice([[""], ["", ""], [" ;c"], ["#comment", " zork", "#endcomment"], ["#region x", "#endregion"]])
            elif k == "multi":
                a, b = src.int(0, 255), src.int(0, 255)
                out.append(" .db %d \\ .db %d \\ .db __LINE" % (a, b))
                self.out += bytes([a, b, n & 255])
            elif k == "joined":
                # the rest of the line after an include
                shown, key = self.F.path()
                full = self.F.found(shown, key)
                self.F.files[key] = self.F.store(self.body(full, 0))
                v = src.int(0, 255)
                out.append("#include %s \\ .db %d \\ .dw __LINE \\ .db __FILE" % (shown if '"' in shown else '"%s"' % shown, v))
                self.out.append(v)
                self.out += n.to_bytes(2, "little") + name.encode()
            elif k == "if":
                t = src.draw(2)
                out += ["#if %d" % t, " .dw __LINE", "#else", " .dw __LINE", "#endif"]
                self.out += (n + (1 if t else 3)).to_bytes(2, "little")
            elif k == "skip":
                out += ["#if 0", '#include "none such"', '#import "none"', "#endif"]
            elif k == "macro":
                m = src.draw(5)
                if m not in self.macros:
                    # (what the body gives, whether it has a parameter): lines and names are those of the definition
                    par = src.draw(2)
                    lines, parts = [], []
                    if par:
                        lines.append(" ;")
                    for _ in range(src.int(1, 5)):
                        at = n + 1 + len(lines)
                        z = src.draw(5)
                        v = src.int(0, 255)
                        if z == 0:
                            lines.append(" .dw __LINE")
                            parts.append(at.to_bytes(2, "little"))
                        elif z == 1:
                            lines.append(" .db __FILE,0")
                            parts.append(name.encode() + b"\0")
                        elif z == 2 and par:
                            lines.append(" .db arg")
                            parts.append(None)
                        elif z == 3 and self.macros:
                            m2 = src.choice(sorted(self.macros))
                            if not self.macros[m2][1]:
                                lines.append(" mm%d" % m2)
                                parts += self.macros[m2][0]
                        else:
                            lines.append(" .db %d" % v)
                            parts.append(bytes([v]))
                    if not lines:
                        lines.append(" ;")
                    self.macros[m] = (parts, par)
                    out += ["#macro mm%d" % m + ("(arg)" if par else "")] + lines + ["#endmacro"]
                parts, par = self.macros[m]
                at = len(out) + 1
                v = src.int(0, 255)
                a, v = src.choice([(str(v), bytes([v])), ("__LINE&255", bytes([at & 255])), ("__FILE", name.encode())])
                out.append(" mm%d" % m + ("(%s)" % a if par else src.choice(["", "()"])))
                for x in parts:
                    self.out += v if x is None else x
            elif k == "fault":
                self.bad += 1
                if self.faults == 1:
                    out.append(src.choice([" zork_%d", " .zork_%d", " ld a,b,%d", "#zork_%d", '#include "missing%d"', '#import "missing%d"', " pop (%d)", " .error \"x%d\""]) % self.bad)
                else:
                    out.append(src.choice([" .dw undef_%d", " ld hl,undef_%d", " .db undef_%d+1", " jp z,undef_%d"]) % self.bad)
                self.diags.append((name, n))
            elif k == "inc":
                shown, key = self.F.path()
                full = self.F.found(shown, key)
                if src.draw(6) == 0:
                    # a file that includes itself a few times
                    c = src.int(1, 4)
                    self.guards += 1
                    g = "g%d" % self.guards
                    out += ["#define %s %d" % (g, c)]
                    out.append(self.F.directive(shown))
                    self.F.files[key] = self.F.store(["#define %s eval(%s-1)" % (g, g), " .db %s" % g, "#if %s > 0" % g, self.F.directive(shown), "#endif", " .dw __LINE"], bom=False)
                    # (recursion runs in source order)
                    self.out += bytes(range(c - 1, -1, -1)) + (6).to_bytes(2, "little") * c
                    continue
                out.append(self.F.directive(shown))
                self.F.files[key] = self.F.store(self.body(full, depth - 1))
            # the faults of an include stand before the ones below it; nothing else to restore
        return out


def context(src, t, faults=0):
    c = Ctx(src, t, faults)
    abs_ = src.draw(4) == 0
    main = (c.F.root + "/in.asm") if abs_ else "in.asm"
    lines = c.body(main, 4)
    s = c.F.store(lines)
    files = {"in.asm": s}
    files.update(c.F.files)
    r = t.run(files, ["-N"] + c.F.args + [main, "out.bin"], want=("out.bin",))
    if not c.diags:
        expect_bytes(bytes(c.out), ok_output(r))
    else:
        # a missing include is reported twice, once at once and without a code
        ds = diags(r)
        got = [(d.file, d.line) for d in ds if d.code]
        if got != c.diags or any((d.file, d.line) not in c.diags for d in ds):
            raise Violation("diagnostics do not name the file and line", expected=c.diags, got=ds, output=r.text()[:1500])
        if r.rc < 2:
            raise Violation("exit status 0 in spite of errors", output=r.text()[:1500])
    if c.F.n:
        t.nontrivial(s + repr(c.F.files).encode())
        t.sample(s.decode("latin-1"))


def faulty(src, t):
    context(src, t, src.int(1, 2))


def search(src, t):
    """Which of several files of one name is taken."""
    root = t.main.dir
    dirs = ["d%d" % k for k in range(5)] + ["d1/e", "dd"]
    absmain = src.draw(3) == 0
    mdir = src.choice(["", "m", "m/n"]) if absmain else ""
    main = (mdir + "/" if mdir else "") + "in.asm"
    files = {}
    # search order: the source's directory, then -I in order
    order = [mdir if absmain else ""]
    args = []
    for _ in range(src.int(0, 4)):
        grp = [src.choice(dirs) for _ in range(src.int(1, 3))]
        shown = []
        for g in grp:
            order.append(g)
            z = src.draw(6)
            shown.append(root + "/" + g if z == 0 else "./" + g if z == 1 else g + "/" if z == 2 else g)
        s = shown[0]
        for x in shown[1:]:
            s += src.choice([";", ","]) + x
        args += ["-I" + s] if src.draw(2) else ["-I", s]
    names = ["x.inc", "s/x.inc", "y", "X.inc", "s/y"]
    place = {}
    n = 0
    imp = src.draw(2)
    for d in sorted(set([""] + order + dirs)):
        for nm in names:
            if src.bool(0.3):
                n += 1
                place[(d, nm)] = n
                k = (d + "/" if d else "") + nm
                files[k] = (" .db %d" % n) if not imp else bytes([n])
    lines, want, miss = [], bytearray(), []
    for k in range(src.int(1, 5)):
        nm = src.choice(names)
        shown = nm.replace("/", "\\") if src.draw(4) == 0 else nm
        if src.draw(6) == 0:
            d = src.choice(sorted(set(d for d, _ in place)) or [""])
            shown = root + "/" + (d + "/" if d else "") + nm
            got = place.get((d, nm))
            if got is None:
                # an absolute name of no file is looked for below the directories too: nothing there
                pass
        else:
            got = next((place[(d, nm)] for d in order if (d, nm) in place), None)
        q = '"' + shown + '"' if "\\" in shown or src.draw(2) else shown
        lines.append(("#import " if imp else "#include ") + q)
        if got is None:
            miss.append(k + 1)
        else:
            want.append(got)
    s = "\n".join(lines) + "\n"
    files[main] = s
    r = t.run(files, ["-N"] + args + [root + "/" + main if absmain else main, "out.bin"], want=("out.bin",))
    if not miss:
        expect_bytes(bytes(want), ok_output(r))
    else:
        got = sorted(set(d.line for d in diags(r)))
        if got != miss or r.rc == 0:
            raise Violation("missing files are not diagnosed at their lines", expected=miss, got=got, output=r.text()[:800])
    t.nontrivial(repr((files, args)))
    t.sample("%s\n%s" % (args, s))
    t.label("missing" if miss else "found")


def imports(src, t):
    files, lines, want = {}, [], bytearray()
    for k in range(src.int(1, 4)):
        z = src.draw(8)
        if z == 0:
            b = src.bytes(1) * src.choice([255, 256, 4096, 65535, 65536, 70000])
        elif z == 1:
            b = bytes(range(256)) * src.int(1, 3)
        elif z == 2:
            b = src.choice([b"", b"\xff", b"\x1a", b"\r\n", b"BM", BOM, b"\0", b"\xff" * 3])
        else:
            b = src.bytes(src.int(0, 40))
        f = "i%d.%s" % (k, src.choice(["bin", "bmp", "inc", "x y"]))
        files[f] = b
        q = '"%s"' % f if " " in f or src.draw(2) else f
        for _ in range(src.int(1, 2)):
            w = src.choice(["#import ", "#IMPORT\t", " #Import "])
            if src.draw(4) == 0:
                lines.append(w + '"%s"' % f + src.choice(["\\ .db 1", " \\ .db 1", "\\.db 1 ; c"]))
                want += b + b"\1"
            elif src.draw(5) == 0:
                lines += ["#macro im%d" % len(lines), " ;", w + q, "#endmacro", " im%d" % len(lines)]
                want += b
            else:
                lines.append(w + q + src.choice(["", " ", ";c", " ;\"c"]))
                want += b
        lines.append(src.choice(["l%d: .dw $", "l%d .dw l%d", " .dw $ ;%d"]).replace("%d", str(k)))
        want += (len(want) & 0xFFFF).to_bytes(2, "little")
    s = "\n".join(lines) + "\n"
    r = t.asm(s, files=files)
    expect_bytes(bytes(want), ok_output(r))
    t.nontrivial(s + repr(files))
    t.sample(s)


def parts(tier):
    q = tier == "quick"
    return [("tree", tree, 7000 if q else 150000), ("context", context, 6000 if q else 150000), ("faulty", faulty, 5000 if q else 120000),
            ("search", search, 5000 if q else 100000), ("imports", imports, 2500 if q else 40000)]
