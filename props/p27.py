"""P27: the command line decides what is read and written."""
import os, re, resource
from core import Violation, Discard, alive, expect_bytes

PROP = "P27"
TECHNIQUE = "random command lines (file names, directories, options in every order, spelling and placement, faulty ones) against a model of the files that must exist afterwards and their contents; the whole directory tree is compared before and after"
NOTE = ("Sampled. Names of letters, digits, dots, blanks and underscores. -V together with file names is not generated, and -I or -D as the last argument without a value is only required to be reported and not to disturb "
        "the others. The listing and symbol table of a program with errors are not judged.")
RULE = "distinct command lines with a directory, a derived output name or at least two options, and faulty ones"


def snapshot(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for n in ds:
            out[os.path.relpath(os.path.join(p, n), d) + "/"] = None
        for n in fs:
            q = os.path.join(p, n)
            with open(q, "rb") as f:
                out[os.path.relpath(q, d)] = f.read()
    return out


def stem(src):
    return src.choice(["a", "prog", "my prog", "x1", "A_b", "Long_name_of_a_file", "v1", "9"])


def folder(src):
    return src.choice(["", "", "", "sub/", "d.ir/", "./", "a b/", "sub/deep.er/", "./d.ir/", "v1.2.3/", "../%s/", "x.8xp/"])


def swap_ext(name, ext):
    """name with ext in place of what follows the last dot of its last component"""
    h, s, l = name.rpartition("/")
    i = l.rfind(".")
    return h + s + (l if i < 0 else l[:i]) + "." + ext


def real(src, t, p):
    """p as the file system sees it, relative to the scratch directory"""
    return os.path.relpath(os.path.join(t.main.dir, p), t.main.dir)


class Line:
    def __init__(self, src, t):
        self.src, self.t = src, t
        here = os.path.basename(t.main.dir)
        d = folder(src)
        if "%" in d:
            d = d % here
        self.input = d + stem(src) + src.choice([".asm", ".z80", "", ".a.b", ".inc", "."])
        if src.draw(6) == 0:
            self.input = os.path.join(t.main.dir, self.input)
        self.given = None
        self.ext = "bin"
        if src.draw(3):
            d = folder(src)
            if "%" in d:
                d = d % here
            self.ext = src.choice(["bin", "bin", "BIN", "hex", "8xp", "", "out", "asm2", "rom2"])
            self.given = d + "o" + stem(src) + ("." + self.ext if self.ext else "")
            if src.draw(8) == 0:
                self.given = os.path.join(t.main.dir, self.given)
        self.output = self.given or swap_ext(self.input, "bin")
        self.opts, self.flags = [], set()

    def options(self):
        src = self.src
        self.defines, self.dirs = {}, []
        for _ in src.many(0, 2.2, 7):
            k = src.draw(12)
            if k <= 6:
                f = "NTLSOEA"[k]
                self.flags.add(f)
                self.opts.append(["-" + f])
            elif k <= 9:
                n = src.choice(["DEBUG", "lev", "X1", "abc"])
                v = src.choice(["", "=%d" % src.draw(256), "=1+%d" % src.draw(200), "=$%02X" % src.draw(256), "=-%d" % src.int(1, 128),
                                "=(%d)" % src.draw(256)])
                if n.upper() in {x.upper() for x in self.defines}:
                    continue
                self.defines[n] = 1 if not v else eval(v[1:].replace("$", "0x")) & 255
                self.opts.append(["-D" + n + v] if src.draw(2) else ["-D", n + v])
            else:
                left = [d for d in ("inc", "i.nc/deep", "my inc", "nothere", "zz", "lib.d") if d not in self.dirs]
                x, sep = "", ""
                for _ in range(src.choice([1, 1, 2, 3])):
                    d = src.choice(left)
                    left.remove(d)
                    self.dirs.append(d)
                    x += sep + d + src.choice(["", "", "/"])
                    sep = src.choice([";", ","])
                x += src.choice(["", "", "", sep])
                self.opts.append(["-I" + x] if src.draw(2) else ["-I", x])
                if len(self.dirs) >= 4:
                    break

    def args(self, files):
        """options anywhere between the file names, whose order stays"""
        groups = [[f] for f in files]
        opts, at = list(self.opts), []
        order = self.src.shuffle(range(len(opts)))
        # the order of the -I stays: it is the order of the search
        dirs = iter([i for i in range(len(opts)) if opts[i][0].startswith("-I")])
        order = [next(dirs) if opts[i][0].startswith("-I") else i for i in order]
        at = sorted(self.src.draw(len(groups) + 1) for _ in order)
        for i, k in reversed(list(zip(order, at))):
            groups.insert(k, opts[i])
        return [x for g in groups for x in g]

    def source(self):
        src = self.src
        lines, out = [], bytearray()
        files = {}
        if self.ext == "8xp":
            lines.append(" .db $BB,$6D")
            out += b"\xbb\x6d"
        for n, v in self.defines.items():
            n2 = n if "A" in self.flags else src.choice([n, n.lower(), n.upper()])
            lines.append(" .db " + n2)
            out.append(v)
        if "A" in self.flags:
            lines += ["Same = 1", "sAME = 2", " .db Same,sAME"]
            out += b"\1\2"
        if "E" in self.flags:
            lines.append(" ld hl,5")
            out += b"\x21\5\0\0"
        else:
            lines.append(" ld hl,5")
            out += b"\x21\5\0"
        # each name is read from the first of the directories that has it
        for i in range(src.draw(3) if self.dirs else 0):
            have = [d for d in self.dirs if d not in ("nothere", "zz") and src.draw(2)]
            for d in have:
                files["%s/part%d.i" % (d, i)] = " .db \"in %s%d\"\n" % (d, i)
            if have:
                lines.append("#include \"part%d.i\"" % i)
                out += b"in %s%d" % (have[0].encode(), i)
        if src.draw(4) == 0:
            # directives, names and numbers keep their meaning
            lines += ["#ifdef NoSuch", " .db 1", "#else", " .db SPASM", "#endif"]
            out.append(1)
        for _ in src.many(0, 2, 6):
            v = src.draw(256)
            lines.append(" .db %d" % v)
            out.append(v)
        return lines, bytes(out), files


def rel(t, p):
    return os.path.relpath(os.path.normpath(os.path.join(t.main.dir, p)), t.main.dir)


def prepare(l, t, files, text):
    """All files of a case, and directories for the outputs, as the tree before the run."""
    src = l.src
    files = dict(files)
    files[rel(t, l.input)] = text
    files[rel(t, os.path.join(os.path.dirname(l.output), "keep"))] = "kept"
    for n in ("out.bin", "prog.lst", "a.lab", "part.j", "inc.asm", "d.bin", "d.lst", "v1.2.bin", "x.bin", "sub/a.bin", "sub/deep.bin"):
        # files that an output could land on by mistake
        if src.draw(4) == 0:
            files[n] = "old " + n
    return files


def run(l, t, files, args):
    r = t.run(files, args)
    alive(r)
    return r, snapshot(t.main.dir)


def compare(l, t, before, after, changed, what):
    for n in sorted(set(before) | set(after)):
        if n.endswith("/") or n in changed:
            continue
        if n not in after:
            raise Violation("%s: file '%s' was removed" % (what, n))
        if n not in before:
            raise Violation("%s: unexpected file '%s'" % (what, n), content=repr(after[n][:200]))
        if before[n] != after[n]:
            raise Violation("%s: file '%s' was changed" % (what, n), content=repr(after[n][:200]))
    for n in after:
        if n.endswith("/") and not any(m.startswith(n) for m in before):
            raise Violation("%s: unexpected directory '%s'" % (what, n))


def as_bytes(files):
    return {n: v.encode("latin-1") if isinstance(v, str) else v for n, v in files.items()}


def written(src, t):
    l = Line(src, t)
    l.options()
    lines, out, files = l.source()
    files = prepare(l, t, files, "\n".join(lines) + "\n")
    o, lst, lab = (rel(t, x) for x in (l.output, swap_ext(l.output, "lst"), swap_ext(l.output, "lab")))
    # what was there is replaced, also when it was longer
    for n in (o, lst, lab):
        if n not in files and src.draw(3) == 0:
            files[n] = "earlier " * src.choice([1, 1000])
    if rel(t, l.input) in (o, lst, lab):
        t.label("the output is the source")
        return
    # (file names after the second are not used)
    args = l.args([l.input] + ([l.given] if l.given else []) + (["third.hex"] if l.given and src.draw(6) == 0 else []))
    r, after = run(l, t, files, args)
    what = " ".join(repr(a) if " " in a else a for a in args).replace(t.main.dir, "<dir>")
    before = as_bytes(files)
    changed = set()
    unknown = l.ext in ("out", "asm2", "rom2") and l.given
    # (the warning about an unknown extension makes the status a failure, and there is no listing then)
    warned = unknown and "O" not in l.flags
    if (r.rc == 0) == bool(warned) and not (r.rc == 1 and l.ext == "8xp"):
        raise Violation("%s: exit status %d" % (what, r.rc), output=r.text()[:600])
    if "O" not in l.flags:
        changed.add(o)
        if o not in after:
            raise Violation("%s: no output file '%s'" % (what, o), files=sorted(after))
        if l.ext not in ("hex", "8xp"):
            expect_bytes(out, after[o], what)
        else:
            ok = after[o][:8] == b"**TI83F*" if l.ext == "8xp" else after[o][:1] == b":"
            if not ok:
                raise Violation("%s: '%s' is no %s file" % (what, o, l.ext), content=repr(after[o][:60]))
    for f, n in (("T", lst), ("L", lab)):
        if f in l.flags:
            changed.add(n)
            if f == "T" and warned:
                continue
            if n not in after:
                raise Violation("%s: no file '%s' with -%s" % (what, n, f), files=sorted(after))
            if b"earlier" in after[n]:
                raise Violation("%s: file '%s' was not replaced with -%s" % (what, n, f))
            if f == "T" and b"ld hl,5" not in after[n] or f == "L" and "A" in l.flags and b"sAME" not in after[n]:
                raise Violation("%s: '%s' does not describe the program" % (what, n), content=repr(after[n][:300]))
    compare(l, t, before, after, changed, what)
    if not warned and ("S" in l.flags) != ("Total size: " in r.text()):
        raise Violation("%s: statistics %s" % (what, "missing" if "S" in l.flags else "printed"))
    if b"\x1b[" in r.raw.replace(b"\x1b[0m", b"") and "N" in l.flags and unknown:
        raise Violation("%s: colours despite -N" % what)
    if "/" in l.input or len(l.opts) > 1 or not l.given:
        t.nontrivial(what)
        t.sample(what)
    t.label("derived name" if not l.given else "given name")
    for f in sorted(l.flags):
        t.label("-" + f)
    for d in l.opts:
        if d[0][1] in "DI":
            t.label(d[0][:2] + (" attached" if len(d) == 1 else " separate"))


FATAL = [" bogus", " .dw 5 5", " .db 1/0", "x = nosuch", " .org nosuch", "#include \"none.i\"", " .zork", " jr $+500", " .error \"stop\""]


def faulty(src, t):
    """Command lines that cannot work, and programs that cannot be assembled: reported, and no file is touched."""
    l = Line(src, t)
    l.options()
    lines, out, files = l.source()
    k = src.choice(["missing", "none", "option", "dir", "nodir", "isdir", "program", "program", "help", "lastv", "listdir"])
    text = "\n".join(lines) + "\n"
    l.ext = "bin"
    if k == "program":
        at = src.draw(len(lines) + 1)
        if "#ifdef NoSuch" in lines and 0 < at - lines.index("#ifdef NoSuch") < 3:
            at = 0
        lines.insert(at, src.choice(FATAL))
        text = "\n".join(lines) + "\n"
    if k in ("nodir", "isdir"):
        l.flags.discard("O")
        l.opts = [x for x in l.opts if x != ["-O"]]
    files = prepare(l, t, files, text)
    names = [l.input] + ([l.given] if l.given else [])
    o, lst, lab = (rel(t, x) for x in (l.output, swap_ext(l.output, "lst"), swap_ext(l.output, "lab")))
    if rel(t, l.input) in (o, lst, lab):
        return
    if src.draw(2) and k not in ("nodir", "isdir"):
        files[o] = "earlier output"
    free = set()
    if k == "missing":
        del files[rel(t, l.input)]
    elif k == "none":
        names = []
    elif k == "option":
        l.opts.append([src.choice(["-x", "-q", "-Z", "-", "--", "-t", "-o", "--help", "-1", "-n", "-?", "-e", "-s", "-l"])])
    elif k == "dir":
        if src.draw(2):
            names[0] = os.path.dirname(l.output) or "."
        else:
            files["adir/x"] = ""
            names[0] = "adir"
    elif k == "nodir":
        l.output = "no/" + src.choice(["", "more/"]) + "x.bin"
        names = [l.input, l.output]
    elif k == "isdir":
        files["isdir.bin/x"] = ""
        names = [l.input, "isdir.bin"]
        free = {"isdir.lst", "isdir.lab"}
    elif k == "help":
        l.opts.append([src.choice(["-H", "-h"])])
    elif k == "listdir":
        # the listing or the symbol table cannot be written (the others may be)
        f, n = src.choice([("T", lst), ("L", lab)])
        if f not in l.flags or n in files:
            return
        files[n + "/x"] = ""
        free = {o, lst, lab}
    if k == "program":
        free = {lst, lab}
    args = l.args(names)
    if k == "lastv":
        args.append("-V")
    r, after = run(l, t, files, args)
    what = " ".join(repr(a) if " " in a else a for a in args).replace(t.main.dir, "<dir>")
    if k == "help" or not args:
        # (an option before -H that cannot be understood does not occur)
        if r.rc or "Options:" not in r.text():
            raise Violation("%s: no help, exit status %d" % (what, r.rc), output=r.text()[:300])
    elif r.rc == 0 or not r.text().strip():
        raise Violation("%s: exit status %d (%s)" % (what, r.rc, k), output=r.text()[:400])
    elif k == "option" and l.opts[-1][0] not in r.text():
        raise Violation("%s: the option is not named" % what, output=r.text()[:300])
    compare(l, t, as_bytes(files), after, free, what)
    t.nontrivial(what)
    t.label(k)


def novalue(src, t):
    """-I or -D as the last argument has no value: it is reported and the rest is done."""
    l = Line(src, t)
    l.options()
    l.flags.discard("O")
    l.opts = [x for x in l.opts if x != ["-O"]]
    lines, out, files = l.source()
    files = prepare(l, t, files, "\n".join(lines) + "\n")
    o, lst, lab = (rel(t, x) for x in (l.output, swap_ext(l.output, "lst"), swap_ext(l.output, "lab")))
    if rel(t, l.input) in (o, lst, lab):
        return
    bad = src.choice(["-I", "-D"])
    args = l.args([l.input] + ([l.given] if l.given else [])) + [bad]
    r, after = run(l, t, files, args)
    what = " ".join(repr(a) if " " in a else a for a in args).replace(t.main.dir, "<dir>")
    if bad + " used without" not in r.text():
        raise Violation("%s: the missing value is not reported" % what, output=r.text()[:300])
    compare(l, t, as_bytes(files), after, {o} | ({lst} if "T" in l.flags else set()) | ({lab} if "L" in l.flags else set()), what)
    if o not in after or l.ext not in ("hex", "8xp") and after[o] != out:
        raise Violation("%s: wrong or no output '%s'" % (what, o))
    t.nontrivial(what)


def direct(src, t):
    """-V assembles its argument: the options mean the same, and the outputs are named -v."""
    l = Line(src, t)
    l.input, l.given, l.output, l.ext = "-v", None, "-v.bin", "bin"
    l.options()
    lines, out, files = l.source()
    if src.draw(3) == 0:
        # the last line needs no end
        lines.append(" .db 7" + src.choice([" ; end", "", "\t", "\nlast:", "\n#define end"]))
        out += b"\7"
    text = "\n".join(lines)
    files["a.asm"] = " .db \"not this\"\n"
    files["v.bin"] = files["a.bin"] = "kept"
    for n in ("-v.bin", "-v.lst", "-v.lab"):
        if src.draw(3) == 0:
            files[n] = "earlier " * 30
    l.opts.append(["-V" + text] if src.draw(2) else ["-V", text])
    args = l.args([])
    r, after = run(l, t, files, args)
    what = " ".join(repr(a) if " " in a else a for a in args).replace(t.main.dir, "<dir>")
    if r.rc:
        raise Violation("%s: exit status %d" % (what, r.rc), output=r.text()[:600])
    changed = set()
    for f, n in (("O", "-v.bin"), ("T", "-v.lst"), ("L", "-v.lab")):
        if (f in l.flags) == (f == "O"):
            continue
        changed.add(n)
        if n not in after or b"earlier" in after[n]:
            raise Violation("%s: no file '%s', or not replaced" % (what, n))
    if "O" not in l.flags:
        expect_bytes(out, after["-v.bin"], what)
    compare(l, t, as_bytes(files), after, changed, what)
    t.nontrivial(what)
    t.sample(what)


def full(src, t):
    """Files may not grow beyond a number of bytes, as on a full disk: what does not fit fails the run, what fits is the same."""
    lines = ["l%d: .db %d" % (k, k & 255) for k in range(src.choice([1, 3, 30, src.int(1, 400)]))]
    lines.append(" .fill %d,5" % src.choice([0, 10, src.int(0, 300), src.int(0, 9000), 4096]))
    names = []
    if src.draw(3) == 0:
        for k in range(src.int(1, 3)):
            names.append("e%d.txt" % k)
            for _ in range(src.int(1, 4)):
                lines.insert(src.draw(len(lines) + 1), ' .echo >> "e%d.txt" %s' % (k, src.choice(['"text"', '"%s",5' % ("abc" * src.int(1, 60)), "5"])))
    ext = src.choice(["bin", "bin", "hex", "8xp", "83p"])
    flags = src.sample(["-T", "-L"], src.draw(3)) + (["-O"] if src.draw(6) == 0 else [])
    names += [n for n, f in (("o." + ext, "-O" not in flags), ("o.lst", "-T" in flags), ("o.lab", "-L" in flags)) if f]
    files = {"in.asm": "\n".join(lines) + "\n"}
    args = ["-N"] + flags + ["in.asm", "o." + ext]
    a = t.run(files, args, want=names)
    alive(a)
    if a.rc not in (0, 1) or None in a.files.values():
        raise Violation("valid program rejected: exit %d" % a.rc, output=a.text()[-400:])
    sizes = sorted(len(b) for b in a.files.values())
    if not sizes:
        raise Discard("no files")
    z = src.choice(sizes)
    k = src.choice([max(0, z - 1), z, z + 1, src.int(0, z), src.int(0, sizes[-1] + 2), z // 2])
    t.main.run(files, ["-N", "-O", "in.asm"])   # (the sources are in place, nothing is left from the first run but .echo files)
    for n in names:
        if n[0] == "e":
            os.unlink(os.path.join(t.main.dir, n))
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    try:
        resource.setrlimit(resource.RLIMIT_FSIZE, (k, hard))
        b = t.run({}, args, want=names, keep=True)
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    alive(b)
    t.last = (files, args + ["# with files of %d bytes at most" % k], None)
    if any(s > k for s in sizes):
        if b.rc not in (2, 3) or len(b.text()) <= len("Pass one... \nPass two... \n"):
            raise Violation("files of %s bytes where only %d can be written: exit status %d" % (sizes, k, b.rc), output=b.text()[-400:])
    elif b.rc != a.rc or b.files != a.files:
        raise Violation("files of %s bytes where %d can be written: exit status %d instead of %d, or other contents" % (sizes, k, b.rc, a.rc), output=b.text()[-400:])
    t.nontrivial(files["in.asm"] + repr((args, k)))
    t.label("full" if any(s > k for s in sizes) else "fits")


def parts(tier):
    q = tier == "quick"
    return [("written", written, 24000 if q else 200000), ("faulty", faulty, 10000 if q else 90000), ("novalue", novalue, 1500 if q else 10000),
            ("direct", direct, 5000 if q else 50000), ("full", full, 1500 if q else 15000)]
