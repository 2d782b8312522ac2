"""P18: the same program under different reporting options, option orders and paths (metamorphic)."""
import os, re
from core import Violation, Discard, alive, expect_bytes
from p06 import program, label_table, merge, KINDS, wrap
from p08 import M as CondModel
from prog import plain

PROP = "P18"
TECHNIQUE = "metamorphic: every random program (valid or faulty) is assembled with no reporting options and again with random subsets and orders of -T -L -S -N, absolute and relative paths, other directories, repetition, -O and -V; outputs and diagnostics are compared"
NOTE = "With -C only the exit status and the output bytes are compared (it suppresses diagnostics). File names in diagnostics are compared after removing the directory."
RULE = "distinct (source, option list) with at least one reporting option and a program that emits bytes or a diagnostic"
FAULTS = [" bogus 1", " ld a,bc", " .db undefined_sym", " .bogus 3", "#bogus", " jr $+1000", " .db 1/0", " ld (ix+200),a", " .db (1", " .error \"stop\"",
          "#include \"missing.inc\"", " rst 7", " .db 1000", " .dw $GG", "#else", " .echo \"hello\"", " .echo 12+3", " .dl later_undefined+1", " ld a,300",
          " ld b,(3)", "#define", " bit 9,a", " .fill -1", "_x: .equ", " .db -_", " .dw _", "x = 5\nx = 6", "#define zz 1\nzz = 3"]


def build(src, emit_files):
    """A program, valid or with faulty lines."""
    k = src.draw(4)
    if k < 2:
        p = program(src, n=10, kinds=KINDS + [(1, "import")], anon=src.draw(2) == 1)
        for nd in p.nodes:
            if nd.kind == "import":
                emit_files[nd.fname] = nd.data
        lines = wrap(src, p.nodes, emit_files, 2, [0]) + label_table(p)[0]
    else:
        m = CondModel(src, None)
        m.lines += ["k1 = 1", "k0 = 0", "big = 70000"]
        for _ in src.many(1, 1.5, 3):
            m.block(True, 2)
            m.conditional(True, 2)
        lines = m.lines
    if src.draw(2):
        for _ in src.many(1, 1.5, 4):
            lines.insert(src.draw(len(lines) + 1), src.choice(FAULTS))
    return "\n".join(lines) + ("\n" if src.draw(8) else "")


REPORT = re.compile(r"^(Assembly time: .*|Number of (labels|defines): \d+|(Code|Data|Total) size: \d+)$")


def normal(r, names):
    """Console text without reports, colours and directories."""
    out = []
    for l in r.text().split("\n"):
        if REPORT.match(l):
            continue
        out.append(re.sub(r"(/[^ :'\"]*/)(in\.asm|out\.bin)", r"\2", l))
    return "\n".join(out)


def options(src):
    opts = src.sample(["-T", "-L", "-S", "-N"], src.int(0, 4))
    if opts and src.draw(6) == 0:
        opts.append(opts[0])
    return opts


def place(src, opts, files):
    """Options anywhere before, between or after the file names."""
    seq = list(files)
    for o in opts:
        seq.insert(src.draw(len(seq) + 1), o)
    return seq


def same(src, t):
    files = {}
    s = build(src, files)
    files["in.asm"] = s
    base = t.run(files, ["in.asm", "out.bin"], want=("out.bin",))
    alive(base)
    want = normal(base, None)
    for _ in range(2):
        opts = options(src)
        count = src.draw(6) == 5
        if count:
            opts.insert(src.draw(len(opts) + 1), "-C")
        extra = ["-I", "nothere"] if src.draw(8) == 0 else []
        k = src.draw(4)
        d = t.main.dir
        infile = os.path.join(d, "in.asm") if k >= 2 else "./in.asm" if k == 1 and False else "in.asm"
        outfile = os.path.join(d, "out.bin") if src.draw(4) == 0 else "out.bin"
        args = place(src, opts, [infile, outfile])
        if extra:
            args += extra
        r = t.run(files, args, want=("out.bin", "out.lst", "out.lab"))
        alive(r)
        what = " ".join(args).replace(d + "/", "<dir>/")
        if r.rc != base.rc:
            raise Violation("exit %d with '%s', %d without options" % (r.rc, what, base.rc), first=base.text()[-700:], second=r.text()[-700:])
        if (r.files["out.bin"] is None) != (base.files["out.bin"] is None):
            raise Violation("output file %s with '%s'" % ("missing" if r.files["out.bin"] is None else "written", what), output=r.text()[-500:])
        if r.files["out.bin"] is not None:
            expect_bytes(base.files["out.bin"], r.files["out.bin"], "output with '%s' and without options" % what)
        if count:
            continue
        if normal(r, None) != want:
            raise Violation("diagnostics differ with '%s'" % what, first=want[-900:], second=normal(r, None)[-900:])
        if "-N" in opts and b"\x1b[3" in r.raw.replace(b"\x1b[37", b""):
            raise Violation("colours despite -N with '%s'" % what)
        if base.rc == 0:
            for o, f in (("-T", "out.lst"), ("-L", "out.lab")):
                if (r.files[f] is not None) != (o in opts):
                    raise Violation("%s %s with '%s'" % (f, "missing" if o in opts else "written", what))
        if opts and (base.files["out.bin"] or base.rc):
            t.nontrivial(what + s)
        t.label("exit %d" % base.rc)
        t.label("absolute" if k >= 2 else "relative")
    t.sample(what + "\n" + s[:600])


def no_output(src, t):
    """-O writes no output file, whatever else is asked for; a valid program still succeeds."""
    p = program(src, n=8)
    s = "\n".join(p.lines() + label_table(p)[0]) + "\n"
    opts = options(src) + ["-O"] * src.int(1, 2)
    args = place(src, opts, ["in.asm", "out.bin"] if src.draw(4) else ["in.asm"])
    r = t.run({"in.asm": s}, args, want=("out.bin", "in.bin"))
    alive(r)
    if r.files["out.bin"] is not None or r.files["in.bin"] is not None:
        raise Violation("output file written with '%s'" % " ".join(args))
    if r.rc != 0 or "error" in r.text() or "warning" in r.text():
        raise Violation("valid program: exit %d with '%s'" % (r.rc, " ".join(args)), output=r.text()[-600:])
    t.nontrivial(" ".join(args) + s)


def oneline(src, t):
    """-V text is like a file of that one line."""
    p = program(src, n=4, kinds=[(6, "ins"), (4, "data"), (1, "fill"), (1, "org"), (2, "label"), (1, "equ")])
    parts = []
    for nd in p.nodes:
        l = plain(nd)
        parts.append(l)
    # labels and equates only at the start of the line
    first = [i for i, nd in enumerate(p.nodes) if nd.kind in ("label", "equ")]
    line = " \\".join(parts)
    if src.draw(4) == 0:
        line += src.choice([" \\ bogus", " \\ .db nosuch", " ; comment", " \\ ld a,300"])
    if len(line) > 3000:
        raise Discard("long")
    pre = src.sample(["-T", "-L", "-S", "-N", "-A", "-E"], src.draw(3))
    a = t.run({"in.asm": line + "\n"}, pre + ["in.asm", "out.bin"], want=("out.bin",))
    alive(a)
    joined = src.draw(2) == 1
    b = t.run({}, pre + (["-V" + line] if joined else ["-V", line]), want=("-v.bin",))
    alive(b)
    if a.rc != b.rc:
        raise Violation("exit %d as a file, %d with -V" % (a.rc, b.rc), first=a.text()[-500:], second=b.text()[-500:])
    if (a.files["out.bin"] is None) != (b.files["-v.bin"] is None):
        raise Violation("output file only %s" % ("with -V" if a.files["out.bin"] is None else "without -V"))
    if a.files["out.bin"] is not None:
        expect_bytes(a.files["out.bin"], b.files["-v.bin"], "output of a one-line file and of -V")
    x = normal(a, None).replace("in.asm:", "-v:")
    if x != normal(b, None):
        raise Violation("diagnostics differ between a one-line file and -V", first=x[-600:], second=normal(b, None)[-600:])
    t.nontrivial(line + repr(pre))


def parts(tier):
    q = tier == "quick"
    return [("same", same, 4500 if q else 120000), ("no_output", no_output, 1500 if q else 40000), ("oneline", oneline, 3000 if q else 60000)]
