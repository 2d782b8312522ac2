"""P19: -S and -C reports against exact counts and the documented Z80 timings."""
import json
import os
import re
import p24
import z80ref, ez80ref
from core import Violation, Discard, diags, alive, expect_bytes, ok_output
from prog import Prog, plain
from p06 import program, label_table, merge, KINDS, wrap

PROP = "P19"
TECHNIQUE = "every instruction form singly and random programs (wrapped in macros, includes, conditionals, run()) assembled with -S and -C; the reports are compared with counts of the generated program and sums of independently tabulated T-states"
NOTE = "The eZ80 times are pinned in lib/ez80times.json (agrees with Zilog UM0077 where it was compared; recorded from the pinned tree). The number of defines is taken relative to an empty source."
RULE = "distinct (source, options) with at least one instruction or symbol"
SWEEP = [f for f in z80ref.FORMS]
REP = re.compile(r"^(Number of labels|Number of defines|Code size|Data size|Total size|Size|Min\. execution time|Max\. execution time): (-?\d+)$", re.M)


def report(r):
    return {k: int(v) for k, v in REP.findall(r.text())}


def check(rep, want, s):
    for k, v in want.items():
        if rep.get(k) != v:
            raise Violation("'%s' is reported as %s, the program has %s" % (k, rep.get(k), v), report=str(rep))


def singly(src, t):
    f = SWEEP[src.draw(len(SWEEP))]
    p = Prog(src, nodes=lambda p: [mk(f), mk(f)], chars=False)
    s = "\n".join(p.lines()) + "\n"
    r = t.asm(s, ["-C"])
    expect_bytes(merge(p, b""), r.files["out.bin"])
    check(report(r), {"Size": 2 * f.size, "Min. execution time": 2 * f.tmin, "Max. execution time": 2 * f.tmax}, s)
    t.nontrivial(s)
    t.label("taken differs" if f.tmin != f.tmax else "fixed time")


def mk(f):
    from prog import Node
    return Node("ins", form=f, size=f.size, slots=list(f.slots))


BASE = {}


def base(t, which):
    if which not in BASE:
        BASE[which] = report(t.asm("\n", which))
    return BASE[which]


def prog(src, t):
    p = program(src, n=14, kinds=KINDS + [(2, "import")])
    files = {nd.fname: nd.data for nd in p.nodes if nd.kind == "import"}
    l, b = label_table(p)
    lines = wrap(src, p.nodes, files, 2, [0]) + l
    data = len(b) + sum(nd.size for nd in p.nodes if nd.kind in ("data", "fill", "here", "import"))
    code = [nd.form for nd in p.nodes if nd.kind == "ins"]
    defs = {l.split()[1].upper() for l in lines if l.startswith("#macro")}
    for f in files.values():
        if isinstance(f, str):
            defs |= {l.split()[1].upper() for l in f.split("\n") if l.startswith("#macro")}
    names = {n.upper() for n in p.final}
    args = []
    for k in range(src.draw(4)):
        w = src.draw(5)
        n = "zdef_%d" % src.draw(3)
        if w <= 1:
            # always ahead of the program: uses are only by name
            lines.insert(0, "#define %s %d" % (n, src.draw(99)))
            defs.add(n.upper())
        elif w == 2:
            lines.insert(0, "#define %s(x,y) x+y" % n)
            defs.add(n.upper())
        elif w == 3:
            lines += ["#define tmp_%d 1" % k, "#undef tmp_%d" % k]
        else:
            args.append("-Dcmd_%d" % src.draw(2) + ("=3" if src.draw(2) else ""))
            defs.add(args[-1][2:].split("=")[0].upper())
    if src.draw(3) == 0:
        lines.append(" .echo \"x\",1+2")
    if src.draw(3) == 0:
        lines += ["_:"]
    s = "\n".join(lines) + "\n"
    opts = ["-S"] + (["-C"] if src.draw(2) else [])
    r = t.asm(s, opts + args + src.sample(["-T", "-L"], src.draw(3)), files=files)
    expect_bytes(merge(p, b), ok_output(r))
    csz = sum(f.size for f in code)
    want = {"Number of labels": len(names) + base(t, ("-S",))["Number of labels"], "Number of defines": len(defs) + base(t, ("-S",))["Number of defines"],
            "Code size": csz, "Data size": data, "Total size": csz + data}
    if "-C" in opts:
        want.update({"Size": csz, "Min. execution time": sum(f.tmin for f in code), "Max. execution time": sum(f.tmax for f in code)})
    check(report(r), want, s)
    if code or names:
        t.nontrivial(s + repr(opts))
        t.sample(s)


def overlap(src, t):
    """Large counts."""
    f = src.choice(SWEEP)
    while "e" in f.slots:
        f = src.choice(SWEEP)
    n = src.int(1, 3000)
    ins = f.mn + " " + ",".join(f.render(["1" if x not in "rd" else "8" if x == "r" else "+1" for x in f.slots]))
    d = src.int(0, 90000)
    s = "#macro one\n " + ins + "\n#endmacro\n#macro ten\n" + " one\n" * 10 + "#endmacro\n" + " ten\n" * (n // 10) + " one\n" * (n % 10) + " .fill %d\n" % d
    s += "".join("l%d = %d\n" % (k, k) for k in range(n // 3))
    r = t.asm(s, ["-S", "-C"])
    check(report(r), {"Code size": f.size * n, "Data size": d, "Total size": f.size * n + d, "Min. execution time": f.tmin * n,
                      "Max. execution time": f.tmax * n}, s)
    check(report(t.asm(s, ["-S"])), {"Code size": f.size * n, "Data size": d, "Number of labels": n // 3}, s)
    t.nontrivial(s)


def load_times():
    T = {}
    with open(os.path.join(os.path.dirname(os.path.abspath(ez80ref.__file__)), "ez80times.json")) as fo:
        for k, v in json.load(fo).items():
            m = tuple(map(int, re.split(r"[/+]", k)))
            for f in v:
                T[f] = m
    return T


TIMES = load_times()


def ez_one(f, suf, adl):
    """Size and times: a suffix costs one cycle; some instructions take longer with 24-bit data or instructions."""
    tmin, tmax, pen = TIMES[f.mn + " " + ",".join(f.ops)]
    d = (1 if suf else 0) + (pen if ez80ref.lengths(suf, adl) != (0, 0) else 0)
    return ez80ref.Bound(f, suf, adl).size, tmin + d, tmax + d


def ez_ins(f, suf, src=None):
    def val(s):
        if s == "d":
            return src.choice(["", "+5", "-3"]) if src and "(" in " ".join(f.ops) else "+5"
        if s == "r":
            return src.choice(["0", "38h"]) if src else "8"
        if s == "e":
            return "$+%d" % src.int(0, 40) if src else "$+2"
        if s == "b":
            return str(src.int(0, 7)) if src else "1"
        if s == "n":
            return str(src.int(0, 255)) if src else "1"
        return str(src.int(0, 40000)) if src else "1"
    return " " + f.mn.lower() + suf + " " + ",".join(f.render([val(x) for x in f.slots])).lower()


def ez_text(f, suf, adl):
    return " .assume adl=%d\n%s\n" % (adl, ez_ins(f, suf))


def ez_sweep(src, t):
    f = ez80ref.FORMS[src.draw(len(ez80ref.FORMS))]
    lines, tot = [], [0, 0, 0]
    for adl in (1, 0):
        if src.draw(2) or not adl:
            lines.append(" .assume adl=%d" % adl)
        for suf in [""] + ez80ref.SUFFIXES[1:]:
            lines.append(ez_ins(f, suf, src))
            for k, v in enumerate(ez_one(f, suf, adl)):
                tot[k] += v
    s = "\n".join(lines) + "\n"
    check(report(t.asm(s, ["-E", "-C"])), dict(zip(("Size", "Min. execution time", "Max. execution time"), tot)), s)
    t.nontrivial(s)


def ez(src, t):
    lines, adl, tot = [], 1, [0, 0, 0]
    data = labels = 0
    for _ in src.many(1, 6, 25):
        if src.draw(5) == 0:
            adl = src.draw(2)
            lines.append(" .assume adl=%d" % adl)
        f = src.choice(ez80ref.FORMS)
        suf = src.choice(["", "", ""] + ez80ref.SUFFIXES)
        lines.append(ez_ins(f, suf, src))
        for k, v in enumerate(ez_one(f, suf, adl)):
            tot[k] += v
        if src.draw(4) == 0:
            k = src.draw(3)
            lines.append([" .db 1,2", "lab%d:" % len(lines), " .dl $"][k])
            data += (2, 0, 3)[k]
            labels += k == 1
    s = "\n".join(lines) + "\n"
    r = t.asm(s, ["-E", "-C", "-S"] + (["-O"] if src.draw(6) == 0 else []))
    want = dict(zip(("Size", "Min. execution time", "Max. execution time"), tot))
    want.update({"Code size": tot[0], "Data size": data, "Total size": tot[0] + data, "Number of labels": labels})
    check(report(r), want, s)
    t.nontrivial(s)


class Probe:
    """Runs another property's program with -S and keeps the result."""

    def __init__(self, t):
        self.t, self.r = t, None

    def asm(self, s, args=(), files=None):
        self.src = s
        self.r = self.t.asm(s, list(args) + ["-S"], files=files)
        return self.r

    def label(self, *a):
        pass

    nontrivial = sample = label


def bitmaps(src, t):
    """Included bitmaps and strings are data: all that is written here."""
    p = Probe(t)
    try:
        p24.one(src, p)
    except Violation:
        pass
    if p.r is None or p.r.files["out.bin"] is None:
        raise Discard("no output")
    n = len(p.r.files["out.bin"])
    check(report(p.r), {"Code size": 0, "Data size": n, "Total size": n}, p.src)
    t.nontrivial(p.src)


def parts(tier):
    q = tier == "quick"
    return [("sweep", singly, len(SWEEP) * (1 if q else 6)), ("prog", prog, 6000 if q else 120000), ("overlap", overlap, 100 if q else 2000),
            ("sweep_ez", ez_sweep, len(ez80ref.FORMS) * (1 if q else 5)), ("ez", ez, 2000 if q else 40000),
            ("bitmaps", bitmaps, 400 if q else 10000)]
