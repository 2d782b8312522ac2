"""P20: every error is reported at its file and line, and fails the run."""
from collections import Counter
import re
from core import Violation, Discard, alive, diags, expect_bytes
from expr import mixcase
from p12 import Files
from p24 import bmp
import struct

PROP = "P20"
TECHNIQUE = "fault injection: known faults at random places of random valid programs (files, macros, conditionals, run(), defines); the diagnostics must be exactly the injected ones"
NOTE = ("Catalogue of about 130 faults of the first and second pass. Faults whose effect reaches beyond their line "
        "(unclosed quotes and blocks, fatal uncoded errors) are only generated as the last line of a program. "
        "Faults of the second pass are expected only when the first pass found none.")
RULE = "distinct programs with at least one fault that is reached, or a fault in a part that is skipped"

# class, code, text; {n} is a number unique to the fault, {m} the same as part of the message
# E first pass, U first pass at once and without a code, W first pass warning at once,
# S second pass, B second pass at once and without a code, F second pass and fatal
# the last column is the number of bytes, for the classes that still give output
CAT = [
    ("E", "SE113", " zork_{m}"), ("E", "SE113", " .zork_{m}"), ("E", "SE113", " zork_{m} 5,6"), ("E", "SE113", "lab_{n}: zork_{m} a,(hl)"),
    ("E", "SE113", " zork_{m}(5)"), ("E", "SE113", " wr_{m}(5)"), ("E", "SE113", " ldi_{m}"), ("E", "SE113", " LD_{m} a,5"),
    ("E", "SE111", "#zork_{n}"), ("E", "SE111", " #zork_{n} 5"),
    ("E", "SE110", " ld a,b,{n}"), ("E", "SE110", " push a"), ("E", "SE110", " nop {n}"), ("E", "SE110", " jr po,{n}"), ("E", "SE110", " ld a"),
    ("E", "SE110", " ld"), ("E", "SE110", " ld a,"), ("E", "SE110", " add hl"), ("E", "SE110", " in a,{n}"), ("E", "SE110", " out {n},a"),
    ("E", "SE110", " im 3"), ("E", "SE110", " call"), ("E", "SE110", " call q,{n}"), ("E", "SE110", " ret {n}"), ("E", "SE110", " ex af,bc"),
    ("E", "SE110", " ld i,b"), ("E", "SE110", " sbc a"), ("E", "SE110", " bit a"), ("E", "SE110", " pop hl,de"), ("E", "SE110", " djnz"),
    ("E", "SE110", " rst"), ("E", "SE110", " exx {n}"), ("E", "SE110", " inc af"), ("E", "SE110", " buf({n}9)"),
    ("E", "SE131", " ld a,(ix*{n})"), ("E", "SE131", " inc (iy/2)"),
    ("E", "SE121", " ld a,(ix+200)"), ("E", "SE121", " ld (iy-130),b"), ("E", "SE121", " set 3,(ix+128)"),
    ("E", "SE120", " jr $+200"), ("E", "SE120", " djnz $+30000"), ("E", "SE120", " jr nz,$+131"),
    ("E", "SE127", " rst 3"), ("E", "SE127", " rst 40h"), ("E", "SE127", " rst $39"),
    ("E", "SW800", " ld a,300"), ("E", "SW800", " .db 256"), ("E", "SW800", " .db 1,-129,2"), ("E", "SW800", " .fill 3,300"), ("E", "SW800", " cp 1000"),
    ("E", "SW800", " .byte 5,999"), ("E", "SW800", " and -300"), ("E", "SW800", " in a,(300)"), ("E", "SW800", " ld (ix+1),256"),
    ("E", "SE104", " .db 1,"), ("E", "SE104", " .db ,1"), ("E", "SE104", " .db"), ("E", "SE104", " .dw 1+"), ("E", "SE104", " .dw"), ("E", "SE104", " .org"),
    ("E", "SE104", " .fill"), ("E", "SE104", "x_{n} .equ"), ("E", "SE104", "x_{n} = 1+"), ("E", "SE104", " .option"),
    ("E", "SE105", " .dw *3"), ("E", "SE105", " .db @"), ("E", "SE105", " .db %"), ("E", "SE105", " .db ^5"), ("E", "SE105", " .dw 2,/3"), ("E", "SE105", " ld hl,@{n}"),
    ("E", "SE103", " .dw 5 5"), ("E", "SE103", " .dw 5 foo"), ("E", "SE103", " .db $GG"), ("E", "SE103", " ld a,5 @"), ("E", "SE103", " .dw 1+2 3"),
    ("E", "SE203", " .db 5/0"), ("E", "SE203", " .dw 5%0"), ("E", "SE203", " ld a,{n}/(1-1)"), ("E", "SE203", "x_{n} = 1/0"), ("E", "SE203", " .dw 1,2,3/0"),
    ("E", "SE205", " .dw $80000000/-1"), ("E", "SE204", " .dw 99999999999"), ("E", "SE204", " ld hl,$123456789"),
    ("E", "SE200", " .db 12a"), ("E", "SE200", " .db 0x12"), ("E", "SE202", " .db 1012b"), ("E", "SE103", " .dw 1_{n}"),
    ("E", "SE107", " .org -{n}"), ("E", "SE108", " .fill -{n}"), ("E", "SE108", " .block -1"),
    ("E", "SE133", " .org undef_{m}"), ("E", "SE133", " .fill undef_{m}"), ("E", "SE133", "x_{n} = undef_{m}"), ("E", "SE133", " .seek undef_{m}"), ("E", "SE133", " .fill undef_{m},0"),
    ("E", "SE133", "x_{n} .equ undef_{m}+1"), ("E", "SE133", " .block 2*undef_{m}"),
    ("E", "SE101", " .dw ---5_"), ("E", "SE101", " ld a,-_"), ("E", "SE115", " .dw " + "(" * 23 + "1" + ")" * 23),
    ("E", "SE119", " {n}"), ("E", "SE119", " \"abc\""), ("E", "SE119", " (5)"), ("E", "SE119", " +"), ("E", "SE119", " .dw 1)"), ("E", "SE119", "lab_{n}: 5"),
    ("E0", "SE118", "#ifdef"), ("E0", "SE118", "#ifndef"),
    ("E", "SE122", "#define"), ("E", "SE122", "#undef"), ("E", "SE122", "#undefine"), ("E", "SE122", "#macro"),
    ("E", "SE125", " .assume adl={n}9"), ("E", "SE125", " .assume zork={n}"), ("E", "SE125", " .assume"),
    ("E", "SE126", " .addinstr"), ("E", "SE126", " .addinstr zz_{n}"), ("E", "SE126", " .addinstr zz_{n} \"\" 12"),
    ("E", "SE109", " .echo >"), ("E", "SE109", " .echo >>"), ("E", "SE002", " .echo > \"none_{m}/x\" 5"),
    ("E", "SE600", " .error \"text {m}\""), ("E", "SE600", " .error \"\""), ("E", "SE600", " .error \"\",\"\""), ("E", "SE600", " .error {n}+1"), ("E", "SE600", " .error \"a;b\\\\\",{n}"),
    ("E2", "SE001", "#include \"none_{m}\""), ("E", "SE001", "#import \"none_{m}\""), ("E", "SE001", "#import none_{m}"), ("E2", "SE001", "#include none_{m}.inc"),
    ("E0", "SE301", " run({r})"),
    ("U", None, "#include"), ("U", None, "#import"), ("U0", None, "#define f_{n}(x)"), ("U0", None, "#define f_{n}(x,y)"),
    ("E", "SE001", ' .dw getc("none_{m}",0)'), ("E", "SE125", " .option 5=3"), ("E", "SE125", " .option =3"), ("E0", "SE118", "#if"),
    ("W", None, " .dw (1", 2), ("W", None, " ld hl,2*(1+1", 3), ("W", None, " .db 1,(3+(2*2)", 2), ("W", None, " .db 'a", 1), ("W", None, " jp (5)", 3),
    ("W", None, " and (5)", 2),
    ("S", "SE106", " .dw undef_{m}", 2), ("S", "SE106", " ld hl,undef_{m}", 3), ("S", "SE106", " .db undef_{m}+1", 1), ("S", "SE106", " jp z,undef_{m}", 3), ("S", "SE106", " jr undef_{m}", 2),
    ("S", "SE106", " .db 1,\"a\",undef_{m},3", 4), ("S", "SE106", " ld a,(ix+undef_{m})", 3), ("S", "SE106", " .dw zfar+undef_{m}", 2), ("S", "SE106", " bit undef_{m},a", 2), ("S", "SE106", " rst undef_{m}", 1),
    ("S", "SE106", " .dl undef_{m}>>8", 3), ("S", "SE106", " ld (ix+5),undef_{m}", 4), ("S", "SE106", " .echo undef_{m}", 0), ("S", "SE106", " .show undef_{m}", 0), ("S", "SE106", " .echo \"x\",1+undef_{m}", 0),
    ("S", "SE106", " call nz", 3), ("S", "SE106", "lab_{n}: out (undef_{m}),a", 2), ("S", "SE100", " .dw ++++++++++++_", 2), ("S", "SE106", " ld a,(undef_{m})", 3),
    ("S", "SE106", " ld a,~undef_{m}", 2), ("S", "SE106", " .word 5-(3*undef_{m})", 2), ("S", "SE106", " sub undef_{m}.x", 2),
    ("U", None, " bit 8,a", 2), ("U", None, " set 9,(hl)", 2), ("B", None, " res zfar,(ix+1)", 4), ("U", None, " bit -1,c", 2), ("B", None, " bit zfar-8,a", 2), ("B", None, " set zfar/3,(hl)", 2),
    ("F", "SE120", " jr zfar"), ("F", "SE120", " djnz zfar"), ("F", "SE121", " ld a,(ix+zfar)"), ("F", "SW800", " ld a,zfar"), ("F", "SW800", " .db zfar"), ("F", "SE127", " rst zfar"),
    ("F", "SW800", " ld (iy+5),zfar"), ("F", "SE203", " .dw zfar/0"), ("F", "SE203", " .dw 1/(zfar-30000)"), ("F", "SE203", " .db 1,zfar%(zfar-zfar)"), ("F", "SE104", " .echo"),
    ("F", "SW800", " cp zfar"), ("F", "SE120", " jr c,zfar-1"),
]
CLASSES = {}
for i, c in enumerate(CAT):
    CLASSES.setdefault(c[0], []).append(i)


ODD = ["(5", "((", ")", "'3", "5/0", "-_", "und", "und+1", "zork", "ld b", "12a", "1+*2", "(1 2)", "99999999999", "mac_1", "mac_2", "def_3", "odd_1", "odd_3(", "L_1",
       "x", "x+", ".db 300", "a,(hl)", "$", "%", "@", "[", "{", "&", "~", "jr 500", "__LINE", "5 ; c", "-" * 8, "5==", "res 9,a", "eval(3+4)", "7,8"]


class G:
    """A program under construction: files with lines, and operations with what they give."""

    def __init__(self, src, t, classes, modes):
        self.src = src
        self.F = Files(src, t)
        self.classes = classes
        self.n = 0
        self.budget = 40
        self.macros = []              # [name, operations]
        self.defs = []                # (name, text, event or byte)
        self.mis = []                 # (name, line of the call inside or None)
        self.inner = set()            # macros called by macros
        self.inmacro = 0
        self.nocall = False
        self.skipped = 0
        self.injected = 0
        self.refs = []
        self.labels = set()
        self.reach = Counter()

    # operations: ("b", bytes) ("x", size) ("ev", cls, file, line, code, token) ("call", note, ops) ("lab", i) ("ref", i) ("pc",)
    def fault(self, file, line, plain=False):
        src = self.src
        i = src.choice(CLASSES[src.choice(self.classes)])
        c = CAT[i]
        self.n += 1
        self.injected += 1
        m = "q%d" % self.n
        txt = c[2].replace("{n}", m[1:]).replace("{r}", str(src.draw(10))).replace("{m}", m)
        if plain and (any(x in txt for x in '"\\\'#') or txt[0] != " "):
            txt, c = " zork_" + m, CAT[0]
        tok = m if "{m}" in c[2] else ""
        cls = c[0]
        ops = []
        cls = cls.replace("0", "")
        if cls == "E2":
            ops.append(("ev", "U", file, line, None, tok))
            cls = "E"
        ops.append(("ev", cls, file, line, c[1], tok))
        if len(c) > 3 and c[3]:
            ops.append(("x", c[3]))
        return txt, ops

    def simple(self, rep):
        """A correct statement and its operations."""
        src = self.src
        k = src.draw(8)
        v = src.int(0, 255)
        if k == 0:
            return " nop", [("b", b"\0")]
        if k == 1:
            return " .db %d" % v, [("b", bytes([v]))]
        if k == 2:
            return " ld a,%d" % v, [("b", bytes([0x3E, v]))]
        if k == 3:
            return " .dw $", [("pc",)]
        if k == 4:
            i = src.draw(6)
            self.refs.append(i)
            return " .dw L_%d" % i, [("ref", i)]
        if k == 5 and not rep:
            i = src.draw(6)
            if i not in self.labels:
                self.labels.add(i)
                return "L_%d:" % i, [("lab", i)]
        if k == 6:
            return ' .db "a;b\\\\",(%d)' % v, [("b", b"a;b\\" + bytes([v]))]
        return " ld (ix+5),%d" % v, [("b", bytes([0xDD, 0x36, 5, v]))]

    def using(self, d, e):
        if e[0] in "lz":
            return self.src.choice([" %s", "\t%s ;x", " %s \\ nop"]) % d
        return self.src.choice([" .dw %s", " ld hl,%s", " .dw 1+%s"]) % d

    def body(self, lines, file, depth, rep, base=0, kinds=None):
        """Appends lines to a file (shown as file, line numbers from base+1); returns operations."""
        src, ops = self.src, []
        for _ in src.many(1, 5, 12):
            self.budget -= 1
            deep = depth > 0 and self.budget > 0
            k = src.weighted([(6, "ok"), (5, "fault"), (2, "blank"), (1, "multi"), (2 if deep else 0, "if"), (2 if deep and not rep else 0, "inc"),
                              (2 if deep and not rep else 0, "macro"), (3 if self.macros and not self.nocall else 0, "call"), (1, "skip"), (1 if deep else 0, "run"), (1 if not rep else 0, "def"), (1 if not rep else 0, "odd"),
                              (2 if self.defs and not self.inmacro else 0, "use"), (1 if not rep else 0, "mis"), (2 if self.mis and not self.inmacro else 0, "miscall")])
            if kinds and k not in kinds:
                k = "ok"
            n = base + len(lines) + 1
            if k == "ok":
                s, o = self.simple(rep)
                lines.append(s + src.choice(["", "", " ; c", "\t"]))
                ops += o
            elif k == "fault":
                s, o = self.fault(file, n)
                if rep and s[0] not in " #":
                    s, o = " zork", [("ev", "E", file, n, "SE113", "zork")]
                lines.append(s + (src.choice(["", "", " ", " ;c"]) if s.count('"') % 2 == 0 and s.count("'") % 2 == 0 and not s.startswith(" .echo >") else ""))
                ops += o
            elif k == "blank":
                lines += src.choice([[""], ["", ""], [" ;zork"], ["#comment", " zork", "#zork", "#endcomment"], ["#region x", "#endregion"], ["\t"]])
            elif k == "multi":
                row, f = [], 0
                for _ in src.many(2, 3, 5):
                    # (a faulty statement may hide those after it in its line)
                    s, o = self.fault(file, n, True) if src.draw(3) == 0 and not f else self.simple(True)
                    f |= any(x[0] == "ev" for x in o)
                    if '"' in s:
                        s, o = " nop", [("b", b"\0")]
                    row.append(s)
                    ops += o
                lines.append(" \\".join(row))
            elif k == "if":
                t = src.draw(2)
                lines.append(src.choice(["#if %d" % t, "#if 2*%d" % t, "#%s SPASM" % ("ifdef" if t else "ifndef"), "#if 3-(%d)" % (2 if t else 3)]))
                a = self.body(lines, file, depth - 1, True, base)
                b = []
                z = src.draw(3)
                if z:
                    lines.append("#else" if z == 1 else "#elif 1")
                    b = self.body(lines, file, depth - 1, True, base)
                lines.append("#endif")
                ops += a if t else b
                self.skipped += 1
            elif k == "skip":
                lines.append("#if 0")
                for _ in src.many(1, 2, 4):
                    s, o = self.fault(file, n)
                    if s.strip().startswith("#") and not s.strip().startswith(("#zork", "#include", "#import", "#define", "#undef")) or s.count('"') % 2 or s.count("'") % 2:
                        s = " zork"
                    lines.append(s)
                lines.append("#endif")
                self.skipped += 1
            elif k == "inc":
                shown, key = self.F.path()
                full = self.F.found(shown, key)
                inner = []
                times = src.choice([1, 1, 2])
                o = self.body(inner, full, depth - 1, times > 1)
                self.F.files[key] = self.F.store(inner)
                for _ in range(times):
                    lines.append(self.F.directive(shown))
                    ops += o
            elif k == "macro":
                self.n += 1
                old = [m for m in self.macros if m[0] not in self.inner]
                # a redefinition takes the place of the old one
                m = src.choice(old) if old and src.draw(3) == 0 else ["mac_%d" % self.n, None]
                name = m[0]
                lines.append("#macro " + name + src.choice(["", "(p,q)", "()"]))
                self.inmacro += 1
                self.nocall = m[1] is not None
                o = self.body(lines, file, depth - 1, True, base, kinds=("ok", "fault", "blank", "multi", "if", "call", "skip"))
                self.inmacro -= 1
                self.nocall = False
                lines.append("#endmacro")
                if m[1] is None:
                    self.macros.append(m)
                m[1] = o
            elif k == "call":
                name, o = src.choice(self.macros)
                if self.inmacro:
                    self.inner.add(name)
                lines.append(" " + name + src.choice(["", "()", " ; c", " \\ nop"]))
                ops.append(("call", (file, n), name, o))
                if lines[-1].endswith("nop"):
                    ops.append(("b", b"\0"))
            elif k == "odd":
                # what no line uses gives no diagnostics
                self.n += 1
                lines.append("#define odd_%d%s %s" % (self.n, src.choice(["", "", "()", "(x)"]), src.choice(ODD)))
            elif k == "run":
                b = src.draw(10)
                lines.append(" clr(%d)" % b if b else " clr()")
                o = []
                first = True
                for j in range(src.int(1, 4)):
                    s, oo = self.fault("Built-in fcreate", j + 1, True) if src.draw(3) == 0 else self.simple(True)
                    if '"' in s or "'" in s:
                        s, oo = " nop", [("b", b"\0")]
                    lines.append(' wr("%s")' % s)
                    o += oo
                lines.append(" run(%d)" % b if b else " run()")
                ops.append(("call", (file, base + len(lines)), "fcreate", o))
            elif k == "def":
                self.n += 1
                d = "def_%d" % self.n
                e, code, tok = src.choice([("5/0", "SE203", ""), ("1+*2", "SE105", ""), ("12a", "SE200", ""), ("(1 2)", "SE103", ""), ("und", "ok", ""), ("zork_%d" % self.n, "SE113", "zork_%d" % self.n), ("ld b", "SE110", "")])
                if src.draw(2):
                    lines.append("#define %s 7" % d)
                if src.draw(4) == 0:
                    lines.append("#undef %s" % d)
                n = base + len(lines) + 1
                if code == "ok":
                    v = src.int(0, 255)
                    lines.append("#define %s %d" % (d, v))
                    lines.append(" .db " + d)
                    ops.append(("b", bytes([v])))
                    self.defs.append((d, "0", v))
                else:
                    lines.append("#define %s %s" % (d, e))
                    ev = ("ev", "E", file, n, code, tok)
                    self.defs.append((d, e, ev))
                    for _ in src.many(0, 1, 3):
                        u = base + len(lines) + 1
                        lines.append(self.using(d, e))
                        ops.append(("call", (file, u), d, [ev]))
            elif k == "use":
                d, e, ev = src.choice(self.defs)
                if isinstance(ev, int):
                    lines.append(src.choice([" .db %s", ".byte\t%s ; c", " .db (%s)"]) % d)
                    ops.append(("b", bytes([ev])))
                else:
                    lines.append(self.using(d, e))
                    ops.append(("call", (file, n), d, [ev]))
            elif k == "mis":
                # a parameter without an argument, also if a calling macro has one of that name
                self.n += 1
                name = "mis_%d" % self.n
                if self.mis and src.draw(2):
                    inner, at = src.choice(self.mis)
                    lines += ["#macro %s(x)" % name, src.choice([" %s", " %s()", " nop \\ %s"]) % inner, "#endmacro"]
                    self.mis.append((name, at or (file, n + 1)))
                else:
                    lines += ["#macro %s(%s)" % (name, src.choice(["x", "x,y", "X"])), src.choice([" ld a,x", " .dw x+1", " .db x*2", " ld (ix+x),5", " cp 5+x", " .fill x", " jr x", " bit x,a", " ld hl,(x)", " .dw 1+x", " .org x", " .dw 1,1+x", " rst x"]).replace("{n}", str(self.n)), "#endmacro"]
                    self.mis.append((name, None))
            elif k == "miscall":
                name, at = src.choice(self.mis)
                # called by a macro, it does not get the caller's argument
                lines.append(src.choice([" %s(7)", " %s", " %s()"]) % name if at else src.choice([" %s", " %s()", " %s ;c"]) % name)
                ops.append(("call", (file, n), name, [("ev", "E", *(at or (file, n)), "SE102", "")]))
        return ops


def execute(ops, out, evs, labs, fix, note=None):
    for o in ops:
        if o[0] == "b":
            out += o[1]
        elif o[0] == "x":
            out += [None] * o[1]
        elif o[0] == "pc":
            out += (len(out) & 0xFFFF).to_bytes(2, "little")
        elif o[0] == "lab":
            labs[o[1]] = len(out)
        elif o[0] == "ref":
            fix.append((len(out), o[1]))
            out += [None, None]
        elif o[0] == "call":
            execute(o[3], out, evs, labs, fix, note or (o[1], o[2]))
        else:
            evs.append(o[1:] + (note,))
        if len(evs) > 300 or len(out) > 20000:
            raise Discard("too large")


NOTE_RE = re.compile(r"^(.*):(-?\d+): Error during (?:invocation|evaluation) of (?:macro )?'?(.*?)'?$")


def judge(t, g, ops, main, r, modes):
    out, evs, labs, fix = [], [], {}, []
    execute(ops, out, evs, labs, fix)
    for pos, i in fix:
        out[pos:pos + 2] = labs[i].to_bytes(2, "little")
    cls = {e[0] for e in evs}
    first_bad = bool(cls & {"E"})
    want = Counter()
    notes = Counter()
    for c, file, line, code, tok, note in evs:
        if first_bad and c in "SBF":
            continue
        want[(file, line, "warning" if c == "W" or code and code[1] == "W" else "error", code)] += 1
        if c == "E" and note:
            notes[(note[0], note[1].upper() if note[1] != "fcreate" else "fcreate", file, line, code)] += 1
    # warnings may be repeated for one line
    got = Counter()
    ds = diags(r)
    for d in ds:
        got[(d.file, d.line, d.kind, d.code)] += 1
    errors = any(k[2] == "error" or k[3] for k in want)
    exp = (2, 3) if errors else (1,) if want else (0,)
    if r.rc not in exp:
        raise Violation("exit status %d, expected %s" % (r.rc, exp), output=r.text()[:2000])
    if "-C" in modes:
        # -C suppresses messages, not the status
        return
    w = lambda c: Counter({k: v for k, v in c.items() if not (k[2] == "warning" and k[3] is None)})
    ww = lambda c: {k for k in c if k[2] == "warning" and k[3] is None}
    if w(want) != w(got) or ww(want) != ww(got):
        raise Violation("diagnostics are not those of the faults: missing %s, unexpected %s" % (sorted(map(str, (w(want) - w(got)) or (ww(want) - ww(got)))), sorted(map(str, (w(got) - w(want)) or (ww(got) - ww(want))))), output=r.text()[:2000])
    # each message names its own symbol
    toks = Counter((f, l, c, k) for cl, f, l, c, k, _ in evs if c and k and not (first_bad and cl in "SBF"))
    for (f, l, c, k), cnt in toks.items():
        have = sum(1 for d in ds if (d.file, d.line, d.code) == (f, l, c) and k in d.msg)
        if have < cnt:
            raise Violation("message of %s:%d %s does not name %r" % (f, l, c, k), output=r.text()[:2000])
    # errors inside of macros also say which line invoked them
    have = Counter()
    prev = None
    for l in r.lines():
        m = NOTE_RE.match(l)
        if m:
            prev = m
            continue
        for d in ds:
            if prev and l.startswith("%s:%d: %s %s: " % (d.file, d.line, d.kind, d.code)):
                have[((prev.group(1), int(prev.group(2))), prev.group(3), d.file, d.line, d.code)] += 1
                break
        prev = None
    if notes - have:
        raise Violation("no note about the invocation: %s" % sorted(map(str, notes - have)), output=r.text()[:2000])
    b = r.files["out.bin"]
    if any(k[3] and k[3] not in ("SE106", "SE100") for k in want):
        if b is not None:
            raise Violation("output written in spite of fatal errors", output=r.text()[:1500])
    else:
        if b is None:
            raise Violation("no output written", output=r.text()[:1500])
        if len(b) != len(out):
            raise Violation("output of %d bytes, expected %d" % (len(b), len(out)), output=r.text()[:1500])
        b = bytearray(b)
        for i, x in enumerate(out):
            if x is None:
                b[i] = 0
        expect_bytes(bytes(x or 0 for x in out), bytes(b))
    for c in cls:
        t.label("class " + c)


def assemble(src, t, classes):
    g = G(src, t, classes, None)
    abs_ = src.draw(4) == 0
    main = (g.F.root + "/in.asm") if abs_ else "in.asm"
    lines = []
    ops = g.body(lines, main, 3, False)
    lines.append("zfar = 30000")
    for i in sorted(set(g.refs) - g.labels):
        lines.append("L_%d:" % i)
        ops.append(("lab", i))
    z = src.draw(6)
    if z == 0:
        ops += tail(src, g, lines, main)
    args = ["-N"] + [m for m in ("-T", "-L", "-C", "-S") if src.draw(5) == 0] + g.F.args
    s = g.F.store(lines) if z else "\n".join(lines).encode("latin-1") + b"\n"
    files = {"in.asm": s}
    files.update(g.F.files)
    r = t.run(files, args + [main, "out.bin"], want=("out.bin",))
    judge(t, g, ops, main, r, args)
    if g.injected:
        t.nontrivial(s + repr(sorted(g.F.files.items())).encode())
        t.sample(s.decode("latin-1"))


def tail(src, g, lines, main):
    """Faults that take the rest of the file with them."""
    n = len(lines) + 1
    k = src.draw(8)
    if k == 6:
        lines += [" nop", '#include "abc']
        return [("b", b"\0"), ("ev", "U", main, n + 1, None, ""), ("ev", "E", main, n + 1, "SE001", "")]
    if k == 7:
        lines += ["#define d_c 1", "#undef d_c", src.choice(["#defcont +1", "#defcont 5", "#DEFCONT zork"]), " nop"]
        return [("ev", "E", main, n + 2, "SE123", ""), ("b", b"\0")]
    if k == 0:
        lines += ["#if 1", " .db 7"]
        return [("b", b"\7"), ("ev", "E", main, n, "SE116", "")]
    if k == 1:
        lines += ["#ifdef SPASM", " .db 7", "#else", " zork"]
        return [("ev", "E", main, n, "SE116", "")]
    if k == 2:
        lines += [" .db 5", " .db \"abc"]
        return [("ev", "E", main, n + 1, "SE132", "")]
    if k == 3:
        lines += ["#if 1", "#if 1", " .db 7", "#endif"]
        return [("ev", "E", main, n, "SE116", "")]
    if k == 4:
        lines += ["", "#else", " nop", "#endif", " nop", "#elif 1", " nop"]
        return [("ev", "E", main, n + 1, "SE117", ""), ("ev", "E", main, n + 3, "SE117", ""), ("ev", "E", main, n + 5, "SE124", "")]
    lines += [" nop", " .dw \"abc", " nop"]
    return [("b", b"\0"), ("ev", "E", main, n + 1, "SE132", "")]


def early(src, t):
    assemble(src, t, ["E", "E", "E", "E", "U", "W", "S", "E2", "E", "F"])


def late(src, t):
    assemble(src, t, ["S", "S", "B", "W", "F"])


def output(src, t):
    assemble(src, t, ["S", "S", "B", "W"])


def one(src, t):
    assemble(src, t, [src.choice(sorted(set(CLASSES) - {"E0", "U0"}))])


def sweep(src, t):
    """Each fault of the catalogue between correct lines."""
    i = src.draw(len(CAT))
    g = G(src, t, [CAT[i][0]], None)
    lines, ops = [], []
    CLASSES_I = CLASSES[CAT[i][0]]
    for where in range(src.int(1, 4)):
        for _ in range(src.int(0, 3)):
            s, o = g.simple(False)
            lines.append(s)
            ops += o
        if src.draw(3) == 0 and where:
            lines += ["#if 0", " zork", "#endif"]
        k = CLASSES_I.index(i)
        saved = CLASSES[CAT[i][0]]
        CLASSES[CAT[i][0]] = [i]
        try:
            s, o = g.fault("in.asm", len(lines) + 1)
        finally:
            CLASSES[CAT[i][0]] = saved
        lines.append(s)
        ops += o
    lines.append("zfar = 30000")
    for j in sorted(set(g.refs) - g.labels):
        lines.append("L_%d:" % j)
        ops.append(("lab", j))
    s = "\n".join(lines) + "\n"
    r = t.asm(s)
    judge(t, g, ops, "in.asm", r, [])
    t.nontrivial(s)
    t.sample(s)


def valid(src, t):
    """No faults but those in skipped parts: no diagnostics, exit status 0, all the bytes."""
    g = G(src, t, ["E", "S", "B", "F", "U"], None)
    lines = []
    main = "in.asm"
    ops = g.body(lines, main, 3, False, kinds=("ok", "blank", "call", "skip", "odd"))
    lines.append("zfar = 30000")
    for i in sorted(set(g.refs) - g.labels):
        lines.append("L_%d:" % i)
        ops.append(("lab", i))
    s = g.F.store(lines)
    r = t.run(dict(g.F.files, **{"in.asm": s}), ["-N"] + [m for m in ("-T", "-L", "-S") if src.draw(3) == 0] + g.F.args + [main, "out.bin"], want=("out.bin",))
    judge(t, g, ops, main, r, [])
    if g.skipped:
        t.nontrivial(s)
        t.sample(s.decode("latin-1"))


def fatal_line(src):
    """One statement (its line number within the text, the text) that stops with a fatal message."""
    ps = ["a%d" % k for k in range(src.int(1, 6))]
    a = src.choice(ps)
    dup = ps + [mixcase(src, a)]
    many = ["p%d" % k for k in range(17 + src.draw(6))]
    sep = src.choice([",", ", "])
    big = src.choice([0x800001, 20000000, 0x7FFFFFFF, 9999999])
    return src.choice([
        "#macro dm(%s)\n nop\n#endmacro" % sep.join(dup), "#define dm(%s) %s+1" % (sep.join(dup), a), "#MACRO dm(%s)\n nop\n#endmacro" % sep.join(src.shuffle(dup)),
        "#define dm(%s) p1" % sep.join(many), "#macro dm(%s)\n nop\n#endmacro" % sep.join(many),
        " .fill %d" % big, " .fill %d,3" % big, " .block %d" % big, " .seek %d" % big, " .seek -%d" % src.int(1, 70000),
        " .db %s1" % ("1+" * src.int(130, 300)), " ld hl,%s" % "+".join(["12345"] * src.int(45, 80))])


def fatal(src, t):
    """A definition or size that cannot be honoured is diagnosed on its line, and the run fails."""
    def filler(k):
        return src.choice([" nop", "l%d: .db 1" % k, " .dw $", "; c", "", "#if 0\n zork\n#endif", "#define d%d 3" % k, "#macro m%d(a,b,c)\n ld a,b\n#endmacro" % k, " .db 1 \\ .db 2",
                           "#define many%d(%s) a1" % (k, ",".join("a%d" % i for i in range(16))), " .fill 100", " .db %s1" % ("1+" * 120)])
    pre = [filler(k) for k in range(src.draw(6))]
    post = [filler(k + 10) for k in range(src.draw(4))]
    bad = fatal_line(src)
    lines = "\n".join(pre + [bad] + post).split("\n")
    at = sum(x.count("\n") + 1 for x in pre) + 1
    s = "\n".join(lines) + "\n"
    files, name = {"in.asm": s}, "in.asm"
    if src.draw(3) == 0:
        n = src.draw(4)
        files = {"in.asm": " nop\n" * n + '#include "sub.inc"\n' + " nop\n" * src.draw(3), "sub.inc": s}
        name = None
    r = t.run(files, ["-N"] + src.sample(["-T", "-L", "-S"], src.draw(2)) + ["in.asm", "out.bin"], want=("out.bin",))
    alive(r)
    ds = [d for d in diags(r) if d.kind == "error"]
    if r.rc not in (2, 3) or not ds:
        raise Violation("'%s' is not diagnosed: exit %d" % (bad[:80], r.rc), output=r.text()[-600:])
    if any(d.line != at or (d.file != name if name else not d.file.endswith("sub.inc")) for d in ds):
        raise Violation("the only faulty line is %d, got %r" % (at, ds[:4]), output=r.text()[-600:])
    t.nontrivial(s)
    t.label(bad.split()[0].lower())


def picture(src, t):
    """An included bitmap that cannot be used is diagnosed at the line that includes it, adds no byte, and fails the run."""
    bpp = src.choice([1, 4, 8, 24])
    w, h = src.int(1, 20), src.int(1, 6)
    clr = src.choice([0, src.int(1, 1 << bpp)]) if bpp < 24 else 0
    n = clr or 1 << bpp
    pal = [] if bpp == 24 else [(i * 37 % 256,) * 3 for i in range(n)]
    rows = [[(x * 9 % 256, y, 5) if bpp == 24 else (x + y) % n for x in range(w)] for y in range(h)]
    b = bytearray(bmp(src, w, h, bpp, pal, rows, clr))
    pre = []
    for i in range(src.draw(4)):
        pre.append(src.choice([(" nop", b"\0"), ("", b""), ("; c", b""), (" .db %d" % i, bytes([i])), ("#if 0\n zork\n#endif", b"")]))
    k = src.draw(9)
    opt = None
    if k == 0:
        struct.pack_into("<I", b, 30, src.choice([1, 2, 3, src.int(1, 2 ** 31 - 1)]))
        what = "compression"
    elif k == 1:
        struct.pack_into("<I", b, 14, src.choice([0, 12, 39, 41, 64, 108, 124, src.int(41, 60000)]))
        what = "header size"
    elif k == 2:
        struct.pack_into("<H", b, 28, src.choice([0, 3, 5, 6, 7, 9, 12, 15, 48, 64, src.int(33, 65535)]))
        what = "bit count"
    elif k == 3:
        struct.pack_into("<I", b, 46, src.choice([257, 300, 65536, src.int(257, 2 ** 31 - 1)]))
        what = "colors"
    elif k == 4:
        del b[len(b) - src.int(1, min(len(b) - 54, 40)):]
        what = "truncated"
    elif k == 5:
        off = struct.unpack_from("<I", b, 10)[0]
        struct.pack_into("<I", b, 10, src.choice([0, off - 1, off + 1, off + 4, len(b)]))
        what = "offset"
    elif k == 6:
        at, v = src.choice([(18, 0), (22, 0), (18, -w), (22, h + src.int(1, 100)), (18, 4000 + src.draw(1000)), (22, 2 ** 31 - 1)])
        struct.pack_into("<i", b, at, v)
        what = "size"
    elif k == 7:
        opt = src.choice(['"%d,1"' % (w + src.int(1, 50)), '"1,%d"' % (h + src.int(1, 50)), '"0,0"', '"%d,%d"' % (w + 1, h + 1)])
        pre.append((src.choice([" .option BM_MAP=%s", "#define __BM_MAP %s"]) % opt, b""))
        what = "map"
    else:
        pre += [('.option BM_MAP="1,1"', b""), (" .option BM_PAD=%d" % src.choice([(w + 1) // 2, 30, 1000]), b"")]
        what = "padding"
    post = []
    for i in range(src.draw(4)):
        post.append(src.choice([(" nop", b"\0"), ("", b""), (" .db %d" % i, bytes([i]))]))
    inc = src.choice(['#include "pic.bmp"', "#include pic.bmp", '#include "pic.bmp" ; c', "pic%d: #include \"pic.bmp\"" % src.draw(3)])
    s = "".join(x + "\n" for x, _ in pre + [(inc, b"")] + post)
    at = sum(x.count("\n") + 1 for x, _ in pre) + 1
    files, name = {"in.asm": s, "pic.bmp": bytes(b)}, "in.asm"
    out = b"".join(x for _, x in pre + post)
    if src.draw(3) == 0:
        files["in.asm"], files["sub.inc"] = " .db 9\n" * src.draw(3) + '#include "sub.inc"\n nop\n', s
        out = b"\x09" * files["in.asm"].count("db") + out + b"\0"
        name = None
    r = t.run(files, ["-N"] + src.sample(["-T", "-L", "-S"], src.draw(2)) + ["in.asm", "out.bin"], want=("out.bin",))
    alive(r)
    ds = diags(r)
    if r.rc not in (2, 3) or len(ds) != 1 or ds[0].kind != "error" or ds[0].line != at or (ds[0].file != name if name else not ds[0].file.endswith("sub.inc")):
        raise Violation("unusable bitmap (%s): expected one error at line %d, got exit %d and %r" % (what, at, r.rc, ds[:3]), output=r.text()[-600:])
    if r.files["out.bin"] is None:
        raise Violation("an uncoded error: the other lines still give output", output=r.text()[-600:])
    expect_bytes(out, r.files["out.bin"])
    t.nontrivial(s + what + repr(bytes(b[:60])))
    t.label("bitmap " + what)


def parts(tier):
    if tier == "quick":
        return [("sweep", sweep, len(CAT) * 6), ("early", early, 4000), ("late", late, 3000), ("output", output, 3000), ("one", one, 3000), ("valid", valid, 1000), ("fatal", fatal, 600), ("picture", picture, 600)]
    return [("sweep", sweep, len(CAT) * 40), ("early", early, 80000), ("late", late, 60000), ("output", output, 60000), ("one", one, 60000), ("valid", valid, 15000), ("fatal", fatal, 10000), ("picture", picture, 10000)]
