"""P21: no input corrupts memory, crashes or hangs the assembler."""
import glob, importlib, os, re
from core import Violation, Discard, VERIF, CPU_LIMIT

PROP = "P21"
TECHNIQUE = "grammar-based and mutational fuzzing (token soups, length boundaries, recursion, mutated programs of all other generators, mutated bitmaps, command lines) under ASAN/UBSAN"
NOTE = ("Every run is of an ASAN+UBSAN build (plus stack and size tests of the plain build and, for uninitialised values, valgrind on a sample). "
        "Termination means within 20 s of CPU time for inputs below 100 kB. Undefined behaviour that touches no memory (integer overflow, shifts) is not judged. "
        "Programs that ask for exponential work themselves are not generated on purpose.")
RULE = "distinct inputs (all files and arguments) that were assembled"
BUILDS = [("asan", {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=1:symbolize=1",
                    "UBSAN_OPTIONS": "halt_on_error=1:exitcode=99:print_stacktrace=1"}),
          ("plain", None)]
UNPRIVILEGED = True
ASSUMPTIONS = ["stack overflow is judged with the default stack limit on the plain build, and not on the sanitizer build with its larger frames"]

OPC = "adc add and bit call ccf cp cpd cpi cpir cpl daa dec di djnz ei ex exx halt im in inc ind ini inir jp jr ld ldd lddr ldi ldir neg nop or otdr otir out outd pop push res ret reti rla rlc rld rr rrca rrd rst sbc scf set sla sll sra srl sub xor lea pea mlt tst stmix ld.lil push.s jp.lil call.is ldir.l rst.lil".split()
REG = "a b c d e h l i r f bc de hl sp af af' ix iy ixh ixl iyh iyl (hl) (bc) (de) (sp) (c) (ix) (iy) (ix+5) (iy-3) nz z nc po pe p m mb".split()
DIR = ".db .dw .dl .byte .word .long .text .ascii .asc .org .fill .block .ds .dsb .seek .equ .end .echo .show .error .option .list .nolist .addinstr .assume .module .incbin .b .w .x".split()
PRE = "define defcont undef undefine macro endmacro if ifdef ifndef else elif elseif elifdef elifndef endif include import comment endcomment region endregion undefineall x".split()
NAME = "m1 m2 m3 f g x y foo bar a_b _x __LINE __FILE SPASM TRUE L1 L2 eval concat M1 F ld_ zork i.inc".split()
NUM = "0 1 2 5 -1 7 8 127 128 255 256 -128 -129 32767 65535 65536 -32768 $FF $FFFF $10000 %1010 %2 0FFh 12a 1010b 2147483647 -2147483648 4294967295 99999999999 $FFFFFFFF 0x10 'a' ' '\\'' 1.5 @7 $ % 300 -300 16777215 -8388608 4".split(" ")
OPR = "+ - * / % & | ^ < > << >> == != <= >= && || = ! ~ ( ) , . _ -_ +_ ++_ # \\ ; : ' \" ? @ [ ] { } ` $ %".split(" ")
BUILTIN = ["buf(", "clr(", "wr(", "run(", "getc(", "eval(", "concat(", "wr(\"", "getc(\"i.inc\",", "res(", "set(", "bit("]
FILES = ["i.inc", "b.bmp", "in.asm", "none", "n/none", ".", "i", "j.inc"]
STR = ['"a"', '"abc\\n"', '"a\\"b"', '"', '"\\', '"\\\\"', '""', '"a;b"', '"x\\', "'", "'\\", '"a,b"', '"(x"', '"%d%s%n"', '"\\x"', '"\\0"', "\"'\""]
BYTES = [0, 9, 10, 13, 32, 34, 39, 35, 36, 37, 40, 41, 42, 43, 44, 45, 46, 47, 58, 59, 60, 61, 62, 64, 92, 95, 96, 126, 127, 128, 160, 192, 255, 26, 27]
LENGTHS = [1, 2, 3, 7, 8, 9, 15, 16, 17, 18, 19, 20, 21, 22, 31, 32, 33, 34, 62, 63, 64, 65, 66, 126, 127, 128, 129, 130, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 300, 508, 510, 511, 512, 513, 514,
           600, 1000, 1022, 1023, 1024, 1025, 1026, 1030, 2000, 2046, 2047, 2048, 2049, 2050, 2300, 4000, 4090, 4094, 4095, 4096, 4097, 4098, 4100, 4200, 8190, 8191, 8192, 8193, 9000, 16384, 20000, 33000, 65534, 65535, 65536, 65537]


def guard(t, files, args, kind=None, branching=False, **kw):
    files = dict(files)
    size = sum(len(x) for x in files.values())
    r = t.run(files, args, kind=kind, **kw)
    if r.timeout and branching:
        raise Discard("exponential")
    if r.timeout and not kind:
        # polynomial work (deep recursion with growing arguments) on a slow build is not an endless loop
        t.runners["plain"].cpu = 60
        if t.run(files, args, kind="plain", wall=300).rc >= 0:
            t.label("slow")
            raise Discard("slow, but ends")
    if r.rc < 0:
        raise Violation("%s build died with signal %d%s" % (kind or "asan", -r.rc, " (CPU limit: no termination)" if r.timeout else ""), output=r.text()[-1500:])
    if r.rc not in (0, 1, 2, 3):
        m = re.search(r"(ERROR: AddressSanitizer.*|\S+:\d+:\d+: runtime error.*|==\d+== *(?:Invalid|Conditional|Use of|Syscall|Source|Argument).*)", r.text())
        raise Violation("%s build: status %d: %s" % (kind or "asan", r.rc, m.group(1) if m else "?"), output=r.text()[m.start() if m else -1500:][:2500])
    t.label("status %d" % r.rc)
    t.nontrivial(repr(sorted(files.items())) + repr(args) + (kind or ""))
    t.sample(next(iter(files.values())) if isinstance(next(iter(files.values())), str) else next(iter(files.values())).decode("latin-1"))
    return r


# ---------------------------------------------------------------- token soup
def word(src):
    k = src.draw(12)
    if k < 3:
        return src.choice(NUM)
    if k < 5:
        return src.choice(NAME)
    if k < 6:
        return src.choice(REG)
    if k < 8:
        return src.choice(OPR)
    if k < 9:
        return src.choice(STR)
    if k < 10:
        return src.choice(BUILTIN + [n + "(" for n in NAME[:6]])
    if k < 11:
        return src.choice(["", " ", "\t", "  ", "\\", "\\ nop", ";"])
    return src.choice(OPC + DIR + ["#" + p for p in PRE])


def expr(src, depth=3):
    k = src.draw(10) if depth else src.draw(3)
    if k < 2:
        return src.choice(NUM)
    if k == 2:
        return src.choice(NAME)
    if k < 5:
        return expr(src, depth - 1) + src.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", ">", "<=", ">=", "&&", "||", " + ", "- -"]) + expr(src, depth - 1)
    if k == 5:
        return "(" + expr(src, depth - 1) + src.choice([")", ")", ")", ""])
    if k == 6:
        return src.choice(["-", "~", "+", "!", "--"]) + expr(src, depth - 1)
    if k == 7:
        return src.choice(NAME[:10]) + "(" + ",".join(expr(src, depth - 1) for _ in range(src.draw(4))) + src.choice([")", ")", ""])
    if k == 8:
        return src.choice(STR)
    return "".join(word(src) for _ in range(src.int(1, 3)))


def operands(src):
    out = []
    for _ in src.many(0, 2, 5):
        k = src.draw(6)
        out.append(src.choice(REG) if k == 0 else word(src) if k == 1 else src.choice(STR) if k == 2 else "(" + expr(src, 1) + ")" if k == 3 else expr(src))
    return src.choice([",", ",", ",", ", ", " ,", "  ", ",,"]).join(out)


def filler(src, lim=0):
    n = src.choice(LENGTHS[:-22] if lim else LENGTHS)
    return n


def line(src, depth=1):
    k = src.draw(22)
    p = src.choice([" ", " ", "\t", "", "L1: ", "foo: ", "  "])
    if k < 4:
        return p + src.choice(OPC) + src.choice([" ", " ", "\t", "", "(", ","]) + operands(src)
    if k < 8:
        return p + src.choice(DIR) + src.choice([" ", " ", " ", "", "\t"]) + operands(src)
    if k < 10:
        return src.choice(["", "", " "]) + "#" + src.choice(PRE) + src.choice([" ", " ", ""]) + operands(src)
    if k == 10:
        return src.choice(NAME) + src.choice([":", " =", " .equ ", "", " equ ", "= ", ":\\", " \\ "]) + operands(src)
    if k == 11:
        ps = [src.choice(NAME[3:8] + ["@x", "@y", "ret", "5", ""]) for _ in range(src.draw(4))]
        return "#define " + src.choice(NAME[:12]) + src.choice(["(" + ",".join(ps) + ")", "", "", "("]) + src.choice([" ", " ", ""]) + src.choice([expr(src), operands(src), line(src, 0) if depth else "5"])
    if k in (12, 13) and depth:
        ps = [src.choice(NAME[3:8] + ["@x", "@y", "5", ""]) for _ in range(src.draw(4))]
        body = [line(src, 0) for _ in range(src.draw(4))]
        return "#macro " + src.choice(NAME[:10]) + src.choice(["(" + ",".join(ps) + ")", "", "()", "("]) + "\n" + "\n".join(body) + src.choice(["\n", ""]) + src.choice(["#endmacro", "#endmacro", "#endmacro", "", "endmacro", " #endmacro x"])
    if k == 14:
        return p + src.choice(NAME[:12]) + src.choice(["(", "", " "]) + operands(src) + src.choice([")", "", " \\ nop", ")\\", ") nop"])
    if k == 15:
        return p + src.choice(BUILTIN) + operands(src) + src.choice([")", ")", "", ")\\ nop"])
    if k == 16 and depth:
        return "#" + src.choice(["if ", "ifdef ", "ifndef "]) + expr(src) + "\n" + line(src, 0) + "\n" + src.choice(["#else\n nop\n", "", "#elif " + expr(src) + "\n nop\n", "#else", "#elif\n"]) + src.choice(["#endif", "#endif", "", "#endif \\"])
    if k == 17:
        return src.choice(["#include ", "#import ", " .incbin ", "#include", " .db getc("]) + src.choice(['"%s"', "%s", '"%s', '%s"', "<%s>", "'%s'", '"%s" 8,8', '"%s",1,2,rlew', '"%s" ' + operands(src)]) .replace("%s", src.choice(FILES))
    if k == 18:
        return " .echo " + src.choice(["", "", "> ", ">> ", ">"]) + src.choice(['"o.txt",', '"o.txt" ', "o.txt ", "", '"'] + FILES[:2]) + operands(src)
    if k == 19:
        return "".join(word(src) + src.choice(["", " ", ""]) for _ in src.many(1, 6, 20))
    if k == 20:
        return bytes(src.choice(BYTES) if src.draw(3) else src.draw(256) for _ in src.many(1, 6, 30)).decode("latin-1")
    return p + ".option " + src.choice(["bm_", "__bm_", "bm_hdr", "bm_hdr_fmt", "bm_shd", "bm_msk", "bm_w", "bm_h", "bm_num", "bm_rle", "bm_msk_rgb", "x", ""]) + src.choice(["=", "= ", " ", ""]) + src.choice(['"', "", "rgb("]) + operands(src)


EXT = ["bin", "8xp", "8xk", "hex", "8cu", "8xu", "8ck", "85s", "86p", "83p", "82p", "73p", "8xi", "8xv", "o", "lst", "lab", "8ek", "85p", ""]


def args(src):
    a = ["-N"] if src.draw(8) else []
    for m in ("-T", "-L", "-S", "-C", "-O", "-E", "-A", "-H"):
        if src.draw(4 if m in ("-T", "-L", "-E") else 10) == 0:
            a.append(m)
    if src.draw(8) == 0:
        a.append("-D" + src.choice(NAME) + src.choice(["", "=", "=5", "=" + expr(src).replace("\0", ""), "(x)=x"]))
    if src.draw(10) == 0:
        a += ["-I", src.choice([".", "", ";", "a;b,c", "/", "n;;", ".;."])]
    return a


BMP = bytes.fromhex("424d5e000000000000003e0000002800000008000000080000000100010000000000200000000000000000000000020000000000000000000000ffffff00") + bytes(range(32))


def base_files():
    return {"i.inc": " nop\n#define q 5\n .db q\nL9: jp L9\n", "b.bmp": BMP, "j.inc": "#include \"i.inc\"\n#macro m3(x)\n .db x\n#endmacro\n"}


def soup(src, t):
    s = "\n".join(line(src) for _ in src.many(1, 6, 40)) + src.choice(["\n", "", "\r\n"])
    f = {"in.asm": s}
    f.update(base_files())
    if src.draw(6) == 0:
        f["i.inc"] = "\n".join(line(src) for _ in src.many(1, 3, 9))
    guard(t, f, args(src) + ["in.asm", "out." + src.choice(EXT[:4] if src.draw(3) else EXT)])


# ---------------------------------------------------------------- lengths
LIMITS = [
    "{n}: nop", " ld a,{n}", " .db {n}", "#define {n} 5\n .db {n}\n .echo {n}\n .show {n}\n#if {n}\n#endif", "#macro {n}(x)\n .db x\n#endmacro\n {n}(1)\n .db {n}(5)", "#define f({n}) {n}\n .db f(2)",
    "#ifdef {n}\n#endif", "#undef {n}", ' .db "{s}"', ' .echo "{s}"', ' .error "{s}"', '#include "{s}"', "#include {s}", '#import "{s}"', "#import {s}", ' .db getc("{s}",0)', " .org {d}", " .dw {d}", " .dw ${h}", " .dw %{b}",
    " .dw {b}b", " .dw 0{h}h", " .dw {d}d", " .dw {o}1{c}", " .dw {o}1", " .dw {m}1", " .dw {t}1", " .dw {pp}_", " .dw {m}_", " .dw {plus}1", " .db {list}1", " .dw {list}1", " ld a,{plus}1", "{ifs} nop\n{endifs}", "{ifs}", "{stm}", "{sp}nop", " nop{sp}", " nop ;{s}",
    ";{s}", "#comment\n{lines}#endcomment", " .addinstr {n} {n} {h} 1", " .addinstr zz {n} 00 1\n zz 5", ' .addinstr zz "" {h} 2\n zz', " .addinstr zz * {h} {d} {n}", " {n}(1,2)", "#define f({params}) 5\n .db f({list}1)", "#macro f({params})\n .db a1\n#endmacro\n f({list}1)", "#macro f(x)\n .db x\n#endmacro\n f({n})\n f(\"{s}\")\n f({plus}1)\n f({list}1)",
    ' wr("{s}")\n run()', " wr({plus}1)\n run()", '#define q concat("{s}","{s}")\n .db q', "#define q eval({plus}1)\n .db q", "#define q concat({list}1)\n .db q", '#define q concat("\\"","{s}","\\"")\n .echo q', " .option bm_hdr={s}", ' .option bm_hdr="{s}"', " .option {n}={d}", " .option {list}1", " .assume {n}={d}", "x = {plus}1", "x .equ {n}", "x = {n}", " .fill {d}", " .fill 5,{n}",
    "#define q\n{defcont}\n .db q", "#define q {n}\n .db q", "#define q {plus}1\n .db q\n .dw q+q\n .echo q", " .show {n}", " .echo {n}", " .echo >{s} 5", ' .echo >"{s}" 5', " .dw '{s}'", "#if 0\n#elif {plus}1\n#endif", "#if {o}1{c}\n#endif", "#if {n}\n#endif", " ld (ix+{plus}1),5", " bit {plus}1,a", "#{n}", " .{n}", " {n}", "{n}.{n}", " jr {n}", " {n} {n}", "{n} {n}",
    "#define f(x) {n}x\n .db f(1)", "#macro f\n{lines}#endmacro\n f", "#macro f(x)\n#define x {n}\n .db x\n#endmacro\n f(q)", "#define x {s}\n x", "#define x nop {stm}\n x", '#include "{dots}i.inc"', "#define a {n}\n#define {n} {n}a\n .db a", " {lab}nop", "{lines}", '#include "b.bmp" {list}1', " set {n},a", " .db \"{esc}\"", " .echo \"{esc}\"", "#ifdef {n}({n}\n#endif", " ld a,({o}ix+1{c})", " ld ({n}),{n}",
    "#macro f(x)\n x\n#endmacro\n f({n})\n f(nop {stm})", "#define f(x) x\n#define g(x) f(x)f(x)\n .db g({n})", " .db f({n})", "{n}({n})", " .nolist\n{lines} .list", '#define __FILE "{s}"\n .echo __FILE', " wr(\"{s}\",{plus}1,\"{s}\",{n})", " .error {n},{plus}1", "#define f(x,y) x+y\n .db f({o}1{c},{n})", "#macro f(@x)\n .db @x\n#endmacro\n f({n})\n f(\"{s}\")", "#define q 5 {s}\n .db q", " .echo \"{s}\",{list}1",
    "#if 1\n{lines}#else\n{lines}#endif", "#define m {n}\n#macro m({n},x)\n .db x\n#endmacro\n m(1,2)", " .dw {mac}", "#define f(x) {o}x{c}\n .db f(1)", " ld a,'{s}", "\"{s}\"", "#region {s}\n#endregion {s}", " im {d}", " rst {d}", "_ {pp}_\n jr {m}_\n jr {pp}_", "{us} jr {m}_\n{us}",
]


def expand(src, pat):
    """Fills a pattern with texts of boundary lengths."""
    def f(m):
        k = m.group(1)
        n = src.choice(LENGTHS)
        small = min(n, 9000)
        if k == "n":
            return (src.choice(["a", "Zq", "_", "ab.", "x1"]) * n)[:n]
        if k == "s":
            return (src.choice(["a", "a b", "a/", "b;", "%s%n", "(", "\\n", "'", "a.b", ",", "\xe9", "../"]) * n)[:n]
        if k == "d":
            return src.choice(["", "-"]) + src.choice("190") * n
        if k == "h":
            return src.choice(["F", "0", "1A"]) * n
        if k == "b":
            return src.choice("10") * n
        if k in ("o", "c"):
            return ("(" if k == "o" else ")") * min(n, 4200)
        if k == "m":
            return "-" * small
        if k == "t":
            return "~" * small
        if k == "pp":
            return "+" * small
        if k == "plus":
            return src.choice(["1+", "$FF-", "f+", "x*", "(1)+", "1 + "]) * small
        if k == "list":
            return src.choice(["1,", "a,", "\"ab\",", "(1,2),", ",", "x ,"]) * min(n, 4200)
        if k == "ifs":
            return src.choice(["#if 1\n", "#if 0\n", "#ifdef SPASM\n"]) * small
        if k == "endifs":
            return "#endif\n" * small
        if k == "stm":
            return src.choice(["\\ nop", "\\", " \\ a:", "\\#x", " \\ .db 1"]) * small
        if k == "sp":
            return src.choice([" ", "\t"]) * n
        if k == "lines":
            return src.choice(["\n", " nop\n", " zork\n", "#define q 5\n", "x\n", "\"a\n", " .db 'a'\n"]) * min(n, 2400)
        if k == "params":
            return ",".join("a%d" % i for i in range(min(n, 1100)))
        if k == "defcont":
            return "\n".join([src.choice(["#defcont abc", "#defcont", "#defcont +1"])] * min(n, 2400))
        if k == "dots":
            return "./" * small
        if k == "lab":
            return src.choice(["a:", "b1: ", "_ \\"]) * small
        if k == "esc":
            return src.choice(["\\n", "\\\\", "\\\"", "\\x"]) * small
        if k == "us":
            return "_\n" * small
        if k == "mac":
            return src.choice(["f(", "x(", "eval(", "concat(", "getc("]) * min(n, 300)
        return m.group(0)
    return re.sub(r"\{(\w+)\}", f, pat)


def lengths(src, t):
    i = src.draw(len(LIMITS))
    s = expand(src, LIMITS[i])
    if src.draw(5) == 0:
        s = expand(src, src.choice(LIMITS)) + "\n" + s
    if len(s) > 200000:
        s = s[:200000]
    f = {"in.asm": s + "\n"}
    f.update(base_files())
    guard(t, f, args(src) + ["in.asm", "out." + src.choice(EXT[:4])])


# ---------------------------------------------------------------- recursion
def recursion(src, t):
    """Definitions that use themselves and each other."""
    n = src.int(1, 4)
    names = ["r%d" % i for i in range(n)]
    lines = []
    files = {}

    linear = src.draw(3) == 0

    def use(stmt):
        v = src.choice(names)
        k = src.draw(6)
        a = "" if k < 2 else "(" + ",".join(src.choice(["1", "x", "x+1", "y", "\"a\"", "x-1"] + ([] if linear else [v, "%s(x)" % src.choice(names), "%s(%s(1))" % (src.choice(names), v)])) for _ in range(src.int(1, 3))) + ")"
        if stmt:
            return src.choice([" %s", " %s \\ nop", " .db %s", " .echo %s", "#if %s\n#endif", "#define z%%d %s" % "%s", " .fill %s", " wr(\"%s\")\n run()", "q = %s", "#include \"k.inc\" ;%s", " .db eval(%s)", " .show %s", "#define e eval(%s)\n .db e", "#define e concat(%s)\n .db e", "#import \"k.inc\" ;%s"]).replace("%s", v + a).replace("%d", str(src.draw(3)))
        return v + a
    for x in names:
        p = src.choice(["", "(x)", "(x,y)", "()"])
        if src.draw(2):
            lines += ["#macro " + x + p] + [use(True) for _ in range(1 if linear else src.int(1, 3))] + ["#endmacro"]
        else:
            lines.append("#define %s%s " % (x, p) + src.choice(["", "nop \\ ", " "]) + src.choice(["%s", "(%s)", "1-%s", "%s*2", "\"a\",%s", "%s\\ nop"] + ([] if linear else ["%s+%s", "%s %s", "%s\\%s"])).replace("%s", use(False)))
    files["k.inc"] = "\n".join([use(True) for _ in range(0 if linear else src.int(0, 2))] + [src.choice([""] if linear else ["", "#include \"k.inc\"", "#include \"in.asm\"", "#import \"in.asm\""])])
    lines += [use(True) for _ in range(src.int(1, 4))]
    files["in.asm"] = "\n".join(lines) + "\n"
    a = args(src) + ["in.asm", "out.bin"]
    # definitions that use themselves more than once ask for exponential work
    branching = not linear
    try:
        for r in t.runners.values():
            r.cpu = 4 if branching else CPU_LIMIT
        guard(t, files, a, branching=branching)
        if src.draw(4) == 0:
            guard(t, files, a, kind="plain", branching=branching)
    finally:
        for r in t.runners.values():
            r.cpu = CPU_LIMIT


# ---------------------------------------------------------------- mutation of the programs of the other checks
class Captured(Exception):
    pass


class Capture:
    thorough = False
    tier = "quick"

    def __init__(self, d):
        self.main = type("M", (), {"dir": d})()
        self.runners = {}

    def run(self, files, args, want=(), **kw):
        self.got = dict(files), list(args)
        raise Captured

    def asm(self, s, args=(), out="out.bin", files=None, **kw):
        self.run(dict(files or {}, **{"in.asm": s}), ["-N"] + list(args) + ["in.asm", out])

    def label(self, *a):
        pass
    nontrivial = sample = label


_SOURCES = []
SKIP = {("P14", "big"), ("P26", "all")}


def sources():
    if not _SOURCES:
        for f in sorted(glob.glob(os.path.join(VERIF, "props", "p[0-9]*.py"))):
            n = os.path.basename(f)[:-3]
            if n == "p21":
                continue
            m = importlib.import_module(n)
            fs = [(m.PROP, q[0], q[1]) for q in m.parts("quick") if (m.PROP, q[0]) not in SKIP]
            if fs:
                _SOURCES.append(fs)
    return _SOURCES


def captured(src, t):
    prop, part, fn = src.choice(src.choice(sources()))
    c = Capture(t.main.dir)
    try:
        fn(src, c)
    except Captured:
        pass
    except Violation:
        raise Discard("generator gave up")
    if not hasattr(c, "got"):
        raise Discard("no input")
    files, a = c.got
    files = {k: (v.encode("latin-1", "replace") if isinstance(v, str) else bytes(v)) for k, v in files.items()}
    if sum(map(len, files.values())) > 60000:
        raise Discard("too large")
    return files, a


TOK = re.compile(rb"[A-Za-z_.][A-Za-z0-9_.]*|\$?[0-9][0-9A-Fa-f]*|\s+|.", re.S)


def mutate(src, b):
    for _ in src.many(1, 3, 12):
        k = src.draw(14)
        n = len(b)
        i = src.draw(n + 1)
        j = min(n, i + src.choice([1, 1, 2, 3, 4, 8, 16, 40]))
        if k == 0:
            b = b[:i] + bytes([src.choice(BYTES)]) + b[i:]
        elif k == 1:
            b = b[:i] + bytes([src.draw(256)]) + b[i + 1:]
        elif k == 2:
            b = b[:i] + b[j:]
        elif k == 3:
            b = b[:i] + word(src).encode("latin-1") + b[i:]
        elif k == 4:
            b = b[:j] + b[i:j] + b[j:]
        elif k == 5:
            b = b[:i]
        elif k in (6, 7, 8):
            ls = b.split(b"\n")
            x, y = src.draw(len(ls)), src.draw(len(ls))
            if k == 6:
                ls.insert(x, ls[y])
            elif k == 7:
                ls[x], ls[y] = ls[y], ls[x]
            else:
                del ls[x]
            b = b"\n".join(ls)
        elif k == 9:
            ls = b.split(b"\n")
            ls.insert(src.draw(len(ls) + 1), line(src).encode("latin-1"))
            b = b"\n".join(ls)
        elif k in (10, 11, 12):
            tk = TOK.findall(b)
            if tk:
                x = src.draw(len(tk))
                if k == 10:
                    tk[x] = src.choice(tk)
                elif k == 11:
                    tk[x] = src.choice(NUM).encode("latin-1")
                else:
                    tk[x] = tk[x] * min(src.choice(LENGTHS[:60]), 4000 // len(tk[x]) + 1)
                b = b"".join(tk)
        else:
            b = b[:i] + expand(src, src.choice(["{n}", "{s}", "{plus}1", "{list}1", "{d}"]))[:5000].encode("latin-1") + b[i:]
        if len(b) > 80000:
            break
    return b


def mutated(src, t):
    files, a = captured(src, t)
    for name in sorted(files):
        if src.draw(3 if len(files) > 1 and name != "in.asm" else 10) == 0 and len(files) > 1:
            continue
        files[name] = bitmap_edit(src, files[name]) if files[name][:2] == b"BM" and src.draw(4) else mutate(src, files[name])
    if src.draw(3) == 0:
        a = args(src) + a
    if src.draw(4) == 0 and a and "." in a[-1]:
        a[-1] = a[-1].rsplit(".", 1)[0] + "." + src.choice(EXT)
    guard(t, files, a)


def bitmap_edit(src, b):
    """Changes fields of the headers."""
    b = bytearray(b)
    for _ in src.many(1, 2, 5):
        off, size = src.choice([(2, 4), (10, 4), (14, 4), (18, 4), (22, 4), (26, 2), (28, 2), (30, 4), (34, 4), (46, 4), (50, 4), (18, 1), (22, 1), (10, 1)])
        v = src.choice([0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 24, 31, 32, 33, 40, 54, 62, 63, 64, 127, 128, 255, 256, 257, 300, 1000, 4096, 65535, 65536, 1 << 20, 1 << 24, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFF8, 0xFFFFFF00, len(b), len(b) - 1, 0x40000000, 0x20000000])
        b[off:off + size] = v.to_bytes(8, "little")[:size]
    if src.draw(4) == 0:
        b = b[:src.draw(len(b) + 1)]
    if src.draw(6) == 0:
        b += bytes(src.choice([1, 10, 100, 5000]))
    return bytes(b)


def bitmaps(src, t):
    m = importlib.import_module("p24")
    c = Capture(t.main.dir)
    try:
        m.parts("quick")[0][1](src, c)
    except Captured:
        pass
    except Violation:
        raise Discard("")
    if not hasattr(c, "got"):
        raise Discard("")
    files, a = c.got
    files = {k: (v.encode("latin-1", "replace") if isinstance(v, str) else bytes(v)) for k, v in files.items()}
    if sum(map(len, files.values())) > 100000:
        raise Discard("too large")
    for name in sorted(files):
        if files[name][:2] == b"BM":
            files[name] = bitmap_edit(src, files[name])
        elif src.draw(3) == 0:
            files[name] = mutate(src, files[name])
    guard(t, files, (["-T"] if src.draw(3) == 0 else []) + a)


# ---------------------------------------------------------------- command lines
def options(src, t):
    a = []
    for _ in src.many(0, 3, 10):
        k = src.draw(9)
        n = src.choice(LENGTHS)
        if k < 3:
            a += args(src)
        elif k == 3:
            a.append("-D" + src.choice(["", "x" * n, "x=" + "1+" * n + "1", "f(x)=x", "=", "=5", "x=\"" + "a" * n + "\"", "x y=3", "x==3", "1=2", "x=\\n", "#=3", "(=2"]))
            if src.draw(4) == 0:
                a[-1:] = ["-D", a[-1][2:]]
        elif k == 4:
            a += ["-I", src.choice(["d" * n, "d;" * min(n, 4000), ",", ";", "", "./" * min(n, 4000), "in.asm"])]
        elif k == 5:
            a.append("-" + src.choice(["Z", "", "-", "help", "t", "l", "n", "D", "I", "v", "V", "o", "TL", "\xe9", "%s"]))
        elif k == 6:
            a.append(src.choice(["in.asm", "in.asm", "i.inc", "none.asm", "a" * n, "./" * min(n, 4000) + "in.asm", "", ".", "in"]))
        elif k == 7:
            a.append(src.choice(["out." + src.choice(EXT), "o" * n, "o" * n + ".8xp", "o." + "b" * n, "none/out.bin", ".bin", ".", "a.b/c", "9.8xp", "-.8xp", "%s.8xp", "\xe9.8xk", "a b.8xk"]))
        else:
            a.append(src.choice(["-T", "-L", "-V", "-H"]))
    if src.draw(3):
        a += ["in.asm"] + (["out." + src.choice(EXT)] if src.draw(3) else [])
    body = src.choice([" nop\n", "", " .fill 70000\n", " .fill 16384\n", " .org $4000\n .fill 20000,5\n", " .db $BB,$6D\n .fill 100\n", " .org $4000\n .db $80,$0F,0,0,0,0,$80,$12,1,15,$80,$21,1,$80,$31,1,$80,$48,\"Name    \",$80,$81,1,$80,$90,$03,$26,9,4,1,2,3,4,$02,$0D,$40,1,2,3\n", " .fill 65535\n", " .fill 32768\n", " .db x\n", " .echo x\n", "#include \"i.inc\"\n"]) + \
        (line(src) + "\n" if src.draw(3) == 0 else "")
    if src.draw(6) == 0:
        body = "".join(" .db %s\n" % ",".join(str(src.draw(256)) for _ in range(8)) for _ in range(src.int(1, 12)))
    f = {"in.asm": body}
    f.update(base_files())
    a = [x.encode("latin-1", "replace").replace(b"\0", b"").decode("latin-1") for x in a]
    guard(t, f, a)


# ---------------------------------------------------------------- size
SCALE = [(" nop", 60000), ("l{i}: jp l{i}", 20000), ("#define d{i} {i}\n .dw d{i}", 12000), (" m({i})", 15000), ("#define d{i} d{j}", 400), (" .db \"abc\",{i}&255,f({i})", 15000), ("#if {i}&1\n nop\n#else\n halt\n#endif", 15000), ("x = {i}", 20000),
         (" .dw l{i}\nl{i}:", 20000), ("_ jr -_", 8000), (" wr(\" nop\",{i})", 9000), (" .echo \"a\",{i}", 15000), ("#undef d\n#define d {i}", 15000), (" zork{i}", 6000), (" .dw und{i}", 6000), ("#include \"i.inc\"", 3000), ("#import \"i.inc\"", 6000), (" nop \\ halt \\ .db 1", 20000),
         ("#macro n{i}(x)\n .db x&255\n#endmacro\n n{i}({i})", 6000), (";" + "x" * 200, 20000), ("#comment\n x\n#endcomment", 15000), (" .fill 1,{i}&255", 20000), (" jr nz,$", 20000), ("#ifdef SPASM\n nop", 3000), (" ld a,({i}+{i})*2/2&127", 20000), ("#define e{i} eval({i}*2)\n .dw e{i}", 8000), (" clr()\n wr(\" nop\")\n run()", 6000), (" .error \"x\"", 6000), ("l{i} = l{j}+1", 5000)]


def scale(src, t):
    p, n = src.choice(SCALE)
    n = src.choice([n, n // 2, n // 3])
    s = "#macro m(x)\n .db x&255\n#endmacro\n#define f(x) x&15\nl{-1} = 0\nd{-1} = 0\n".replace("{-1}", "_") + "\n".join(p.replace("{i}", str(i)).replace("{j}", str(i - 1) if i else "_") for i in range(n)) + "\n"
    f = {"in.asm": s}
    f.update(base_files())
    r = t.run(f, args(src) + ["in.asm", "out.bin"], kind="plain")
    if r.rc < 0 or r.rc > 3:
        raise Violation("plain build, %d times %r: status %d%s" % (n, p, r.rc, " (CPU limit: no termination)" if r.timeout else ""), output=r.text()[-500:])
    t.nontrivial(s[-100:] + p + str(n))
    t.label("scale")


# ---------------------------------------------------------------- uninitialised values
def memcheck(src, t):
    k = src.draw(3)
    if k == 0:
        files, a = captured(src, t)
        if src.draw(2):
            files = {k: mutate(src, v) for k, v in files.items()}
    elif k == 1:
        files = {"in.asm": "\n".join(line(src) for _ in src.many(1, 8, 40)) + "\n"}
        files.update(base_files())
        a = args(src) + ["in.asm", "out." + src.choice(EXT)]
    else:
        files = {"in.asm": expand(src, src.choice(LIMITS))[:20000] + "\n"}
        files.update(base_files())
        a = args(src) + ["in.asm", "out." + src.choice(EXT)]
    if sum(map(len, files.values())) > 20000:
        raise Discard("too large")
    vg(t, files, a)


def vg(t, files, a):
    run = t.runners["plain"]
    pre, saved = run.pre, list(run.pre)
    if not os.path.exists("/usr/bin/valgrind"):
        raise Discard("no valgrind")
    run.pre = ["/usr/bin/valgrind", "-q", "--error-exitcode=99", "--undef-value-errors=yes", "--suppressions=" + os.path.join(VERIF, "lib", "valgrind.supp")] + saved
    try:
        guard(t, files, a, kind="plain")
    finally:
        run.pre = saved


def corpus(src, t):
    """Inputs kept from earlier coverage-guided fuzzing, as they are and mutated."""
    fs = sorted(glob.glob(os.path.join(VERIF, "corpus", "p21", "*")))
    if not fs:
        raise Discard("no corpus")
    i = src.draw(len(fs))
    with open(fs[i], "rb") as f:
        b = f.read()
    for _ in range(src.draw(3)):
        b = mutate(src, b)
    if src.draw(4) == 0:
        with open(src.choice(fs), "rb") as f:
            c = f.read()
        b = b[:src.draw(len(b) + 1)] + c[src.draw(len(c) + 1):]
    f = {"in.asm": b}
    f.update(base_files())
    guard(t, f, args(src) + ["in.asm", "out." + src.choice(EXT[:4])])


def parts(tier):
    q = tier == "quick"
    n = lambda x, y: x if q else y
    return [("sweep_limits", lengths, n(3 * len(LIMITS), 60 * len(LIMITS))), ("soup", soup, n(4500, 60000)), ("mutated", mutated, n(4000, 50000)), ("recursion", recursion, n(800, 12000)), ("bitmaps", bitmaps, n(500, 10000)),
            ("options", options, n(700, 12000)), ("sweep_corpus", corpus, n(1300, 20000)), ("scale", scale, n(40, 300)), ("memcheck", memcheck, n(120, 2000))]
