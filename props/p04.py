"""P04: expression values and malformed expressions."""
from core import Violation, Discard, diags, expect_bytes, ok_output
from expr import Env, OPS, O, M, apply_op, char_text, gen, i32, lit, make_style, text, un, valued, ESC
import prog

PROP = "P04"
TECHNIQUE = "random expressions against a reference evaluator; boundary product per operator; generated malformed expressions"
NOTE = "Sampled expressions in nine contexts, boundary products for every operator, all literal notations; the reference evaluator is 60 lines of Python."
RULE = ("distinct expression texts with at least one operator, unary sign, parenthesis or boundary literal ('values', 'sweep_ops'), "
        "distinct literal spellings ('literals'), programs with a non-zero byte read ('getc') and distinct malformed expressions ('malformed')")
CONTEXTS = ["dw", "equ", "ins", "if", "macro", "echo", "org", "fwd", "fill"]


def emit_ctx(src, c, e, v, k):
    """Lines that turn expression text e of value v into bytes/echo text; -> lines, bytes, echo lines"""
    u = v & 0xFFFFFFFF
    b = u.to_bytes(4, "little")
    if c == "dw":
        return [" .dl %s" % e], b[:3], []
    if c == "equ":
        return ["q%d = %s" % (k, e), " .dw q%d, q%d >> 16" % (k, k)], b, []
    if c == "ins":
        return [" ld hl,0+%s" % e if e.startswith("(") else " ld hl,%s" % e], b"\x21" + b[:2], []
    if c == "if":
        return ["#if %s" % e, " .db 1", "#else", " .db 0", "#endif"], bytes([1 if v else 0]), []
    if c == "macro":
        return ["#define d%d %s" % (k, e), "q%d = d%d" % (k, k), " .dw q%d,q%d>>16" % (k, k)], b, []
    if c == "echo":
        return [" .echo %s" % e], b"", [str(v)]
    if c == "org":
        return [" .org (%s) & $7FFFFFFF" % e, " .dw $, $>>16"], None, []
    if c == "fwd":
        return [" .dw %s" % e + " + w%d, 0" % k], None, []
    if c == "fill":
        return [" .fill 1, (%s) & 255" % e], b[:1], []
    raise AssertionError(c)


def values(src, t):
    lines, out, echo, tail = [], bytearray(), [], []
    names = [("s%d" % i, i32(src.edgy(-2 ** 31, 2 ** 32 - 1))) for i in range(src.draw(4))]
    lines += ["%s = %d" % (n, v) if v > -2 ** 31 else "%s = $80000000" % n for n, v in names]
    pc = src.choice([0, 0x9D95, 0x4000, src.int(0, 65535)])
    lines.append(" .org %d" % pc)
    nt = False
    for k in range(src.int(1, 6)):
        c = src.choice(CONTEXTS)
        at = pc
        env = Env(names, at if c != "macro" else None, chars=True)
        if c == "if" or c == "macro":
            env.chars = env.chars and True
        tk, v, used = gen(src, env, depth=2, avg=2, maxops=7)
        nt = nt or len(tk) > 1
        # a ; in a character literal ends a #define or an #if line
        st = make_style(src, sym_case=False)
        e = text(tk, st)
        if len(e) > 200:
            raise Discard("longer than an expression may be")
        if c in ("if", "macro") and ";" in e:
            c = "equ"
        if c in ("equ", "macro") and "$" in [x[1] for x in tk if x[0] == "x"]:
            pass
        l, b, ec = emit_ctx(src, c, e, v, k)
        if c == "org":
            pc = v & 0x7FFFFFFF
            u = pc.to_bytes(4, "little")
            b = u[:2] + i32(i32(pc + 2) >> 16).to_bytes(4, "little", signed=True)[:2]
        if c == "fwd":
            w = src.edgy(-30000, 30000)
            tail.append("w%d = %d" % (k, w))
            b = (i32(v + w) & 0xFFFF).to_bytes(2, "little") + b"\0\0"
        t.label("context " + c)
        lines += l
        out += b
        pc += len(b)
        echo += ec
    s = "\n".join(lines + tail) + "\n"
    r = t.asm(s)
    expect_bytes(bytes(out), ok_output(r))
    got = [l for l in r.lines() if l.lstrip("-").isdigit()]
    if got != echo:
        raise Violation("echoed values %s, expected %s" % (got, echo), output=r.text())
    if nt:
        t.nontrivial(s)
        t.sample(s)


EDGE = [0, 1, 2, 3, 7, 8, 15, 31, 127, 128, 255, 256, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFE, 0x7FFFFFFF,
        -1, -2, -3, -128, -129, -32768, -32769, -65536, -0x7FFFFFFF, -0x80000000]


def num(v):
    return str(v) if v >= 0 else "(0-%d)" % -v if v != -2 ** 31 else "$80000000"


def sweep_ops(src, t):
    """Each operator over the product of boundary operands."""
    op = OPS[src.draw(len(OPS))]
    i = src.draw(len(EDGE))
    a = EDGE[i] if src.draw(2) else i32(src.int(0, 0xFFFFFFFF))
    lines, out = [], bytearray()
    for b in EDGE + [i32(src.int(0, 0xFFFFFFFF)) for _ in range(4)]:
        v = apply_op(op, a, b)
        if v is None:
            continue
        lines += ["x = %s %s %s" % (num(a), op, num(b)), " .dw x, x>>16"]
        out += (v & 0xFFFFFFFF).to_bytes(4, "little")
    if len(lines) > 2 * len(out) // 4:
        raise AssertionError
    # x is redefined with a warning-free = only when distinct names are used
    lines = [l.replace("x", "x%d" % (k // 2)) for k, l in enumerate(lines)]
    if not out:
        raise Discard("nothing defined")
    r = t.asm("\n".join(lines) + "\n")
    expect_bytes(bytes(out), ok_output(r), "values of %d %s ..." % (a, op))
    t.nontrivial("\n".join(lines))
    t.label("operator " + op)


def chain(src, t):
    """Long chains of operators: strictly left to right, parentheses excepted."""
    tk, v, _ = gen(src, Env([], None), depth=4, avg=7, maxops=12)
    e = text(tk, make_style(src))
    if len(e) > 240:
        raise Discard("too long")
    r = t.asm("x = %s\n .dw x, x>>16\n" % e)
    expect_bytes((v & 0xFFFFFFFF).to_bytes(4, "little"), ok_output(r), "value of %s" % e)
    t.nontrivial(e)
    t.sample(e)


def wide(src, t):
    """Many short groups side by side, and groups deep inside each other, with the operator before or after them."""
    def deep(n):
        v = src.int(-9, 99)
        e = str(v) if v >= 0 else "(0-%d)" % -v
        for _ in range(n):
            op = src.choice(["+", "-", "*", "&", "|", "^", "==", "<", ">>"] if src.draw(3) else ["+", "-"])
            w = src.int(0, 9)
            k = src.draw(7)
            if k == 3:
                e = src.choice(["eval(%s)", "eval(%s)", "eval( %s )"]) % e
                continue
            k %= 3
            if k == 0:
                a, b, f = v, w, "(%s" + op + "%d)" % w
            elif k == 1:
                a, b, f = w, v, "(%d" % w + op + "%s)"
            else:
                f = "(%s)"
                e = f % e
                continue
            x = apply_op(op, a, b)
            if x is None:
                op, x = "+", i32(a + b)
                f = f.replace(">>", "+")
            v = x
            e = f % e
        return e, v
    n = src.choice([1, 2, 10, 20, 30, 40, src.int(1, 60)])
    d = src.choice([1, 1, 1, 2]) if n > 3 else src.int(1, 17)
    b = src.choice(["", "", " "])
    e, v, used = deep(d) + (1,)
    if src.draw(4) == 0:
        w = src.int(0, 99)
        e, v = "%d-%s" % (w, e), i32(w - v)
    for _ in range(n):
        g, x = deep(d if src.draw(4) else 1)
        op = src.choice(["+", "-", "*", "&", "|", "^", "==", "<", ">", "&&", "||"] if src.draw(3) else ["+", "-"])
        if len(e) + len(g) > 225:
            break
        used += 1
        e, v = e + b + op + b + g, apply_op(op, v, x)
    w = src.draw(4)
    u = (v & 0xFFFFFFFF).to_bytes(4, "little")
    if w == 0:
        s, out = "x = %s\n .dw x, x>>16\n" % e, u
    elif w == 1:
        s, out = " .dl 7, %s\n" % e, b"\7\0\0" + u[:3]
    elif w == 2:
        s, out = " .dl %s+z\nz = 5\n" % e, ((v + 5) & 0xFFFFFF).to_bytes(3, "little")
    else:
        s, out = "#if %s\n .db 1\n#else\n .db 2\n#endif\n" % e, b"\1" if v else b"\2"
    r = t.asm(s)
    expect_bytes(out, ok_output(r), "value of %s (%d)" % (e, v))
    t.nontrivial(e)
    t.sample(e)
    t.label("groups %d+, depth %d+" % (used // 10 * 10, d // 5 * 5))


def literals(src, t):
    """Every notation, with boundary values, leading zeros and either letter case."""
    lines, out = [], bytearray()
    for k in range(src.int(1, 8)):
        v = src.choice([src.int(0, 0xFFFFFFFF), src.int(0, 255), src.choice([0, 1, 9, 10, 15, 16, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF,
                        0xABCDEF, 0xB, 0xD, 0x1B, 0x1D, 0xFB, 0x0D0B, 0xBEEF])])
        z = "0" * src.draw(4)
        n = src.draw(8)
        if n == 0:
            s = z + str(v)
        elif n == 1:
            s = "$" + z + "%x" % v
        elif n == 2:
            s = "0" + z + "%x" % v + "h"
        elif n == 3:
            s = "%" + z + "{:b}".format(v)
        elif n == 4:
            s = z + "{:b}".format(v) + "b"
        elif n == 5:
            s = z + "%d" % v + "d"
        elif n == 6:
            v = src.choice(list(range(32, 127)) + list(range(128, 256)))
            s = char_text(v, src)
        else:
            v = src.choice(list(ESC))
            s = ESC[v]
            s = "'" + (s.upper() if src.draw(2) else s) + "'"
        if n < 6 and src.draw(2):
            s = s.upper()
        if src.draw(4) == 0:
            s = src.choice(["-", "~", "+"]) + s
            v = un(s[0], i32(v))
        lines += ["x%d = %s" % (k, s), " .dw x%d, x%d>>16" % (k, k)]
        out += (v & 0xFFFFFFFF).to_bytes(4, "little")
        t.nontrivial(s)
    t.sample("\n".join(lines))
    r = t.asm("\n".join(lines) + "\n")
    expect_bytes(bytes(out), ok_output(r))


def getc(src, t):
    """getc(file, index) is the byte of the file at that index, wherever a value may stand."""
    data = bytes(src.choice([src.draw(256), 0, 255, 10, 13, 26, 128]) for _ in range(src.int(1, 40)))
    fname = src.choice(["f.bin", "data", "two words.bin", "d/f.bin", "a,b"])
    names = [("s%d" % i, src.int(0, 60)) for i in range(src.draw(3))]
    pc = src.choice([0, 0x9D95, src.int(0, 65535)])
    lines = ["%s = %d" % nv for nv in names] + [".org %d" % pc, '#define fn "%s"' % fname, '#define at(i) getc("%s",i)' % fname]
    out, tail, nt = bytearray(), [], False
    for k in range(src.int(1, 5)):
        i = src.choice([src.draw(len(data)), len(data) - 1, 0])
        v = data[i]
        w = src.draw(5)
        late = False
        if w == 0:
            ix = str(i)
        elif w == 1:
            ix = text(valued(src, i, Env(names), depth=1)[0])
            if '"' in ix or ";" in ix:
                ix = "%d+0" % i
        elif w == 2:
            ix = "l%d" % k
            tail.append("l%d = %d" % (k, i))
            late = True
        elif w == 3 and names:
            n, nv = src.choice(names)
            ix = "%s%+d" % (n, i - nv)
        else:
            ix = "($%X)" % i
        b = src.choice(["", " "])
        e = src.choice(['getc(%s"%s"%s,%s%s)' % (b, fname, b, b, ix), 'GetC("%s",%s)' % (fname, ix), "getc(fn,%s)" % ix, "at(%s)" % ix])
        if len(e) > 180:
            raise Discard("too long")
        a = src.draw(4)
        if a == 1:
            n = src.draw(200)
            e, v = "%s+%d" % (e, n), v + n
        elif a == 2:
            n = src.draw(200)
            e, v = "%d+%s" % (n, e), v + n
        elif a == 3:
            n = src.int(1, 9)
            e, v = "(%s)*%d" % (e, n), v * n
        c = src.choice(["dw", "ins", "equ", "if", "second"])
        if late and c in ("equ", "if"):
            c = "second"
        if c == "dw":
            lines.append(" .dw " + e)
            out += v.to_bytes(2, "little")
        elif c == "second":
            lines.append(" .dw 7, %s, 9" % e)
            out += b"\7\0" + v.to_bytes(2, "little") + b"\x09\0"
        elif c == "ins":
            lines.append(" ld hl,0+" + e)
            out += b"\x21" + v.to_bytes(2, "little")
        elif c == "equ":
            lines += ["q%d = %s" % (k, e), " .dw q%d" % k]
            out += v.to_bytes(2, "little")
        else:
            lines += ["#if %s == %d" % (e, v), " .db 1", "#endif", "#if %s == %d" % (e, v + 1), " .db 2", "#endif"]
            out.append(1)
        nt = nt or v != 0
    s = "\n".join(lines + tail) + "\n"
    r = t.asm(s, files={fname: data})
    expect_bytes(bytes(out), ok_output(r))
    if nt:
        t.nontrivial(s)
    t.sample(s)


BAD_LIT = [
    lambda s: str(s.int(0, 999)) + s.choice("acefgxyz") + s.choice(["", "1", "5"]),
    lambda s: "$%X" % s.int(0, 999) + s.choice("ghijkxyzGZ"),
    lambda s: "%" + "{:b}".format(s.int(0, 99)) + s.choice("23456789acx"),
    lambda s: "{:b}".format(s.int(0, 99)) + s.choice("2345679") + s.choice(["", "1"]) + "b",
    lambda s: "%d" % s.int(0, 99) + s.choice("aceg") + "d",
    lambda s: "0" + s.choice("gyzk") + "%xh" % s.int(0, 99),
    lambda s: str(s.choice([2 ** 32, 2 ** 32 + s.draw(1000), 2 ** 33, 2 ** 63, 2 ** 64, 10 ** 25])),
    lambda s: "$%X" % s.choice([2 ** 32, 2 ** 36 - 1, 2 ** 64 + 5, 2 ** 80]),
    lambda s: "0%Xh" % s.choice([2 ** 32, 2 ** 36 - 1, 2 ** 64 + 5]),
    lambda s: "%" + "{:b}".format(s.choice([2 ** 32, 2 ** 33 + 5, 2 ** 64 + 1])),
    lambda s: "{:b}b".format(s.choice([2 ** 32, 2 ** 33 + 5])),
    lambda s: s.choice(["%", "@", "?5", "]", "{3}", "!", "!5", "."]),
]


def malformed(src, t):
    names = [("s%d" % i, src.int(1, 300)) for i in range(src.draw(3))]
    env = Env(names, 0x8000, chars=False)

    def good(d=1):
        return text(gen(src, env, depth=d, avg=0.8, maxops=3)[0])
    k = src.draw(8)
    if k == 0:
        bad = src.choice(BAD_LIT)(src)
        e = bad
        for _ in range(src.draw(3)):
            w = src.draw(3)
            op = src.choice(["+", "-", "*", "&", "|", "<<"])
            if w == 0:
                e = e + op + good()
            elif w == 1:
                e = good() + op + e
            else:
                e = "(" + e + ")"
        what = "malformed literal"
    elif k == 1:
        z = src.choice(["0", "(5-5)", "$00", "(1&2)", "%0", "(3>4)"])
        op = src.choice(["/", "%"])
        e = good() + " " + op + " " + z
        if src.draw(2):
            e = "(" + e + ")" + src.choice(["", "+1", "*0"])
        what = "division by zero"
    elif k == 2:
        e = good() + src.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&&", "||", "==", "<", " !="])
        what = "missing operand"
    elif k == 3:
        e = "1" + src.choice(["", "+" + good()]) + src.choice([" 5", " (3)", " $4", " 'a'", " @", " ! 3", " # 3", " ? 2", " ~3", " s0"])
        what = "missing operator"
    elif k == 4:
        e = src.choice(["*", "/", "&", "|", "^", "<", ">", "="]) + good()
        what = "missing first operand"
    elif k == 5:
        e = good() + src.choice(["+", "-", "*", "&"]) + " " + src.choice(["*", "/", "&", "|", "^", "=", "<", ")"]) + good()
        if ")" in e and e.count(")") > e.count("("):
            e = "(" + e
        what = "operator for operand"
    elif k == 7:
        e = good() + src.choice([")", " )", ")," + good(), ")+" + good()])
        what = "unmatched closing parenthesis"
    else:
        e = src.choice(["1", good()]) + src.choice(["+", "*"]) + src.choice(["()", "( )"])
        what = "empty parentheses"
    if len(e) > 200:
        raise Discard("too long")
    c = src.draw(6) if k != 7 else src.choice([0, 1, 2, 3, 5])
    pre = ["%s = %d" % nv for nv in names] + [" .org $8000"] + [" nop"] * src.draw(3)
    post = []
    if c == 0:
        l = [" .db " + e]
    elif c == 1:
        l = [" .dw 1," + e]
    elif c == 2:
        l = [" ld hl,0+" + e if e[0] not in "*/&|^<>=" else " ld hl," + e]
    elif c == 3:
        l = ["q = " + e]
    elif c == 4:
        l = ["#if " + e]
        post = ["#endif"]
    else:
        l = [" .dl " + e]
    s = "\n".join(pre + l + post + [" nop"]) + "\n"
    r = t.asm(s)
    ds = diags(r)
    line = len(pre) + 1
    if not any(d.kind == "error" and d.line == line for d in ds):
        raise Violation("%s not diagnosed as an error of line %d: %s" % (what, line, l[0].strip()), output=r.text())
    if any(d.line != line for d in ds):
        raise Violation("a line without fault is diagnosed", output=r.text())
    if r.rc == 0:
        raise Violation("%s: exit status 0: %s" % (what, l[0]), output=r.text())
    t.nontrivial(s)
    t.label(what)


def parts(tier):
    q = tier == "quick"
    return [("sweep_ops", sweep_ops, len(OPS) * (30 if q else 600)), ("values", values, 6000 if q else 150000),
            ("chain", chain, 5000 if q else 150000), ("wide", wide, 3000 if q else 80000), ("literals", literals, 4000 if q else 100000), ("malformed", malformed, 6000 if q else 120000), ("getc", getc, 3000 if q else 60000)]
