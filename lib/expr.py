"""Expressions: generation together with the value the language defines (strictly left to right,
32-bit two's complement), rendered as tokens.

Tokens: ('w', text) case-insensitive word, ('n', text) number literal, ('s', name) symbol,
('x', text) verbatim, ('o',) place where blanks may stand, ('m',) place where a blank must stand.
"""

O = ("o",)
M = ("m",)


def i32(v):
    v &= 0xFFFFFFFF
    return v - (1 << 32) if v & 0x80000000 else v


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def apply_op(op, a, b):
    """None when the operation is an error or has no defined value."""
    if op == "+":
        return i32(a + b)
    if op == "-":
        return i32(a - b)
    if op == "*":
        return i32(a * b)
    if op in ("/", "%"):
        if b == 0 or (a == -(1 << 31) and b == -1):
            return None
        q = tdiv(a, b)
        return q if op == "/" else a - q * b
    if op == "^":
        return i32(a ^ b)
    if op == "&":
        return i32(a & b)
    if op == "|":
        return i32(a | b)
    if op in ("<<", ">>"):
        if not 0 <= b <= 31:
            return None
        return i32(a << b) if op == "<<" else a >> b
    if op == "&&":
        return int(bool(a) and bool(b))
    if op == "||":
        return int(bool(a) or bool(b))
    if op == "<":
        return int(a < b)
    if op == ">":
        return int(a > b)
    if op == "<=":
        return int(a <= b)
    if op == ">=":
        return int(a >= b)
    if op in ("==", "="):
        return int(a == b)
    if op == "!=":
        return int(a != b)
    raise AssertionError(op)


OPS = ["+", "-", "*", "&", "|", "^", "<<", ">>", "/", "%", "<", ">", "<=", ">=", "==", "=", "!=", "&&", "||"]


def un(op, v):
    return i32({"~": ~v, "-": -v, "+": v}[op])


# ---------------------------------------------------------------- literals
ESC = {10: "\\n", 13: "\\r", 9: "\\t", 0: "\\0", 92: "\\\\", 39: "\\'"}


# characters a backslash stands in front of without changing them
NOESC = (set(range(33, 127)) | set(range(128, 256))) - set(b"0nNrRtT#")


def char_text(v, src=None):
    if v in ESC:
        return "'" + ESC[v] + "'"
    if src is not None and v in NOESC and src.draw(4) == 0:
        return "'\\" + chr(v) + "'"
    return "'" + chr(v) + "'"


def lit(src, v, chars=True):
    """Tokens for a literal of value v (0 <= v <= 0xFFFFFFFF, stands for i32(v))."""
    k = src.draw(8)
    if k <= 1:
        s = str(v)
    elif k == 2:
        s = "$%X" % v
    elif k == 3:
        s = "$" + "0" * src.draw(3) + "%x" % v
    elif k == 4:
        s = "0%Xh" % v
    elif k == 5 and v < 1 << 16:
        s = "%" + "0" * src.draw(3) + "{:b}".format(v)
    elif k == 6 and v < 1 << 16:
        s = "{:b}b".format(v) if src.draw(2) == 0 else "%dd" % v
    elif k == 7 and chars and (32 <= v < 127 or 128 <= v < 256 or v in ESC):
        return [("x", char_text(v, src))]
    else:
        s = "$%X" % v
    return [("n", s)]


class Env:
    """What an expression may mention: (name, value) pairs and the address it stands at."""
    __slots__ = ("names", "pc", "chars", "anon")

    def __init__(self, names=(), pc=None, chars=True, anon=()):
        self.names = list(names)
        self.pc = pc
        self.chars = chars
        self.anon = list(anon)      # (text, value) references to anonymous labels


def rand_val(src):
    k = src.draw(6)
    if k <= 2:
        return src.int(0, 300)
    if k == 3:
        return src.choice([0, 1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF])
    if k == 4:
        return src.int(0, 65535)
    return src.int(0, 0xFFFFFFFF)


def primary(src, env, depth, must=None):
    """-> tokens, value, set of names used"""
    k = src.draw(10)
    if must is not None:
        n, v = must
        toks, val, used = [("s", n)], i32(v), {n}
    elif k <= 3 or (k <= 6 and not env.names):
        v = rand_val(src)
        toks, val, used = lit(src, v, env.chars), i32(v), set()
    elif k <= 6:
        n, v = src.choice(env.names)
        toks, val, used = [("s", n)], i32(v), {n}
    elif k == 7 and env.pc is not None:
        toks, val, used = [("x", "$")], i32(env.pc), {"$"}
    elif k == 8 and env.anon:
        n, v = src.choice(env.anon)
        return [("x", n)], i32(v), {n}
    elif depth > 0:
        t, val, used = gen(src, env, depth - 1)
        toks = [("x", "("), O] + t + [O, ("x", ")")]
    else:
        v = src.int(0, 300)
        toks, val, used = lit(src, v, env.chars), v, set()
    u = src.draw(8)
    if u == 5:
        toks, val = [("x", "-"), O] + toks, un("-", val)
    elif u == 6:
        toks, val = [("x", "~"), O] + toks, un("~", val)
    elif u == 7:
        toks, val = [("x", "+"), O] + toks, un("+", val)
    return toks, val, used


def optoks(op):
    # a blank must stand before != because ! may be part of a name
    if op == "!=":
        return [M, ("x", op), O]
    return [O, ("x", op), O]


def gen(src, env, depth=2, avg=1.2, maxops=5, must=None, ops=OPS):
    toks, val, used = primary(src, env, depth, must)
    used = set(used)
    for _ in src.many(0, avg, maxops):
        op = src.choice(ops)
        t, v, u = primary(src, env, depth)
        r = apply_op(op, val, v)
        if r is None:
            if op in ("<<", ">>"):
                v = src.int(0, 31)
            else:
                v = src.int(1, 200)
            t, u = lit(src, v, env.chars), set()
            r = apply_op(op, val, v)
        toks = toks + optoks(op) + t
        val = r
        used |= u
    return toks, val, used


def valued(src, target, env, depth=1, must=None, plain=0.5, nolead=False):
    """Tokens of an expression whose 32-bit value is target, and the names it uses.
    must: a (name, value) pair that has to occur. nolead: must not begin with a parenthesis."""
    target = i32(target)
    if must is None and src.bool(plain) is False:
        if target >= 0 or src.draw(3) == 0:
            return lit(src, target & 0xFFFFFFFF, env.chars), set()
        if target > -(1 << 31):
            return [("x", "-"), O] + lit(src, -target, env.chars), set()
    toks, val, used = gen(src, env, depth, avg=0.6, maxops=3, must=must)
    d = i32(target - val)
    if d != 0:
        if d < 0 and d != -(1 << 31):
            toks = toks + optoks("-") + lit(src, -d, env.chars)
        else:
            toks = toks + optoks("+") + lit(src, d & 0xFFFFFFFF, env.chars)
    if nolead and first_char(toks) == "(":
        toks = [("n", "0"), O, ("x", "+"), O] + toks
    return toks, used


def first_char(toks):
    for t in toks:
        if t[0] in "wnsx":
            return t[1][0]
    return ""


# ---------------------------------------------------------------- rendering
def text(toks, style=None):
    """Plain text of tokens; style(kind, text) may vary them."""
    out = []
    for t in toks:
        k = t[0]
        if k == "o":
            out.append(style("o", "") if style else "")
        elif k == "m":
            out.append(style("m", " ") if style else " ")
        else:
            out.append(style(k, t[1]) if style else t[1])
    return "".join(out)


def mixcase(src, s):
    k = src.draw(4)
    if k == 0:
        return s
    if k == 1:
        return s.upper()
    if k == 2:
        return s.lower()
    return "".join(c.upper() if src.draw(2) else c.lower() for c in s)


def make_style(src, sym_case=True, blanks=True, num_case=True):
    def style(k, s):
        if k == "o":
            return src.choice(["", "", " ", "\t", "  ", " \t "]) if blanks else ""
        if k == "m":
            return src.choice([" ", " ", "\t", "   ", "\t\t", " \t"]) if blanks else " "
        if k == "w":
            return mixcase(src, s)
        if k == "n" and num_case:
            return mixcase(src, s)
        if k == "s" and sym_case:
            return mixcase(src, s)
        return s
    return style
