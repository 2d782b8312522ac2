"""Reference interpreter for programs with defines, macros, labels and equates.

Expressions are trees, so one text can be evaluated under many environments:
('n', tokens, value) ('id', name) ('$',) ('un', op, e) ('bin', e0, [(op, e), ...]) ('call', name, [args])
Names are looked up in the parameters (innermost invocation first), then labels, then defines.
"""
from core import Discard
from expr import M, O, apply_op, i32, lit, mixcase, optoks, text, un

SAFE = ["+", "-", "*", "&", "|", "^", "<", ">", "<=", ">=", "==", "!=", "&&", "||"]


class Undef(Exception):
    """A name without a value is used."""


class St:
    """The assembler's state."""

    def __init__(self, later=None, case=False):
        self.labels = {}
        self.defs = {}          # name -> Def
        self.frames = []        # innermost last; name -> int | bytes | None
        self.out = bytearray()
        self.pc = 0
        self.later = later or {}
        self.deferred = 0
        self.steps = 0
        self.case = case
        self.calls = 0
        self.depth = 0

    def k(self, name):
        return name if self.case else name.upper()

    def copy(self):
        c = St(self.later, self.case)
        c.labels, c.defs, c.out, c.pc = dict(self.labels), dict(self.defs), bytearray(self.out), self.pc
        c.frames = list(self.frames)
        c.calls = self.calls
        c.deferred = self.deferred
        return c

    def emit(self, b):
        self.out += b
        self.pc += len(b)
        if len(self.out) > 3000:
            raise Discard("too much output")

    def tick(self):
        self.steps += 1
        if self.steps > 3000:
            raise Discard("too many steps")


class Def:
    """body: ('e', expr) | ('s', bytes) | ('l', [items]) | ('m', [stmts]) (macro or statement define)"""
    __slots__ = ("name", "params", "body", "once")

    def __init__(self, name, params, body):
        self.name, self.params, self.body = name, params, body


def param(st, name):
    """(found, value) among the parameters of the invocation the text belongs to. A parameter of an
    outer invocation of that name makes the program ambiguous (dynamic or static scope)."""
    k = st.k(name)
    for i, f in enumerate(reversed(st.frames)):
        if k in f:
            if i:
                raise Undef("scope")
            return True, f[k]
    return False, None


def call_frame(st, d, args):
    """Values of the arguments in the caller's environment: int, bytes (a string), ('fwd', int) or None."""
    vals = {}
    for i, p in enumerate(d.params):
        vals[st.k(p)] = None
        if i < len(args):
            a = args[i]
            if a[0] == "s":
                v = a[1]
            elif a[0] == "id":
                f, v = param(st, a[1])
                if f and v is None:
                    raise Undef(a[1])
                if not f:
                    n = st.k(a[1])
                    dd = st.defs.get(n) if n not in st.labels else None
                    if dd and dd.body[0] == "s":
                        v = dd.body[1]
                    elif n not in st.labels and not dd and n in st.later:
                        v = ("fwd", i32(st.later[n]))
                    else:
                        v = ev(st, a, False)
            else:
                v = ev(st, a, False)
            vals[st.k(p)] = v
    return vals


def ev(st, e, fwd=False):
    """Value of an expression; fwd: later symbols may be used (evaluation is deferred)."""
    st.tick()
    k = e[0]
    if k == "n":
        return i32(e[2])
    if k == "$":
        return i32(st.pc)
    if k == "un":
        return un(e[1], ev(st, e[2], fwd))
    if k == "bin":
        v = ev(st, e[1], fwd)
        for op, x in e[2]:
            v = apply_op(op, v, ev(st, x, fwd))
            if v is None:
                raise Discard("operator without value")
        return v
    if k == "id":
        f, v = param(st, e[1])
        if f:
            if v is None or isinstance(v, bytes):
                raise Undef(e[1])
            if isinstance(v, tuple):
                if not fwd:
                    raise Undef(e[1])
                st.deferred += 1
                return v[1]
            return v
        n = st.k(e[1])
        if n in st.labels:
            return i32(st.labels[n])
        d = st.defs.get(n)
        if d is not None:
            if d.body[0] != "e" or d.params:
                raise Undef(e[1])
            st.frames.append({})
            try:
                return nested(st, d.body[1], fwd)
            finally:
                st.frames.pop()
        if fwd and n in st.later:
            st.deferred += 1
            return i32(st.later[n])
        raise Undef(e[1])
    if k == "call":
        d = st.defs.get(st.k(e[1]))
        if d is None or d.body[0] != "e":
            raise Undef(e[1])
        fr = call_frame(st, d, e[2])
        st.frames.append(fr)
        st.calls += 1
        try:
            return nested(st, d.body[1], fwd)
        finally:
            st.frames.pop()
    raise AssertionError(k)


def nested(st, e, fwd):
    st.depth += 1
    try:
        if st.depth > 6:
            raise Discard("recursion")
        return ev(st, e, fwd)
    finally:
        st.depth -= 1


# ---------------------------------------------------------------- text
def toks(src, e, top=True):
    k = e[0]
    if k == "n":
        return list(e[1])
    if k == "$":
        return [("x", "$")]
    if k == "un":
        return [("x", e[1]), O] + toks(src, e[2], False)
    if k == "bin":
        t = toks(src, e[1], False)
        for op, x in e[2]:
            t += optoks(op) + toks(src, x, False)
        return t if top else [("x", "("), O] + t + [O, ("x", ")")]
    if k == "id":
        return [("s", e[1])]
    if k == "call":
        t = [("s", e[1]), ("x", "(")]
        for i, a in enumerate(e[2]):
            if i:
                t += [O, ("x", ","), O]
            t += arg_toks(src, a)
        return t + [("x", ")")]
    raise AssertionError(k)


def arg_toks(src, a):
    if a[0] == "s":
        return [("x", a[2])]
    return toks(src, a)


# ---------------------------------------------------------------- generation
def num(src, chars=True, small=False):
    v = src.int(0, 9) if small else src.choice([src.int(0, 20), src.int(0, 255), src.int(0, 65535), src.int(0, 0xFFFFFFFF)])
    return ("n", lit(src, v, chars), v)


class Names:
    """What an expression may mention."""

    def __init__(self, ids=(), funs=(), dollar=True):
        self.ids = list(ids)
        self.funs = list(funs)      # (name, number of parameters)
        self.dollar = dollar


def gen_e(src, nm, depth=2, must=None, maxops=3):
    e = prim(src, nm, depth, must)
    ops = []
    for _ in src.many(0, 0.8, maxops):
        k = src.draw(12)
        if k == 0:
            v = src.int(1, 9)
            ops.append((src.choice(["/", "%"]), ("n", lit(src, v, False), v)))
        elif k == 1:
            v = src.int(0, 9)
            ops.append((src.choice(["<<", ">>"]), ("n", lit(src, v, False), v)))
        else:
            ops.append((src.choice(SAFE), prim(src, nm, depth - 1)))
    return ("bin", e, ops) if ops else e


def prim(src, nm, depth, must=None):
    k = src.draw(10)
    if must is not None:
        e = ("id", must)
    elif k <= 2 or (k <= 6 and not nm.ids):
        e = num(src)
    elif k <= 6:
        e = ("id", src.choice(nm.ids))
    elif k == 7 and nm.funs and depth > 0:
        f, n = src.choice(nm.funs)
        e = ("call", f, [gen_e(src, nm, depth - 1, maxops=1) for _ in range(n)])
    elif k == 8 and depth > 0:
        e = gen_e(src, nm, depth - 1, maxops=2)
    elif k == 9 and nm.dollar:
        e = ("$",)
    else:
        e = num(src)
    u = src.draw(9)
    if u > 6 and e[0] != "un":
        e = ("un", "-" if u == 7 else "~", e)
    return e


# ---------------------------------------------------------------- statements
class S:
    """A statement: lines of tokens, and what it does to the state."""
    __slots__ = ("lines", "act", "info")

    def __init__(self, lines, act, info=None):
        self.lines, self.act, self.info = lines, act, info


def run(st, stmts):
    for s in stmts:
        st.tick()
        s.act(st)


INS = [("ld a,", "", "b", b"\x3e"), ("ld hl,", "", "w", b"\x21"), ("cp ", "", "b", b"\xfe"), ("ld (", "),a", "w", b"\x32"), ("jp nz,", "", "w", b"\xc2"),
       ("ld (ix", "),c", "d", b"\xdd\x71"), ("ld bc,(", ")", "w", b"\xed\x4b"), ("add a,", "", "b", b"\xc6"), ("call ", "", "w", b"\xcd")]


def in_field(v, f):
    if f == "b":
        return i32(v & 0xFF)
    return i32(v & 0xFFFF)


def data_stmt(src, items, width=None):
    """items: expr or ('s', bytes, text) or ('id' of a string or list)"""
    w = width or src.choice([1, 1, 2, 3])
    name = {1: [".db", ".byte"], 2: [".dw", ".word"], 3: [".dl", ".long"]}[w]
    t = [("w", src.choice(name)), M]
    for i, a in enumerate(items):
        if i:
            t += [O, ("x", ","), O]
        t += arg_toks(src, a)

    def act(st):
        for a in items:
            data_item(st, a, w)
    return S([t], act)


def data_item(st, a, w):
    if a[0] == "s":
        st.emit(a[1])
        return
    if a[0] == "id":
        f, v = param(st, a[1])
        if f and isinstance(v, bytes):
            st.emit(v)
            return
        n = st.k(a[1])
        if not f and n not in st.labels and n in st.defs and not st.defs[n].params:
            b = st.defs[n].body
            if b[0] == "s":
                st.emit(b[1])
                return
            if b[0] == "l":
                for x in b[1]:
                    data_item(st, x, w)
                return
    v = ev(st, a, True)
    lo, hi = {1: (-128, 255), 2: (-(1 << 31), 1 << 32), 3: (-(1 << 31), 1 << 32)}[w]
    if not lo <= v <= hi:
        raise Undef("range")
    st.emit((v & ((1 << 8 * w) - 1)).to_bytes(w, "little"))


def clip(e, bits=8):
    """(e)&mask, so that any value fits its field"""
    m = (1 << bits) - 1
    return ("bin", ("n", [("n", "%d" % m)], m), [("&", e)])
