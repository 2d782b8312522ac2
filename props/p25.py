"""P25: the same program in many layouts."""
from core import Violation, Discard, diags, expect_bytes, ok_output
from expr import M, O, make_style, mixcase, text
from p06 import KINDS, esc, label_table, merge, program
import ez80ref, z80ref

PROP = "P25"
TECHNIQUE = "random programs rendered in two random layouts (letter case, blanks, blank lines, comments, LF/CRLF/CR, colons, joined and split statements) - metamorphic between them and against the reference model"
NOTE = ("Sampled layouts; includes very long blank runs, comments and joined lines. Blanks are not put between a macro name and its parenthesis, and not before ! operators' names. "
        "The first line of a macro body is a comment (known finding of P09).")
RULE = "distinct layouts that differ from the plain one in at least two kinds of rewriting"
COMMENTS = ["", "c", " x = 5", " \"", " '", " don't \"quote", " \\ nop", "\\", " #endif", "#endmacro", ";;;", " ld a,(hl)", "\t", " \\\"", " '\\'", "\xe9\xff", " #if 0", "(((", ")))", " %s%n", " .end"]


class Layout:
    def __init__(self, src):
        d = src.draw
        self.src = src
        self.case = d(4) > 0
        self.blank = d(4) > 0
        self.com = src.choice([0, 0.1, 0.4, 0.8])
        self.empty = src.choice([0, 0.1, 0.4])
        self.join = src.choice([0, 0.2, 0.6, 0.95])
        self.eol = src.choice(["\n", "\n", "\r\n", "\r", "mixed"])
        self.long = d(8) == 0
        self.last = d(2)
        self.ff = d(4) == 0
        self.style = make_style(src, sym_case=self.case, blanks=self.blank, num_case=self.case) if self.blank or self.case else None
        if not self.case and self.style:
            st = self.style
            self.style = lambda k, s: s if k in "wns" else st(k, s)
        self.kinds = sum([self.case, self.blank, self.com > 0, self.empty > 0, self.join > 0, self.eol != "\n"])

    def w(self, s):
        return mixcase(self.src, s) if self.case else s

    def nl(self):
        return self.src.choice(["\n", "\r\n", "\r"]) if self.eol == "mixed" else self.eol

    def b(self, least=0):
        """Blanks, at least so many."""
        src = self.src
        if not self.blank:
            return " " * least
        if self.long and src.draw(10) == 0:
            return src.choice([" ", "\t"]) * src.int(100, 400)
        return (src.choice([" ", "\t"]) if least else "") + src.choice(["", "", " ", "\t", "   ", "\t\t "] + (["\f", " \v"] if self.ff else []))

    def comment(self):
        src = self.src
        c = src.choice(COMMENTS)
        if self.long and src.draw(6) == 0:
            c = src.choice(["x", "\"", "'", "\\", " "]) * src.int(200, 3000)
        return ";" + c

    def end(self):
        """What may stand behind the code of a line."""
        src = self.src
        # (an operand's trailing blanks count towards the limit of 254 characters)
        return self.short() + (self.comment() if src.bool(self.com) else "")

    def short(self):
        return self.src.choice(["", " ", "\t", " \t  "]) if self.blank else ""

    def fillers(self):
        out = []
        while self.src.bool(self.empty) and len(out) < 5:
            out.append(self.src.choice(["", self.b(), self.b() + self.comment()]))
        return out

    def stmt(self, nd):
        """(text, is it a label of its own line)"""
        src = self.src
        if nd.kind in ("label", "equ", "anon"):
            toks = list(nd.toks)
            if nd.kind != "equ":
                toks = [toks[0]] + ([("x", ":")] if src.draw(2) else [])
            else:
                # name [:] (= | .equ) value
                i = 2 if toks[1] == ("x", ":") else 1
                toks = toks[:1] + ([("x", ":")] if src.draw(2) else []) + [O if nd.style == "=" else M] + toks[i + 1:]
            return text(toks, self.style), nd.kind
        t = text(nd.toks, self.style)
        if len(t) > 240 and nd.kind != "data":
            raise Discard("expression beyond the limit of 254 characters")
        if nd.kind == "import":
            k = t.index(" ")
            t = self.w(t[:k]) + self.b(1) + t[k + 1:]
        return t, "pre" if t.startswith("#") else "stmt"

    def lines(self, items, files, ids):
        """Physical lines (without line ends) of a tree of items."""
        out = []
        cur = None              # open physical line that may be continued

        def flush():
            nonlocal cur
            if cur is not None:
                out.append(cur + self.end())
                cur = None

        for it in items:
            if not isinstance(it, tuple):
                t, k = self.stmt(it)
                lead = "" if k in ("label", "equ", "anon") else self.b(0 if t[0] in ".#" else 1)
                if k in ("label", "anon") and cur is None:
                    flush()
                    cur = t
                    self.islab = True
                    continue
                if k == "pre":
                    flush()
                    out.extend(self.fillers())
                    out.append(lead + t + self.end())
                    continue
                if cur is not None and self.islab and k == "stmt" and self.src.bool(self.join):
                    cur += self.b(1) + t            # label and statement on one line
                    self.islab = False
                elif cur is not None and self.src.bool(self.join) and len(cur) < 20000:
                    cur += self.short() + "\\" + lead + t
                    self.islab = k in ("label", "anon")
                else:
                    flush()
                    out.extend(self.fillers())
                    cur = lead + t
                    self.islab = k in ("label", "anon")
                continue
            flush()
            out.extend(self.fillers())
            k = it[0]
            pre = lambda w, rest="": self.b() + self.w(w) + (self.b(1) + rest if rest else "") + self.end()
            if k == "if":
                c = it[1]
                arms = [pre(c[0], c[1])] + self.lines(it[2], files, ids)
                if it[3] is not None:
                    arms += [pre("#else")] + self.lines(it[3], files, ids)
                out += arms + [pre("#endif")]
            elif k == "macro":
                out += [pre("#macro", "%s" % it[1]), self.b() + ";"] + self.lines(it[2], files, ids) + [pre("#endmacro")]
                out += self.fillers()
                out.append(self.b(1) + self.w(it[1]) + self.end())
            elif k == "include":
                ids[0] += 1
                f = "f%d_%d.inc" % (ids[1], ids[0])
                files[f] = self.whole(self.lines(it[1], files, ids))
                out.append(pre("#include", '"%s"' % f))
        flush()
        return out

    def whole(self, lines):
        s = "".join(l + self.nl() for l in lines)
        if not self.last:
            s = s.rstrip("\r\n")
        return s.encode("latin-1")


def tree(src, nodes, depth, ids):
    out = []
    i = 0
    while i < len(nodes):
        if depth and src.draw(5) == 0:
            j = min(len(nodes), i + src.int(1, 7))
            inner = tree(src, nodes[i:j], depth - 1, ids)
            k = src.choice(["if", "if", "macro", "include"])
            ids[0] += 1
            if k == "if":
                z = src.draw(3)
                if z == 0:
                    out.append(("if", ("#if", src.choice(["1", "1 == 1", "TRUE", "2 > 1 ", "3"])), inner, None))
                elif z == 1:
                    out.append(("if", ("#ifdef", "nope"), nodes[i:j], inner))
                else:
                    out.append(("if", ("#ifndef", "nope"), inner, None))
            elif k == "macro" and not has(inner, "macro"):
                out.append(("macro", "mac_%d" % ids[0], inner))
            elif k == "include":
                out.append(("include", inner))
            else:
                out += inner
            i = j
        else:
            out.append(nodes[i])
            i += 1
    return out


def has(items, k):
    return any(isinstance(x, tuple) and (x[0] == k or any(isinstance(y, list) and has(y, k) for y in x)) for x in items)


def layouts(src, t, p, args=(), table=True):
    l, b = label_table(p) if table else ([], b"")
    items = tree(src, p.nodes, 2, [0])
    base = {nd.fname: nd.data for nd in p.nodes if nd.kind == "import"}
    want = merge(p, b)
    for k in range(2):
        la = Layout(src)
        files = dict(base)
        s = la.whole(la.lines(items, files, [0, k]) + l)
        r = t.asm(s, args, files=files)
        try:
            expect_bytes(want, ok_output(r))
        except Violation as v:
            raise Violation(v.msg, layout=str(vars(la))[:300], source=s.decode("latin-1"))
        if la.kinds >= 2:
            t.nontrivial(s)
            t.sample(s.decode("latin-1")[:1500])
        for x in ("case", "blank", "com", "empty", "join", "long"):
            if getattr(la, x):
                t.label(x)
        t.label("eol " + repr(la.eol))


def z80(src, t):
    layouts(src, t, program(src, n=14, kinds=KINDS + [(1, "anon"), (1, "import")], anon=True))


def ez80(src, t):
    adl = 1
    forms = [ez80ref.Bound(f, src.choice(["", "", ""] + ez80ref.SUFFIXES[1:]), adl) for f in (src.choice(ez80ref.FORMS) for _ in range(40))]
    layouts(src, t, program(src, n=14, forms=forms, amask=0xFFFFFF, wide=False), args=["-E"])


def parts(tier):
    q = tier == "quick"
    return [("z80", z80, 8000 if q else 200000), ("ez80", ez80, 3000 if q else 60000)]
