"""P26: .echo and .show against the values of the reference program model."""
import re
from core import Violation, Discard, diags, alive, expect_bytes, ok_output
from expr import Env, gen, lit, text
from prog import Node, gen_string, string_text
from p06 import program, label_table, merge, KINDS, wrap

PROP = "P26"
TECHNIQUE = "random programs with .echo/.show statements (strings, expressions over earlier and later symbols, $, defines, macro arguments, redirections) against a model of the text they print; output bytes compared with the program without them"
NOTE = ("Sampled. Redirected .echo is evaluated while its line is read, so only earlier symbols are used in it (a later one has to be diagnosed), and a blank is left after > (known finding). "
        ".show of a define prints when its line is read; of a later define, with the echoes.")
RULE = "distinct sources with an echoed expression value, or a .show or a redirection"
SHOWN = re.compile(r"(?m)^(\w+(?:\([^()]*\))?): +")
GLUED = True
ARGS = ["p", "q", "r"]


class E:
    def __init__(self, src, p, dir):
        self.src, self.p, self.dir = src, p, dir
        self.known = {}
        self.defs = {}          # name -> (text, printed or None)
        self.one, self.two = [], []
        self.files = {}
        self.later_defs = []
        self.values = 0
        self.where = {}
        self.n = 0

    def path(self, f):
        """Another way to name the file of that name in the working directory."""
        return self.src.choice(["", "", "", "./", "sub/../", self.dir + "/", self.dir + "//./"]) + f

    def string(self):
        src = self.src
        s = gen_string(src)
        s = bytes(c for c in s if c != 13 and c < 127) if src.draw(4) else b"".join(bytes([src.choice(b"ab ,;()\\\"'#.\n\t5$%")]) for _ in range(src.draw(8)))
        return string_text(src, s), s.decode("latin-1")

    def expr(self, pc, fwd):
        src = self.src
        names = list(self.known.items())
        if fwd:
            names = list(self.p.final.items())
        must = src.choice(names) if names and src.draw(3) else None
        t, v, used = gen(src, Env(names, pc), depth=1, avg=0.7, maxops=3, must=must)
        s = text(t)
        self.values += 1
        return s, str(v)

    def items(self, pc, fwd, mx=4):
        src = self.src
        ts, out = [], ""
        for _ in src.many(1, 2, mx):
            k = src.draw(7)
            if k <= 2:
                a, b = self.string()
            elif k <= 5 or not self.defs:
                a, b = self.expr(pc, fwd)
            else:
                n = src.choice(sorted(self.defs))
                a, b = n, self.defs[n][1]
                if b is None or self.defs[n][2] and not fwd:
                    a, b = self.string()
            ts.append(a)
            out += b
        s = src.choice([",", ", ", " , "]).join(ts)
        if len(s) > 200:
            raise Discard("long")
        return s, out


def statement(e, nd_addr, nodes):
    src = e.src
    k = src.draw(18)
    def add(line):
        nodes.append(Node("echo", toks=[("x", line)], raw=True))
    if k <= 6:
        s, o = e.items(nd_addr, src.draw(2) == 1)
        add(".echo " + s)
        e.two.append(o)
    elif k <= 8:
        # the same through a macro: parameters are strings or values
        e.n += 1
        m = "emac%d" % e.n
        ps = ARGS[:src.int(1, 3)]
        va = []
        for _ in ps:
            a, o = e.string() if src.draw(2) else e.expr(nd_addr, False)
            va.append((a, o))
        body = [src.choice(ps) if src.draw(3) else '"-"' for _ in range(src.int(1, 4))]
        d = dict(zip(ps, va))
        # strings of the body's own, with escapes, the parameters' names and separators in them
        for i in range(len(body)):
            if src.draw(3) == 0:
                a, o = e.string() if src.draw(3) else src.choice([('"%s\\\\"' % ps[0], ps[0] + "\\"), ('"\\""', '"'), ('"\\\\"', "\\"), ('" %s "' % ps[0], " %s " % ps[0])])
                if a[:1] == '"' and "\n" not in a:
                    body[i] = a
                    d[a] = (a, o)
        if sum(len(a) for a, _ in va) > 120:
            raise Discard("long")
        out = "".join(d[b][1] if b in d else "-" for b in body)
        red, more = "", ""
        if src.draw(3) == 0:
            # redirected, the file named in the body or by an argument
            f = "echo%d.txt" % src.draw(3)
            app = src.draw(2)
            e.files[f] = (e.files.get(f, "") if app else "") + out
            f = e.path(f)
            if src.draw(3):
                ps, va, red = ps + ["fn"], va + [('"%s"' % f, f)], "fn"
            else:
                red = f
            red = (">>" if app else ">") + " " + red + " "
        else:
            e.two.append(out)
        defs = ["#macro %s(%s)\n ;\n .echo %s%s\n#endmacro" % (m, ",".join(ps), red, ",".join(body))]
        if src.draw(3) == 0:
            # through a second macro that hands its own parameters on
            outer = [x + "_" for x in ps] if src.draw(2) else list(ps[::-1])
            hand = [x + "_" for x in ps] if outer[0][-1] == "_" else None
            if hand:
                defs.append("#macro O%s(%s)\n ;\n %s(%s)\n#endmacro" % (m, ",".join(outer), m, ",".join(hand)))
                m = "O" + m
        nodes.append(Node("mdef", toks=[("x", "\n".join(defs) + "\n %s(%s)" % (m, ",".join(a for a, _ in va)))]))
    elif k >= 16:
        # the same macro at different places: $ is the address of each of them, whatever line the body stands on
        if nd_addr is None:
            return
        defs = ""
        if not e.where or src.draw(3) == 0:
            e.n += 1
            c = src.int(0, 9)
            e.where["where%d" % e.n] = c
            defs = "#macro where%d(w)\n ;\n .echo %s\n#endmacro\n" % (e.n, "$+%d,w" % c)
        m = src.choice(sorted(e.where))
        names = sorted(e.p.final.items())
        a, v = src.choice(names) if names and src.draw(2) else ("7", 7)
        v &= 0xFFFFFFFF
        e.two.append("%d%d" % (nd_addr + e.where[m], v - (1 << 32) if v >> 31 else v))
        e.values += 1
        nodes.append(Node("mdef", toks=[("x", defs + " %s(%s)" % (m, a))]))
    elif k == 13:
        # expressions over parameters, with symbols defined before or after
        names = sorted(e.p.final.items())
        if not names:
            return
        e.n += 1
        m = "xmac%d" % e.n
        ps = ARGS[:src.int(1, 3)]
        va = [src.choice(names) if src.draw(3) else (str(x), x) for x in [src.int(0, 999) for _ in ps]]
        body, out = [], ""
        for _ in range(src.int(1, 3)):
            i = src.draw(len(ps))
            j = src.draw(len(ps))
            c = src.int(0, 99)
            a, v = src.choice([(ps[i], va[i][1]), (ps[i] + "+%d" % c, va[i][1] + c), ("%d-%s" % (c, ps[i]), c - va[i][1]), ("%s^%s" % (ps[i], ps[j]), va[i][1] ^ va[j][1]),
                               ("(%s-%s)" % (ps[i], ps[j]), va[i][1] - va[j][1])])
            body.append(a)
            v &= 0xFFFFFFFF
            out += str(v - (1 << 32) if v >> 31 else v)
        e.two.append(out)
        e.values += 1
        defs = ["#macro %s(%s)\n ;\n .echo %s\n#endmacro" % (m, ",".join(ps), ",".join(body))]
        if src.draw(2):
            # the outer macro's parameters carry the same names in another order, or other names
            ren = [x + "_" for x in ps]
            defs.append("#macro O%s(%s)\n ;\n %s(%s)\n#endmacro" % (m, ",".join(ren), m, ",".join(ren)))
            m = "O" + m
        nodes.append(Node("mdef", toks=[("x", "\n".join(defs) + "\n %s(%s)" % (m, ",".join(str(a) for a, _ in va)))]))
    elif k == 9:
        e.n += 1
        n = "Edef%d" % e.n
        fwd = False
        if src.draw(2):
            s, o = e.items(nd_addr, False, 3)
            if re.search(r"\$(?![0-9A-Fa-f])", s):
                o = None            # $ would mean the place of use
        else:
            fwd = True
            s, o = e.expr(None, True)
        nodes.append(Node("define", toks=[("x", "#define %s %s" % (n, s))]))
        e.defs[n] = (s, o, fwd)
    elif k == 10 and e.defs:
        n = src.choice(sorted(e.defs))
        add(".show " + (n if src.draw(2) else n.upper()))
        e.one.append("%s: %s" % (n.upper(), e.defs[n][0]))
    elif k == 11:
        e.n += 1
        n = "sh%d" % e.n
        ps = (ARGS + ["s%d" % k for k in range(13)])[:src.choice([0, 1, 2, 3, src.draw(17)])]
        d = "#define %s%s%s" % (n, "(" + ",".join(ps) + ")" if ps else "", " p+1" if ps else " " + str(src.draw(100)))
        shown = "%s%s: %s" % (n.upper(), "(" + ", ".join(ps) + ")" if ps else "", d.split(" ", 2)[2])
        if src.draw(2):
            nodes.append(Node("define", toks=[("x", d)]))
            add(".show " + n)
            e.one.append(shown)
        else:
            add(".show " + n)
            e.two.append(shown)
            e.later_defs.append(d)
    else:
        f = "echo%d.txt" % src.draw(3)
        s, o = e.items(nd_addr, False)
        app = src.draw(2)
        quoted = src.draw(2)
        e.files[f] = (e.files.get(f, "") if app else "") + o
        f = e.path(f)
        add(".echo %s%s%s %s" % (">>" if app else ">", src.choice(["", " ", "  ", "\t"][0 if app and GLUED and quoted else 1:]), '"%s"' % f if quoted else f, s))


def model(src, t):
    p = program(src, n=8)
    e = E(src, p, t.main.dir)
    nodes = []
    for nd in p.nodes + [None]:
        addr = nd.addr if nd else p.end_pc
        while src.draw(3) == 0:
            statement(e, addr, nodes)
        if nd is None:
            break
        nodes.append(nd)
        if nd.kind in ("label", "equ"):
            e.known[nd.name] = nd.value
    files = {}
    ok = not any(nd.kind in ("define", "mdef") for nd in nodes)
    l, b = label_table(p)
    if ok and src.draw(2):
        lines = wrap(src, nodes, files, 2, [0])
    else:
        from prog import plain
        lines = [text(nd.toks) if nd.kind == "define" or nd.kind == "mdef" else plain(nd) if nd.kind != "echo" else " " + text(nd.toks) for nd in nodes]
    s = "\n".join(lines + l + e.later_defs) + "\n"
    opts = src.sample(["-T", "-L", "-S"], src.draw(3)) if src.draw(3) == 0 else []
    r = t.run(dict(files, **{"in.asm": s, "sub/k": ""}), ["-N"] + opts + ["in.asm", "out.bin"], want=["out.bin"] + ["echo%d.txt" % k for k in range(3)])
    alive(r)
    expect_bytes(merge(p, b), ok_output(r))
    got = r.text()
    m = re.match(r"Pass one\.\.\. \n(.*?)Pass two\.\.\. \n(.*?)(Number of labels: .*)?Assembly time: [0-9.]+ seconds\n", got, re.S)
    if not m:
        raise Violation("unexpected console output", output=got[:1500])
    for what, exp, g in (("while reading", e.one, m.group(1)), ("after reading", e.two, m.group(2))):
        exp = "".join(x + "\n" for x in exp)
        if SHOWN.sub(r"\1: ", g) != SHOWN.sub(r"\1: ", exp):
            raise Violation("text printed %s differs" % what, expected=repr(exp[:900]), got=repr(g[:900]))
    for f in ("echo0.txt", "echo1.txt", "echo2.txt"):
        g = r.files[f]
        exp = e.files.get(f)
        if (g is None) != (exp is None) or (g is not None and g.decode("latin-1") != exp):
            raise Violation("redirected text in %s differs" % f, expected=repr(exp), got=repr(g))
    if e.values or e.files or e.one:
        t.nontrivial(s)
        t.sample(s)
    for nd in nodes:
        if nd.kind in ("echo", "mdef", "define"):
            t.label(text(nd.toks).split()[0] + (" >" if " >" in text(nd.toks)[:8] else ""))


def faulty(src, t):
    """.echo/.show of something undefined is diagnosed on its line."""
    n = src.draw(5)
    lines = [src.choice([" nop", "l%d:" % k, " .echo \"x\"", ' .echo "a;b",1', "#define d%d 3" % k, ""]) for k in range(n)]
    at = src.draw(n + 1)
    bad = src.choice([" .show nosuch", " .echo nosuch", ' .echo "a",nosuch', " .echo 1+nosuch,3", " .echo 1/0", " .echo > f.txt nosuch", ' .echo >> f.txt "a",1+nosuch', " .echo $GG", ' .echo "a', ' .echo "a"b', " .echo 1)", ' .echo "a",(1', "#define zz nosuch+1\n .echo zz"])
    lines.insert(at, bad)
    s = "\n".join(lines) + "\n"
    line = at + 1 + bad.count("\n")
    r = t.asm(s)
    ds = diags(r)
    if not ds:
        raise Violation("'%s' is not diagnosed" % bad, output=r.text()[-500:])
    for d in ds:
        if d.line != line:
            raise Violation("diagnostic for line %d instead of %d" % (d.line, line), output=r.text()[-500:])
    t.nontrivial(s)


def redirect_blank(t):
    r = t.run({"in.asm": ' .echo >abc.txt "x"\n'}, ["-N", "in.asm", "out.bin"], want=("abc.txt",))
    return r.files["abc.txt"] is None


FINDINGS = {"redirect-blank": redirect_blank}


def parts(tier):
    q = tier == "quick"
    return [("model", model, 12000 if q else 250000), ("faulty", faulty, 1500 if q else 20000)]
