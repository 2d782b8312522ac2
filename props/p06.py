"""P06: location counter, labels and output position against the two-pass reference model."""
from core import Violation, Discard, expect_bytes, ok_output, diags
from expr import lit, text, Env, valued, O, M
from prog import Node, Prog, plain

PROP = "P06"
TECHNIQUE = "random programs against a reference two-pass layout model; same program wrapped in macros, includes, conditionals, run()"
NOTE = ("Sampled programs of all emitting constructs; every label, $ and equate is observed through emitted bytes. "
        ".seek over bytes with deferred values is excluded (known finding).")
RULE = "distinct source texts that emit bytes after at least one .org/.seek/.fill/.block or inside a macro, include, conditional or run()"
KINDS = [(6, "ins"), (5, "data"), (4, "label"), (3, "equ"), (3, "fill"), (2, "org"), (2, "seek"), (2, "here")]


WIDE = [0xFFFF, 0xFFFF, 0xFFFFFF, 0x7FFF0000]


def program(src, n=12, kinds=KINDS, **kw):
    """Random program; 'here' nodes emit $ and the last label."""
    def nodes(p):
        out = []
        for _ in src.many(1, n, 4 * n):
            k = src.weighted(kinds)
            if k == "here":
                out.append(Node("here", size=3 + src.draw(2)))
            elif k == "import":
                b = src.bytes(src.int(0, 12))
                out.append(Node("import", size=len(b), data=b, fname="imp%d.dat" % len(out)))
            else:
                out.append(p.make(k))
        for nd in out:
            if nd.kind == "equ" and src.draw(3) == 0:
                nd.pc_equ = True
        return out
    p = Prog(src, nodes=nodes, **kw)
    for nd in p.nodes:
        if nd.kind == "here":
            nd.data = (nd.addr & 0xFFFFFFFF).to_bytes(4, "little")[:nd.size]
            nd.toks = [("w", ".dl"), M, ("x", "$")] if nd.size == 3 else [("w", ".db"), M, ("x", "$&255, $-1>>8&255, $-2>>16&255, $-3>>24&255")]
        elif nd.kind == "import":
            nd.toks = [("x", '#import "%s"' % nd.fname)]
    return p


def label_table(p):
    """.dl of every symbol at the end: all values are observed (the top byte too where it is in use)."""
    ns = [n for n in p.final]
    lines = []
    b = bytearray()
    for n in ns:
        v = p.final[n]
        if not -0x800000 <= v <= 0xFFFFFF:
            lines.append(" .db %s>>24&255" % n)
            b.append(v >> 24 & 255)
    for i in range(0, len(ns), 4):
        lines.append(" .dl " + ",".join(ns[i:i + 4]))
        for n in ns[i:i + 4]:
            b += (p.final[n] & 0xFFFFFF).to_bytes(3, "little")
    return lines, bytes(b)


def flat(src, t):
    om = src.choice(WIDE)
    p = program(src, org_max=om)
    l, b = label_table(p)
    s = "\n".join(p.lines() + l) + "\n"
    r = t.asm(s)
    expect_bytes(merge(p, b), ok_output(r))
    if any(nd.kind in ("org", "seek", "fill") for nd in p.nodes):
        t.nontrivial(s)
        t.sample(s)
    for nd in p.nodes:
        t.label(nd.kind)


def merge(p, tail):
    buf = bytearray()
    for nd in p.nodes:
        if nd.data:
            if len(buf) < nd.pos:
                raise Discard("gap")
            buf[nd.pos:nd.pos + len(nd.data)] = nd.data
    buf[p.end_pos:p.end_pos + len(tail)] = tail
    # the output ends where the last statement ended
    return bytes(buf[:p.end_pos + len(tail)])


def esc(s):
    return s.replace("\\", "\\\\").replace('"', '\\"')


def wrap(src, nodes, files, depth, ids):
    """Lines of the nodes with random runs of them moved into macros, includes, conditionals and run()."""
    out = []
    i = 0
    while i < len(nodes):
        if depth > 0 and src.draw(4) == 0:
            j = min(len(nodes), i + src.int(1, 6))
            inner = wrap(src, nodes[i:j], files, depth - 1, ids)
            k = src.choice(["macro", "include", "if", "run", "line"])
            ids[0] += 1
            n = ids[0]
            if k == "macro" and not any(l.startswith("#macro") for l in inner):
                out += ["#macro mac_%d" % n, " ;"] + inner + ["#endmacro", " mac_%d" % n]
            elif k == "include":
                f = "inc_%d.inc" % n
                files[f] = "\n".join(inner) + ("\n" if src.draw(2) else "")
                out.append('#include "%s"' % f)
            elif k == "if":
                out += ["#if 1"] + inner + ["#endif"] if src.draw(2) else ["#if 0", " .db 1,2,3", "lostlabel_%d:" % n, "#else"] + inner + ["#endif"]
            elif k == "run" and not any(x.startswith("#") or " run" in x or "wr(" in x for x in inner) and all(len(esc(x)) < 200 for x in inner):
                out += [" clr()"] + [' wr("%s")' % esc(x) for x in inner] + [" run()"]
            elif k == "line" and not any(x.startswith("#") or x[:1] not in " " or ";" in x for x in inner) and inner:
                out.append(" \\".join(inner))
            else:
                out += inner
            i = j
        else:
            out.append(plain(nodes[i]) if nodes[i].kind != "import" else text(nodes[i].toks))
            i += 1
    return out


def nested(src, t):
    p = program(src, n=14, kinds=KINDS + [(2, "import")], org_max=src.choice(WIDE))
    l, b = label_table(p)
    files = {nd.fname: nd.data for nd in p.nodes if nd.kind == "import"}
    s = "\n".join(wrap(src, p.nodes, files, 3, [0]) + l) + "\n"
    r = t.asm(s, files=files)
    expect_bytes(merge(p, b), ok_output(r))
    t.nontrivial(s)
    t.sample(s)


def big(src, t):
    """Large fills and origins: counts and addresses beyond 8 and 16 bits."""
    lines, out, pc = [], bytearray(), 0
    for k in range(src.int(1, 6)):
        w = src.draw(4)
        if w == 0:
            pc = src.choice([0xFFF0, 0x10000, 0x12345, 0xFFFFFF, src.int(0, 0xFFFFFF)])
            lines.append(" .org $%X" % pc)
        elif w == 1:
            c, v = src.choice([255, 256, 257, 65535, 65536, 70000, src.int(0, 100000)]), src.int(-128, 255)
            lines.append(" .%s %d,%d" % (src.choice(["fill", "block"]), c, v))
            out += bytes([v & 255]) * c
            pc += c
        elif w == 2:
            c = src.choice([256, 65536, src.int(0, 70000)])
            lines.append(" .%s %d" % (src.choice(["fill", "block"]), c))
            out += bytes(c)
            pc += c
        else:
            s = "x" * src.int(1, 200)
            lines.append(' .db "%s"' % s)
            out += s.encode()
            pc += len(s)
        lines.append("l%d: .dl $, l%d, e%d" % (k, k, k))
        lines.append("e%d = $-9" % k if src.draw(2) else "e%d: .equ l%d" % (k, k))
        out += (pc & 0xFFFFFF).to_bytes(3, "little") + (pc & 0xFFFFFF).to_bytes(3, "little") * 1 + (pc & 0xFFFFFF).to_bytes(3, "little")
        # $ of the first item is the address of the statement
        pc += 9
    s = "\n".join(lines) + "\n"
    r = t.asm(s)
    expect_bytes(bytes(out), ok_output(r))
    t.nontrivial(s)


def seek_deferred(t):
    """Known finding: a deferred value written over what .seek put in its place."""
    r = t.asm(" .db later\n .seek 0\n .db 1\nlater = 5\n")
    return r.files["out.bin"] == b"\x05"


FINDINGS = {"seek-deferred": seek_deferred}


def parts(tier):
    q = tier == "quick"
    return [("flat", flat, 9000 if q else 200000), ("nested", nested, 9000 if q else 200000), ("big", big, 800 if q else 20000)]
