"""P03: operand range checks, immediate and deferred."""
import z80ref
from core import Violation, Discard, diags, expect_bytes, ok_output, alive
from expr import Env, text, valued, i32, lit, O

PROP = "P03"
TECHNIQUE = "boundary-value property testing with a set-equality oracle on diagnosed lines"
NOTE = "Sampled programs concentrated on the limits of each field, both resolution orders; the set of diagnosed lines must equal the set of faulty lines exactly."
RULE = ("distinct programs with at least one operand outside its field or on one of the field's limits; operands are spread over all "
        "instruction forms of each kind, .db items and .fill values, resolved at once or from a later symbol")
FORMS = [f for f in z80ref.FORMS if f.slots and not f.undoc]
BY = {k: [f for f in FORMS if k in f.slots] for k in "nwdebr"}
LIM = {"n": (-128, 255), "d": (-128, 127), "b": (0, 7), "w": (-32768, 65535)}


def val(src, k, good):
    if k == "r":
        if good:
            return src.choice(z80ref.RST)
        v = src.choice([i32(src.choice(z80ref.RST) + (src.choice([-1, 1, 2, src.int(-128, 127)]) << src.choice([8, 16, 16, 24, 31]))), src.int(-70, 300), src.int(0, 0x38), 64, -8, 1, 7, 9, 0xC7, 0xFF, 256, 264, src.int(-2 ** 31, 2 ** 31 - 1)])
        return v if v not in z80ref.RST else 4
    lo, hi = LIM[k]
    if good:
        return src.choice([lo, hi, 0, src.int(lo, hi), src.int(lo, hi)])
    v = i32(src.int(lo, hi) + (src.choice([-1, 1, 2, src.int(-128, 127)]) << src.choice([8, 16, 16, 24, 31])))
    if not lo <= v <= hi and src.draw(4) == 0:
        return v
    return src.choice([lo - 1, hi + 1, lo - 1 - src.draw(300), hi + 1 + src.draw(300), i32(src.int(0x80000000, 0xFFFF0000)),
                       src.int(0x10000, 0x7FFFFFFF), (hi + 1) * src.int(2, 400) + max(0, src.int(lo, hi))])


def case(src, t, ez80):
    fwd_faults = bool(src.draw(2))
    n_faulty = src.draw(4)
    n = src.int(1, 8)
    org = src.choice([0, 0x9D95, src.int(0x300, 0xF000)])
    known = [("k%d" % i, src.edgy(-40000, 70000)) for i in range(src.draw(4))]
    head = [" .assume adl=0"] if ez80 else []
    # a jump is relative within the 64K, whatever page bits the location counter and the target carry
    page = src.choice([0, 0, 0, 0x10000, 0x20000, 0x7F0000, 0x30000]) if not ez80 else 0
    head += [" .org %d" % (org + page)] + ["%s = %d" % kv for kv in known]
    later = []
    body, data, faulty = [], bytearray(), set()
    pc = org
    faults_left = n_faulty

    def expr(v, bad, nolead):
        """Expression text of value v; later symbols are used if the operand may be resolved later."""
        env = Env(known, None)
        if (bad and fwd_faults) or (not bad and src.draw(3) == 0):
            name = "fwd%d" % len(later)
            later.append((name, src.choice([v, v, src.edgy(-40000, 70000)])))
            tk, _ = valued(src, v, env, must=later[-1], nolead=nolead)
        else:
            must = src.choice(known) if known and src.draw(2) else None
            tk, _ = valued(src, v, env, must=must, nolead=nolead)
        return tk

    kinds = ["n", "n", "d", "b", "r", "e", "db", "fill"] + (["w", "w", "dw"] if ez80 else [])
    edge = False
    for i in range(n):
        k = src.choice(kinds)
        bad = faults_left > 0 and (bool(src.draw(2)) or n - i <= faults_left)
        if bad and k == "fill" and fwd_faults:
            bad = False
        faults_left -= bad
        line = len(head) + len(body) + 1
        if bad:
            faulty.add(line)
            t.label("fault %s %s" % (k, "later" if fwd_faults else "now"))
        if k in ("db", "dw"):
            w = 1 if k == "db" else 2
            m = src.int(1, 4)
            at = src.draw(m)
            items = []
            for j in range(m):
                b = bad and j == at
                v = val(src, "n" if w == 1 else "w", not b)
                edge |= v in (-128, 255, -32768, 65535)
                items.append(text(expr(v, b, False)))
                data += (v & 0xFFFF).to_bytes(2, "little")[:w]
                pc += w
            body.append(" .%s %s" % (k, ", ".join(items)))
            continue
        if k == "fill":
            v = val(src, "n", not bad)
            c = src.int(1, 5)
            env = Env(known, None)
            tk, _ = valued(src, v, env)
            body.append(" .fill %d,%s" % (c, text(tk)))
            data += bytes([v & 255]) * c
            pc += c
            continue
        f = src.choice(BY[k])
        vals, texts = [], []
        for s, op in zip(f.slots, [o for o in f.ops if "{" in o]):
            b = bad and s == k
            if s == "e":
                end = pc + f.size
                if b:
                    v = end + src.choice([-129, 128, -130, 129, -129 - src.draw(500), 128 + src.draw(500), 128 + src.draw(60000)])
                    if not 0 <= v <= 0xFFFF:
                        v = end + 128 if end + 128 <= 0xFFFF else end - 129
                    if not 0 <= v <= 0xFFFF:
                        raise Discard("no room")
                else:
                    lo, hi = max(0, end - 128), min(0xFFFF, end + 127)
                    v = src.choice([lo, hi, src.int(lo, hi)])
                    edge = True
                texts.append(text(expr(v + src.choice([0, page, page, 0x50000 if page else 0]), b, True)))
                if page:
                    t.label("page bits")
            elif s == "d":
                v = val(src, "d", not b)
                edge |= v in (-128, 127)
                texts.append("+" + text(expr(v, b, True)))
            elif s == "w" and not ez80:
                v = src.edgy(-32768, 65535)
                texts.append(text(expr(v, False, True)))
            else:
                v = val(src, s, not b)
                edge |= s in LIM and v in LIM[s]
                texts.append(text(expr(v, b, True)))
            vals.append(v)
        body.append(" %s %s" % (f.mn.lower(), ",".join(f.render(texts))))
        if not bad:
            data += f.encode(vals, pc)
        pc += f.size
    s = "\n".join(head + body + ["%s = %d" % kv for kv in later]) + "\n"
    r = t.asm(s, ["-E"] if ez80 else [])
    if faulty or edge:
        t.nontrivial(s)
        t.sample(s)
    if not faulty:
        expect_bytes(bytes(data), ok_output(r))
        return
    got = {d.line for d in diags(r)}
    if faulty - got:
        raise Violation("operand out of range not diagnosed: faulty lines %s, diagnosed lines %s, exit %d" % (sorted(faulty), sorted(got), r.rc),
                        output=r.text())
    if got - faulty:
        raise Violation("in-range operand diagnosed: faulty lines %s, diagnosed lines %s" % (sorted(faulty), sorted(got)), output=r.text())
    if r.rc == 0:
        raise Violation("operand out of range but exit status 0", output=r.text())


def z80(src, t):
    case(src, t, False)


def ez80(src, t):
    case(src, t, True)


def parts(tier):
    q = tier == "quick"
    return [("z80", z80, 12000 if q else 200000), ("ez80", ez80, 6000 if q else 100000)]
