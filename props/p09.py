"""P09: macros and defines against a reference interpreter that substitutes parameter values."""
from core import Violation, Discard, diags, alive, expect_bytes, ok_output
from expr import M, O, i32, lit, make_style, text
from mac import Def, Names, S, St, Undef, arg_toks, call_frame, clip, data_stmt, ev, gen_e, num, param, run, toks, INS
from prog import gen_name, gen_string, string_text

PROP = "P09"
TECHNIQUE = "random programs of macros, function-like and plain defines, eval/concat/#defcont, redefinitions and nested invocations against a reference interpreter that evaluates each body under the values of its parameters; metamorphic comparison with the hand-expanded program"
NOTE = ("Sampled. Not generated: references whose meaning depends on whether an outer invocation's parameters are visible in an inner one, forward references in computed arguments (P05 finding), "
        "labels on the first line of a #macro body (finding).")
RULE = "distinct sources with at least one invocation with parameters, or a nested define"
PARAMS = ["a1", "p", "q", "val", "n", "str", "Cnt", "x1"]
MORE = ["m%d" % k for k in range(10)]


class G:
    def __init__(self, src, t):
        self.src = src
        self.case = src.draw(4) == 0
        self.later = {}
        self.used = {p.upper() for p in PARAMS + MORE}
        for k in range(src.draw(3)):
            self.later[self.key(self.name("fw%d" % k))] = src.int(0, 255)
        self.st = St(self.later, self.case)
        self.out = []           # S statements, in order
        self.inv = 0
        self.macros = []        # (name, kinds, required, once)
        self.funs = []
        self.values = []        # defines standing for an expression
        self.strs = []
        self.lists = []
        self.prefixes = []
        self.labels = []
        self.n = 0
        self.style = make_style(src, sym_case=not self.case)
        self.expanded = []

    def key(self, n):
        return n if self.case else n.upper()

    def name(self, n=None):
        if n:
            self.used.add(n.upper())
            return n
        # unique without regard to case, so that -A does not matter for unrelated names
        n = gen_name(self.src, self.used)
        return n

    def q(self, s):
        return ("s", s, string_text(self.src, s))

    def string(self):
        s = gen_string(self.src)
        s = bytes(c for c in s if 32 <= c < 127 or c == 9)[:20]
        return self.q(s or b"x")

    def ids(self, ps=()):
        return list(ps) + self.labels[-6:] + self.values[-6:] + ([self.src.choice(sorted(self.later))] if self.later and self.src.draw(3) == 0 else [])

    def names(self, ps=(), later=True):
        ids = list(ps) * 3 + self.labels[-6:] + self.values[-6:]
        if later and self.later and self.src.draw(3) == 0:
            ids += sorted(self.later)
        return Names(ids, self.funs[-4:])

    # ---------------------------------------------------- bodies
    def stmt(self, ps, strs, opt, once, depth):
        """One statement of a body; ps/strs/opt: numeric, string and optional parameters."""
        src = self.src
        k = src.weighted([(6, "data"), (4, "ins"), (2, "if"), (2, "call"), (2 if opt else 0, "ifdef"), (1, "loc"), (2 if once else 0, "label"), (1, "joined"),
                          (1 if self.prefixes else 0, "prefix"), (1, "undef"), (1, "cont")])
        if k == "cont":
            # a define continued and used inside the body
            n = self.name()
            a = [self.data([]) for _ in range(src.int(2, 3))]
            t0 = a[0].lines[0]
            ls = [[("w", "#define"), M, ("s", n), M] + t0]
            if src.draw(2):
                # cut behind the directive's name
                ls = [[("w", "#define"), M, ("s", n), M] + t0[:1], [("w", "#defcont"), M] + t0[1:]]
            ls += [[("w", "#defcont"), M, ("x", "\\ ")] + x.lines[0] for x in a[1:]]

            def act(st):
                # (added text is bound to labels when it is read, whatever the parameters are called)
                if any(x in st.labels for f in st.frames for x in f):
                    raise Undef("label and parameter")
                st.defs[st.k(n)] = Def(n, [], ("m", a))
                run(st, a)
            return S(ls + [[("s", n)]], act)
        if k == "data":
            items = []
            for _ in src.many(1, 2, 4):
                c = src.draw(8)
                if c <= 4:
                    items.append(self.field(ps))
                elif c == 5 and strs:
                    items.append(("id", src.choice(strs)))
                elif c == 6 and self.strs + self.lists:
                    items.append(("id", src.choice(self.strs + self.lists)))
                elif c == 7:
                    items.append(self.string())
                else:
                    items.append(self.field(ps))
            return data_stmt(src, items)
        if k == "ins":
            return self.ins(ps)
        if k == "if" and depth > 0:
            c = gen_e(src, self.names(ps, False), 1, must=src.choice(ps) if ps and src.draw(2) else None)
            a = self.block(ps, strs, opt, once, depth - 1)
            b = self.block(ps, strs, opt, once, depth - 1) if src.draw(2) else []
            ls = [[("w", "#if"), M] + toks(src, c)] + [l for s in a for l in s.lines]
            if b:
                ls += [[("w", "#else")]] + [l for s in b for l in s.lines]
            ls += [[("w", "#endif")]]

            def act(st):
                run(st, a if ev(st, c) else b)
            return S(ls, act)
        if k == "ifdef" and depth > 0:
            o = src.choice(opt)
            neg = src.draw(2)
            a = self.block(ps + [o], strs, opt, once, depth - 1)
            b = self.block(ps, strs, opt, once, depth - 1)
            first, second = (b, a) if neg else (a, b)
            ls = [[("w", "#ifndef" if neg else "#ifdef"), M, ("s", o)]] + [l for s in first for l in s.lines] + [[("w", "#else")]] + [l for s in second for l in s.lines] + [[("w", "#endif")]]

            def act(st):
                run(st, a if st.frames[-1].get(st.k(o)) is not None else b)
            return S(ls, act)
        if k == "call":
            ms = [m for m in self.macros if not m[3]]
            if ms:
                return self.call(src.choice(ms[-5:]), ps, strs)
        if k == "loc":
            # a value fixed when the line is read
            n = self.name()
            e = gen_e(src, self.names(ps, False), 1)
            self.n += 1
            s = data_stmt(src, [clip(("id", n))])

            def act(st):
                st.defs[st.k(n)] = Def(n, [], ("e", ("n", [], ev(st, e) & 0xFFFFFFFF)))
                run(st, [s])
            return S([[("w", "#define"), M, ("s", n), M, ("w", "eval"), ("x", "("), O] + toks(src, e) + [O, ("x", ")")]] + s.lines, act)
        if k == "undef" and depth > 0:
            n = self.name()
            c = src.draw(2)
            s1 = self.stmt(ps, strs, opt, False, 0)
            s2 = self.stmt(ps, strs, opt, False, 0)
            ls = [[("w", "#define"), M, ("s", n), M, ("n", "1")]] + ([[("w", src.choice(["#undef", "#undefine"])), M, ("s", n)]] if c else [])
            ls += [[("w", "#ifdef"), M, ("s", n)]] + s1.lines + [[("w", "#else")]] + s2.lines + [[("w", "#endif")]]
            ls += [] if c else [[("w", "#undef"), M, ("s", n)]]

            def act(st):
                run(st, [s2 if c else s1])
            return S(ls, act)
        if k == "label":
            n = self.name()
            if src.draw(2):
                def act(st):
                    if st.k(n) in st.labels:
                        raise Undef("again")
                    st.labels[st.k(n)] = st.pc
                return S([[("x", "@"), ("s", n), ("x", ":")]], act, n)
            e = gen_e(src, self.names(ps, False), 1)

            def act(st):
                if st.k(n) in st.labels:
                    raise Undef("again")
                st.labels[st.k(n)] = ev(st, e)
            return S([[("x", "@"), ("s", n), M, ("x", "="), O] + toks(src, e)], act, n)
        if k == "joined":
            a, b = self.data(ps), self.ins(ps)
            return S([a.lines[0] + [M, ("x", "\\"), M] + b.lines[0]], lambda st: run(st, [a, b]))
        if k == "prefix":
            return self.prefixed(ps)
        return self.data(ps)

    def field(self, ps):
        src = self.src
        nm = self.names(ps)
        e = gen_e(src, nm, 1, must=src.choice(ps) if ps and src.draw(2) else None)
        return clip(e) if src.draw(5) else e

    def data(self, ps):
        return data_stmt(self.src, [self.field(ps) for _ in self.src.many(1, 1.5, 3)])

    def ins(self, ps):
        src = self.src
        a, b, f, op = src.choice(INS)
        e = gen_e(src, self.names(ps), 1, must=src.choice(ps) if ps and src.draw(2) else None)
        if f == "d":
            e = clip(e, 7)
            t = [("x", a + "+")] + toks(src, e, False) + [("x", b)]
        else:
            e = clip(e, 8 if f == "b" else 16)
            t = [("x", a)] + toks(src, e) + ([("x", b)] if b else [])

        def act(st):
            v = ev(st, e, True)
            st.emit(op + (v & 0xFFFF).to_bytes(2, "little") if f == "w" else op + bytes([v & 255]))
        return S([t], act)

    def prefixed(self, ps):
        src = self.src
        n, pre, width = src.choice(self.prefixes)
        e = self.field(ps)

        def act(st):
            d = st.defs.get(st.k(n))
            if d is None or d.body[0] != "x" or param(st, n)[0]:
                raise Undef(n)
            c = st.copy()
            c.frames = st.frames
            c.pc = st.pc + d.body[3]
            v = ev(c, e, True)
            st.deferred = c.deferred
            st.emit(d.body[1])
            w = d.body[2]
            if w == 1 and not -128 <= v <= 255:
                raise Undef("range")
            st.emit((v & ((1 << 8 * w) - 1)).to_bytes(w, "little"))
        # an operand that starts with ( would be a different instruction
        return S([[("s", n), M, ("n", "0"), ("x", "+")] + toks(src, e, False)], act)

    def block(self, ps, strs, opt, once, depth):
        return [self.stmt(ps, strs, opt, once, depth) for _ in self.src.many(0 if depth else 1, 1.3, 3)]

    def arg(self, ps):
        src = self.src
        if self.later and src.draw(6) == 0:
            return ("id", src.choice(sorted(self.later)))
        return gen_e(src, self.names(ps, False), 1, maxops=2)

    def call(self, m, ps=(), strs=()):
        src = self.src
        name, kinds, req, once = m
        n = len(kinds) if src.draw(3) else src.int(req, len(kinds))
        args = []
        for k in kinds[:n]:
            if k == "s":
                c = src.draw(4)
                if c == 0 and strs:
                    args.append(("id", src.choice(strs)))
                elif c == 1 and self.strs:
                    args.append(("id", src.choice(self.strs)))
                else:
                    args.append(self.string())
            else:
                args.append(self.arg(list(ps)))
        t = [("s", name)]
        if n or src.draw(3):
            t += [("x", "("), O]
            for i, a in enumerate(args):
                if i:
                    t += [O, ("x", ","), O]
                t += arg_toks(src, a)
            t += [O, ("x", ")")]

        def act(st):
            d = st.defs.get(st.k(name))
            if d is None or d.body[0] != "m" or param(st, name)[0]:
                raise Undef(name)
            if len(st.frames) > 30:
                raise Undef("macros redefined to call each other")
            st.frames.append(call_frame(st, d, args))
            st.calls += 1
            run(st, d.body[1])
            st.frames.pop()
        return S([t], act)

    # ---------------------------------------------------- top level
    def params(self, allow_str=True, n=None):
        src = self.src
        k = (src.draw(4) if src.draw(12) else src.draw(17)) if n is None else n
        pool = PARAMS + (MORE if k > 3 else []) + (self.values[-3:] + self.labels[-3:] if src.draw(3) == 0 else [])
        ps = []
        for p in src.shuffle(pool):
            if len(ps) < k and p.upper() not in [x.upper() for x in ps]:
                ps.append(p)
        kinds = ["s" if allow_str and src.draw(4) == 0 else "v" for _ in ps]
        return ps, kinds

    def params_text(self, ps):
        t = [("x", "("), O]
        for i, p in enumerate(ps):
            if i:
                t += [O, ("x", ","), O]
            t.append(("s", p))
        return t + [O, ("x", ")")]

    def top(self):
        src = self.src
        k = src.weighted([(5, "call"), (3, "macro"), (3, "fun"), (3, "value"), (2, "str"), (1, "list"), (4, "use"), (2, "equ"), (2, "label"), (1, "stmtdef"), (1, "undef"),
                          (1, "prefix"), (1, "concat"), (1, "recursive")])
        if k == "call" and self.macros:
            m = src.choice(self.macros)
            s = self.call(m)
            if src.draw(5) == 0:
                d = self.data([])
                s = S([s.lines[0] + [M, ("x", "\\"), M] + d.lines[0]], lambda st, s=s: run(st, [s, d]))
            return s
        if k == "macro":
            redo = self.macros and src.draw(6) == 0
            old = src.choice(self.macros) if redo else None
            if redo and old[3]:
                redo = False
            ps, kinds = self.params(n=len(old[1]) if redo else None)
            if redo:
                kinds = old[1]
            once = not redo and src.draw(5) == 0
            if redo:
                name = old[0]
            else:
                name = self.name()
            req = src.int(0, len(ps)) if src.draw(2) else len(ps)
            nums = [p for p, c in zip(ps[:req], kinds) if c == "v"]
            strs = [p for p, c in zip(ps[:req], kinds) if c == "s"]
            opt = [p for p, c in zip(ps[req:], kinds[req:]) if c == "v"]
            ban = self.macros
            if redo:
                # nothing defined later, so that no macro invokes itself
                self.macros = self.macros[:self.macros.index(old)]
            body = [self.stmt(nums, strs, opt, once, 2) for _ in src.many(0, 2.5, 6)]
            self.macros = ban
            if redo:
                self.macros = [m for m in self.macros if m[0] != name]
            ent = (name, kinds, req, once)
            lines = [[("w", "#macro"), M, ("s", name)] + (self.params_text(ps) if ps or src.draw(2) else [])]
            lines += [[("x", "\t;body")]]
            lines += [l for s in body for l in s.lines] + [[("w", "#endmacro")]]
            if not redo:
                self.macros.append(ent)
            else:
                self.macros.insert(0, ent)
            if once:
                self.once_labels = [s.info for s in body if s.info]

            def act(st):
                st.defs[st.k(name)] = Def(name, ps, ("m", body))
            return S(lines, act)
        if k == "stmtdef":
            ps, kinds = self.params()
            name = self.name()
            nums = [p for p, c in zip(ps, kinds) if c == "v"]
            strs = [p for p, c in zip(ps, kinds) if c == "s"]
            body = [src.choice([self.data, self.ins])(nums) for _ in src.many(1, 1.4, 3)]
            if strs:
                body.append(data_stmt(src, [("id", src.choice(strs))]))
            cont = src.draw(3) == 0 and not any(True for x in self.labels + self.values + list(self.later) if x.upper() in [p.upper() for p in ps])
            t = [("w", "#define"), M, ("s", name)] + (self.params_text(ps) if ps else []) + [M]
            lines = []
            for i, b in enumerate(body):
                if i and cont:
                    lines.append(t)
                    t = [("w", "#defcont"), M, ("x", "\\ ")]
                elif i:
                    t += [M, ("x", "\\"), M]
                t += b.lines[0]
            lines.append(t)
            self.macros.append((name, kinds, len(ps), False))
            if cont:
                # the added text is bound to labels and fixed when it is read
                def act(st):
                    st.defs[st.k(name)] = Def(name, ps, ("m", body))
                return S(lines, act, "cont")

            def act(st):
                st.defs[st.k(name)] = Def(name, ps, ("m", body))
            return S(lines, act)
        if k == "fun":
            ps, _ = self.params(False)
            if not ps:
                ps = ["p"]
            name = self.name()
            e = gen_e(src, self.names(ps, False), 2, must=src.choice(ps))
            self.funs.append((name, len(ps)))

            def act(st):
                st.defs[st.k(name)] = Def(name, ps, ("e", e))
            return S([[("w", "#define"), M, ("s", name)] + self.params_text(ps) + [M] + toks(src, e)], act)
        if k == "value":
            redo = self.values and src.draw(3) == 0
            name = src.choice(self.values) if redo else self.name()
            c = src.draw(3)
            if c == 0:
                e = gen_e(src, self.names((), False), 1)
                if not redo:
                    self.values.append(name)

                def act(st):
                    v = ev(st, e)
                    st.defs[st.k(name)] = Def(name, [], ("e", ("n", [], v & 0xFFFFFFFF)))
                return S([[("w", "#define"), M, ("s", name), M, ("w", "eval"), ("x", "("), O] + toks(src, e) + [O, ("x", ")")]], act)
            if redo:
                # redefinition: its own old contents come first, or it is a plain number
                old = self.st.defs.get(self.key(name))
                e = num(src)
                if c == 1 and old and old.body[0] == "e":
                    t = [("s", name), O, ("x", src.choice("+-*&|^")), O] + list(e[1])
                    op = t[2][1]

                    def act(st):
                        d = st.defs.get(st.k(name))
                        if d is None or d.body[0] != "e":
                            raise Undef(name)
                        b = d.body[1]
                        nb = ("bin", b[1], b[2] + [(op, e)]) if b[0] == "bin" else ("bin", b, [(op, e)])
                        if len(str(nb)) > 1500:
                            raise Undef("long")
                        st.defs[st.k(name)] = Def(name, [], ("e", nb))
                    return S([[("w", "#define"), M] + t[:1] + [M] + t], act)

                def act(st):
                    st.defs[st.k(name)] = Def(name, [], ("e", e))
                return S([[("w", "#define"), M, ("s", name), M] + list(e[1])], act)
            e = gen_e(src, self.names(()), 2)
            if src.draw(8) == 0:
                e = ("n", [], 1)
                t = [("w", "#define"), M, ("s", name)]
            else:
                t = [("w", "#define"), M, ("s", name), M] + toks(src, e)
            self.values.append(name)

            def act(st):
                st.defs[st.k(name)] = Def(name, [], ("e", e))
            return S([t], act)
        if k == "str":
            name = self.name()
            s = self.string()
            self.strs.append(name)

            def act(st):
                st.defs[st.k(name)] = Def(name, [], ("s", s[1]))
            return S([[("w", "#define"), M, ("s", name), M, ("x", s[2])]], act)
        if k == "list":
            name = self.name()
            items = [src.choice([lambda: num(src), self.string, lambda: clip(gen_e(src, self.names((), False), 1))])() for _ in src.many(2, 3, 5)]
            items = [clip(i) if i[0] != "s" else i for i in items]
            self.lists.append(name)
            t = []
            for i, a in enumerate(items):
                t += ([O, ("x", ","), O] if i else []) + arg_toks(src, a)

            def act(st):
                st.defs[st.k(name)] = Def(name, [], ("l", items))
            return S([[("w", "#define"), M, ("s", name), M] + t], act)
        if k == "concat":
            # a name built from text and values
            name = self.name()
            kk = src.draw(4)
            if kk == 3:
                # text, the contents of defines and the values of labels, in one string
                args, parts, ls = [("x", '"\\""'), O], [], []
                for _ in src.many(1, 2, 6):
                    args += [("x", ","), O]
                    c = src.draw(4)
                    if c == 0 and self.strs:
                        n = src.choice(self.strs)
                        parts.append(("s", n))
                        args.append(("s", n))
                    elif c == 1 and self.labels:
                        n = src.choice(self.labels)
                        parts.append(("l", n))
                        args.append(("s", n))
                    elif c == 2:
                        n, v = self.name(), src.choice(["5", "$1F", "a b", "x+1", "hl", "0"])
                        ls.append([("w", "#define"), M, ("s", n), M, ("x", v + src.choice(["", "  ", " ; text"]))])
                        self.values.append(n) if v in "50" else None
                        parts.append(("d", n, v))
                        args.append(("s", n))
                    else:
                        v = src.choice(["x", "a b", "7", "(+)", ",", "it's", " "])
                        parts.append(("t", v))
                        args.append(("x", '"%s"' % v))
                    args.append(O)
                args += [("x", ","), ("x", '"\\""')]
                self.strs.append(name)

                def act(st):
                    out = b""
                    for p in parts:
                        if p[0] == "t":
                            out += p[1].encode()
                        elif p[0] == "l":
                            if st.k(p[1]) in st.defs:
                                raise Undef("a define")
                            out += b"%d" % i32(ev(st, ("id", p[1])))
                        elif p[0] == "d":
                            if st.k(p[1]) in st.labels:
                                raise Undef("a label")
                            st.defs[st.k(p[1])] = Def(p[1], [], ("e", ("n", [], int(p[2]) if p[2] in "50" else 0)))
                            out += p[2].encode()
                        else:
                            d = st.defs.get(st.k(p[1]))
                            if d is None or d.body[0] != "s" or set(d.body[1]) & set(b'"\\\0') or len(d.body[1]) + len(out) > 150:
                                raise Undef(p[1])
                            out += d.body[1]
                    st.defs[st.k(name)] = Def(name, [], ("s", out))
                return S(ls + [[("w", "#define"), M, ("s", name), M, ("w", "concat"), ("x", "(")] + args + [("x", ")")]], act)
            if kk == 0:
                v = src.int(0, 60000)
                a, b = str(v), src.draw(10)
                if src.draw(2):
                    # behind a blank text, any 32 bit value (as a signed number)
                    a, b = src.choice(["", " ", "0", "0+", "1*"]), src.edgy(-(1 << 31), (1 << 31) - 1)
                    if a == "0" and b < 0:
                        a = ""
                    b = max(b, 1 - (1 << 31))
                    be = "(0-%d)" % -b if b < 0 and src.draw(2) else str(b)
                    e = ("n", [], b & 0xFFFFFFFF)
                    args = [("x", '"%s"' % a), ("x", ","), ("x", be)]
                else:
                    e = ("n", [], int(a + str(b)) & 0xFFFFFFFF)
                    args = [("x", '"%s"' % a), ("x", ","), ("n", str(b))]
            elif kk == 1:
                self.n += 1
                i = src.draw(90)
                base = "lab%d_" % self.n
                full = base + str(i)
                self.used.add(full.upper())
                ie = ("bin", ("n", lit(src, i, False), i), [("+", ("n", [("n", "0")], 0))])
                self.later2 = None
                e = ("id", full)
                v = src.int(0, 60000)
                args = [("x", '"%s"' % base), O, ("x", ","), O] + toks(src, ie)
                self.values.append(name)
                self.labels.append(full)

                def act(st):
                    st.labels[st.k(full)] = v
                    st.defs[st.k(name)] = Def(name, [], ("e", e))
                return S([[("x", "@"), ("s", full), M, ("x", "="), M, ("n", str(v))], [("w", "#define"), M, ("s", name), M, ("w", "concat"), ("x", "(")] + args + [("x", ")")]], act)
            else:
                s = self.string()
                e = None
                q = bytes(c for c in s[1] if c not in b'"\\\t')
                args = [("x", '"\\"%s\\""' % q.decode("latin-1"))]
                self.strs.append(name)

                def act(st):
                    st.defs[st.k(name)] = Def(name, [], ("s", q))
                return S([[("w", "#define"), M, ("s", name), M, ("w", "concat"), ("x", "(")] + args + [("x", ")")]], act)
            self.values.append(name)

            def act(st):
                st.defs[st.k(name)] = Def(name, [], ("e", e))
            return S([[("w", "#define"), M, ("s", name), M, ("w", "concat"), ("x", "("), O] + args + [O, ("x", ")")]], act)
        if k == "recursive":
            name, p = self.name(), src.choice(PARAMS)
            n = src.int(0, 12)
            body = [self.data([p])]
            step = src.int(1, 3)
            lines = [[("w", "#macro"), M, ("s", name), ("x", "("), ("s", p), ("x", ")")], [("x", ";")], [("w", "#if"), M, ("s", p), O, ("x", ">"), O, ("n", "0")]]
            tail = src.draw(2)
            rec = [[("s", name), ("x", "("), ("s", p), ("x", "-"), ("n", str(step)), ("x", ")")]]
            lines += (rec + body[0].lines if tail else body[0].lines + rec) + [[("w", "#endif")], [("w", "#endmacro")], [("s", name), ("x", "("), ("n", str(n)), ("x", ")")]]

            def act(st):
                st.defs[st.k(name)] = Def(name, [p], ("m", []))

                def go(v):
                    if v > 0:
                        st.frames.append({st.k(p): v})
                        if tail:
                            st.frames.pop()
                            go(v - step)
                            st.frames.append({st.k(p): v})
                        run(st, body)
                        st.frames.pop()
                        if not tail:
                            go(v - step)
                go(n)
                st.calls += 1
            return S(lines, act)
        if k == "prefix":
            name = self.name()
            pre, b, w, at = src.choice([("ld a,", b"\x3e", 1, 0), (".db 1,", b"\1", 1, 1), (".dw ", b"", 2, 0), ("ld hl,", b"\x21", 2, 0), (".db \"x\",", b"x", 1, 1), ("nop \\ call ", b"\0\xcd", 2, 1)])
            self.prefixes.append((name, pre, w))

            def act(st):
                st.defs[st.k(name)] = Def(name, [], ("x", b, w, at))
            return S([[("w", "#define"), M, ("s", name), M, ("x", pre)]], act)
        if k == "equ":
            n = self.name()
            e = gen_e(src, self.names((), False), 1)
            self.labels.append(n)

            def act(st):
                st.labels[st.k(n)] = ev(st, e)
            return S([[("x", "@"), ("s", n), M, src.choice([("x", "="), ("w", ".equ")]), M] + toks(src, e)], act)
        if k == "label":
            n = self.name()
            self.labels.append(n)

            def act(st):
                st.labels[st.k(n)] = st.pc
            return S([[("x", "@"), ("s", n), ("x", ":")]], act)
        if k == "undef":
            pool = self.values + self.strs + [f for f, _ in self.funs] + [m[0] for m in self.macros]
            if pool:
                n = src.choice(pool)
                look = src.draw(2)

                def act(st):
                    st.defs.pop(st.k(n), None)
                    if look:
                        st.emit(b"\2")
                for l in (self.values, self.strs):
                    if n in l:
                        l.remove(n)
                self.funs = [f for f in self.funs if f[0] != n]
                self.macros = [m for m in self.macros if m[0] != n]
                ls = [[("w", src.choice(["#undef", "#undefine"])), M, ("s", n)]]
                if look:
                    # gone, of whatever kind it was
                    ls += [[("w", "#ifdef"), M, ("s", n)], [("x", ".db 1")], [("w", "#else")], [("x", ".db 2")], [("w", "#endif")]]
                return S(ls, act)
        if self.prefixes and src.draw(4) == 0:
            return self.prefixed([])
        if self.strs + self.lists and src.draw(3) == 0:
            return data_stmt(src, [("id", src.choice(self.strs + self.lists)) for _ in src.many(1, 1.3, 3)])
        return self.data([])

    def render(self, s, indent):
        out = []
        for l in s.lines:
            x = text(l, self.style)
            if len(x) > 240:
                return None
            x = x.strip() if not x.startswith("\t;") else x
            if x.startswith("@"):
                out.append(x[1:])
            elif x.startswith("#"):
                out.append(x)
            else:
                out.append(indent + x)
        return out


def program(src, t):
    g = G(src, t)
    lines = [" .org %d" % src.choice([0, 0x8000])]
    g.st.pc = int(lines[0].split()[1])
    keep = ("macros", "funs", "values", "strs", "lists", "prefixes", "labels")
    for _ in src.many(2, 12, 36):
        save = {a: list(getattr(g, a)) for a in keep}
        g.once_labels = []
        s = g.top()
        txt = g.render(s, src.choice([" ", "\t", "  "]))
        if txt is None:
            s = None
        else:
            st = g.st.copy()
            try:
                s.act(st)
            except Undef:
                s = None
        if s is None:
            for a in keep:
                setattr(g, a, save[a])
            continue
        # labels a macro defined may be used from here on
        g.st = st
        lines += txt
    for k, v in g.later.items():
        lines.append("%s = %d" % (k, v))
    return g, "\n".join(lines) + "\n"


def model(src, t):
    g, s = program(src, t)
    opts = (["-A"] if g.case else []) + (src.sample(["-T", "-L", "-S"], src.draw(3)) if src.draw(4) == 0 else [])
    r = t.asm(s, opts)
    expect_bytes(bytes(g.st.out), ok_output(r))
    if g.st.calls:
        t.nontrivial(s)
        t.sample(s)
    t.label("calls %s" % ("0" if not g.st.calls else "1-3" if g.st.calls < 4 else ">3"))
    if g.st.deferred:
        t.label("deferred")


def kinds(src, t):
    """One name after another as value, string, flag, function, statements or macro, with any number of parameters; a use means the last definition."""
    st = src.shuffle(["alpha", "Beta2", "g_x"])[:src.int(1, 2)]
    now = {n: None for n in st}
    lines, out, steps, bad = [], bytearray(), 0, None
    pn = PARAMS + MORE
    for _ in src.many(3, 8, 24):
        n = src.choice(st)
        if now[n] is not None and src.draw(2):
            kind, info = now[n]
            steps += 1
            if kind == "val":
                d = src.int(0, 9)
                lines.append(src.choice([" .dw %s+%d", " .dw %d+%s"]).replace("%d", str(d)).replace("%s", n))
                out += ((info + d) & 0xFFFF).to_bytes(2, "little")
            elif kind == "str":
                lines.append(" .db %s,1" % n)
                out += info + b"\1"
            elif kind == "flag":
                lines.append(" .db %s" % n)
                out += b"\1"
            else:
                ps, coef = info
                many = src.draw(10) == 0 and bool(ps)
                vals = [src.int(0, 300) for _ in ps] + [src.int(0, 9) for _ in range(src.int(1, 3) if many else 0)]
                a = src.choice([",", ", ", " , "]).join(map(str, vals))
                a = "(%s)" % a if ps or src.draw(2) and kind != "fun" else ""
                v = sum(c * x for c, x in zip(coef, vals))
                if kind == "fun":
                    lines.append(" .dw 1+" + n + a)
                    out += ((v + 1) & 0xFFFF).to_bytes(2, "little")
                elif kind == "stm":
                    lines.append(" %s%s" % (n, a))
                    out += ((v + 2) & 0xFFFF).to_bytes(2, "little") + b"\7"
                else:
                    lines.append(" %s%s" % (n, a))
                    out += b"\x55" + ((v + 3) & 0xFFFF).to_bytes(2, "little")
                if many:
                    bad = n
                    break
            continue
        kind = src.choice(["val", "str", "flag", "fun", "stm", "mac", "undef", "mac"])
        spell = n if src.draw(2) else n.upper()
        if kind == "undef":
            if now[n] is None:
                continue
            now[n] = None
            lines += ["#undef " + spell, "#ifdef " + n, " .db 1", "#else", " .db 2", "#endif"]
            out += b"\2"
            continue
        if kind == "val":
            v = src.int(0, 60000)
            now[n] = kind, v
            lines.append("#define %s %d" % (spell, v))
        elif kind == "str":
            now[n] = kind, src.choice([b"q", b"a b", b"xyz"])
            lines.append('#define %s "%s"' % (spell, now[n][1].decode()))
        elif kind == "flag":
            now[n] = kind, None
            lines.append("#define %s" % spell)
        else:
            ps = src.shuffle(pn)[:src.choice([0, 1, 2, 3, src.int(0, 16), 16])]
            if kind == "fun" and not ps:
                ps = ["p"]
            coef = [src.int(0, 9) for _ in ps]
            e = "+".join(["(%d*%s)" % c for c in src.shuffle(list(zip(coef, ps)))] or ["0"])
            head = spell + ("(%s)" % src.choice([",", ", "]).join(ps) if ps else "")
            now[n] = kind, (ps, coef)
            if kind == "fun":
                lines.append("#define %s (%s)" % (head, e))
            elif kind == "stm":
                lines.append("#define %s .dw %s+2 \\ .db 7" % (head, e))
            else:
                lines += ["#macro " + head, " .db 55h", " .dw 3+" + e, "#endmacro"]
    s = "\n".join(lines) + "\n"
    r = t.asm(s)
    if bad:
        alive(r)
        if r.rc != 3 or bad.lower() not in repr(diags(r)).lower():
            raise Violation("too many arguments for '%s' are not reported: exit status %d" % (bad, r.rc), output=r.text()[-400:])
        t.label("too many")
    else:
        expect_bytes(bytes(out), ok_output(r))
    if steps > 1:
        t.nontrivial(s)


def chain(src, t):
    """Functions of few parameter names that call one another, used in items known at once and in items with later symbols; strings that look like uses."""
    pool = ["p", "q", "n1"]
    funs, lines, tail, out = [], [" .org 0"], [], bytearray()
    later = {"fwa": src.int(0, 999), "fwb": src.int(0, 9)}

    def terms(ps, allow, calls):
        """[(text, value from an environment)]"""
        r = []
        for _ in range(src.int(1, 4)):
            k = src.draw(6)
            if k < 2 and funs and calls:
                f = src.choice(funs)
                args = []
                for _ in f[1]:
                    c = src.int(0, 9)
                    x = src.choice(ps) if ps and src.draw(3) else None
                    args.append((("%s+%d" % (x, c) if src.draw(2) else "%d+%s" % (c, x)) if x else str(c), x, c))
                r.append(("%s(%s)" % (f[0], ",".join(a[0] for a in args)),
                          lambda env, f=f, args=args: f[2](dict(zip(f[1], [(env[x] if x else 0) + c for _, x, c in args])))))
            elif k == 2 and allow:
                n = src.choice(sorted(later))
                r.append((n, lambda env, n=n: later[n]))
            elif ps and k < 5:
                c, x = src.int(1, 9), src.choice(ps)
                r.append((src.choice(["(%d*%s)", "(%s*%d)"]).replace("%d", str(c)).replace("%s", x), lambda env, c=c, x=x: c * env[x]))
            else:
                c = src.int(0, 300)
                r.append((str(c), lambda env, c=c: c))
        return "+".join(x for x, _ in r), lambda env: sum(f(env) for _, f in r)

    def item(ps, out):
        """A statement and what it emits in an environment."""
        if src.draw(4) == 0:
            # names in strings are text; a quote in a string does not end it
            parts = [src.choice(["p", "q b", "n1", "fwa", '\\"', '\\"p', "f0(1)", " ", "x", "\\\\", ";", "'p", "p'", "\\n"]) for _ in src.many(1, 3, 6)]
            s = "".join(parts)
            v = reduced(s)
            x, f = terms(ps, True, True)
            return ' .db "%s",0+((%s)&255)' % (s, x), lambda env: v + bytes([f(env) & 255])
        x, f = terms(ps, src.draw(2) == 0, True)
        if src.draw(3) == 0:
            return " ld hl,0+" + x, lambda env: b"\x21" + (f(env) & 0xFFFF).to_bytes(2, "little")
        y, g = terms(ps, src.draw(2) == 0, True)
        return " .dw 0+%s,%s" % (x, y), lambda env: (f(env) & 0xFFFF).to_bytes(2, "little") + (g(env) & 0xFFFF).to_bytes(2, "little")

    for k in range(src.int(1, 5)):
        ps = src.sample(pool, src.int(1, 3))
        x, f = terms(ps, src.draw(3) == 0, True)
        n = "f%d" % k
        lines.append("#define %s(%s) (%s)" % (n, ",".join(ps), x))
        funs.append((n, ps, f))
    for k in range(src.int(1, 4)):
        if src.draw(2):
            x, f = item([], out)
            lines.append(x)
            out += f({})
            continue
        ps = src.sample(pool, src.int(1, 3))
        body = [item(ps, out) for _ in range(src.int(1, 3))]
        n = "m%d" % k
        lines += ["#macro %s(%s)" % (n, ",".join(ps)), " ;"] + [x for x, _ in body] + ["#endmacro"]
        for _ in range(src.int(1, 2)):
            vals = [src.int(0, 99) for _ in ps]
            lines.append(" %s(%s)" % (n, ",".join(map(str, vals))))
            for _, f in body:
                out += f(dict(zip(ps, vals)))
    lines += ["%s = %d" % (k, v) for k, v in later.items()]
    if any(len(l) > 240 for l in lines) or len(out) > 20000:
        raise Discard("long")
    s = "\n".join(lines) + "\n"
    r = t.asm(s)
    expect_bytes(bytes(out), ok_output(r))
    if any("f%d(" % k in s for k in range(5)):
        t.nontrivial(s)


def several(src, t):
    """Functions of several lines: directives choose the line that is the value; macros used at the start of a line."""
    consts = {"Kone": src.int(0, 9), "ktwo": src.int(0, 9)}
    funs, lines, out = [], ["#define %s %d" % c for c in consts.items()], bytearray()
    flags = set()
    state = {"cond": 0, "uses": 0, "loc": 0}

    def term(ps):
        k = src.draw(5)
        if k == 0 and funs:
            f = src.choice(funs)
            args = [term(ps) for _ in f[1]] if src.draw(3) == 0 else [const() for _ in f[1]]
            return "%s(%s)" % (f[0], ",".join(a for a, _ in args)), lambda env: f[2](dict(zip(f[1], [g(env) for _, g in args])))
        if k < 3 and ps:
            x = src.choice(ps)
            return x, lambda env: env[x]
        return const()

    def const():
        if src.draw(4) == 0:
            n = src.choice(sorted(consts))
            return n, lambda env: consts[n]
        c = src.int(0, 12)
        return str(c), lambda env: c

    def value(ps):
        ts = [term(ps) for _ in range(src.int(1, 3))]
        return src.choice(["+", " + "]).join(x for x, _ in ts), lambda env: sum(f(env) for _, f in ts)

    def body(ps, depth):
        """Lines that yield a value, and the value."""
        pre, b = [], []
        for _ in range(src.weighted([(5, 0), (2, 1), (1, 2)])):
            b.append(src.choice(["", " ; a comment", "  "]))
        if depth and src.draw(3):
            state["cond"] += 1
            if src.draw(3) == 0:
                n = src.choice(["fl_a", "FL_B", "fl_c"])
                neg = src.bool()
                head = "#%s %s" % ("ifndef" if neg else "ifdef", n)
                c = lambda env: (n in flags) != neg
            else:
                (x, f), (y, g) = (term(ps) if ps else const()), const()
                op, h = src.choice([(">", lambda a, b: a > b), ("<", lambda a, b: a < b), ("==", lambda a, b: a == b), ("!=", lambda a, b: a != b)])
                head = "#if %s %s %s" % (x, op, y)
                c = lambda env: h(f(env), g(env))
            b1, f1 = body(ps, depth - 1)
            if src.draw(3):
                b2, f2 = body(ps, depth - 1)
                i = src.choice(["", "", " ", "\t"])
                return b + [i + head] + b1 + [i + "#else"] + b2 + [i + "#endif"] + (["  ; after"] if src.draw(3) == 0 else []), lambda env: f1(env) if c(env) else f2(env)
            b2, f2 = body(ps, depth - 1)
            return b + [head] + b1 + ["#endif"] + b2, lambda env: f1(env) if c(env) else f2(env)
        x, f = value(ps)
        tail = []
        if src.draw(5) == 0:
            state["loc"] += 1
            n = "tmp%d" % state["loc"]
            b.append("#define %s (%s)" % (n, x))
            x, g = n + src.choice(["", "*2", "+1"]), f
            if x != n:
                f = (lambda env: g(env) * 2) if x[-1] == "2" else (lambda env: g(env) + 1)
        x += src.choice(["", "", " ; 1+1", ";p", " ; \"q\" \\ 5"])
        if src.draw(4) == 0:
            tail = [" 77 ; not reached"] if src.draw(2) else ["#define notreached"]
        return b + [src.choice([" ", "  ", "\t"]) + x] + tail, f

    for k in range(src.int(1, 4)):
        ps = src.sample(["p", "q", "n1"], src.int(1, 3))
        b, f = body(ps, 2)
        n = "g%d" % k
        lines += ["#macro %s(%s)" % (n, ",".join(ps))] + b + ["#endmacro"]
        funs.append((n, ps, f))
    for k in range(2):
        ps = src.sample(["p", "q"], src.int(1, 2))
        x, f = value(ps)
        lines += ["#macro mac%d(%s)" % (k, ",".join(ps)), " .dw 1+" + x, "#endmacro"]
        for _ in range(src.int(0, 2)):
            args = [const() for _ in ps]
            lines.append("%smac%d(%s)" % (src.choice(["", " ", "\t"]), k, ",".join(a for a, _ in args)))
            out += ((1 + f(dict(zip(ps, [g({}) for _, g in args])))) & 0xFFFF).to_bytes(2, "little")
    for _ in range(src.int(1, 6)):
        k = src.draw(8)
        if k == 0:
            n = src.choice(["fl_a", "FL_B", "fl_c"])
            if n in flags:
                flags.discard(n)
                lines.append("#undef " + n)
            else:
                flags.add(n)
                lines.append("#define " + n)
            continue
        f = src.choice(funs)
        args = [const() for _ in f[1]]
        x = "%s(%s)" % (f[0], src.choice([",", ", "]).join(a for a, _ in args))
        v = f[2](dict(zip(f[1], [g({}) for _, g in args])))
        state["uses"] += 1
        if k < 3:
            lines.append(" .dw %s,1+%s" % (x, x))
            out += (v & 0xFFFF).to_bytes(2, "little") + ((v + 1) & 0xFFFF).to_bytes(2, "little")
        elif k < 5:
            lines.append(" ld hl," + x)
            out += b"\x21" + (v & 0xFFFF).to_bytes(2, "little")
        elif k == 5:
            lines += ["#if %s > 9" % x, " .db 1", "#else", " .db 2", "#endif"]
            out += b"\1" if v > 9 else b"\2"
        else:
            lines += ["eq%d = %s" % (len(lines), x), " .dw eq%d" % len(lines)]
            out += (v & 0xFFFF).to_bytes(2, "little")
    if any(len(l) > 240 for l in lines):
        raise Discard("long")
    s = "\n".join(lines) + "\n"
    r = t.asm(s)
    expect_bytes(bytes(out), ok_output(r))
    if state["cond"] and state["uses"]:
        t.nontrivial(s)


def reduced(s):
    out, k = bytearray(), 0
    while k < len(s):
        if s[k] == "\\":
            k += 1
            out += {"n": b"\n"}.get(s[k], s[k].encode())
        else:
            out += s[k].encode()
        k += 1
    return bytes(out)


def first_label(t):
    """Known finding: a label on the first line of a #macro body is taken for an opcode."""
    return t.asm("#macro m\nfoo:\n nop\n#endmacro\n m\n").rc == 3


def trailing(t):
    """Known finding: text behind a macro invocation silently replaces the body's lines after the first."""
    r = t.asm("#macro m(p)\n .db 1\n .db p\n#endmacro\n m (5)\n")
    return r.rc == 0 and r.files["out.bin"] != b"\x01\x05" or b"SE" in r.raw


def several_later(t):
    """Known finding: a function of several lines is put in as text when an argument is a later symbol."""
    return t.asm("#macro f(x)\n#ifdef zz\n 9\n#endif\n x\n#endmacro\n .dw f(lb)\nlb:\n").rc == 3


FINDINGS = {"first-label": first_label, "trailing-text": trailing, "several-later": several_later}


def parts(tier):
    q = tier == "quick"
    return [("model", model, 14000 if q else 350000), ("kinds", kinds, 5000 if q else 60000), ("chain", chain, 6000 if q else 80000), ("several", several, 5000 if q else 70000)]
