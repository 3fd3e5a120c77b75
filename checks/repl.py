"""Replacing a text, decided by the content typestate.

Forward, the next occurrence is named by the search that finds it after the
previous one, and what the result holds is folded into "the text up to p with k
occurrences replaced".  The occurrences may first be collected in a vector.

Backward, match(0) is the end of the text and match(i + 1) the last occurrence
that ends at or before match(i).  What is added to a vector must be the next
of these; what is read from it is known to be what was verified when it was
added.  The result is then folded from the last of them to the first."""
from lin import Lin, K
from dom import Dead, IntV
from contracts import app
import content
import drive

S, F, T = ("in", "s"), ("in", "f"), ("in", "t")
BIG = 1 << 62


class Fold:
    """("img", p, k): the text before p with k occurrences replaced, or with
    all but k when they are replaced from the end."""

    def fold(self, mon, st, c):
        case = st.gh.get("case", "e")
        if case[0] == "e":
            return c
        if not c or c[0].v[0] != "img":
            if case[0] == "-":
                if not st.gh["stop"]:
                    return c
                st.gh["rest"] = 1
            c = [content.seg("img", K(0), K(0) if case[0] == "+" else st.lin(st.gh["k"]))] + c
        for _ in range(8):
            x = self.one(mon, st, c, case)
            if x is None:
                break
            c = x
        return c

    def one(self, mon, st, c, case):
        p, k = (st.lin(x) for x in c[0].v[1:])
        rest = c[1:]
        if case[0] == "+":
            if not st.entails_ge(st.lin(mon.p["max"] - k) + -1):
                return None
            if st.gh.get("coll"):
                if not st.entails_ge(st.lin(st.gh["k"] - k) + -1):
                    return None
                x = mon.nth(st, st.lin(k + 1))
            else:
                x = mon.first(st, p)
        else:
            if not st.entails_ge(k + -1):
                return None
            x = mon.nth(st, k)
        if x is None or x == "none":
            return None
        a, b = x
        if not st.entails_eq(st.lin(a - p)):
            if not (rest and content.is_raw(rest[0]) and rest[0].v[0][1] == S
                    and st.entails_eq(rest[0].v[1] - p) and st.entails_eq(rest[0].v[2] - a)):
                return None
            rest = rest[1:]
        if case[1] == "t":
            if not rest or not content.is_raw(rest[0]) or rest[0].v[0][1] != T \
                    or not st.entails_eq(rest[0].v[1]) or not st.entails_eq(st.lin(rest[0].v[2] - mon.p["tn"])):
                return None
            rest = rest[1:]
        return [content.seg("img", st.lin(b), st.lin(k + (1 if case[0] == "+" else -1)))] + rest


class Replace(content.Content):
    fwd, bwd = "srch", "lsrch"
    exact = True
    image = Fold()

    def begin(self, e, st, entry):
        self.where = drive.last_ins(e.m, entry.fn)
        st.gh["k"] = K(0)
        st.gh["stop"] = 0

    def cases(self, e, st):
        """By the sign of the maximum and the texts that are empty."""
        out = []
        z = st.copy()
        if z.assume_eq(z.lin(self.p["fn"])):
            z.gh["case"] = "e"
            out.append(z)
        for c, l in (("+", self.p["max"]), ("-", K(-1) - self.p["max"])):
            for d in "t0":
                s = st.copy()
                if s.assume_ge(s.lin(self.p["fn"]) + -1) and s.assume_ge(s.lin(l)) and \
                        (s.assume_ge(s.lin(self.p["tn"]) + -1) if d == "t" else s.assume_eq(s.lin(self.p["tn"]))):
                    s.gh["case"] = c + d
                    if c == "+":
                        s.gh["cur"] = K(0)
                    else:
                        s.gh["cur"] = self.n(s)
                        s.gh["low"] = s.lin(self.n(s) - self.p["fn"])
                    out.append(s)
        return out

    def n(self, st):
        return st.lin(self.p["n"])

    def key(self, st):
        return [F, K(0), st.lin(self.p["fn"])]

    def length(self, st, name, a):
        return st.lin(self.p["fn"]) if self.exact else st.lin(app(name + "#", 1, BIG, *a))

    def first(self, st, p):
        """The first occurrence from p: (start, end), "none" or None."""
        n = self.n(st)
        a = [S, st.lin(p), n] + self.key(st)
        x = st.lin(app(self.fwd, 0, BIG, *a))
        if st.entails_eq(x - n) or st.entails_eq(st.lin(p) - n):
            return "none"
        if not st.entails_ge(n - x + -1):
            return None
        return x, st.lin(x + self.length(st, self.fwd, a))

    def nth(self, st, i):
        f = "match" if st.gh["case"][0] == "-" else "fmatch"
        x = st.lin(app(f, 0, BIG, st.lin(i)))
        return x, st.lin(x + (self.p["fn"] if self.exact else app(f + "#", 1, BIG, st.lin(i))))

    # -------------------------------------------------- collecting from the end
    def eq(self, st, p):
        return st.lin(app("eqb", 0, 1, F, K(0), S, st.lin(p), st.lin(self.p["fn"])))

    def last(self, st):
        """The last occurrence that ends by the end of what is left."""
        cur = st.lin(st.gh["cur"])
        a = [S, K(0), cur] + self.key(st)
        x = st.lin(app(self.bwd, 0, BIG, *a))
        if st.entails_eq(x - cur):
            return "none"
        if st.entails_ge(cur - x + -1):
            return x, st.lin(x + self.length(st, self.bwd, a))
        if self.exact:
            low = st.lin(st.gh["low"])
            if st.entails_ge(K(-1) - low):
                return "none"
            if st.entails_eq(self.eq(st, low) + -1):
                return low, st.lin(low + self.p["fn"])
        return None

    def settle(self, e, st):
        if st.gh.get("case", "e")[0] == "-" and not st.gh["stop"]:
            if self.exact:
                # places known not to match are passed over
                for _ in range(3):
                    low = st.lin(st.gh["low"])
                    if st.entails_ge(K(-1) - low) or not st.entails_eq(self.eq(st, low)):
                        break
                    st.gh["low"] = st.lin(low + -1)
            if st.entails_eq(st.lin(st.gh["k"] + self.p["max"])) or self.last(st) == "none":
                st.gh["stop"] = 1
                st.gh["cur"] = st.gh["low"] = K(0)
        if st.gh.get("case", "e")[0] == "+" and not st.gh["stop"] and st.gh.get("vec"):
            if st.entails_eq(st.lin(st.gh["k"] - self.p["max"])) or self.first(st, st.gh["cur"]) == "none":
                st.gh["stop"] = 1
                st.gh["cur"] = K(0)
        super().settle(e, st)

    def on_newvec(self, e, st, ins, key):
        st.gh["vec"] = key
        if st.gh.get("case", "e")[0] != "e":
            self.ob(st, st.entails_eq(st.gh["k"]), ins, "the matches are thrown away")

    def on_vecmove(self, e, st, ins, src, dst):
        if st.gh.get("vec") == src:
            st.gh["vec"] = dst

    # what is popped keeps its number; that it has been used shows in the result

    def on_vecadd(self, e, st, ins, key, idx, elem):
        self.settle(e, st)
        case = st.gh.get("case", "e")[0]
        ok = case != "e" and not st.gh["stop"] and st.gh.get("vec") == key \
            and not st.gh.get("turned") \
            and st.entails_eq(st.lin(idx) - st.gh["k"])
        if ok and case == "+":
            ok = st.entails_ge(st.lin(self.p["max"] - st.gh["k"]) + -1)
        x = (self.last(st) if case == "-" else self.first(st, st.gh["cur"])) if ok else None
        v = [v for _, (_, v) in sorted(elem.items())]
        ok = x is not None and x != "none" and 1 <= len(v) <= 2 and all(isinstance(y, IntV) for y in v) \
            and st.entails_eq(st.lin(v[0].l - x[0])) \
            and (len(v) == 1 or st.entails_eq(st.lin(v[0].l + v[1].l - x[1])))
        self.ob(st, ok, ins, None if ok else "what is added is not the next occurrence from the " +
                ("end" if case == "-" else "start"))
        if ok:
            st.gh["k"] = st.lin(st.gh["k"] + 1)
            if case == "-":
                st.gh["cur"] = x[0]
                st.gh["low"] = st.lin(x[0] - self.p["fn"])
            else:
                st.gh["cur"] = x[1]
                st.gh["coll"] = 1
            # what it is called from here on
            a, b = self.nth(st, st.gh["k"])
            if not (st.assume_eq(st.lin(a - x[0])) and st.assume_eq(st.lin(b - x[1]))):
                raise Dead()

    def on_vecreverse(self, e, st, ins, key):
        if st.gh.get("vec") == key:
            st.gh["turned"] = 1 - st.gh.get("turned", 0)

    def on_vecload(self, e, st, ins, key, idx, elem):
        case = st.gh.get("case", "e")[0]
        if case == "e" or st.gh.get("vec") != key:
            return
        i = st.lin(st.gh["k"] - idx) if st.gh.get("turned") else st.lin(idx + 1)
        a, b = self.nth(st, i)
        v = [v for _, v in sorted(elem.items())]
        if not v or not all(isinstance(x, IntV) for x in v):
            return
        facts = [st.assume_eq(st.lin(v[0].l - a)), st.assume_ge(st.lin(self.n(st) - b))]
        if len(v) == 2:
            facts.append(st.assume_eq(st.lin(v[0].l + v[1].l - b)))
        prev = self.nth(st, st.lin(i + -1))
        if st.entails_ge(st.lin(i) + -2):
            facts.append(st.assume_ge(st.lin(prev[0] - b if case == "-" else a - prev[1])))
        for k in list(st.gh):
            if type(k) is tuple and k[0] == "c":
                c = self.get(st, k[1])
                if c and c[0].v[0] == "img" and \
                        st.entails_eq(st.lin(c[0].v[2] - i + (0 if case == "-" else 1))):
                    # what was written ends with the match before this one
                    facts.append(st.assume_ge(st.lin(a - c[0].v[1])))
        if not all(facts):
            raise Dead()

    # ------------------------------------------------------------ results
    def on_sink(self, e, st, ins, sink, args):
        self.settle(e, st)
        super().on_sink(e, st, ins, sink, args)

    def result(self, e, st, ins, c):
        case = st.gh.get("case", "e")
        n = self.n(st)
        ok = False
        if c is not None and case[0] == "e":
            ok = st.entails_eq(n) if not c else len(c) == 1 and self.rest(st, c[0], K(0))
        elif c and c[0].v[0] == "img":
            p, k = (st.lin(x) for x in c[0].v[1:])
            ok = st.entails_eq(n - p) if len(c) == 1 else len(c) == 2 and self.rest(st, c[1], p)
            if case[0] == "-":
                done = st.entails_eq(k)
            elif st.gh.get("coll"):
                done = st.gh["stop"] and st.entails_eq(st.lin(k - st.gh["k"]))
            else:
                done = st.entails_eq(st.lin(self.p["max"] - k)) or self.first(st, p) == "none" or \
                    st.gh["stop"] and st.entails_eq(k) and st.entails_eq(st.lin(st.gh["k"]))
            if ok and not done:
                self.ob(st, False, ins, "there are more occurrences to replace: %s" % self.show(st, c))
                return
        self.ob(st, ok, ins, None if ok else "the result is %s" % self.show(st, c))

    def rest(self, st, s, p):
        return content.is_raw(s) and s.v[0][1] == S and st.entails_eq(st.lin(s.v[1] - p)) \
            and st.entails_eq(st.lin(s.v[2] - self.n(st)))

    def on_findthrow(self, e, st, ins, fname):
        st.gh["thrown"] = 1

    def finish(self, e, outs):
        for kind, v, st in outs:
            if kind == "exc" and v.own is not None:
                self.ob(st, bool(st.gh.get("thrown")), None, "an exception leaves that the search did not throw")


class CiReplace(Replace):
    fwd, bwd = "ci::find_first", "ci::find_last"
    exact = False


class OfCodePoints(content.Content):
    """The replacement of the encoding of one code point with another's."""

    def begin(self, e, st, entry):
        self.where = drive.last_ins(e.m, entry.fn)

    def on_replaced(self, e, st, ins, key, parts, most):
        got = [self.pieces(st, ("mem", p.r, p.l, n.l)) for p, n in parts]
        want = [content.seg(("raw", S), K(0), st.lin(self.p["n"])), content.seg("enc", st.lin(self.p["from"])),
                content.seg("enc", st.lin(self.p["to"]))]
        ok = st.entails_eq(st.lin(most.l - self.p["max"])) and all(
            g is not None and (len(g) == 1 and g[0].v[0] == w.v[0] and all(
                st.entails_eq(st.lin(a - b)) for a, b in zip(g[0].v[1:], w.v[1:]))
                or not g and w is want[0] and st.entails_eq(st.lin(self.p["n"])))
            for g, w in zip(got, want))
        self.ob(st, ok, ins, None if ok else "the text is searched for something else, or something else is put in")
        self.put(st, key, [content.seg("done")])

    def result(self, e, st, ins, c):
        ok = c is not None and len(c) == 1 and c[0].v[0] == "done"
        self.ob(st, ok, ins, None if ok else "the result is not that of the replacement")

    def finish(self, e, outs):
        for kind, v, st in outs:
            if kind == "exc" and v.own is not None:
                ok = any(st.entails_ge(st.lin(self.p[x]) + -0x110000) for x in ("from", "to"))
                self.ob(st, ok, None, "an exception leaves although both are code points")


MON = {"replace_codepoint": OfCodePoints, "replace": Replace, "ci_replace": CiReplace}
