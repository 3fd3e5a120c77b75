"""Functions from text to text, decided by the content typestate."""
import content
import drive
import loops
import safety
from content import IN, Content, CpImage, ElemImage, TextImage, SAME, app
from dom import Dead, IntV, PtrV
from lin import K, iv_and, iv_elems, iv_norm, iv_sub

SHARP = 0xDF


def mapped(mon, st, name, ch):
    """The case mapping of a code point as the analysis names it."""
    if st.entails_ge(ch + -0x110000):
        return ch
    return mon.leaf(st, "ystring::" + name, ch, 0x10FFFF)


class Lower(CpImage):
    def step(self, mon, st, state, ch, p, q):
        x = mapped(mon, st, "to_lower", ch)
        return x is not None and ([("enc", x)], state) or None


class Upper(CpImage):
    def step(self, mon, st, state, ch, p, q):
        if st.entails_eq(ch + -SHARP):
            return [("el", K(ord("S"))), ("el", K(ord("S")))], state
        if not differs(st, ch, SHARP):
            return None
        return [("enc", mapped(mon, st, "to_upper", ch))], state


def differs(st, l, c):
    lo, hi = st.interval(l)
    if c < lo or c > hi:
        return True
    s = st.copy()
    from dom import Dead
    try:
        return not s.assume_eq(l + -c) or not s.feasible()
    except Dead:
        return True


class Title(CpImage):
    stateless = False

    def step(self, mon, st, state, ch, p, q):
        letter = mon.leaf(st, "ystring::is_letter", ch, 1)
        if st.entails_eq(letter):
            return [("enc", ch)], 0
        if not st.entails_eq(letter + -1):
            return None
        if state:
            return [("enc", mapped(mon, st, "to_lower", ch))], 1
        if st.entails_eq(ch + -SHARP):
            return [("el", K(ord("S"))), ("el", K(ord("s")))], 1
        if not differs(st, ch, SHARP):
            return None
        return [("enc", mapped(mon, st, "to_title", ch))], 1


class Same32(CpImage):
    def step(self, mon, st, state, ch, p, q):
        return [("el", ch)], state


def text(img, outes_=1, marks_=()):
    class M(TextImage):
        image = img()
        outes = outes_
        marks = marks_
    return M


JSON = {8: "b", 12: "f", 10: "n", 13: "r", 9: "t", 34: '"', 92: "\\"}


class Escape(ElemImage):
    plain = True
    special = iv_norm([(0, 31), (34, 34), (92, 92)])

    def step(self, mon, st, state, v, p, q):
        S = loops.img(st, st.lin(v))
        if not iv_and(S, self.special):
            return SAME, state
        if iv_sub(S, self.special):
            return None
        vals = list(iv_elems(S))
        named = [x in JSON for x in vals]
        back = ("el", K(92))
        if all(named):
            return [back, ("fn", lambda x: ord(JSON.get(x, "?")))], state
        if any(named):
            return None
        return [back, ("el", K(ord("u"))), ("el", K(48)), ("el", K(48)),
                ("fn", lambda x: ord(("%02X" % x)[0])),
                ("fn", lambda x: ord(("%02X" % x)[1]))], state


class FromUtf32(ElemImage):
    region = ("in", "u")
    es = 4

    def step(self, mon, st, state, v, p, q):
        if st.entails_ge(st.lin(v) + -0x110000):
            return [], state
        if st.entails_ge(K(0x10FFFF) - v):
            return [("enc", v)], state
        return None


class ReplaceInvalid(CpImage):
    def unit(self, mon, st, p):
        x = CpImage.unit(self, mon, st, p)
        if x is not None:
            return ("ok", x[0]), x[1]
        n = st.rgn[self.region]
        ok = app("decok", 0, 1, self.region, st.lin(p), st.lin(n))
        if not st.entails_eq(ok):
            return None
        return ("bad", None), st.lin(app("skipto", 1, 1 << 62, self.region, st.lin(p), st.lin(n)))

    def value(self, st, v):
        return v[1]

    def step(self, mon, st, state, v, p, q):
        if v[0] == "ok":
            return SAME, state
        c = mon.p["c"]
        if st.entails_ge(st.lin(c) + -0x110000):
            return [], state
        return [("enc", c)], state


class Join(content.Image):
    """The views in order, with the second text between them."""
    region = ("in", "v")
    stateless = False

    def unit(self, mon, st, p):
        return st.lin(p), st.lin(p + 16)

    def step(self, mon, st, state, i, p, q):
        off = st.lin(app("voff", 0, 1 << 62, i))
        ln = st.lin(app("vlen", 0, 1 << 62, i))
        view = ("raw", ("in", "vtext"), off, st.lin(off + ln))
        if not state:
            return [view], 1
        return [("raw", ("in", "t"), K(0), st.lin(mon.p["tn"])), view], 1


class Exactly(Content):
    """The returned string has one given content."""

    def begin(self, e, st, entry):
        self.where = drive.last_ins(e.m, entry.fn)

    def wanted(self, st):
        raise NotImplementedError

    def same(self, st, c, w):
        return c is not None and w is not None and len(w) == len(c) and all(
            a.v[0] == b.v[0] and all(st.entails_eq(st.lin(x - y)) for x, y in zip(a.v[1:], b.v[1:]))
            for a, b in zip(c, w))

    def result(self, e, st, ins, c):
        w = self.wanted(st)
        ok = self.same(st, c, w)
        self.ob(st, ok, ins, None if ok else "the result is %s instead of %s" % (self.show(st, c), self.show(st, w)))


class Utf32Char(Exactly):
    def wanted(self, st):
        c = self.p["c"]
        if st.entails_ge(K(0x10FFFF) - c):
            return [content.seg("enc", c)]
        return []


class Append(Exactly):
    """The text with the encoding of the code point after it; above U+10FFFF,
    and only there, an exception."""
    own = None

    def text(self, st):
        n = st.lin(self.p["n"])
        if st.entails_eq(n):
            return []
        return [content.seg(("raw", self.own or IN), K(0), n)]

    def wanted(self, st):
        c = self.p["c"]
        if st.entails_ge(K(0x10FFFF) - c):
            return self.text(st) + [content.seg("enc", c)]
        return None

    def finish(self, e, outs):
        for kind, v, st in outs:
            if kind == "exc" and v.own is None:
                continue
            if kind == "exc":
                ok = st.entails_ge(st.lin(self.p["c"]) + -0x110000)
                self.ob(st, ok, None, None if ok else "an exception leaves although the code point can be encoded")
                if self.own:
                    self.left(st)
            else:
                self.ob(st, bool(st.gh.get("res")), None, "no result is returned")

    def on_sink(self, e, st, ins, sink, args):
        st.gh["res"] = 1
        Exactly.on_sink(self, e, st, ins, sink, args)


OWN = ("own", "s")
S = (("obj", "s"), 0)


class AppendRef(Append):
    """The same in the string itself, which is the result."""
    own = OWN

    def begin(self, e, st, entry):
        Append.begin(self, e, st, entry)
        self.put(st, S, self.text(st))

    def es(self, r):
        return 1

    def on_sink(self, e, st, ins, sink, args):
        ok = e.obj_key(st, args[0]) == S
        self.ob(st, ok, ins, None if ok else "the result is not the given string")
        Append.on_sink(self, e, st, ins, sink, args)

    def left(self, st):
        c = self.get(st, S)
        w = self.text(st)
        ok = self.same(st, c, w)
        self.ob(st, ok, None, None if ok else "the string is %s when an exception leaves" % self.show(st, c))


class RefInvalid(AppendRef):
    """The string is replaced by its repaired copy, or is well-formed already."""

    def mine(self, st, p, n):
        """Whether a view is all of the given string, as it was given."""
        c = self.get(st, S)
        return isinstance(p, PtrV) and p.r == ("b",) + S and st.entails_eq(p.l) \
            and st.entails_eq(n.l - self.p["n"]) and self.same(st, c, self.text(st))

    def on_validity(self, e, st, ins, p, n, valid):
        if self.mine(st, p, n):
            st.gh["valid"] = valid

    def on_repaired(self, e, st, ins, key, p, n, chr_):
        ok = self.mine(st, p, n)
        self.put(st, key, [content.seg("repaired", st.lin(chr_.l))] if ok else None)

    def wanted(self, st):
        if st.gh.get("valid") == 1:
            c = self.get(st, S)
            w = self.text(st)
            if self.same(st, c, w):
                return w
        return [content.seg("repaired", self.p["c"])]

    def finish(self, e, outs):
        for kind, v, st in outs:
            if kind != "exc":
                self.ob(st, bool(st.gh.get("res")), None, "no result is returned")
            elif v.own is not None:
                self.ob(st, False, None, "an exception leaves")


class Values:
    """What a function returns, as a formula over its arguments."""
    kind = "fn"

    def start(self, e, st, entry):
        self.e = e
        self.p = entry.p
        self.where = drive.last_ins(e.m, entry.fn)
        st.gh["got"] = 0

    def ob(self, st, ok, msg):
        return self.e.check(st, ok, self.kind, self.where, None if ok else msg)

    def wanted(self, st):
        """[(sink, values)] or None when the state does not tell."""
        raise NotImplementedError

    def on_sink(self, e, st, ins, sink, args):
        k = st.gh["got"]
        st.gh["got"] = k + 1
        w = self.wanted(st)
        if w is None or k >= len(w):
            self.ob(st, False, "more is returned than what is specified" if w else "the result does not follow from the arguments")
            return
        name, vals = w[k]
        got = [(a.r, a.l) if isinstance(a, PtrV) else (None, a.l) if isinstance(a, IntV) else None for a in args]
        ok = name == sink and len(vals) == len(got) and all(
            g is not None and g[0] == v[0] and self.equal(st, v[1], g[1]) for v, g in zip(vals, got))
        self.ob(st, ok, "%s gives %s instead of %s" % (
            sink, [g and e.show(st, st.lin(g[1])) for g in got], [e.show(st, st.lin(v[1])) for v in vals]))

    def equal(self, st, a, b):
        d = st.lin(b) - st.lin(a)
        return st.entails_eq(d) or (not d.t and d.c % (1 << 64) == 0)

    def finish(self, e, outs):
        for kind, v, st in outs:
            w = self.wanted(st)
            self.ob(st, kind != "exc", "an exception leaves")
            if kind != "exc":
                self.ob(st, w is not None and st.gh["got"] == len(w), "less is returned than what is specified")


class SubrangeEq(Values):
    yes = 1

    def cases(self, e, st):
        out = []
        for i in range(9):
            s = st.copy()
            try:
                for a, b, k in (("a", "c", i % 3), ("b", "d", i // 3)):
                    d = self.p[a] - self.p[b]
                    if k == 0:
                        s.assume_eq(d)
                    else:
                        s.assume_ge((d if k == 1 else d.scale(-1)) + -1)
            except Dead:
                continue
            s.gh["eq"] = int(i == 0)
            out.append(s)
        return out

    def wanted(self, st):
        return [("sa_bool", [(None, K(st.gh["eq"] if self.yes else 1 - st.gh["eq"]))])]


class SubrangeNe(SubrangeEq):
    yes = 0


class SubrangeGet(Values):
    def cases(self, e, st):
        out = []
        for i in range(2):
            s = st.copy()
            try:
                if i:
                    s.assume_ge(self.p["b"] + -1)
                else:
                    s.assume_eq(self.p["b"])
            except Dead:
                continue
            # the end is a position in a text
            s.assume_ge(K((1 << 63) - 1) - self.p["a"] - self.p["b"])
            s.gh["some"] = i
            out.append(s)
        return out

    def wanted(self, st):
        a, b = self.p["a"], self.p["b"]
        return [("sa_size", [(None, a)]), ("sa_size", [(None, a + b)]), ("sa_bool", [(None, K(st.gh["some"]))])]


class SameView(Values):
    def wanted(self, st):
        return [("sa_view", [(IN, K(0)), (None, self.p["n"])])]


MON = {
    "sub_eq": SubrangeEq, "sub_ne": SubrangeNe, "sub_get": SubrangeGet, "same_view": SameView,
    "append": Append, "append_ref": AppendRef, "invalid_ref": RefInvalid,
    "lower": text(Lower), "upper": text(Upper), "title": text(Title),
    "same32": text(Same32, 4), "escape": text(Escape, 1, {0}), "fromutf32": text(FromUtf32),
    "join": text(Join), "invalid": text(ReplaceInvalid), "utf32char": Utf32Char,
}
