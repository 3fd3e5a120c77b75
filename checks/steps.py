"""Counting code points and characters (a code point and the marks that follow
it) from either end of a text, and the functions that take such positions."""
from lin import Lin, K
from dom import AggV
import content
import walks
from walks import IN, NPOS, is_const
from contracts import app


class Steps(walks.Walk):
    """Both walkers count the units they have passed; ("last", d) is the range
    of the most recent one."""
    dirs = "fb"

    def begin(self, e, st):
        for d in self.dirs:
            st.gh[("cnt", d)] = K(0)
            st.gh[("last", d)] = "?"
        self.prepare(e, st)

    def prepare(self, e, st):
        pass

    def cnt(self, st, d):
        return st.lin(st.gh[("cnt", d)])

    def step(self, st, d, a, q, ch=None):
        self.before(st, d)
        st.gh[("cnt", d)] = st.lin(st.gh[("cnt", d)] + 1)
        st.gh[("last", d)] = AggV(["last", st.lin(a), st.lin(q)] + ([st.lin(ch)] if ch is not None else []))

    def before(self, st, d):
        """A walker is about to leave ("w", d) for the next unit."""

    def over(self, st, d):
        return self.done(st, d)

    def pos(self, st, d, target):
        """(offset of the unit number target in the direction of the walk, whether it exists),
        or None when the walk has not come so far."""
        c = st.lin(target - self.cnt(st, d))
        if self.settled(st, d) and st.entails_eq(c):
            return self.w(st, d), True
        lim = st.lin(self.limit(st, d))
        if not st.entails_ge(c + -1):
            return None
        left = lim - self.w(st, d)
        if self.over(st, d) or st.entails_ge(st.lin(c - (left if d == "f" else left.scale(-1)) + -1)):
            return lim, False
        return None

    def settled(self, st, d):
        """("w", d) lies between two units."""
        self.advance(st, d)
        return True


class Codepoints(Steps):
    def passes(self, st, d, ch, a, q):
        return True

    def seen(self, st, d):
        self.advance(st, d)

    def unit(self, st, d, a, q, ch):
        if st.entails_eq(st.lin(a - self.w(st, d))):
            self.step(st, d, a, q, ch)
            st.gh[("w", d)] = st.lin(q)

    def on_skipped(self, e, st, ins, r, a, p, end):
        if r == IN and "f" in self.dirs and st.entails_eq(st.lin(end - self.limit(st, "f"))):
            self.unit(st, "f", a, p, None)

    def on_skippedback(self, eng, st, ins, r, e, p, begin):
        if r == IN and "b" in self.dirs and st.entails_eq(st.lin(begin - self.limit(st, "b"))):
            self.unit(st, "b", e, p, None)


class Chars(Steps):
    """("q", d) is the end of what is known to belong to the character at
    ("w", d), ("in", d) whether there is anything there: 2 when that is only the
    code point that ended the previous character."""

    def begin(self, e, st):
        for d in self.dirs:
            st.gh[("q", d)] = st.gh[("w", d)]
            st.gh[("in", d)] = 0
        Steps.begin(self, e, st)

    def is_mark(self, st, ch, v):
        m = content.Content.leaf(self, st, "ystring::is_mark", ch, 1)
        return st.entails_eq(st.lin(m) + -v)

    def q(self, st, d):
        return st.lin(st.gh[("q", d)])

    def advance(self, st, d):
        for _ in range(3):
            if not self.advance1(st, d):
                break

    def advance1(self, st, d):
        x = self.pend(st, d)
        if x is None:
            if st.gh[("in", d)] and st.entails_eq(st.lin(self.q(st, d) - self.limit(st, d))):
                self.complete(st, d)
                return True
            return False
        a, q, ch = x
        if d == "f" and not st.gh[("in", d)]:
            st.gh[("in", d)] = 1
        elif self.is_mark(st, ch, 1):
            st.gh[("in", d)] = 1
        elif not self.is_mark(st, ch, 0):
            return False
        elif d == "f":
            self.complete(st, d)
            st.gh[("in", d)] = 2
        else:
            st.gh[("q", d)] = q
            st.gh[("p", d)] = "?"
            self.complete(st, d)
            return True
        st.gh[("q", d)] = q
        st.gh[("p", d)] = "?"
        return True

    def complete(self, st, d):
        w, q = self.w(st, d), self.q(st, d)
        self.step(st, d, w, q)
        st.gh[("w", d)] = q
        st.gh[("in", d)] = 0

    def unit(self, st, d, a, q, ch):
        self.advance(st, d)
        x = self.pend(st, d)
        a = st.lin(a)
        if st.entails_eq(st.lin(a - self.w(st, d))) and (st.gh[("in", d)] or x is not None):
            # the current character is read again
            if st.gh[("in", d)] == 2 and x is None:
                st.gh[("q", d)] = st.lin(q)
                st.gh[("in", d)] = 1
            return
        if x is None and st.entails_eq(st.lin(a - self.q(st, d))):
            st.gh[("p", d)] = AggV(["p", a, st.lin(q), st.lin(ch)])
            self.advance(st, d)

    def malformed(self, st, d, a, end):
        self.advance(st, d)
        if st.entails_eq(st.lin(end - self.limit(st, d))) and (
                st.entails_eq(st.lin(a - self.w(st, d))) or
                self.pend(st, d) is None and st.entails_eq(st.lin(a - self.q(st, d)))):
            st.gh["bad"] = d

    def over(self, st, d):
        self.advance(st, d)
        return self.pend(st, d) is None and not st.gh[("in", d)] \
            and st.entails_eq(st.lin(self.w(st, d) - self.limit(st, d)))

    done = over


# ------------------------------------------------------------------ results

class CountUnits:
    def res_size(self, st, v):
        ok = self.over(st, "f") and st.entails_eq(st.lin(v.l - self.cnt(st, "f")))
        self.ob(st, ok, "the result %s is not the number of units, %s: %s" % (
            self.e.show(st, st.lin(v.l)), self.e.show(st, self.cnt(st, "f")), self.at(st, "f")))


class NextRange:
    """The unit that starts (ends) at the offset."""

    def res_range(self, st, off, ln):
        d = self.dirs
        off, ln = st.lin(off.l), st.lin(ln.l)
        w = st.gh[("last", d)]
        if w != "?":
            a, q = w.v[1:3]
            if d == "b":
                a, q = q, a
            ok = st.entails_eq(st.lin(self.cnt(st, d) + -1)) and st.entails_eq(st.lin(off - a)) \
                and st.entails_eq(st.lin(ln - q + a))
        else:
            ok = self.over(st, d) and st.entails_eq(st.lin(off - self.p["off"])) and is_const(st, ln, 0, 64)
        self.ob(st, ok, "the range %s, %s is not the character's; %s" % (
            self.e.show(st, off), self.e.show(st, ln), self.at(st, d)))


def sign(e, st, l):
    """The two cases l >= 0 and l < 0."""
    s = st.copy()
    out = []
    if st.assume_ge(l):
        st.gh["case"] = st.gh.get("case", "") + "+"
        out.append(st)
    if s.assume_ge(K(-1) - l):
        s.gh["case"] = s.gh.get("case", "") + "-"
        out.append(s)
    return out


class Pos:
    """The offset of unit number pos, npos when there is none."""

    def cases(self, e, st):
        return sign(e, st, self.p["pos"])

    def target(self, st):
        """(direction, number)"""
        p = st.lin(self.p["pos"])
        return ("f", p) if st.gh["case"] == "+" else ("b", p.scale(-1))

    def res_size(self, st, v):
        d, n = self.target(st)
        x = self.pos(st, d, n)
        v = st.lin(v.l)
        if x is None:
            ok = False
        elif x[1]:
            ok = st.entails_eq(st.lin(v - x[0]))
        else:
            ok = is_const(st, v, NPOS, 64)
        self.ob(st, ok, "the result %s is not the offset of the unit: %s after %s units" % (
            self.e.show(st, v), self.at(st, d), self.e.show(st, self.cnt(st, d))))


class UnitAt(Pos):
    """The range of unit number pos (from the end, the last is number -1)."""
    with_char = True

    def res_range(self, st, off, ln):
        st.gh["range"] = AggV(["r", st.lin(off.l), st.lin(ln.l)])
        if not self.with_char:
            self.res_char(st, None)

    def res_char(self, st, c):
        d, n = self.target(st)
        off, ln = st.gh["range"].v[1:]
        w = st.gh[("last", d)]
        self.advance(st, d)
        cnt = self.cnt(st, d)
        if d == "f":
            n = st.lin(n + 1)
        w = st.gh[("last", d)]
        if st.entails_eq(st.lin(cnt - n)) and w != "?" and not (c is not None and len(w.v) < 4):
            a, q = (w.v[1], w.v[2]) if d == "f" else (w.v[2], w.v[1])
            ok = st.entails_eq(st.lin(off - a)) and st.entails_eq(st.lin(ln - q + a))
            if c is not None:
                ok = ok and st.entails_eq(st.lin(c.l - w.v[3]))
        else:
            x = self.pos(st, d, n)
            ok = x is not None and not x[1] and is_const(st, ln, 0, 64) and (c is None or is_const(st, c.l, walks.INVALID, 32))
        self.ob(st, ok, "the range %s, %s is not that of the unit: %s after %s units" % (
            self.e.show(st, off), self.e.show(st, ln), self.at(st, d), self.e.show(st, cnt)))


class CharAt(UnitAt):
    with_char = False


def both(e, sts, l):
    return [y for x in sts for y in sign(e, x, l)]


class Sub:
    """The range from unit start up to unit stop.  Positions beyond the ends
    count as the ends; an empty range starts where start is (both
    non-negative), or ends where stop is (both negative)."""

    def cases(self, e, st):
        a, b = st.lin(self.p["start"]), st.lin(self.p["stop"])
        return both(e, both(e, sign(e, st, a), b), st.lin(b - a))

    def prepare(self, e, st):
        for d in "fb":
            st.gh[("first", d)] = "?"

    def targets(self, st):
        """[(direction, number)] in the order in which they are reached."""
        a, b = st.lin(self.p["start"]), st.lin(self.p["stop"])
        c = st.gh["case"]
        if c[:2] == "++":
            return [("f", a), ("f", b if c[2] == "+" else a)]
        if c[:2] == "--":
            s = b.scale(-1) if c[2] == "+" else a.scale(-1)
            return [("b", s), ("b", a.scale(-1))]
        if c[:2] == "+-":
            return [("f", a), ("b", b.scale(-1))]
        return [("b", a.scale(-1)), ("f", b)]

    def before(self, st, d):
        # the first target is passed when the walk goes on from it
        t = self.targets(st)
        if t[0][0] == d == t[1][0] and st.gh[("first", d)] == "?" \
                and st.entails_eq(st.lin(self.cnt(st, d) - t[0][1])):
            st.gh[("first", d)] = self.w(st, d)

    def limit(self, st, d):
        if d == "b" and st.gh.get("case", "")[:2] == "+-":
            # the text that is left after start
            x = self.pos(st, "f", self.targets(st)[0][1])
            if x is not None:
                return x[0]
        return Steps.limit(self, st, d)

    def bounds(self, st):
        """(start, stop) offsets, or None."""
        t = self.targets(st)
        d = t[0][0]
        x = st.gh[("first", d)]
        if x == "?":
            y = self.pos(st, d, t[0][1])
            if y is None:
                return None
            x = y[0]
        y = self.pos(st, t[1][0], t[1][1])
        if y is None:
            return None
        x, y = st.lin(x), st.lin(y[0])
        c = st.gh["case"][:2]
        if c == "++":
            return x, y
        if c == "--":
            return y, x
        if c == "+-":
            return x, y
        if st.entails_ge(st.lin(y - x)):
            return x, y
        if st.entails_ge(st.lin(x - y)):
            return x, x
        return None

    def res_view(self, st, p, ln):
        b = self.bounds(st)
        ln = st.lin(ln.l)
        if b is None:
            ok = False
        elif st.entails_eq(ln):
            ok = st.entails_eq(st.lin(b[1] - b[0]))
        else:
            ok = p.r == IN and st.entails_eq(st.lin(p.l - b[0])) and st.entails_eq(st.lin(ln - b[1] + b[0]))
        self.ob(st, ok, "the result [%s, +%s) is not the range of the units %s; %s" % (
            self.e.show(st, st.lin(p.l)), self.e.show(st, ln),
            "" if b is None else "[%s, %s)" % (self.e.show(st, b[0]), self.e.show(st, b[1])),
            "; ".join("%s: %s after %s units" % (d, self.at(st, d), self.e.show(st, self.cnt(st, d))) for d in "fb") + str((st.gh["case"], st.gh[("first","f")], self.targets(st), self.p))))


class Editing:
    """The result is a given sequence of pieces of the inputs."""

    def start(self, e, st, entry):
        self.c = content.Content()
        self.c.start(e, st, entry)
        super().start(e, st, entry)

    def __getattr__(self, name):
        if name.startswith("on_"):
            return getattr(self.c, name)
        raise AttributeError(name)

    def settle(self, e, st):
        self.c.settle(e, st)
        super().settle(e, st)

    def raw(self, r, a, b):
        return content.seg(("raw", ("in", r)), a, b)

    def res_str(self, st, p):
        k = self.e.obj_key(st, p)
        c = self.c.get(st, k) if k else None
        w = self.wanted(st)
        if w is not None:
            w = self.c.norm(st, self.drop(st, w))
        if c is not None:
            c = self.c.norm(st, self.drop(st, c))
        ok = c is not None and w is not None and same(st, c, w)
        self.ob(st, ok, "the result is %s instead of %s; %s" % (
            self.c.show(st, c), self.c.show(st, w),
            "; ".join("%s: %s after %s units" % (d, self.at(st, d), self.e.show(st, self.cnt(st, d))) for d in self.dirs)))

    def drop(self, st, c):
        return [s for s in c if not (content.is_raw(s) and st.entails_eq(st.lin(s.v[1] - s.v[2])))]


def same(st, a, b):
    return len(a) == len(b) and all(
        x.v[0] == y.v[0] and len(x.v) == len(y.v)
        and all(st.entails_eq(st.lin(l - m)) for l, m in zip(x.v[1:], y.v[1:])) for x, y in zip(a, b))


class Insert(Editing, Pos):
    """The second text (code point) stands before unit number pos."""

    def wanted(self, st):
        n = self.size(st)
        if "tn" in self.p:
            tn = st.lin(self.p["tn"])
            if st.entails_eq(tn):
                return [self.raw("s", K(0), n)]
            sub = self.raw("t", K(0), tn)
        else:
            sub = content.seg("enc", st.lin(self.p["c"]))
        x = self.pos(st, *self.target(st))
        if x is None or not x[1]:
            return None
        return [self.raw("s", K(0), x[0]), sub, self.raw("s", x[0], n)]

    def may_throw(self, st):
        if "c" in self.p and st.entails_ge(st.lin(self.p["c"]) + -0x110000):
            return True
        x = self.pos(st, *self.target(st))
        return x is not None and not x[1]


class Replace(Editing, Sub):
    """The second text stands for the range of units."""

    def wanted(self, st):
        b = self.bounds(st)
        if b is None:
            return None
        return [self.raw("s", K(0), b[0]), self.raw("t", K(0), st.lin(self.p["tn"])),
                self.raw("s", b[1], self.size(st))]


class Backwards:
    """("rev",) p: the characters from p to the end, the last one first."""

    def __init__(self, steps):
        self.steps = steps

    def fold(self, mon, st, c):
        s = self.steps
        s.advance(st, "b")
        n = s.size(st)
        if not c or c[0].v[0] != ("rev",):
            c = [content.seg(("rev",), n)] + c
        while len(c) > 1:
            p, x = st.lin(c[0].v[1]), c[1]
            w = st.gh[("last", "b")]
            if w == "?" or not content.is_raw(x) or x.v[0][1] != IN:
                break
            # ("last", "b") runs from the end of the character to its start
            if not (st.entails_eq(st.lin(w.v[1] - p)) and st.entails_eq(st.lin(x.v[2] - p))
                    and st.entails_eq(st.lin(w.v[2] - x.v[1]))):
                break
            c = [content.seg(("rev",), st.lin(x.v[1]))] + c[2:]
        return c


class Reverse(Editing, Chars):
    dirs = "b"

    def start(self, e, st, entry):
        super().start(e, st, entry)
        self.c.image = Backwards(self)

    def wanted(self, st):
        return [content.seg(("rev",), K(0))]


def fixed(dirs_, off=False):
    class O:
        dirs = dirs_

        def origin(self, st, d):
            if off:
                return self.p["off"]
            return walks.Walk.origin(self, st, d)
    return O


def make(*bases):
    return type("Steps_" + "_".join(b.__name__ for b in bases), bases, {})


MON = {
    "count_cp": make(CountUnits, fixed("f"), Codepoints),
    "count_ch": make(CountUnits, fixed("f"), Chars),
    "next_ch": make(NextRange, fixed("f", True), Chars),
    "prev_ch": make(NextRange, fixed("b", True), Chars),
    "pos_cp": make(Pos, Codepoints),
    "pos_ch": make(Pos, Chars),
    "at_cp": make(UnitAt, Codepoints),
    "at_ch": make(CharAt, Chars),
    "sub_cp": make(Sub, Codepoints),
    "sub_ch": make(Sub, Chars),
    "ins_cp": make(Insert, Codepoints),
    "ins_ch": make(Insert, Chars),
    "rep_cp": make(Replace, Codepoints),
    "rep_ch": make(Replace, Chars),
    "reverse": Reverse,
}
