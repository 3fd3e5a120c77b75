"""Comparing and searching without regard to case: two texts are read in step,
and every pair of code points that has been passed has the same uppercase
mapping (which T02 establishes)."""
from lin import K
from dom import AggV
import content
import drive
import walks
from walks import IN, NPOS, is_const, differ

T = ("in", "t")


class Pairs:
    """Reading two texts in step.  ("ls",), ("lt",): offsets up to which they are
    equal; ("ps",), ("pt",): the code points read there."""
    kind = "fn"
    dirs = "f"

    def start(self, e, st, entry):
        self.e = e
        self.p = entry.p
        self.where = drive.last_ins(e.m, entry.fn)
        self.reset(st, self.begin(st, IN), self.begin(st, T))

    def size(self, st, r):
        return st.lin(st.rgn[r])

    def begin(self, st, r):
        return K(0) if self.dirs == "f" else self.size(st, r)

    def end(self, st, r):
        return self.size(st, r) if self.dirs == "f" else K(0)

    def reset(self, st, a, b):
        st.gh["ls"], st.gh["lt"] = st.lin(a), st.lin(b)
        st.gh["ps"] = st.gh["pt"] = "?"

    def upper(self, st, ch):
        ch = st.lin(ch)
        if st.entails_ge(ch + -0x110000):
            return ch
        if not st.entails_ge(K(0x10FFFF) - ch):
            return None
        return content.Content.leaf(self, st, "ystring::to_upper", ch, 0x10FFFF)

    def cmp(self, st, a, b):
        """How the uppercase mappings of a and b compare: 0, 1, -1, "differ" or None."""
        x, y = self.upper(st, a), self.upper(st, b)
        if x is None or y is None:
            return "differ" if self.apart(st, a, b) else None
        d = st.lin(x - y)
        if st.entails_eq(d):
            return 0
        if st.entails_ge(d + -1):
            return 1
        if st.entails_ge(K(-1) - d):
            return -1
        return "differ" if differ(st, x, y) else None

    def apart(self, st, a, b):
        return False

    def pending(self, st, n):
        p = st.gh[n]
        return None if p == "?" else tuple(st.lin(x) for x in p.v[1:])

    def settle(self, e, st):
        self.advance(st)

    def advance(self, st):
        x, y = self.pending(st, "ps"), self.pending(st, "pt")
        if x is None or y is None:
            return
        if self.cmp(st, x[2], y[2]) == 0:
            self.reset(st, x[1], y[1])

    def read(self, st, r, a, q, ch):
        l, p = ("ls", "ps") if r == IN else ("lt", "pt")
        x = self.pending(st, p)
        if x is None:
            if st.entails_eq(st.lin(a - st.gh[l])):
                st.gh[p] = AggV(["p", st.lin(a), st.lin(q), st.lin(ch)])
        elif not st.entails_eq(st.lin(a - x[0])):
            # reading on after a pair that is equal
            self.advance(st)
            if st.gh[p] == "?" and st.entails_eq(st.lin(a - st.gh[l])):
                st.gh[p] = AggV(["p", st.lin(a), st.lin(q), st.lin(ch)])

    def on_decoded(self, e, st, ins, r, a, k, ch, end):
        if self.dirs == "f" and r in (IN, T):
            self.read(st, r, a, a + k, ch)

    def on_prev(self, eng, st, ins, r, a, k, ch, begin, e):
        if self.dirs == "b" and r in (IN, T):
            self.read(st, r, e, a, ch)

    def on_undecoded(self, e, st, ins, r, a, end):
        if self.dirs == "f" and r in (IN, T):
            self.malformed(st, r, a, end)

    def on_unprev(self, eng, st, ins, r, e, begin):
        if self.dirs == "b" and r in (IN, T):
            self.malformed(st, r, e, begin)

    def malformed(self, st, r, a, end):
        self.advance(st)
        l = "ls" if r == IN else "lt"
        if st.entails_eq(st.lin(a - st.gh[l])) and st.entails_eq(st.lin(end - self.end(st, r))):
            st.gh["bad"] = 1

    def left(self, st, r):
        """Whether there is anything left of a text: True, False, or None."""
        l, p = ("ls", "ps") if r == IN else ("lt", "pt")
        if st.gh[p] != "?":
            return True
        d = st.lin(self.end(st, r) - st.gh[l])
        if self.dirs == "b":
            d = d.scale(-1)
        if st.entails_eq(d):
            return False
        if st.entails_ge(d + -1):
            return True
        return None

    def order(self, st):
        """(what is known of s <=> t): 0, 1, -1, "differ", or None."""
        self.advance(st)
        a, b = self.left(st, IN), self.left(st, T)
        if a is False and b is False:
            return 0
        if a is False and b:
            return -1
        if b is False and a:
            return 1
        x, y = self.pending(st, "ps"), self.pending(st, "pt")
        if x is None or y is None:
            return None
        r = self.cmp(st, x[2], y[2])
        return None if r == 0 else r

    def ob(self, st, ok, msg):
        return self.e.check(st, ok, self.kind, self.where, None if ok else msg)

    def at(self, st):
        return "equal up to %s and %s" % (self.e.show(st, st.lin(st.gh["ls"])), self.e.show(st, st.lin(st.gh["lt"])))

    def on_sink(self, e, st, ins, sink, args):
        st.gh["res"] = 1
        getattr(self, "res_" + sink[3:])(st, *args)

    def finish(self, e, outs):
        for kind, v, st in outs:
            if kind == "exc":
                if v.own is not None:
                    self.ob(st, bool(st.gh.get("bad")), "an exception leaves although nothing is wrong with the texts: " + self.at(st))
            else:
                self.ob(st, bool(st.gh.get("res")), "no result is returned")


class Compare(Pairs):
    def res_int(self, st, v):
        o = self.order(st)
        for s, l in self.e.sgn(st, v):
            ok = o == 0 and s.entails_eq(l) or o == 1 and s.entails_ge(l + -1) or o == -1 and s.entails_ge(K(-1) - l)
            self.ob(s, ok, "the result %s does not follow: %s, then %s" % (self.e.show(s, l), self.at(s), o))


class Equal(Pairs):
    def res_bool(self, st, v):
        o = self.order(st)
        ok = o is not None and st.entails_eq(st.lin(v.l + (-1 if o == 0 else 0)))
        self.ob(st, ok, "the result does not follow: %s, then %s" % (self.at(st), o))


class Less(Pairs):
    def res_bool(self, st, v):
        o = self.order(st)
        ok = o in (-1, 0, 1) and st.entails_eq(st.lin(v.l + (-1 if o == -1 else 0)))
        self.ob(st, ok, "the result does not follow: %s, then %s" % (self.at(st), o))


class Within(Pairs):
    """Whether s starts (ends) with t."""

    def res_bool(self, st, v):
        self.advance(st)
        t = self.left(st, T)
        if t is False:
            ok = st.entails_eq(st.lin(v.l + -1))
        else:
            ok = t is True and (self.left(st, IN) is False or self.order(st) in (1, -1, "differ")) \
                and st.entails_eq(st.lin(v.l))
        self.ob(st, ok, "the result does not follow: %s" % self.at(st))


class EndsWithin(Within):
    dirs = "b"


class Find(Pairs):
    """The first (last) place in s from where t is read in step.  ("ow",) is
    the place being tried, where a walk over the code points has come;
    everything before it has been found not to match."""

    def start(self, e, st, entry):
        Pairs.start(self, e, st, entry)
        o = self.origin(st)
        st.gh["ow"] = o
        st.gh["oq"] = "?"          # the end of the code point at ("ow",)
        self.retry(st)

    def cases(self, e, st):
        if self.dirs == "f":
            return [st]
        n, off = self.size(st, IN), st.lin(self.p["off"])
        s = st.copy()
        s.gh["case"] = 1
        s.gh["ow"] = off
        self.retry(s)
        return [x for x, l in ((st, off - n + -1), (s, n - off)) if x.assume_ge(l)]

    def origin(self, st):
        return st.lin(self.p["off"]) if self.dirs == "f" else self.size(st, IN)

    def retry(self, st):
        self.reset(st, st.gh["ow"], self.begin(st, T))
        # the first code point of t need not be read again
        st.gh["pt"] = st.gh.get("t0", "?")

    def advance(self, st):
        for _ in range(3):
            x, y = self.pending(st, "ps"), self.pending(st, "pt")
            if x is not None and st.gh["oq"] == "?" and st.entails_eq(st.lin(x[0] - st.gh["ow"])):
                st.gh["oq"] = x[1]
            fail = False
            if x is not None and y is not None:
                c = self.cmp(st, x[2], y[2])
                if c == 0:
                    self.reset(st, x[1], y[1])
                    continue
                fail = c is not None
            elif self.left(st, IN) is False and st.gh["oq"] != "?":
                # s ends in the middle of a possible match
                fail = self.left(st, T) is True
            if not fail or st.gh["oq"] == "?":
                return
            st.gh["ow"] = st.lin(st.gh["oq"])
            st.gh["oq"] = "?"
            self.retry(st)

    def read(self, st, r, a, q, ch):
        self.advance(st)
        if r == T and "t0" not in st.gh and st.entails_eq(st.lin(a - self.begin(st, T))):
            st.gh["t0"] = AggV(["p", st.lin(a), st.lin(q), st.lin(ch)])
        Pairs.read(self, st, r, a, q, ch)
        self.advance(st)

    def res_range(self, st, off, ln):
        self.advance(st)
        off, ln = st.lin(off.l), st.lin(ln.l)
        t = self.left(st, T)
        if t is False and not st.entails_eq(st.lin(st.gh["lt"] - self.begin(st, T))):
            a, q = st.lin(st.gh["ow"]), st.lin(st.gh["ls"])
            if self.dirs == "b":
                a, q = q, a
            ok = st.entails_eq(st.lin(off - a)) and st.entails_eq(st.lin(ln - q + a))
            self.ob(st, ok, "the range %s, %s is not where the match is: [%s, %s)" % (
                self.e.show(st, off), self.e.show(st, ln), self.e.show(st, a), self.e.show(st, q)))
            return
        over = st.entails_eq(st.lin(self.end(st, IN) - st.gh["ow"])) and st.gh["ps"] == "?"
        empty = st.entails_eq(self.size(st, T))
        self.ob(st, (over or empty) and is_const(st, ln, 0, 64),
                "the result %s, %s does not follow: no match before %s, %s" % (
                    self.e.show(st, off), self.e.show(st, ln), self.e.show(st, st.lin(st.gh["ow"])), self.at(st)))


class FindLast(Find):
    dirs = "b"


MON = {"compare": Compare, "equal": Equal, "less": Less, "starts": Within, "ends": EndsWithin,
       "first": Find, "last": FindLast}
