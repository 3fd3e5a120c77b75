"""Exact searching, as typestate over the places where a text may occur.

eqb(s, p, t, 0, tn) is 1 when the bytes at p of s are those of t.  A place may
be passed over when that is known to be 0; what is returned must be the next
place, where it is known to be 1.  A library search over exactly the right
range is the answer as well (app "srch", "lsrch")."""
from lin import Lin, K
from dom import PtrV
from contracts import app
import drive

S, T = ("in", "s"), ("in", "t")


class Exact:
    kind = "fn"

    def start(self, e, st, entry):
        self.e = e
        self.p = entry.p
        self.where = drive.last_ins(e.m, entry.fn)
        st.gh["at"] = K(0)

    def ob(self, st, ok, msg):
        return self.e.check(st, ok, self.kind, self.where, None if ok else msg)

    def n(self, st):
        return st.lin(self.p["n"])

    def tn(self, st):
        return st.lin(self.p["tn"])

    def eq(self, st, p):
        return st.lin(app("eqb", 0, 1, S, st.lin(p), T, K(0), self.tn(st)))

    def same(self, st, p):
        """True, False or None: whether the text is at p."""
        x = self.eq(st, p)
        if st.entails_eq(self.tn(st)) or st.entails_eq(x + -1):
            return True
        return False if st.entails_eq(x) else None

    def on_sink(self, e, st, ins, sink, args):
        st.gh["res"] = 1
        f = getattr(self, "res_" + sink[3:], None)
        if f is not None:
            f(st, *args)

    def finish(self, e, outs):
        for kind, v, st in outs:
            if kind != "exc":
                self.ob(st, bool(st.gh.get("res")), "no result is returned")
            elif v.own is not None:
                self.ob(st, False, "an exception leaves")


class Starts(Exact):
    def place(self, st):
        return K(0)

    def res_bool(self, st, b):
        b = st.lin(b.l)
        if st.entails_ge(self.tn(st) - self.n(st) + -1):
            same = False
        else:
            same = self.same(st, self.place(st)) if st.entails_ge(self.n(st) - self.tn(st)) else None
        ok = same is not None and st.entails_eq(b + (-1 if same else 0))
        self.ob(st, ok, "the result does not follow from a comparison of the right bytes")


class Ends(Starts):
    def place(self, st):
        return self.n(st) - self.tn(st)


class First(Exact):
    """All places from the offset up to the walker are known not to match."""
    lib = "srch"

    def start(self, e, st, entry):
        Exact.start(self, e, st, entry)
        st.gh["at"] = st.lin(self.origin(st))

    def origin(self, st):
        return self.p["off"]

    def lo(self, st):
        return self.p["off"]

    def hi(self, st):
        return self.n(st)

    def place(self, st):
        return st.lin(st.gh["at"])

    def settle(self, e, st):
        a = self.place(st)
        for _ in range(3):
            if not self.same(st, a) is False:
                break
            a = self.step(st, a)
            st.gh["at"] = a

    def step(self, st, a):
        return st.lin(a + 1)

    def over(self, st):
        """Whether there are no places left."""
        return st.entails_ge(st.lin(self.place(st) + self.tn(st) - self.hi(st) + -1))

    def answer(self, st):
        """What the library says, which is hi when there is nothing."""
        return st.lin(app(self.lib, 0, 1 << 62, S, st.lin(self.lo(st)), st.lin(self.hi(st)), T, K(0), self.tn(st)))

    def absent(self, st, off, ln):
        return st.entails_eq(st.lin(off - self.n(st))) and st.entails_eq(ln)

    def empty(self, st, off, ln):
        return st.entails_eq(st.lin(off - self.place(st))) and st.entails_eq(ln)

    def res_range(self, st, off, ln):
        off, ln = st.lin(off.l), st.lin(ln.l)
        self.settle(self.e, st)
        tn = self.tn(st)
        lib = self.answer(st)
        if st.entails_eq(tn):
            ok = self.empty(st, off, ln)
        elif self.over(st) or st.entails_eq(st.lin(lib - self.hi(st))):
            ok = self.absent(st, off, ln)
        elif not st.entails_ge(tn + -1):
            ok = False
        else:
            ok = st.entails_eq(st.lin(ln - tn)) and (
                st.entails_eq(st.lin(off - lib)) and st.entails_ge(st.lin(self.hi(st) - lib + -1))
                or st.entails_eq(st.lin(off - self.place(st))) and self.same(st, off) is True)
        self.ob(st, ok, "the result (%s, %s) is not the %s occurrence; those up to %s are known" % (
            self.e.show(st, off), self.e.show(st, ln), self.word, self.e.show(st, self.place(st))))
    word = "first"


class Last(First):
    lib = "lsrch"
    word = "last"

    def origin(self, st):
        return self.hi(st) - self.tn(st)

    def lo(self, st):
        return K(0)

    def hi(self, st):
        return st.lin(st.gh.get("lim", self.n(st)))

    def cases(self, e, st):
        # searches start at the offset or at the end
        n, off = self.n(st), st.lin(self.p["off"])
        s = st.copy()
        s.gh["lim"] = off
        s.gh["at"] = st.lin(off - self.tn(st))
        st.gh["lim"] = n
        return [x for x, l in ((st, off - n + -1), (s, n - off)) if x.assume_ge(l)]

    def step(self, st, a):
        return st.lin(a + -1)

    def over(self, st):
        return st.entails_ge(st.lin(-self.place(st) + -1))

    def absent(self, st, off, ln):
        return st.entails_eq(off) and st.entails_eq(ln)

    empty = absent


MON = {"starts": Starts, "ends": Ends, "first": First, "last": Last}
