"""Membership of code points in spans and sets, and the relations between single
code points that ignore case: what the other checks take these functions to be."""
import content
import drive
from content import app
from dom import AggV, Dead, IntV, PtrV
from lin import K

SET = ("b", ("obj", "set"), 0)
NEG = (("obj", "set"), 24)


def upper(st, l):
    """The uppercase mapping as the analysis names it; None if it isn't told
    whether l is a code point."""
    l = st.lin(l)
    if st.entails_ge(l + -0x110000):
        return l
    if not st.entails_ge(K(0x10FFFF) - l):
        return None
    return st.lin(app("ystring::to_upper", 0, 0x10FFFF, l))


def same(st, l):
    return st.lin(l)


def never(st, *ges):
    """Whether the inequalities can't hold together."""
    s = st.copy()
    try:
        for l in ges:
            if not s.assume_ge(s.lin(l)):
                return True
        return not s.feasible()
    except Dead:
        return True


def unsigned(st, v):
    l = st.lin(v.l)
    return K(l.c & ((1 << v.w) - 1)) if not l.t else l


def is_bool(e, st, v, x):
    """Whether the value is known to be x, 0 or 1."""
    return all(s.entails_eq(s.lin(l) + -x) for s, l in e.uns(st.copy(), v))


class Member:
    """True is returned when an element has been found that covers the code
    point, false when every element has been seen not to: elements are passed
    over from either end."""
    region = ("in", "u")
    es = 4
    image = staticmethod(same)
    negated = False

    def start(self, e, st, entry):
        self.e, self.p = e, entry.p
        self.where = drive.last_ins(e.m, entry.fn)
        st.gh["found"] = 0
        st.gh["lo"] = K(0)
        st.gh["hi"] = st.lin(self.size(st))

    def size(self, st):
        return self.p["un"].scale(4)

    def bounds(self, st, l):
        """The images of the first and the last code point of the element at l, as far as known."""
        v = self.e.peek(st, self.region, l, 4)
        x = self.image(st, unsigned(st, v)) if isinstance(v, IntV) else None
        return x, x

    def covers(self, st, l):
        a, b = self.bounds(st, l)
        c = self.image(st, self.p["c"])
        return None not in (a, b, c) and st.entails_ge(st.lin(c - a)) and st.entails_ge(st.lin(b - c))

    def excluded(self, st, l):
        a, b = self.bounds(st, l)
        c = self.image(st, self.p["c"])
        if c is None:
            return False
        ges = ([] if a is None else [c - a]) + ([] if b is None else [b - c])
        return bool(ges) and never(st, *ges)

    def settle(self, e, st):
        if st.gh["found"]:
            return
        if self.found(st):
            st.gh["found"] = 1
            return
        for _ in range(64):
            lo = st.lin(st.gh["lo"])
            if st.entails_ge(st.lin(st.gh["hi"]) - lo + -self.es) and self.excluded(st, lo):
                st.gh["lo"] = st.lin(lo + self.es)
            else:
                break
        for _ in range(64):
            hi = st.lin(st.gh["hi"])
            if st.entails_ge(hi - st.gh["lo"] + -self.es) and self.excluded(st, st.lin(hi + -self.es)):
                st.gh["hi"] = st.lin(hi + -self.es)
            else:
                break

    def found(self, st):
        """Whether some element that has been read covers the code point."""
        for r, l, sz, v in st.memo:
            if r == self.region and sz == 4:
                base = st.lin(l)
                if any(x % self.es for x in base.t.values()):
                    continue
                if self.covers(st, base + -(base.c % self.es)):
                    return True
        return False

    def on_sink(self, e, st, ins, sink, args):
        if sink != "sa_bool":
            return
        self.settle(e, st)
        st.gh["res"] = 1
        if st.gh["found"]:
            val, why = 1, "an element covers the code point"
        elif st.entails_ge(st.lin(st.gh["lo"]) - st.gh["hi"]):
            val, why = 0, "no element covers the code point"
        else:
            self.ob(st, False, "the answer is given when elements [%s, %s) have not been looked at and none "
                    "of the others covers the code point" % (e.show(st, st.lin(st.gh["lo"])),
                                                              e.show(st, st.lin(st.gh["hi"]))))
            return
        neg = st.mem[NEG][1].l if self.negated else K(0)
        for n in (0, 1):
            s = st.copy()
            try:
                if not s.assume_eq(s.lin(neg) + -n) or not s.feasible():
                    continue
            except Dead:
                continue
            self.ob(s, is_bool(e, s, args[0], val ^ n), "the wrong answer is given: %s%s" % (why, ", and the set is negated" if n else ""))

    def ob(self, st, ok, msg):
        return self.e.check(st, ok, "fn", self.where, None if ok else msg)

    def finish(self, e, outs):
        for kind, v, st in outs:
            self.ob(st, kind == "ret" and bool(st.gh.get("res")), "no answer is given")


def by_code_point(self, e, st):
    """Code points and other values are told apart from the start."""
    out = []
    for code in (0, 1):
        s = st.copy()
        if s.assume_ge(s.lin(K(0x10FFFF) - self.p["c"] if code else self.p["c"] + -0x110000)):
            s.gh["code"] = code
            out.append(s)
    return out


class MemberCi(Member):
    image = staticmethod(upper)
    cases = by_code_point


class MemberSet(Member):
    region = SET
    es = 8
    negated = True

    def size(self, st):
        return self.p["setlen"].scale(8)

    def bounds(self, st, l):
        out = []
        for off in (0, 4):
            v = self.e.peek(st, self.region, l + off, 4)
            out.append(self.image(st, unsigned(st, v)) if isinstance(v, IntV) else None)
        return out


class MemberSetCi(MemberSet):
    image = staticmethod(upper)
    cases = by_code_point


class Relation:
    """What two code points' relation must be, from their uppercase mappings."""

    def start(self, e, st, entry):
        self.e, self.p = e, entry.p
        self.where = drive.last_ins(e.m, entry.fn)

    def right(self, st, d, v):
        """Whether the answer v is right when the difference of the mappings is d."""
        raise NotImplementedError

    def on_sink(self, e, st, ins, sink, args):
        if sink not in ("sa_bool", "sa_int"):
            return
        st.gh["res"] = 1
        a, b = upper(st, self.p["a"]), upper(st, self.p["b"])
        if a is None or b is None:
            self.ob(st, False, "an answer is given without looking at the uppercase mappings")
            return
        v = args[0]
        for sign in (-1, 0, 1):
            s = st.copy()
            d = a - b
            try:
                ok = s.assume_eq(s.lin(d)) if not sign else s.assume_ge(s.lin(d.scale(sign)) + -1)
                if not ok or not s.feasible():
                    continue
            except Dead:
                continue
            self.ob(s, self.right(s, sign, v), "the wrong answer %s is given when the uppercase mapping of the first "
                    "code point is %s the second's" % (e.show(s, s.lin(v.l)), ("equal to", "greater than", "less than")[sign]))

    def ob(self, st, ok, msg):
        return self.e.check(st, ok, "fn", self.where, None if ok else msg)

    def finish(self, e, outs):
        for kind, v, st in outs:
            self.ob(st, kind == "ret" and bool(st.gh.get("res")), "no answer is given")


class Equal(Relation):
    def right(self, st, d, v):
        return is_bool(self.e, st, v, int(d == 0))


class Less(Relation):
    def right(self, st, d, v):
        return is_bool(self.e, st, v, int(d < 0))


class Compare(Relation):
    """The sign of the result, as a signed number; only code points are compared in this way."""

    def cases(self, e, st):
        for x in ("a", "b"):
            st.assume_ge(K(0x10FFFF) - self.p[x])
        return [st]

    def right(self, st, d, v):
        for s, x in self.e.sgn(st.copy(), v):
            x = s.lin(x)
            if not (s.entails_ge(x + -1) if d > 0 else s.entails_ge((-x) + -1) if d < 0 else s.entails_eq(x)):
                return False
        return True


class Add:
    """The set gains exactly the wanted code points: by new elements, or by an
    element that grows by one (elements are in order and don't end in the largest
    32-bit value, which isn't a code point)."""

    def start(self, e, st, entry):
        self.e, self.p = e, entry.p
        self.where = drive.last_ins(e.m, entry.fn)
        st.gh["w"] = K(0)
        st.gh["neg"] = st.lin(st.mem[NEG][1].l)

    def wanted(self, st, w):
        """The range to add at progress w, as (first, last), or None."""
        return (self.p["a"], self.p["b"] if "b" in self.p else self.p["a"])

    def total(self, st):
        return K(4)

    def gain(self, st, a, b):
        if st.gh["w"] == "?":
            return
        x = self.wanted(st, st.lin(st.gh["w"]))
        ok = x is not None and st.entails_ge(st.lin(self.total(st)) - st.gh["w"] + -4) \
            and st.entails_eq(st.lin(x[0] - a)) and st.entails_eq(st.lin(x[1] - b))
        self.ob(st, ok, "[%s, %s] is added to the set, which isn't what is wanted next" % (
            self.e.show(st, st.lin(a)), self.e.show(st, st.lin(b))))
        if ok:
            st.gh["w"] = st.lin(st.gh["w"] + 4)

    def on_vecadd(self, e, st, ins, key, idx, elem):
        if key == SET[1:]:
            v = [unsigned(st, elem[o][1]) if o in elem and isinstance(elem[o][1], IntV) else None for o in (0, 4)]
            if None in v:
                self.ob(st, False, "an unknown range is added to the set")
            else:
                self.gain(st, *v)

    def on_vecpop(self, e, st, ins, key):
        self.ob(st, key != SET[1:], "a range is removed from the set")

    def on_store(self, e, st, ins, p, v, size):
        if p.r == NEG[0]:
            self.ob(st, False, "the set is changed in an unknown way")
        if p.r != SET:
            return
        l = st.lin(p.l)
        old = e.peek(st, SET, l, 4)
        whole = isinstance(v, IntV) and isinstance(old, IntV) and size == 4 and not any(x % 8 for x in l.t.values())
        if whole:
            old, new = unsigned(st, old), unsigned(st, v)
            if l.c % 8 == 4:
                try:
                    if not st.assume_ge(K(0xFFFFFFFE) - old):
                        st.gh["w"] = "?"
                except Dead:
                    st.gh["w"] = "?"
                if st.gh["w"] == "?":
                    return
            if st.entails_eq(st.lin(new - old) + -(1 if l.c % 8 == 4 else -1)):
                self.gain(st, new, new)
                return
        self.ob(st, False, "a range of the set is changed other than by its neighbour")

    def ob(self, st, ok, msg):
        return self.e.check(st, ok, "fn", self.where, None if ok else msg)

    def finish(self, e, outs):
        for kind, v, st in outs:
            if kind == "exc" and v.own is None:
                continue
            w = st.gh["w"]
            self.ob(st, kind == "ret" and (w == "?" or st.entails_eq(st.lin(w) - self.total(st))),
                    "the function ends before everything has been added")
            neg = st.mem.get(NEG)
            self.ob(st, neg is not None and isinstance(neg[1], IntV)
                    and st.entails_eq(st.lin(neg[1].l) - self.neg0(st)), "the set's negation is changed")

    def neg0(self, st):
        return st.lin(st.gh["neg"])


class AddAll(Add):
    def wanted(self, st, w):
        v = self.e.peek(st, ("in", "u"), w, 4)
        if not isinstance(v, IntV):
            return None
        x = unsigned(st, v)
        return x, x

    def total(self, st):
        return self.p["un"].scale(4)


MON = {"span": Member, "span_ci": MemberCi, "set": MemberSet, "set_ci": MemberSetCi,
       "equal": Equal, "less": Less, "compare": Compare, "add": Add, "add_all": AddAll}
