"""Walks over the code points of a text, as typestate.

A walker stands at an offset w of the text.  Decoding at w gives a pending
code point [a, q); the walker moves on to q when the pending code point is
known to be of a kind that is passed over.  Functions that look for something
must return the pending code point when it is what they look for, and may
report that there is nothing only when the walker has reached the end."""
import loops
from lin import Lin, K, iv_and, iv_elems, iv_norm, iv_sub
from dom import IntV, PtrV, AggV, Dead
from contracts import app
import drive

IN = ("in", "s")
NPOS = (1 << 64) - 1
INVALID = 0xFFFFFFFF


def true(st, c):
    """The condition c, as (Lin 0/1, wanted value) or a bool."""
    if isinstance(c, bool):
        return c
    l, v = c
    return st.entails_eq(st.lin(l) + -v)


def false(st, c):
    if isinstance(c, bool):
        return not c
    l, v = c
    return st.entails_eq(st.lin(l) + -(1 - v))


class Walk:
    """One walker, forward ("f") or backward ("b")."""
    kind = "fn"
    dirs = "f"
    region = IN

    def start(self, e, st, entry):
        self.e = e
        self.p = entry.p
        self.where = drive.last_ins(e.m, entry.fn)
        for d in self.dirs:
            st.gh[("w", d)] = st.lin(self.origin(st, d))
            st.gh[("p", d)] = "?"
        self.begin(e, st)

    def begin(self, e, st):
        pass

    def size(self, st):
        return st.lin(st.rgn[self.region])

    def origin(self, st, d):
        return K(0) if d == "f" else self.size(st)

    def limit(self, st, d):
        """Where the walk ends."""
        return self.size(st) if d == "f" else K(0)

    # -- what is passed over
    def passes(self, st, d, ch, a, q):
        """Whether the pending code point is known to be passed over."""
        raise NotImplementedError

    def passed(self, st, d, a, q):
        """The walker moves from a to q (in the direction of the walk)."""

    # -- events
    def w(self, st, d):
        return st.lin(st.gh[("w", d)])

    def here(self, st, d, a):
        return st.entails_eq(st.lin(a - self.w(st, d)))

    def pend(self, st, d):
        """(a, q, ch) in the direction of the walk, or None."""
        p = st.gh[("p", d)]
        return None if p == "?" else tuple(st.lin(x) for x in p.v[1:])

    def settle(self, e, st):
        for d in self.dirs:
            self.advance(st, d)

    def advance(self, st, d):
        x = self.pend(st, d)
        if x is None:
            return False
        a, q, ch = x
        if not self.passes(st, d, ch, a, q):
            return False
        st.gh[("p", d)] = "?"
        self.passed(st, d, a, q)
        st.gh[("w", d)] = st.lin(q)
        return True

    def unit(self, st, d, a, q, ch):
        x = self.pend(st, d)
        if x is not None:
            if st.entails_eq(st.lin(a - x[0])):
                return
            self.advance(st, d)
        if self.pend(st, d) is None and self.here(st, d, a):
            st.gh[("p", d)] = AggV(["p", st.lin(a), st.lin(q), st.lin(ch)])
            self.seen(st, d)

    def seen(self, st, d):
        pass

    def on_decoded(self, e, st, ins, r, a, k, ch, end):
        if r == self.region and "f" in self.dirs:
            self.unit(st, "f", a, a + k, ch)

    def on_prev(self, eng, st, ins, r, a, k, ch, begin, e):
        if r == self.region and "b" in self.dirs:
            self.unit(st, "b", e, a, ch)

    def on_unprev(self, eng, st, ins, r, e, begin):
        if r == self.region and "b" in self.dirs:
            self.malformed(st, "b", e, begin)

    def on_undecoded(self, e, st, ins, r, a, end):
        if r == self.region and "f" in self.dirs:
            self.malformed(st, "f", a, end)

    def malformed(self, st, d, a, end):
        self.advance(st, d)
        if self.pend(st, d) is None and self.here(st, d, a) \
                and st.entails_eq(st.lin(end - self.limit(st, d))):
            st.gh["bad"] = d

    def ob(self, st, ok, msg):
        return self.e.check(st, ok, self.kind, self.where, None if ok else msg)

    def at(self, st, d):
        x = self.pend(st, d)
        w = self.w(st, d)
        s = "the walk has reached offset %s" % (self.e.show(st, w))
        if x is not None:
            s += " and has the code point [%s, %s) pending" % (self.e.show(st, x[0]), self.e.show(st, x[1]))
        return s

    def done(self, st, d):
        """The walk is over: nothing is left and nothing is pending."""
        self.advance(st, d)
        return self.pend(st, d) is None and self.here(st, d, self.limit(st, d))

    def on_sink(self, e, st, ins, sink, args):
        for d in self.dirs:
            self.advance(st, d)
        st.gh["res"] = 1
        f = getattr(self, "res_" + sink[3:], None)
        if f is not None:
            f(st, *args)

    def finish(self, e, outs):
        for kind, v, st in outs:
            if kind == "exc":
                if v.own is None:
                    continue
                self.ob(st, bool(st.gh.get("bad")) or self.may_throw(st),
                        "an exception leaves although nothing is wrong with what has been read of the text: "
                        + "; ".join(self.at(st, d) for d in self.dirs))
            else:
                self.ob(st, bool(st.gh.get("res")), "no result is returned")

    def may_throw(self, st):
        return False



# ---------------------------------------------------------------- searching

class Find(Walk):
    """Finds the first (last) code point that satisfies the condition."""

    def cond(self, st, ch):
        """(Lin, wanted value) such that the code point is wanted when they are equal."""
        raise NotImplementedError

    def passes(self, st, d, ch, a, q):
        return false(st, self.cond(st, ch))

    def hit(self, st):
        """(a, q, ch) of the pending code point if it is what is looked for."""
        d = self.dirs
        x = self.pend(st, d)
        if x is None or not true(st, self.cond(st, x[2])):
            return None
        return (x[0], x[1], x[2]) if d == "f" else (x[1], x[0], x[2])


class FindRange(Find):
    """... and returns its range and value, or npos, empty and the invalid value."""

    def res_range(self, st, off, ln):
        st.gh["range"] = AggV(["r", st.lin(off.l), st.lin(ln.l)])

    def res_char(self, st, c):
        off, ln = st.gh["range"].v[1:]
        h = self.hit(st)
        if h is not None:
            ok = st.entails_eq(st.lin(off - h[0])) and st.entails_eq(st.lin(ln - h[1] + h[0])) \
                and st.entails_eq(st.lin(c.l - h[2]))
            self.ob(st, ok, "the code point that was found is not what is returned (%s, %s)" % (
                self.e.show(st, off), self.e.show(st, ln)))
            return
        ok = self.done(st, self.dirs)
        self.ob(st, ok, "the result is not the first match: " + self.at(st, self.dirs))
        self.ob(st, is_const(st, off, NPOS, 64) and is_const(st, ln, 0, 64) and is_const(st, c.l, INVALID, 32),
                "something is returned when there is no match")


def is_const(st, l, v, w):
    l = st.lin(l)
    return not l.t and (l.c - v) % (1 << w) == 0 or st.entails_eq(l + -v) or \
        v >= 1 << (w - 1) and st.entails_eq(l + ((1 << w) - v))


def cond_pred(self, st, ch):
    return app("sa_pred", 0, 1, ch), 1


def cond_of(name):
    def f(self, st, ch):
        return app(name, 0, 1, ("in", "u"), K(0), st.lin(self.p["un"]), ch), 1
    return f


def cond_set(name):
    def f(self, st, ch):
        return app(name, 0, 1, "set", ch), 1
    return f


def make(base, cond_, dirs_="f"):
    class W(base):
        cond = cond_
        dirs = dirs_

        def origin(self, st, d):
            if d == "f":
                return self.p.get("off", K(0))
            return self.size(st)

        def cases(self, e, st):
            if self.dirs != "b" or "off" not in self.p:
                return [st]
            # backward searches start at the offset or at the end
            n, off = self.size(st), st.lin(self.p["off"])
            s = st.copy()
            s.gh["case"] = 1
            s.gh[("w", "b")] = off
            return [x for x, l in ((st, off - n + -1), (s, n - off)) if x.assume_ge(l)]
    return W


class Contains(Find):
    def res_bool(self, st, b):
        if self.hit(st) is not None:
            self.ob(st, st.entails_eq(st.lin(b.l) + -1), "false is returned although the code point was found")
        else:
            ok = self.done(st, "f") and st.entails_eq(st.lin(b.l))
            self.ob(st, ok, "the result does not follow from the text: " + self.at(st, "f"))


def differ(st, a, b):
    """Whether a and b cannot be equal."""
    s = st.copy()
    try:
        return not s.assume_eq(s.lin(a) - s.lin(b)) or not s.feasible()
    except Dead:
        return True


class ContainsChar(Contains):
    def passes(self, st, d, ch, a, q):
        return differ(st, ch, self.p["c"])

    def hit(self, st):
        x = self.pend(st, "f")
        return x if x is not None and st.entails_eq(st.lin(x[2] - self.p["c"])) else None


NL = iv_norm([(10, 13), (0x85, 0x85), (0x2028, 0x2029)])


class Newline(Find):
    """CR LF is one newline, also when it is found from its end."""

    def passes(self, st, d, ch, a, q):
        return not iv_and(loops.img(st, ch), NL)

    def hit(self, st):
        x = self.pend(st, self.dirs)
        if x is None or iv_sub(loops.img(st, x[2]), NL):
            return None
        return x

    def malformed(self, st, d, a, end):
        h = self.hit(st)
        if h is not None and st.entails_eq(st.lin(a - h[1])):
            st.gh["bad"] = d
        else:
            Find.malformed(self, st, d, a, end)

    def unit(self, st, d, a, q, ch):
        h = self.hit(st)
        if h is not None and st.entails_eq(st.lin(a - h[1])):
            st.gh["nxt"] = AggV(["nxt", st.lin(a), st.lin(ch), st.lin(q)])
        else:
            Find.unit(self, st, d, a, q, ch)

    def beyond(self, st, d, q):
        """The values that the byte beyond q may have; None at the end of the text."""
        x = st.gh.get("nxt")
        if x is not None and st.entails_eq(st.lin(x.v[1] - q)):
            return loops.img(st, st.lin(x.v[2]))
        if d == "f":
            if st.entails_eq(st.lin(self.size(st) - q)):
                return None
            v = self.e.peek(st, IN, q, 1)
        else:
            if st.entails_eq(q):
                return None
            v = self.e.peek(st, IN, st.lin(q + -1), 1)
        if not isinstance(v, IntV):
            return ((0, 255),)
        S = loops.img(st, st.lin(v.l))
        return iv_norm([(x & 255, x & 255) for x in iv_elems(S)]) if len(S) < 4 and all(b - a < 300 for a, b in S) else ((0, 255),)

    def res_range(self, st, off, ln):
        d = self.dirs
        off, ln = st.lin(off.l), st.lin(ln.l)
        h = self.hit(st)
        if h is None:
            ok = self.done(st, d) and is_const(st, ln, 0, 64)
            self.ob(st, ok, "the result does not follow from the text: " + self.at(st, d))
            return
        a, q, ch = h
        first, second = (13, 10) if d == "f" else (10, 13)
        S = loops.img(st, ch)
        two = iv_and(S, ((first, first),))
        if two:
            B = self.beyond(st, d, q)
            if B is None or not iv_and(B, ((second, second),)):
                two = False
            elif iv_sub(B, ((second, second),)) or S != ((first, first),):
                self.ob(st, False, "a newline is returned without it being known whether it is CR LF (%s, %s)" % (S, B))
                return
        if two:
            x = st.gh.get("nxt")
            if x is not None and st.entails_eq(st.lin(x.v[1] - q)):
                # what is below 128 is a single byte (C01)
                st.assume_eq(x.v[3] - x.v[1] + (-1 if d == "f" else 1))
                q = st.lin(x.v[3])
            else:
                q = st.lin(q + (1 if d == "f" else -1))
        lo, hi = (a, q) if d == "f" else (q, a)
        self.ob(st, st.entails_eq(st.lin(off - lo)) and st.entails_eq(st.lin(ln - hi + lo)),
                "the range that is returned is not the newline's: %s, %s instead of [%s, %s)" % (
                    self.e.show(st, off), self.e.show(st, ln), self.e.show(st, lo), self.e.show(st, hi)))


class Count(Walk):
    """Counts code points; skipping what is malformed as well."""

    def begin(self, e, st):
        st.gh["cnt"] = K(0)

    def passes(self, st, d, ch, a, q):
        return True

    def passed(self, st, d, a, q):
        st.gh["cnt"] = st.lin(st.gh["cnt"] + 1)

    def seen(self, st, d):
        self.advance(st, d)

    def on_skipped(self, e, st, ins, r, a, p, end):
        if r == IN and st.entails_eq(st.lin(end - self.limit(st, "f"))):
            self.unit(st, "f", a, p, K(0))

    def on_skippedback(self, eng, st, ins, r, e, p, begin):
        if r == IN and "b" in self.dirs and st.entails_eq(st.lin(begin - self.limit(st, "b"))):
            self.unit(st, "b", e, p, K(0))

    def res_size(self, st, v):
        ok = self.done(st, "f") and st.entails_eq(st.lin(v.l - st.gh["cnt"]))
        self.ob(st, ok, "the result %s is not the number of steps, %s: %s" % (
            self.e.show(st, st.lin(v.l)), self.e.show(st, st.lin(st.gh["cnt"])), self.at(st, "f")))


class Valid(Walk):
    def passes(self, st, d, ch, a, q):
        return True

    def seen(self, st, d):
        self.advance(st, d)

    def res_bool(self, st, b):
        b = st.lin(b.l)
        if st.gh.get("bad"):
            ok = st.entails_eq(b)
        else:
            ok = self.done(st, "f") and st.entails_eq(b + -1)
        self.ob(st, ok, "the result does not follow from the text: " + self.at(st, "f"))


class Trim(Walk):
    """What is left between the outermost code points that do not match."""

    def passes(self, st, d, ch, a, q):
        return true(st, self.cond(st, ch))

    def kept(self, st, d):
        """(a, q) of the code point that stays, or None."""
        x = self.pend(st, d)
        if x is None or not false(st, self.cond(st, x[2])):
            return None
        return x[:2]

    def limit(self, st, d):
        if d == "b" and "f" in self.dirs:
            x = self.kept(st, "f")
            if x is not None:
                return x[0]
        return Walk.limit(self, st, d)

    def res_view(self, st, p, ln):
        ln = st.lin(ln.l)
        lo, hi = K(0), self.size(st)
        ok = True
        for d in self.dirs:
            x = self.kept(st, d)
            if x is None:
                # everything has been passed
                ok = ok and self.done(st, d)
                lo = hi
                break
            if d == "f":
                lo = x[0]
            else:
                hi = x[0]
        if st.entails_eq(ln):
            ok = ok and st.entails_eq(st.lin(hi - lo))
        else:
            ok = ok and p.r == IN and st.entails_eq(st.lin(p.l - lo)) and st.entails_eq(st.lin(ln - hi + lo))
        self.ob(st, ok, "the result [%s, +%s) is not [%s, %s); %s" % (
            self.e.show(st, st.lin(p.l)), self.e.show(st, ln), self.e.show(st, lo), self.e.show(st, hi),
            "; ".join(self.at(st, d) for d in self.dirs)))


COMMON = iv_norm([(9, 10), (13, 13), (32, 32)])


class TrimSet(Trim):
    """... of the common whitespace characters."""

    def passes(self, st, d, ch, a, q):
        return not iv_sub(loops.img(st, ch), COMMON)

    def kept(self, st, d):
        x = self.pend(st, d)
        if x is None or iv_and(loops.img(st, x[2]), COMMON):
            return None
        return x[:2]


MON = {
    "trim": make(Trim, cond_of("contains"), "fb"),
    "trim_start": make(Trim, cond_of("contains"), "f"),
    "trim_end": make(Trim, cond_of("contains"), "b"),
    "trim_where": make(Trim, cond_pred, "fb"),
    "trim_start_where": make(Trim, cond_pred, "f"),
    "trim_end_where": make(Trim, cond_pred, "b"),
    "trim_default": make(TrimSet, None, "fb"),
    "trim_start_default": make(TrimSet, None, "f"),
    "trim_end_default": make(TrimSet, None, "b"),
    "first_newline": make(Newline, None),
    "last_newline": make(Newline, None, "b"),
    "count": Count,
    "valid": Valid,
    "contains": make(ContainsChar, None),
    "first_where": make(FindRange, cond_pred),
    "last_where": make(FindRange, cond_pred, "b"),
    "first_of": make(FindRange, cond_of("contains")),
    "last_of": make(FindRange, cond_of("contains"), "b"),
    "ci_first_of": make(FindRange, cond_of("ci_contains")),
    "ci_last_of": make(FindRange, cond_of("ci_contains"), "b"),
    "first_set": make(FindRange, cond_set("set_contains")),
    "last_set": make(FindRange, cond_set("set_contains"), "b"),
    "ci_first_set": make(FindRange, cond_set("set_ci_contains")),
    "ci_last_set": make(FindRange, cond_set("set_ci_contains"), "b"),
}
