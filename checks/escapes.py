"""Searching for bytes to escape and for escape sequences, and unescaping one
character."""
import contracts
import drive
import loops
from content import app
from dom import AggV, Dead, IntV, PtrV
from lin import K, iv_and, iv_norm, iv_sub
from sets import is_bool, never, unsigned
from walks import IN

JSON = iv_norm([(0, 31), (34, 34), (92, 92)])
BACKSLASH = iv_norm([(92, 92)])
HEX = iv_norm([(48, 57), (65, 70), (97, 102)])
OCT = iv_norm([(48, 55)])
ASCII = iv_norm([(0, 127)])
# letters that start sequences of digits -> (most digits, fewest digits)
DIGITS = {"x": (1 << 62, 2), "u": (4, 4), "U": (8, 8)}


class Bytes:
    """The bytes before "lo" are known not to be wanted."""
    kind = "fn"
    special = BACKSLASH

    def start(self, e, st, entry):
        self.e, self.p = e, entry.p
        self.where = drive.last_ins(e.m, entry.fn)
        st.gh["lo"] = st.lin(self.p.get("off", K(0)))
        st.gh["dead"] = 0
        self.begin(e, st)

    def begin(self, e, st):
        pass

    def byte(self, st, l):
        """The values that the byte at l may have, None if it isn't known."""
        v = self.e.peek(st, IN, st.lin(l), 1)
        return loops.img(st, unsigned(st, v)) if isinstance(v, IntV) else None

    def outside(self, st, l, S):
        v = self.byte(st, l)
        return v is not None and not iv_and(v, S)

    def inside(self, st, l, S):
        v = self.byte(st, l)
        return v is not None and not iv_sub(v, S)

    def n(self, st):
        return st.lin(st.rgn[IN])

    def settle(self, e, st):
        for _ in range(64):
            lo = st.lin(st.gh["lo"])
            if not self.outside(st, lo, self.special):
                break
            st.gh["lo"] = st.lin(lo + 1)

    def on_memchr(self, e, st, ins, p, n, c, found):
        self.settle(e, st)
        if p.r != IN or not isinstance(c, IntV) or c.l.t or iv_norm([(c.l.c & 255,) * 2]) != self.special \
                or not st.entails_ge(st.lin(st.gh["lo"] - p.l)):
            return
        if found is None:
            st.gh["lo"] = st.lin(p.l + n)
        else:
            st.gh["lo"] = st.lin(p.l + found)

    def hit(self, st):
        self.settle(self.e, st)
        return self.inside(st, st.gh["lo"], self.special)

    def none(self, st):
        self.settle(self.e, st)
        return st.entails_eq(st.lin(self.n(st) - st.gh["lo"]))

    def known(self, st, l):
        """l >= 0 follows from what has been read; a state without it can't be."""
        try:
            if not st.assume_ge(st.lin(l)):
                st.gh["dead"] = 1
        except Dead:
            st.gh["dead"] = 1

    def ob(self, st, ok, msg):
        if st.gh["dead"]:
            return True
        return self.e.check(st, ok, self.kind, self.where, None if ok else msg)

    def state(self, st):
        return "the bytes before offset %s have been passed over, of %s" % (
            self.e.show(st, st.lin(st.gh["lo"])), self.e.show(st, self.n(st)))

    def length(self, st):
        """The length of what was found."""
        return K(1)

    def on_sink(self, e, st, ins, sink, args):
        if sink == "sa_range":
            off, ln = (st.lin(x.l) for x in args)
            want = self.want(st)
            if want is not None:
                self.ob(st, st.entails_eq(st.lin(off - want[0])) and st.entails_eq(st.lin(ln - want[1])),
                        "the range is %s, length %s, instead of %s, length %s" % tuple(
                            e.show(st, st.lin(x)) for x in (off, ln) + want))
        elif sink == "sa_bool":
            want = self.want(st)
            if want is not None:
                v = 1 if st.entails_ge(want[1] + -1) else 0
                self.ob(st, is_bool(e, st, args[0], v), "the wrong answer is given: %s" % self.state(st))
        else:
            return
        st.gh["res"] = 1

    def want(self, st):
        if self.none(st):
            return self.n(st), K(0)
        if self.hit(st):
            k = self.length(st)
            if k is not None:
                return st.lin(st.gh["lo"]), st.lin(k)
        self.ob(st, False, "the result does not follow from the text: " + self.state(st))
        return None

    def finish(self, e, outs):
        for kind, v, st in outs:
            if kind == "exc":
                if v.own is not None:
                    self.ob(st, self.may_throw(st), "an exception leaves although nothing is wrong with the text: "
                            + self.state(st))
            else:
                self.ob(st, bool(st.gh.get("res")), "no result is returned")

    def may_throw(self, st):
        return False


class Escapable(Bytes):
    special = JSON


class Escaped(Bytes):
    """The escape sequence at "lo" goes on to "run" at least."""

    def begin(self, e, st):
        st.gh["kind"] = "?"
        st.gh["run"] = "?"
        st.gh["pend"] = "?"
        st.gh["stop"] = 0
        # whether the longest sequence would fit in the text, as far as known
        st.gh["fits"] = "?"

    def shape(self, st):
        """(kind, digits, most, fewest) of the sequence; None if it isn't known."""
        lo = st.lin(st.gh["lo"])
        k = st.gh["kind"]
        if k == "?":
            t = lo + 1
            if st.entails_eq(st.lin(self.n(st) - t)):
                k = "end"
            else:
                for name, S in (("x", "xX"), ("u", "u"), ("U", "U"), ("oct", OCT), ("other", None), ("bad", None)):
                    if name == "other":
                        S = iv_sub(ASCII, iv_norm([(ord(c),) * 2 for c in "xXuU"] + list(OCT)))
                    elif name == "bad":
                        S = iv_norm([(128, 255)])
                    elif isinstance(S, str):
                        S = iv_norm([(ord(c),) * 2 for c in S])
                    if self.inside(st, t, S):
                        k = name
        if k == "?":
            return None
        if k == "oct":
            return k, OCT, 3, 1
        if k in DIGITS:
            return (k, HEX) + DIGITS[k]
        return k, None, 0, 0

    def settle(self, e, st):
        Bytes.settle(self, e, st)
        if st.gh["run"] == "?":
            if not self.inside(st, st.gh["lo"], BACKSLASH):
                return
            x = self.shape(st)
            if x is None:
                return
            st.gh["kind"] = x[0]
            st.gh["run"] = st.lin(st.gh["lo"] + (1 if x[0] == "oct" else 2))
        x = self.shape(st)
        if x[1] is None:
            return
        # holds of every position that digits have been seen up to
        self.known(st, self.n(st) - st.gh["run"])
        if x[2] < 100:
            self.known(st, self.cap(st, x) - st.gh["run"])
            if st.gh["fits"] == "?":
                d = st.lin(self.n(st) - self.cap(st, x))
                if st.entails_ge(d) or st.entails_ge(-d):
                    st.gh["fits"] = int(st.entails_ge(d))
        if st.gh["pend"] != "?" and self.advance(st, x):
            st.gh["pend"] = "?"
        if e.contradictory(st):
            st.gh["dead"] = 1
        if not st.gh["stop"] and self.stopped(st, x):
            st.gh["stop"] = 1
            if x[0] == "oct":
                # the first digit has been seen
                self.known(st, st.gh["run"] - st.gh["lo"] + -2)

    def advance(self, st, x):
        run = st.lin(st.gh["run"])
        if not self.inside(st, run, x[1]) or x[2] < 100 and not st.entails_ge(st.lin(self.cap(st, x) - run) + -1):
            return False
        st.gh["run"] = st.lin(run + 1)
        return True

    def all(self, st):
        """All digits that have been seen."""
        self.settle(self.e, st)
        if st.gh["run"] != "?" and self.shape(st)[1] is not None:
            for _ in range(16):
                if not self.advance(st, self.shape(st)):
                    break

    def on_read(self, e, st, ins, r, l, size):
        """A digit counts once it has been read as such, so that the position
        goes along with the one that the function keeps."""
        if r != IN or size != 1:
            return
        self.settle(e, st)
        if st.gh["run"] == "?" or self.shape(st)[1] is None:
            return
        while st.entails_ge(st.lin(l - st.gh["run"]) + -1):
            if not self.advance(st, self.shape(st)):
                break
        if st.entails_eq(st.lin(l - st.gh["run"])):
            st.gh["pend"] = 1

    def cap(self, st, x):
        return st.lin(st.gh["lo"] + (1 if x[0] == "oct" else 2) + x[2])

    def stopped(self, st, x):
        """Whether the digits are known to end at "run"."""
        if st.gh["stop"]:
            return True
        run = st.lin(st.gh["run"])
        return st.entails_eq(st.lin(self.n(st) - run)) or self.outside(st, run, x[1]) \
            or x[2] < 100 and st.entails_eq(st.lin(self.cap(st, x) - run))

    def length(self, st):
        self.all(st)
        if st.gh["run"] == "?":
            return None
        x = self.shape(st)
        if x[0] in ("end", "bad"):
            return None
        k = st.lin(st.gh["run"] - st.gh["lo"])
        if x[0] == "other":
            return K(2)
        first = 1 if x[0] == "oct" else 2
        return k if self.stopped(st, x) and st.entails_ge(k + -first + -x[3]) else None

    def may_throw(self, st):
        self.all(st)
        if st.gh["run"] == "?":
            return False
        x = self.shape(st)
        if x[0] in ("end", "bad"):
            return True
        if x[1] is None:
            return False
        k = st.lin(st.gh["run"] - st.gh["lo"])
        first = 1 if x[0] == "oct" else 2
        return self.stopped(st, x) and st.entails_ge(K(first + x[3] - 1) - k)

    def state(self, st):
        r = st.gh["run"]
        return Bytes.state(self, st) + ("" if r == "?" else "; kind %s, up to offset %s" % (
            st.gh["kind"], self.e.show(st, st.lin(r))))


LETTERS = {"a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11}
DID = ("obj", "did")
NEXT = iv_norm([(10, 10)])


class UnescapeNext(Bytes):
    """Escaped line ends before "lo" have been skipped.  Then there is one
    character, or one escape sequence, or the end of the text."""

    def begin(self, e, st):
        st.gh["q"] = "?"

    def settle(self, e, st):
        for _ in range(64):
            lo = st.lin(st.gh["lo"])
            if not self.inside(st, lo, BACKSLASH) or not self.inside(st, lo + 1, NEXT):
                break
            st.gh["lo"] = st.lin(lo + 2)

    def on_memchr(self, e, st, ins, p, n, c, found):
        pass

    def decoded(self, st, p, did):
        if self.inside(st, p, ASCII):
            return unsigned(st, self.e.peek(st, IN, st.lin(p), 1)), st.lin(p + 1), did
        ok = app("decok", 0, 1, IN, st.lin(p), self.n(st))
        if st.entails_eq(st.lin(ok)):
            return "throw"
        if not st.entails_eq(st.lin(ok) + -1):
            return None
        ch, k = contracts.cps(self.e, st, IN, st.lin(p))
        return st.lin(ch), st.lin(p + k), did

    def number(self, st, p, most, base, fewest):
        """(value, end) of the digits at p."""
        n = self.n(st)
        if st.entails_ge(st.lin(n - p) + -most):
            w = K(most)
        elif st.entails_ge(st.lin(p - n) + most):
            w = st.lin(n - p)
        else:
            return None
        key = (IN, st.lin(p), w, base, 32)
        d = st.lin(app("fcdigits", 0, 1 << 62, *key))
        fits = st.lin(app("fcfits", 0, 1, *key))
        self.known(st, w - d)
        if st.entails_ge(K(fewest - 1) - d) or st.entails_eq(fits):
            return "throw"
        # more digits than always fit are needed for a number that doesn't
        if not st.entails_ge(d + -fewest) or most * (base - 1).bit_length() > 32 and not st.entails_eq(fits + -1):
            return None
        mx = (1 << 32) - 1
        return st.lin(app("fcvalue", 0, mx, *key)), st.lin(p + d)

    def expected(self, st):
        """(value or None, where the rest begins, whether it was escaped), or "throw"."""
        self.settle(self.e, st)
        lo, n = st.lin(st.gh["lo"]), self.n(st)
        if st.entails_eq(st.lin(n - lo)):
            return None, n, 0
        if self.outside(st, lo, BACKSLASH):
            return self.decoded(st, lo, 0)
        if not self.inside(st, lo, BACKSLASH):
            return None
        if st.entails_eq(st.lin(n - lo) + -1):
            return "throw"
        t = self.byte(st, lo + 1)
        if t is None or iv_and(t, NEXT):
            return None
        for c, v in LETTERS.items():
            if not iv_sub(t, iv_norm([(ord(c),) * 2])):
                return K(v), st.lin(lo + 2), 1
        special = iv_norm([(ord(c),) * 2 for c in "xXuU" + "".join(LETTERS)] + list(OCT))
        if not iv_and(t, special):
            return self.decoded(st, st.lin(lo + 1), 1)
        if not iv_sub(t, OCT):
            x = self.number(st, st.lin(lo + 1), 3, 8, 1)
        elif not iv_sub(t, iv_norm([(88, 88), (120, 120)])):
            x = self.number(st, st.lin(lo + 2), 8, 16, 1)
        elif not iv_sub(t, iv_norm([(85, 85)])):
            x = self.number(st, st.lin(lo + 2), 8, 16, 8)
        elif not iv_sub(t, iv_norm([(117, 117)])):
            return self.utf16(st, lo)
        else:
            return None
        return x if not isinstance(x, tuple) else x + (1,)

    def within(self, st, l, lo, hi):
        """Whether l is known to be in the range (1), known not to be (0), or neither (None)."""
        l = st.lin(l)
        a, b = st.interval(l)
        if lo <= a and b <= hi:
            return 1
        if never(st, l + -lo, K(hi) - l):
            return 0
        if never(st, K(lo - 1) - l) and never(st, l + -(hi + 1)):
            return 1
        return None

    def utf16(self, st, lo):
        x = self.number(st, st.lin(lo + 2), 4, 16, 4)
        if not isinstance(x, tuple):
            return x
        one = x + (1,)
        hi = self.within(st, x[0], 0xD800, 0xDBFF)
        if not hi:
            return one if hi == 0 else None
        p = st.lin(lo + 6)
        left = st.lin(self.n(st) - p)
        if st.entails_ge(K(5) - left) or self.outside(st, p, BACKSLASH) \
                or self.outside(st, p + 1, iv_norm([(117, 117)])):
            return one
        if not (st.entails_ge(left + -6) and self.inside(st, p, BACKSLASH)
                and self.inside(st, p + 1, iv_norm([(117, 117)]))):
            return None
        y = self.number(st, st.lin(p + 2), 4, 16, 4)
        if not isinstance(y, tuple):
            return y
        low = self.within(st, y[0], 0xDC00, 0xDFFF)
        if not low:
            return one if low == 0 else None
        return st.lin((x[0] + -0xD800).scale(1024) + y[0] + -0xDC00 + 0x10000), y[1], 1

    def on_sink(self, e, st, ins, sink, args):
        if sink == "sa_view":
            p, k = args
            ok = p.r == IN and st.entails_eq(st.lin(p.l + k.l - self.n(st)))
            self.ob(st, ok, "the rest isn't the end of the text")
            st.gh["q"] = st.lin(p.l) if ok else "?"
        if sink not in ("sa_char", "sa_none"):
            return
        st.gh["res"] = 1
        x = self.expected(st)
        if not isinstance(x, tuple):
            self.ob(st, False, "a character is returned " + (
                "although the text is malformed" if x else "that does not follow from the text"))
            return
        v, q, did = x
        if v is None or sink == "sa_none":
            self.ob(st, v is None and sink == "sa_none", "the end of the text isn't told from a character")
        else:
            self.ob(st, st.entails_eq(st.lin(args[0].l - v)), "the character is %s instead of %s" % (
                e.show(st, st.lin(args[0].l)), e.show(st, st.lin(v))))
        self.ob(st, st.gh["q"] != "?" and st.entails_eq(st.lin(st.gh["q"] - q)),
                "the rest does not begin after the character, at %s" % e.show(st, st.lin(q)))
        d = st.mem.get((DID, 0))
        self.ob(st, d is not None and isinstance(d[1], IntV) and is_bool(e, st, d[1], did),
                "it is not reported right whether the character was escaped")

    def may_throw(self, st):
        return self.expected(st) == "throw" and st.gh["q"] != "?" and st.entails_eq(st.lin(st.gh["q"] - st.gh["lo"]))


MON = {"escapable": Escapable, "escaped": Escaped, "unescape_next": UnescapeNext}
