"""Unescaping a text in place.

The text that is given is the reference: it is named, and what has been
overwritten of it must not be looked at again.  "to" is where the next byte of
the result goes and "rd" where the part of the text begins that has not been
dealt with; "at" is the place of the next escape sequence, or the end of the
text, of which "kind" tells the form."""
import contracts
from content import app
from escapes import LETTERS, UnescapeNext, iv_norm
import drive
import loops
from dom import Dead, IntV, PtrV
from lin import K, ZERO
from walks import IN


class InPlace(UnescapeNext):
    in_place = True

    def begin(self, e, st):
        st.gh["hw"] = st.gh["to"] = st.gh["rd"] = st.gh["at"] = st.gh["ln"] = K(0)
        st.gh["pend"] = "?"
        st.gh["mt"] = 0
        st.gh["still"] = 1
        st.gh["known"] = 0
        st.gh["val"] = st.gh["end"] = K(0)

    def g(self, st, k):
        return st.lin(st.gh[k])

    def state(self, st):
        return "%s bytes have been written and %s of %s are done with%s" % (
            self.e.show(st, self.g(st, "to")), self.e.show(st, self.g(st, "rd")), self.e.show(st, self.n(st)),
            "" if st.gh["pend"] == "?" else ", next is %s at %s" % (st.gh["pend"], self.e.show(st, self.g(st, "at"))))

    def settle(self, e, st):
        """What is already where it belongs need not be copied."""
        to, rd, hw = self.g(st, "to"), self.g(st, "rd"), self.g(st, "hw")
        # these hold whenever the ghosts are changed
        self.known(st, rd - to)
        self.known(st, to - hw)
        if st.gh["pend"] != "?":
            at, ln = self.g(st, "at"), self.g(st, "ln")
            self.known(st, at - rd)
            self.known(st, self.n(st) - at - ln)
            if st.gh["pend"] != "end" and not st.gh["dead"]:
                try:
                    if not contracts.sequence_at(e, st, IN, at, ln, st.gh["pend"]):
                        st.gh["dead"] = 1
                except Dead:
                    st.gh["dead"] = 1
        st.gh["still"] = int(st.entails_eq(self.g(st, "to") - self.g(st, "rd")))
        if st.gh["pend"] != "?" and st.gh["still"]:
            st.gh["to"] = st.gh["rd"] = self.g(st, "at")
        if not st.gh["known"] and st.gh["pend"] not in ("?", "end"):
            # what is known of the sequence itself may be lost where paths meet
            x = self.character(st)
            if isinstance(x, tuple):
                st.gh["val"], st.gh["end"], st.gh["known"] = st.lin(x[0]), st.lin(x[1]), 1
            elif x:
                st.gh["known"] = 2

    def on_loophead(self, e, st, ins, fn, loop):
        self.settle(e, st)

    def untouched(self, st, l, what):
        self.ob(st, st.entails_ge(st.lin(l - self.g(st, "hw"))), "%s at %s, which may have been overwritten: %s" % (
            what, self.e.show(st, st.lin(l)), self.state(st)))

    def on_read(self, e, st, ins, r, l, size):
        if r == IN:
            self.untouched(st, l, "a byte is read")

    def on_from_chars(self, e, st, ins, a, b, n, ref, base, w):
        if a.r == IN:
            self.untouched(st, a.l, "a number is read")

    def on_decoded(self, e, st, ins, r, a, **kw):
        if r == IN:
            self.untouched(st, a, "a code point is read")

    on_skipped = on_undecoded = on_decoded

    def on_memchr(self, e, st, ins, p, n, c, found):
        if p.r == IN:
            self.untouched(st, p.l, "bytes are searched")

    def on_findthrow(self, e, st, ins, fname):
        st.gh["mt"] = 1

    def on_found(self, e, st, ins, fname, p, n, off, key, o, ln):
        if p.r != IN:
            return
        self.untouched(st, p.l + off, "sequences are searched for")
        if st.gh["pend"] != "?":
            return
        rd = self.g(st, "rd")
        whole = st.entails_eq(st.lin(p.l + off - rd)) and st.entails_eq(st.lin(p.l + n - self.n(st)))
        if not whole:
            self.ob(st, False, "the rest of the text is not what is searched: " + self.state(st))
            return
        st.gh["at"] = st.lin(p.l + o) if o is not None else self.n(st)
        st.gh["ln"] = st.lin(ln) if ln is not None else K(0)
        st.gh["pend"] = key[0] if o is not None else "end"

    def on_copy(self, e, st, ins, src, dst):
        if dst.r != IN:
            return
        _, r, l, n = src
        n = st.lin(n)
        if st.entails_eq(n):
            return
        to, rd = self.g(st, "to"), self.g(st, "rd")
        if r == IN and st.entails_eq(st.lin(dst.l - l)):
            return
        ok = r == IN and st.gh["pend"] != "?" and st.entails_eq(st.lin(dst.l - to)) \
            and st.entails_eq(st.lin(l - rd)) and st.entails_ge(st.lin(self.g(st, "at") - rd - n))
        self.ob(st, ok, "bytes from %s are copied to %s: %s" % (
            e.show(st, st.lin(l)), e.show(st, st.lin(dst.l)), self.state(st)))
        if ok:
            st.gh["hw"] = st.gh["to"] = st.lin(to + n)
            st.gh["rd"] = st.lin(rd + n)

    def on_store(self, e, st, ins, p, v, size):
        if p.r != IN:
            return
        if size == 1 and isinstance(v, IntV):
            old = self.e.peek(st, IN, st.lin(p.l), 1)
            if isinstance(old, IntV) and st.entails_eq(st.lin(old.l - v.l)):
                return
            rd = self.g(st, "rd")
            src = self.e.peek(st, IN, rd, 1)
            if st.gh["pend"] != "?" and isinstance(src, IntV) and st.entails_eq(st.lin(p.l - self.g(st, "to"))) \
                    and st.entails_ge(st.lin(self.g(st, "at") - rd) + -1) and st.entails_eq(st.lin(src.l - v.l)):
                st.gh["hw"] = st.gh["to"] = st.lin(self.g(st, "to") + 1)
                st.gh["rd"] = st.lin(rd + 1)
                return
            x = loops.img(st, st.lin(v.l))
            if x and 0 <= x[0][0] and x[-1][1] < 128:
                self.on_encoded(e, st, ins, p, 1, v.l)
                return
        self.ob(st, False, "a value is written that does not follow from the text: " + self.state(st))

    def on_encoded(self, e, st, ins, dst, n, ch):
        if n and dst.r != IN:
            return
        self.settle(e, st)
        to, at = self.g(st, "to"), self.g(st, "at")
        ok = st.gh["known"] == 1 and st.entails_eq(st.lin(self.g(st, "rd") - at))
        self.ob(st, ok, "a character is written that does not follow from the text: " + self.state(st))
        if not ok:
            return
        v, end = self.g(st, "val"), self.g(st, "end")
        self.ob(st, st.entails_eq(st.lin(ch - v)), "the character is %s instead of %s: %s" % (
            e.show(st, st.lin(ch)), e.show(st, st.lin(v)), self.state(st)))
        self.ob(st, not n or st.entails_eq(st.lin(dst.l - to)), "the character is written at %s: %s" % (
            e.show(st, st.lin(dst.l)), self.state(st)))
        ok = st.entails_ge(st.lin(end - to) + -n)
        self.ob(st, ok, "text that isn't done with is overwritten: " + self.state(st))
        if not ok:
            st.gh["dead"] = 1
        st.gh["to"], st.gh["rd"], st.gh["pend"] = st.lin(to + n), st.lin(end), "?"
        if n:
            st.gh["hw"] = st.gh["to"]
        st.gh["at"] = st.gh["ln"] = st.gh["val"] = st.gh["end"] = K(0)
        st.gh["known"] = 0

    def digits(self, st, first, base):
        at, ln = self.g(st, "at"), self.g(st, "ln")
        key = (IN, st.lin(at + first), st.lin(ln + -first), base, 32)
        fits = st.lin(app("fcfits", 0, 1, *key))
        if st.entails_eq(fits):
            return "throw"
        if base == 16 and not st.entails_eq(fits + -1) and not st.entails_ge(K(10) - ln):
            return None
        return st.lin(app("fcvalue", 0, (1 << 32) - 1, *key)), st.lin(at + ln)

    def character(self, st):
        """(value, where the rest begins) of the pending sequence, or "throw"."""
        kind = st.gh["pend"]
        at = self.g(st, "at")
        if kind in ("x", "U"):
            return self.digits(st, 2, 16)
        if kind[0] == "o":
            return self.digits(st, 1, 8)
        if kind == "u":
            return self.utf16(st, at)
        if kind == "c":
            t = self.byte(st, at + 1)
            if t is None:
                return None
            for c, v in LETTERS.items():
                if t == iv_norm([(ord(c),) * 2]):
                    return K(v), st.lin(at + 2)
                if any(a <= ord(c) <= b for a, b in t):
                    return None
            return st.lin(self.e.peek(st, IN, st.lin(at + 1), 1).l), st.lin(at + 2)
        return None

    def on_sink(self, e, st, ins, sink, args):
        if sink != "sa_size":
            return
        st.gh["res"] = 1
        self.settle(e, st)
        to, n = self.g(st, "to"), self.n(st)
        ok = st.gh["pend"] == "end" and st.entails_eq(st.lin(self.g(st, "rd") - n))
        self.ob(st, ok, "the result is returned before all of the text is done: " + self.state(st))
        self.ob(st, st.entails_eq(st.lin(args[0].l - to)), "the length is %s: %s" % (
            e.show(st, st.lin(args[0].l)), self.state(st)))

    def may_throw(self, st):
        self.settle(self.e, st)
        return bool(st.gh["mt"]) or st.gh["known"] == 2


class Whole:
    """Unescaping a string: all of it, in place, and cut where the result ends."""
    kind = "fn"

    def start(self, e, st, entry):
        self.e, self.p = e, entry.p
        self.where = drive.last_ins(e.m, entry.fn)
        st.gh["str"] = (("obj", "s"), 0)
        st.gh["m"] = K(0)
        st.gh["at"] = "text"
        st.gh["mt"] = 0

    def ob(self, st, ok, msg):
        return self.e.check(st, ok, self.kind, self.where, None if ok else msg)

    def length(self, st, k):
        o = st.obj.get(k)
        return st.lin(o.f["len"].l) if o is not None else None

    def on_move(self, e, st, ins, src, dst):
        if src == st.gh["str"]:
            st.gh["str"] = dst

    def lost(self, e, st, ins, key=None, **kw):
        if key == st.gh["str"]:
            st.gh["at"] = "lost"

    on_clobber = on_append = on_insert = on_newstr = lost

    def on_store(self, e, st, ins, p, v, size):
        if p.r is not None and p.r[0] == "b" and p.r[1:] == st.gh["str"]:
            st.gh["at"] = "lost"

    def on_copy(self, e, st, ins, src, dst):
        if dst.r is not None and dst.r[0] == "b" and dst.r[1:] == st.gh["str"]:
            st.gh["at"] = "lost"

    def on_findthrow(self, e, st, ins, fname):
        st.gh["mt"] = 1

    def on_unescaped(self, e, st, ins, p, n, m):
        k = st.gh["str"]
        ln = self.length(st, k)
        ok = st.gh["at"] == "text" and p.r == ("b",) + k and st.entails_eq(st.lin(p.l)) \
            and ln is not None and st.entails_eq(st.lin(ln - n))
        self.ob(st, ok, "it isn't all of the text that is unescaped")
        st.gh["at"], st.gh["m"] = "done", m

    def on_setlen(self, e, st, ins, key, n):
        if key == st.gh["str"]:
            ok = st.gh["at"] == "done" and st.entails_eq(st.lin(n - st.gh["m"]))
            self.ob(st, ok, "the string is cut to %s bytes, of %s" % (
                e.show(st, st.lin(n)), e.show(st, st.lin(st.gh["m"]))))

    def on_sink(self, e, st, ins, sink, args):
        if sink != "sa_str":
            return
        st.gh["res"] = 1
        k = e.obj_key(st, args[0])
        ln = self.length(st, k)
        ok = k == st.gh["str"] and st.gh["at"] == "done" and ln is not None \
            and st.entails_eq(st.lin(ln - st.gh["m"]))
        self.ob(st, ok, "the result is not the unescaped text")

    def finish(self, e, outs):
        for kind, v, st in outs:
            if kind == "exc":
                if v.own is not None:
                    self.ob(st, bool(st.gh["mt"]), "an exception leaves although nothing is wrong with the text")
            else:
                self.ob(st, bool(st.gh.get("res")), "no result is returned")


MON = {"in_place": InPlace, "whole": Whole}
