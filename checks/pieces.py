"""Splitting, as typestate over the rest of the text.

R is where the text that is not yet split starts.  The next separator is named
by the search that finds it in [R, n): what is added must be the part before
it, or the whole rest when there is no separator or no more splits are wanted."""
from lin import Lin, K
from dom import PtrV
from contracts import app
import drive

S = ("in", "s")


class Rest:
    """A text of which the parts are taken off one by one."""
    kind = "fn"
    sep = "srch"

    def start(self, e, st, entry):
        self.e = e
        self.p = entry.p
        self.where = drive.last_ins(e.m, entry.fn)
        st.gh["R"] = K(0)
        st.gh["done"] = 0
        self.begin(e, st)

    def begin(self, e, st):
        pass

    def ob(self, st, ok, msg):
        return self.e.check(st, ok, self.kind, self.where, None if ok else msg)

    def n(self, st):
        return st.lin(self.p["n"])

    def R(self, st):
        return st.lin(st.gh["R"])

    def key(self, st):
        if "tn" in self.p:
            return [("in", "t"), K(0), st.lin(self.p["tn"])]
        if "un" in self.p:
            return [("in", "u"), K(0), st.lin(self.p["un"])]
        return []

    def next(self, st):
        """(start, end) of the next separator, "none" or None if it isn't known."""
        r, n = self.R(st), self.n(st)
        a = [S, r, n] + self.key(st)
        x = st.lin(app(self.sep, 0, 1 << 62, *a))
        if st.entails_eq(x - n):
            return "none"
        if not st.entails_ge(n - x + -1):
            return None
        if self.sep == "srch":
            return x, st.lin(x + self.p["tn"])
        return x, st.lin(x + app(self.sep + "#", 1, 1 << 62, *a))

    def on_sink(self, e, st, ins, sink, args):
        f = getattr(self, "res_" + sink[3:], None)
        if f is not None:
            f(st, *args)

    def on_findthrow(self, e, st, ins, fname):
        st.gh["thrown"] = 1

    def finish(self, e, outs):
        for kind, v, st in outs:
            if kind != "exc":
                self.ob(st, bool(st.gh.get("res")), "no result is returned")
            else:
                self.ob(st, bool(st.gh.get("thrown")), "an exception leaves that the search did not throw")


class Split(Rest):
    def begin(self, e, st):
        st.gh["k"] = K(0)

    def ignore(self, st):
        i = st.lin(self.p["ignore"])
        return True if st.entails_eq(i + -1) else False if st.entails_eq(i) else None

    def full(self, st):
        """Whether no more splits are wanted."""
        d = st.lin(self.p["max"] - st.gh["k"])
        return True if st.entails_eq(d) else False if st.entails_ge(d + -1) else None

    def skip(self, st):
        """Passes over empty parts that are to be left out."""
        for _ in range(3):
            if st.gh["done"] or not self.ignore(st) or self.full(st) is not False:
                return
            x = self.next(st)
            if x is None or x == "none" or not st.entails_eq(x[0] - self.R(st)):
                return
            st.gh["R"] = x[1]

    def settle(self, e, st):
        self.skip(st)

    def on_newvec(self, e, st, ins, key):
        st.gh["vec"] = key
        self.ob(st, st.entails_eq(st.gh["k"]), "the parts are thrown away")

    def on_vecmove(self, e, st, ins, src, dst):
        if st.gh.get("vec") == src:
            st.gh["vec"] = dst

    def on_vecpop(self, e, st, ins, key):
        self.ob(st, False, "a part is removed")

    def on_vecadd(self, e, st, ins, key, idx, elem):
        self.skip(st)
        ok = st.gh.get("vec") == key and st.entails_eq(st.lin(idx) - st.gh["k"])
        vals = [v for _, (_, v) in sorted(elem.items())]
        ok = ok and len(vals) == 2 and isinstance(vals[1], PtrV) and vals[1].r == S
        if not self.ob(st, ok and not st.gh["done"], "what is added is not the next part of the text"):
            return
        ln, a = st.lin(vals[0].l), st.lin(vals[1].l)
        r, n = self.R(st), self.n(st)
        x = self.next(st)
        full = self.full(st)
        if full or x == "none":
            end, st.gh["done"] = n, 1
        elif full is False and x is not None:
            end, st.gh["R"] = x
        else:
            self.ob(st, False, "a part is added before it is known where it ends")
            return
        self.ob(st, st.entails_eq(a - r), "a part doesn't start where the previous separator ends")
        self.ob(st, st.entails_eq(a + ln - end), "a part doesn't end at the next separator")
        ig = self.ignore(st)
        self.ob(st, ig is False or (ig and st.entails_ge(ln + -1)), "an empty part isn't left out")
        st.gh["k"] = st.lin(st.gh["k"] + 1)

    def res_parts(self, st, v):
        self.skip(st)
        st.gh["res"] = 1
        k = self.e.obj_key(st, v)
        o = st.obj.get(k)
        ok = k == st.gh.get("vec") and o is not None and o.kind == "vec" \
            and st.entails_eq(st.lin(o.f["len"].l) - st.gh["k"])
        self.ob(st, ok, "the parts are not what is returned")
        # nothing is left, or nothing that isn't left out
        ok = st.gh["done"] or (self.ignore(st) and st.entails_eq(self.R(st) - self.n(st)))
        self.ob(st, bool(ok), "the rest of the text is not returned")


class Tokens(Rest):
    """The iterator: its part, token, remainder and truth for every separator."""
    sep = "sa_find"

    def begin(self, e, st):
        st.gh["mark"] = 0

    def res_mark(self, st, v):
        v = st.lin(v.l).c
        self.ob(st, st.gh["mark"] in (4, 9) if v in (1, 5) else st.gh["mark"] == (0 if v == 6 else v - 1),
                "marks out of order")
        st.gh["mark"] = v
        if v == 1:
            self.ob(st, not st.gh["done"], "the iterator goes on after the last part")
        if v == 5:
            st.gh["res"] = 1
            self.ob(st, bool(st.gh["done"]), "the iterator stops before the last part")

    def res_view(self, st, p, ln):
        ln = st.lin(ln.l)
        x = self.next(st)
        m = st.gh["mark"]
        what = {1: "part", 2: "token", 3: "remainder"}.get(m)
        if m in (6, 7, 8):
            # before the first step the whole text is what remains
            ok = st.entails_eq(ln) if m < 8 else st.entails_eq(ln - self.n(st)) and \
                (st.entails_eq(ln) or isinstance(p, PtrV) and p.r == S and st.entails_eq(st.lin(p.l)))
            self.ob(st, ok, "before the first part the %s is not %s" % (
                {6: "part", 7: "token", 8: "remainder"}[m], "empty" if m < 8 else "the text"))
            return
        if x is None or what is None:
            self.ob(st, False, "a part is given before it is known where it ends")
            return
        n = self.n(st)
        a, b = {1: (self.R(st), n if x == "none" else x[0]),
                2: (n, n) if x == "none" else x,
                3: (n, n) if x == "none" else (x[1], n)}[m]
        ok = st.entails_eq(ln - b + a)
        # where an empty view is doesn't matter
        ok = ok and (st.entails_eq(ln) or isinstance(p, PtrV) and p.r == S and st.entails_eq(st.lin(p.l) - a))
        self.ob(st, ok, "the %s is not what the separator says" % what)

    def res_bool(self, st, v):
        if st.gh["mark"] == 9:
            self.ob(st, st.entails_eq(st.lin(v.l)), "there is a token before the first part")
            return
        x = self.next(st)
        ok = st.gh["mark"] == 4 and x is not None
        self.ob(st, ok and st.entails_eq(st.lin(v.l) + (0 if x == "none" else -1)),
                "whether there is a token is not what the separator says")
        if x == "none" or x is None:
            st.gh["done"] = 1
        else:
            st.gh["R"] = x[1]


def sub(base, sep):
    return type(base.__name__ + sep, (base,), {"sep": sep})


MON = {
    "tokens": Tokens,
    "split": Split,
    "split_of": sub(Split, "find_first_of"),
    "split_lines": sub(Split, "find_first_newline"),
    "split_where": sub(Split, "sa_find"),
    "ci_split": sub(Split, "ci::find_first"),
    "ci_split_of": sub(Split, "ci::find_first_of"),
}
