"""Composition of texts: a left-to-right fold of the composition of two code
points, which T06 decides on its own."""
import bisect
import time

import content
import contracts
import drive
import loops
import prims
import safety
import tables
from content import app, seg
from core import Anchor, Report
from dom import AggV, Dead, IntV
from lin import K, iv_and, iv_count, iv_elems, iv_sub
from walks import IN


class NoRelation(Exception):
    pass


def pair_function(e, fn):
    """The name of the one function of two code points that looks up their composition."""
    out, seen, todo = set(), set(), [fn]
    while todo:
        f = todo.pop()
        if f.name in seen:
            continue
        seen.add(f.name)
        e.m.body(f)
        if f.decl:
            continue
        if len(f.params) == 2 and f.retty.kind == "int" and f.retty.w == 32 \
                and all(t.kind == "int" and t.w == 32 for _, _, t in f.params) and e.pure_kind(f) == "table":
            out.add(e.bname(f))
            continue
        for b in f.blocks:
            for i in b.instrs:
                if i.op in ("call", "invoke") and i.x[0][0] == "fn":
                    todo.append(i.x[0][1])
    return out


class Compose(content.Content):
    """The text before s stands for itself or has been written.  [s, t) has been
    composed to v: "made" tells whether it takes more than one code point of the
    text, "final" that what follows doesn't compose with it."""

    def begin(self, e, st, entry):
        self.where = drive.last_ins(e.m, entry.fn)
        names = pair_function(e, entry.fn)
        if len(names) != 1:
            raise NoRelation("composition isn't looked up by one function of two code points")
        self.name = names.pop()
        g = st.gh
        g["s"] = g["t"] = g["v"] = K(0)
        g["have"] = g["made"] = g["final"] = g["bad"] = g["dead"] = 0

    def fresh(self):
        return [seg("img", K(0))]

    def at(self, st, p):
        """(code point, where the next one starts) at p; 0 when there's none, None if it isn't known."""
        n = st.lin(st.rgn[IN])
        ok = app("decok", 0, 1, IN, st.lin(p), n)
        if st.entails_eq(st.lin(ok)):
            return 0
        if not st.entails_eq(st.lin(ok) + -1):
            return None
        ch, k = contracts.cps(self.e, st, IN, st.lin(p))
        return st.lin(ch), st.lin(p + k)

    def settle(self, e, st):
        self.go(st)
        content.Content.settle(self, e, st)

    def go(self, st):
        for _ in range(64):
            if st.gh["dead"] or st.gh["bad"] or not self.advance(st):
                break

    def advance(self, st):
        g = st.gh
        t = st.lin(g["t"])
        end = st.entails_eq(st.lin(st.rgn[IN]) - t)
        if g["final"] or end and not g["have"]:
            return False
        x = None if end else self.at(st, t)
        if x == 0:
            g["bad"] = 1
            return False
        if not g["have"]:
            if x is None:
                return False
            g["s"], (g["v"], g["t"]) = t, x
            g["have"], g["made"] = 1, 0
            return True
        if end:
            y = 0
        elif x is None:
            return False
        else:
            both = st.lin(g["v"]), x[0]
            z = st.lin(self.pair(*both))
            y = 0 if st.entails_eq(z) else z if st.entails_ge(z + -1) else None
        if y is None:
            return False
        if y != 0:
            # (T06 tells what pairs are composed to)
            try:
                if not st.assume_ge(K(0x10FFFF) - z):
                    g["dead"] = 1
            except Dead:
                g["dead"] = 1
            g["v"], g["t"], g["made"] = z, x[1], 1
        elif g["made"]:
            g["final"] = 1
        else:
            g["s"], g["have"] = t, 0
        return True

    def pair(self, a, b):
        if not a.t and not b.t:
            for f in self.e.m.fns.values():
                if not f.decl and len(f.params) == 2 and self.e.bname(f) == self.name:
                    return K(self.e.const_eval(f, [a.c, b.c]))
        return app(self.name, 0, (1 << 32) - 1, a, b)

    def norm(self, st, c):
        c = content.Content.norm(self, st, c)
        while c and len(c) > 1 and c[0].v[0] == "img":
            q, x = st.lin(c[0].v[1]), c[1]
            if content.is_raw(x) and x.v[0][1] == IN and st.entails_eq(st.lin(x.v[1] - q)) \
                    and st.entails_ge(st.lin(st.gh["s"] - x.v[2])):
                c = [seg("img", st.lin(x.v[2]))] + c[2:]
            elif x.v[0] == "enc" and st.gh["final"] and st.entails_eq(st.lin(q - st.gh["s"])) \
                    and st.entails_eq(st.lin(x.v[1] - st.gh["v"])):
                c = [seg("img", st.lin(st.gh["t"]))] + c[2:]
                st.gh["final"] = st.gh["have"] = st.gh["made"] = 0
                st.gh["s"] = st.gh["t"]
                self.go(st)
            else:
                break
        return c

    def result(self, e, st, ins, c):
        st.gh["res"] = 1
        self.go(st)
        c = self.norm(st, c) if c is not None else None
        ok = st.gh["dead"] or c is not None and len(c) == 1 and c[0].v[0] == "img" \
            and st.entails_eq(st.lin(c[0].v[1]) - st.rgn[IN])
        self.ob(st, ok, ins, None if ok else "the result is %s, where the next code point to write begins at %s of %s" % (
            self.show(st, c), e.show(st, st.lin(st.gh["s"])), e.show(st, st.lin(st.rgn[IN]))))

    def finish(self, e, outs):
        for kind, v, st in outs:
            if kind == "ret" and not st.gh.get("res"):
                self.ob(st, False, None, "no result is returned")
            elif kind == "exc" and v.own is not None:
                self.go(st)
                ok = bool(st.gh["bad"] or st.gh["dead"])
                self.ob(st, ok, None, None if ok else "an exception leaves although the text before it is well-formed")


class Whole(content.Content):
    """Keeps the content of the result."""

    def begin(self, e, st, entry):
        self.where = drive.last_ins(e.m, entry.fn)

    def result(self, e, st, ins, c):
        st.gh["out"] = "?" if c is None else AggV(c)


def code_points(st, c, chs):
    """The code points of a content, given those of the text; None if they aren't known."""
    bounds = [K(0)]
    for ch in chs:
        bounds.append(st.lin(bounds[-1] + contracts.app("declen", 1, 4, IN, bounds[-1])))
    out = []
    for x in c:
        if x.v[0] == "enc":
            out.append(st.lin(x.v[1]))
        elif x.v[0] == "el" and 0 <= st.interval(st.lin(x.v[1]))[0] <= st.interval(st.lin(x.v[1]))[1] < 128:
            out.append(st.lin(x.v[1]))
        elif content.is_raw(x) and x.v[0][1] == IN:
            i, j = [next((k for k, p in enumerate(bounds) if st.entails_eq(st.lin(p - y))), None) for y in x.v[1:]]
            if i is None or j is None:
                return None
            out.extend(st.lin(ch) for ch in chs[i:j])
        else:
            return None
    return out


# code points of each number of code points in the decomposition, and bytes
SAMPLES = (0x41, 0xE9, 0x1D6, 0x1F82, 0x4E00, 0x1109A)


def around(entry, before, after, deadline):
    """One code point after and before given ones: the outcomes for all its values."""
    m = safety._M[0]
    rep = Report("-", "-")
    t = time.time()
    try:
        outcomes(m, rep, entry, before, after, deadline)
    except Anchor:
        raise
    except BaseException:
        safety.fail(rep, m, entry)
    r = rep.data()
    r["name"] = entry
    r["t"] = time.time() - t
    return r


def decompose(cps):
    d = tables.pairs()
    return [y for x in cps for y in tables.full_decomposition(d, x)]


def compose(cps):
    comp = {v: k for k, v in tables.pairs().items()}
    out = []
    for x in cps:
        y = comp.get((out[-1], x)) if out else None
        if y is None:
            out.append(x)
        else:
            out[-1] = y
    return out


def outcomes(m, rep, entry, before, after, deadline):
    d = tables.pairs()
    f, special, rule, verb = {
        "e_to_decomposed": (decompose, set(d), "decomposition-of-every-code-point", "decomposes"),
        "e_to_composed": (compose, {x for p in d.values() for x in p}, "composition-with-neighbours", "composes"),
    }[entry]
    fixed = [(i, x) for i, x in enumerate(before)] + [(len(before) + 1 + i, x) for i, x in enumerate(after)]
    e, en, outs, chs = tables.two_cp_text(m, entry, len(fixed) + 1, Whole(), fixed, deadline)
    prims.collect(rep, e)
    where, fn = prims.place(rep, e, prims.target(m, entry))
    first, last = f(before), f(after)
    special = sorted(x for x in special if f(before + (x,) + after) != first + [x] + last)
    seen = set()
    text = "%s c %s" % (" ".join("U+%04X" % x for x in before), " ".join("U+%04X" % x for x in after))
    c = chs[len(before)]
    todo = ((0, tables.MAXCP),)
    for kind, v, s in outs:
        S = loops.img(s, s.lin(c))
        if kind != "ret":
            if v.own is not None:
                rep.ob("no-exception", False, where, fn, "an exception leaves the function for %s, c in %s" % (text, tables.show(S)))
            continue
        todo = iv_sub(todo, S)
        w = s.gh.get("out", "?")
        els = code_points(s, w.v, chs) if w != "?" else None
        fs = None if els is None else [tables.concrete(s.lin(x), s, S, c) for x in els]
        if fs is None or any(g is None for g in fs):
            rep.ob(rule, False, where, fn, "the result for %s, c in %s, is not determined" % (text, tables.show(S)))
            continue
        wrong = misfit(s, s.lin(c), S, els, fs, special, lambda x: f(before + (x,) + after), first, last, seen)
        rep.ob(rule, wrong is None, where, fn, "" if wrong is None else "%s %s to %s for c = U+%04X, UnicodeData says %s" % (
            text, verb, " ".join("U+%04X" % (g(wrong) or 0) for g in fs), wrong,
            " ".join("U+%04X" % x for x in f(before + (wrong,) + after))))
    rep.ob("outcomes-cover-every-code-point", not todo, where, fn, "no outcome for %s, c in %s" % (text, tables.show(todo)))
    miss = [x for x in special if x not in seen]
    rep.ob(rule, not miss, where, fn, "no outcome for %s, c = U+%04X" % (text, miss[0] if miss else 0))
    rep.count("mappings_compared", len(seen))
    rep.count("outcome_partitions", len(outs))


def misfit(s, c, S, els, fs, special, want, first, last, seen):
    """A code point of S that the result is wrong for."""
    wrong = None
    plain = len(els) == len(first) + 1 + len(last) and all(
        s.entails_eq(s.lin(x - y)) for x, y in zip(els, [K(z) for z in first] + [c] + [K(z) for z in last]))
    for a, b in S:
        nxt = a
        for x in special[bisect.bisect_left(special, a):bisect.bisect_right(special, b)] + [b + 1]:
            if wrong is None and nxt < x and not plain:
                # those between are not changed
                wrong = next((y for y in some(s, c, nxt, x - 1)
                              if [g(y) for g in fs] != first + [y] + last), None)
            nxt = x + 1
            if x > b:
                break
            if [g(x) for g in fs] == want(x):
                seen.add(x)
            elif wrong is None and tables.holds(s, ((c, x),)):
                wrong = x
    return wrong


def some(s, c, lo, hi):
    """The values of c in [lo, hi]: all of them when there are few."""
    s = s.copy()
    try:
        if not s.assume_ge(c + -lo) or not s.assume_ge(K(hi) - c) or not s.feasible():
            return
        S = iv_and(loops.img(s, s.lin(c)), ((lo, hi),))
    except Dead:
        return
    for y in iv_elems(S) if iv_count(S) < 1 << 16 else [z for r in S for z in r]:
        if tables.holds(s, ((c, y),)):
            yield y


# code points of each number of code points in the decomposition, and of bytes
SAMPLES = (0x41, 0x1F82, 0xE9, 0x1D6, 0x4E00, 0x1109A)


def C_decomposed(m, rep, tier):
    safety.entries(m, ["e_to_decomposed"])
    more = tier == "thorough"
    ctx = [((), (x,)) for x in SAMPLES[:6 if more else 3]] + [((), ())] + [((x,), ()) for x in SAMPLES]
    ctx += [((x, y), ()) for x in SAMPLES[:6 if more else 2] for y in SAMPLES]
    if more:
        ctx += [((x,), (y,)) for x in SAMPLES for y in SAMPLES]
    safety.par(m, rep, [(around, ("e_to_decomposed", a, b, 600)) + ({},) for a, b in ctx])


# starts of compositions, whole ones, and what isn't composed
STARTS = ((), (0x41,), (0x55, 0x308), (0x3B1, 0x313), (0x41, 0x4E00), (0x301,))
ENDS = ((), (0x301,), (0x41,), (0x308, 0x301))


def C_composed(m, rep, tier):
    safety.entries(m, ["e_to_composed"])
    jobs = [(around, ("e_to_composed", a, b, 600), {}) for a in STARTS for b in ENDS
            if tier == "thorough" or len(a) + len(b) < 3]
    safety.par(m, rep, [(fold, (300,), {})] + jobs)


def fold(deadline):
    try:
        return safety.analyse("e_to_composed", monitor=Compose, deadline=deadline, kinds={"fn"}, strict=(NoRelation,))
    except NoRelation as x:
        rep = Report("-", "-")
        rep.sample("texts of any length are not decided: %s" % x, 400)
        r = rep.data()
        r["name"] = "e_to_composed"
        r["t"] = 0
        return r


MON = {"composed": Compose}
