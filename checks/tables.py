"""Functions of one code point, decided for all 2^32 values: the function is
analysed with its argument as one symbol; binary searches in constant tables
split the argument's value set, so that each outcome is a value (constant or
linear) on an explicit set of code points, which is compared with UnicodeData."""
import contracts
import drive
import interp
import loops
from lin import Lin, K, ZERO, SYMS, iv_and, iv_sub, iv_norm, iv_count, iv_from, iv_in, iv_elems
from dom import IntV, PtrV, C, Dead

import prims
import safety
import ucd
import bisect

from core import Anchor, Report

ALL32 = ((0, (1 << 32) - 1),)
MAXCP = 0x10FFFF


def partitions(m, rep, entry, param="c"):
    """[(set of arguments, [(sink, [args])], state, engine)]"""
    e, en, outs = prims.exact(m, entry, unroll_all=True)
    prims.collect(rep, e)
    g = prims.target(m, entry)
    where, fn = prims.place(rep, e, g)
    res = []
    todo = ALL32
    c = en.p[param]
    for kind, v, s in outs:
        l = s.lin(c)
        S = loops.img(s, l)
        if kind != "ret":
            rep.ob("no-exception", False, where, fn, "an exception leaves the function for %s" % show(S))
            continue
        res.append((S, prims.sunk(s), s, e))
        todo = iv_sub(todo, S)
        if not todo:
            todo = ()
    rep.ob("outcomes-cover-every-argument", not todo, where, fn,
           "no outcome for %s" % show(todo))
    rep.count("outcome_partitions", len(res))
    return res, c, where, fn


def show(iv, n=4):
    if not iv:
        return "nothing"
    s = ", ".join("U+%04X" % a if a == b else "U+%04X..U+%04X" % (a, b) for a, b in iv[:n])
    return s + (", ..." if len(iv) > n else "")


def value_runs(parts, c, sink):
    """(set, Lin or None, s) of the only sink of each outcome."""
    for S, sk, s, e in parts:
        v = [a[0] for n, a in sk if n == sink]
        if len(v) != 1:
            raise Anchor(sink)
        if not isinstance(v[0], IntV):
            yield S, None, s
            continue
        for s2, l in e.uns(s.copy(), v[0]):
            l = s2.lin(l)
            S2 = loops.img(s2, s2.lin(c))
            yield S2, l, s2


def concrete(l, s, S, c):
    """code point -> value on the (small) set S, or None."""
    cl = s.lin(c)
    if not l.t:
        return lambda x: l.c
    d = l - cl
    if not d.t:
        return lambda x: x + d.c
    # both as functions of the same root
    p, q = l.single(), cl.single()
    if p and q and p[0] == q[0] and q[1] in (1, -1):
        return lambda x: l.c + p[1] * (x - cl.c) * q[1]
    rs = s.rootset(l) | s.rootset(cl)
    if len(rs) == 1:
        r = next(iter(rs))
        vs = s.rootvs(r)
        if iv_count(vs) <= 1 << 17:
            d = {}
            for v in iv_elems(vs):
                d.setdefault(s.value_at(cl, r, v), s.value_at(l, r, v))
            return Table(d)
    return None


class Table:
    """A function given point by point."""

    def __init__(self, d):
        self.d = d

    def __call__(self, x):
        return self.d.get(x)


def compare(rep, rule, parts, c, sink, want, where, fn, what, limit=MAXCP):
    """want: [(lo, hi, f)] with f(x) the required value; covers [0, limit]."""
    bad = []
    for S, l, s in value_runs(parts, c, sink):
        if l is None:
            rep.ob(rule, False, where, fn, "%s: undefined result for %s" % (what, show(S)))
            continue
        f = concrete(l, s, S, c)
        if f is None:
            vals = s.pointwise(l) if iv_count(S) < 100000 else None
            rep.ob(rule, False, where, fn, "%s: result is not determined by the code point on %s" % (what, show(S)))
            continue
        wrong = None
        n = 0
        for a, b in S:
            for lo, hi, w in pieces(want, a, b):
                n += 1
                if wrong is None and mismatch(f, w, lo, hi) is not None:
                    x = witness(s, s.lin(c), f, w, lo, hi)
                    if x is not None:
                        wrong = (x, f(x), w(x))
        rep.count("set_comparisons", n)
        rep.ob(rule, wrong is None, where, fn, "" if wrong is None else
               "%s of U+%04X is %s, UnicodeData says %s" % (what, wrong[0], hexv(wrong[1]), hexv(wrong[2])))


def hexv(x):
    return "0x%X" % x


def mismatch(f, w, lo, hi):
    """A point of [lo, hi] where the two affine functions differ."""
    if isinstance(f, Table):
        for x in range(lo, hi + 1):
            if f(x) is not None and f(x) != w(x):
                return x
        return None
    if f(lo) != w(lo):
        return lo
    if f(hi) != w(hi):
        return hi
    return None


def witness(s, c, f, w, lo, hi):
    """A member of the outcome in [lo, hi] on which f and w differ."""
    s2 = s.copy()
    try:
        if not s2.assume_ge(c + -lo) or not s2.assume_ge(K(hi) - c) or not s2.feasible():
            return None
        S = loops.img(s2, s2.lin(c))
    except Dead:
        return None
    for a, b in iv_and(S, ((lo, hi),)):
        pts = range(a, b + 1) if b - a < 8192 else (a, b, (a + b) // 2)
        for x in pts:
            if f(x) == w(x) or f(x) is None:
                continue
            s3 = s2.copy()
            try:
                if s3.assume_eq(c + -x) and s3.feasible():
                    return x
            except Dead:
                pass
        if b - a >= 8192:
            return a
    return None


def pieces(want, a, b):
    i = bisect.bisect_right(want, (a, float("inf"))) - 1
    i = max(i, 0)
    while i < len(want) and want[i][0] <= b:
        lo, hi, w = want[i]
        if hi >= a:
            yield max(lo, a), min(hi, b), w
        i += 1


class Const:
    def __init__(self, v):
        self.v = v

    def __call__(self, x):
        return self.v

    def __lt__(self, o):
        return False


class Shift(Const):
    def __call__(self, x):
        return x + self.v


_U = []


def U():
    if not _U:
        _U.append(ucd.Ucd())
    return _U[0]


def class_constants(m, rep):
    e, en, outs = prims.exact(m, "e_class_constants")
    vals = [a[0].l.c for n, a in prims.sunk(outs[0][2])]
    if len(vals) != len(ucd.CATS):
        raise Anchor("character class constants")
    where, fn = prims.place(rep, e, en.fn)
    rep.ob("class-constants-are-distinct-bits",
           all(v & (v - 1) == 0 and v for v in vals) and len(set(vals)) == len(vals),
           where, fn, "the class constants are not distinct single bits: %s" % vals)
    return vals


def C_class(m, rep, tier):
    bits = class_constants(m, rep)
    parts, c, where, fn = partitions(m, rep, "e_get_char_class")
    want = [(lo, hi, Const(bits[k])) for lo, hi, k in U().runs(lambda k: k)]
    want.append((MAXCP + 1, (1 << 32) - 1, Const(bits[ucd.CATS.index("Cn")])))
    compare(rep, "class-equals-UnicodeData", parts, c, "sa_size", want, where, fn, "the character class")


def mapping_want(d):
    want = []
    nxt = 0
    for k in sorted(d):
        if nxt < k:
            want.append((nxt, k - 1, Shift(0)))
        want.append((k, k, Const(d[k])))
        nxt = k + 1
    want.append((nxt, (1 << 32) - 1, Shift(0)))
    return want


def C_case(m, rep, tier):
    u = U()
    for entry, d, what in (("e_to_upper", u.upper, "the uppercase mapping"),
                           ("e_to_lower", u.lower, "the lowercase mapping"),
                           ("e_to_title", u.title, "the titlecase mapping")):
        parts, c, where, fn = partitions(m, rep, entry)
        compare(rep, "mapping-equals-UnicodeData", parts, c, "sa_char", mapping_want(d), where, fn, what)


L = {"Lu", "Ll", "Lt", "Lm", "Lo"}
M = {"Mn", "Mc", "Me"}
N = {"Nd", "Nl", "No"}
P = {"Pc", "Pd", "Ps", "Pe", "Pi", "Pf", "Po"}
S = {"Sm", "Sc", "Sk", "So"}
Z = {"Zs", "Zl", "Zp"}
PRED = {
    "e_is_alpha_numeric": L | N, "e_is_cased_letter": {"Lu", "Ll", "Lt"}, "e_is_control": {"Cc"},
    "e_is_format": {"Cf"}, "e_is_graphical": L | M | N | P | S, "e_is_letter": L,
    "e_is_lower": {"Ll"}, "e_is_mark": M, "e_is_number": N, "e_is_punctuation": P,
    "e_is_separator": Z, "e_is_surrogate": {"Cs"}, "e_is_symbol": S, "e_is_upper": {"Lu"},
    "e_is_visible": L | M | N | P | S | Z,
}


def pred(rep, m, entry, runs, rule, what):
    parts, c, where, fn = partitions(m, rep, entry)
    compare(rep, rule, parts, c, "sa_bool", runs, where, fn, what)


def pred_job(entry, cats):
    rep = Report("-", "-")
    ks = {ucd.CATS.index(x) for x in cats}
    want = [(lo, hi, Const(int(v))) for lo, hi, v in U().runs(lambda k: k in ks)]
    want.append((MAXCP + 1, (1 << 32) - 1, Const(0)))
    pred(rep, safety._M[0], entry, want, "predicate-is-its-class-union", entry[2:])
    return rep.data()


def C_preds(m, rep, tier):
    U()
    safety.par(m, rep, [(pred_job, (entry, sorted(cats)), {}) for entry, cats in sorted(PRED.items())])


def set_want(cs):
    iv = iv_norm([(x, x) for x in cs])
    want = []
    nxt = 0
    for a, b in iv:
        if nxt < a:
            want.append((nxt, a - 1, Const(0)))
        want.append((a, b, Const(1)))
        nxt = b + 1
    want.append((nxt, (1 << 32) - 1, Const(0)))
    return want


NEWLINES = {0xA, 0xB, 0xC, 0xD, 0x85, 0x2028, 0x2029}


def C_sets(m, rep, tier):
    z = {i for i in range(128, MAXCP + 1) if ucd.CATS[U().cats[i]] in Z}
    ws = z | NEWLINES | {0x9, 0x20}
    pred(rep, m, "e_is_newline", set_want(NEWLINES), "newline-set", "is_newline")
    pred(rep, m, "e_is_whitespace", set_want(ws), "whitespace-set", "is_whitespace")
    hexd = set(range(0x30, 0x3A)) | set(range(0x41, 0x47)) | set(range(0x61, 0x67))
    pred(rep, m, "e_is_hex_digit", set_want(hexd), "hex-digit-set", "is_hex_digit")
    pred(rep, m, "e_ascii_whitespace", set_want({9, 10, 11, 12, 13, 32}), "whitespace-list", "ASCII_WHITESPACE")
    pred(rep, m, "e_common_whitespace", set_want({9, 10, 13, 32}), "whitespace-list", "COMMON_WHITESPACE")


# ---------------------------------------------------------------- normalisation
def pairs():
    """code point -> (first, second): the canonical mappings to two code points."""
    return {c: tuple(v) for c, v in U().decomp.items() if len(v) == 2}


def full_decomposition(d, c):
    out = []
    while c in d:
        c, b = d[c]
        out.append(b)
    out.append(c)
    return out[::-1]


def C_decompose(m, rep, tier):
    d = pairs()
    keys = sorted(d)
    parts, c, where, fn = partitions(m, rep, "e_decompose")
    rule = "decomposition-equals-UnicodeData"
    seen = set()
    for S, sk, s, e in parts:
        v = [a for n, a in sk if n == "sa_u32str"]
        if len(v) != 1:
            raise Anchor("sa_u32str")
        ln, els = v[0][0], v[0][1:]
        ok = isinstance(ln, IntV) and not s.lin(ln.l).t and len(els) == s.lin(ln.l).c \
            and all(isinstance(x, IntV) for x in els)
        if not ok:
            rep.ob(rule, False, where, fn, "the decomposition of %s has an unknown length or content" % show(S))
            continue
        fs = [concrete(s.lin(x.l), s, S, c) for x in els]
        if any(f is None for f in fs):
            rep.ob(rule, False, where, fn, "the decomposition of %s is not determined" % show(S))
            continue
        wrong = misdecomposed(d, keys, S, s, s.lin(c), els, fs, seen)
        rep.ob(rule, wrong is None, where, fn, "" if wrong is None else
               "U+%04X decomposes to %s, UnicodeData says %s" % (
                   wrong, " ".join("U+%04X" % f(wrong) for f in fs),
                   " ".join("U+%04X" % x for x in full_decomposition(d, wrong))))
    miss = [x for x in keys if x not in seen]
    rep.ob(rule, not miss, where, fn, "no outcome for %s" % miss[:3])
    rep.count("mappings_compared", len(seen))


def misdecomposed(d, keys, S, s, c, els, fs, seen):
    """A code point of S for which the elements aren't its decomposition."""
    wrong = None
    for a, b in S:
        ks = keys[bisect.bisect_left(keys, a):bisect.bisect_right(keys, b)]
        for x in ks:
            if [f(x) for f in fs] == full_decomposition(d, x):
                seen.add(x)
            elif wrong is None and holds(s, ((c, x),)):
                wrong = x
        # every other member stands for itself
        nxt = a
        for x in ks + [b + 1]:
            if wrong is None and nxt < x:
                wrong = not_itself(s, c, els, fs, nxt, x - 1)
            nxt = x + 1
    return wrong


def not_itself(s, c, els, fs, lo, hi):
    """A code point of [lo, hi] in this outcome that is not mapped to itself."""
    if len(els) == 1 and not (s.lin(els[0].l) - c).t and (s.lin(els[0].l) - c).c == 0:
        return None
    s2 = s.copy()
    try:
        if not s2.assume_ge(c + -lo) or not s2.assume_ge(K(hi) - c) or not s2.feasible():
            return None
        S = iv_and(loops.img(s2, s2.lin(c)), ((lo, hi),))
    except Dead:
        return None
    for y in iv_elems(S) if iv_count(S) < 1 << 16 else [a for a, _ in S]:
        if [f(y) for f in fs] != [y] and holds(s, ((c, y),)):
            return y
    return lo if iv_count(S) >= 1 << 16 else None


def two_cp_text(m, entry, n=2, mon=None, fixed=(), seconds=300):
    """Exact outcomes of an entry on texts of n well-formed code points, some of
    them given."""
    mon = mon or prims.Sinks()
    e = interp.Engine(m, contracts=contracts.ALL, monitor=mon, opaque=False)
    e.joins = False
    e.exact_all = True
    e.unroll_all = True
    import time
    e.deadline = time.time() + seconds
    en = drive.Entry(m, entry)
    st, args = en.setup()
    r = ("in", "s")
    z = en.p["n"]
    pos = ZERO
    for _ in range(n):
        pos = pos + contracts.cps(e, st, r, pos)[1]
    st.assume_eq(z - pos)
    pos = ZERO
    chs = []
    for _ in range(n):
        pos = st.lin(pos)
        st.assume_eq(contracts.app("decok", 0, 1, r, pos, st.lin(z)) + -1)
        ch, k = contracts.cps(e, st, r, pos)
        chs.append(ch)
        pos = pos + k
    for i, x in fixed:
        st.assume_eq(st.lin(chs[i]) + -x)
    if hasattr(mon, "start"):
        mon.start(e, st, en)
    e.params = en.p
    e.in_wm = len(SYMS)
    outs = e.call_entry(en.fn, st, args)
    prims.collect(rep_of(e), e)
    return e, en, outs, chs


def rep_of(e):
    e.rep = getattr(e, "rep", None) or Report("-", "-")
    return e.rep


def output(s):
    """The non-empty pieces appended in a state, in order."""
    out = []
    i = 0
    while ("app", i) in s.gh:
        p = s.gh[("app", i)]
        i += 1
        if p[0] == "range" and s.entails_eq(p[3]):
            continue
        out.append(p)
    return out


def C_compose(m, rep, tier):
    """Texts of two well-formed code points: each outcome holds for a set of
    pairs given by linear constraints; none may hold for a pair it is wrong for."""
    d = pairs()
    comp = {v: k for k, v in d.items()}
    byfirst = {}
    for a, b in comp:
        byfirst.setdefault(a, []).append(b)
    e, en, outs, (A, B) = two_cp_text(m, "e_to_composed")
    rep.merge(e.rep.data())
    g = prims.target(m, "e_to_composed")
    where, fn = prims.place(rep, e, g)
    n = en.p["n"]
    seen = set()
    rule = "composition-equals-UnicodeData"
    firsts = sorted(byfirst)
    for kind, v, s in outs:
        if not s.feasible():
            continue
        if kind != "ret":
            rep.ob("no-exception", False, where, fn, "an exception on two well-formed code points")
            continue
        out = output(s)
        a, b = s.lin(A), s.lin(B)
        same = len(out) == 1 and out[0][0] == "range" and out[0][1] == ("in", "s") \
            and s.entails_eq(out[0][2]) and s.entails_eq(out[0][3] - n)
        (alo, ahi), (blo, bhi) = s.interval(a), s.interval(b)
        if same:
            # no pair that composes may end here
            bad = None
            for x in firsts[bisect.bisect_left(firsts, alo):bisect.bisect_right(firsts, ahi)]:
                for y in byfirst[x]:
                    if bad is None and blo <= y <= bhi and holds(s, ((a, x), (b, y))):
                        bad = (x, y)
            rep.ob(rule, bad is None, where, fn, "" if bad is None else
                   "U+%04X U+%04X is not composed, UnicodeData composes it to U+%04X" % (bad + (comp[bad],)))
            continue
        ok = len(out) == 1 and out[0][0] == "enc" and not a.t and not b.t
        if ok:
            l = s.lin(out[0][1])
            w = comp.get((a.c, b.c))
            ok = w is not None and not l.t and l.c == w
            seen.add((a.c, b.c))
            msg = "U+%04X U+%04X is composed to %s, UnicodeData says %s" % (
                a.c, b.c, l, "U+%04X" % w if w else "nothing")
        else:
            msg = "the output for two code points in %s, %s is %s" % ((alo, ahi), (blo, bhi), out)
        rep.ob(rule, ok, where, fn, "" if ok else msg)
    miss = [k for k in comp if k not in seen]
    rep.ob("every-pair-composes", not miss, where, fn, "" if not miss else
           "U+%04X U+%04X is not composed to U+%04X" % (miss[0] + (comp[miss[0]],)))
    rep.count("pairs_compared", len(seen))


def holds(s, eqs):
    s2 = s.copy()
    try:
        for l, x in eqs:
            if not s2.assume_eq(l + -x):
                return False
        return s2.feasible()
    except Dead:
        return False
