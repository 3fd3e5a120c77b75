"""Exact analysis of the UTF-8 primitives: every loop is unrolled (it runs a
constant number of times) and no states are merged, so that each outcome is a
linear function of the bytes on a set of inputs given by value sets."""
import time

import interp
import drive
import dom
from lin import Lin, K, ZERO, SYMS, new_sym, iv_and, iv_sub
from dom import IntV, PtrV, C, Dead

from core import Anchor, Report

INVALID = 0xFFFFFFFF
ANY = ((0, 255),)
CONT = ((0x80, 0xBF),)
NOTCONT = ((0, 0x7F), (0xC0, 0xFF))
LEAD = {1: ((0, 0x7F),), 2: ((0xC0, 0xDF),), 3: ((0xE0, 0xEF),), 4: ((0xF0, 0xF7),)}
BAD = ((0x80, 0xBF), (0xF8, 0xFF))


class Sinks:
    """Keeps what reached the sinks in the state."""

    def on_sink(self, eng, st, ins, sink, args):
        n = sum(1 for k in st.gh if isinstance(k, tuple) and k[0] == "sink")
        if sink in ("sa_str", "sa_u32str"):
            # the length and, when that is a constant, the elements
            k = eng.obj_key(st, args[0])
            o = st.obj.get(k)
            if o is None or o.kind != "str":
                raise Anchor("string given to " + sink)
            ln = st.lin(o.f["len"].l)
            args = [IntV(64, ln)]
            if not ln.t and 0 <= ln.c <= 16:
                es = o.f["es"]
                for i in range(ln.c):
                    args.append(eng.peek(st, ("b",) + k, K(i * es), es))
        for i, a in enumerate(args):
            st.gh[("sink", n, sink, i)] = a
        if not args:
            st.gh[("sink", n, sink, 0)] = None

    def on_append(self, eng, st, ins, key, src):
        n = sum(1 for k in st.gh if isinstance(k, tuple) and k[0] == "app")
        st.gh[("app", n)] = src


def sunk(s):
    """[(sink, [args])] of a state."""
    d = {}
    for k, v in s.gh.items():
        if isinstance(k, tuple) and k[0] == "sink":
            d.setdefault((k[1], k[2]), {})[k[3]] = v
    out = []
    for i, ((n, name), a) in enumerate(sorted(d.items())):
        out.append((name, [a[j] for j in sorted(a)]))
    # the index counts arguments, not sinks: only the order matters
    return out


LIMIT = [None]


def small_texts(rep, f, *args):
    """Runs a check; when it cannot be settled for texts of any size (a counter
    that wraps), settles it for those of less than 4 GiB and says so."""
    r = Report(rep.pid, rep.tier)
    f(args[0], r, *args[1:])
    if r.bad:
        LIMIT[0] = (1 << 32) - 2
        try:
            r2 = Report(rep.pid, rep.tier)
            f(args[0], r2, *args[1:])
            if not r2.bad:
                r = r2
                r.count("settled_for_texts_below_4_GiB_only")
        finally:
            LIMIT[0] = None
    rep.merge(r.data())


def exact(m, name, deadline=None, room=None, **kw):
    mon = Sinks()
    e = interp.Engine(m, contracts={}, monitor=mon, opaque=False)
    e.joins = False
    e.exact_all = True
    e.deadline = deadline or time.time() + 300
    for k, v in kw.items():
        setattr(e, k, v)
    en = drive.Entry(m, name)
    st, args = en.setup()
    if room is not None:
        st.assume_ge(en.p["dst_size"] + -room)
    e.params = en.p
    e.in_wm = len(SYMS)
    if LIMIT[0] is not None:
        for r in list(st.rgn):
            if r[0] == "in" and not st.assume_ge(K(LIMIT[0]) - st.rgn[r]):
                raise Dead()
    outs = e.call_entry(en.fn, st, args)
    return e, en, outs


def collect(rep, e):
    """The engine's own obligations (memory, shifts, ...) of an exact run."""
    for o in e.log:
        rep.ob("safety:" + o.kind, o.ok, o.loc, o.fn, o.msg or "", o.trace)
    for f in e.fns_seen:
        rep.functions.add(f if isinstance(f, str) else f.dem)
    rep.count("abstract_steps", e.steps)


def place(rep, e, fn):
    return drive.fn_ins(fn).loc(), fn.dem


def target(m, entry):
    """The library function that an entry wrapper calls first."""
    f = m.fns.get(entry)
    if f is None or f.decl:
        raise Anchor(entry)
    return drive.target(m, f)


def constrain(e, s, r, off, iv):
    """States of s in which the byte at off lies in iv (a copy)."""
    v = e.peek(s, r, off, 1)
    if v is None:
        q = Lin.sym(new_sym("b", 0, 255))
        s.memo = s.memo + [(r, s.lin(off), 1, IntV(8, q))]
        v = IntV(8, q)
    out = []
    for s2, l in e.uns(s, v):
        for yes, s3 in e.member_fork(s2, l, iv):
            if yes:
                out.append((s3, s3.lin(l)))
    return out


def byte_states(e, s, r, base, pattern):
    """[(state, [byte Lins])] with byte base+i in pattern[i]."""
    cur = [(s.copy(), [])]
    for i, iv in enumerate(pattern):
        nxt = []
        for s2, bs in cur:
            for s3, l in constrain(e, s2, r, base + i, iv):
                nxt.append((s3, bs + [l]))
        cur = nxt
    return [(s2, [s2.lin(b) for b in bs]) for s2, bs in cur]


def dec_value(n, b):
    if n == 1:
        return b[0]
    if n == 2:
        return (b[0] + -0xC0).scale(64) + (b[1] + -0x80)
    if n == 3:
        return (b[0] + -0xE0).scale(4096) + (b[1] + -0x80).scale(64) + (b[2] + -0x80)
    return (b[0] + -0xF0).scale(1 << 18) + (b[1] + -0x80).scale(4096) \
        + (b[2] + -0x80).scale(64) + (b[3] + -0x80)


def forward_classes():
    """(name, min remaining, max remaining, pattern, length or 0)."""
    out = [("end of the range", 0, 0, [], 0)]
    out.append(("a byte that starts no sequence", 1, None, [BAD], 0))
    for n in (1, 2, 3, 4):
        out.append(("a complete %d-byte sequence" % n, n, None, [LEAD[n]] + [CONT] * (n - 1), n))
        if n > 1:
            out.append(("a truncated %d-byte sequence" % n, 1, n - 1, [LEAD[n]], 0))
        for k in range(1, n):
            out.append(("a %d-byte sequence broken at byte %d" % (n, k + 1), n, None,
                        [LEAD[n]] + [CONT] * (k - 1) + [NOTCONT], 0))
    return out


def backward_classes():
    """Patterns are the last bytes before the end, in text order."""
    out = [("the start of the range", 0, 0, [], 0)]
    out.append(("a complete 1-byte sequence", 1, None, [LEAD[1]], 1))
    out.append(("a lead byte without continuation", 1, None, [((0xC0, 0xFF),)], 0))
    for k in (1, 2, 3):
        # k continuation bytes preceded by something else
        if k + 1 in LEAD:
            out.append(("a complete %d-byte sequence" % (k + 1), k + 1, None,
                        [LEAD[k + 1]] + [CONT] * k, k + 1))
        rest = iv_sub(NOTCONT, LEAD[k + 1])
        out.append(("%d continuation bytes after a wrong lead byte" % k, k + 1, None,
                    [rest] + [CONT] * k, 0))
        out.append(("%d continuation bytes at the start of the range" % k, k, k, [CONT] * k, 0))
    out.append(("four or more continuation bytes", 4, None, [CONT] * 4, 0))
    return out


def check_decode(m, rep, entry, classes, back):
    e, en, outs = exact(m, entry)
    collect(rep, e)
    r = ("in", "s")
    a, z = en.p["a"], en.p["e"]
    g = target(m, entry)
    where, fn = place(rep, e, g)
    rep.count("outcome_partitions", len(outs))
    covered = {c[0]: 0 for c in classes}
    for kind, v, s in outs:
        if kind != "ret":
            rep.ob("no-exception", False, where, fn, "an exception leaves the primitive")
            continue
        sk = dict((n, x) for n, x in sunk(s))
        if "sa_iter" not in sk or "sa_char" not in sk:
            raise Anchor("sinks of " + entry)
        it, ch = sk["sa_iter"][0], sk["sa_char"][0]
        for name, lo, hi, pat, n in classes:
            s2 = s.copy()
            try:
                if not s2.assume_ge(z - a + -lo):
                    continue
                if hi is not None and not s2.assume_ge(a - z + hi):
                    continue
                base = s2.lin(z + -len(pat)) if back else s2.lin(a)
                states = byte_states(e, s2, r, base, pat)
            except Dead:
                continue
            for s3, bs in states:
                if not s3.feasible():
                    continue
                covered[name] += 1
                if n:
                    want_ch = s3.lin(dec_value(n, bs))
                    want_it = s3.lin(z + -n) if back else s3.lin(a + n)
                else:
                    want_ch = K(INVALID)
                    want_it = s3.lin(z) if back else s3.lin(a)
                ok1 = isinstance(it, PtrV) and it.r == r and s3.entails_eq(it.l - want_it)
                rep.ob("cursor", ok1, where, fn,
                       "on %s the cursor ends at %s instead of %s" % (name, e.show(s3, it.l) if isinstance(it, PtrV) else it, e.show(s3, want_it)))
                ok2 = False
                shown = "an undefined value"
                if isinstance(ch, IntV):
                    for s4, cl in e.uns(s3.copy(), ch):
                        ok2 = s4.entails_eq(cl - want_ch)
                        shown = e.show(s4, cl)
                        if not ok2:
                            break
                rep.ob("value", ok2, where, fn, "on %s the result is %s instead of %s" % (
                    name, shown, "INVALID_CHAR" if not n else e.show(s3, want_ch)))
    for name, k in covered.items():
        rep.ob("every-input-class-has-an-outcome", k > 0, where, fn,
               "no outcome for %s" % name)
        rep.sample("%s: %d outcome partition(s) compared" % (name, k), 30)
    return e


def C01(m, rep, tier):
    check_decode(m, rep, "e_decode_next", forward_classes(), False)


def C02(m, rep, tier):
    check_decode(m, rep, "e_decode_prev", backward_classes(), True)


# ------------------------------------------------------------ encoding
ENC = {1: (0, 0x7F), 2: (0x80, 0x7FF), 3: (0x800, 0xFFFF), 4: (0x10000, 0x10FFFF)}


def check_bytes(rep, e, s, bs, n, c, where, fn, what):
    """bs are the n bytes of the well-formed sequence that decodes to c."""
    ok = len(bs) == n and all(isinstance(b, IntV) for b in bs)
    shown = "it is %s" % (bs,)
    if ok:
        states = [(s.copy(), [])]
        for b in bs:
            states = [(s3, acc + [l]) for s2, acc in states for s3, l in e.uns(s2, b)]
        for s2, ls in states:
            pat = [LEAD[n]] + [CONT] * (n - 1)
            for i, (l, iv) in enumerate(zip(ls, pat)):
                l = s2.lin(l)
                r = e.member_fork(s2.copy(), l, iv)
                if any(not yes and s3.feasible() for yes, s3 in r):
                    ok = False
                    shown = "byte %d may be outside %s" % (i, iv)
            if not s2.entails_eq(dec_value(n, ls) - c):
                ok = False
                shown = "the bytes stand for %s instead of %s" % (e.show(s2, dec_value(n, ls)), e.show(s2, c))
    rep.ob("encoding", ok, where, fn, "%s is not the %d-byte sequence of the code point: %s" % (what, n, shown))


def enc_split(e, en, s):
    """[(state, c, n)] by the length of the encoding of parameter c."""
    out = []
    c = en.p["c"]
    for n, (lo, hi) in list(ENC.items()) + [(0, (0x110000, 0xFFFFFFFF))]:
        s2 = s.copy()
        try:
            if s2.assume_ge(c + -lo) and s2.assume_ge(K(hi) - c) and s2.feasible():
                out.append((s2, s2.lin(c), n))
        except Dead:
            pass
    return out


def only(sk, name):
    v = [a for n, a in sk if n == name]
    if len(v) != 1:
        raise Anchor(name)
    return v[0]


def encode_buffer(m, rep, entry, bounded=True):
    e, en, outs = exact(m, entry, room=None if bounded else 4)
    collect(rep, e)
    where, fn = place(rep, e, target(m, entry))
    rep.count("outcome_partitions", len(outs))
    r = ("in", "dst")
    seen = set()
    for kind, v, s0 in outs:
        rep.ob("no-exception", kind == "ret", where, fn, "an exception leaves the function")
        if kind != "ret":
            continue
        for s, c, n in enc_split(e, en, s0):
            for fits, s2 in e.fork_ge(s.copy(), en.p["dst_size"] + -n):
                k = n if fits else 0
                seen.add((n, fits))
                res = only(sunk(s2), "sa_size")[0]
                rep.ob("length", isinstance(res, IntV) and s2.entails_eq(res.l + -k), where, fn,
                       "the result is %s for a %d-byte code point when the buffer %s" % (res, n, "is large enough" if fits else "is too small"))
                writes = [x for x in s2.memo if x[0] == r]
                inside = all(s2.entails_ge(x[1]) and s2.entails_ge(K(k) - x[1] + -x[2]) for x in writes)
                rep.ob("writes-only-the-encoding", inside, where, fn,
                       "bytes outside the %d-byte encoding are written" % k)
                if k:
                    bs = [e.peek(s2, r, K(i), 1) for i in range(k)]
                    check_bytes(rep, e, s2, bs, k, c, where, fn, "the buffer's content")
    want = {(n, True) for n in (0, 1, 2, 3, 4)} | {(n, False) for n in (1, 2, 3, 4) if bounded}
    for x in sorted(want):
        rep.ob("every-input-class-has-an-outcome", x in seen, where, fn, "no outcome for %s" % (x,))


def C03(m, rep, tier):
    # into a buffer of any size
    encode_buffer(m, rep, "e_encode_buf")
    # into one that the caller knows to be large enough
    encode_buffer(m, rep, "e_encode_ptr", False)
    # appended to a string
    for entry, ret in (("e_encode_out", "sa_size"), ("e_from_utf32_char", None), ("e_append_empty", None)):
        e, en, outs = exact(m, entry)
        collect(rep, e)
        where, fn = place(rep, e, target(m, entry))
        rep.count("outcome_partitions", len(outs))
        for kind, v, s0 in outs:
            for s, c, n in enc_split(e, en, s0):
                if entry == "e_append_empty" and n == 0:
                    rep.ob("unencodable-is-rejected", kind == "exc" and YEX in e.ti_bases(v.ti), where, fn,
                           "no exception for an unencodable code point")
                    continue
                rep.ob("no-exception", kind == "ret", where, fn, "an exception leaves the function")
                if kind != "ret":
                    continue
                sk = sunk(s)
                st = only(sk, "sa_str")
                rep.ob("length", s.entails_eq(st[0].l + -n), where, fn,
                       "%s bytes are appended for a %d-byte code point" % (st[0], n))
                if ret:
                    res = only(sk, ret)[0]
                    rep.ob("length", isinstance(res, IntV) and s.entails_eq(res.l + -n), where, fn,
                           "the result is %s for a %d-byte code point" % (res, n))
                if n:
                    check_bytes(rep, e, s, st[1:], n, c, where, fn, "the appended text")
    e, en, outs = exact(m, "e_encoded_length")
    collect(rep, e)
    where, fn = place(rep, e, target(m, "e_encoded_length"))
    for kind, v, s0 in outs:
        for s, c, n in enc_split(e, en, s0):
            res = only(sunk(s), "sa_size")[0]
            rep.ob("length", isinstance(res, IntV) and s.entails_eq(res.l + -n), where, fn,
                   "the encoded length of a %d-byte code point is %s" % (n, res))


# ------------------------------------------------------------ skipping
def check_skip(m, rep, entry, classes, back):
    e, en, outs = exact(m, entry)
    collect(rep, e)
    r = ("in", "s")
    a, z = en.p["a"], en.p["e"]
    where, fn = place(rep, e, target(m, entry))
    rep.count("outcome_partitions", len(outs))
    covered = {c[0]: 0 for c in classes}
    for kind, v, s in outs:
        rep.ob("no-exception", kind == "ret", where, fn, "an exception leaves the primitive")
        if kind != "ret":
            continue
        sk = sunk(s)
        it, ok = only(sk, "sa_iter")[0], only(sk, "sa_bool")[0]
        good = isinstance(it, PtrV) and it.r == r and isinstance(ok, IntV)
        rep.ob("cursor", good, where, fn, "the cursor is %s" % (it,))
        if not good:
            continue
        for empty, s2 in e.fork_eq(s.copy(), z - a):
            if empty:
                rep.ob("nothing-to-skip", s2.entails_eq(ok.l) and s2.entails_eq(it.l - a), where, fn,
                       "something is skipped in an empty range")
                continue
            moved = (z - it.l) if back else (it.l - a)
            left = (it.l - a) if back else (z - it.l)
            rep.ob("progress", s2.entails_ge(moved + -1), where, fn, "the cursor may stay")
            rep.ob("in-range", s2.entails_ge(left), where, fn, "the cursor may leave the range")
            rep.ob("reports-progress", s2.entails_ne(ok.l), where, fn, "false is returned though something was skipped")
        for name, lo, hi, pat, n in classes:
            if not n:
                continue
            s2 = s.copy()
            try:
                if not s2.assume_ge(z - a + -lo):
                    continue
                base = s2.lin(z + -len(pat)) if back else s2.lin(a)
                states = byte_states(e, s2, r, base, pat)
            except Dead:
                continue
            for s3, bs in states:
                if not s3.feasible():
                    continue
                covered[name] += 1
                want = s3.lin(z + -n) if back else s3.lin(a + n)
                rep.ob("skips-the-sequence", s3.entails_eq(it.l - want), where, fn,
                       "on %s the cursor ends at %s instead of %s" % (name, e.show(s3, it.l), e.show(s3, want)))
    for name, lo, hi, pat, n in classes:
        if n:
            rep.ob("every-input-class-has-an-outcome", covered[name] > 0, where, fn, "no outcome for " + name)


def C04(m, rep, tier):
    small_texts(rep, check_skip, m, "e_skip_next", forward_classes(), False)
    small_texts(rep, check_skip, m, "e_skip_prev", backward_classes(), True)
    small_texts(rep, check_view, m, "e_remove_cp", forward_classes(), False, False)
    small_texts(rep, check_view, m, "e_remove_last_cp", backward_classes(), True, False)


# ------------------------------------------------------------ strict decoding
YEX = "_ZTIN7ystring16YstringExceptionE"


def check_view(m, rep, entry, classes, back, strict):
    """Functions that take a code point off a view (or a range)."""
    e, en, outs = exact(m, entry)
    collect(rep, e)
    r = ("in", "s")
    view = "n" in en.p
    a, z = (ZERO, en.p["n"]) if view else (en.p["a"], en.p["e"])
    where, fn = place(rep, e, target(m, entry))
    rep.count("outcome_partitions", len(outs))
    covered = {c[0]: 0 for c in classes}
    for kind, v, s in outs:
        if kind == "exc":
            rep.ob("exception-type", YEX in e.ti_bases(v.ti), where, fn, "throws " + v.ti)
        for name, lo, hi, pat, n in classes:
            s2 = s.copy()
            try:
                if not s2.assume_ge(z - a + -lo):
                    continue
                if hi is not None and not s2.assume_ge(a - z + hi):
                    continue
                base = s2.lin(z + -len(pat)) if back else s2.lin(a)
                states = byte_states(e, s2, r, base, pat)
            except Dead:
                continue
            for s3, bs in states:
                if not s3.feasible():
                    continue
                covered[name] += 1
                sk = sunk(s3)
                if not strict and not n and lo > 0:
                    continue         # C04 only promises progress there
                if strict and not n and lo > 0:
                    rep.ob("invalid-text-is-rejected", kind == "exc", where, fn,
                           "no exception on " + name)
                    if kind != "exc":
                        continue
                else:
                    rep.ob("valid-text-is-accepted", kind == "ret", where, fn,
                           "an exception on " + name)
                    if kind != "ret":
                        continue
                # where the cursor or view ends up
                k = n
                if view:
                    vs = [x for y, x in sk if y == "sa_view"]
                    if kind == "exc" and not vs:
                        continue
                    p, ln = vs[0]
                    lo2, hi2 = (a, z + -k) if back else (a + k, z)
                    ok = isinstance(p, PtrV) and isinstance(ln, IntV) and p.r == r \
                        and s3.entails_eq(p.l - lo2) and s3.entails_eq(p.l + ln.l - hi2)
                    rep.ob("remaining-view", ok, where, fn,
                           "on %s the view that remains is %s, %s" % (name, p, ln))
                else:
                    vs = [x for y, x in sk if y == "sa_iter"]
                    if kind == "exc" and not vs:
                        continue
                    it = vs[0][0]
                    want = (z + -k) if back else (a + k)
                    rep.ob("cursor", isinstance(it, PtrV) and it.r == r and s3.entails_eq(it.l - want), where, fn,
                           "on %s the cursor ends at %s" % (name, it))
                if kind == "exc":
                    continue
                if strict:
                    ch = [x for y, x in sk if y == "sa_char"]
                    none = any(y == "sa_none" for y, x in sk)
                    if not n:
                        rep.ob("nothing-left", none and not ch, where, fn, "a code point is returned at the end")
                    else:
                        ok = len(ch) == 1 and isinstance(ch[0][0], IntV) and \
                            s3.entails_eq(ch[0][0].l - dec_value(n, bs))
                        rep.ob("value", ok, where, fn, "on %s the code point is %s" % (name, ch))
                else:
                    b = only(sk, "sa_bool")[0]
                    rep.ob("reports-progress", isinstance(b, IntV) and s3.entails_eq(b.l + -(1 if lo else 0)),
                           where, fn, "on %s the result is %s" % (name, b))
    for name in covered:
        rep.ob("every-input-class-has-an-outcome", covered[name] > 0, where, fn, "no outcome for " + name)


def C05(m, rep, tier):
    for entry, back in (("e_safe_decode_next", False), ("e_safe_decode_prev", True),
                        ("e_pop_cp", False), ("e_pop_last_cp", True)):
        check_view(m, rep, entry, backward_classes() if back else forward_classes(), back, True)
