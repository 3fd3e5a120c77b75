"""Contracts of the primitives.  Each is established for the primitive's own
body (see prim.py) and used at its call sites elsewhere."""
import re

from lin import Lin, K, ZERO, SYMS, new_sym, iv_norm, iv_and
from dom import IntV, PtrV, UNDEF, NULL, C, Dead, derived, is_root
from calls import VOID, _pty

INVALID = 0xFFFFFFFF
MAXCP = 0x1FFFFF


def app(name, lo, hi, *args):
    return Lin.sym(derived(("app", name) + args, lo, hi, name))


def immutable(eng, st, r):
    return r is not None and r[0] == "in" and r[1] not in eng.mutable


def _load(eng, st, p, ins):
    v = eng.load(st, p, _pty(eng), ins)
    if type(v) is list:
        return v
    return [(st, v)]


def _ends(eng, st, ins, a, e, what):
    """Common preconditions of the primitives: a valid range."""
    if not (isinstance(a, PtrV) and isinstance(e, PtrV)):
        eng.check(st, False, "mem", ins, what + " on unknown iterators")
        return False
    if a.r != e.r:
        eng.check(st, False, "mem", ins, what + " on iterators of different objects")
        return False
    if a.r is None:
        return True
    z = eng.rgn_size(st, a.r)
    if z is None:
        eng.check(st, False, "mem", ins, what + " on an object whose lifetime has ended")
        return False
    ok = st.entails_ge(a.l) and st.entails_ge(e.l - a.l) and st.entails_ge(z - e.l)
    eng.check(st, ok, "mem", ins, None if ok else "%s on [%s, %s) outside [0, %s] of %s" % (
        what, eng.show(st, a.l), eng.show(st, e.l), eng.show(st, z), eng.rname(a.r)))
    if not ok and not (st.assume_ge(a.l) and st.assume_ge(e.l - a.l) and st.assume_ge(z - e.l)):
        raise Dead()
    return True


def is_char_iter(fn):
    return "char const*" in fn.dem or "char*" in fn.dem or "__normal_iterator" in fn.dem


def cps(eng, st, r, l):
    """Symbols of the code point encoded at [l, ...) of region r."""
    l = st.lin(l)
    if immutable(eng, st, r):
        return app("dec", 0, MAXCP, r, l), app("declen", 1, 4, r, l)
    return (Lin.sym(new_sym("ch", 0, MAXCP)), Lin.sym(new_sym("len", 1, 4)))


def decode_next(eng, st, ins, fn, args):
    out = []
    for s0, a in _load(eng, st, args[0], ins):
        e = args[1]
        if not _ends(eng, s0, ins, a, e, "decode_next"):
            return None
        d = s0.lin(e.l - a.l)
        for z, s in eng.fork_eq(s0, d):
            if z:
                out.append((s, C(32, INVALID)))
                continue
            if not s.assume_ge(d + -1):
                continue
            al = s.lin(a.l)
            b = eng.peek(s, a.r, al, 1)
            states = [(s, None)]
            if isinstance(b, IntV):
                states = []
                for s2, x in eng.uns(s, b):
                    for hi, s3 in eng.fork_ge(s2, x + -128):
                        states.append((s3, None if hi else x))
            for s2, x in states:
                if x is not None:
                    # a byte below 0x80 stands for itself
                    if immutable(eng, s2, a.r):
                        ch, k = cps(eng, s2, a.r, al)
                        if not (s2.assume_eq(ch - x) and s2.assume_eq(k + -1)):
                            continue
                    eng.store(s2, args[0], PtrV(a.r, s2.lin(al + 1)), 8, ins)
                    eng.ev("decoded", s2, ins, r=a.r, a=al, k=K(1), ch=s2.lin(x), end=e.l)
                    out.append((s2, IntV(32, s2.lin(x))))
                    continue
                f = s2.copy()
                live = True
                if immutable(eng, f, a.r):
                    ok = app("decok", 0, 1, a.r, al, f.lin(e.l))
                    live = f.assume_eq(ok)
                if live:
                    eng.ev("undecoded", f, ins, r=a.r, a=al, end=e.l)
                    out.append((f, C(32, INVALID)))
                ch, k = cps(eng, s2, a.r, al)
                if immutable(eng, s2, a.r):
                    ok = app("decok", 0, 1, a.r, al, s2.lin(e.l))
                    if not s2.assume_eq(ok + -1):
                        continue
                if not s2.assume_ge(d - k):
                    continue
                eng.store(s2, args[0], PtrV(a.r, s2.lin(al + k)), 8, ins)
                eng.ev("decoded", s2, ins, r=a.r, a=al, k=k, ch=s2.lin(ch), end=e.l)
                out.append((s2, IntV(32, s2.lin(ch))))
    return out


def decode_prev(eng, st, ins, fn, args):
    out = []
    b = args[0]
    for s0, e in _load(eng, st, args[1], ins):
        if not _ends(eng, s0, ins, b, e, "decode_prev"):
            return None
        d = s0.lin(e.l - b.l)
        for z, s in eng.fork_eq(s0, d):
            if z:
                out.append((s, C(32, INVALID)))
                continue
            if not s.assume_ge(d + -1):
                continue
            el = s.lin(e.l)
            f = s.copy()
            live = True
            imm = immutable(eng, s, e.r)
            if imm:
                ok = app("decpok", 0, 1, e.r, el, s.lin(b.l))
                live = f.assume_eq(ok)
            if live:
                eng.ev("unprev", f, ins, r=e.r, e=el, begin=b.l)
                out.append((f, C(32, INVALID)))
            if imm:
                if not s.assume_eq(ok + -1):
                    continue
                p = app("prevpos", 0, 1 << 62, e.r, el)
            else:
                p = Lin.sym(new_sym("p", 0, 1 << 62))
            ch, k = cps(eng, s, e.r, p)
            if not (s.assume_eq(p + k - el) and s.assume_ge(p - b.l)):
                continue
            if imm:
                okn = app("decok", 0, 1, e.r, s.lin(p), el)
                if not s.assume_eq(okn + -1):
                    continue
            eng.store(s, args[1], PtrV(e.r, s.lin(p)), 8, ins)
            eng.ev("prev", s, ins, r=e.r, a=s.lin(p), k=k, ch=s.lin(ch), begin=b.l, e=el)
            out.append((s, IntV(32, s.lin(ch))))
    return out


def skip_next(eng, st, ins, fn, args):
    out = []
    for s0, a in _load(eng, st, args[0], ins):
        e = args[1]
        if not _ends(eng, s0, ins, a, e, "skip_next"):
            return None
        d = s0.lin(e.l - a.l)
        for z, s in eng.fork_eq(s0, d):
            if z:
                out.append((s, C(1, 0)))
                continue
            if not s.assume_ge(d + -1):
                continue
            al = s.lin(a.l)
            if immutable(eng, s, a.r):
                p = app("skipto", 1, 1 << 62, a.r, al, s.lin(e.l))
            else:
                p = Lin.sym(new_sym("p", 1, 1 << 62))
            if not (s.assume_ge(p - al + -1) and s.assume_ge(e.l - p)):
                continue
            eng.store(s, args[0], PtrV(a.r, s.lin(p)), 8, ins)
            eng.ev("skipped", s, ins, r=a.r, a=al, p=s.lin(p), end=e.l)
            out.append((s, C(1, 1)))
    return out


def skip_prev(eng, st, ins, fn, args):
    out = []
    b = args[0]
    for s0, e in _load(eng, st, args[1], ins):
        if not _ends(eng, s0, ins, b, e, "skip_prev"):
            return None
        d = s0.lin(e.l - b.l)
        for z, s in eng.fork_eq(s0, d):
            if z:
                out.append((s, C(1, 0)))
                continue
            if not s.assume_ge(d + -1):
                continue
            el = s.lin(e.l)
            if immutable(eng, s, e.r):
                p = app("skipback", 0, 1 << 62, e.r, el, s.lin(b.l))
            else:
                p = Lin.sym(new_sym("p", 0, 1 << 62))
            if not (s.assume_ge(el - p + -1) and s.assume_ge(p - b.l)):
                continue
            eng.store(s, args[1], PtrV(e.r, s.lin(p)), 8, ins)
            eng.ev("skippedback", s, ins, r=e.r, e=el, p=s.lin(p), begin=b.l)
            out.append((s, C(1, 1)))
    return out


def enc_len(s, ch):
    """[(state, Lin length)] of the encoding of ch."""


def enc_cases(eng, st, c):
    """[(state, ch Lin, n)]: length of the encoding, 0 when not encodable."""
    out = []
    for s, l in eng.uns(st, c):
        todo = s
        for bound, n in ((0x80, 1), (0x800, 2), (0x10000, 3), (0x110000, 4)):
            nxt = None
            for ge, s2 in eng.fork_ge(todo, l + -bound):
                if ge:
                    nxt = s2
                else:
                    out.append((s2, s2.lin(l), n))
            todo = nxt
            if todo is None:
                break
        if todo is not None:
            out.append((todo, todo.lin(l), 0))
    return out


def encode_utf8(eng, st, ins, fn, args):
    p = fn.dem
    if args and not isinstance(args[0], IntV):
        eng.check(st, False, "mem", ins, "an uninitialised value is encoded")
        args = [IntV(32, eng.fresh("undef", 0, (1 << 32) - 1))] + list(args[1:])
    if "back_insert_iterator" in p:
        it = args[1]
        if not isinstance(it, PtrV):
            return None
        out = []
        # the container behind the iterator (passed directly in a register)
        k = eng.obj_key(st, it)
        if k not in st.obj:
            return None
        for s, l in eng.uns(st, args[0]):
            for big, s2 in eng.fork_ge(s, l + -0x110000):
                if big:
                    out.append((s2, C(64, 0)))
                    continue
                l2 = s2.lin(l)
                n = app("enclen", 1, 4, l2)
                # length brackets
                lo, hi = s2.interval(l2)
                f = lambda x: 1 if x < 0x80 else 2 if x < 0x800 else 3 if x < 0x10000 else 4
                if not s2.assume_ge(n + -f(max(lo, 0))) or not s2.assume_ge(K(f(hi)) - n):
                    continue
                n = s2.lin(n)
                eng.str_append(s2, ins, k, ("enc", l2, n))
                out.append((s2, IntV(64, n)))
        return out
    room = "unsigned long" in p and len(args) == 3
    if (room or "<char*>" in p and len(args) == 2) and isinstance(args[1], PtrV):
        out = []
        dst = args[1]
        for s, l, n in enc_cases(eng, st, args[0]):
            if n == 0:
                eng.ev("encoded", s, ins, dst=dst, n=n, ch=l)
                out.append((s, C(64, 0)))
                continue
            for s2, sz in eng.uns(s, args[2]) if room else [(s, K(n))]:
                for fits, s3 in eng.fork_ge(s2, sz + -n):
                    if not fits:
                        out.append((s3, C(64, 0)))
                        continue
                    # the n bytes written must belong to the destination
                    z = eng.rgn_size(s3, dst.r)
                    ok = z is not None and s3.entails_ge(dst.l) and s3.entails_ge(z - dst.l + -n)
                    eng.check(s3, ok, "mem", ins, "encode_utf8 writes %d byte(s) outside the destination" % n)
                    eng.ev("encoded", s3, ins, dst=dst, n=n, ch=l)
                    if eng.is_cells(dst.r):
                        dl = s3.lin(dst.l)
                        if not dl.t:
                            for i in range(n):
                                s3.mem[(dst.r, dl.c + i)] = (1, IntV(8, l if n == 1 else Lin.sym(new_sym("b", 128, 255))))
                        else:
                            eng.smear(s3, dst.r, dl, n)
                    else:
                        eng.invalidate(s3, dst.r, s3.lin(dst.l), n)
                    out.append((s3, C(64, n)))
        return out
    return None


def span_contains(name):
    def h(eng, st, ins, fn, args):
        if len(args) != 3:
            return None
        n, p, c = args
        if not (isinstance(n, IntV) and isinstance(c, IntV) and isinstance(p, PtrV)):
            return None
        out = []
        for s, nl in eng.uns(st, n):
            for s2, cl in eng.uns(s, c):
                eng.read_range(s2, p, nl, 4, ins, name)
                nl, cl = s2.lin(nl), s2.lin(cl)
                if p.r is not None and p.r[0] not in ("in", "g"):
                    out.append((s2, eng.top_of(s2, ins.ty)))
                    continue
                if p.r is not None and p.r[0] == "g" and not p.l.t and not nl.t and name == "contains":
                    vals = set()
                    for i in range(nl.c):
                        v = eng.global_bytes(p.r[1], p.l.c + 4 * i, 4)
                        vals.add(v)
                    if None not in vals:
                        from dom import _Test
                        from lin import iv_from
                        import lin
                        f = app("member", 0, 1, iv_from(vals), cl)
                        r = eng.member_fork(s2, cl, iv_from(vals))
                        out.extend((s3, C(1, int(v))) for v, s3 in r)
                        continue
                f = app(name, 0, 1, p.r, s2.lin(p.l), nl, cl)
                for v, s3 in eng.fork_ge(s2, f + -1):
                    out.append((s3, C(1, int(v))))
        return out
    return h


def contains(eng, st, ins, fn, args):
    if "char32_t, std::char_traits<char32_t>" not in fn.dem.split(",")[0] + "," + fn.dem.split(",")[1] \
            if "," in fn.dem else True:
        return None
    return span_contains("contains")(eng, st, ins, fn, args)


def set_contains(name):
    def h(eng, st, ins, fn, args):
        k = eng.obj_key(st, args[0])
        o = st.obj.get(k)
        if o is None or o.kind != "vec" or "id" not in o.f:
            return None
        out = []
        for s, cl in eng.uns(st, args[1]):
            f = app(name, 0, 1, o.f["id"], s.lin(cl))
            for v, s3 in eng.fork_ge(s, f + -1):
                out.append((s3, C(1, int(v))))
        return out
    return h


def case_map(eng, st, ins, fn, args):
    """Established by T02: code points are mapped to code points, other values
    to themselves."""
    if len(args) != 1 or not isinstance(args[0], IntV):
        return None
    name = eng.bname(fn)
    out = []
    for s, l in eng.uns(st, args[0]):
        for big, s2 in eng.fork_ge(s, l + -0x110000):
            l2 = s2.lin(l)
            if big:
                out.append((s2, IntV(32, l2)))
            elif not l2.t:
                out.append((s2, C(32, eng.const_eval(fn, [l2.c]))))
            else:
                out.append((s2, IntV(32, s2.lin(app(name, 0, 0x10FFFF, l2)))))
    return out


ALL = {
    "ystring::to_upper": case_map,
    "ystring::to_lower": case_map,
    "ystring::to_title": case_map,
    "ystring::decode_next": decode_next,
    "ystring::decode_prev": decode_prev,
    "ystring::skip_next": skip_next,
    "ystring::skip_prev": skip_prev,
    "ystring::encode_utf8": encode_utf8,
    "ystring::contains": contains,
    "ystring::case_insensitive_contains": span_contains("ci_contains"),
    "ystring::CodepointSet::contains": set_contains("set_contains"),
    "ystring::CodepointSet::case_insensitive_contains": set_contains("set_ci_contains"),
}


NAMES = {"find_first": "srch", "find_last": "lsrch"}


def match(eng, st, name, p, lo, hi, key):
    """(offset, length, l) of the match in [lo, hi) of the text at p; l is 0 if there is none.
    Named after all it depends on if that does not change."""
    exact = name in NAMES
    args = []
    for x in key:
        if isinstance(x, IntV):
            args.append(st.lin(x.l))
        elif isinstance(x, PtrV) and immutable(eng, st, x.r):
            args[len(args):] = [x.r, st.lin(x.l)]
        elif isinstance(x, PtrV) and x.r is not None and x.r[0] == "obj":
            args.append("set")
        else:
            args = None
            break
    if args is not None and len(key) == 2:
        # begin and end of the text that is looked for
        n, r, l = args
        args = [r, l, st.lin(l + n)]
    if not isinstance(p, PtrV) or not immutable(eng, st, p.r) or args is None:
        o = eng.fresh("fo", 0, 1 << 62)
        return o, key[0].l if exact else eng.fresh("fl", 1, 1 << 62), None
    args = (p.r, st.lin(p.l + lo), st.lin(p.l + hi), *args)
    pos = app(NAMES.get(name, name), 0, 1 << 62, *args)
    return st.lin(pos - p.l), st.lin(key[0].l) if exact else app(name + "#", 1, 1 << 62, *args), st.lin(pos - p.l - hi)


YEXC = "_ZTIN7ystring16YstringExceptionE"


def finder(name, back=False, sret=False, throws=True):
    """The search functions, as F05, F06, F14 and F15 establish them: the range
    of a match within the part of the text that is searched, or an empty one."""
    def f(eng, st, ins, fn, args):
        i = 1 if sret else 0
        if len(args) < i + 3:
            return None
        n, p, key, off = args[i], args[i + 1], args[i + 2:-1], args[-1]
        if not all(isinstance(x, IntV) for x in (n, off)):
            return None
        out = []
        for s0, nl in eng.uns(st, n):
            for s1, ol in eng.uns(s0, off):
                eng.read_range(s1, p, nl, 1, ins, name)
                if len(key) == 2 and isinstance(key[0], IntV):
                    for s2, kl in eng.uns(s1, key[0]):
                        eng.read_range(s2, key[1], kl, 4 if "char32_t" in fn.dem else 1, ins, name)
                if not back:
                    ok = s1.entails_ge(nl - ol)
                    eng.check(s1, ok, "mem", ins, None if ok else name + " from an offset beyond the end of the text")
                    if not ok and not s1.assume_ge(nl - ol):
                        continue
                lims = [(s1, nl)]
                if back:
                    lims = [(s2, ol if ge else nl) for ge, s2 in eng.fork_ge(s1, nl - ol)]
                for s2, lim in lims:
                    s3 = s2.copy()
                    o, ln, none = match(eng, s2, name, p, K(0) if back else ol, lim, key)
                    s4 = s2.copy()
                    rs = []
                    if none is None or s4.assume_eq(s4.lin(none)):
                        rs.append((s4, None, None))
                    if s3.assume_ge(s3.lin(lim - o - ln)) and (back or s3.assume_ge(s3.lin(o - ol))) \
                            and s3.assume_ge(s3.lin(o)) and s3.assume_ge(s3.lin(ln) + -1) \
                            and not (len(key) == 2 and not s3.assume_ge(s3.lin(key[0].l) + -1)):
                        rs.append((s3, o, ln))
                    for s3, o, ln in rs:
                        eng.ev("found", s3, ins, fname=name, p=p, n=nl, off=ol, key=key, o=o, ln=ln)
                        if o is None:
                            o, ln = eng.fresh("fo0", 0, (1 << 64) - 1), K(0)
                        if sret:
                            eng.store(s3, args[0], IntV(64, s3.lin(o)), 8, ins)
                            eng.store(s3, PtrV(args[0].r, args[0].l + 8), IntV(64, s3.lin(ln)), 8, ins)
                            eng.store(s3, PtrV(args[0].r, args[0].l + 16), IntV(32, eng.fresh("fc", 0, INVALID)), 4, ins)
                            out.append(("ret", None, s3))
                        else:
                            from dom import AggV
                            out.append((s3, AggV([IntV(64, s3.lin(o)), IntV(64, s3.lin(ln))])))
                    if throws:
                        from calls import Exc
                        eng.ev("findthrow", s2, ins, fname=name)
                        out.append(("exc", Exc(YEXC, name), s2))
        return out
    return f


DIGITS = iv_norm([(48, 55)])
# what an escape sequence begins with, after the backslash -> (least, most bytes,
# where the digits start, their base)
SEQUENCES = [("x", [(88, 88), (120, 120)], 4, None, 2, 16), ("u", [(117, 117)], 6, 6, 2, 16),
             ("U", [(85, 85)], 10, 10, 2, 16), ("o2", DIGITS, 2, 2, 1, 8), ("o3", DIGITS, 3, 3, 1, 8),
             ("o4", DIGITS, 4, 4, 1, 8),
             ("c", [(0, 47), (56, 84), (86, 87), (89, 116), (118, 119), (121, 127)], 2, 2, None, None)]


def byte_in(eng, st, r, l, iv):
    """Learns that the byte at l is in a set; False if it isn't."""
    iv = iv_norm(iv)
    v = eng.peek(st, r, l, 1)
    if v is None:
        s = new_sym("m", 0, 255)
        st.memo.append((r, st.lin(l), 1, IntV(8, Lin.sym(s))))
        return st.set_vs(s, iv)
    x = st.lin(v.l)
    s = x.pure()
    if s is not None and is_root(s):
        return st.set_vs(s, iv)
    lo, hi = st.interval(x)
    return bool(iv_and(iv_norm([(lo, hi)]), iv)) and bool(
        st.assume_ge(x + -iv[0][0]) and st.assume_ge(K(iv[-1][1]) - x))


def sequence_at(eng, st, r, o, ln, kind):
    """Learns that there is an escape sequence of the kind at o; False if there isn't."""
    _, iv, _, _, at, base = next(x for x in SEQUENCES if x[0] == kind)
    if not byte_in(eng, st, r, o, [(92, 92)]) or not byte_in(eng, st, r, o + 1, iv):
        return False
    if base is not None and immutable(eng, st, r):
        k = st.lin(ln + -at)
        mx = base ** k.c - 1 if not k.t and k.c < 9 else (1 << 32) - 1
        key = (r, st.lin(o + at), k, base, 32)
        app("fcvalue", 0, mx, *key)
        return st.assume_eq(st.lin(app("fcdigits", 0, 1 << 62, *key) - k))
    return True


def escape_finder(eng, st, ins, fn, args):
    """find_first_escaped_char, as F20 establishes it."""
    if len(args) != 3 or not all(isinstance(x, IntV) for x in (args[0], args[2])) or not isinstance(args[1], PtrV):
        return None
    from calls import Exc
    from dom import AggV
    n, p, off = args
    name = "find_first_escaped_char"
    out = []
    for s0, nl in eng.uns(st, n):
        for s1, ol in eng.uns(s0, off):
            ok = s1.entails_ge(nl - ol)
            eng.check(s1, ok, "mem", ins, None if ok else name + " from an offset beyond the end of the text")
            if not ok and not s1.assume_ge(nl - ol):
                continue
            eng.read_range(s1, p, nl, 1, ins, name)
            a, b = s1.lin(p.l + ol), s1.lin(p.l + nl)
            named = immutable(eng, s1, p.r)
            first = eng.peek(s1, p.r, a, 1)
            here = first is not None and s1.entails_eq(s1.lin(first.l) + -92) and s1.entails_ge(b - a + -1)
            if not here:
                s = s1.copy()
                eng.ev("found", s, ins, fname=name, p=p, n=nl, off=ol, key=(), o=None, ln=None)
                out.append((s, AggV([IntV(64, s.lin(nl)), IntV(64, ZERO)])))
            s = s1.copy()
            eng.ev("findthrow", s, ins, fname=name)
            out.append(("exc", Exc(YEXC, name), s))
            for kind, iv, lo, hi, at, base in SEQUENCES:
                s = s1.copy()
                o = a if here else app("esc", 0, 1 << 62, p.r, a, b) if named else eng.fresh("esc", 0, 1 << 62)
                o = s.lin(o)
                if hi is not None:
                    ln = K(lo)
                else:
                    ln = app("esc#", lo, 1 << 62, p.r, a, b) if named else eng.fresh("escn", lo, 1 << 62)
                if not s.assume_ge(s.lin(o - a)) or not s.assume_ge(s.lin(b - o - ln)) \
                        or not s.assume_ge(s.lin(ln) + -lo):
                    continue
                o, ln = s.lin(o), s.lin(ln)
                if not sequence_at(eng, s, p.r, o, ln, kind):
                    continue
                eng.ev("found", s, ins, fname=name, p=p, n=nl, off=ol, key=(kind,), o=s.lin(o - p.l), ln=s.lin(ln))
                out.append((s, AggV([IntV(64, s.lin(o - p.l)), IntV(64, s.lin(ln))])))
    return out


def unescape(eng, st, ins, fn, args):
    """The number of bytes that remain of a text that is unescaped in place."""
    if "(char*, unsigned long)" not in fn.dem or len(args) != 2 or not isinstance(args[0], PtrV) \
            or not isinstance(args[1], IntV):
        return None
    from calls import Exc
    out = []
    for s, n in eng.uns(st, args[1]):
        p = args[0]
        z = eng.rgn_size(s, p.r)
        ok = z is not None and s.entails_ge(p.l) and s.entails_ge(z - p.l - n)
        eng.check(s, ok, "mem", ins, None if ok else "unescape of bytes outside the buffer")
        s2 = s.copy()
        eng.ev("findthrow", s2, ins, fname="unescape")
        out.append(("exc", Exc(YEXC, "unescape"), s2))
        m = eng.fresh("unesc", 0, 1 << 62)
        if not s.assume_ge(n - m):
            continue
        eng.ev("unescaped", s, ins, p=p, n=n, m=m)
        eng.invalidate(s, p.r, s.lin(p.l), n)
        out.append((s, IntV(64, s.lin(m))))
    return out


UNESCAPE = dict(ALL)
UNESCAPE["ystring::find_first_escaped_char"] = escape_finder
UNESCAPED = dict(ALL)
UNESCAPED["ystring::unescape"] = unescape
FIND = dict(ALL)
FIND.update({
    "ystring::find_first": finder("find_first", throws=False),
    "ystring::find_last": finder("find_last", back=True, throws=False),
    "ystring::find_first_of": finder("find_first_of", sret=True),
    "ystring::find_last_of": finder("find_last_of", back=True, sret=True),
    "ystring::find_first_newline": finder("find_first_newline"),
    "ystring::find_last_newline": finder("find_last_newline", back=True),
    "ystring::case_insensitive::find_first": finder("ci::find_first"),
    "ystring::case_insensitive::find_last": finder("ci::find_last", back=True),
    "ystring::case_insensitive::find_first_of": finder("ci::find_first_of", sret=True),
    "ystring::case_insensitive::find_last_of": finder("ci::find_last_of", back=True, sret=True),
})


def replaced(eng, st, ins, fn, args):
    """The replacement of a text, as F18 establishes it: a text that depends
    on nothing but the arguments."""
    if len(args) == 7 and isinstance(args[5], PtrV):
        # the last view is passed in memory
        v = [eng.peek(st, args[5].r, st.lin(args[5].l + i), 8) for i in (0, 8)]
        args = list(args[:5]) + v + [args[6]]
    if len(args) != 8:
        return None
    sret, n, s, kn, k, tn, t, mx = args
    if not all(isinstance(x, IntV) for x in (n, kn, tn, mx)):
        return None
    from dom import Obj
    for p, ln in ((s, n), (k, kn), (t, tn)):
        eng.read_range(st, p, ln.l, 1, ins, "replace")
    key = eng.obj_key(st, sret)
    st.obj[key] = Obj("str", {"len": IntV(64, eng.fresh("rl", 0, 1 << 62)), "es": 1})
    eng.forget_buf(st, key)
    eng.ev("replaced", st, ins, key=key, parts=[(s, n), (k, kn), (t, tn)], most=mx)
    return [("ret", None, st)]


def validity(eng, st, ins, fn, args):
    """Whether a text is well-formed, as F07 establishes it."""
    if len(args) != 2 or not isinstance(args[0], IntV):
        return None
    n, p = args
    eng.read_range(st, p, n.l, 1, ins, "is_valid_utf8")
    out = []
    for v in (0, 1):
        s = st.copy()
        eng.ev("validity", s, ins, p=p, n=n, valid=v)
        out.append(("ret", IntV(1, K(v)), s))
    return out


def repaired(eng, st, ins, fn, args):
    """A text with its malformed parts replaced, as F04 establishes it."""
    if len(args) != 4 or not isinstance(args[1], IntV) or not isinstance(args[3], IntV):
        return None
    from dom import Obj
    sret, n, p, chr_ = args
    eng.read_range(st, p, n.l, 1, ins, "replace_invalid_utf8")
    key = eng.obj_key(st, sret)
    st.obj[key] = Obj("str", {"len": IntV(64, eng.fresh("rl", 0, 1 << 62)), "es": 1})
    eng.forget_buf(st, key)
    eng.ev("repaired", st, ins, key=key, p=p, n=n, chr_=chr_)
    return [("ret", None, st)]


REPAIR = dict(ALL)
REPAIR["ystring::is_valid_utf8"] = validity
REPAIR["ystring::replace_invalid_utf8[abi:cxx11]"] = REPAIR["ystring::replace_invalid_utf8"] = repaired
REPLACE = dict(FIND)
REPLACE["ystring::replace[abi:cxx11]"] = REPLACE["ystring::replace"] = replaced
