"""Typestate over the contents of strings: every live string carries a short
symbolic description of what it contains, as a sequence of segments

  ("raw", region) [a, b)      bytes (elements) copied from an input
  ("img", state) p            the image under the specification of everything
                              in the input before offset p
  ("enc",) v                  the UTF-8 encoding of a value
  ("el",) v                   one element (byte, or char32_t)

Appends extend the sequence; a specification folds segments into its image
when the abstract state entails that they are what comes next."""
import os

from lin import Lin, K, ZERO
import loops
import tables
from lin import iv_elems
from dom import IntV, PtrV, AggV, Dead
from contracts import app

IN = ("in", "s")
DEBUG = os.environ.get("SA_CONTENT")


def seg(tag, *ls):
    return AggV([tag] + list(ls))


class Content:
    """Monitor.  kind: the name under which obligations are logged."""
    kind = "fn"
    image = None        # a Spec

    def start(self, e, st, entry):
        self.e = e
        self.p = entry.p
        self.outs = []
        self.begin(e, st, entry)

    def begin(self, e, st, entry):
        pass

    # ------------------------------------------------------------ contents
    def get(self, st, key):
        v = st.gh.get(("c", key))
        return None if v is None or v == "?" else list(v.v)

    def put(self, st, key, segs):
        st.gh[("c", key)] = "?" if segs is None else AggV(segs)

    def fresh(self):
        return []

    def on_newstr(self, e, st, ins, key):
        self.put(st, key, self.norm(st, self.fresh()))

    def on_move(self, e, st, ins, src, dst):
        st.gh[("c", dst)] = st.gh.get(("c", src), "?")

    def on_clobber(self, e, st, ins, key):
        self.put(st, key, None)

    def on_setlen(self, e, st, ins, key, n):
        c = self.get(st, key)
        if c is None:
            return
        if st.entails_eq(st.lin(n)):
            self.put(st, key, self.norm(st, self.fresh()))
        else:
            x = self.split(st, c, n)
            self.put(st, key, self.norm(st, x[0]) if x else None)

    def split(self, st, c, n):
        """(what comes before n elements, what comes after), or None."""
        n = st.lin(n)
        for i, s in enumerate(c):
            if st.entails_eq(n):
                return c[:i], c[i:]
            if is_raw(s):
                es = self.es(s.v[0][1])
                a, b = st.lin(s.v[1]), st.lin(s.v[2])
                left = st.lin(n.scale(es) - b + a)
                if st.entails_ge(left.scale(-1)):
                    m = st.lin(a + n.scale(es))
                    return c[:i] + [seg(s.v[0], a, m)], [seg(s.v[0], m, b)] + c[i + 1:]
                if es != 1 or not st.entails_ge(left):
                    return None
                n = left
            elif s.v[0] == "el":
                n = st.lin(n + -1)
                if not st.entails_ge(n):
                    return None
            else:
                return None
        return (c, []) if st.entails_eq(n) else None

    def on_cut(self, e, st, ins, key, pos, n):
        c = self.get(st, key)
        x = self.split(st, c, pos) if c is not None else None
        y = self.split(st, x[1], n) if x else None
        self.put(st, key, self.norm(st, x[0] + y[1]) if y else None)

    def on_swap(self, e, st, ins, a, b):
        x, y = st.gh.get(("c", a), "?"), st.gh.get(("c", b), "?")
        st.gh[("c", a)], st.gh[("c", b)] = y, x

    def pieces(self, st, src):
        """Segments of an appended source."""
        if src[0] == "enc":
            return [seg("enc", st.lin(src[1]))]
        if src[0] == "char":
            v = src[1]
            if not isinstance(v, IntV):
                return None
            return [seg("el", self.unsigned(st, v))]
        if src[0] == "fill":
            n = st.lin(src[1])
            v = src[2]
            if not n.t and n.c <= 16 and isinstance(v, IntV):
                return [seg("el", self.unsigned(st, v)) for _ in range(n.c)]
            return None
        r, l, n = src[1], st.lin(src[2]), st.lin(src[3])
        if st.entails_eq(n):
            return []
        if r is None:
            return []
        if r[0] == "in":
            return [seg(("raw", r), l, st.lin(l + n.scale(self.es(r))))]
        if r[0] == "b":
            c = self.get(st, r[1:])
            o = st.obj.get(r[1:])
            if c is not None and o is not None and st.entails_eq(l) \
                    and st.entails_eq(o.f["len"].l - n):
                return c
        x = st.gh.get(("enc", r))
        if x is not None and st.entails_eq(l - x.v[1]) and st.entails_eq(n - x.v[2]):
            return [seg("enc", x.v[3])]
        if not n.t and n.c <= 16:
            out = []
            for i in range(n.c):
                v = self.e.peek(st, r, l + i, 1)
                if not isinstance(v, IntV):
                    return None
                out.append(seg("el", self.unsigned(st, v)))
            return out
        return None

    def es(self, r):
        from drive import ELEM
        return ELEM.get(r[1], 1)

    def unsigned(self, st, v):
        l = st.lin(v.l)
        if not l.t:
            return K(l.c & ((1 << v.w) - 1))
        return l

    def on_append(self, e, st, ins, key, src):
        c = self.get(st, key)
        if c is None:
            return
        p = self.pieces(st, src)
        if p is None:
            self.put(st, key, None)
            return
        if p and not isinstance(p[0].v[0], str) and p[0].v[0][0] == "img" and self.blank(st, key):
            # a copy of what has been put together elsewhere
            c, p = p, []
        for x in p:
            c = self.norm(st, c + [x])
            if c is None:
                break
        self.put(st, key, c)

    def blank(self, st, key):
        o = st.obj.get(key)
        return o is not None and st.entails_eq(st.lin(o.f["len"].l))

    def on_insert(self, e, st, ins, key, pos, src):
        c = self.get(st, key)
        p = self.pieces(st, src)
        if c is None or p is None:
            self.put(st, key, None)
        elif st.entails_eq(st.lin(pos)):
            self.put(st, key, self.norm(st, p + c))
        elif st.entails_eq(st.obj[key].f["len"].l - pos):
            self.put(st, key, self.norm(st, c + p))
        else:
            x = self.split(st, c, pos)
            self.put(st, key, self.norm(st, x[0] + p + x[1]) if x else None)

    def on_encoded(self, e, st, ins, dst, n, ch):
        """A code point encoded into a buffer."""
        st.gh[("enc", dst.r)] = AggV(["enc", st.lin(dst.l), K(n), st.lin(ch)])

    def on_store(self, e, st, ins, p, v, size):
        if isinstance(p, PtrV) and ("enc", p.r) in st.gh:
            del st.gh[("enc", p.r)]
        if isinstance(p, PtrV) and p.r is not None and p.r[0] == "b" and ("c", p.r[1:]) in st.gh:
            self.put(st, p.r[1:], None)

    def norm(self, st, c):
        """Merges adjacent raw segments and folds into the image."""
        if c is None:
            return None
        out = []
        for s in c:
            if out and type(s.v[0]) is tuple and s.v[0][0] == "raw":
                if st.entails_eq(s.v[1] - s.v[2]):
                    continue
                t = out[-1]
                if t.v[0] == s.v[0] and st.entails_eq(t.v[2] - s.v[1]):
                    out[-1] = seg(s.v[0], t.v[1], s.v[2])
                    continue
            out.append(s)
        if self.image is not None:
            out = self.image.fold(self, st, out)
        if len(out) > 12:
            if DEBUG:
                print("CONTENT", self.show(st, out))
            return None
        return out

    def settle(self, e, st):
        for k in list(st.gh):
            if type(k) is tuple and k[0] == "c" and st.gh[k] != "?":
                c = self.norm(st, list(st.gh[k].v))
                self.put(st, k[1], c)

    def leaf(self, st, name, ch, hi):
        """What the analysis calls the result of a function of a code point."""
        ch = st.lin(ch)
        if not ch.t:
            for f in self.e.m.fns.values():
                if not f.decl and len(f.params) == 1 and f.params[0][2].kind == "int" \
                        and self.e.bname(f) == name:
                    v = self.e.const_eval(f, [ch.c])
                    return K(v)
            return None
        return st.lin(app(name, 0, hi, ch))

    # ------------------------------------------------------------ results
    def on_sink(self, e, st, ins, sink, args):
        if sink in ("sa_str", "sa_u32str"):
            k = e.obj_key(st, args[0])
            c = self.get(st, k) if k else None
            if c is not None:
                c = self.norm(st, c)
            self.result(e, st, ins, c)

    def ob(self, st, ok, ins, msg):
        import drive
        return self.e.check(st, ok, self.kind, self.where, msg)

    def show(self, st, c):
        if c is None:
            return "unknown"
        return " ".join("%s%s" % (s.v[0] if type(s.v[0]) is str else ":".join(map(str, s.v[0])),
                                  "(%s)" % ", ".join(self.e.show(st, st.lin(l)) for l in s.v[1:])) for s in c) or "empty"


def is_raw(s):
    return type(s.v[0]) is tuple and s.v[0][0] == "raw"


SAME = "same"


class Image:
    """The image of an input under a transducer, unit by unit from offset 0.
    The segment ("img", state) has two offsets: everything before p has been
    written, and every unit from p up to hi is known to stand for itself.

    unit(mon, st, p): (value, offset of the next unit) known to stand at p, or None
    step(mon, st, state, value, p, q): (outputs, next state), or None when the abstract
    state does not determine it; outputs is SAME or a list of
      ("enc", Lin), ("el", Lin), ("fn", f) an element given as a function of the unit,
      ("raw", region, a, b)"""
    init = 0
    region = IN
    stateless = True
    plain = False       # units stand for themselves as elements

    def start(self, mon, st):
        return K(0)

    def unit(self, mon, st, p):
        raise NotImplementedError

    def step(self, mon, st, state, v, p, q):
        raise NotImplementedError

    def is_img(self, s):
        return type(s.v[0]) is tuple and s.v[0][0] == "img"

    def known(self, mon, st, state, p):
        x = self.unit(mon, st, p)
        if x is None:
            return None
        v, q = x
        q = st.lin(q)
        r = self.step(mon, st, state, v, p, q)
        if r is None:
            return None
        return v, q, r[0], r[1]

    def fold(self, mon, st, c):
        if not c or not self.is_img(c[0]):
            p = self.start(mon, st)
            c = [seg(("img", self.init), p, p)] + c
        for _ in range(64):
            head, rest = c[0], c[1:]
            state = head.v[0][1]
            p, hi = st.lin(head.v[1]), st.lin(head.v[2])
            if self.stateless:
                for _ in range(16):
                    x = self.known(mon, st, state, hi)
                    if x is None or x[2] != SAME:
                        break
                    hi = x[1]
            c = [seg(head.v[0], p, hi)] + rest
            if rest and is_raw(rest[0]) and rest[0].v[0][1] == self.region and st.entails_eq(rest[0].v[1] - p) \
                    and self.before(st, rest[0].v[2], hi):
                c = [seg(head.v[0], st.lin(rest[0].v[2]), hi)] + rest[1:]
                continue
            x = self.known(mon, st, state, p)
            if x is None:
                return c
            v, q, want, nxt = x
            rest = self.match(mon, st, rest, want, v, p, q)
            if rest is None:
                return c
            if not self.before(st, q, hi):
                hi = q
            c = [seg(("img", nxt), q, hi)] + rest
        return c

    def before(self, st, a, b):
        return st.entails_ge(st.lin(b - a))

    def value(self, st, v):
        """The unit's code point, for copies of encodings."""
        return None

    def match(self, mon, st, rest, want, v, p, q):
        """rest without the outputs, or None."""
        if want == SAME or (len(want) == 1 and want[0][0] == "enc" and self.value(st, v) is not None
                            and st.entails_eq(st.lin(want[0][1] - self.value(st, v)))):
            if rest and is_raw(rest[0]) and rest[0].v[0][1] == self.region:
                r2 = self.take(st, rest, self.region, *self.span(p, q))
                if r2 is not None:
                    return r2
            if want == SAME:
                if self.plain:
                    want = [("el", v)]
                elif self.value(st, v) is None:
                    return None
                else:
                    want = [("enc", self.value(st, v))]
        for w in want:
            if w[0] == "raw":
                if st.entails_eq(st.lin(w[2] - w[3])):
                    continue
                rest = self.take(st, rest, w[1], w[2], w[3])
                if rest is None:
                    return None
                continue
            if not rest:
                return None
            s = rest[0]
            if w[0] == "fn":
                if s.v[0] != "el":
                    return None
                S = loops.img(st, st.lin(v))
                f = tables.concrete(st.lin(s.v[1]), st, S, v)
                if f is None or any(f(x) not in (None, w[1](x)) for x in iv_elems(S)):
                    return None
            elif s.v[0] == w[0]:
                if not st.entails_eq(st.lin(s.v[1] - w[1])):
                    return None
            elif {s.v[0], w[0]} == {"enc", "el"} and st.entails_eq(st.lin(s.v[1] - w[1])) \
                    and mon.outes == 1 and st.entails_ge(K(127) - st.lin(w[1])) and st.entails_ge(st.lin(w[1])):
                pass
            else:
                return None
            rest = rest[1:]
        return rest

    def span(self, p, q):
        return p, q

    def take(self, st, rest, region, a, b):
        """Takes a copy of [a, b) off the front."""
        if not rest:
            return None
        s = rest[0]
        if not is_raw(s) or s.v[0][1] != region or not st.entails_eq(st.lin(s.v[1] - a)) \
                or not st.entails_ge(st.lin(s.v[2] - b)):
            return None
        if st.entails_eq(st.lin(s.v[2] - b)):
            return rest[1:]
        return [seg(s.v[0], st.lin(b), s.v[2])] + rest[1:]


class CpImage(Image):
    """Units are well-formed code points."""

    def unit(self, mon, st, p):
        n = st.rgn[self.region]
        ok = app("decok", 0, 1, self.region, st.lin(p), st.lin(n))
        if not st.entails_eq(ok + -1):
            return None
        return (st.lin(app("dec", 0, 0x1FFFFF, self.region, st.lin(p))),
                st.lin(p + app("declen", 1, 4, self.region, st.lin(p))))

    def value(self, st, v):
        return v


class ElemImage(Image):
    """Units are single elements."""
    es = 1

    def unit(self, mon, st, p):
        v = mon.e.peek(st, self.region, st.lin(p), self.es)
        if not isinstance(v, IntV):
            return None
        return mon.unsigned(st, v), p + self.es


class TextImage(Content):
    """The returned string is the image of the whole text; an exception is
    thrown only when the text has been found to be malformed."""
    what = "the result is the image of the text"
    outes = 1

    def begin(self, e, st, entry):
        st.gh["w"] = K(0)
        import drive
        self.where = drive.last_ins(e.m, entry.fn)

    def on_decoded(self, e, st, ins, r, a, k, ch, end):
        w = st.gh.get("w")
        if r == IN and isinstance(w, Lin) and st.entails_eq(st.lin(a - w)):
            st.gh["w"] = st.lin(a + k)
            st.gh["last"] = st.lin(ch)

    def on_undecoded(self, e, st, ins, r, a, end):
        w = st.gh.get("w")
        if r == IN and isinstance(w, Lin) and st.entails_eq(st.lin(a - w)) \
                and st.entails_eq(st.lin(end - st.rgn[r])):
            st.gh["bad"] = 1

    def result(self, e, st, ins, c):
        n = st.lin(st.rgn[self.image.region])
        ok = c is not None and len(c) == 1 and c[0].v[0][0] == "img" and st.entails_eq(st.lin(c[0].v[1] - n))
        self.ob(st, ok, ins, None if ok else "%s: the content is %s of %s bytes" % (
            self.what, self.show(st, c), e.show(st, st.lin(n))))

    def finish(self, e, outs):
        for kind, v, st in outs:
            if kind != "exc" or v.own is None:
                continue
            ok = bool(st.gh.get("bad")) or self.may_throw(e, st)
            self.ob(st, ok, None, None if ok else "an exception leaves although nothing is wrong with the text")

    def may_throw(self, e, st):
        x = st.gh.get("last")
        return isinstance(x, Lin) and st.entails_ge(st.lin(x) + -0x110000)
