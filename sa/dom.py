"""The abstract domain: values are linear expressions over symbols, a state
relates symbols through affine equalities, linear inequalities, disequalities
and value sets (lists of intervals)."""
from lin import (Lin, K, ZERO, SYMS, new_sym, name_of, iv_and, iv_or, iv_sub,
                 iv_count, iv_elems, iv_from, iv_norm, iv_in, minimise_sign,
                 minimise, Infeasible)

SMALL = 4096          # value sets up to this size are filtered pointwise


class IntV:
    __slots__ = ("w", "l")

    def __init__(self, w, l):
        self.w = w
        self.l = l

    def __repr__(self):
        return "i%d:%r" % (self.w, self.l)


class PtrV:
    __slots__ = ("r", "l")

    def __init__(self, r, l):
        self.r = r
        self.l = l

    def __repr__(self):
        return "&%r+%r" % (self.r, self.l)


class FnV:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn

    def __repr__(self):
        return "fn:%s" % self.fn.name


class AggV:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self.v))


class _Undef:
    def __repr__(self):
        return "undef"


UNDEF = _Undef()
NULL = PtrV(None, ZERO)


class Top:
    """A value about which nothing is known (w: width, or 0 for pointers)."""
    __slots__ = ("w",)

    def __init__(self, w):
        self.w = w

    def __repr__(self):
        return "top%d" % self.w


def C(w, n):
    return IntV(w, K(n & ((1 << w) - 1)))


# ------------------------------------------------------------ derived symbols
_DEFS = {}
_ROOTS = {}
_TAB = {}        # table key -> function(offset) -> int or None


def roots_of(s):
    r = _ROOTS.get(s)
    if r is None:
        d = SYMS[s].d
        if d is None or d[0] == "app":
            r = (s,)
        else:
            acc = set()
            for x in d[1:]:
                if isinstance(x, Lin):
                    for t in x.t:
                        acc.update(roots_of(t))
            r = tuple(sorted(acc))
        _ROOTS[s] = r
    return r


def is_root(s):
    d = SYMS[s].d
    return d is None or d[0] == "app"


def derived(d, lo, hi, name):
    key = tuple(x.key() if isinstance(x, Lin) else x for x in d)
    s = _DEFS.get(key)
    if s is None:
        s = new_sym(name, lo, hi, d)
        _DEFS[key] = s
    return s


def eval_lin(l, env):
    v = l.c
    for s, k in l.t.items():
        v += k * eval_sym(s, env)
    return v


class NoValue(Exception):
    pass


def eval_sym(s, env):
    v = env.get(s)
    if v is not None:
        return v
    d = SYMS[s].d
    if d is None or d[0] == "app":
        raise NoValue()
    v = eval_def(d, env)
    env[s] = v
    return v


def eval_def(d, env):
    op = d[0]
    if op == "tab":
        off = eval_lin(d[2], env)
        v = _TAB[d[1]](off)
        if v is None:
            raise NoValue()
        return v
    a = eval_lin(d[1], env)
    if op == "and":
        return a & d[2]
    if op == "mod":
        return a & ((1 << d[2]) - 1)
    if op == "lshr":
        return a >> d[2]
    if op == "sext":       # d[2] is the width of the value sign extended
        a &= (1 << d[2]) - 1
        return a - (1 << d[2]) if a >> (d[2] - 1) else a
    b = eval_lin(d[2], env)
    w = d[3]
    m = (1 << w) - 1
    a &= m
    b &= m
    if op == "or2":
        return a | b
    if op == "and2":
        return a & b
    if op == "xor":
        return a ^ b
    if op == "shl":
        return (a << b) & m if b < w else 0
    if op == "lshrv":
        return a >> b if b < w else 0
    if op == "udiv":
        if b == 0:
            raise NoValue()
        return a // b
    if op == "urem":
        if b == 0:
            raise NoValue()
        return a % b
    if op == "mul":
        return (a * b) & m
    raise NoValue()


def range_lin(l, rng):
    """Interval of l when rng(s) gives intervals of the root symbols."""
    lo = hi = l.c
    for s, k in l.t.items():
        a, b = range_sym(s, rng)
        if k > 0:
            lo += k * a
            hi += k * b
        else:
            lo += k * b
            hi += k * a
    return lo, hi


def range_sym(s, rng):
    y = SYMS[s]
    d = y.d
    if d is None or d[0] == "app":
        return rng(s)
    op = d[0]
    if op == "tab":
        return y.lo, y.hi
    a, b = range_lin(d[1], rng)
    if a == b and len(d) == 3 and not isinstance(d[2], Lin):
        v = eval_def((op, K(a), d[2]), {})
        return v, v
    if op == "and":
        m = d[2]
        k = m.bit_length()
        # contiguous high mask or low mask
        if m & (m + 1) == 0:
            if a >> k == b >> k:
                return a & m, b & m
            return 0, m
        low = (m & -m).bit_length() - 1
        mm = m >> low
        if mm & (mm + 1) == 0 and a >= 0:
            x, z = a >> low, b >> low
            kk = mm.bit_length()
            if x >> kk == z >> kk:
                return (x & mm) << low, (z & mm) << low
            return 0, m
        return 0, min(m, b) if a >= 0 else m
    if op == "mod":
        k = d[2]
        if a >> k == b >> k:
            m = (1 << k) - 1
            return a & m, b & m
        return 0, (1 << k) - 1
    if op == "lshr":
        return a >> d[2], b >> d[2]
    if op == "sext":
        w = d[2]
        h = 1 << (w - 1)
        if (a + h) >> w == (b + h) >> w:
            q = (a + h) >> w
            return a - (q << w), b - (q << w)
        return -h, h - 1
    c, e = range_lin(d[2], rng)
    w = d[3]
    if a == b and c == e:
        try:
            v = eval_def((op, K(a), K(c), w), {})
            return v, v
        except NoValue:
            pass
    if op == "xor" and a >= 0 and c >= 0 and c == e:
        # constant xor: split on common prefix
        n = (a ^ b).bit_length()
        base = (a ^ c) >> n << n
        return base, base + (1 << n) - 1
    if op == "shl" and a == b and c >= 0 and e < w and (a << e) < (1 << w):
        return a << c, a << e
    if op == "or2" and a >= 0 and c >= 0:
        n = max(b.bit_length(), e.bit_length())
        return max(a, c), min((1 << n) - 1, (1 << w) - 1)
    if op == "and2" and a >= 0 and c >= 0:
        return 0, min(b, e)
    return y.lo, y.hi


class Dead(Exception):
    pass


class Obj:
    """An abstract library object: kind plus named fields (IntV/PtrV/...)."""
    __slots__ = ("kind", "f")

    def __init__(self, kind, f):
        self.kind = kind
        self.f = f

    def upd(self, **kw):
        f = dict(self.f)
        f.update(kw)
        return Obj(self.kind, f)

    def __repr__(self):
        return "%s%r" % (self.kind, self.f)


class St:
    __slots__ = ("eq", "iq", "ne", "vs", "mem", "obj", "gh", "env", "stack",
                 "memo", "facts", "tr", "ent", "ctx", "rgn")

    def __init__(self):
        self.eq = {}
        self.iq = []
        self.ne = []
        self.vs = {}
        self.mem = {}
        self.obj = {}
        self.gh = {}
        self.env = {}
        self.stack = ()
        self.memo = []
        self.facts = {}
        self.tr = None
        self.ent = {}
        self.ctx = ()
        self.rgn = {}          # region -> size Lin (None: unknown)

    def copy(self):
        n = St.__new__(St)
        n.eq = dict(self.eq)
        n.iq = list(self.iq)
        n.ne = list(self.ne)
        n.vs = dict(self.vs)
        n.mem = dict(self.mem)
        n.obj = dict(self.obj)
        n.gh = dict(self.gh)
        n.env = dict(self.env)
        n.stack = self.stack
        n.memo = list(self.memo)
        n.facts = dict(self.facts)
        n.tr = self.tr
        n.ent = dict(self.ent) if len(self.ent) < 200 else {}
        n.ctx = self.ctx
        n.rgn = dict(self.rgn)
        return n

    # ---- normal forms
    def lin(self, l):
        t = l.t
        if not t:
            return l
        eq = self.eq
        hit = False
        for s in t:
            if s in eq or SYMS[s].d is not None:
                hit = True
                break
        if not hit:
            return l
        acc = Lin(l.c)
        for s, k in t.items():
            e = eq.get(s)
            if e is not None:
                acc = acc + (e if k == 1 else e.scale(k))
                continue
            d = SYMS[s].d
            if d is not None and d[0] != "app":
                v = self._fold(s)
                if v is not None:
                    acc = acc + v * k
                    continue
            acc = acc + Lin(0, {s: k})
        return acc

    def _fold(self, s):
        env = {}
        for r in roots_of(s):
            e = self.eq.get(r)
            if e is None or e.t:
                return None
            env[r] = e.c
        try:
            return eval_sym(s, env)
        except NoValue:
            return None

    def rootset(self, l):
        """Root symbols of l once equalities are applied."""
        out = set()
        for s in l.t:
            if is_root(s):
                out.add(s)
                continue
            for r in roots_of(s):
                e = self.eq.get(r)
                if e is None:
                    out.add(r)
                else:
                    for t in e.t:
                        if is_root(t):
                            out.add(t)
                        else:
                            out.update(self.rootset(Lin.sym(t)))
        return out

    def _env(self, l, r, v):
        env = {r: v}
        for s in l.t:
            for q in roots_of(s):
                if q not in env:
                    e = self.eq.get(q)
                    if e is None:
                        raise NoValue()
                    if e.t:
                        sub = self._env(e, r, v)
                        env[q] = eval_lin(e, sub)
                    else:
                        env[q] = e.c
        return env

    def value_at(self, l, r, v):
        return eval_lin(l, self._env(l, r, v))

    def rng(self, s):
        e = self.eq.get(s)
        if e is not None:
            return range_lin(e, self.rng)
        v = self.vs.get(s)
        y = SYMS[s]
        if v is not None:
            return v[0][0], v[-1][1]
        return y.lo, y.hi

    def bound(self, s):
        y = SYMS[s]
        if y.d is None or y.d[0] == "app":
            return self.rng(s)
        v = self.vs.get(s)
        a, b = range_sym(s, self.rng)
        a = max(a, y.lo)
        b = min(b, y.hi)
        if v is not None:
            a = max(a, v[0][0])
            b = min(b, v[-1][1])
        if b - a < SMALL:
            rs = self.rootset(Lin.sym(s))
            if len(rs) == 1:
                r = next(iter(rs))
                vs = self.rootvs(r)
                if iv_count(vs) <= 256:
                    key = (s, r, vs)
                    h = _IMG.get(key)
                    if h is None:
                        try:
                            vals = [self.value_at(Lin.sym(s), r, x)
                                    for x in iv_elems(vs)]
                            h = (min(vals), max(vals))
                        except (NoValue, ValueError):
                            h = (a, b)
                        if any(q in self.eq for q in roots_of(s)):
                            return max(a, h[0]), min(b, h[1])
                        _IMG[key] = h
                    a = max(a, h[0])
                    b = min(b, h[1])
        return a, b

    def rootvs(self, s):
        v = self.vs.get(s)
        if v is None:
            y = SYMS[s]
            return ((y.lo, y.hi),)
        return v

    def interval(self, l):
        lo = hi = l.c
        for s, k in l.t.items():
            a, b = self.bound(s)
            if k > 0:
                lo += k * a
                hi += k * b
            else:
                lo += k * b
                hi += k * a
        return lo, hi

    # ---- entailment
    def entails_ge(self, l):
        """l >= 0 on every concretisation?"""
        l = self.lin(l)
        if not l.t:
            return l.c >= 0
        k = l.key()
        r = self.ent.get(k)
        if r is None:
            r = self._entails(l)
            self.ent[k] = r
        return r

    def _entails(self, l):
        a, b = self.interval(l)
        if a >= 0:
            return True
        if b < 0:
            return False
        p = self.pointwise(l)
        if p is not None:
            return min(p.values()) >= 0
        if not self.iq:
            return False
        return minimise_sign(l, self.iq, self.bound)

    def entails_eq(self, l):
        l = self.lin(l)
        if not l.t:
            return l.c == 0
        return self.entails_ge(l) and self.entails_ge(-l)

    def entails_ne(self, l):
        l = self.lin(l)
        if not l.t:
            return l.c != 0
        n = -l
        for e in self.ne:
            if e == l or e == n:
                return True
        if self.entails_ge(l + -1) or self.entails_ge(n + -1):
            return True
        p = self.pointwise(l)
        if p is not None:
            return all(v != 0 for v in p.values())
        g = 0
        from math import gcd
        for k in l.t.values():
            g = gcd(g, k)
        if g > 1 and l.c % g:
            return True
        return False

    def pointwise(self, l):
        """{root value: l} when l is a function of one small root."""
        rs = self.rootset(l)
        if len(rs) != 1:
            return None
        r = next(iter(rs))
        vs = self.rootvs(r)
        if iv_count(vs) > SMALL:
            return None
        try:
            return {v: self.value_at(l, r, v) for v in iv_elems(vs)}
        except NoValue:
            return None

    def split_root(self, l, test, budget=20000):
        """Splits the only root of l into the values where test(l) holds and
        those where it does not, when that can be determined."""
        rs = self.rootset(l)
        if len(rs) != 1:
            return None
        r = next(iter(rs))
        vs = self.rootvs(r)
        if iv_count(vs) <= SMALL:
            try:
                t = []
                f = []
                for v in iv_elems(vs):
                    (t if test(self.value_at(l, r, v)) else f).append(v)
                return r, iv_from(t), iv_from(f)
            except NoValue:
                return None
        t = []
        f = []
        left = [budget]

        def rec(a, b):
            left[0] -= 1
            if left[0] < 0:
                raise NoValue()

            def rg(s):
                if s == r:
                    return a, b
                e = self.eq.get(s)
                if e is None:
                    raise NoValue()
                return range_lin(e, rg)
            lo, hi = range_lin(l, rg)
            d = test.decide(lo, hi)
            if d is True:
                t.append((a, b))
            elif d is False:
                f.append((a, b))
            elif a == b:
                (t if test(self.value_at(l, r, a)) else f).append((a, b))
            else:
                m = (a + b) // 2
                rec(a, m)
                rec(m + 1, b)
        try:
            for a, b in vs:
                rec(a, b)
        except NoValue:
            return None
        return r, iv_norm(t), iv_norm(f)

    # ---- assumptions (return False when the state becomes infeasible)
    def set_vs(self, s, iv):
        cur = self.rootvs(s)
        n = iv_and(cur, iv)
        if not n:
            return False
        if n == cur:
            return True
        self.ent = {}
        if len(n) == 1 and n[0][0] == n[0][1]:
            self.vs[s] = n
            return self.bind(s, K(n[0][0]))
        self.vs[s] = n
        return True

    def bind(self, s, l):
        """Adds the equality s = l (s not in l, l normalised)."""
        self.ent = {}
        v = self.rootvs(s) if is_root(s) else None
        if v is None:
            v = (self.bound(s),)
        if not l.t:
            if is_root(s):
                if not iv_in(v, l.c):
                    return False
            else:
                a, b = self.bound(s)
                if not a <= l.c <= b:
                    return False
        self.eq[s] = l
        pend = []
        for x in list(self.eq):
            e = self.eq[x]
            if s in e.t:
                e = self.eq[x] = self._sub(e, s, l)
                # the value set of x now says something about another root
                if len(e.t) <= 1 and x in self.vs and len(self.vs[x]) > 1:
                    pend.append((x, e))
        for x, e in pend:
            v2 = self.vs[x]
            p = e.single()
            if not e.t:
                if not iv_in(v2, e.c):
                    return False
            elif p and p[1] in (1, -1) and is_root(p[0]) and p[0] not in self.eq:
                if p[1] == 1:
                    im = tuple((y - e.c, z - e.c) for y, z in v2)
                else:
                    im = tuple((e.c - z, e.c - y) for y, z in reversed(v2))
                if not self.set_vs(p[0], im):
                    return False
        if not is_root(s) and not l.t:
            # filter the root of a derived symbol
            sp = self.split_root(Lin.sym(s), _Eq(l.c))
            if sp:
                del_ = self.set_vs(sp[0], sp[1])
                if not del_:
                    return False
        if not self._rename_apps(s):
            return False
        ok = True
        iq = self.iq
        self.iq = []
        for e in iq:
            if s in e.t or any(SYMS[q].d is not None for q in e.t):
                e2 = self.lin(e)
                if not self._add_ge(e2):
                    return False
            else:
                self.iq.append(e)
        ne = self.ne
        self.ne = []
        for e in ne:
            if s in e.t or any(SYMS[q].d is not None for q in e.t):
                if not self.assume_ne(e):
                    return False
            else:
                self.ne.append(e)
        if l.t:
            # the bounds of s now constrain l
            a, b = v[0][0], v[-1][1]
            p = l.single()
            if p and p[1] in (1, -1) and is_root(p[0]):
                t, k = p
                if k == 1:
                    img = tuple((x - l.c, y - l.c) for x, y in v)
                else:
                    img = tuple((l.c - y, l.c - x) for x, y in reversed(v))
                if not self.set_vs(t, img):
                    return False
            else:
                lo, hi = self.interval(l)
                if lo < a and not self._add_ge(self.lin(l + -a)):
                    return False
                if hi > b and not self._add_ge(self.lin(K(b) - l)):
                    return False
        return ok

    def _rename_apps(self, s):
        """What is known of a function of s holds for the function of what s is now."""
        todo = None
        for q in (*self.vs, *self.eq):
            d = SYMS[q].d
            if d is not None and d[0] == "app" and any(type(x) is Lin and s in x.t for x in d):
                todo = todo or set()
                todo.add(q)
        for q in sorted(todo or ()):
            y = SYMS[q]
            q2 = derived(tuple(self.lin(x) if type(x) is Lin else x for x in y.d), y.lo, y.hi, y.name)
            if q2 != q and not self.assume_eq(self.lin(Lin.sym(q2) - Lin.sym(q))):
                return False
        return True

    def _sub(self, e, s, l):
        k = e.t[s]
        t = dict(e.t)
        del t[s]
        return Lin(e.c, t) + l.scale(k)

    def _add_ge(self, l):
        """l >= 0, l normalised."""
        if not l.t:
            return l.c >= 0
        from math import gcd
        g = 0
        for k in l.t.values():
            g = gcd(g, k)
        if g > 1:
            l = Lin(l.c // g, {s: k // g for s, k in l.t.items()})
        p = l.single()
        if p and is_root(p[0]):
            s, k = p
            big = 1 << 140
            if k > 0:
                return self.set_vs(s, ((-(l.c // k), big),))
            return self.set_vs(s, ((-big, l.c // -k),))
        a, b = self.interval(l)
        if b < 0:
            return False
        if a >= 0:
            return True
        for i, e in enumerate(self.iq):
            if e.t == l.t:
                if e.c <= l.c:
                    return True
                self.iq[i] = l
                break
        else:
            self.iq.append(l)
        self.ent = {}
        return self._prop(l)

    def _prop(self, l):
        """Integer bound propagation from l >= 0."""
        a, b = self.interval(l)
        for s, k in list(l.t.items()):
            if not is_root(s):
                continue
            lo, hi = self.bound(s)
            rest = b - (k * hi if k > 0 else k * lo)
            # k*s + rest >= 0
            if k > 0:
                m = -(rest // k)
                if m > lo and not self.set_vs(s, ((m, 1 << 140),)):
                    return False
            else:
                m = rest // -k
                if m < hi and not self.set_vs(s, ((-(1 << 140), m),)):
                    return False
        return True

    def assume_ge(self, l):
        l = self.lin(l)
        if not l.t:
            return l.c >= 0
        sp = None
        if len(l.t) == 1 or any(not is_root(s) for s in l.t):
            sp = self.split_root(l, _GE)
        if sp:
            r, t, f = sp
            if not t:
                return False
            if not self.set_vs(r, t):
                return False
            if l.single() and is_root(l.single()[0]):
                return True
            return True
        if self.entails_ge((-l) + -1):
            return False
        if self.entails_ge(-l):
            return self.assume_eq(l)
        if not self._add_ge(l):
            return False
        # disequalities may now sharpen
        if self.ne:
            return self._recheck_ne()
        return True

    def _recheck_ne(self):
        for _ in range(3):
            again = False
            for e in list(self.ne):
                e2 = self.lin(e)
                if self.entails_ge(e2):
                    self.ne = [x for x in self.ne if x != e]
                    if not self._ge1(e2 + -1):
                        return False
                    again = True
                elif self.entails_ge(-e2):
                    self.ne = [x for x in self.ne if x != e]
                    if not self._ge1((-e2) + -1):
                        return False
                    again = True
            if not again:
                break
        return True

    def _ge1(self, l):
        l = self.lin(l)
        if not l.t:
            return l.c >= 0
        if self.entails_ge((-l) + -1):
            return False
        return self._add_ge(l)

    def assume_ne(self, l):
        l = self.lin(l)
        if not l.t:
            return l.c != 0
        sp = None
        if len(l.t) == 1 or any(not is_root(s) for s in l.t):
            sp = self.split_root(l, _EQ0)
        if sp:
            r, t, f = sp
            if not f:
                return False
            return self.set_vs(r, f)
        if self.entails_eq(l):
            return False
        if self.entails_ge(l):
            return self._ge1(l + -1)
        if self.entails_ge(-l):
            return self._ge1((-l) + -1)
        if l not in self.ne and -l not in self.ne:
            self.ne.append(l)
        self.ent = {}
        return True

    def assume_eq(self, l):
        l = self.lin(l)
        if not l.t:
            return l.c == 0
        sp = None
        if len(l.t) == 1 or any(not is_root(s) for s in l.t):
            sp = self.split_root(l, _EQ0)
        if sp:
            r, t, f = sp
            if not t:
                return False
            if not self.set_vs(r, t):
                return False
            l = self.lin(l)
            if not l.t:
                return l.c == 0
        from math import gcd
        g = 0
        for k in l.t.values():
            g = gcd(g, k)
        if g > 1:
            if l.c % g:
                return False
            l = Lin(l.c // g, {s: k // g for s, k in l.t.items()})
        if any(e == l or e == -l for e in self.ne):
            return False
        a, b = self.interval(l)
        if a > 0 or b < 0:
            return False
        # integer bounds (both directions) often solve k*x + y = c outright
        if len(l.t) > 1:
            for _ in range(3):
                if not self._prop(l) or not self._prop(-l):
                    return False
                n = self.lin(l)
                if n == l:
                    # congruence: y = -c mod k within a window narrower than k
                    if not self._congr(l):
                        return False
                    n = self.lin(l)
                    if n == l:
                        break
                l = n
                if not l.t:
                    return l.c == 0
        best = None
        for s, k in l.t.items():
            if k in (1, -1) and is_root(s):
                if best is None or s > best:
                    best = s
        if best is None:
            for s, k in l.t.items():
                if k in (1, -1):
                    best = s
                    break
        if best is None:
            return self._add_ge(l) and self._add_ge(-l)
        k = l.t[best]
        t = dict(l.t)
        del t[best]
        rhs = Lin(l.c, t)
        rhs = rhs.scale(-1) if k == 1 else rhs
        # a derived symbol on the right that depends on best would be cyclic
        for s in rhs.t:
            if not is_root(s) and best in roots_of(s):
                return self._add_ge(l) and self._add_ge(-l)
        if self.iq and self._infeasible_eq(l):
            return False
        if not self.bind(best, rhs):
            return False
        if self.ne:
            return self._recheck_ne()
        return True

    def _infeasible_eq(self, l):
        return self.entails_ge(l + -1) or self.entails_ge((-l) + -1)

    def _congr(self, l):
        """For k*x + rest = 0: rest is a multiple of k."""
        for s, k in list(l.t.items()):
            if abs(k) < 2 or not is_root(s):
                continue
            if any(c % k for q, c in l.t.items() if q != s and abs(c) != 1):
                continue
            others = [q for q, c in l.t.items() if c % k]
            if len(others) != 1:
                continue
            y = others[0]
            if not is_root(y):
                continue
            kk = abs(k)
            cy = l.t[y]
            lo, hi = self.bound(y)
            if hi - lo >= kk:
                continue
            # cy*y + c = 0 mod kk, cy = +-1
            if cy % kk not in (1, kk - 1):
                continue
            r = (-l.c if cy % kk == 1 else l.c) % kk
            v = lo + ((r - lo) % kk)
            if v > hi:
                return False
            if not self.set_vs(y, ((v, v),)):
                return False
            return True
        return True

    # ---- bounds through the inequalities
    def bounds_lp(self, l):
        l = self.lin(l)
        a, b = self.interval(l)
        if not l.t or not self.iq:
            return a, b
        try:
            v = minimise(l, self.iq, self.bound)
            if v is not None:
                n, d = v
                a = max(a, -((-n) // d))
            v = minimise(-l, self.iq, self.bound)
            if v is not None:
                n, d = v
                b = min(b, _negceil(n, d))
        except Infeasible:
            raise Dead()
        return a, b

    def feasible(self):
        for e in self.iq:
            if self.entails_ge((-e) + -1):
                return False
        return True

    def consts(self, l):
        """The finite set of values of l when it is a function of one small
        root, else None."""
        l = self.lin(l)
        if not l.t:
            return {l.c}
        p = self.pointwise(l)
        return set(p.values()) if p is not None else None

    def fork_trace(self, s):
        self.tr = (self.tr, s)

    def trace(self):
        out = []
        t = self.tr
        while t:
            out.append(t[1])
            t = t[0]
        return out[::-1]


def _negceil(n, d):
    # minimum of -l is n/d, so l <= -n/d
    return (-n) // d


_IMG = {}


class _Test:
    def __init__(self, f, dec):
        self.f = f
        self.decide = dec

    def __call__(self, v):
        return self.f(v)


_GE = _Test(lambda v: v >= 0,
            lambda a, b: True if a >= 0 else (False if b < 0 else None))
_EQ0 = _Test(lambda v: v == 0,
             lambda a, b: True if a == b == 0 else (
                 False if a > 0 or b < 0 else None))


def _Eq(c):
    return _Test(lambda v: v == c,
                 lambda a, b: True if a == b == c else (
                     False if a > c or b < c else None))
