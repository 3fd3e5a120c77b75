"""Linear expressions over integer symbols, interval sets, and an exact
rational simplex used to decide entailment between linear inequalities."""
from math import gcd


class Lin:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c=0, t=None):
        self.c = c
        self.t = t if t is not None else {}
        self._h = None

    @staticmethod
    def sym(s, k=1):
        return Lin(0, {s: k})

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t) if o else self
        if not o.t:
            return Lin(self.c + o.c, self.t) if o.c else self
        if not self.t:
            return Lin(self.c + o.c, o.t)
        t = dict(self.t)
        for s, k in o.t.items():
            v = t.get(s, 0) + k
            if v:
                t[s] = v
            else:
                t.pop(s, None)
        return Lin(self.c + o.c, t)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t) if o else self
        if not o.t:
            return Lin(self.c - o.c, self.t) if o.c else self
        t = dict(self.t)
        for s, k in o.t.items():
            v = t.get(s, 0) - k
            if v:
                t[s] = v
            else:
                t.pop(s, None)
        return Lin(self.c - o.c, t)

    def __neg__(self):
        return Lin(-self.c, {s: -k for s, k in self.t.items()})

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Lin(self.c * k, {s: v * k for s, v in self.t.items()})

    def div(self, g):
        return Lin(self.c // g, {s: v // g for s, v in self.t.items()})

    def key(self):
        if self._h is None:
            self._h = (self.c, tuple(sorted(self.t.items())))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def single(self):
        """(sym, coef) when exactly one symbol occurs."""
        if len(self.t) == 1:
            for s, k in self.t.items():
                return s, k
        return None

    def pure(self):
        """The symbol when the expression is exactly one symbol."""
        if self.c == 0 and len(self.t) == 1:
            for s, k in self.t.items():
                if k == 1:
                    return s
        return None

    def rename(self, m):
        for s in self.t:
            if s in m:
                break
        else:
            return self
        t = {}
        for s, k in self.t.items():
            r = m.get(s, s)
            v = t.get(r, 0) + k
            if v:
                t[r] = v
            else:
                t.pop(r, None)
        return Lin(self.c, t)

    def __repr__(self):
        out = []
        for s, k in sorted(self.t.items()):
            out.append("%s%s" % ({1: "+", -1: "-"}.get(k, "%+d*" % k), name_of(s)))
        if self.c or not out:
            out.append("%+d" % self.c)
        return "".join(out)


ZERO = Lin(0)
ONE = Lin(1)


def K(n):
    return Lin(n)


# ---------------------------------------------------------------- symbols
class Sym:
    __slots__ = ("name", "lo", "hi", "d", "kind")


SYMS = []


def new_sym(name, lo, hi, d=None, kind=None):
    s = Sym()
    s.name = name
    s.lo = lo
    s.hi = hi
    s.d = d
    s.kind = kind
    SYMS.append(s)
    return len(SYMS) - 1


def name_of(s):
    return "%s.%d" % (SYMS[s].name, s)


# ---------------------------------------------------------------- interval sets
def iv_norm(lst):
    lst = sorted(lst)
    out = []
    for a, b in lst:
        if a > b:
            continue
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)


def iv_and(x, y):
    out = []
    i = j = 0
    while i < len(x) and j < len(y):
        a = max(x[i][0], y[j][0])
        b = min(x[i][1], y[j][1])
        if a <= b:
            out.append((a, b))
        if x[i][1] < y[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def iv_or(x, y):
    return iv_norm(list(x) + list(y))


def iv_sub(x, y):
    out = []
    for a, b in x:
        cur = a
        for c, d in y:
            if d < cur:
                continue
            if c > b:
                break
            if c > cur:
                out.append((cur, c - 1))
            cur = max(cur, d + 1)
            if cur > b:
                break
        if cur <= b:
            out.append((cur, b))
    return tuple(out)


def iv_count(x):
    return sum(b - a + 1 for a, b in x)


def iv_elems(x):
    for a, b in x:
        yield from range(a, b + 1)


def iv_from(vals):
    out = []
    for v in sorted(vals):
        if out and out[-1][1] + 1 == v:
            out[-1][1] = v
        elif not out or out[-1][1] != v:
            out.append([v, v])
    return tuple((a, b) for a, b in out)


def iv_shift(x, k):
    return tuple((a + k, b + k) for a, b in x)


def iv_in(x, v):
    for a, b in x:
        if a <= v <= b:
            return True
    return False


def iv_subset(x, y):
    return iv_and(x, y) == tuple(x)


# ---------------------------------------------------------------- simplex
LP_COUNT = [0]


def _normrow(r):
    g = 0
    for v in r:
        if v:
            g = gcd(g, v)
            if g == 1:
                return r
    if g > 1:
        return [v // g for v in r]
    return r


def _pivot(rows, basis, z, r, c):
    """Makes column c basic in row r.  All rows keep a positive coefficient
    for their basic variable."""
    pr = rows[r]
    p = pr[c]
    if p < 0:
        pr = rows[r] = [-v for v in pr]
        p = -p
    for i, row in enumerate(rows):
        if i != r:
            a = row[c]
            if a:
                rows[i] = _normrow([v * p - a * w for v, w in zip(row, pr)])
    for k in range(len(z)):
        a = z[k][c]
        if a:
            # objective rows are scaled by positive factors only
            z[k] = _normrow([v * p - a * w for v, w in zip(z[k], pr)])
    basis[r] = c


def minimise_sign(obj, cons, bound, stop_neg=True):
    """Is min(obj) >= 0 subject to cons (each >= 0) and lo <= sym <= hi?
    Returns True (entailed or infeasible) or False."""
    LP_COUNT[0] += 1
    # collect connected constraints
    need = set(obj.t)
    use = []
    rest = list(cons)
    changed = True
    while changed:
        changed = False
        nrest = []
        for e in rest:
            if any(s in need for s in e.t):
                use.append(e)
                for s in e.t:
                    if s not in need:
                        need.add(s)
                        changed = True
                changed = True
            else:
                nrest.append(e)
        rest = nrest
    cols = {}
    los = []
    for s in need:
        lo, hi = bound(s)
        cols[s] = len(los)
        los.append((lo, hi, s))
    n = len(los)
    m_rows = []
    for e in use:
        # sum k*s + c >= 0  ->  -sum k*y <= c + sum k*lo
        row = [0] * n
        c = e.c
        for s, k in e.t.items():
            j = cols[s]
            row[j] = -k
            c += k * los[j][0]
        m_rows.append((row, c))
    for j, (lo, hi, s) in enumerate(los):
        if hi - lo <= (1 << 62) or hi <= 0:
            row = [0] * n
            row[j] = 1
            m_rows.append((row, hi - lo))
    m = len(m_rows)
    # objective: minimise sum k*y + c0
    c0 = obj.c
    orow = [0] * n
    for s, k in obj.t.items():
        j = cols[s]
        orow[j] = k
        c0 += k * los[j][0]
    width = n + m + 1
    need_phase1 = any(c < 0 for _, c in m_rows)
    rows = []
    basis = []
    if not need_phase1:
        for i, (row, c) in enumerate(m_rows):
            r = row + [0] * m + [c]
            r[n + i] = 1
            rows.append(r)
            basis.append(n + i)
        # z row holds: minimise  z = sum zc*x + const ; store [coefs..., -value]
        z = [orow + [0] * m + [-c0]]
    else:
        width = n + m + 2
        art = n + m
        for i, (row, c) in enumerate(m_rows):
            r = row + [0] * m + [-1] + [c]
            r[n + i] = 1
            rows.append(r)
            basis.append(n + i)
        zr = [0] * width
        zr[art] = 1
        z = [orow + [0] * m + [0] + [-c0], zr]
        worst = min(range(m), key=lambda i: rows[i][-1])
        _pivot(rows, basis, z, worst, art)
        if not _simplex(rows, basis, z, 1, width - 1, lambda: z[1][-1] >= 0):
            pass
        # value of artificial objective is -z[1][-1] (scaled)
        if z[1][-1] < 0:
            return True    # infeasible
        # drive artificial out of the basis
        if art in basis:
            r = basis.index(art)
            piv = None
            for j in range(width - 2):
                if rows[r][j]:
                    piv = j
                    break
            if piv is None:
                rows.pop(r)
                basis.pop(r)
            else:
                _pivot(rows, basis, z, r, piv)
        for i in range(len(rows)):
            rows[i][art] = 0
        z = [z[0]]
        z[0][art] = 0
    # z[0][-1] is -(current value) up to a positive factor
    res = _simplex(rows, basis, z, 0, len(z[0]) - 1, lambda: z[0][-1] > 0)
    if res == "unbounded":
        return False
    return not z[0][-1] > 0


def _simplex(rows, basis, z, k, ncols, stop):
    """Minimises objective k with Bland's rule."""
    it = 0
    while True:
        if stop():
            return "stop"
        zr = z[k]
        c = -1
        if it < 30:
            best = 0
            for j in range(ncols):
                v = zr[j]
                if v < best:
                    best = v
                    c = j
        else:
            for j in range(ncols):
                if zr[j] < 0:
                    c = j
                    break
        if c < 0:
            return "opt"
        br = -1
        bn = bd = 0
        for i, row in enumerate(rows):
            a = row[c]
            if a > 0:
                # ratio rhs/a
                if br < 0 or row[-1] * bd < bn * a or (
                        row[-1] * bd == bn * a and basis[i] < basis[br]):
                    br, bn, bd = i, row[-1], a
        if br < 0:
            return "unbounded"
        _pivot(rows, basis, z, br, c)
        it += 1
        if it > 2000:
            return "opt" if k else "unbounded"


def lower_bound(obj, cons, bound):
    """The greatest integer b with obj >= b entailed, or None."""
    # exponential + binary search on entailment around 0 would be slow; solve
    # directly instead.
    v = minimise(obj, cons, bound)
    if v is None:
        return None
    n, d = v
    return -((-n) // d)


def minimise(obj, cons, bound):
    """Exact minimum as (num, den), None if unbounded; raises Infeasible."""
    LP_COUNT[0] += 1
    t = new_tableau(obj, cons, bound)
    if t is None:
        raise Infeasible()
    rows, basis, z, c0, oscale = t
    res = _simplex(rows, basis, z, 0, len(z[0]) - 1, lambda: False)
    if res == "unbounded":
        return None
    # recompute the value from the basis
    zr = z[0]
    # column "scale" tracks the positive factor applied to the objective row
    return (-zr[-1], zr[oscale])


class Infeasible(Exception):
    pass


def new_tableau(obj, cons, bound):
    need = set(obj.t)
    use = []
    rest = list(cons)
    changed = True
    while changed:
        changed = False
        nrest = []
        for e in rest:
            if any(s in need for s in e.t):
                use.append(e)
                need.update(e.t)
                changed = True
            else:
                nrest.append(e)
        rest = nrest
    cols = {}
    los = []
    for s in need:
        lo, hi = bound(s)
        cols[s] = len(los)
        los.append((lo, hi, s))
    n = len(los)
    m_rows = []
    for e in use:
        row = [0] * n
        c = e.c
        for s, k in e.t.items():
            j = cols[s]
            row[j] = -k
            c += k * los[j][0]
        m_rows.append((row, c))
    for j, (lo, hi, s) in enumerate(los):
        if hi - lo <= (1 << 62) or hi <= 0:
            row = [0] * n
            row[j] = 1
            m_rows.append((row, hi - lo))
    m = len(m_rows)
    c0 = obj.c
    orow = [0] * n
    for s, k in obj.t.items():
        j = cols[s]
        orow[j] = k
        c0 += k * los[j][0]
    art = n + m
    sc = n + m + 1          # scale column: only the objective row uses it
    rows = []
    basis = []
    for i, (row, c) in enumerate(m_rows):
        r = row + [0] * m + [0, 0, c]
        r[n + i] = 1
        rows.append(r)
        basis.append(n + i)
    z = [orow + [0] * m + [0, 1, -c0]]
    if any(c < 0 for _, c in m_rows):
        for r in rows:
            r[art] = -1
        zr = [0] * (n + m + 3)
        zr[art] = 1
        z.append(zr)
        worst = min(range(m), key=lambda i: rows[i][-1])
        _pivot(rows, basis, z, worst, art)
        _simplex(rows, basis, z, 1, n + m + 1, lambda: z[1][-1] >= 0)
        if z[1][-1] < 0:
            return None
        if art in basis:
            r = basis.index(art)
            piv = None
            for j in range(n + m):
                if rows[r][j]:
                    piv = j
                    break
            if piv is None:
                rows.pop(r)
                basis.pop(r)
            else:
                _pivot(rows, basis, z, r, piv)
        for r in rows:
            r[art] = 0
        z.pop()
        z[0][art] = 0
    # entering columns: the scale column must never enter; its coefficient is
    # positive, and minimisation only picks negative ones.
    return rows, basis, z, c0, sc
