"""Loops: unrolling under constant control, and fixpoints over head states
partitioned by their discrete part, with affine and linear-inequality joins."""
import os
from fractions import Fraction
from math import gcd

import dom
from lin import (Lin, K, ZERO, SYMS, new_sym, iv_or, iv_norm, iv_and, iv_subset,
                 iv_count, Infeasible, minimise)
from dom import (St, IntV, PtrV, FnV, AggV, UNDEF, NULL, Top, Obj, Dead,
                 is_root, roots_of, derived)

INF = 1 << 140
DEBUG = os.environ.get("SA_DEBUG")
DEBUG_OUT = []
HI_T = [0, 1, 2, 3, 4, 7, 15, 255, 0x10FFFF, 0x1FFFFF,
        (1 << 31) - 1, (1 << 32) - 1, 1 << 62, (1 << 63) - 1, (1 << 64) - 1]
LO_T = [1, 0, -1, -128, -(1 << 31), -(1 << 62), -(1 << 63), -(1 << 64)]


def why(n, env):
    if DEBUG:
        DEBUG_OUT.append((n, {k: repr(v)[:200] for k, v in env.items()
                              if k in ("l", "q", "h", "tup", "u", "old", "fk", "m", "c", "vals")}))
        del DEBUG_OUT[:-60]


def disc(v):
    """The discrete part of a value."""
    if isinstance(v, IntV):
        if v.w == 1 or v.w == 8:
            if not v.l.t and (v.w == 1 or v.l.c in (0, 1)):
                return ("I", v.w, v.l.c)
        return ("I", v.w)
    if isinstance(v, PtrV):
        return ("P", v.r)
    if isinstance(v, FnV):
        return ("F", v.fn.name)
    if isinstance(v, AggV):
        return ("A",) + tuple(disc(x) for x in v.v)
    if v is UNDEF:
        return "U"
    if isinstance(v, Top):
        return ("T", v.w)
    if isinstance(v, Lin):
        return ("L",)
    n = type(v).__name__
    if n == "PackV":
        return ("K", v.size)
    return ("D", v)


def walk(v, path):
    """Numeric parts of a value: yields (path, Lin)."""
    if isinstance(v, (IntV, PtrV)):
        yield path, v.l
    elif isinstance(v, Lin):
        yield path, v
    elif isinstance(v, AggV):
        for i, x in enumerate(v.v):
            yield from walk(x, path + (i,))


def rebuild(v, path, get):
    if isinstance(v, IntV):
        return IntV(v.w, get(path))
    if isinstance(v, PtrV):
        return PtrV(v.r, get(path))
    if isinstance(v, Lin):
        return get(path)
    if isinstance(v, AggV):
        return AggV([rebuild(x, path + (i,), get) for i, x in enumerate(v.v)])
    if type(v).__name__ == "PackV":
        return Top(8 * v.size)
    return v


HUGE = 1 << 200


class Loops:
    # ------------------------------------------------------------ partition
    def key(self, st):
        if self.settle is not None:
            self.settle(self, st)
        if self.marks:
            def disc_(v):
                # marked constants are told apart from other numbers
                if isinstance(v, IntV) and v.w == 64:
                    l = st.lin(v.l)
                    if not l.t and l.c % (1 << 64) in self.marks:
                        return ("I", 64, l.c % (1 << 64))
                elif isinstance(v, AggV):
                    return ("A",) + tuple(disc_(x) for x in v.v)
                return disc(v)
        else:
            disc_ = disc
        out = [st.ctx]
        out.append(frozenset((n, disc_(v)) for n, v in st.env.items()))
        out.append(tuple((f[0], frozenset((n, disc_(v)) for n, v in f[1].items()))
                         for f in st.stack))
        out.append(frozenset((k, c[0], disc_(c[1])) for k, c in st.mem.items()))
        out.append(frozenset(
            (k, o.kind, frozenset((n, disc_(x)) for n, x in o.f.items()))
            for k, o in st.obj.items()))
        out.append(frozenset((n, disc_(v)) for n, v in st.gh.items()))
        return tuple(out)

    # ------------------------------------------------------------ locations
    def slots(self, st):
        """Every place of the state holding a value: [(name, value)]."""
        out = []
        for n, v in st.env.items():
            out.append((("e", n), v))
        for i, f in enumerate(st.stack):
            for n, v in f[1].items():
                out.append((("f", i, n), v))
        for k, c in st.mem.items():
            out.append((("m", k), c[1]))
        for k, o in st.obj.items():
            for n, v in o.f.items():
                out.append((("o", k, n), v))
        for n, v in st.gh.items():
            out.append((("g", n), v))
        for r, l in st.rgn.items():
            out.append((("r", r), l))
        return out

    def locs(self, st, wid=None):
        out = {}
        for n, v in self.slots(st):
            for p, l in walk(v, ()):
                l = st.lin(l)
                x = v
                for i in p:
                    x = x.v[i]
                w = x.w if isinstance(x, IntV) else 0
                if w:
                    a, b = st.interval(l)
                    if (a < -(1 << (w - 1)) or b >= 1 << w) and b - a < 1 << w:
                        # another representative of the residue class
                        c = l + -((a >> w) << w)
                        if b - ((a >> w) << w) < 1 << w:
                            l = c
                out[(n, p)] = l
                if wid is not None:
                    wid[(n, p)] = w
        return out

    # ------------------------------------------------------------ join
    def join(self, states, wm, synth=True, thresholds=False, full=False, level=0):
        """The join of states with equal keys; see join1."""
        states = list(states)
        gone = False
        while True:
            try:
                r = self.join1(states, wm, synth, thresholds, full, level)
                return (r[0], r[1] or gone) if full else r
            except Empty as e:
                # a state without concrete states
                if len(states) == 1:
                    raise Dead()
                gone = gone or e.args[0] == 0
                del states[e.args[0]]

    def join1(self, states, wm, synth=True, thresholds=False, full=False, level=0):
        """The join of states with equal keys.  Symbols below wm (all symbols
        when wm is None) keep their name.  Returns the state, or with full
        (state, changed) where changed tells whether it is weaker than the
        first of the states."""
        n = len(states)
        changed = False
        if wm is None:
            def shared(s):
                return True
        else:
            def shared(s):
                if is_root(s):
                    return s < wm if SYMS[s].d is None else all(
                        shared(t) for x in SYMS[s].d if isinstance(x, Lin) for t in x.t)
                return all(shared(r) for r in roots_of(s))
        W = {}
        L = [self.locs(s, W) for s in states]
        base = states[0]
        common = [k for k in L[0] if all(k in m for m in L[1:])]
        if len(common) != len(L[0]):
            changed = True
            why(135, locals())
        J = Joiner(states, shared)
        val = {}
        for k in common:
            val[k] = J.join_lin(tuple(m[k] for m in L), False)
            w = W[k]
            p = val[k].single()
            if p is None:
                if w >= 32 or w == 0:
                    J.used.update(val[k].t)
                    if val[k].t:
                        J.exprs[val[k] + -val[k].c] = 1
                continue
            p, co = p
            if p in J.own:
                if w >= 32 or w == 0:
                    J.wide.setdefault(p, None)
                J.rng.setdefault(p, set()).add((w, val[k].c) if w and co == 1 else None)
                if co == 1 and k[0][0] == "o" and k[0][2] == "len":
                    # a container holds at least nothing
                    J.least[p] = max(J.least.get(p, -val[k].c), -val[k].c)
            elif w >= 32 or w == 0:
                J.used.update(val[k].t)
        # facts
        facts = {}
        fplan = []
        for fk, fv in base.facts.items():
            x = self._join_fact(J, states, fk, fv, L, common)
            if x is None:
                changed = True
                why(147, locals())
            else:
                fplan.append(x)
        # remembered memory contents
        mplan = []
        if base.memo:
            for m in base.memo:
                x = self._join_memo(J, states, m, shared)
                if x is None:
                    changed = True
                    why(157, locals())
                else:
                    mplan.append(x)
        new = St()
        new.tr = base.tr
        new.ctx = base.ctx
        ch = J.solve(new, synth, thresholds, level)
        changed = changed or ch
        # rebuild
        lin = new.lin

        def get_for(name):
            return lambda p: lin(val[(name, p)]) if (name, p) in val else \
                Lin.sym(new_sym("j", -INF, INF))
        for nme, v in base.env.items():
            new.env[nme] = rebuild(v, (), get_for(("e", nme)))
        stk = []
        for i, f in enumerate(base.stack):
            stk.append((f[0], {nm: rebuild(v, (), get_for(("f", i, nm)))
                               for nm, v in f[1].items()}))
        new.stack = tuple(stk)
        for k, c in base.mem.items():
            new.mem[k] = (c[0], rebuild(c[1], (), get_for(("m", k))))
        for k, o in base.obj.items():
            new.obj[k] = Obj(o.kind, {nm: rebuild(v, (), get_for(("o", k, nm)))
                                      for nm, v in o.f.items()})
        for nme, v in base.gh.items():
            new.gh[nme] = rebuild(v, (), get_for(("g", nme)))
        for r, l in base.rgn.items():
            if (("r", r), ()) in val:
                new.rgn[r] = lin(val[(("r", r), ())])
        for r, l, sz, v in mplan:
            new.memo.append((r, lin(l), sz, rebuild_lin(v, lin)))
        for fk, fv in fplan:
            fk2 = (fk[0],) + tuple(lin(x) if isinstance(x, Lin) else x for x in fk[1:])
            p = fk2[1].pure() if isinstance(fk2[1], Lin) else fk2[1]
            if p is None:
                changed = True
                why(195, locals())
                continue
            new.facts[(fk2[0], p) + fk2[2:]] = tuple(
                lin(x) if isinstance(x, Lin) else x for x in fv)
        if full:
            return new, changed
        return new

    def _join_fact(self, J, states, fk, fv, L, common):
        """Facts are keyed (kind, symbol, ...) with a tuple of Lins."""
        sym = fk[1]
        if all(fk in s.facts for s in states) and J.shared(sym):
            ks = [fk] * len(states)
        else:
            ks = None
            for k in common:
                if L[0][k].pure() == sym:
                    cand = []
                    for s, m in zip(states, L):
                        p = m[k].pure()
                        if p is None or (fk[0], p) + fk[2:] not in s.facts:
                            break
                        cand.append((fk[0], p) + fk[2:])
                    else:
                        ks = cand
                        break
            if ks is None:
                return None
        vs = [s.facts[k] for s, k in zip(states, ks)]
        out = []
        for i, x in enumerate(fv):
            if isinstance(x, Lin):
                if not all(isinstance(v[i], Lin) for v in vs):
                    return None
                out.append(J.join_lin(tuple(s.lin(v[i]) for s, v in zip(states, vs))))
            else:
                if any(v[i] != x for v in vs):
                    return None
                out.append(x)
        key = J.join_lin(tuple(Lin.sym(k[1]) for k in ks))
        return (fk[0], key) + fk[2:], tuple(out)

    def _join_memo(self, J, states, m, shared):
        r, l, sz, v = m
        l0 = states[0].lin(l)
        picks = [m]
        for s in states[1:]:
            hit = None
            for m2 in s.memo:
                if m2[0] == r and m2[2] == sz and disc(m2[3]) == disc(v):
                    t = J.lookup((l0, s.lin(m2[1])), (0, states.index(s)))
                    if t:
                        hit = m2
                        break
            if hit is None:
                return None
            picks.append(hit)
        lt = J.join_lin(tuple(s.lin(p[1]) for s, p in zip(states, picks)))
        vv = join_val(J, states, [p[3] for p in picks])
        if vv is None:
            return None
        return r, lt, sz, vv

    # ------------------------------------------------------------ loops
    def run_loop(self, fn, lp, sts, outs):
        name = self.bname(fn)
        rec = self.loops_seen.setdefault((fn.dem, lp.head.idx), {"fn": fn.dem, "modes": set()})
        res = []
        rest = []
        exact = self.unroll_all or self.exact_all or name in self.exact
        for s in sts:
            r = self.try_unroll(fn, lp, s, outs, exact)
            if r is None:
                rest.append(s)
            else:
                rec["modes"].add("unrolled")
                res.extend(r)
        if rest:
            rec["modes"].add("fixpoint")
            res.extend(self.fixpoint(fn, lp, rest, outs))
        return res

    def try_unroll(self, fn, lp, s0, outs, exact):
        lmark = len(self.log)
        omark = len(outs)
        cur = [s0.copy()]
        exits = []
        prev = None
        limit = 20000 if self.unroll_all else self.peel if self.exact_all else 64
        for it in range(limit):
            if not cur:
                return exits
            self.loop_icmps.append({})
            backs = []
            ok = True
            before = len(outs)
            mixed = False
            for s in cur:
                o1 = len(outs)
                b, e = self.run_region(fn, lp, [(lp.head, s)], outs)
                backs.extend(b)
                exits.extend(e)
                if b and (e or len(outs) > o1 or len(b) > 1):
                    mixed = True
            ic = self.loop_icmps.pop()
            if mixed and not exact:
                if prev is None:
                    if not ic:
                        ok = False
                elif not self._varies(prev, ic):
                    ok = False
            if len(backs) > 64 and not self.unroll_all:
                ok = False
            if not ok:
                break
            prev = ic
            cur = backs
        else:
            if not cur:
                return exits
        if self.unroll_all:
            raise Dead()
        if self.exact_all and ok:
            # the first iterations stay apart, the rest are brought together
            return exits + self.fixpoint(fn, lp, cur, outs)
        del self.log[lmark:]
        del outs[omark:]
        return None

    @staticmethod
    def _varies(a, b):
        for k, v in b.items():
            w = a.get(k)
            if w is not None and set(v) != set(w):
                return True
        return False

    def fixpoint(self, fn, lp, sts, outs):
        """Iterates the partitioned head states to a post-fixpoint; the last
        run from every head state supplies exits, obligations and results."""
        wm = len(SYMS)
        parts = {}
        order = []
        for s in sts:
            parts.setdefault(self.key(s), []).append(s)
        G = {}
        rounds = {}
        for k, g in parts.items():
            G[k] = g[0].copy() if len(g) == 1 else self.join(g, None)
            rounds[k] = 0
            order.append(k)
        last = {}
        dirty = list(order)
        lmark = len(self.log)
        total = 0
        while dirty:
            total += 1
            if total > 400:
                raise RuntimeError("no fixpoint: " + fn.dem)
            k = dirty.pop(0)
            g = G[k]
            o = []
            self.loop_icmps.append({})
            start = g.copy()
            self.ev("loophead", start, lp.head.instrs[0] if lp.head.instrs else None, fn=fn, loop=lp)
            b, e = self.run_region(fn, lp, [(lp.head, start)], o)
            self.loop_icmps.pop()
            log = self.log[lmark:]
            del self.log[lmark:]
            last[k] = (b, e, o, log, g)
            # propagate
            bykey = {}
            for s in b:
                bykey.setdefault(self.key(s), []).append(s)
            for k2, bs in bykey.items():
                if k2 not in G:
                    if len(G) > 200:
                        raise RuntimeError("too many loop partitions: " + fn.dem)
                    G[k2] = bs[0].copy() if len(bs) == 1 else self.join(bs, wm)
                    # locals of the producing iteration become head symbols
                    if len(bs) == 1:
                        G[k2] = self.join([bs[0], bs[0]], wm)
                    rounds[k2] = 0
                    dirty.append(k2)
                    continue
                rounds[k2] += 1
                r = rounds[k2]
                if r > 36 and DEBUG:
                    DEBUG_OUT.append((fn.dem[:60], r, "---"))
                if r > 40:
                    if DEBUG:
                        for x in DEBUG_OUT:
                            print(*x)
                    raise RuntimeError("no convergence: " + fn.dem)
                del DEBUG_OUT[:]
                ng, ch = self.join([G[k2]] + bs, wm, synth=r <= 2,
                                   thresholds=r >= 2, full=True,
                                   level=0 if r < 5 else 1 if r < 16 else 2 if r < 28 else 3)
                if DEBUG == "3" and not fn.dem.startswith("std::__"):
                    print("ROUND", fn.dem[-40:], r, ch, len(bs))
                    for x in DEBUG_OUT:
                        print("     ", x[0], {a: b for a, b in x[1].items() if a in ("tup", "l", "u", "fk", "m", "c", "old")})
                    del DEBUG_OUT[:]
                if ch:
                    if DEBUG == "2":
                        print("JOIN", fn.dem[:40], r, "iq", ng.iq, "eq", ng.eq, "vs", ng.vs, {kk: v for kk, v in self.locs(ng).items() if v.t})
                    G[k2] = ng
                    if k2 not in dirty:
                        dirty.append(k2)
        self.check_termination(fn, lp, last)
        res = []
        for k, (b, e, o, log, g) in last.items():
            res.extend(e)
            outs.extend(o)
            self.log.extend(log)
        return res

    # ------------------------------------------------------------ ranking
    def check_termination(self, fn, lp, last):
        if not self.termcheck or (self.kinds is not None and "term" not in self.kinds):
            return
        ins = lp.head.instrs[0] if lp.head.instrs else None
        trans = []
        for k, (b, e, o, log, g) in last.items():
            L0 = None
            for s in b:
                k2 = self.key(s)
                if L0 is None:
                    L0 = {}
                    for (nm, p), l in self.locs(g).items():
                        L0[(nm, p)] = l
                trans.append((k, k2, g, s, L0, self.locs(s)))
        ok = True
        for comp in sccs(trans):
            if not self._rank(comp):
                ok = False
                break
        best = ins
        for i in lp.head.instrs:
            if i.loc() != "?":
                best = i
                break
        self.check(last[next(iter(last))][4], ok, "term", best or ins,
                   "no decreasing bounded measure found for the loop")

    def _rank(self, trans):
        todo = list(trans)
        for _ in range(6):
            # transitions that stay within a strongly connected component
            comps = sccs(todo)
            todo = [t for c in comps for t in c]
            if not todo:
                return True
            f = self._find_measure(todo)
            if f is None:
                return False
            todo = [t for t, d in zip(todo, f) if d != 1]
        return not todo

    def _find_measure(self, todo):
        locs = None
        for t in todo:
            s = set(t[4]) & set(t[5])
            locs = s if locs is None else locs & s
        locs = [x for x in locs if x[0][0] != "r"]
        # only locations that change somewhere
        terms = []
        mov = []
        for x in sorted(locs, key=repr):
            if any(t[3].lin(t[4][x]) != t[5][x] for t in todo):
                mov.append(x)
        for x in mov:
            terms.append(((1, x),))
            terms.append(((-1, x),))
        for x in mov:
            for y in mov:
                if x != y:
                    terms.append(((1, x), (-1, y)))
        for i, x in enumerate(mov):
            for y in mov[i + 1:]:
                terms.append(((1, x), (1, y)))
                terms.append(((-1, x), (-1, y)))

        def test(term):
            res = []
            some = False
            for (k, k2, g, s, L0, L1) in todo:
                h = ZERO
                t = ZERO
                for c, x in term:
                    h = h + L0[x].scale(c)
                    t = t + L1[x].scale(c)
                a, b = g.interval(g.lin(h))
                if a < -(1 << 70):
                    return None
                d = s.lin(h - t)
                if s.entails_ge(d + -1):
                    res.append(1)
                    some = True
                elif s.entails_ge(d):
                    res.append(0)
                else:
                    return None
            return res if some else None
        for term in terms:
            r = test(term)
            if r is not None:
                return r
        return None


def sccs(trans):
    """Groups the transitions lying within a strongly connected component."""
    nodes = {}
    for t in trans:
        nodes.setdefault(t[0], set()).add(t[1])
        nodes.setdefault(t[1], set())
    reach = {}
    for k in nodes:
        seen = set()
        work = list(nodes[k])
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            work.extend(nodes[x])
        reach[k] = seen
    comps = {}
    for t in trans:
        if t[0] in reach[t[1]] or t[0] == t[1]:
            cid = frozenset(k for k in reach[t[0]] if t[0] in reach[k])
            comps.setdefault(cid, []).append(t)
    return list(comps.values())


def rebuild_lin(v, lin):
    return rebuild(v, (), None) if not isinstance(v, (IntV, PtrV)) else (
        IntV(v.w, lin(v.l)) if isinstance(v, IntV) else PtrV(v.r, lin(v.l)))


def join_val(J, states, vs):
    v = vs[0]
    if isinstance(v, IntV):
        return IntV(v.w, J.join_lin(tuple(s.lin(x.l) for s, x in zip(states, vs))))
    if isinstance(v, PtrV):
        return PtrV(v.r, J.join_lin(tuple(s.lin(x.l) for s, x in zip(states, vs))))
    if isinstance(v, FnV):
        return v
    return None


class Empty(Exception):
    pass


class Joiner:
    """Names the joined values and computes the relations between them."""

    def __init__(self, states, shared):
        self.states = states
        self.sh = {}
        self._shared = shared
        self.n = len(states)
        self.groups = {}       # offset-normalised tuple -> head symbol
        self.heads = []        # (symbol, tuple of Lin per state)
        self.own = set()
        self.exprs = {}        # unchanged locations of several symbols
        self.used = set()      # shared symbols of unchanged locations
        self.congs = []        # (joined function symbol, symbol per state)
        self.rng = {}          # range of the type of a location
        self.least = {}        # least value of a head
        self.wide = {}         # heads of wide locations: range of the type

    def shared(self, s):
        r = self.sh.get(s)
        if r is None:
            r = self.sh[s] = self._shared(s)
        return r

    def all_shared(self, l):
        return all(self.shared(s) for s in l.t)

    def join_lin(self, t, exact=True):
        """exact: the value matters, not only its residue."""
        a = t[0]
        if all(x == a for x in t[1:]) and self.all_shared(a):
            return a
        c = a.c
        nt = tuple((x + -c).key() for x in t)
        h = self.groups.get(nt)
        if h is None:
            g = 0
            for x in t:
                g = gcd(g, x.c - c)
                for k in x.t.values():
                    g = gcd(g, k)
            if g > 1:
                # a common stride
                return self.join_lin(tuple((x + -c).div(g) for x in t), exact).scale(g) + c
            h = self._cong(t, c)
            if h is None:
                h = Lin.sym(new_sym("h", -INF, INF))
                self.heads.append((h.pure(), tuple(x + -c for x in t)))
                self.own.add(h.pure())
            self.groups[nt] = h
        if exact:
            for q in h.t:
                self.rng.setdefault(q, set()).add(None)
        return h + c

    def _cong(self, t, c):
        """Equal functions of joined arguments."""
        ds = []
        for x in t:
            y = (x + -c)
            p = y.pure()
            if p is None or SYMS[p].d is None:
                return None
            ds.append(SYMS[p].d)
        d0 = ds[0]
        if any(len(d) != len(d0) for d in ds):
            return None
        args = []
        for i, x in enumerate(d0):
            if isinstance(x, Lin):
                if not all(isinstance(d[i], Lin) for d in ds):
                    return None
                a = self.join_lin(tuple(s.lin(d[i]) for s, d in zip(self.states, ds)))
                if a.pure() in self.own:
                    self.wide.setdefault(a.pure(), None)
                args.append(a)
            else:
                if any(d[i] != x for d in ds):
                    return None
                args.append(x)
        y = SYMS[(t[0] + -c).pure()]
        s = derived(tuple(args), y.lo, y.hi, y.name)
        self.congs.append((s, tuple((x + -c).pure() for x in t)))
        return Lin.sym(s)

    def lookup(self, lt, idx):
        """Do two Lins of two states agree under some known grouping?"""
        l0, l1 = lt
        if l0 == l1 and self.all_shared(l0):
            return True
        i, j = idx
        for s, tup in self.heads:
            d0 = l0 - tup[i]
            if d0.t:
                continue
            d1 = l1 - tup[j]
            if not d1.t and d0.c == d1.c:
                return True
        return False

    # ------------------------------------------------------------ relations
    def solve(self, new, synth, thresholds, level=0):
        """Adds to the new state everything found to hold in all states.
        Returns whether something that held in the first state was lost."""
        changed = False
        sts = self.states
        heads = self.heads
        # bounds and value sets
        plan = []
        dropped = set()
        for h, tup in heads:
            ivs = []
            for j, (s, l) in enumerate(zip(sts, tup)):
                try:
                    ivs.append(img(s, l))
                except Dead:
                    raise Empty(j)
                if not ivs[-1]:
                    raise Empty(j)
            ivs = [clamp(x) for x in ivs]
            old = ivs[0]
            u = old
            for x in ivs[1:]:
                u = iv_or(u, x)
            if len(u) > 40:
                u = ((u[0][0], u[-1][1]),)
            lose = False
            least = self.least.get(h)
            if least is not None:
                u = iv_and(u, ((least, HUGE),)) or u
            raw = u
            if u != old:
                lose = not iv_subset(u, old)
                if thresholds:
                    u = widen(old, u, level)
                    if least is not None:
                        u = iv_and(u, ((least, HUGE),)) or u
            y = SYMS[h]
            b = self.full_range(h)
            if b is not None and u is not raw and b[0] <= raw[0][0] and raw[-1][1] <= b[2]:
                # widening by itself does not leave the type
                u = iv_and(u, ((b[0], b[2]),))
            if b is not None and (u[0][0] < b[0] or u[-1][1] > b[2]):
                # the location wraps around: any value, no relations
                y.lo, y.hi = 0, b[1]
                dropped.add(h)
                if old != ((0, b[1]),):
                    changed = True
                    why(901, locals())
                continue
            if lose:
                changed = True
                why(902, locals())
            y.lo, y.hi = u[0][0], u[-1][1]
            plan.append((h, u))
        for h, u in plan:
            if len(u) > 1 or u[0][0] == u[0][1]:
                new.set_vs(h, u)
        for h, tup in self.congs:
            if not is_root(h):
                continue
            ivs = []
            for j, (s, l) in enumerate(zip(sts, tup)):
                try:
                    ivs.append(img(s, Lin.sym(l)))
                except Dead:
                    raise Empty(j)
            u = clamp(ivs[0])
            for x in ivs[1:]:
                u = iv_or(u, clamp(x))
            if not iv_subset(u, ivs[0]):
                changed = True
                why(904, locals())
                if thresholds:
                    u = widen(ivs[0], u, level)
            if u != ((SYMS[h].lo, SYMS[h].hi),) and not new.set_vs(h, u):
                raise Dead()
        if dropped:
            self.heads = heads = [x for x in heads if x[0] not in dropped]
        # shared symbols
        names = set()
        for s in sts:
            names.update(s.vs)
            names.update(q for q in s.eq)
        for q in names:
            if not self.shared(q) or not is_root(q):
                continue
            vals = []
            for s in sts:
                e = s.eq.get(q)
                if e is not None:
                    vals.append(img(s, e))
                else:
                    vals.append(s.rootvs(q))
            u = vals[0]
            for x in vals[1:]:
                u = iv_or(u, x)
            if not iv_subset(u, vals[0]):
                changed = True
                why(662, locals())
                if thresholds:
                    u = widen(vals[0], u, level)
            y = SYMS[q]
            if u != ((y.lo, y.hi),):
                if not new.set_vs(q, u):
                    raise Dead()
        # affine relations
        if level >= 3:
            self.hmap = dict(heads)
            return changed
        rels, lost = self.affine()
        if lost:
            why("affine", locals())
        changed = changed or lost
        for l in rels:
            if not new.assume_eq(l):
                raise Dead()
        # inequalities
        cands = []
        seen = set()
        for i in range(self.n if synth else 1):
            for l in self.rewrite(i, sts[i].iq):
                if l is None:
                    if i == 0:
                        changed = True
                        why(903, locals())
                    continue
                if l.key() not in seen:
                    seen.add(l.key())
                    cands.append((l, i))
        keep = []
        for l, i in cands:
            c = self.weakest(l, i, thresholds, synth)
            if c is None or (c != 0 and level >= 2):
                # in the end what doesn't hold as it is goes
                if i == 0:
                    changed = True
                    why(694, locals())
                continue
            if c != 0:
                if i == 0:
                    changed = True
                    why(699, locals())
                l = l + c
            keep.append(l)
        if synth:
            keep.extend(self.differences(seen))
        elif dropped and level <= 1:
            # what was known through the lost head
            keep.extend(self.differences(seen, 0))
        for l in keep:
            l = new.lin(l)
            if not l.t:
                continue
            if not new.entails_ge(l):
                if not new.assume_ge(l):
                    raise Dead()
        # disequalities
        for l in self.rewrite(0, sts[0].ne):
            if l is not None and all(s.entails_ne(self.inst(l, j)) for j, s in enumerate(sts) if j):
                new.assume_ne(l)
            else:
                changed = True
                why(717, locals())
        return changed

    def full_range(self, h):
        """(least value, greatest unsigned value, greatest value) when all
        locations of the head are integers of one width."""
        r = self.rng.get(h)
        if not r or None in r:
            return None
        ws = {w for w, c in r}
        if len(ws) != 1:
            return None
        w = ws.pop()
        return -(1 << (w - 1)), (1 << w) - 1, (1 << w) - 1

    def inst(self, l, j):
        """The value of a joined expression in state j."""
        acc = Lin(l.c)
        hm = self.hmap
        for s, k in l.t.items():
            x = hm.get(s)
            if x is not None:
                acc = acc + x[j].scale(k)
            else:
                d = SYMS[s].d
                if d is not None and self.mentions(s):
                    acc = acc + self.inst_sym(s, j).scale(k)
                else:
                    acc = acc + Lin(0, {s: k})
        return self.states[j].lin(acc)

    def mentions(self, s):
        """Is the function symbol applied to something joined?"""
        d = SYMS[s].d
        return d is not None and any(
            isinstance(x, Lin) and any(q in self.hmap or self.mentions(q) for q in x.t)
            for x in d)

    def inst_sym(self, s, j):
        d = SYMS[s].d
        args = tuple(self.inst(x, j) if isinstance(x, Lin) else x for x in d)
        return Lin.sym(derived(args, SYMS[s].lo, SYMS[s].hi, SYMS[s].name))

    def affine(self):
        """Linear equalities over heads and shared symbols valid in every
        state, and whether the first state alone satisfied more of them."""
        sts = self.states
        self.hmap = {h: tup for h, tup in self.heads}
        fns = self.congs[:12]
        cols = [h for h, _ in self.heads] + [h for h, _ in fns]
        shs = set()
        for j, (s, ) in enumerate(zip(sts)):
            for h, tup in self.heads:
                for q in tup[j].t:
                    if self.shared(q):
                        shs.add(q)
            for q, e in s.eq.items():
                if self.shared(q) and SYMS[q].d is None:
                    shs.add(q)
                    for t in e.t:
                        if self.shared(t):
                            shs.add(t)
        shs = sorted(shs)
        cols = cols + shs
        m = len(cols)
        rows = []
        rank0 = None
        basis = Echelon(m + 1)
        for j, s in enumerate(sts):
            exprs = [tup[j] for _, tup in self.heads] + [s.lin(Lin.sym(tup[j])) for _, tup in fns] \
                + [s.lin(Lin.sym(q)) for q in shs]
            syms = {}
            for c, e in enumerate(exprs):
                for q, k in e.t.items():
                    syms.setdefault(q, {})[c] = k
                if e.c:
                    syms.setdefault(None, {})[c] = e.c
            for q, r in syms.items():
                if q is not None:
                    basis.add([r.get(c, 0) for c in range(m)] + [0])
            r = syms.get(None, {})
            basis.add([r.get(c, 0) for c in range(m)] + [1])
            if j == 0:
                rank0 = basis.rank()
        lost = basis.rank() > rank0
        out = []
        for v in basis.nullspace():
            g = 0
            for x in v:
                g = gcd(g, x)
            v = [x // g for x in v]
            t = {c: x for c, x in zip(cols, v) if x}
            if t:
                out.append(Lin(v[-1], t))
        return out, lost

    def rewrite(self, j, lst):
        """Constraints of state j over heads and shared symbols."""
        st = self.states[j]
        inv = self._inv.get(j) if hasattr(self, "_inv") else None
        if inv is None:
            if not hasattr(self, "_inv"):
                self._inv = {}
            inv = {}
            for h, tup in self.congs:
                if not self.shared(tup[j]):
                    inv.setdefault(tup[j], Lin.sym(h))
            pend = list(self.heads)
            again = True
            while again and pend:
                again = False
                rest = []
                for h, tup in pend:
                    l = tup[j]
                    unk = [q for q in l.t if not self.shared(q) and q not in inv]
                    if len(unk) == 1 and abs(l.t[unk[0]]) == 1:
                        x = unk[0]
                        k = l.t[x]
                        # h = k*x + rest
                        e = Lin.sym(h)
                        t = dict(l.t)
                        del t[x]
                        for q, c in t.items():
                            e = e - (inv[q] if q in inv else Lin.sym(q)).scale(c)
                        e = e + -l.c
                        inv[x] = e.scale(k)
                        again = True
                    elif len(unk) > 1:
                        rest.append((h, tup))
                pend = rest
            self._inv[j] = inv
        out = []
        for l in lst:
            l = st.lin(l)
            acc = Lin(l.c)
            ok = True
            for q, k in l.t.items():
                e = inv.get(q)
                if e is not None:
                    acc = acc + e.scale(k)
                elif self.shared(q):
                    acc = acc + Lin(0, {q: k})
                else:
                    ok = False
                    break
            out.append(acc if ok else None)
        return out

    def reach(self, l):
        """What has to be added to l to make it the distance between two
        pointers."""
        st = self.states[0]
        d = self.__dict__.get("_reach")
        if d is None:
            d = self._reach = {}
            by = {}
            for v in st.env.values():
                if isinstance(v, PtrV) and v.r is not None and v.r[0] != "a":
                    x = st.lin(v.l)
                    by.setdefault(v.r, {})[x.key()] = x
            for xs in by.values():
                if len(xs) <= 8:
                    for a in xs.values():
                        for b in xs.values():
                            x = st.lin(b - a)
                            if x.t:
                                d.setdefault(Lin(0, x.t).key(), set()).add(x.c)
        x = st.lin(self.inst(l, 0))
        return [c - x.c for c in d.get(Lin(0, x.t).key(), ())]

    def weakest(self, l, i, thresholds, synth):
        """The constant to add to l for it to hold everywhere, or None."""
        need = 0
        for j, s in enumerate(self.states):
            if j == i:
                continue
            x = self.inst(l, j)
            if s.entails_ge(x + need):
                continue
            try:
                v = minimise(s.lin(x), s.iq, s.bound)
            except Infeasible:
                continue
            if v is None:
                return None
            mn = -((-v[0]) // v[1])
            if mn < -(1 << 61):
                return None
            need = max(need, -mn)
        if need and thresholds:
            # weaken to a round constant, or as far as pointers reach
            c = l.c + need
            near = [x for x in self.reach(l) if need <= x < need + 16]
            if near:
                return min(near)
            for t in (0, 1, 2, 4, 8, 16):
                if c <= t:
                    return t - l.c
            return None
        return need

    def differences(self, seen, floor=-32):
        sts = self.states
        hs = []
        for h, tup in self.heads:
            y = SYMS[h]
            if y.lo != y.hi and h in self.wide:
                hs.append(h)
        shs = {q for q in self.used if is_root(q) and SYMS[q].hi > (1 << 33) and self.shared(q)}
        for s in sts:
            for e in s.iq:
                for q in e.t:
                    if self.shared(q):
                        shs.add(q)
            for h, tup in self.heads:
                pass
        for h, tup in self.heads:
            for l in tup:
                for q in l.t:
                    if self.shared(q) and is_root(q) and SYMS[q].hi > (1 << 33):
                        shs.add(q)
        out = []
        for h, tup in self.congs:
            if SYMS[h].hi > (1 << 33):
                hs.append(h)
        terms = [(h, q) for i, h in enumerate(hs) for q in hs[i + 1:]] + \
                [(h, q) for h in hs for q in sorted(shs)]
        cands = []
        for a, b in terms:
            d = Lin(0, {a: 1, b: -1})
            cands.append((d, floor))
            cands.append((-d, floor))
        exprs = dict(list(self.exprs.items())[:8])
        for h, tup in self.heads:
            # where it started
            for l in tup:
                if 2 <= len(l.t) <= 3 and self.all_shared(l) and h in self.wide:
                    exprs[l + -l.c] = 1
        for e in list(exprs)[:16]:
            for h in hs:
                cands.append((e - Lin.sym(h), 0))
                cands.append((Lin.sym(h) - e, 0))
        if len(hs) <= 14:
            # offset + length <= size
            for i, a in enumerate(hs):
                for b in hs[i + 1:]:
                    for q in sorted(shs):
                        cands.append((Lin(0, {q: 1, a: -1, b: -1}), 0))
        if len(hs) <= 7:
            for i, a in enumerate(hs):
                for b in hs[i + 1:] + sorted(shs):
                    for q in hs:
                        if q != a and q != b:
                            cands.append((Lin(0, {q: 1, a: -1, b: -1}), 0))
        for x, least in cands:
            if True:
                c = self.min_all(x, least)
                if c is None or c < least:
                    continue
                e = x + -c
                if e.key() not in seen:
                    seen.add(e.key())
                    out.append(e)
        return out

    def min_all(self, x, least=-32):
        best = None
        for j, s in enumerate(self.states):
            e = self.inst(x, j)
            if best is not None and s.entails_ge(e + -best):
                continue
            if not e.t:
                v = e.c
            else:
                lo, hi = s.interval(e)
                if hi < least:
                    return None
                if not s.iq:
                    v = lo
                else:
                    try:
                        m = minimise(e, s.iq, s.bound)
                    except Infeasible:
                        continue
                    if m is None:
                        return None
                    v = -((-m[0]) // m[1])
            if best is None or v < best:
                best = v
            if best < least:
                return None
        return best


def img(st, l):
    """The value set of l in a state."""
    if not l.t:
        return ((l.c, l.c),)
    p = l.single()
    if p and is_root(p[0]) and p[1] in (1, -1):
        v = st.rootvs(p[0])
        if st.iq and v[-1][1] - v[0][0] > 1 << 20 and any(p[0] in e.t for e in st.iq):
            a, b = st.interval(l)
            try:
                c, d = st.bounds_lp(l)
            except Dead:
                c, d = a, b
            if c > d:
                raise Dead()
            if (c, d) != (a, b):
                if len(v) == 1:
                    return ((max(a, c), min(b, d)),)
                w = tuple((x + l.c, y + l.c) if p[1] == 1 else (l.c - y, l.c - x)
                          for x, y in (v if p[1] == 1 else reversed(v)))
                return iv_and(w, ((c, d),)) or w
        if p[1] == 1:
            return tuple((a + l.c, b + l.c) for a, b in v)
        return tuple((l.c - b, l.c - a) for a, b in reversed(v))
    a, b = st.interval(l)
    if st.iq and b - a > 1 << 20:
        try:
            a, b = st.bounds_lp(l)
        except Dead:
            pass
    if a > b:
        raise Dead()
    if b - a < 4096:
        p = st.pointwise(l)
        if p is not None:
            return dom.iv_from(set(p.values()))
    return ((a, b),)


def clamp(v):
    if v[0][0] >= -INF and v[-1][1] <= INF:
        return v
    return iv_and(v, ((-INF, INF),)) or ((-INF, INF),)


def widen(old, u, level=0):
    if level >= 2:
        if iv_subset(u, old):
            return old
        return ((-INF, INF),)
    lo, hi = u[0][0], u[-1][1]
    if level == 0 and iv_count(u) <= 8 and lo >= -4 and hi <= 300:
        return u
    o0, o1 = old[0][0], old[-1][1]
    if lo < o0:
        for t in LO_T:
            if t <= lo:
                lo = t
                break
        else:
            lo = -INF
    if hi > o1:
        T = HI_T if level == 0 else HI_T[8:]
        if level and o1 in T:
            # it is growing
            T = HI_T[12:]
        for t in T:
            if t >= hi:
                hi = t
                break
        else:
            hi = INF
    if lo < o0 or hi > o1:
        # keep the structure of small sets inside known hulls
        if iv_subset(u, old):
            return u
        return ((lo, hi),)
    return u


class Echelon:
    """Integer row echelon form with fraction-free elimination."""

    def __init__(self, n):
        self.n = n
        self.rows = []      # (pivot, row)

    def rank(self):
        return len(self.rows)

    def add(self, r):
        r = list(r)
        for p, q in self.rows:
            if r[p]:
                a, b = q[p], r[p]
                r = [x * a - y * b for x, y in zip(r, q)]
        for i, x in enumerate(r):
            if x:
                g = 0
                for y in r:
                    g = gcd(g, y)
                if r[i] < 0:
                    g = -g
                r = [y // g for y in r]
                self.rows.append((i, r))
                self.rows.sort(key=lambda z: z[0])
                return True
        return False

    def nullspace(self):
        """Integer basis of {v : row . v = 0}."""
        # reduce fully
        rows = [[Fraction(x) for x in r] for _, r in self.rows]
        piv = [p for p, _ in self.rows]
        for i in range(len(rows) - 1, -1, -1):
            p = piv[i]
            c = rows[i][p]
            rows[i] = [x / c for x in rows[i]]
            for j in range(i):
                if rows[j][p]:
                    f = rows[j][p]
                    rows[j] = [x - f * y for x, y in zip(rows[j], rows[i])]
        free = [c for c in range(self.n) if c not in piv]
        out = []
        for f in free:
            v = [Fraction(0)] * self.n
            v[f] = Fraction(1)
            for p, r in zip(piv, rows):
                v[p] = -r[f]
            m = 1
            for x in v:
                m = m * x.denominator // gcd(m, x.denominator)
            out.append([int(x * m) for x in v])
        return out
