"""Abstract interpreter over LLVM IR.

Control flow is interpreted structurally (regions of the natural-loop nest);
loops are either unrolled while a constant trip count decides them, or brought
to a fixpoint whose head states are partitioned by their discrete part
(pointer targets, booleans, monitor phases)."""
import re
import time
from math import gcd

import cfg
from lin import (Lin, K, ZERO, SYMS, new_sym, name_of, iv_and, iv_or, iv_sub,
                 iv_count, iv_elems, iv_from, iv_norm, iv_in)
import dom
from calls import Calls, Exc, VOID
from loops import Loops
from calls import vec_again, vec_element, vec_fill
from dom import (St, IntV, PtrV, FnV, AggV, UNDEF, NULL, Top, C, Obj, Dead,
                 derived, roots_of, is_root, SMALL, _Test, _GE, _EQ0, NoValue)


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class PackV:
    """Bytes assembled from several cells: [(offset, size, value)]."""
    __slots__ = ("size", "p")

    def __init__(self, size, p):
        self.size = size
        self.p = p

    def __repr__(self):
        return "pack%r" % (self.p,)


# ------------------------------------------------------------ names
_opre = re.compile(r"operator(\(\)|<=>|<<=|>>=|->\*|->|<<|>>|<=|>=|<|>|\[\])")


def base_name(dem):
    """Qualified name without return type, template arguments, parameters."""
    s = dem.replace("(anonymous namespace)", "{anon}")
    s = _opre.sub(lambda m: "operator" + m.group(1).replace("<", "\x01")
                  .replace(">", "\x02").replace("(", "\x03").replace(")", "\x04"), s)
    s = re.sub(r"decltype ?\((?:[^()]|\([^()]*\)|\((?:[^()]|\([^()]*\))*\))*\)", "D", s)
    out = []
    depth = 0
    par = 0
    i = 0
    while i < len(s):
        ch = s[i]
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif ch == "(" and depth == 0:
            # parameter list unless something like ")::" follows (local name)
            lvl = 0
            j = i
            while j < len(s):
                if s[j] == "(":
                    lvl += 1
                elif s[j] == ")":
                    lvl -= 1
                    if lvl == 0:
                        break
                j += 1
            k = j + 1
            rest = s[k:]
            m = re.match(r"( const)?( &+)?::", rest)
            if m:
                i = k + len(m.group(0)) - 2
                continue
            break
        elif depth == 0:
            out.append(ch)
        i += 1
    r = "".join(out).strip()
    # drop return type
    d = r.rfind(" ")
    m = re.search(r"operator (\S.*)$", r)
    if m:
        d = r.rfind(" ", 0, m.start())
    if d >= 0:
        r = r[d + 1:]
    r = r.replace("\x01", "<").replace("\x02", ">").replace("\x03", "(").replace("\x04", ")")
    r = r.replace("std::__cxx11::", "std::").replace("[abi:cxx11]", "")
    return r


def params_text(dem):
    s = dem.replace("(anonymous namespace)", "{anon}").replace("operator()", "operator{}")
    if s.endswith(" const"):
        s = s[:-6]
    m = re.search(r" requires .*$", s)
    if m:
        s = s[:m.start()]
    if not s.endswith(")"):
        return ""
    lvl = 0
    for i in range(len(s) - 1, -1, -1):
        if s[i] == ")":
            lvl += 1
        elif s[i] == "(":
            lvl -= 1
            if lvl == 0:
                return s[i + 1:-1]
    return ""


class Ob:
    """One proof obligation."""
    __slots__ = ("kind", "ok", "loc", "fn", "msg", "trace", "entry")

    def __init__(self, kind, ok, loc, fn, msg, trace, entry):
        self.kind = kind
        self.ok = ok
        self.loc = loc
        self.fn = fn
        self.msg = msg
        self.trace = trace
        self.entry = entry


def small(l, w):
    """A constant of w bits as a signed number."""
    if not l.t and l.c >> (w - 1) == 1:
        return K(l.c - (1 << w))
    return l


def _decide(iv, a, b):
    """Whether [a, b] is in the set; None when only a part is."""
    n = iv_and(((a, b),), iv)
    if not n:
        return False
    return True if tuple(n) == ((a, b),) else None


class Engine(Calls, Loops):
    def __init__(self, module, contracts=(), monitor=None, exact=(),
                 opaque=True, summaries=None, kinds=None, max_states=60000):
        self.m = module
        self.contracts = dict(contracts)      # base name -> handler
        self.mon = monitor
        self.exact = set(exact)         # base names whose loops are unrolled
        self.most = 64                  # states that stay apart where paths meet
        self.opaque = opaque            # treat pure table functions as symbols
        self.summ = summaries or {}
        self.kinds = kinds              # obligation kinds to record (None: all)
        self.log = []
        self.entry = None
        self.ctxs = {}
        self.base = {}
        self._handler = {}
        self._init_cells = {}
        self.steps = 0
        self.max_steps = 30_000_000
        self.notes = {}
        self.pure_memo = {}
        self.const_memo = {}
        self.depth = 0
        self.fns_seen = set()
        self.loops_seen = {}
        self.deadline = None
        self.loop_icmps = []
        self.typeids = {}
        self.termcheck = True
        self.force_inline = set()
        self._forwards = None           # what only functions with contracts call
        self.unroll_k = 12
        self.no_app = set()
        self.in_wm = 0
        self.max_outs = 64
        self.joins = True
        self.settle = getattr(monitor, "settle", None)
        self.marks = getattr(monitor, "marks", ())
        self.unroll_all = False
        self.exact_all = False
        self.peel = 8
        self.mutable = set()
        self.set_id = 0

    # ------------------------------------------------------------ logging
    def check(self, st, ok, kind, ins, msg):
        if self.kinds is not None and kind.split(":")[0] not in self.kinds:
            return ok
        if not ok and self.contradictory(st):
            ok = True
        loc = ins.loc() if ins is not None else "?"
        fn = ins.fn.dem if ins is not None else "?"
        self.log.append(Ob(kind, bool(ok), loc, fn,
                           msg if not ok else None,
                           st.trace()[-30:] if not ok else None, self.entry))
        return ok

    def contradictory(self, st):
        """Whether different values are remembered of one place: it was only
        found out later that two places are the same."""
        s = st.copy()
        by = {}
        for r, l, sz, v in s.memo:
            if isinstance(v, IntV):
                lo, hi = s.interval(s.lin(v.l))
                if 0 <= lo and hi < 1 << v.w:
                    by.setdefault((r, sz), []).append((l, v))
        try:
            for ms in by.values():
                if len(ms) > 40:
                    continue
                for i, (l, v) in enumerate(ms):
                    for l2, v2 in ms[:i]:
                        d = s.lin(v.l - v2.l)
                        if v.w == v2.w and d.t and s.entails_eq(s.lin(l - l2)) and not s.assume_eq(d):
                            return True
            return not s.feasible()
        except Dead:
            return True

    def note(self, what, ins=None):
        k = (what, ins.loc() if ins is not None else "")
        self.notes[k] = self.notes.get(k, 0) + 1

    def ev(self, name, st, ins, **kw):
        if self.mon is not None:
            f = getattr(self.mon, "on_" + name, None)
            if f:
                return f(self, st, ins, **kw)
        return None

    def hears(self, name):
        """Whether the monitor, if there is one, follows an event."""
        return self.mon is None or getattr(self.mon, "on_" + name, None) is not None

    # ------------------------------------------------------------ forking
    def fork_ge(self, st, l):
        """[(bool, state)] for l >= 0."""
        l = st.lin(l)
        if not l.t:
            return [(l.c >= 0, st)]
        if len(l.t) == 1 or any(not is_root(s) for s in l.t):
            sp = st.split_root(l, _GE)
            if sp:
                return self._by_sets(st, sp)
        if st.entails_ge(l):
            return [(True, st)]
        n = (-l) + -1
        if st.entails_ge(n):
            return [(False, st)]
        out = []
        a = st.copy()
        if a.assume_ge(l):
            out.append((True, a))
        b = st.copy()
        if b.assume_ge(n):
            out.append((False, b))
        return out

    def fork_eq(self, st, l):
        l = st.lin(l)
        if not l.t:
            return [(l.c == 0, st)]
        if len(l.t) == 1 or any(not is_root(s) for s in l.t):
            sp = st.split_root(l, _EQ0)
            if sp:
                return self._by_sets(st, sp)
        if st.entails_ne(l):
            return [(False, st)]
        if st.entails_eq(l):
            return [(True, st)]
        out = []
        a = st.copy()
        if a.assume_eq(l):
            out.append((True, a))
        b = st.copy()
        if b.assume_ne(l):
            out.append((False, b))
        return out

    def _by_sets(self, st, sp):
        r, t, f = sp
        if not f:
            return [(True, st)]
        if not t:
            return [(False, st)]
        out = []
        a = st.copy()
        if a.set_vs(r, t):
            out.append((True, a))
        b = st.copy()
        if b.set_vs(r, f):
            out.append((False, b))
        return out

    def member_fork(self, st, l, iv):
        """[(bool, state)] for membership of l in a set of intervals."""
        sp = st.split_root(st.lin(l), _Test(lambda v: iv_in(iv, v), lambda a, b: _decide(iv, a, b)))
        if sp:
            return self._by_sets(st, sp)
        return [(True, st.copy()), (False, st)]

    # ------------------------------------------------------------ integers
    def norm(self, st, v, signed):
        """[(state, Lin)]: the value as an exact signed/unsigned integer."""
        w = v.w
        l = st.lin(v.l)
        if signed:
            t0, t1 = -(1 << (w - 1)), (1 << (w - 1)) - 1
        else:
            t0, t1 = 0, (1 << w) - 1
        if not l.t:
            c = l.c & ((1 << w) - 1)
            if signed and c >> (w - 1):
                c -= 1 << w
            return [(st, K(c))]
        a, b = st.interval(l)
        if a >= t0 and b <= t1:
            return [(st, l)]
        if (a - t0) >> w == (b - t0) >> w:
            return [(st, l + -(((a - t0) >> w) << w))]
        p = st.pointwise(l)
        if p is not None:
            qs = {(x - t0) >> w for x in p.values()}
            if len(qs) == 1:
                return [(st, l + -(qs.pop() << w))]
            if signed:
                d = derived(("sext", l, w), t0, t1, "sx")
            else:
                d = derived(("mod", l, w), t0, t1, "ux")
            return [(st, Lin.sym(d))]
        a, b = st.bounds_lp(l)
        q0 = (a - t0) >> w
        q1 = (b - t0) >> w
        if q0 == q1:
            return [(st, l + -(q0 << w))]
        if q1 - q0 <= 2:
            out = []
            for q in range(q0, q1 + 1):
                s2 = st.copy()
                x = l + -(q << w)
                if s2.assume_ge(x + -t0) and s2.assume_ge(K(t1) - x):
                    out.append((s2, s2.lin(x)))
            return out
        if not signed:
            return [(st, self.lowmask(st, l, w))]
        r = self.lowmask(st, l, w)
        out = []
        for neg, s2 in self.fork_ge(st, r + -(1 << (w - 1))):
            out.append((s2, s2.lin(r + -(1 << w)) if neg else s2.lin(r)))
        return out

    def uns(self, st, v):
        return self.norm(st, v, False)

    def sgn(self, st, v):
        return self.norm(st, v, True)

    def _split_div(self, l, k):
        """l = d * 2^k + rest."""
        m = 1 << k
        t = {}
        r = {}
        for s, c in l.t.items():
            if c % m == 0:
                t[s] = c >> k
            else:
                r[s] = c
        return Lin(l.c >> k, t), Lin(l.c & (m - 1), r)

    def lowmask(self, st, l, k):
        """l mod 2^k."""
        l = st.lin(l)
        d, rest = self._split_div(l, k)
        if not rest.t:
            return rest
        a, b = st.interval(rest)
        if a >> k == b >> k:
            return rest + -((a >> k) << k)
        p = st.pointwise(rest)
        if p is not None:
            qs = {x >> k for x in p.values()}
            if len(qs) == 1:
                return rest + -(qs.pop() << k)
            return Lin.sym(derived(("mod", rest, k), 0, (1 << k) - 1, "lo"))
        j = k
        for c in rest.t.values():
            z = (c & -c).bit_length() - 1
            j = min(j, z)
        c0 = rest.c & ((1 << j) - 1)
        lp = Lin((rest.c - c0) >> j, {s: c >> j for s, c in rest.t.items()})
        q, r = self.qr(st, lp, k - j)
        return r.scale(1 << j) + c0

    def shiftright(self, st, l, k):
        """floor(l / 2^k), l an exact non-negative integer."""
        if k == 0:
            return l
        l = st.lin(l)
        d, rest = self._split_div(l, k)
        if not rest.t:
            return d
        a, b = st.interval(rest)
        if a >> k == b >> k:
            return d + (a >> k)
        p = st.pointwise(l)
        if p is not None:
            vals = list(p.values())
            return Lin.sym(derived(("lshr", l, k), min(vals) >> k, max(vals) >> k, "sr"))
        j = k
        for c in rest.t.values():
            z = (c & -c).bit_length() - 1
            j = min(j, z)
        c0 = rest.c & ((1 << j) - 1)
        lp = Lin((rest.c - c0) >> j, {s: c >> j for s, c in rest.t.items()})
        q, r = self.qr(st, lp, k - j)
        return d + q

    _QR = {}

    def qr(self, st, l, k):
        """(q, r) with l = 2^k q + r, 0 <= r < 2^k."""
        key = (l.key(), k)
        h = self._QR.get(key)
        if h is None:
            a, b = l.c, l.c
            for s, c in l.t.items():
                y = SYMS[s]
                if c > 0:
                    a += c * y.lo
                    b += c * y.hi
                else:
                    a += c * y.hi
                    b += c * y.lo
            q = new_sym("q", a >> k, b >> k)
            r = new_sym("r", 0, (1 << k) - 1)
            h = self._QR[key] = (q, r)
        q, r = h
        ql, rl = Lin.sym(q), Lin.sym(r)
        rhs = ql.scale(1 << k) + rl
        d = st.lin(l - rhs)
        if d.t or d.c:
            p = st.lin(l).pure()
            if p is not None and is_root(p) and not (
                    rhs.t.keys() & st.eq.keys()):
                if not st.bind(p, rhs):
                    raise Dead()
            elif not st.assume_eq(d):
                raise Dead()
        return st.lin(ql), st.lin(rl)

    # ------------------------------------------------------------ entry
    def call_entry(self, fn, st, args):
        self.m.body(fn)
        self.entry = fn.name
        st.env = {}
        for (nm, _, _), a in zip(fn.params, args):
            st.env[nm] = a
        st.ctx = (fn.name,)
        return self.run_fn(fn, st)

    def ctx_id(self, ctx):
        i = self.ctxs.get(ctx)
        if i is None:
            i = len(self.ctxs)
            self.ctxs[ctx] = i
        return i

    # ------------------------------------------------------------ functions
    def run_fn(self, fn, st):
        self.m.body(fn)
        inf = cfg.analyse(fn)
        if inf.irreducible:
            raise Unsupported("irreducible control flow in " + fn.dem)
        self.fns_seen.add(fn.dem)
        outs = []
        self.depth += 1
        if self.depth > 80:
            raise Unsupported("call depth (recursion?) at " + fn.dem)
        try:
            st.env = {k: v for k, v in st.env.items() if k in inf.live_in[fn.blocks[0].idx]}
            backs, exits = self.run_region(fn, None, [(fn.blocks[0], st)], outs)
            assert not backs and not exits
        finally:
            self.depth -= 1
        return outs

    def run_region(self, fn, loop, entries, outs):
        inf = cfg.analyse(fn)
        order = loop.order if loop else inf.order
        inside = loop.blocks if loop else None
        pend = {}
        backs = []
        exits = []

        def route(tgt, s, start=False):
            if loop is not None and tgt is loop.head and not start:
                backs.append(s)
            elif inside is None or tgt.idx in inside:
                pend.setdefault(tgt.idx, []).append(s)
            else:
                exits.append((tgt, s))
        for b, s in entries:
            route(b, s, True)
        for b in order:
            sts = pend.pop(b.idx, None)
            if not sts:
                continue
            il = inf.inner.get(b.idx)
            if il is not None and il is not loop and il.head is b:
                for t, s in self.run_loop(fn, il, sts, outs):
                    route(t, s)
                continue
            if len(sts) > 1:
                sts = self.merge_join(fn, b, sts)
            for s in sts:
                for t, s2 in self.exec_block(fn, b, s, outs):
                    route(t, s2)
        if pend:
            raise Unsupported("unordered blocks in " + fn.dem)
        return backs, exits

    def merge_join(self, fn, b, sts):
        """Drops duplicate states; joins by partition when there are many."""
        if len(sts) <= self.max_join():
            return sts
        groups = {}
        for s in sts:
            groups.setdefault(self.key(s), []).append(s)
        out = []
        for k, g in groups.items():
            if len(g) > 1:
                out.append(self.join(g, None))
            else:
                out.append(g[0])
        return out

    def max_join(self):
        return self.most if self.joins else 1 << 30

    def goto(self, fn, st, frm, to):
        if to.phis:
            vals = [(p.name, self.value(st, p.x[frm.idx])) for p in to.phis]
        else:
            vals = ()
        inf = cfg.analyse(fn)
        live = inf.live_in[to.idx]
        env = {k: v for k, v in st.env.items() if k in live}
        for n, v in vals:
            env[n] = v
        st.env = env
        # dead stack slots
        if inf.slot_cand:
            lv = inf.slot_live[to.idx]
            dead = inf.slot_cand - lv
            if dead:
                cid = self.ctx_id(st.ctx)
                kill = [k for k in st.mem
                        if k[0][0] == "a" and k[0][1] == cid and k[0][2] in dead]
                for k in kill:
                    del st.mem[k]
        return st

    # ------------------------------------------------------------ blocks
    def exec_block(self, fn, b, st0, outs):
        res = []
        work = [(st0, 0)]
        instrs = b.instrs
        n = len(instrs)
        while work:
            st, i = work.pop()
            while True:
                ins = instrs[i]
                self.steps += 1
                if self.steps & 1023 == 0:
                    if self.steps > self.max_steps:
                        raise Budget("step budget exhausted in " + fn.dem)
                    if self.deadline and time.time() > self.deadline:
                        raise Budget("time budget exhausted in " + fn.dem)
                op = ins.op
                h = self.SIMPLE.get(op)
                if h is not None:
                    try:
                        r = h(self, st, ins)
                    except Dead:
                        break
                    if type(r) is list:
                        if not r:
                            break
                        for s2, v in r[1:]:
                            s2.env[ins.name] = v
                            work.append((s2, i + 1))
                        st, v = r[0]
                        st.env[ins.name] = v
                    elif r is not None:
                        st.env[ins.name] = r
                    i += 1
                    continue
                if op in ("call", "invoke"):
                    try:
                        rs = self.do_call(fn, b, st, ins)
                    except Dead:
                        break
                    first = None
                    for kind, v, s2 in rs:
                        if kind == "exc":
                            if op == "invoke" and self.landing_matches(ins.x[3], v):
                                s2.gh["#exc"] = v
                                res.append((ins.x[3], self.goto(fn, s2, b, ins.x[3])))
                            else:
                                outs.append(("exc", v, s2))
                            continue
                        if v is not None:
                            s2.env[ins.name] = v
                        if op == "invoke":
                            res.append((ins.x[2], self.goto(fn, s2, b, ins.x[2])))
                        elif first is None:
                            first = s2
                        else:
                            work.append((s2, i + 1))
                    if first is None:
                        break
                    st = first
                    i += 1
                    continue
                if op == "br":
                    if not ins.ops:
                        t = ins.x[0]
                        res.append((t, self.goto(fn, st, b, t)))
                        break
                    c = self.value(st, ins.ops[0])
                    for v, s2 in self.truth(st, c, ins):
                        t = ins.x[0] if v else ins.x[1]
                        s2.tr = (s2.tr, (ins, v))
                        res.append((t, self.goto(fn, s2, b, t)))
                    break
                if op == "switch":
                    self.do_switch(fn, b, st, ins, res)
                    break
                if op == "ret":
                    v = self.value(st, ins.ops[0]) if ins.ops else None
                    outs.append(("ret", v, st))
                    break
                if op == "resume":
                    outs.append(("exc", st.gh.get("#exc"), st))
                    break
                if op == "unreachable":
                    break
                raise Unsupported("instruction %s at %s" % (op, ins.loc()))
        return res

    def truth(self, st, c, ins):
        if isinstance(c, IntV):
            l = st.lin(c.l)
            if not l.t:
                return [(bool(l.c & 1), st)]
            out = []
            for s2, x in self.uns(st, c):
                for v, s3 in self.fork_eq(s2, x):
                    out.append((not v, s3))
            return out
        if c is UNDEF:
            self.check(st, False, "uninit", ins, "branch on an uninitialised value")
        return [(True, st.copy()), (False, st)]

    def do_switch(self, fn, b, st, ins, res):
        c = self.value(st, ins.ops[0])
        dflt, cases = ins.x
        if not isinstance(c, IntV):
            if c is UNDEF:
                self.check(st, False, "uninit", ins, "switch on an uninitialised value")
            for t in {id(x): x for x in [dflt] + [x for _, x in cases]}.values():
                s2 = st.copy()
                res.append((t, self.goto(fn, s2, b, t)))
            return
        for s0, l in self.uns(st, c):
            cur = s0
            by = {}
            for val, t in cases:
                by.setdefault(id(t), []).append(val)
            for val, t in cases:
                nxt = None
                vals = by.get(id(t))
                if vals is None:
                    continue
                if len(vals) > 2:
                    # all values that lead to the same place at once
                    iv = iv_norm([(v, v) for v in vals])
                    sp = cur.split_root(cur.lin(l), _Test(lambda v, iv=iv: iv_in(iv, v), lambda a, b, iv=iv: _decide(iv, a, b)))
                    if sp:
                        del by[id(t)]
                        for eq, s2 in self._by_sets(cur, sp):
                            if eq:
                                s2.tr = (s2.tr, (ins, val))
                                res.append((t, self.goto(fn, s2, b, t)))
                            else:
                                nxt = s2
                        cur = nxt
                        if cur is None:
                            break
                        continue
                for eq, s2 in self.fork_eq(cur, l + -val):
                    if eq:
                        s2.tr = (s2.tr, (ins, val))
                        res.append((t, self.goto(fn, s2, b, t)))
                    else:
                        nxt = s2
                cur = nxt
                if cur is None:
                    break
            if cur is not None:
                cur.tr = (cur.tr, (ins, "default"))
                res.append((dflt, self.goto(fn, cur, b, dflt)))

    # ------------------------------------------------------------ values
    def value(self, st, v):
        k = v[0]
        if k == "L":
            r = st.env.get(v)
            if r is None:
                return UNDEF
            return r
        if k == "ci":
            return C(v[1], v[2])
        if k == "null":
            return NULL
        if k == "fn":
            return FnV(v[1])
        if k == "gv":
            return PtrV(("g", v[1].name), ZERO)
        if k == "gep":
            p = self.value(st, v[1])
            return PtrV(p.r, p.l + v[2])
        if k == "undef":
            return UNDEF
        if k in ("zero", "agg"):
            return self.const_agg(st, v)
        return Top(0)

    def const_agg(self, st, v):
        ty = v[1]
        if v[0] == "zero":
            return self.zero_of(ty)
        return AggV([self.value(st, x) for x in v[2]])

    def zero_of(self, ty):
        if ty.kind == "int":
            return C(ty.w, 0)
        if ty.kind == "ptr":
            return NULL
        if ty.kind == "struct":
            return AggV([self.zero_of(f) for f in ty.fields])
        if ty.kind == "array":
            return AggV([self.zero_of(ty.elem) for _ in range(ty.n)])
        return Top(0)

    def top_of(self, st, ty, name="t"):
        if ty.kind == "int":
            s = new_sym(name, 0, (1 << ty.w) - 1)
            return IntV(ty.w, Lin.sym(s))
        if ty.kind == "ptr":
            return Top(0)
        if ty.kind == "struct":
            return AggV([self.top_of(st, f, name) for f in ty.fields])
        return Top(0)

    # ------------------------------------------------------------ arithmetic
    def i_bin(self, st, ins):
        op = ins.op
        a = self.value(st, ins.ops[0])
        b = self.value(st, ins.ops[1])
        w = ins.ty.w
        if op == "sub" and isinstance(a, PtrV) and isinstance(b, PtrV):
            if a.r == b.r:
                return IntV(64, a.l - b.l)
            return self.top_of(st, ins.ty)
        if op == "add" and isinstance(a, PtrV) and isinstance(b, IntV):
            return PtrV(a.r, a.l + b.l)
        if op == "sub" and isinstance(a, PtrV) and isinstance(b, IntV):
            return PtrV(a.r, a.l - b.l)
        if not isinstance(a, IntV) or not isinstance(b, IntV):
            return self.bin_other(st, ins, op, a, b, w)
        if op == "add":
            return IntV(w, small(a.l, w) + small(b.l, w))
        if op == "sub":
            return IntV(w, small(a.l, w) - small(b.l, w))
        if op == "mul":
            la, lb = st.lin(a.l), st.lin(b.l)
            if not la.t:
                la, lb = lb, la
            if not lb.t:
                c = lb.c
                if c >> (w - 1):
                    c -= 1 << w
                return IntV(w, la.scale(c))
            return self.two(st, ins, "mul", a, b)
        if op == "shl":
            lb = st.lin(b.l)
            if not lb.t:
                if not 0 <= lb.c < w:
                    self.check(st, False, "shift", ins, "shift by %d of a %d-bit value" % (lb.c, w))
                    return self.top_of(st, ins.ty)
                return IntV(w, a.l.scale(1 << lb.c))
            self.shift_check(st, ins, b, w)
            return self.two(st, ins, "shl", a, b)
        if op == "and":
            return self.i_and(st, ins, a, b, w)
        if op == "or":
            return self.i_or(st, ins, a, b, w)
        if op == "xor":
            return self.i_xor(st, ins, a, b, w)
        if op == "lshr":
            lb = st.lin(b.l)
            if not lb.t:
                if not 0 <= lb.c < w:
                    self.check(st, False, "shift", ins, "shift by %d of a %d-bit value" % (lb.c, w))
                    return self.top_of(st, ins.ty)
                return [(s2, IntV(w, self.shiftright(s2, l, lb.c)))
                        for s2, l in self.uns(st, a)]
            self.shift_check(st, ins, b, w)
            return self.two(st, ins, "lshrv", a, b)
        if op == "ashr":
            lb = st.lin(b.l)
            if not lb.t and 0 <= lb.c < w:
                out = []
                for s2, l in self.sgn(st, a):
                    a0, _ = s2.interval(l)
                    if a0 >= 0:
                        out.append((s2, IntV(w, self.shiftright(s2, l, lb.c))))
                    else:
                        d, rest = self._split_div(s2.lin(l), lb.c)
                        if not rest.t:
                            out.append((s2, IntV(w, d)))
                        else:
                            out.append((s2, self.top_of(s2, ins.ty)))
                return out
            return self.top_of(st, ins.ty)
        if op in ("udiv", "sdiv", "urem", "srem"):
            return self.i_div(st, ins, op, a, b, w)
        raise Unsupported("operator " + op)

    def shift_check(self, st, ins, b, w):
        lo, hi = st.interval(st.lin(b.l))
        ok = 0 <= lo and hi < w
        if not ok:
            ok = st.entails_ge(K(w - 1) - b.l) and st.entails_ge(b.l)
        self.check(st, ok, "shift", ins, "shift count may reach the width of the value (%d)" % w)

    def bin_other(self, st, ins, op, a, b, w):
        if a is UNDEF or b is UNDEF:
            # masking of undefined padding is common in copied structs; it only
            # matters when the result is used
            if op in ("and", "or", "shl", "lshr") and w >= 32:
                return UNDEF
            self.check(st, False, "uninit", ins, "arithmetic on an uninitialised value")
            return self.top_of(st, ins.ty)
        if isinstance(a, PackV) and isinstance(b, IntV) and op == "lshr":
            l = st.lin(b.l)
            if not l.t and l.c % 8 == 0:
                k = l.c // 8
                ps = [(o - k, s, v) for o, s, v in a.p if o >= k]
                ps.append((a.size - k, k, C(8 * k, 0)))
                return PackV(a.size, ps)
        if isinstance(a, PackV) and isinstance(b, IntV) and op == "and":
            l = st.lin(b.l)
            if not l.t:
                for k in (8, 16, 32):
                    if l.c == (1 << k) - 1:
                        x = self.pack_part(st, a, 0, k // 8)
                        if isinstance(x, IntV):
                            return IntV(w, x.l)
        if isinstance(a, PackV) and isinstance(b, (PackV, IntV)) and op == "or":
            r = self.pack_or(st, a, b)
            if r is not None:
                return r
        if isinstance(b, PackV) and isinstance(a, IntV) and op == "or":
            r = self.pack_or(st, b, a)
            if r is not None:
                return r
        return self.top_of(st, ins.ty)

    def pack_or(self, st, a, b):
        return None

    def two(self, st, ins, op, a, b):
        """A derived symbol of two operands."""
        w = ins.ty.w
        la, lb = st.lin(a.l), st.lin(b.l)
        m = (1 << w) - 1
        if not la.t and not lb.t:
            try:
                return C(w, dom.eval_def((op, la, lb, w), {}))
            except NoValue:
                return self.top_of(st, ins.ty)
        d = derived((op, la, lb, w), 0, m, op)
        rs = st.rootset(Lin.sym(d))
        if len(rs) <= 1:
            return IntV(w, Lin.sym(d))
        # a variable shift by a small number of values: case split
        if op in ("shl", "lshrv"):
            vals = st.consts(lb)
            if vals is not None and len(vals) <= 32:
                out = []
                cur = st
                for v in sorted(vals):
                    nxt = None
                    for eq, s2 in self.fork_eq(cur, lb + -v):
                        if eq:
                            if op == "shl":
                                out.append((s2, IntV(w, la.scale(1 << v))))
                            else:
                                for s3, l in self.uns(s2, IntV(w, la)):
                                    out.append((s3, IntV(w, self.shiftright(s3, l, v))))
                        else:
                            nxt = s2
                    cur = nxt
                    if cur is None:
                        break
                return out
        return IntV(w, Lin.sym(d))

    def i_and(self, st, ins, a, b, w):
        la, lb = st.lin(a.l), st.lin(b.l)
        full = (1 << w) - 1
        if not la.t and not lb.t:
            return C(w, (la.c & lb.c) & full)
        if not la.t:
            a, b = b, a
            la, lb = lb, la
        if not lb.t:
            m = lb.c & full
            if m == 0:
                return C(w, 0)
            if m == full:
                return a
            if w == 1:
                return a
            low = (m & -m).bit_length() - 1
            mm = m >> low
            contiguous = mm & (mm + 1) == 0
            p = st.pointwise(la)
            if p is not None:
                vals = {x & full & m for x in p.values()}
                if len(vals) == 1:
                    return C(w, vals.pop())
                if contiguous and low == 0:
                    q = {(x & full) >> m.bit_length() for x in p.values()}
                    # x - const when the masked-off bits never vary
                    q2 = {x - (x & m) for x in p.values()}
                    if len(q2) == 1:
                        return IntV(w, la + -q2.pop())
                l2 = la
                return IntV(w, Lin.sym(derived(("and", l2, m), 0, m, "and")))
            if contiguous:
                if low == 0:
                    return IntV(w, self.lowmask(st, la, m.bit_length()))
                out = []
                for s2, l in self.uns(st, a):
                    top = m.bit_length()
                    x = self.lowmask(s2, l, top) if top < w else l
                    x = s2.lin(x)
                    y = x - self.lowmask(s2, x, low)
                    out.append((s2, IntV(w, s2.lin(y))))
                return out
            out = []
            for s2, l in self.uns(st, a):
                out.append((s2, IntV(w, Lin.sym(derived(("and", l, m), 0, m, "and")))))
            return out
        if la == lb:
            return a
        if w == 1:
            out = []
            for v, s2 in self.truth(st, a, ins):
                out.append((s2, IntV(1, lb) if v else C(1, 0)))
            return out
        out = []
        for s2, x in self.uns(st, a):
            for s3, y in self.uns(s2, b):
                out.append((s3, IntV(w, Lin.sym(derived(("and2", x, y, w), 0, full, "and2")))))
        return out

    @staticmethod
    def tz(l):
        z = 200
        for c in l.t.values():
            z = min(z, (c & -c).bit_length() - 1)
        if l.c:
            z = min(z, (l.c & -l.c).bit_length() - 1)
        return z

    def i_or(self, st, ins, a, b, w):
        la, lb = st.lin(a.l), st.lin(b.l)
        full = (1 << w) - 1
        if not la.t and not lb.t:
            return C(w, (la.c | lb.c) & full)
        if not la.t and la.c & full == 0:
            return b
        if not lb.t and lb.c & full == 0:
            return a
        if w == 1:
            out = []
            for v, s2 in self.truth(st, a, ins):
                out.append((s2, C(1, 1) if v else IntV(1, lb)))
            return out
        out = []
        for s2, x in self.uns(st, a):
            for s3, y in self.uns(s2, b):
                x = s3.lin(x)
                y = s3.lin(y)
                ax, bx = s3.interval(x)
                ay, by = s3.interval(y)
                if by < (1 << self.tz(x)) or bx < (1 << self.tz(y)):
                    out.append((s3, IntV(w, x + y)))
                    continue
                if not y.t:
                    x, y = y, x
                    ax, bx, ay, by = ay, by, ax, bx
                if not x.t and by < (1 << w):
                    # constant | [0, 2^j) with the constant's low bits clear
                    z = (x.c & -x.c).bit_length() - 1 if x.c else 200
                    if by < (1 << z):
                        out.append((s3, IntV(w, x + y)))
                        continue
                out.append((s3, IntV(w, Lin.sym(
                    derived(("or2", x, y, w), 0, full, "or")))))
        return out

    def i_xor(self, st, ins, a, b, w):
        la, lb = st.lin(a.l), st.lin(b.l)
        full = (1 << w) - 1
        if not la.t and not lb.t:
            return C(w, (la.c ^ lb.c) & full)
        if not la.t:
            a, b = b, a
            la, lb = lb, la
        if not lb.t:
            m = lb.c & full
            if m == full:
                return IntV(w, K(-1) - la)
            if m == 0:
                return a
        if w == 1:
            out = []
            for v, s2 in self.truth(st, a, ins):
                for u, s3 in self.truth(s2, b, ins):
                    out.append((s3, C(1, int(u != v))))
            return out
        out = []
        for s2, x in self.uns(st, a):
            for s3, y in self.uns(s2, b):
                out.append((s3, IntV(w, Lin.sym(
                    derived(("xor", x, y, w), 0, full, "xor")))))
        return out

    def i_div(self, st, ins, op, a, b, w):
        signed = op[0] == "s"
        out = []
        for s2, y in self.norm(st, b, signed):
            if y.t:
                v = s2.consts(y)
                self.check(s2, (v is not None and 0 not in v) or s2.entails_ne(y),
                           "div", ins, "division by zero")
                out.append((s2, self.top_of(s2, ins.ty)))
                continue
            if y.c == 0:
                self.check(s2, False, "div", ins, "division by zero")
                continue
            for s3, x in self.norm(s2, a, signed):
                x = s3.lin(x)
                d = y.c
                if not x.t:
                    q = abs(x.c) // abs(d)
                    if (x.c < 0) != (d < 0):
                        q = -q
                    v = q if op[1:] == "div" else x.c - q * d
                    out.append((s3, C(w, v)))
                    continue
                if x.c % d == 0 and all(c % d == 0 for c in x.t.values()):
                    if op[1:] == "div":
                        out.append((s3, IntV(w, Lin(x.c // d, {s: c // d for s, c in x.t.items()}))))
                    else:
                        out.append((s3, C(w, 0)))
                    continue
                lo, hi = s3.interval(x)
                if lo >= 0 and d > 0 and d & (d - 1) == 0:
                    k = d.bit_length() - 1
                    r = self.shiftright(s3, x, k) if op[1:] == "div" else self.lowmask(s3, x, k)
                    out.append((s3, IntV(w, r)))
                    continue
                if lo >= 0 and d > 0:
                    if s3.pointwise(x) is not None:
                        out.append((s3, IntV(w, Lin.sym(derived(
                            ("udiv" if op[1:] == "div" else "urem", x, K(d), w),
                            0, (1 << w) - 1, op)))))
                        continue
                    q = new_sym("q", lo // d, hi // d)
                    r = new_sym("r", 0, d - 1)
                    if s3.assume_eq(x - Lin(0, {q: d, r: 1})):
                        out.append((s3, IntV(w, s3.lin(Lin.sym(q if op[1:] == "div" else r)))))
                    continue
                out.append((s3, self.top_of(s3, ins.ty)))
        return out

    # ------------------------------------------------------------ compare
    def i_icmp(self, st, ins):
        a = self.value(st, ins.ops[0])
        b = self.value(st, ins.ops[1])
        p = ins.x
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            if a.r == b.r:
                return self.cmp_lin(st, p, a.l, b.l, ins)
            if p in ("eq", "ne"):
                return C(1, int(p == "ne"))
            self.note("relational comparison of unrelated pointers", ins)
            return [(st.copy(), C(1, 0)), (st, C(1, 1))]
        if isinstance(a, FnV) or isinstance(b, FnV):
            same = isinstance(a, FnV) and isinstance(b, FnV) and a.fn is b.fn
            return C(1, int(same == (p == "eq")))
        if not isinstance(a, IntV) or not isinstance(b, IntV):
            if a is UNDEF or b is UNDEF:
                self.check(st, False, "uninit", ins, "comparison of an uninitialised value")
            return [(st.copy(), C(1, 0)), (st, C(1, 1))]
        if self.loop_icmps:
            la, lb = st.lin(a.l), st.lin(b.l)
            if not la.t and not lb.t:
                self.loop_icmps[-1].setdefault((ins.fn.name, ins.name, st.ctx), []).append((la.c, lb.c))
        signed = p[0] == "s"
        out = []
        for s2, x in self.norm(st, a, signed):
            for s3, y in self.norm(s2, b, signed):
                r = self.cmp_lin(s3, p, x, y, ins)
                if type(r) is list:
                    out.extend(r)
                else:
                    out.append((s3, r))
        return out

    def fork_bits(self, st, l):
        """fork_eq, by what the bits of an or and an xor being zero means."""
        l = st.lin(l)
        q = l.pure()
        d = SYMS[q].d if q is not None else None
        if d is None or d[0] not in ("or2", "xor"):
            return self.fork_eq(st, l)
        out = []
        if d[0] == "xor":
            parts = self.fork_eq(st, st.lin(d[1]) - st.lin(d[2]))
        else:
            parts = []
            for v, s in self.fork_bits(st, d[1]):
                if v:
                    parts.extend(self.fork_bits(s, d[2]))
                else:
                    parts.append((False, s))
        for v, s in parts:
            out.extend((u, t) for u, t in self.fork_eq(s, l) if u == v)
        return out

    def cmp_lin(self, st, p, x, y, ins):
        k = p if p in ("eq", "ne") else p[1:]
        if k in ("eq", "ne"):
            r = self.fork_bits(st, x - y)
            neg = k == "ne"
        elif k == "ge":
            r = self.fork_ge(st, x - y)
            neg = False
        elif k == "lt":
            r = self.fork_ge(st, x - y)
            neg = True
        elif k == "le":
            r = self.fork_ge(st, y - x)
            neg = False
        else:
            r = self.fork_ge(st, y - x)
            neg = True
        return [(s, C(1, int(v != neg))) for v, s in r]

    # ------------------------------------------------------------ casts
    def i_trunc(self, st, ins):
        v = self.value(st, ins.ops[0])
        w = ins.ty.w
        if isinstance(v, IntV):
            return self.trunc(st, v, w)
        if isinstance(v, PackV):
            return self.pack_part(st, v, 0, (w + 7) // 8)
        if v is UNDEF:
            return UNDEF
        return self.top_of(st, ins.ty)

    def trunc(self, st, v, w):
        l = st.lin(v.l)
        # trunc of a sign extension of a w-bit value is the value itself
        p = l.pure()
        if p is not None:
            d = SYMS[p].d
            if d is not None and d[0] == "sext" and d[2] <= w and w == 8:
                return IntV(w, d[1])
        if w == 1:
            return IntV(1, self.lowmask(st, l, 1))
        return IntV(w, l)

    def i_zext(self, st, ins):
        v = self.value(st, ins.ops[0])
        w = ins.ty.w
        if isinstance(v, IntV):
            return [(s2, IntV(w, l)) for s2, l in self.uns(st, v)]
        if isinstance(v, PackV):
            return PackV(ins.ty.size, v.p + [(v.size, ins.ty.size - v.size, C(8 * (ins.ty.size - v.size), 0))])
        if v is UNDEF:
            return UNDEF
        return self.top_of(st, ins.ty)

    def i_sext(self, st, ins):
        v = self.value(st, ins.ops[0])
        w = ins.ty.w
        if isinstance(v, IntV):
            l = st.lin(v.l)
            if v.w == 8 and l.t:
                a, b = st.interval(l)
                if a >= 0 and b < 256 and not b < 128:
                    if a >= 128:
                        return IntV(w, l + -256)
                    if st.pointwise(l) is not None or len(l.t) >= 1:
                        return IntV(w, Lin.sym(derived(("sext", l, 8), -128, 127, "sx")))
            return [(s2, IntV(w, x)) for s2, x in self.sgn(st, v)]
        if v is UNDEF:
            return UNDEF
        return self.top_of(st, ins.ty)

    def i_cast(self, st, ins):
        v = self.value(st, ins.ops[0])
        return v

    def i_freeze(self, st, ins):
        return self.value(st, ins.ops[0])

    def i_select(self, st, ins):
        c = self.value(st, ins.ops[0])
        out = []
        for v, s2 in self.truth(st, c, ins):
            out.append((s2, self.value(s2, ins.ops[1] if v else ins.ops[2])))
        return out

    def i_extract(self, st, ins):
        v = self.value(st, ins.ops[0])
        for i in ins.x:
            if isinstance(v, AggV):
                v = v.v[i]
            elif v is UNDEF:
                return UNDEF
            else:
                return self.top_of(st, ins.ty)
        return v

    def i_insert(self, st, ins):
        v = self.value(st, ins.ops[0])
        x = self.value(st, ins.ops[1])

        def put(v, ty, idx):
            if not idx:
                return x
            n = len(ty.fields) if ty.kind == "struct" else ty.n
            items = list(v.v) if isinstance(v, AggV) else [UNDEF] * n
            sub = ty.fields[idx[0]] if ty.kind == "struct" else ty.elem
            items[idx[0]] = put(items[idx[0]], sub, idx[1:])
            return AggV(items)
        return put(v, ins.ty, ins.x)

    # ------------------------------------------------------------ pointers
    def i_alloca(self, st, ins):
        r = ("a", self.ctx_id(st.ctx), ins.name)
        n = self.value(st, ins.ops[0])
        size = ins.x.size
        if isinstance(n, IntV):
            l = st.lin(n.l)
            st.rgn[r] = l.scale(size)
        return PtrV(r, ZERO)

    def i_gep(self, st, ins):
        p = self.value(st, ins.ops[0])
        if p is UNDEF:
            self.check(st, False, "uninit", ins, "address computed from an uninitialised pointer")
            return Top(0)
        if not isinstance(p, PtrV):
            return Top(0)
        cur = ins.x
        states = [(st, p.l)]
        plain = True
        for n, o in enumerate(ins.ops[1:]):
            if n and cur.kind == "struct":
                i = o[2]
                states = [(s, l + cur.offs[i]) for s, l in states]
                cur = cur.fields[i]
                continue
            size = cur.size if n == 0 else cur.elem.size
            if n:
                cur = cur.elem
            nxt = []
            for s, l in states:
                v = self.value(s, o)
                if not isinstance(v, IntV):
                    if v is UNDEF:
                        self.check(s, False, "uninit", ins, "uninitialised index")
                    return Top(0)
                for s2, x in self.sgn(s, v):
                    nxt.append((s2, s2.lin(l + x.scale(size))))
            states = nxt
        out = []
        for s, l in states:
            q = PtrV(p.r, l)
            self.ptr_check(s, q, ins)
            out.append((s, q))
        return out

    def rgn_size(self, st, r):
        if r is None:
            return ZERO
        k = r[0]
        if k == "g":
            g = self.m.globals.get(r[1])
            return K(g.ty.size) if g is not None else None
        if k == "b":
            o = st.obj.get((r[1], r[2]))
            if o is None:
                return None
            es = o.f.get("es", 1)
            extra = 1 if o.kind == "str" else 0
            return (o.f["len"].l + extra).scale(es)
        return st.rgn.get(r)

    def ptr_check(self, st, p, ins):
        """Address arithmetic stays within the object (one past included)."""
        if p.r is not None and p.r[0] == "a" and not p.l.t:
            z = st.rgn.get(p.r)
            if z is not None and not z.t and 0 <= p.l.c <= z.c:
                return
        size = self.rgn_size(st, p.r)
        if size is None:
            return
        if p.r is None:
            self.check(st, st.entails_eq(p.l), "mem", ins, "offset applied to a null pointer")
            return
        ok = st.entails_ge(p.l) and st.entails_ge(size - p.l)
        self.check(st, ok, "mem", ins, "address %s outside [0, %s] of %s" % (
            self.show(st, p.l), self.show(st, size), self.rname(p.r)) if not ok else None)

    def show(self, st, l):
        return repr(st.lin(l))

    def rname(self, r):
        if r is None:
            return "null"
        if r[0] == "a":
            return "local object"
        if r[0] in ("b", "dang"):
            return "buffer of %s" % (self.rname(r[1]),)
        return ":".join(str(x) for x in r)

    def access(self, st, p, size, ins, what):
        """Bounds obligation; returns False when nothing is known."""
        if p is UNDEF:
            self.check(st, False, "uninit", ins, "%s through an uninitialised pointer" % what)
            return False
        if not isinstance(p, PtrV):
            self.note("access through unknown pointer", ins)
            self.check(st, False, "mem", ins, "%s through an unknown pointer" % what)
            return False
        if p.r is None:
            self.check(st, False, "mem", ins, "%s through a null pointer" % what)
            raise Dead()
        z = self.rgn_size(st, p.r)
        if z is None:
            if p.r[0] in ("a", "g", "in", "b", "dang"):
                self.check(st, False, "mem", ins, "%s of an object whose lifetime has ended" % what
                           if p.r[0] != "dang" else "%s of memory that a string or vector has given up" % what)
            return True
        if not p.l.t and not z.t:
            ok = 0 <= p.l.c and p.l.c + size <= z.c
        else:
            ok = st.entails_ge(p.l) and st.entails_ge(z - p.l + -size)
        if p.r[0] != "a" or not ok:
            self.check(st, ok, "mem", ins, "%s of %d byte(s) at %s outside [0, %s) of %s" % (
                what, size, self.show(st, p.l), self.show(st, z), self.rname(p.r)) if not ok else None)
        if not ok:
            # continue with the in-bounds executions only
            if not (st.assume_ge(p.l) and st.assume_ge(z - p.l + -size)):
                raise Dead()
        return True

    # ------------------------------------------------------------ memory
    @staticmethod
    def is_cells(r):
        return r[0] in ("a", "obj", "heap", "exc")

    def i_load(self, st, ins):
        p = self.value(st, ins.ops[0])
        return self.load(st, p, ins.ty, ins)

    def load(self, st, p, ty, ins):
        if ty.kind == "struct":
            parts = []
            cur = [(st, [])]
            for f, o in zip(ty.fields, ty.offs):
                nxt = []
                for s, vs in cur:
                    r = self.load(s, PtrV(p.r, p.l + o) if isinstance(p, PtrV) else p, f, ins)
                    if type(r) is not list:
                        r = [(s, r)]
                    for s2, v in r:
                        nxt.append((s2, vs + [v]))
                cur = nxt
            return [(s, AggV(vs)) for s, vs in cur]
        size = ty.size
        if not self.access(st, p, size, ins, "read"):
            return self.top_of(st, ty)
        r = p.r
        l = st.lin(p.l)
        if r[0] == "g":
            v = self.load_global(st, r, l, ty, ins)
        elif self.is_cells(r):
            if l.t:
                v = self.load_cells_sym(st, r, l, ty, ins)
            else:
                v = self.read_cells(st, r, l.c, size, ty)
        else:
            v = self.load_memo(st, r, l, ty, ins)
        if ty.kind == "int" and ty.w == 1 and isinstance(v, IntV) and v.w != 1:
            return IntV(1, v.l)
        if isinstance(v, IntV) and ty.kind == "int" and v.w != ty.w:
            v = IntV(ty.w, v.l)
        return v

    def read_cells(self, st, r, off, size, ty):
        c = st.mem.get((r, off))
        if c is not None and c[0] == size:
            return c[1]
        # overlapping cells
        parts = []
        for (rr, o), (sz, v) in st.mem.items():
            if rr == r and o < off + size and o + sz > off:
                parts.append((o, sz, v))
        if not parts:
            if (r, "smear") in st.mem:
                return self.top_of(st, ty)
            return UNDEF
        parts.sort()
        if len(parts) == 1 and parts[0][0] <= off and parts[0][0] + parts[0][1] >= off + size:
            o, sz, v = parts[0]
            return self.extract_bytes(st, v, sz, off - o, size, ty)
        pk = []
        for o, sz, v in parts:
            lo = max(o, off)
            hi = min(o + sz, off + size)
            if lo == o and hi == o + sz:
                pk.append((lo - off, sz, v))
            else:
                pk.append((lo - off, hi - lo, self.extract_bytes(st, v, sz, lo - o, hi - lo, None)))
        if sum(x[1] for x in pk) == size and all(
                isinstance(x[2], IntV) for x in pk):
            l = ZERO
            for o, sz, v in pk:
                lv = st.lin(v.l)
                a, b = st.interval(lv)
                if a < 0 or b >= 1 << (8 * sz):
                    break
                l = l + lv.scale(1 << (8 * o))
            else:
                return IntV(8 * size, l)
        return PackV(size, pk)

    def extract_bytes(self, st, v, vsize, off, size, ty):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, PackV):
            return self.pack_part(st, v, off, size)
        if isinstance(v, IntV):
            l = st.lin(v.l)
            if not l.t:
                x = (l.c & ((1 << (8 * vsize)) - 1)) >> (8 * off)
                if ty is not None and ty.kind == "ptr" and x == 0:
                    return NULL
                return C(8 * size, x)
            if off == 0:
                return IntV(8 * size, l)
            rs = self.uns(st, IntV(8 * vsize, l))
            if len(rs) == 1:
                return IntV(8 * size, self.shiftright(rs[0][0], rs[0][1], 8 * off))
        return Top(8 * size)

    def pack_part(self, st, v, off, size):
        for o, sz, x in v.p:
            if o == off and sz == size:
                return x
        for o, sz, x in v.p:
            if o <= off and off + size <= o + sz:
                return self.extract_bytes(st, x, sz, off - o, size, None)
        ps = [(o - off, sz, x) for o, sz, x in v.p if o >= off and o + sz <= off + size]
        if ps:
            return PackV(size, ps)
        return UNDEF

    def load_cells_sym(self, st, r, l, ty, ins):
        """A load at a variable offset of a small object: case split."""
        size = ty.size
        cands = sorted(o for (rr, o), (sz, v) in
                       [(k, c) for k, c in st.mem.items() if k[1] != "smear"]
                       if rr == r and sz == size)
        a, b = st.bounds_lp(l)
        cands = [o for o in cands if a <= o <= b]
        if len(cands) <= 16 and (r, "smear") not in st.mem:
            out = []
            cur = st
            for o in cands:
                nxt = None
                for eq, s2 in self.fork_eq(cur, l + -o):
                    if eq:
                        out.append((s2, s2.mem[(r, o)][1]))
                    else:
                        nxt = s2
                cur = nxt
                if cur is None:
                    break
            if cur is not None:
                out.append((cur, UNDEF))
            return out
        return self.load_memo(st, r, l, ty, ins)

    def load_memo(self, st, r, l, ty, ins):
        for rr, ml, sz, v in st.memo:
            if rr == r and sz == ty.size and st.lin(ml) == l:
                self.ev("read", st, ins, r=r, l=l, size=sz)
                if r[0] == "b":
                    vec_again(self, st, r, l, ins)
                return v
        if r[0] == "b":
            v = vec_element(self, st, r, st.lin(l), ty, ins)
            if v is not None:
                return v
        v = self.fresh_load(st, r, l, ty, ins)
        st.memo.append((r, l, ty.size, v))
        self.ev("read", st, ins, r=r, l=l, size=ty.size)
        return v

    def fresh_load(self, st, r, l, ty, ins):
        if r == ("in", "v"):
            # an array of views into one text region
            base = st.lin(l)
            if ty.kind == "ptr":
                base = base + -8
            R = ("in", "vtext")
            i = base
            off = Lin.sym(dom.derived(("app", "voff", i), 0, 1 << 62, "voff"))
            ln = Lin.sym(dom.derived(("app", "vlen", i), 0, 1 << 62, "vlen"))
            if not st.assume_ge(st.rgn[R] - off - ln):
                raise Dead()
            return PtrV(R, st.lin(off)) if ty.kind == "ptr" else IntV(64, st.lin(ln))
        if ty.kind == "ptr":
            h = self.ev("loadptr", st, ins, r=r, l=l)
            if h is not None:
                return h
            return Top(0)
        s = new_sym("m", 0, (1 << ty.w) - 1)
        return IntV(ty.w, Lin.sym(s))

    # constants
    def global_cells(self, name):
        c = self._init_cells.get(name)
        if c is None:
            c = {}
            g = self.m.globals[name]
            init = self.m.init(g)

            def walk(v, ty, off):
                if v is None:
                    return
                if v[0] == "zero":
                    if ty.kind in ("int", "ptr"):
                        c[off] = (ty.size, ("ci", ty.w, 0) if ty.kind == "int" else ("null",))
                    elif ty.kind == "struct":
                        for f, o in zip(ty.fields, ty.offs):
                            walk(("zero", f), f, off + o)
                    elif ty.kind == "array":
                        for i in range(ty.n):
                            walk(("zero", ty.elem), ty.elem, off + i * ty.elem.size)
                elif v[0] == "agg":
                    if v[1].kind == "struct":
                        for x, f, o in zip(v[2], v[1].fields, v[1].offs):
                            walk(x, f, off + o)
                    else:
                        e = v[1].elem
                        for i, x in enumerate(v[2]):
                            walk(x, e, off + i * e.size)
                elif v[0] == "undef":
                    pass
                else:
                    c[off] = (ty.size, v)
            walk(init, g.ty, 0)
            self._init_cells[name] = c
        return c

    def load_global(self, st, r, l, ty, ins):
        name = r[1]
        g = self.m.globals[name]
        if not g.const:
            self.check(st, False, "global", ins, "reads the mutable global " + g.dem)
            return self.load_memo(st, r, l, ty, ins)
        if g.decl:
            return self.load_memo(st, r, l, ty, ins)
        cells = self.global_cells(name)
        size = ty.size
        if not l.t:
            c = cells.get(l.c)
            if c is not None and c[0] == size:
                return self.value(st, c[1])
            v = self.global_bytes(name, l.c, size)
            if v is None:
                return self.top_of(st, ty)
            return C(8 * size, v)
        if ty.kind != "int":
            return self.load_memo(st, r, l, ty, ins)
        key = (name, size)
        if len(cells) <= 256 and ins.op == "load":
            def cell(off):
                c = cells.get(off)
                if c is not None and c[0] == size and c[1][0] == "ci":
                    return c[1][2]
                return self.global_bytes(name, off, size) if size == 1 or off % size == 0 else None
            p = self.pieces(st, l, cell)
            if p is not None:
                return [(s, IntV(ty.w, v)) for s, v in p]
        if key not in dom._TAB:
            def f(off, name=name, size=size):
                c = cells.get(off)
                if c is not None and c[0] == size and c[1][0] == "ci":
                    return c[1][2]
                return self.global_bytes(name, off, size)
            dom._TAB[key] = f
        return IntV(ty.w, Lin.sym(derived(("tab", key, l), 0, (1 << ty.w) - 1, "tab")))

    def global_bytes(self, name, off, size):
        cells = self.global_cells(name)
        out = 0
        for i in range(size):
            o = off + i
            for back in range(0, 9):
                c = cells.get(o - back)
                if c is not None:
                    break
            if c is None or c[0] <= back or c[1][0] != "ci":
                return None
            out |= ((c[1][2] >> (8 * back)) & 0xFF) << (8 * i)
        return out

    def i_store(self, st, ins):
        v = self.value(st, ins.ops[0])
        p = self.value(st, ins.ops[1])
        self.store(st, p, v, ins.x.size, ins)
        return None

    def store(self, st, p, v, size, ins):
        if not self.access(st, p, size, ins, "write"):
            self.note("store through unknown pointer", ins)
            return
        r = p.r
        l = st.lin(p.l)
        if r[0] == "g":
            self.check(st, False, "global", ins, "writes the global " + self.m.globals[r[1]].dem)
            return
        if isinstance(v, AggV) and self.is_cells(r) and not l.t:
            # store of a whole struct value: only used for {ptr,i64} pairs
            off = l.c
            for x in v.v:
                st.mem[(r, off)] = (8, x)
                off += 8
            return
        if self.is_cells(r):
            if l.t:
                self.smear(st, r, l, size)
                self.ev("store", st, ins, p=p, v=v, size=size)
                return
            self.write_cell(st, r, l.c, size, v)
            return
        self.ev("store", st, ins, p=PtrV(r, l), v=v, size=size)
        if r[0] == "b":
            o = st.obj.get(r[1:])
            if o is not None and o.kind == "str" and not (isinstance(v, IntV) and st.entails_eq(st.lin(v.l))):
                # the terminator isn't the string's to change
                self.check(st, st.entails_ge(st.lin(o.f["len"].l.scale(o.f.get("es", 1)) - l + -size)), "mem", ins,
                           "write over the terminator of " + self.rname(r))
        self.invalidate(st, r, l, size)
        st.memo.append((r, l, size, v))

    def invalidate(self, st, r, l, size):
        """Forgets remembered contents of r that may overlap [l, l+size)."""
        keep = []
        for m in st.memo:
            if m[0] == r:
                d = m[1] - l
                if not (st.entails_ge(d + -size) or st.entails_ge((-d) + -m[2])):
                    continue
            keep.append(m)
        st.memo = keep

    def smear(self, st, r, l, size):
        for k in [k for k in st.mem if k[0] == r]:
            del st.mem[k]
        st.mem[(r, "smear")] = (0, UNDEF)
        st.memo = [m for m in st.memo if m[0] != r]

    def write_cell(self, st, r, off, size, v):
        mem = st.mem
        k = (r, off)
        c = mem.get(k)
        if c is not None and c[0] == size:
            if v is UNDEF:
                del mem[k]
            else:
                mem[k] = (size, v)
            return
        for k2 in [k2 for k2, c2 in mem.items()
                   if k2[0] == r and k2[1] != "smear" and k2[1] < off + size and k2[1] + c2[0] > off]:
            o, (sz, old) = k2[1], mem.pop(k2)
            if o < off:
                mem[(r, o)] = (off - o, self.extract_bytes(st, old, sz, 0, off - o, None))
            if o + sz > off + size:
                mem[(r, off + size)] = (o + sz - off - size,
                                        self.extract_bytes(st, old, sz, off + size - o, o + sz - off - size, None))
        if isinstance(v, PackV):
            for o, sz, x in v.p:
                if x is not UNDEF:
                    mem[(r, off + o)] = (sz, x)
            return
        if v is not UNDEF:
            mem[k] = (size, v)

    def copy_cells(self, st, dr, do, sr, so, n, ins):
        if sr[0] == "g":
            src = []
            for o, (sz, v) in self.global_cells(sr[1]).items():
                if so <= o and o + sz <= so + n:
                    src.append((o - so, sz, self.value(st, v)))
        else:
            src = []
            for (r, o), (sz, v) in list(st.mem.items()):
                if r != sr or o == "smear":
                    continue
                if o < so + n and o + sz > so:
                    if so <= o and o + sz <= so + n:
                        src.append((o - so, sz, v))
                    else:
                        a = max(o, so)
                        b = min(o + sz, so + n)
                        src.append((a - so, b - a, self.extract_bytes(st, v, sz, a - o, b - a, None)))
            if (sr, "smear") in st.mem:
                st.mem[(dr, "smear")] = (0, UNDEF)
        # library objects move with their bytes
        for k in [k for k in st.mem if k[0] == dr and k[1] != "smear"]:
            o = k[1]
            sz = st.mem[k][0]
            if do <= o and o + sz <= do + n:
                del st.mem[k]
            elif o < do + n and o + sz > do:
                del st.mem[k]
        for o, sz, v in src:
            if v is not UNDEF:
                st.mem[(dr, do + o)] = (sz, v)

    def memcpy(self, st, ins, dst, src, n):
        if not isinstance(n, IntV) or not isinstance(dst, PtrV) or not isinstance(src, PtrV):
            self.check(st, False, "mem", ins, "copy with unknown operands")
            self.havoc(st, [dst])
            return VOID
        out = []
        for s, l in self.uns(st, n):
            l = s.lin(l)
            if not l.t and l.c == 0:
                out.append(("ret", None, s))
                continue
            self.read_range(s, src, l, 1, ins, "copy")
            z = self.rgn_size(s, dst.r)
            if dst.r is None:
                self.check(s, s.entails_eq(l), "mem", ins, "copy to a null pointer")
                out.append(("ret", None, s))
                continue
            if z is None:
                self.check(s, False, "mem", ins, "copy to an object whose lifetime has ended")
            else:
                ok = s.entails_ge(dst.l) and s.entails_ge(z - dst.l - l)
                self.check(s, ok, "mem", ins, None if ok else "copy of %s byte(s) to %s outside [0, %s) of %s" % (
                    self.show(s, l), self.show(s, dst.l), self.show(s, z), self.rname(dst.r)))
                if not ok and not (s.assume_ge(dst.l) and s.assume_ge(z - dst.l - l)):
                    continue
            dl, sl = s.lin(dst.l), s.lin(src.l)
            if l.t or src.r is None:
                self.ev("copy", s, ins, src=("range", src.r, sl, l), dst=dst)
                if self.is_cells(dst.r):
                    self.smear(s, dst.r, dl, 1)
                else:
                    self.invalidate(s, dst.r, dl, l)
                out.append(("ret", None, s))
                continue
            size = l.c
            if self.is_cells(dst.r) and not dl.t and not sl.t and (
                    self.is_cells(src.r) or src.r[0] == "g"):
                self.copy_cells(s, dst.r, dl.c, src.r, sl.c, size, ins)
                out.append(("ret", None, s))
                continue
            if src.r[0] == "b":
                vec_fill(self, s, src.r, sl, size, ins)
            parts = self.gather(s, src.r, sl, size, ins)
            if self.is_cells(dst.r) and not dl.t:
                for k in [k for k in s.mem if k[0] == dst.r and k[1] != "smear"
                          and dl.c <= k[1] < dl.c + size]:
                    del s.mem[k]
                for o, sz, v in parts:
                    if v is not UNDEF:
                        self.write_cell(s, dst.r, dl.c + o, sz, v)
            elif self.is_cells(dst.r):
                self.smear(s, dst.r, dl, size)
            else:
                self.ev("copy", s, ins, src=("range", src.r, sl, l), dst=dst)
                self.invalidate(s, dst.r, dl, size)
                for o, sz, v in parts:
                    if v is not UNDEF:
                        s.memo.append((dst.r, dl + o, sz, v))
            out.append(("ret", None, s))
        return out

    def gather(self, s, r, l, size, ins):
        """The known pieces of [l, l+size) of r."""
        parts = []
        if self.is_cells(r) and not l.t:
            for (rr, o), (sz, v) in s.mem.items():
                if rr == r and o != "smear" and l.c <= o and o + sz <= l.c + size:
                    parts.append((o - l.c, sz, v))
            return parts
        if r[0] == "g" and not l.t:
            for o, (sz, v) in self.global_cells(r[1]).items():
                if l.c <= o and o + sz <= l.c + size:
                    parts.append((o - l.c, sz, self.value(s, v)))
            return parts
        got = set()
        for rr, ml, sz, v in reversed(s.memo):
            if rr == r:
                d = s.lin(ml - l)
                if not d.t and 0 <= d.c and d.c + sz <= size and not (
                        got & set(range(d.c, d.c + sz))):
                    parts.append((d.c, sz, v))
                    got |= set(range(d.c, d.c + sz))
        o = 0
        while o < size:
            if o in got:
                o += 1
                continue
            n = 1
            for k in (8, 4, 2):
                if o % k == 0 and o + k <= size and not (got & set(range(o, o + k))):
                    n = k
                    break
            v = IntV(8 * n, Lin.sym(new_sym("m", 0, (1 << (8 * n)) - 1)))
            s.memo.append((r, l + o, n, v))
            parts.append((o, n, v))
            o += n
        return parts

    def memset(self, st, ins, dst, val, n):
        if not isinstance(n, IntV) or not isinstance(dst, PtrV) or dst.r is None:
            self.havoc(st, [dst])
            return VOID
        out = []
        for s, l in self.uns(st, n):
            l = s.lin(l)
            z = self.rgn_size(s, dst.r)
            ok = z is not None and s.entails_ge(dst.l) and s.entails_ge(z - dst.l - l)
            self.check(s, ok, "mem", ins, "fill outside the object")
            dl = s.lin(dst.l)
            c = s.lin(val.l) if isinstance(val, IntV) else None
            if self.is_cells(dst.r) and not dl.t and not l.t and c is not None and not c.t and l.c <= 256:
                o = 0
                while o < l.c:
                    k = 8
                    while (dl.c + o) % k or o + k > l.c:
                        k //= 2
                    self.write_cell(s, dst.r, dl.c + o, k, C(8 * k, int.from_bytes(bytes([c.c & 255]) * k, "little")))
                    o += k
            elif self.is_cells(dst.r):
                self.smear(s, dst.r, dl, 1)
            else:
                s.memo = [m for m in s.memo if m[0] != dst.r]
            out.append(("ret", None, s))
        return out

    SIMPLE = {}


for _o in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor",
           "udiv", "sdiv", "urem", "srem"):
    Engine.SIMPLE[_o] = Engine.i_bin
Engine.SIMPLE.update({
    "icmp": Engine.i_icmp, "trunc": Engine.i_trunc, "zext": Engine.i_zext,
    "sext": Engine.i_sext, "ptrtoint": Engine.i_cast, "inttoptr": Engine.i_cast,
    "bitcast": Engine.i_cast, "freeze": Engine.i_freeze,
    "select": Engine.i_select, "extractvalue": Engine.i_extract,
    "insertvalue": Engine.i_insert, "alloca": Engine.i_alloca,
    "getelementptr": Engine.i_gep, "load": Engine.i_load,
    "store": Engine.i_store, "landingpad": Engine.i_landingpad,
})
