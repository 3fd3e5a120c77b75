"""Calls: dispatch, inlining, exceptions and the models of library functions
(the string, vector and search functions of the C++ runtime)."""
import re

import cfg
import dom
from lin import Lin, K, ZERO, SYMS, new_sym, iv_count, iv_elems, iv_from
from loops import disc, walk, img
from dom import (St, IntV, PtrV, FnV, AggV, UNDEF, NULL, Top, C, Obj, Dead,
                 derived)

MAXLEN = 1 << 62
VOID = ("void",)

THROWS = {
    "std::__throw_length_error": "_ZTISt12length_error",
    "std::__throw_logic_error": "_ZTISt11logic_error",
    "std::__throw_out_of_range": "_ZTISt12out_of_range",
    "std::__throw_out_of_range_fmt": "_ZTISt12out_of_range",
    "std::__throw_bad_alloc": "_ZTISt9bad_alloc",
    "std::__throw_bad_array_new_length": "_ZTISt9bad_alloc",
    "std::__throw_invalid_argument": "_ZTISt16invalid_argument",
    "std::__throw_bad_optional_access": "_ZTISt19bad_optional_access",
}
ALLOC_THROWS = {"_ZTISt12length_error", "_ZTISt9bad_alloc"}

STD_BASES = {
    "_ZTISt13runtime_error": "_ZTISt9exception",
    "_ZTISt11logic_error": "_ZTISt9exception",
    "_ZTISt12out_of_range": "_ZTISt11logic_error",
    "_ZTISt12length_error": "_ZTISt11logic_error",
    "_ZTISt16invalid_argument": "_ZTISt11logic_error",
    "_ZTISt12domain_error": "_ZTISt11logic_error",
    "_ZTISt11range_error": "_ZTISt13runtime_error",
    "_ZTISt14overflow_error": "_ZTISt13runtime_error",
    "_ZTISt9bad_alloc": "_ZTISt9exception",
    "_ZTISt19bad_optional_access": "_ZTISt9exception",
}


class Exc:
    """own: where the code throws it itself; None for exceptions of libstdc++."""
    __slots__ = ("ti", "own")

    def __init__(self, ti, own=None):
        self.ti = ti
        self.own = own

    def __repr__(self):
        return "Exc(%s)" % self.ti

    def __eq__(self, o):
        return isinstance(o, Exc) and o.ti == self.ti and o.own == self.own

    def __hash__(self):
        return hash((self.ti, self.own))


class Calls:
    # ------------------------------------------------------------ dispatch
    def bname(self, fn):
        b = self.base.get(fn.name)
        if b is None:
            from interp import base_name
            b = self.base[fn.name] = base_name(fn.dem)
        return b

    def handler(self, fn):
        h = self._handler.get(fn.name, 0)
        if h != 0:
            return h
        b = self.bname(fn)
        h = self.contracts.get(b) if b not in self.force_inline else None
        if h is None:
            h = LIB.get(b)
            if h is None:
                if b.startswith("std::basic_string::"):
                    h = H_string
                elif b.startswith("std::vector::"):
                    h = H_vector
                elif b.startswith("std::basic_string_view::"):
                    h = H_string_view
                elif fn.decl and b in THROWS:
                    h = H_throw
                elif fn.name.startswith("llvm."):
                    h = H_llvm
                elif fn.name.startswith("sa_"):
                    h = H_sink
                elif b == "std::operator+" and "basic_string<" in fn.dem:
                    h = H_strplus
                elif b == "std::operator<<" or b.startswith("std::ostream::"):
                    h = H_ostream
        self._handler[fn.name] = h
        return h

    def stands_for(self, f):
        """The function with a contract that does nothing but call f, or f."""
        if f.decl or not f.dem.startswith("ystring::") or self.contracts.get(self.bname(f)) is not None:
            return f
        if self._forwards is None:
            self._forwards = {}
            for g in self.m.fns.values():
                if not g.decl and g.dem.startswith("ystring::") and self.contracts.get(self.bname(g)) is not None:
                    t = forwards_to(self.m, g)
                    if t is not None:
                        self._forwards.setdefault(t.name, g)
        return self._forwards.get(f.name, f)

    def do_call(self, fn, b, st, ins):
        cal = self.value(st, ins.x[0])
        args = [self.value(st, o) for o in ins.ops]
        if not isinstance(cal, FnV):
            self.note("call through an unknown pointer", ins)
            self.havoc(st, args)
            return [("ret", self.top_of(st, ins.ty) if ins.ty.kind != "void" else None, st)]
        f = self.stands_for(cal.fn)
        h = self.handler(f)
        if h is not None:
            r = h(self, st, ins, f, args)
            if r is not None:
                return self.wrap(st, r)
        if f.decl:
            self.note("call to an unmodelled function " + f.dem, ins)
            self.havoc(st, args)
            return [("ret", self.top_of(st, ins.ty) if ins.ty.kind != "void" else None, st)]
        if self.opaque and f.name not in self.no_app:
            r = self.pure_call(st, ins, f, args)
            if r is not None:
                return self.wrap(st, r)
        return self.inline(f, args, st, ins)

    def wrap(self, st, r):
        if r is VOID:
            return [("ret", None, st)]
        if type(r) is list:
            return [x if len(x) == 3 else ("ret", x[1], x[0]) for x in r]
        return [("ret", r, st)]

    def havoc(self, st, args):
        for a in args:
            if isinstance(a, PtrV) and a.r is not None:
                k = (a.r, a.l.c) if not a.l.t else None
                if k in st.obj:
                    self.clobber(st, k)
                if self.is_cells(a.r):
                    self.smear(st, a.r, a.l, 0)
                elif a.r[0] not in ("g",):
                    st.memo = [m for m in st.memo if m[0] != a.r]

    # ------------------------------------------------------------ inlining
    def inline(self, f, args, st, ins):
        self.m.body(f)
        caller = ins.fn
        live = cfg.live_after(caller, ins.blk, ins.idx) if ins.op == "call" else None
        if live is None:
            inf = cfg.analyse(caller)
            keep = set()
            for t in (ins.x[2], ins.x[3]):
                keep |= inf.live_in[t.idx]
                for p in t.phis:
                    v = p.x.get(ins.blk.idx)
                    if v and v[0] == "L":
                        keep.add(v)
            live = keep
        frame = ((caller.name, ins.name), {k: v for k, v in st.env.items() if k in live})
        octx = st.ctx
        st.stack = st.stack + (frame,)
        st.ctx = octx + ((ins.name, f.name),)
        cid = self.ctx_id(st.ctx)
        env = {}
        for (nm, _, _), a in zip(f.params, args):
            env[nm] = a
        st.env = env
        res = self.run_fn(f, st)
        out = []
        for kind, v, s in res:
            self.pop(s, cid, octx)
            out.append((kind, v, s))
        if len(out) > self.max_outs and self.joins:
            out = self.join_outs(out)
        return out

    def pop(self, s, cid, octx):
        fr = s.stack[-1]
        s.stack = s.stack[:-1]
        s.ctx = octx
        s.env = dict(fr[1])
        self.drop_ctx(s, cid)

    def drop_ctx(self, s, cid):
        def own(r):
            while r is not None and r[0] == "b":
                r = r[1]
            return r is not None and r[0] == "a" and r[1] == cid
        ks = [k for k in s.mem if own(k[0])]
        for k in ks:
            del s.mem[k]
        ks = [k for k in s.rgn if own(k)]
        for k in ks:
            del s.rgn[k]
        ks = [k for k in s.obj if own(k[0])]
        for k in ks:
            del s.obj[k]
        # ghosts about the contents of objects
        ks = [k for k in s.gh if type(k) is tuple and k[0] == "c" and own(k[1][0])]
        for k in ks:
            del s.gh[k]
        if s.memo and any(own(m[0]) for m in s.memo):
            s.memo = [m for m in s.memo if not own(m[0])]

    def join_outs(self, out):
        groups = {}
        for kind, v, s in out:
            s.env = dict(s.env)
            s.env[("ret",)] = v if v is not None else C(8, 0)
            if kind == "exc":
                s.gh["#x"] = v
            groups.setdefault((kind, self.key(s)), []).append((v, s))
        res = []
        for (kind, _), g in groups.items():
            if len(g) == 1:
                v, s = g[0]
            else:
                s = self.join([x[1] for x in g], None)
                v = s.env.get(("ret",), UNDEF) if g[0][0] is not None else None
                if kind == "exc":
                    v = g[0][0]
            s.env.pop(("ret",), None)
            s.gh.pop("#x", None)
            res.append((kind, v, s))
        return res

    # ------------------------------------------------------------ pure tables
    def pure_kind(self, f):
        """None, 'simple' or 'table' (pure int -> int with loops or tables)."""
        k = self.pure_memo.get(f.name, 0)
        if k != 0:
            return k
        self.pure_memo[f.name] = None
        k = self._pure(f)
        self.pure_memo[f.name] = k
        return k

    def _pure(self, f):
        self.m.body(f)
        if f.decl or f.retty.kind != "int" or not f.params:
            return None
        if any(t.kind != "int" for _, _, t in f.params):
            return None
        seen = set()
        heavy = [False]

        def walk(g):
            if g.name in seen:
                return True
            seen.add(g.name)
            if g is not f and self.bname(g) in LEAVES:
                return True
            self.m.body(g)
            if g.decl:
                # (the handlers of functions that nothing throws in)
                return g.name.startswith("llvm.") or g.name in ("__cxa_begin_catch", "_ZSt9terminatev")
            if cfg.analyse(g).loops:
                heavy[0] = True
            for b in g.blocks:
                for i in b.instrs:
                    vals = list(i.ops or ())
                    if i.op in ("call", "invoke"):
                        c = i.x[0]
                        if c[0] != "fn":
                            return False
                        if not walk(c[1]):
                            return False
                    for v in vals:
                        gv = v[1] if v[0] == "gv" else (v[1][1] if v[0] == "gep" and v[1][0] == "gv" else None)
                        if gv is not None:
                            if not gv.const:
                                return False
                            heavy[0] = True
                        if v[0] == "fn" and i.op not in ("call", "invoke"):
                            return False
            return True
        if not walk(f):
            return None
        return "table" if heavy[0] else "simple"

    def pure_call(self, st, ins, f, args):
        if self.pure_kind(f) != "table" and not (self.bname(f) in LEAVES and self.pure_kind(f)):
            return None
        ls = []
        for a in args:
            if not isinstance(a, IntV):
                return None
        states = [(st, [])]
        for a in args:
            states = [(s2, ls + [l]) for s, ls in states for s2, l in self.uns(s, a)]
        out = []
        for s, ls in states:
            ls = [s.lin(l) for l in ls]
            if all(not l.t for l in ls):
                out.append((s, C(ins.ty.w, self.const_eval(f, [l.c for l in ls]))))
                continue
            p = None
            if len(ls) == 1 and self.bname(f) not in LEAVES:
                p = self.pieces(s, ls[0], lambda x: self.const_eval(f, [x]))
            if p is not None:
                out.extend((s2, IntV(ins.ty.w, l)) for s2, l in p)
            else:
                d = derived(("app", self.bname(f)) + tuple(ls), 0, (1 << ins.ty.w) - 1, "fn")
                out.append((s, IntV(ins.ty.w, Lin.sym(d))))
        return out

    def pieces(self, st, l, f):
        """[(state, value)] of a function that is constant or a translation on
        each of a few parts of what l may be; None if it is not."""
        iv = img(st, l)
        if not iv or iv_count(iv) > 256:
            return None
        by = {}
        for x in iv_elems(iv):
            v = f(x)
            if v is None:
                return None
            by.setdefault(v, []).append(x)
        if len(by) > 3:
            sh = {}
            for v, xs in by.items():
                for x in xs:
                    sh.setdefault(v - x, []).append(x)
            by = sh
            if len(by) > 3:
                return None
            parts = [(xs, l + d) for d, xs in by.items()]
        else:
            parts = [(xs, K(v)) for v, xs in by.items()]
        out = []
        for xs, v in parts:
            for m, s in self.member_fork(st.copy(), l, iv_from(xs)):
                if m:
                    out.append((s, s.lin(v)))
        return out

    def const_eval(self, f, cs):
        k = (f.name,) + tuple(cs)
        v = self.const_memo.get(k)
        if v is None:
            e = self.sub_engine()
            st = St()
            self.m.body(f)
            rs = e.call_entry(f, st, [C(t.w, c) for (_, _, t), c in zip(f.params, cs)])
            v = None
            if len(rs) == 1 and rs[0][0] == "ret" and isinstance(rs[0][1], IntV):
                l = rs[0][2].lin(rs[0][1].l)
                if not l.t:
                    v = l.c & ((1 << f.retty.w) - 1)
            if v is None:
                raise Dead()
            self.const_memo[k] = v
        return v

    def sub_engine(self):
        e = type(self)(self.m, opaque=False)
        e.kinds = ()
        e.joins = False
        e.unroll_all = True
        return e

    # ------------------------------------------------------------ exceptions
    def ti_bases(self, ti):
        out = [ti]
        while True:
            g = self.m.globals.get(out[-1])
            nxt = STD_BASES.get(out[-1])
            if g is not None and not g.decl:
                init = self.m.init(g)
                if init and init[0] == "agg" and len(init[2]) >= 3 and init[2][2][0] == "gv":
                    nxt = init[2][2][1].name
            if nxt is None or nxt in out:
                return out
            out.append(nxt)

    def ti_id(self, name):
        i = self.typeids.get(name)
        if i is None:
            i = self.typeids[name] = len(self.typeids) + 1
        return i

    def i_landingpad(self, st, ins):
        e = st.gh.get("#exc")
        bases = self.ti_bases(e.ti) if isinstance(e, Exc) else []
        sel = 0
        for c in ins.ops:
            if c[0] == "null":
                sel = self.ti_id("*")
                break
            if c[0] == "gv" and c[1].name in bases:
                sel = self.ti_id(c[1].name)
                break
            if c[0] == "agg" or c[0] == "zero":     # filter: terminate
                continue
        return AggV([PtrV(("excobj",), ZERO), C(32, sel)])

    def landing_matches(self, ins_blk, e):
        """Does the landing pad at the start of this block stop e?"""
        lp = ins_blk.instrs[0]
        if lp.op != "landingpad":
            return True
        if lp.x:
            return True
        bases = self.ti_bases(e.ti) if isinstance(e, Exc) else []
        for c in lp.ops:
            if c[0] == "null":
                return True
            if c[0] == "gv" and c[1].name in bases:
                return True
        return False

    # ------------------------------------------------------------ objects
    def obj_key(self, st, p):
        if not isinstance(p, PtrV) or p.r is None:
            return None
        l = st.lin(p.l)
        if l.t:
            return None
        return (p.r, l.c)

    def get_str(self, st, p, ins):
        k = self.obj_key(st, p)
        o = st.obj.get(k) if k else None
        if o is None or o.kind != "str":
            self.check(st, False, "mem", ins, "string operation on an object that is not a live string")
            return None, None
        return k, o

    def get_vec(self, st, p, ins):
        k = self.obj_key(st, p)
        o = st.obj.get(k) if k else None
        if o is None or o.kind != "vec":
            self.check(st, False, "mem", ins, "vector operation on an object that is not a live vector")
            return None, None
        return k, o

    def new_str(self, st, p, es, ins):
        k = self.obj_key(st, p)
        if k is None:
            return None
        st.obj[k] = Obj("str", {"len": IntV(64, ZERO), "es": es})
        self.forget_buf(st, k)
        self.ev("newstr", st, ins, key=k)
        return k

    def forget_buf(self, st, k):
        r = ("b",) + k
        if any(m[0] == r for m in st.memo):
            st.memo = [m for m in st.memo if m[0] != r]

    def dangle(self, st, k):
        """The memory of a string or vector has been given up: what points
        into it must not be followed any more."""
        b = ("b",) + k
        d = ("dang",) + k

        def sub(v):
            if isinstance(v, PtrV):
                return PtrV(d, v.l) if v.r == b else v
            if isinstance(v, AggV):
                w = [sub(x) for x in v.v]
                return AggV(w) if any(x is not y for x, y in zip(w, v.v)) else v
            return v
        st.env = {n: sub(v) for n, v in st.env.items()}
        st.stack = tuple((f[0], {n: sub(v) for n, v in f[1].items()}) + tuple(f[2:]) for f in st.stack)
        for n, c in st.mem.items():
            w = sub(c[1])
            if w is not c[1]:
                st.mem[n] = (c[0], w)
        for n, o in list(st.obj.items()):
            up = {x: sub(v) for x, v in o.f.items() if sub(v) is not v}
            if up:
                st.obj[n] = Obj(o.kind, dict(o.f, **{}) | up)
        if any(isinstance(m[3], PtrV) and m[3].r == b for m in st.memo):
            st.memo = [m[:3] + (sub(m[3]),) for m in st.memo]

    def clobber(self, st, k):
        o = st.obj[k]
        n = new_sym("len", 0, MAXLEN)
        if o.kind == "vec":
            o = Obj("vec", {x: v for x, v in o.f.items() if not isinstance(x, tuple)})
            o = o.upd(**{"lost": 1})
        st.obj[k] = o.upd(len=IntV(64, Lin.sym(n)))
        self.forget_buf(st, k)
        self.ev("clobber", st, None, key=k)

    def str_append(self, st, ins, k, src):
        """src: ('range', r, l, n) | ('char', IntV) | ('fill', n, IntV)"""
        o = st.obj[k]
        n = src[3] if src[0] == "range" else src[1] if src[0] == "fill" else src[2] if src[0] == "enc" else K(1)
        self.ev("append", st, ins, key=k, src=src)
        o = st.obj[k]
        old = o.f["len"].l
        new = st.lin(old + n)
        if new.t and not st.assume_ge(K(MAXLEN) - new):
            raise Dead()
        st.obj[k] = o.upd(len=IntV(64, st.lin(new)))
        es = o.f["es"]
        r = ("b",) + k
        at = old.scale(es)
        st.memo = [m for m in st.memo if m[0] != r or st.entails_ge(st.lin(at - m[1] + -m[2]))]
        if src[0] == "char":
            st.memo.append((r, old.scale(es), es, src[1]))
        elif src[0] == "fill" and not st.lin(n).t and st.lin(n).c <= 16:
            for i in range(st.lin(n).c):
                st.memo.append((r, (old + i).scale(es), es, src[2]))
        elif src[0] == "range" and not st.lin(n).t and 0 <= st.lin(n).c <= 16:
            for i in range(st.lin(n).c):
                v = self.peek(st, src[1], src[2] + i * es, es)
                if v is not None:
                    st.memo.append((r, (old + i).scale(es), es, v))
        if not st.entails_eq(st.lin(n)):
            self.dangle(st, k)

    def peek(self, st, r, l, size):
        l = st.lin(l)
        if r is None:
            return None
        if r[0] == "g" and not l.t:
            v = self.global_bytes(r[1], l.c, size)
            return C(8 * size, v) if v is not None else None
        if self.is_cells(r):
            c = st.mem.get((r, l.c)) if not l.t else None
            return c[1] if c is not None and c[0] == size else None
        for rr, ml, sz, v in st.memo:
            if rr == r and sz == size and st.lin(ml) == l:
                return v
        return None

    def read_range(self, st, p, n, es, ins, what):
        """Bounds of reading n elements at p.  Returns src or None."""
        l = st.lin(n)
        if isinstance(p, PtrV) and p.r is None:
            if not l.t and l.c == 0:
                return ("range", None, ZERO, ZERO)
            self.check(st, st.entails_eq(l), "mem", ins, what + " from a null pointer")
            if not st.assume_eq(l):
                raise Dead()
            return ("range", None, ZERO, ZERO)
        if not isinstance(p, PtrV):
            if p is UNDEF:
                self.check(st, False, "uninit", ins, what + " from an uninitialised pointer")
            else:
                self.check(st, False, "mem", ins, what + " from an unknown pointer")
            return ("range", ("unknown",), ZERO, l)
        z = self.rgn_size(st, p.r)
        if z is None:
            self.check(st, False, "mem", ins, what + " from an object whose lifetime has ended")
        else:
            ok = st.entails_ge(p.l) and st.entails_ge(l) and st.entails_ge(z - p.l - l.scale(es))
            self.check(st, ok, "mem", ins, None if ok else "%s of %s element(s) at %s outside [0, %s) of %s" % (
                what, self.show(st, l), self.show(st, p.l), self.show(st, z), self.rname(p.r)))
            if not ok and not (st.assume_ge(p.l) and st.assume_ge(l) and st.assume_ge(z - p.l - l.scale(es))):
                raise Dead()
        return ("range", p.r, st.lin(p.l), st.lin(l))

    def strlen_of(self, st, p, ins):
        if isinstance(p, PtrV) and p.r is not None and p.r[0] == "g" and not p.l.t:
            cells = self.global_cells(p.r[1])
            i = p.l.c
            while True:
                c = cells.get(i)
                if c is None or c[1][0] != "ci":
                    break
                if c[1][2] == 0:
                    return K(i - p.l.c)
                i += 1
        self.note("strlen of a non-constant string", ins)
        return Lin.sym(new_sym("strlen", 0, MAXLEN))

    def fork_any(self, st, l):
        return self.fork_ge(st, l)

    def fresh(self, name, lo, hi):
        return Lin.sym(new_sym(name, lo, hi))

    def load_ref(self, st, p, ty, ins):
        r = self.load(st, p, ty, ins)
        if type(r) is list:
            return r
        return [(st, r)]

    def as_exact(self, st, v, signed=False):
        """[(st, Lin)]"""
        if isinstance(v, IntV):
            return self.norm(st, v, signed)
        return [(st, self.fresh("u", 0, (1 << 64) - 1))]


# ---------------------------------------------------------------- handlers
class _T:
    pass


# Pure functions of code points that are never looked into by the relational
# analysis, nor merged with their callers: T01 to T04 decide what they return.
LEAVES = {"ystring::" + x for x in """to_upper to_lower to_title get_char_class
is_alpha_numeric is_cased_letter is_control is_format is_graphical is_letter is_lower is_mark
is_number is_punctuation is_separator is_surrogate is_symbol is_upper is_visible""".split()}


def _ity(eng, w):
    for t in eng.m._ty.values():
        if t.kind == "int" and t.w == w:
            return t
    t = type(next(iter(eng.m._ty.values())))("int")
    t.w = w
    t.size = w // 8
    return t


def H_throw(eng, st, ins, fn, args):
    return [("exc", Exc(THROWS[eng.bname(fn)]), st)]


def H_llvm(eng, st, ins, fn, args):
    n = fn.name
    if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
        return eng.memcpy(st, ins, args[0], args[1], args[2])
    if n.startswith("llvm.memset"):
        return eng.memset(st, ins, args[0], args[1], args[2])
    if n.startswith("llvm.is.constant"):
        return C(1, 0)
    if n.startswith("llvm.eh.typeid.for"):
        a = ins.ops[0]
        return C(32, eng.ti_id(a[1].name if a[0] == "gv" else "*"))
    if n.startswith("llvm.lifetime"):
        p = args[-1]
        if isinstance(p, PtrV) and p.r is not None and p.r[0] == "a":
            # the object starts or ends its life: its contents are gone
            for k in [k for k in st.mem if k[0] == p.r]:
                del st.mem[k]
            for k in [k for k in st.obj if k[0] == p.r]:
                eng.forget_buf(st, k)
                del st.obj[k]
            if any(x[0] == p.r for x in st.memo):
                st.memo = [x for x in st.memo if x[0] != p.r]
        return VOID
    if n.startswith("llvm.dbg") or n.startswith("llvm.assume") \
            or n.startswith("llvm.experimental.noalias"):
        return VOID
    if n.startswith("llvm.trap"):
        eng.check(st, False, "trap", ins, "trap")
        return []
    if n.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
        signed = n[5] == "s"
        w = ins.ty.w
        out = []
        for s, a in eng.norm(st, args[0], signed):
            for s2, b in eng.norm(s, args[1], signed):
                for ge, s3 in eng.fork_ge(s2, a - b):
                    mx = n[6:9] == "max"
                    out.append((s3, IntV(w, a if ge == mx else b)))
        return out
    if n.startswith("llvm.abs"):
        out = []
        for s, a in eng.norm(st, args[0], True):
            for ge, s2 in eng.fork_ge(s, a):
                out.append((s2, IntV(ins.ty.w, a if ge else -a)))
        return out
    m = re.match(r"llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)", n)
    if m:
        w = int(m.group(3))
        out = []
        for s, a in eng.norm(st, args[0], m.group(1) == "s"):
            for s2, b in eng.norm(s, args[1], m.group(1) == "s"):
                a, b = s2.lin(a), s2.lin(b)
                if m.group(2) == "mul":
                    if a.t and b.t:
                        return AggV([eng.top_of(s2, _ity(eng, w)), eng.top_of(s2, _ity(eng, 1))])
                    r = b.scale(a.c) if not a.t else a.scale(b.c)
                else:
                    r = a + b if m.group(2) == "add" else a - b
                lo, hi = (0, (1 << w) - 1) if m.group(1) == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
                for ge, s3 in eng.fork_ge(s2, r + -lo):
                    if not ge:
                        out.append((s3, AggV([IntV(w, r), C(1, 1)])))
                        continue
                    for le, s4 in eng.fork_ge(s3, K(hi) - r):
                        out.append((s4, AggV([IntV(w, r), C(1, 0 if le else 1)])))
        return out
    m = re.match(r"llvm\.(ctlz|cttz|ctpop)\.i(\d+)", n)
    if m:
        w = int(m.group(2))
        l = st.lin(args[0].l) if isinstance(args[0], IntV) else None
        if l is not None and not l.t:
            x = l.c & ((1 << w) - 1)
            v = {"ctlz": w - x.bit_length(), "cttz": (x & -x).bit_length() - 1 if x else w,
                 "ctpop": bin(x).count("1")}[m.group(1)]
            return C(w, v)
        return IntV(w, eng.fresh("bits", 0, w))
    return None


def H_sink(eng, st, ins, fn, args):
    if fn.name == "sa_find":
        out = []
        l = args[1]
        for s, n in eng.uns(st, l):
            r = eng.ev("finder", s, ins, p=args[0], n=n)
            if r is None:
                from contracts import match
                r = []
                a = s.copy()
                o, ln, none = match(eng, s, "sa_find", args[0], ZERO, n, ())
                if a.assume_ge(a.lin(n - o - ln)) and a.assume_ge(a.lin(o)) and a.assume_ge(a.lin(ln) + -1):
                    eng.ev("found", a, ins, fname="sa_find", p=args[0], n=n, off=ZERO, key=(), o=o, ln=ln)
                    r.append((a, o, ln))
                if none is None or s.assume_eq(s.lin(none)):
                    eng.ev("found", s, ins, fname="sa_find", p=args[0], n=n, off=ZERO, key=(), o=None, ln=None)
                    r.append((s, eng.fresh("tok0", 0, (1 << 64) - 1), ZERO))
            for s2, o, ln in r:
                eng.store(s2, args[2], IntV(64, o), 8, ins)
                eng.store(s2, args[3], IntV(64, ln), 8, ins)
                out.append(("ret", None, s2))
        return out
    r = eng.ev("sink", st, ins, sink=fn.name, args=args)
    if r is not None:
        return r
    if fn.name == "sa_pred":
        out = []
        for s, l in eng.uns(st, args[0]):
            l = s.lin(l)
            d = derived(("app", "sa_pred", l), 0, 1, "pred")
            for v, s2 in eng.fork_ge(s, Lin.sym(d) + -1):
                out.append((s2, C(1, int(v))))
        return out
    return VOID


def H_ostream(eng, st, ins, fn, args):
    return args[0] if ins.ty.kind == "ptr" else VOID


def H_identity(eng, st, ins, fn, args):
    return args[0]


def H_void(eng, st, ins, fn, args):
    return VOID


def H_new(eng, st, ins, fn, args):
    r = ("heap", eng.ctx_id(st.ctx), ins.name)
    for s, n in eng.uns(st, args[0]):
        s.rgn[r] = n
        for k in [k for k in s.mem if k[0] == r]:
            del s.mem[k]
        return [(s, PtrV(r, ZERO))]


def H_delete(eng, st, ins, fn, args):
    return VOID


def H_strlen(eng, st, ins, fn, args):
    return IntV(64, eng.strlen_of(st, args[0], ins))


# exceptions
def H_alloc_exc(eng, st, ins, fn, args):
    r = ("exc", eng.ctx_id(st.ctx), ins.name)
    st.rgn[r] = K(256)
    return PtrV(r, ZERO)


def H_cxa_throw(eng, st, ins, fn, args):
    t = ins.ops[1]
    e = Exc(t[1].name if t[0] == "gv" else "?", ins.loc())
    eng.ev("throw", st, ins, exc=e)
    return [("exc", e, st)]


def H_begin_catch(eng, st, ins, fn, args):
    st.gh["#caught"] = st.gh.get("#caught", ()) + (st.gh.get("#exc"),)
    return PtrV(("excobj",), ZERO)


def H_end_catch(eng, st, ins, fn, args):
    c = st.gh.get("#caught", ())
    if c[:-1]:
        st.gh["#caught"] = c[:-1]
    else:
        st.gh.pop("#caught", None)
    return VOID


def H_rethrow(eng, st, ins, fn, args):
    c = st.gh.get("#caught", ())
    return [("exc", c[-1] if c else Exc("?"), st)]


def H_terminate(eng, st, ins, fn, args):
    eng.check(st, False, "terminate", ins, "std::terminate is reachable")
    return []


def H_exc_ctor(eng, st, ins, fn, args):
    return VOID


# memory
def H_memcpy(eng, st, ins, fn, args):
    r = eng.memcpy(st, ins, args[0], args[1], args[2])
    return _with(eng, st, r, args[0])


def _with(eng, st, r, v):
    if r is VOID:
        return v
    return [(k, v if k == "ret" else x, s) for k, x, s in r]


def H_traits_copy(eng, st, ins, fn, args):
    es = 4 if "char32_t" in fn.dem else 1
    n = args[2]
    n = IntV(64, n.l.scale(es)) if isinstance(n, IntV) else n
    return _with(eng, st, eng.memcpy(st, ins, args[0], args[1], n), args[0])


def H_memset(eng, st, ins, fn, args):
    r = eng.memset(st, ins, args[0], args[1], args[2])
    return _with(eng, st, r, args[0])


def H_memcmp(eng, st, ins, fn, args):
    out = []
    for s, n in eng.uns(st, args[2]):
        n = s.lin(n)
        if not n.t and n.c == 0:
            out.append((s, C(32, 0)))
            continue
        for z, s2 in eng.fork_eq(s, n):
            if z:
                out.append((s2, C(32, 0)))
                continue
            a = eng.read_range(s2, args[0], n, 1, ins, "comparison")
            b = eng.read_range(s2, args[1], n, 1, ins, "comparison")
            r = eng.ev("memcmp", s2, ins, a=a, b=b)
            if r is not None:
                out.extend(r)
                continue
            if not n.t and n.c <= 16 and any(isinstance(p, PtrV) and p.r is not None and p.r[0] == "g" for p in args[:2]):
                out.extend(short_cmp(eng, s2, ins, args[0], args[1], n.c))
                continue
            e = eqb(eng, s2, args[0], args[1], n)
            for eq, s3 in eng.fork_ge(s2, e + -1) if e is not None else ((True, s2.copy()), (False, s2)):
                if eq:
                    out.append((s3, C(32, 0)))
                else:
                    out.append((s3.copy(), IntV(32, eng.fresh("cmp", 1, (1 << 31) - 1))))
                    out.append((s3, IntV(32, eng.fresh("cmp", -(1 << 31), -1))))
    return out


def short_cmp(eng, st, ins, p, q, n):
    """A comparison with a short constant, byte by byte."""
    out, cur = [], [st]
    for i in range(n):
        nxt = []
        for s in cur:
            a = eng.load(s, PtrV(p.r, p.l + i), _ity(eng, 8), ins)
            for s1, a in a if type(a) is list else [(s, a)]:
                b = eng.load(s1, PtrV(q.r, q.l + i), _ity(eng, 8), ins)
                for s2, b in b if type(b) is list else [(s1, b)]:
                    if not isinstance(a, IntV) or not isinstance(b, IntV):
                        out.append((s2.copy(), IntV(32, eng.fresh("cmp", -(1 << 31), (1 << 31) - 1))))
                        nxt.append(s2)
                        continue
                    for s3, x in eng.uns(s2, a):
                        for s4, y in eng.uns(s3, b):
                            for eq, s5 in eng.fork_eq(s4, x - y):
                                if eq:
                                    nxt.append(s5)
                                    continue
                                for gt, s6 in eng.fork_ge(s5, x - y):
                                    out.append((s6, IntV(32, eng.fresh("cmp", 1, (1 << 31) - 1) if gt
                                                         else eng.fresh("cmp", -(1 << 31), -1))))
        cur = nxt
    return out + [(s, C(32, 0)) for s in cur]


def fixed_text(eng, *ps):
    """Whether the pointers are into inputs, which do not change."""
    return all(isinstance(p, PtrV) and p.r is not None and p.r[0] == "in" and p.r[1] not in eng.mutable for p in ps)


def eqb(eng, st, a, b, n):
    """1 if the n bytes at a and b are the same, 0 if not."""
    if not fixed_text(eng, a, b):
        return None
    x, y = sorted(((a.r, st.lin(a.l)), (b.r, st.lin(b.l))), key=lambda z: z[0])
    return Lin.sym(derived(("app", "eqb", x[0], x[1], y[0], y[1], st.lin(n)), 0, 1, "eqb"))


def first_in(eng, st, a, b, c, d):
    """The offset of the first occurrence of [c, d) in [a, b), b's when there is none."""
    if not fixed_text(eng, a, b, c, d):
        return None
    return Lin.sym(derived(("app", "srch", a.r, st.lin(a.l), st.lin(b.l), c.r, st.lin(c.l), st.lin(d.l)), 0, MAXLEN, "srch"))


def H_traits_length(eng, st, ins, fn, args):
    if "char32_t" in fn.dem:
        return None
    return IntV(64, eng.strlen_of(st, args[0], ins))


def _ptrs(st, *ps):
    return all(isinstance(p, PtrV) for p in ps)


def _range_between(eng, st, ins, a, b, what, es=1):
    """Checks that [a, b) is a readable range, returns its length in bytes."""
    if not _ptrs(st, a, b):
        eng.check(st, False, "mem", ins, what + " over an unknown range")
        return None
    if a.r != b.r:
        eng.check(st, False, "mem", ins, what + " over iterators of different objects")
        return None
    n = st.lin(b.l - a.l)
    if a.r is None:
        return n
    z = eng.rgn_size(st, a.r)
    if z is None:
        eng.check(st, False, "mem", ins, what + " over an object whose lifetime has ended")
        return n
    ok = st.entails_ge(a.l) and st.entails_ge(n) and st.entails_ge(z - b.l)
    eng.check(st, ok, "mem", ins, None if ok else "%s over [%s, %s) outside [0, %s) of %s" % (
        what, eng.show(st, a.l), eng.show(st, b.l), eng.show(st, z), eng.rname(a.r)))
    if not ok and not (st.assume_ge(a.l) and st.assume_ge(n) and st.assume_ge(z - b.l)):
        raise Dead()
    return st.lin(n)


def H_search(eng, st, ins, fn, args):
    if len(args) != 4:
        return None
    a, b, c, d = args
    n1 = _range_between(eng, st, ins, a, b, "std::search")
    n2 = _range_between(eng, st, ins, c, d, "std::search")
    if n1 is None or n2 is None:
        return None
    r = eng.ev("search", st, ins, a=a, b=b, c=c, d=d)
    if r is not None:
        return r
    out = []
    for z, s in eng.fork_eq(st, n2):
        if z:
            out.append((s, a))
            continue
        s1 = s.copy()
        p = first_in(eng, s, a, b, c, d)
        if p is None:
            p = a.l + eng.fresh("found", 0, MAXLEN)
        elif not s.assume_eq(p - b.l):
            s = None
        if s1.assume_ge(b.l - p - n2) and s1.assume_ge(p - a.l):
            out.append((s1, PtrV(a.r, s1.lin(p))))
        if s is not None:
            out.append((s, b))
    return out


def last_in(eng, st, a, b, c, d):
    """As first_in, for the last occurrence."""
    if not fixed_text(eng, a, b, c, d):
        return None
    return Lin.sym(derived(("app", "lsrch", a.r, st.lin(a.l), st.lin(b.l), c.r, st.lin(c.l), st.lin(d.l)), 0, MAXLEN, "lsrch"))


def H_find_end(eng, st, ins, fn, args):
    if len(args) != 4:
        return None
    a, b, c, d = args
    n1 = _range_between(eng, st, ins, a, b, "std::find_end")
    n2 = _range_between(eng, st, ins, c, d, "std::find_end")
    if n1 is None or n2 is None:
        return None
    return [(s, b if i is None else PtrV(a.r, i)) for s, i in occurrence(eng, st, a, b, c, d, n2, last_in, b.l)]


def occurrence(eng, st, a, b, c, d, n2, where, empty):
    """[(state, offset or None)] of an occurrence of [c, d) in [a, b)."""
    out = []
    for z, s in eng.fork_eq(st, n2):
        if z:
            out.append((s, s.lin(empty)))
            continue
        s1 = s.copy()
        p = where(eng, s, a, b, c, d)
        if p is None:
            p = a.l + eng.fresh("found", 0, MAXLEN)
        elif not s.assume_eq(p - b.l):
            s = None
        if s1.assume_ge(b.l - p - n2) and s1.assume_ge(p - a.l):
            out.append((s1, s1.lin(p)))
        if s is not None:
            out.append((s, None))
    return out


NPOS = (1 << 64) - 1


def H_string_view(eng, st, ins, fn, args):
    name = eng.bname(fn)[len("std::basic_string_view::"):]
    if name not in ("find", "rfind") or "char32_t" in fn.dem or len(args) != 4 \
            or [t.kind for t in ins.x[1]][1:] != ["ptr", "int", "int"]:
        return None
    this, c, pos, n2 = args
    if not _ptrs(st, this, c):
        return None
    out = []
    for s, n in eng.load_ref(st, this, _ity(eng, 64), ins):
        for s1, p in eng.load_ref(s, PtrV(this.r, this.l + 8), _pty(eng), ins):
            for s2, L in eng.as_exact(s1, n):
                for s3, kn in eng.uns(s2, n2):
                    for s4, o in eng.uns(s3, pos):
                        if not isinstance(p, PtrV):
                            return None
                        eng.read_range(s4, p, s4.lin(L), 1, ins, name)
                        eng.read_range(s4, c, s4.lin(kn), 1, ins, name)
                        d = PtrV(c.r, s4.lin(c.l + kn))
                        if name == "find":
                            for ge, s5 in eng.fork_ge(s4, L - o):
                                if not ge:
                                    out.append((s5, C(64, NPOS)))
                                    continue
                                a, b = PtrV(p.r, s5.lin(p.l + o)), PtrV(p.r, s5.lin(p.l + L))
                                out += [(s6, C(64, NPOS) if i is None else IntV(64, s6.lin(i - p.l)))
                                        for s6, i in occurrence(eng, s5, a, b, c, d, kn, first_in, a.l)]
                            continue
                        for ge, s5 in eng.fork_ge(s4, L - kn):
                            if not ge:
                                out.append((s5, C(64, NPOS)))
                                continue
                            for le, s6 in eng.fork_ge(s5, L - kn - o):
                                b = PtrV(p.r, s6.lin(p.l + kn + o if le else p.l + L))
                                out += [(s7, C(64, NPOS) if i is None else IntV(64, s7.lin(i - p.l)))
                                        for s7, i in occurrence(eng, s6, PtrV(p.r, s6.lin(p.l)), b, c, d, kn, last_in, b.l)]
    return out


def H_memchr(eng, st, ins, fn, args):
    if "char32_t" in fn.dem:
        return None
    p, c, n = args if "char_traits" not in fn.dem else (args[0], args[2], args[1])
    if not isinstance(p, PtrV):
        return None
    cs = [(st, c)]
    if isinstance(c, PtrV):
        cs = eng.load_ref(st, c, _ity(eng, 8), ins)
    out = []
    for s, c in cs:
        for s1, n_ in eng.uns(s, n):
            n_ = s1.lin(n_)
            eng.read_range(s1, p, n_, 1, ins, "memchr")
            l0 = s1.lin(p.l)
            if p.r is not None and p.r[0] == "g" and not l0.t and not n_.t and n_.c <= 32 and isinstance(c, IntV) \
                    and eng.m.globals[p.r[1]].const and not eng.m.globals[p.r[1]].decl:
                bs = [eng.global_bytes(p.r[1], l0.c + i, 1) for i in range(n_.c)]
                if None not in bs:
                    # a short constant: the place is told for each of its bytes
                    for s2, x in eng.uns(s1, IntV(8, c.l)):
                        for i, b in enumerate(bs):
                            nxt = None
                            for eq, s3 in eng.fork_eq(s2, x + -b):
                                if eq:
                                    out.append((s3, PtrV(p.r, K(l0.c + i))))
                                else:
                                    nxt = s3
                            s2 = nxt
                            if s2 is None:
                                break
                        if s2 is not None:
                            out.append((s2, NULL))
                    continue
            s2 = s1.copy()
            eng.ev("memchr", s2, ins, p=p, n=n_, c=c, found=None)
            out.append((s2, NULL))
            i = eng.fresh("found", 0, MAXLEN)
            if s1.assume_ge(n_ + -1 - i):
                q = PtrV(p.r, s1.lin(p.l + i))
                if isinstance(c, IntV) and not c.l.t:
                    v = eng.load(s1, q, _ity(eng, 8), ins)
                    for s2, v in v if type(v) is list else [(s1, v)]:
                        for s3, x in eng.uns(s2, v):
                            if s3.assume_eq(s3.lin(x) + -(c.l.c & 255)):
                                eng.ev("memchr", s3, ins, p=p, n=n_, c=c, found=i)
                                out.append((s3, q))
                else:
                    eng.ev("memchr", s1, ins, p=p, n=n_, c=c, found=i)
                    out.append((s1, q))
    return out


def H_reverse(eng, st, ins, fn, args):
    if len(args) != 2 or not _ptrs(st, *args) or args[0].r is None or args[0].r != args[1].r:
        return None
    a, b = args
    r = a.r
    n = _range_between(eng, st, ins, a, b, "std::reverse")
    if n is None:
        return None
    k = r[1:]
    o = st.obj.get(k)
    if r[0] == "b" and o is not None and o.kind == "vec":
        if not (st.entails_eq(st.lin(a.l)) and st.entails_eq(st.lin(n - o.f["len"].l.scale(o.f["es"])))):
            return None
        st.memo = [m for m in st.memo if m[0] != r]
        eng.ev("vecreverse", st, ins, key=k)
        return VOID
    es = {"char32_t*": 4, "char*": 1}.get(fn.dem[fn.dem.find("<") + 1:fn.dem.find(">")])
    l = st.lin(a.l)
    if es is None or l.t or not eng.is_cells(r) or (not n.t and n.c > 256):
        return None
    if n.t:
        eng.smear(st, r, l, es)
        return VOID
    vals = []
    for i in range(n.c // es):
        c = st.mem.get((r, l.c + i * es))
        if c is None or c[0] != es:
            eng.smear(st, r, l, es)
            return VOID
        vals.append(c[1])
    for i, v in enumerate(reversed(vals)):
        eng.write_cell(st, r, l.c + i * es, es, v)
    return VOID


def H_mismatch(eng, st, ins, fn, args):
    if len(args) not in (3, 4):
        return None
    a, b, c = args[:3]
    d = args[3] if len(args) == 4 else None
    n1 = _range_between(eng, st, ins, a, b, "std::mismatch")
    if d is None:
        if not _ptrs(st, c) or n1 is None:
            return None
        eng.read_range(st, c, n1, 1, ins, "std::mismatch")
        n2 = n1
    else:
        n2 = _range_between(eng, st, ins, c, d, "std::mismatch")
    if n1 is None or n2 is None:
        return None
    r = eng.ev("mismatch", st, ins, a=a, b=b, c=c, d=d, n1=n1, n2=n2)
    if r is not None:
        return r
    out = []
    for ge, s in eng.fork_ge(st, n1 - n2):
        # all of the shorter range matches
        k = n2 if ge else n1
        e = eqb(eng, s, a, c, k)
        s1 = s.copy()
        if e is None or s1.assume_eq(e + -1):
            out.append((s1, AggV([PtrV(a.r, a.l + k), PtrV(c.r, c.l + k)])))
        j = eng.fresh("mis", 0, MAXLEN)
        if (e is None or s.assume_eq(e)) and s.assume_ge(k + -1 - j):
            out.append((s, AggV([PtrV(a.r, a.l + j), PtrV(c.r, c.l + j)])))
    return out


def H_equal(eng, st, ins, fn, args):
    """A comparison from the end; others come down to memcmp."""
    if len(args) != 3 or fn.dem.count("std::reverse_iterator<char const*>") < 2 or not _ptrs(st, *args):
        return None
    out = []
    i = _pty(eng)
    for s0, a in eng.load_ref(st, args[0], i, ins):
        for s1, b in eng.load_ref(s0, args[1], i, ins):
            for s2, c in eng.load_ref(s1, args[2], i, ins):
                if not _ptrs(s2, a, b, c):
                    return None
                n = _range_between(eng, s2, ins, b, a, "std::equal")
                if n is None:
                    return None
                for z, s in eng.fork_eq(s2, n):
                    if z:
                        out.append((s, C(1, 1)))
                        continue
                    c0 = PtrV(c.r, s.lin(c.l - n))
                    eng.read_range(s, b, n, 1, ins, "std::equal")
                    eng.read_range(s, c0, n, 1, ins, "std::equal")
                    e = eqb(eng, s, b, c0, n)
                    for eq, s3 in eng.fork_ge(s, e + -1) if e is not None else ((True, s.copy()), (False, s)):
                        out.append((s3, C(1, int(eq))))
    return out


def H_copy(eng, st, ins, fn, args):
    if len(args) != 3 or not _ptrs(st, *args):
        return None
    a, b, d = args
    n = _range_between(eng, st, ins, a, b, "std::copy")
    if n is None:
        return None
    # the destination must not start inside the source (overlap from below)
    if d.r == a.r and d.r is not None:
        ok = st.entails_ge(a.l - d.l) or st.entails_ge(d.l - b.l) or st.entails_eq(n)
        eng.check(st, ok, "mem", ins, "std::copy to a destination inside the source range")
    z = eng.rgn_size(st, d.r)
    if z is not None:
        ok = st.entails_ge(d.l) and st.entails_ge(z - d.l - n)
        eng.check(st, ok, "mem", ins, None if ok else "std::copy of %s byte(s) to %s outside [0, %s) of %s" % (
            eng.show(st, n), eng.show(st, d.l), eng.show(st, z), eng.rname(d.r)))
        if not ok and not (st.assume_ge(d.l) and st.assume_ge(z - d.l - n)):
            raise Dead()
    eng.ev("copy", st, ins, src=("range", a.r, st.lin(a.l), n), dst=d)
    if eng.is_cells(d.r):
        eng.smear(st, d.r, d.l, 1)
    else:
        l = st.lin(d.l)
        keep = []
        for m in st.memo:
            if m[0] == d.r and not (st.entails_ge(m[1] - l - n) or st.entails_ge(l - m[1] + -m[2])):
                continue
            keep.append(m)
        st.memo = keep
    return PtrV(d.r, st.lin(d.l + n))


def H_from_chars(eng, st, ins, fn, args):
    if len(args) != 4:
        return None
    a, b, ref, base = args
    n = _range_between(eng, st, ins, a, b, "std::from_chars")
    if n is None:
        return None
    bl = st.lin(base.l)
    bs = bl.c if not bl.t else 36
    eng.check(st, not bl.t and 2 <= bs <= 36, "mem", ins, "std::from_chars with a base outside [2, 36]")
    m = re.search(r"from_chars<(.*?)>\(", fn.dem)
    ty = m.group(1) if m else "unsigned int"
    w = {"unsigned int": 32, "unsigned long": 64, "unsigned short": 16, "unsigned char": 8}.get(ty)
    if w is None:
        return None
    r = eng.ev("from_chars", st, ins, a=a, b=b, n=n, ref=ref, base=bs, w=w)
    if r is not None:
        return r
    out = []
    import math
    fit = int(math.floor(w / math.log2(bs)))        # digits that always fit
    while bs ** fit > 1 << w:
        fit -= 1
    from contracts import app, immutable
    named = immutable(eng, st, a.r)
    key = (a.r, st.lin(a.l), st.lin(n), bs, w)
    k = app("fcdigits", 0, MAXLEN, *key) if named else eng.fresh("digits", 0, MAXLEN)
    fits = app("fcfits", 0, 1, *key) if named else eng.fresh("fits", 0, 1)
    # no digits
    s = st.copy()
    if s.assume_eq(s.lin(k)):
        out.append((s, AggV([a, C(32, 22)])))
    # a value
    s = st.copy()
    if s.assume_ge(n - k) and s.assume_ge(k + -1) and s.assume_ge(fits + -1):
        k2 = s.lin(k)
        lo, hi = s.bounds_lp(k2)
        mx = (1 << w) - 1
        if hi <= fit:
            mx = min(mx, bs ** hi - 1)
        v = s.lin(app("fcvalue", 0, mx, *key) if named else eng.fresh("num", 0, mx))
        eng.store(s, ref, IntV(w, v), w // 8, ins)
        out.append((s, AggV([PtrV(a.r, s.lin(a.l + k2)), C(32, 0)])))
    # overflow
    s = st.copy()
    if s.assume_ge(n - k) and s.assume_ge(k + -(fit + 1)) and s.assume_eq(s.lin(fits)):
        out.append((s, AggV([PtrV(a.r, s.lin(a.l + k)), C(32, 34)])))
    return out


# ---------------------------------------------------------------- strings
def _es(fn):
    return 4 if "basic_string<char32_t" in fn.dem else 1


def forwards_to(m, g):
    """The function that g hands all its arguments to and whose result it returns, if it does nothing else."""
    m.body(g)
    if len(g.blocks) != 1:
        return None
    ins = [i for i in g.blocks[0].instrs if not (
        i.op == "call" and i.x[0][0] == "fn" and i.x[0][1].name.startswith(("llvm.dbg", "llvm.lifetime")))]
    calls = [i for i in ins if i.op == "call"]
    if len(calls) != 1 or calls[0].x[0][0] != "fn" or list(calls[0].ops) != [p[0] for p in g.params]:
        return None
    c, r = calls[0], ins[-1]
    if any(i.op not in ("call", "extractvalue", "insertvalue", "ret") for i in ins) or c.x[0][1].decl:
        return None
    if r.ops:
        # the same value, or put together again from its parts
        v, parts = r.ops[0], {}
        defs = {i.name: i for i in ins}
        while v in defs and defs[v].op == "insertvalue":
            i = defs[v]
            e = defs.get(i.ops[1])
            if e is None or e.op != "extractvalue" or e.ops[0] != c.name or list(e.x) != list(i.x):
                return None
            v = i.ops[0]
            parts[tuple(i.x)] = 1
        if v != c.name and not (parts and v[0] == "undef"):
            return None
    return c.x[0][1]


def _str_cut(eng, st, ins, k, ln, pos, n):
    """Removes n characters at pos."""
    if st.entails_eq(st.lin(n)):
        return
    if st.entails_eq(st.lin(ln - pos - n)):
        eng.ev("setlen", st, ins, key=k, n=st.lin(pos))
        st.obj[k] = st.obj[k].upd(len=IntV(64, st.lin(pos)))
        return
    if eng.hears("cut"):
        eng.ev("cut", st, ins, key=k, pos=st.lin(pos), n=st.lin(n))
        eng.forget_buf(st, k)
    else:
        eng.clobber(st, k)
    if k in st.obj:
        st.obj[k] = st.obj[k].upd(len=IntV(64, st.lin(ln - n)))


def _str_swap(eng, st, ins, a, b):
    """Exchanges two strings."""
    if a == b:
        return
    st.obj[a], st.obj[b] = st.obj[b], st.obj[a]
    to = {("b",) + a: ("b",) + b, ("b",) + b: ("b",) + a}
    st.memo = [(to.get(m[0], m[0]),) + m[1:] for m in st.memo]
    if eng.hears("swap"):
        eng.ev("swap", st, ins, a=a, b=b)
    else:
        for k in (a, b):
            ln = st.obj[k].f["len"]
            eng.clobber(st, k)
            st.obj[k] = st.obj[k].upd(len=ln)


def _str_replace(eng, st, ins, fn, k, a, T, es, this, pt):
    """Cuts characters out and inserts others there; None when it cannot be told."""
    buf = ("b",) + k
    i64 = T[0].kind == "int"
    out = []
    if es != 1:
        return None
    if i64:
        starts = []
        for s, pos in eng.uns(st, a[0]):
            ln = s.obj[k].f["len"].l
            for inside, s2 in eng.fork_ge(s, ln - pos):
                if not inside:
                    out.append(("exc", Exc("_ZTISt12out_of_range"), s2))
                    continue
                for s3, n in eng.uns(s2, a[1]):
                    for rest, s4 in eng.fork_ge(s3, n + pos - ln):
                        starts.append((s4, pos, s4.lin(ln - pos) if rest else n))
    else:
        p, q = a[0], a[1]
        if not (isinstance(p, PtrV) and isinstance(q, PtrV) and p.r == buf and q.r == buf):
            return None
        ln = st.obj[k].f["len"].l
        ok = st.entails_ge(p.l) and st.entails_ge(q.l - p.l) and st.entails_ge(ln - q.l)
        eng.check(st, ok, "mem", ins, "replacement of characters outside the string")
        starts = [(st, st.lin(p.l), st.lin(q.l - p.l))]
    for s, pos, n in starts:
        for x in a[2:]:
            if isinstance(x, PtrV) and (x.r == buf or eng.obj_key(s, x) == k):
                return None        # its own characters
        _str_cut(eng, s, ins, k, s.obj[k].f["len"].l, pos, n)
        rest = [IntV(64, s.lin(pos))] + list(a[2:])
        r = _str_insert(eng, s, ins, fn, k, rest, [_ity(eng, 64)] + T[2:], es, this, pt)
        out += r
    return out


def _slot(eng, st, p, es, ins):
    return eng.new_str(st, p, es, ins)


def H_string(eng, st, ins, fn, args):
    from interp import params_text
    b = eng.bname(fn)
    name = b[len("std::basic_string::"):]
    es = _es(fn)
    T = [t for t in ins.x[1]]
    this = args[0] if args else None
    last = name.rsplit("::", 1)[-1]
    if name.startswith("_Alloc_hider") or name.startswith("__sv_wrapper") or \
            name in ("_S_to_string_view",):
        return None if not name.startswith("_Alloc_hider") else VOID
    if "::" in name:
        return None
    pt = params_text(fn.dem)
    if name == "basic_string":
        return _str_ctor(eng, st, ins, fn, args, es, pt)
    if name == "~basic_string":
        k = eng.obj_key(st, this)
        if k in st.obj:
            del st.obj[k]
            eng.forget_buf(st, k)
        return VOID
    k, o = eng.get_str(st, this, ins)
    if k is None:
        return VOID if ins.ty.kind == "void" else eng.top_of(st, ins.ty)
    ln = o.f["len"].l
    buf = ("b",) + k
    if name in ("data", "c_str", "begin", "cbegin", "_M_data"):
        return PtrV(buf, ZERO)
    if name in ("end", "cend"):
        return PtrV(buf, st.lin(ln).scale(es))
    if name in ("size", "length"):
        return IntV(64, st.lin(ln))
    if name == "empty":
        return [(s, C(1, int(v))) for v, s in eng.fork_eq(st, ln)]
    if name in ("max_size",):
        return C(64, MAXLEN)
    if name == "capacity":
        c = eng.fresh("cap", 0, MAXLEN)
        if not st.assume_ge(c - ln):
            return []
        return IntV(64, c)
    if name in ("reserve", "shrink_to_fit"):
        eng.dangle(st, k)
        return VOID
    if name == "operator std::basic_string_view" or name.startswith("operator std"):
        return AggV([IntV(64, st.lin(ln)), PtrV(buf, ZERO)])
    if name in ("operator[]", "at"):
        out = []
        for s, i in eng.uns(st, args[1]):
            if name == "at":
                for ge, s2 in eng.fork_ge(s, ln + -1 - i):
                    if ge:
                        out.append((s2, PtrV(buf, i.scale(es))))
                    else:
                        out.append(("exc", Exc("_ZTISt12out_of_range"), s2))
                continue
            ok = s.entails_ge(ln - i)
            eng.check(s, ok, "mem", ins, "string index %s beyond size %s" % (eng.show(s, i), eng.show(s, ln)))
            out.append((s, PtrV(buf, s.lin(i).scale(es))))
        return out
    if name in ("back", "front"):
        ok = st.entails_ge(ln + -1)
        eng.check(st, ok, "mem", ins, name + "() of a string that may be empty")
        return PtrV(buf, (ln + -1).scale(es) if name == "back" else ZERO)
    if name == "clear":
        eng.ev("setlen", st, ins, key=k, n=ZERO)
        st.obj[k] = st.obj[k].upd(len=IntV(64, ZERO))
        eng.forget_buf(st, k)
        return VOID
    if name == "pop_back":
        eng.check(st, st.entails_ge(ln + -1), "mem", ins, "pop_back() of a string that may be empty")
        eng.ev("setlen", st, ins, key=k, n=ln + -1)
        st.obj[k] = st.obj[k].upd(len=IntV(64, st.lin(ln + -1)))
        return VOID
    if name == "push_back":
        eng.str_append(st, ins, k, ("char", args[1]))
        return VOID
    if name in ("append", "operator+=", "_M_append"):
        return _str_append(eng, st, ins, fn, k, args[1:], T[1:], es, this, pt)
    if name == "insert":
        return _str_insert(eng, st, ins, fn, k, args[1:], T[1:], es, this, pt)
    if name in ("operator=", "assign"):
        a = args[1:]
        if len(a) == 1 and isinstance(a[0], IntV) and a[0].w == 8 * es:
            eng.new_str(st, this, es, ins)
            eng.str_append(st, ins, k, ("char", a[0]))
            return this
        if len(a) == 1 and "&&" in pt:
            return _with(eng, st, _str_move(eng, st, ins, this, a[0], es), this)
        if len(a) == 1 and eng.obj_key(st, a[0]) == k:
            return this
        # copy the old object aside when it is the source
        eng.new_str(st, this, es, ins)
        return _str_append(eng, st, ins, fn, k, a, T[1:], es, this, pt)
    if name == "resize":
        out = []
        for s, n in eng.uns(st, args[1]):
            for ge, s2 in eng.fork_ge(s, ln - n):
                if ge:
                    eng.ev("setlen", s2, ins, key=k, n=n)
                    s2.obj[k] = s2.obj[k].upd(len=IntV(64, s2.lin(n)))
                    out.append(("ret", None, s2))
                else:
                    if not s2.assume_ge(K(MAXLEN) - n):
                        continue
                    v = args[2] if len(args) > 2 else C(8 * es, 0)
                    eng.str_append(s2, ins, k, ("fill", s2.lin(n - ln), v))
                    out.append(("ret", None, s2))
        return out
    if name == "erase":
        a = args[1:]
        out = []
        if a and isinstance(a[0], PtrV):
            p = a[0]
            q = a[1] if len(a) > 1 else PtrV(p.r, p.l + es)
            if p.r != buf or not isinstance(q, PtrV) or q.r != buf:
                return None
            ok = st.entails_ge(p.l) and st.entails_ge(q.l - p.l) and st.entails_ge(ln.scale(es) - q.l)
            eng.check(st, ok, "mem", ins, "erase of characters outside the string")
            if es == 1:
                _str_cut(eng, st, ins, k, ln, p.l, st.lin(q.l - p.l))
            else:
                eng.clobber(st, k)
            return PtrV(buf, st.lin(p.l))
        for s, pos in eng.uns(st, a[0]) if a else [(st, ZERO)]:
            for inside, s2 in eng.fork_ge(s, ln - pos):
                if not inside:
                    out.append(("exc", Exc("_ZTISt12out_of_range"), s2))
                    continue
                for s3, n in eng.uns(s2, a[1]) if len(a) > 1 else [(s2, ln)]:
                    for rest, s4 in eng.fork_ge(s3, n + pos - ln):
                        _str_cut(eng, s4, ins, k, ln, pos, s4.lin(ln - pos) if rest else n)
                        out.append((s4, this))
        return out
    if name == "substr":
        return None
    if name == "swap":
        k2 = eng.obj_key(st, args[1])
        if k2 not in st.obj or st.obj[k2].kind != "str":
            return None
        _str_swap(eng, st, ins, k, k2)
        return VOID
    if name == "replace":
        r = _str_replace(eng, st, ins, fn, k, args[1:], T[1:], es, this, pt)
        if r is not None:
            return r
    if name == "compare":
        return None
    eng.note("unmodelled string function " + fn.dem, ins)
    eng.clobber(st, k)
    return VOID if ins.ty.kind == "void" else (this if ins.ty.kind == "ptr" else eng.top_of(st, ins.ty))


def _str_move(eng, st, ins, dst, src, es):
    ks, os = eng.get_str(st, src, ins)
    kd = eng.obj_key(st, dst)
    if ks is None or kd is None:
        if kd is not None:
            eng.new_str(st, dst, es, ins)
            eng.clobber(st, kd)
        return VOID
    if ks == kd:
        return VOID
    st.obj[kd] = os
    rb = ("b",) + ks
    rd = ("b",) + kd
    memo = []
    for m in st.memo:
        if m[0] == rd:
            continue
        if m[0] == rb:
            memo.append((rd,) + m[1:])
        else:
            memo.append(m)
    st.memo = memo
    st.obj[ks] = Obj("str", {"len": IntV(64, ZERO), "es": es})
    eng.ev("move", st, ins, src=ks, dst=kd)
    eng.ev("newstr", st, ins, key=ks)
    return VOID


def _str_ctor(eng, st, ins, fn, args, es, pt):
    this = args[0]
    a = args[1:]
    T = ins.x[1][1:]
    # drop a trailing allocator reference
    if pt.endswith("const&") and "allocator" in pt.rsplit(",", 1)[-1] + "," and a and isinstance(a[-1], (PtrV, type(UNDEF), Top)):
        m = re.search(r"std::allocator<[^<>]*> const&$", pt)
        if m:
            a = a[:-1]
            T = T[:-1]
            pt = pt[:m.start()].rstrip(", ")
    if not a:
        eng.new_str(st, this, es, ins)
        return VOID
    if len(a) == 1 and "&&" in pt:
        ks = eng.obj_key(st, a[0])
        if ks in st.obj:
            k = eng.new_str(st, this, es, ins)
            return _str_move(eng, st, ins, this, a[0], es)
    k = eng.new_str(st, this, es, ins)
    if k is None:
        return VOID
    r = _str_append(eng, st, ins, fn, k, a, T, es, this, pt)
    if type(r) is list:
        return [(kd, None, s) for kd, _, s in eng.wrap(st, r)]
    return VOID


def _str_append(eng, st, ins, fn, k, a, T, es, this, pt):
    """Appends described by the remaining arguments."""
    kinds = [t.kind for t in T]

    def one(p, n, s):
        src = eng.read_range(s, p, n, es, ins, "string append")
        eng.str_append(s, ins, k, src)
        return ("ret", this, s)
    if len(a) == 1 and kinds == ["int"]:
        eng.str_append(st, ins, k, ("char", a[0]))
        return this
    if len(a) == 1 and kinds == ["ptr"]:
        ko = eng.obj_key(st, a[0])
        if ko in st.obj and st.obj[ko].kind == "str":
            o2 = st.obj[ko]
            src = ("range", ("b",) + ko, ZERO, st.lin(o2.f["len"].l))
            eng.ev("readstr", st, ins, key=ko)
            eng.str_append(st, ins, k, src)
            return this
        if "basic_string_view" in pt:
            out = []
            i64 = _ity(eng, 64)
            for s, n in eng.load_ref(st, a[0], i64, ins):
                for s2, p in eng.load_ref(s, PtrV(a[0].r, a[0].l + 8), _pty(eng), ins):
                    for s3, nn in eng.as_exact(s2, n):
                        out.append(one(p, nn, s3))
            return out
        # C string
        n = eng.strlen_of(st, a[0], ins)
        return [one(a[0], n, st)]
    if len(a) == 2 and kinds == ["int", "ptr"]:        # string_view by value
        return [one(a[1], n, s) for s, n in eng.uns(st, a[0])]
    if len(a) == 2 and kinds == ["ptr", "int"]:
        ko = eng.obj_key(st, a[0])
        if not (ko in st.obj and st.obj[ko].kind == "str" and "basic_string<" in pt.split(",")[0]):
            return [one(a[0], n, s) for s, n in eng.uns(st, a[1])]
    if len(a) == 2 and kinds == ["ptr", "ptr"]:
        n = _range_between(eng, st, ins, a[0], a[1], "string append")
        if n is not None:
            d, rest = eng._split_div(n, es.bit_length() - 1)
            if not rest.t and not rest.c:
                return [one(a[0], d, st)]
    if len(a) == 2 and kinds == ["int", "int"]:
        out = []
        for s, n in eng.uns(st, a[0]):
            if not s.assume_ge(K(MAXLEN) - n):
                continue
            eng.str_append(s, ins, k, ("fill", s.lin(n), a[1]))
            out.append(("ret", this, s))
        return out
    if len(a) in (2, 3) and kinds[0] == "ptr":
        ko = eng.obj_key(st, a[0])
        if ko in st.obj and st.obj[ko].kind == "str":
            # (const string& s, pos, n)
            o2 = st.obj[ko]
            out = []
            for s, pos in eng.uns(st, a[1]):
                L = o2.f["len"].l
                for ge, s2 in eng.fork_ge(s, L - pos):
                    if not ge:
                        out.append(("exc", Exc("_ZTISt12out_of_range"), s2))
                        continue
                    for s3, n in (eng.uns(s2, a[2]) if len(a) > 2 else [(s2, L - pos)]):
                        for le, s4 in eng.fork_ge(s3, L - pos - n):
                            m = n if le else L - pos
                            eng.ev("readstr", s4, ins, key=ko)
                            eng.str_append(s4, ins, k, ("range", ("b",) + ko, s4.lin(pos).scale(es), s4.lin(m)))
                            out.append(("ret", this, s4))
            return out
    if len(a) in (2, 3) and kinds[0] == "ptr" and "basic_string_view" in pt.split(",")[0] and es == 1:
        # (string_view const& s, pos, n)
        out = []
        for s, n in eng.load_ref(st, a[0], _ity(eng, 64), ins):
            for s1, p in eng.load_ref(s, PtrV(a[0].r, a[0].l + 8), _pty(eng), ins):
                for s2, L in eng.as_exact(s1, n):
                    for s3, pos in eng.uns(s2, a[1]):
                        for ge, s4 in eng.fork_ge(s3, L - pos):
                            if not ge:
                                out.append(("exc", Exc("_ZTISt12out_of_range"), s4))
                                continue
                            for s5, m in (eng.uns(s4, a[2]) if len(a) > 2 else [(s4, L - pos)]):
                                for le, s6 in eng.fork_ge(s5, L - pos - m):
                                    out.append(one(PtrV(p.r, s6.lin(p.l + pos)), s6.lin(m if le else L - pos), s6))
        return out
    eng.note("unmodelled string append " + fn.dem, ins)
    eng.clobber(st, k)
    return this


def _pty(eng):
    for t in eng.m._ty.values():
        if t.kind == "ptr":
            return t


def _str_insert(eng, st, ins, fn, k, a, T, es, this, pt):
    kinds = [t.kind for t in T]
    o = st.obj[k]
    ln = o.f["len"].l
    buf = ("b",) + k
    out = []

    def put(s, pos, src):
        n = src[3] if src[0] == "range" else src[1] if src[0] == "fill" else src[2] if src[0] == "enc" else K(1)
        # at the end: an append
        if s.entails_eq(pos - ln):
            eng.str_append(s, ins, k, src)
            return
        eng.ev("insert", s, ins, key=k, pos=s.lin(pos), src=src)
        new = s.lin(ln + n)
        if new.t and not s.assume_ge(K(MAXLEN) - new):
            raise Dead()
        s.obj[k] = s.obj[k].upd(len=IntV(64, s.lin(new)))
        eng.forget_buf(s, k)
        eng.dangle(s, k)
    if kinds[0] == "ptr":
        p = a[0]
        if not isinstance(p, PtrV) or p.r != buf:
            eng.check(st, False, "mem", ins, "insert at an iterator of another object")
            eng.clobber(st, k)
            return PtrV(buf, eng.fresh("i", 0, MAXLEN))
        pos, rest = eng._split_div(st.lin(p.l), es.bit_length() - 1)
        eng.check(st, st.entails_ge(pos) and st.entails_ge(ln - pos), "mem", ins, "insert position outside the string")
        res = PtrV(buf, p.l)
        starts = [(st, pos)]
        rest_a, rest_k = a[1:], kinds[1:]
    else:
        starts = []
        for s, pos in eng.uns(st, a[0]):
            for ge, s2 in eng.fork_ge(s, ln - pos):
                if ge:
                    starts.append((s2, pos))
                else:
                    out.append(("exc", Exc("_ZTISt12out_of_range"), s2))
        res = this
        rest_a, rest_k = a[1:], kinds[1:]
    for s, pos in starts:
        if rest_k == ["ptr", "ptr"]:
            n = _range_between(eng, s, ins, rest_a[0], rest_a[1], "string insert")
            if n is not None and es == 1:
                src = eng.read_range(s, rest_a[0], n, es, ins, "string insert")
                put(s, pos, src)
                out.append(("ret", res, s))
                continue
        elif rest_k == ["ptr"]:
            ko = eng.obj_key(s, rest_a[0])
            if ko in s.obj and s.obj[ko].kind == "str":
                eng.ev("readstr", s, ins, key=ko)
                put(s, pos, ("range", ("b",) + ko, ZERO, s.lin(s.obj[ko].f["len"].l)))
                out.append(("ret", res, s))
                continue
            if "basic_string_view" in pt:
                for s1, n in eng.load_ref(s, rest_a[0], _ity(eng, 64), ins):
                    for s2, p in eng.load_ref(s1, PtrV(rest_a[0].r, rest_a[0].l + 8), _pty(eng), ins):
                        for s3, nn in eng.as_exact(s2, n):
                            put(s3, pos, eng.read_range(s3, p, nn, es, ins, "string insert"))
                            out.append(("ret", res, s3))
                continue
            n = eng.strlen_of(s, rest_a[0], ins)
            put(s, pos, eng.read_range(s, rest_a[0], n, es, ins, "string insert"))
            out.append(("ret", res, s))
            continue
        elif rest_k == ["ptr", "int"]:
            for s2, n in eng.uns(s, rest_a[1]):
                put(s2, pos, eng.read_range(s2, rest_a[0], n, es, ins, "string insert"))
                out.append(("ret", res, s2))
            continue
        elif rest_k == ["int", "int"]:
            for s2, n in eng.uns(s, rest_a[0]):
                put(s2, pos, ("fill", n, rest_a[1]))
                out.append(("ret", res, s2))
            continue
        elif rest_k == ["int"]:
            put(s, pos, ("char", rest_a[0]))
            out.append(("ret", res, s))
            continue
        elif rest_k == ["int", "ptr"]:
            for s2, n in eng.uns(s, rest_a[0]):
                put(s2, pos, eng.read_range(s2, rest_a[1], n, es, ins, "string insert"))
                out.append(("ret", res, s2))
            continue
        eng.note("unmodelled string insert " + fn.dem, ins)
        eng.clobber(s, k)
        out.append(("ret", res, s))
    return out


def H_strplus(eng, st, ins, fn, args):
    """operator+ : result through the first (sret) argument."""
    this = args[0]
    k = eng.new_str(st, this, _es(fn), ins)
    if k is None:
        return VOID
    for a in args[1:]:
        ko = eng.obj_key(st, a) if isinstance(a, PtrV) else None
        if ko in st.obj:
            eng.ev("readstr", st, ins, key=ko)
            eng.str_append(st, ins, k, ("range", ("b",) + ko, ZERO, st.lin(st.obj[ko].f["len"].l)))
        elif isinstance(a, PtrV):
            n = eng.strlen_of(st, a, ins)
            eng.str_append(st, ins, k, eng.read_range(st, a, n, 1, ins, "operator+"))
        elif isinstance(a, IntV):
            eng.str_append(st, ins, k, ("char", a))
        else:
            eng.clobber(st, k)
    return VOID


def H_to_string(eng, st, ins, fn, args):
    k = eng.new_str(st, args[0], 1, ins)
    if k is not None:
        n = eng.fresh("digits", 1, 20)
        st.obj[k] = st.obj[k].upd(len=IntV(64, n))
        eng.ev("clobber", st, ins, key=k)
    return VOID


def H_back_assign(eng, st, ins, fn, args):
    """back_insert_iterator<Container>::operator=(ref)"""
    if "basic_string<" not in fn.dem.split("::operator=")[0]:
        return None
    es = _es(fn)
    it = args[0]
    out = []
    for s, p in eng.load_ref(st, it, _pty(eng), ins):
        k, o = eng.get_str(s, p, ins)
        if k is None:
            return it
        for s2, v in eng.load_ref(s, args[1], _ity(eng, 8 * es), ins):
            eng.str_append(s2, ins, k, ("char", v))
            out.append((s2, it))
    return out


# ---------------------------------------------------------------- vectors
_SIZES = {"ystring::Subrange": 16, "std::basic_string_view<": 16,
          "std::pair<char32_t, char32_t>": 8, "unsigned long": 8, "char32_t": 4,
          "unsigned int": 4, "int": 4, "char": 1, "long": 8,
          "std::pair<ystring::Subrange, char32_t>": 24,
          "std::pair<unsigned long, unsigned long>": 16}


def _vec_es(eng, fn, ins):
    m = re.search(r"std::vector<(.*)", fn.dem)
    t = m.group(1) if m else ""
    best = None
    for k, v in _SIZES.items():
        if t.startswith(k) and (best is None or len(k) > len(best[0])):
            best = (k, v)
    if best:
        return best[1]
    eng.note("vector of an unknown element type " + fn.dem, ins)
    return 1


def H_vector(eng, st, ins, fn, args):
    b = eng.bname(fn)
    name = b[len("std::vector::"):]
    es = _vec_es(eng, fn, ins)
    this = args[0]
    if name == "vector" or name == "operator=":
        k = eng.obj_key(st, this)
        if k is None:
            return VOID if name == "vector" else None
        if name == "operator=":
            if k == eng.obj_key(st, args[1]):
                return this
            if eng.obj_key(st, args[1]) not in st.obj:
                eng.note("unmodelled vector function " + fn.dem, ins)
                eng.clobber(st, k)
                return this
            eng.dangle(st, k)
        if len(args) == 1:
            st.obj[k] = Obj("vec", {"len": IntV(64, ZERO), "es": es})
            eng.forget_buf(st, k)
            eng.ev("newvec", st, ins, key=k)
            return VOID
        ko = eng.obj_key(st, args[1])
        if ko in st.obj and st.obj[ko].kind == "vec":
            st.obj[k] = st.obj[ko]
            rb, rd = ("b",) + ko, ("b",) + k
            st.memo = [m for m in st.memo if m[0] != rd] + \
                      [(rd,) + m[1:] for m in st.memo if m[0] == rb]
            if "&&" in fn.dem.rsplit("(", 1)[-1]:
                st.obj[ko] = Obj("vec", {"len": IntV(64, ZERO), "es": es})
                eng.forget_buf(st, ko)
            eng.ev("vecmove", st, ins, src=ko, dst=k)
            return VOID if name == "vector" else this
        eng.note("unmodelled vector constructor " + fn.dem, ins)
        st.obj[k] = Obj("vec", {"len": IntV(64, eng.fresh("vlen", 0, MAXLEN)), "es": es})
        eng.ev("newvec", st, ins, key=k)
        return VOID
    if name == "~vector":
        k = eng.obj_key(st, this)
        if k in st.obj:
            del st.obj[k]
            eng.forget_buf(st, k)
        return VOID
    if name.startswith("_") or name in ("rbegin", "rend", "crbegin", "crend"):
        return None
    k, o = eng.get_vec(st, this, ins)
    if k is None:
        return VOID if ins.ty.kind == "void" else eng.top_of(st, ins.ty)
    ln = st.lin(o.f["len"].l)
    buf = ("b",) + k
    if name in ("begin", "cbegin", "data"):
        return PtrV(buf, ZERO)
    if name in ("end", "cend"):
        return PtrV(buf, ln.scale(es))
    if name == "size":
        return IntV(64, ln)
    if name == "empty":
        return [(s, C(1, int(v))) for v, s in eng.fork_eq(st, ln)]
    if name in ("reserve", "shrink_to_fit"):
        eng.dangle(st, k)
        return VOID
    if name in ("max_size", "capacity"):
        return C(64, MAXLEN)
    if name in ("back", "front"):
        eng.check(st, st.entails_ge(ln + -1), "mem", ins, name + "() of a vector that may be empty")
        return PtrV(buf, (ln + -1).scale(es) if name == "back" else ZERO)
    if name in ("operator[]", "at"):
        out = []
        for s, i in eng.uns(st, args[1]):
            if name == "operator[]":
                ok = s.entails_ge(ln + -1 - i)
                eng.check(s, ok, "mem", ins, "vector index %s beyond size %s" % (eng.show(s, i), eng.show(s, ln)))
                out.append((s, PtrV(buf, s.lin(i).scale(es))))
            else:
                for ge, s2 in eng.fork_ge(s, ln + -1 - i):
                    out.append((s2, PtrV(buf, s2.lin(i).scale(es))) if ge else
                               ("exc", Exc("_ZTISt12out_of_range"), s2))
        return out
    if name == "clear":
        st.obj[k] = Obj("vec", {"len": IntV(64, ZERO), "es": es})
        eng.forget_buf(st, k)
        eng.ev("newvec", st, ins, key=k)
        return VOID
    if name == "pop_back":
        eng.check(st, st.entails_ge(ln + -1), "mem", ins, "pop_back() of a vector that may be empty")
        st.obj[k] = o.upd(len=IntV(64, st.lin(ln + -1)))
        end = (ln + -1).scale(es)
        st.memo = [m for m in st.memo if m[0] != buf or st.entails_ge(st.lin(end - m[1] + -m[2]))]
        eng.ev("vecpop", st, ins, key=k)
        return VOID
    if name in ("push_back", "emplace_back"):
        return _vec_add(eng, st, ins, fn, name, k, o, es, ln, args)
    eng.note("unmodelled vector function " + fn.dem, ins)
    eng.clobber(st, k)
    return VOID if ins.ty.kind == "void" else eng.top_of(st, ins.ty)


def _vec_add(eng, st, ins, fn, name, k, o, es, ln, args):
    buf = ("b",) + k
    tmp = ("a", eng.ctx_id(st.ctx), ("tmp", ins.fn.name, ins.name))
    st.rgn[tmp] = K(es)
    states = []
    ctor = None
    if name == "emplace_back":
        eng.m.body(fn)
        for b in fn.blocks:
            for i in b.instrs:
                if i.op in ("call", "invoke") and i.x[0][0] == "fn" and \
                        eng.bname(i.x[0][1]) == "std::construct_at":
                    ctor = i.x[0][1]
                if ctor is None and i.op in ("call", "invoke") and i.x[0][0] == "fn" and \
                        eng.bname(i.x[0][1]).endswith("::construct"):
                    ctor = i.x[0][1]
    if ctor is not None:
        alloc = [] if eng.bname(ctor) == "std::construct_at" else [args[0]]
        for kd, v, s in eng.inline(ctor, alloc + [PtrV(tmp, ZERO)] + args[1:], st, ins):
            if kd == "ret":
                states.append(s)
    else:
        src = args[1]
        if isinstance(src, PtrV) and src.r is not None and (eng.is_cells(src.r) or src.r[0] == "g") and not src.l.t:
            eng.copy_cells(st, tmp, 0, src.r, src.l.c, es, ins)
        else:
            eng.note("vector element from an unknown place", ins)
        states.append(st)
    out = []
    for s in states:
        el = {}
        for (r, off), c in list(s.mem.items()):
            if r == tmp:
                el[off] = c
                del s.mem[(r, off)]
        s.rgn.pop(tmp, None)
        eng.ev("vecadd", s, ins, key=k, idx=ln, elem=el)
        o2 = s.obj[k]
        base = s.lin(ln).scale(es)
        for off, (sz, v) in sorted(el.items()):
            if v is not UNDEF:
                s.memo.append((buf, base + off, sz, v))
        new = s.lin(ln + 1)
        if new.t and not s.assume_ge(K(MAXLEN) - new):
            continue
        s.obj[k] = o2.upd(len=IntV(64, s.lin(new)))
        eng.dangle(s, k)
        s = _summarise(eng, s, k, s.lin(ln), el)
        out.append(("ret", PtrV(buf, base) if ins.ty.kind == "ptr" else None, s))
    return out


def _summarise(eng, st, k, ln, el):
    """Every element of the vector satisfies what is known of the fields
    ("elem", offset): joins the new element into that knowledge."""
    o = st.obj[k]
    if o.f.get("lost"):
        return st
    el = {("elem", off): v for off, (sz, v) in el.items() if isinstance(v, (IntV, PtrV))}
    old = {n: v for n, v in o.f.items() if isinstance(n, tuple)}
    rest = {n: v for n, v in o.f.items() if not isinstance(n, tuple)}
    if not ln.t and ln.c == 0:
        rest.update(el)
        st.obj[k] = Obj("vec", rest)
        return st
    names = [n for n in old if n in el and disc(old[n]) == disc(el[n])]
    if not names:
        if not old:
            rest["lost"] = 1
        st.obj[k] = Obj("vec", rest)
        return st
    a, b = st.copy(), st.copy()
    a.obj[k] = Obj("vec", dict(rest, **{}) | {n: old[n] for n in names})
    b.obj[k] = Obj("vec", dict(rest, **{}) | {n: el[n] for n in names})
    return eng.join([a, b], None)


def vec_again(eng, st, r, l, ins):
    """An element of which the fields have names already is read again."""
    o = st.obj.get(r[1:])
    if o is None or o.kind != "vec" or not eng.hears("vecload"):
        return
    es = o.f["es"]
    l = st.lin(l)
    if any(c % es for c in l.t.values()):
        return
    base = l + -(l.c % es)
    got = {}
    for rr, ml, sz, v in st.memo:
        if rr == r:
            d = st.lin(ml - base)
            if not d.t and 0 <= d.c < es:
                got[d.c] = v
    if got and len(got) == len([n for n in o.f if isinstance(n, tuple)]):
        eng.ev("vecload", st, ins, key=r[1:],
               idx=Lin(base.c // es, {q: c // es for q, c in base.t.items()}), elem=got)


def vec_element(eng, st, r, l, ty, ins):
    """Reads a field of some element of a vector."""
    k = r[1:]
    o = st.obj.get(k)
    if o is None or o.kind != "vec":
        return None
    es = o.f["es"]
    if any(c % es for c in l.t.values()):
        return None
    f = l.c % es
    if ("elem", f) not in o.f:
        return None
    base = l + -f
    for rr, ml, sz, v in st.memo:
        if rr == r and st.lin(ml) == l:
            if sz != ty.size:
                return None
            vec_again(eng, st, r, base, ins)
            return v
    fields = {n: v for n, v in o.f.items() if isinstance(n, tuple)}
    used = set()
    for v in fields.values():
        used.update(v.l.t)
    other = set()
    for n, v in eng.slots(st):
        if n[0] == "o" and n[1] == k and n[2] in fields:
            continue
        for _, x in walk(v, ()):
            for q in st.lin(x).t:
                other.add(q)
                for y in dom.roots_of(q):
                    other.add(y)
    m = {}
    for q in used:
        if q not in other and q >= eng.in_wm:
            a, b = st.bound(q)
            n = new_sym("el", a, b)
            m[q] = n
    if m:
        ren = {q: Lin.sym(n) for q, n in m.items()}

        def sub(x):
            acc = Lin(x.c)
            for q, c in x.t.items():
                acc = acc + (ren[q] if q in ren else Lin.sym(q)).scale(c)
            return acc
        for q, n in m.items():
            if dom.is_root(q) and q in st.vs:
                st.set_vs(n, st.vs[q])
        for e in list(st.iq):
            if any(q in m for q in e.t):
                if not st.assume_ge(sub(e)):
                    raise Dead()
        for e in list(st.ne):
            if any(q in m for q in e.t):
                if not st.assume_ne(sub(e)):
                    raise Dead()
    else:
        sub = lambda x: x
    res = None
    got = {}
    for (_, off), v in sorted(fields.items()):
        l2 = st.lin(sub(st.lin(v.l)))
        w = IntV(v.w, l2) if isinstance(v, IntV) else PtrV(v.r, l2)
        sz = v.w // 8 if isinstance(v, IntV) else 8
        st.memo.append((r, base + off, sz, w))
        got[off] = w
        if off == f:
            res = w if sz == ty.size else None
    i = Lin(base.c // es, {q: c // es for q, c in base.t.items()})
    eng.ev("vecload", st, ins, key=k, idx=i, elem=got)
    return res


class _Field:
    size = 0


def vec_fill(eng, st, r, l, size, ins):
    """Names the fields of the elements that are about to be copied."""
    o = st.obj.get(r[1:])
    if o is None or o.kind != "vec":
        return
    l = st.lin(l)
    es = o.f["es"]
    if any(c % es for c in l.t.values()) or size > 4 * es:
        return
    for f in sorted(x[1] for x in o.f if isinstance(x, tuple)):
        for i in range(-(l.c % es), size, es):
            if 0 <= i + f < size:
                vec_element(eng, st, r, st.lin(l + (i + f)), _Field, ins)


def H_ret_iter(eng, st, ins, fn, args):
    return None


LIB = {
    "std::search": H_search,
    "std::mismatch": H_mismatch,
    "std::equal": H_equal,
    "std::find_end": H_find_end,
    "std::reverse": H_reverse,
    "std::char_traits::find": H_memchr,
    "memchr": H_memchr,
    "std::copy": H_copy,
    "std::from_chars": H_from_chars,
    "std::to_string": H_to_string,
    "std::back_insert_iterator::operator=": H_back_assign,
    "std::char_traits::copy": H_traits_copy,
    "std::char_traits::move": H_traits_copy,
    "std::char_traits::compare": H_memcmp,
    "std::char_traits::length": H_traits_length,
    "memcmp": H_memcmp,
    "memcpy": H_memcpy,
    "memmove": H_memcpy,
    "memset": H_memset,
    "strlen": H_strlen,
    "operator new": H_new,
    "operator new[]": H_new,
    "operator delete": H_delete,
    "operator delete[]": H_delete,
    "__cxa_allocate_exception": H_alloc_exc,
    "__cxa_free_exception": H_void,
    "__cxa_throw": H_cxa_throw,
    "__cxa_begin_catch": H_begin_catch,
    "__cxa_end_catch": H_end_catch,
    "__cxa_rethrow": H_rethrow,
    "std::terminate": H_terminate,
    "__clang_call_terminate": H_terminate,
    "ystring::YstringException::YstringException": H_exc_ctor,
    "ystring::YstringException::~YstringException": H_exc_ctor,
    "std::runtime_error::runtime_error": H_exc_ctor,
    "std::runtime_error::~runtime_error": H_exc_ctor,
    "std::logic_error::logic_error": H_exc_ctor,
    "std::out_of_range::out_of_range": H_exc_ctor,
    "std::allocator::allocator": H_void,
    "std::allocator::~allocator": H_void,
    "std::__new_allocator::__new_allocator": H_void,
}
