"""Builds the initial state of an entry point and runs the interpreter on it."""
import interp
import contracts
from lin import Lin, K, ZERO, SYMS, new_sym
from dom import St, IntV, PtrV, UNDEF, NULL, C, Obj, Dead

MAXLEN = 1 << 62
# forward searches take an offset within the string
LEN_OF = {"s": "n", "t": "tn", "f": "fn", "u": "un", "v": "vn", "dst": "dst_size"}
ELEM = {"u": 4, "v": 16}


def sym(name, lo, hi):
    return Lin.sym(new_sym(name, lo, hi))


class Entry:
    """An entry function with its parameters turned into symbols."""

    def __init__(self, m, name):
        self.m = m
        self.name = name
        self.fn = m.fns.get(name)
        if self.fn is None or self.fn.decl:
            raise KeyError("entry point " + name)
        m.body(self.fn)
        self.p = {}

    def setup(self, null=()):
        """(state, args); self.p maps parameter names to Lins."""
        st = St()
        names = pnames(self.fn)
        args = []
        p = self.p = {}
        for nm in names:
            if nm in LEN_OF and LEN_OF[nm] in names:
                p[LEN_OF[nm]] = sym(LEN_OF[nm], 0, MAXLEN)
        for nm, (_, _, ty) in zip(names, self.fn.params):
            if nm in null:
                args.append(NULL)
            elif nm == "end":
                r = ("in", "s")
                st.rgn[r] = p["size"] = sym("size", 0, MAXLEN)
                p["a"] = sym("a", 0, MAXLEN)
                p["e"] = sym("e", 0, MAXLEN)
                st.assume_ge(p["e"] - p["a"])
                st.assume_ge(p["size"] - p["e"])
                args[0] = PtrV(r, p["a"])
                args.append(PtrV(r, p["e"]))
            elif ty.kind == "ptr" and nm == "set":
                r = ("obj", "set")
                st.rgn[r] = K(32)
                ln = sym("setlen", 0, 1 << 58)
                p["setlen"] = ln
                st.obj[(r, 0)] = Obj("vec", {"len": IntV(64, ln), "es": 8, "id": "set"})
                st.mem[(r, 24)] = (1, IntV(8, sym("neg", 0, 1)))
                args.append(PtrV(r, ZERO))
            elif ty.kind == "ptr" and nm == "did":
                r = ("obj", "did")
                st.rgn[r] = K(1)
                args.append(PtrV(r, ZERO))
            elif ty.kind == "ptr" and nm == "s" and LEN_OF["s"] not in names and "end" not in names:
                r = ("obj", "s")
                st.rgn[r] = K(32)
                p["n"] = sym("n", 0, MAXLEN)
                st.obj[(r, 0)] = Obj("str", {"len": IntV(64, p["n"]), "es": 1})
                args.append(PtrV(r, ZERO))
            elif ty.kind == "ptr" and nm in LEN_OF:
                r = ("in", nm)
                if LEN_OF[nm] in p:
                    es = ELEM.get(nm, 1)
                    if es != 1:
                        st.assume_ge(K(1 << 58) - p[LEN_OF[nm]])
                    st.rgn[r] = p[LEN_OF[nm]].scale(es)
                if nm == "v":
                    st.rgn[("in", "vtext")] = sym("vtext", 0, MAXLEN)
                args.append(PtrV(r, ZERO))
            elif ty.kind == "int" and nm in p:
                args.append(IntV(ty.w, p[nm]))
            elif ty.kind == "int" and nm in ("pos", "start", "stop", "max") and ty.w == 64 \
                    and "ignore" not in names:
                p[nm] = sym(nm, -(1 << 63), (1 << 63) - 1)
                args.append(IntV(64, p[nm]))
            elif ty.kind == "int":
                p[nm] = sym(nm, 0, (1 << ty.w) - 1)
                if ty.w == 8 and nm == "ignore":
                    st.set_vs(p[nm].pure(), ((0, 1),))
                args.append(IntV(ty.w, p[nm]))
            else:
                raise KeyError("parameter %s of %s" % (nm, self.name))
        if "off" in p and "n" in p and "last" not in self.name:
            st.assume_ge(p["n"] - p["off"])
        return st, args


def pnames(fn):
    return [p[1] for p in fn.params]


def run(m, name, monitor=None, kinds=None, null=(), deadline=None, cons=contracts.ALL, **attrs):
    e = interp.Engine(m, contracts=cons, monitor=monitor, kinds=kinds)
    for k, v in attrs.items():
        setattr(e, k, v)
    e.deadline = deadline
    en = Entry(m, name)
    st, args = en.setup(null)
    if any(nm == "s" for nm in pnames(en.fn)) and name == "e_unescape_buf" \
            and not getattr(monitor, "in_place", False):
        e.mutable.add("s")
    e.params = en.p
    e.in_wm = len(SYMS)
    if monitor is not None and hasattr(monitor, "start"):
        monitor.start(e, st, en)
    starts = [st]
    if monitor is not None and hasattr(monitor, "cases"):
        starts = monitor.cases(e, st)
    if "ignore" in en.p:
        # an option that is on or off throughout
        x, starts = starts, []
        for v in (0, 1):
            for s in x:
                s = s.copy()
                if s.assume_eq(en.p["ignore"] + -v):
                    starts.append(s)
    outs = []
    for st in starts:
        outs += e.call_entry(en.fn, st, list(args))
    for kind, v, s in outs:
        if kind == "exc":
            x = v
            from calls import ALLOC_THROWS
            if x.ti in ALLOC_THROWS and x.own is None:
                continue
            bases = e.ti_bases(x.ti)
            e.check(s, "_ZTIN7ystring16YstringExceptionE" in bases, "exc", last_ins(m, en.fn),
                    "exception %s%s escapes" % (
                        x.ti, " thrown at " + x.own if x.own else ""))
    return e, outs


def fn_ins(fn):
    """The first instruction with a line number."""
    for b in fn.blocks:
        for i in b.instrs:
            if i.line:
                return i
    return fn.blocks[0].instrs[0]


def target(m, f):
    """The library function that an entry wrapper calls first."""
    m.body(f)
    for b in f.blocks:
        for i in b.instrs:
            if i.op in ("call", "invoke") and i.x[0][0] == "fn":
                g = i.x[0][1]
                if g.dem.find("ystring::") >= 0 and not g.name.startswith("sa_"):
                    m.body(g)
                    if g.blocks:
                        return g
    return f


def last_ins(m, fn):
    """Where to report what concerns an entry as a whole."""
    return fn_ins(target(m, fn))
