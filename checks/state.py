"""What calls share: a flow-insensitive effect analysis of every function of the
module, from every use of storage with static duration.

A value is "deep" when it may point into such storage, directly or through
pointers held there; "held" when it points to a local object that holds a deep
pointer.  A write through a deep pointer is an effect on what calls share.  One-time
initialisation under the compiler's guard and atomic objects are exempt; the
guarded initialiser must not depend on the arguments of the call that happens
to run it."""
import re

OUTSIDE = re.compile(
    r"^(llvm\.|__cxa_|__gxx_|_Unwind_|__clang_call_terminate|sa_|operator (new|delete)|mem(cpy|move|set|cmp|chr)$|str(len|cmp|ncmp|chr)$"
    r"|isdigit$|isxdigit$|v?snprintf$|abort$|abs$|std::(__throw_|terminate|__terminate|__glibcxx_assert_fail|__1::)"
    r"|.*std::(__cxx11::)?basic_string<|(void )?std::(__cxx11::)?basic_string"
    r"|std::(exception|bad_alloc|bad_array_new_length|runtime_error|logic_error|length_error|out_of_range|range_error|overflow_error|"
    r"invalid_argument|domain_error|bad_optional_access|bad_variant_access|bad_function_call|nested_exception)"
    r"|.*std::(to_chars|from_chars|__to_chars|__from_chars|_Rb_tree_|__detail::_Prime_rehash_policy|_Hash_bytes|__detail::_List_node_base|__atomic)"
    r"|.*(std::basic_ostream|std::ostream|std::basic_ios|std::ios_base|std::__ostream_insert)|__atomic_)")
SYNC = re.compile(r"^(std::atomic|std::__atomic|__atomic_|__cxa_guard_|__cxa_atexit|llvm\.lifetime|llvm\.invariant|"
                  r".*std::(mutex|__mutex_base|recursive_mutex|shared_mutex|once_flag|lock_guard|unique_lock|scoped_lock|shared_lock|call_once))")
READS = {"memcmp", "memchr", "strlen", "strcmp", "strncmp", "strchr"}


def target(v):
    """The global a constant operand refers to."""
    while v and v[0] == "gep":
        v = v[1]
    return v[1] if v and v[0] == "gv" else None


class Effects:
    def __init__(self, m):
        self.m = m
        self.memo = {}

    def callee(self, ins):
        c = ins.x[0]
        return c[1] if c and c[0] == "fn" else None

    def writes(self, fn, i, kind):
        """Where a function writes through its parameter i: (instr, message) or None."""
        k = (fn.name, i, kind)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        if fn.decl:
            d = fn.dem
            if kind == "held" or d in READS or d.endswith(" const") or SYNC.match(d) or d.startswith("sa_") \
                    or (re.match(r"llvm\.mem(cpy|move)|mem(cpy|move)$", d) and i == 1):
                r = None
            elif d.startswith("llvm.") and not re.match(r"llvm\.mem", d):
                r = None
            else:
                r = (None, "is passed to %s" % d)
        elif SYNC.match(fn.dem):
            r = None
        else:
            self.m.body(fn)
            r = self.scan(fn, {fn.params[i][0]: kind}, None) if i < len(fn.params) else None
        self.memo[k] = r
        return r

    def scan(self, fn, start, glob):
        """Follows the pointers in start (and those to the global) through fn."""
        skip = once(self.m, fn)[0]
        deep = {v for v, k in start.items() if k == "deep"}
        held = {v for v, k in start.items() if k == "held"}

        def is_deep(v):
            return v in deep or (glob is not None and target(v) is glob)
        allocas = {}
        changed = True
        while changed:
            changed = False

            def mark(s, v):
                nonlocal changed
                if v not in s:
                    s.add(v)
                    changed = True
            for b in fn.blocks:
                if b.idx in skip:
                    continue
                for p in b.phis:
                    for v in p.x.values():
                        if is_deep(v):
                            mark(deep, p.name)
                        elif v in held:
                            mark(held, p.name)
                for ins in b.instrs:
                    op = ins.op
                    if op == "alloca":
                        allocas[ins.name] = ins.name
                    elif op in ("getelementptr", "bitcast", "freeze", "inttoptr", "ptrtoint", "extractvalue"):
                        if op == "getelementptr" and ins.ops[0] in allocas:
                            allocas[ins.name] = allocas[ins.ops[0]]
                            if allocas[ins.ops[0]] in held:
                                mark(held, ins.name)
                        if is_deep(ins.ops[0]) and (ins.ty.kind != "int" or op == "ptrtoint"):
                            mark(deep, ins.name)
                        elif ins.ops[0] in held:
                            mark(held, ins.name)
                    elif op in ("select", "insertvalue"):
                        for v in ins.ops:
                            if is_deep(v):
                                mark(deep, ins.name)
                            elif v in held:
                                mark(held, ins.name)
                    elif op == "load":
                        if (is_deep(ins.ops[0]) or ins.ops[0] in held) and ins.ty.kind != "int":
                            mark(deep, ins.name)
                    elif op == "store":
                        v, p = ins.ops[:2]
                        if is_deep(p):
                            return ins, "writes"
                        if is_deep(v) or v in held:
                            base = allocas.get(p, p)
                            mark(held, base)
                            if p != base:
                                mark(held, p)
                    elif op in ("call", "invoke"):
                        f = self.callee(ins)
                        for i, v in enumerate(ins.ops):
                            k = "deep" if is_deep(v) else "held" if v in held else None
                            if k is None:
                                continue
                            if f is None:
                                if k == "deep":
                                    return ins, "passes the address to an unknown function"
                                continue
                            r = self.writes(f, i, k)
                            if r is not None:
                                return r if r[0] is not None else (ins, r[1])
                            if ins.ty.kind in ("ptr", "struct", "array") and not SYNC.match(f.dem):
                                mark(deep if k == "deep" else held, ins.name)
                            if f.decl and re.match(r"llvm\.mem(cpy|move)|mem(cpy|move)$", f.dem) and i == 1:
                                base = allocas.get(ins.ops[0], ins.ops[0])
                                mark(held, base)
                    elif op in ("op56", "op57"):
                        pass            # atomic exchange and arithmetic
        return None


def once(m, fn):
    """The blocks that run under a guard of one-time initialisation, and the
    instructions there that use what the call was given."""
    if fn.decl:
        return set(), []
    c = getattr(fn, "_once", None)
    if c is not None:
        return c
    inside = set()
    for b in fn.blocks:
        for k, ins in enumerate(b.instrs):
            if ins.op == "call" and ins.x[0] and ins.x[0][0] == "fn" and ins.x[0][1].name == "__cxa_guard_acquire":
                t = b.instrs[-1]
                if t.op != "br" or len(t.x) != 2:
                    continue
                go = t.x[0]
                for x in b.instrs[k:]:
                    # icmp ne result, 0: the true branch initialises
                    if x.op == "icmp" and x.x == "eq" and x.name == t.ops[0]:
                        go = t.x[1]
                work = [go]
                while work:
                    y = work.pop()
                    if y.idx in inside or y is b:
                        continue
                    inside.add(y.idx)
                    if not any(i.op == "call" and i.x[0] and i.x[0][0] == "fn"
                               and i.x[0][1].name in ("__cxa_guard_release", "__cxa_guard_abort") for i in y.instrs):
                        work.extend(y.succs)
    uses = []
    if inside:
        where = {}
        stored = set()
        base = {}
        for b in fn.blocks:
            for i in b.phis + b.instrs:
                where[i.name] = (b.idx, i)
                if i.op in ("getelementptr", "bitcast"):
                    base[i.name] = base.get(i.ops[0], i.ops[0])
                if i.op in ("store", "call", "invoke") and b.idx not in inside:
                    for v in i.ops[1:2] if i.op == "store" else i.ops:
                        stored.add(base.get(v, v))
        params = {p[0] for p in fn.params}
        for b in fn.blocks:
            if b.idx not in inside:
                continue
            for i in b.instrs:
                ops = list(i.ops) if i.ops else []
                for v in ops:
                    if v in params:
                        uses.append(i)
                    elif v in where and where[v][0] not in inside:
                        d = where[base.get(v, v)][1] if base.get(v, v) in where else where[v][1]
                        if d.op != "alloca" or d.name in stored:
                            uses.append(i)
    fn._once = (inside, uses)
    return fn._once


def C_state(m, rep, tier):
    fns = [f for f in {id(f): f for f in m.fns.values()}.values() if not f.decl]
    own = []
    for f in fns:
        if re.match(r"e_\w+$", f.name):
            continue
        m.body(f)
        own.append(f)
        rep.functions.add(f.dem)
    eff = Effects(m)
    used = {}
    for f in own:
        for b in f.blocks:
            for i in b.phis + b.instrs:
                for v in (i.x.values() if i.op == "phi" else i.ops or ()):
                    g = target(v)
                    if g is not None:
                        used.setdefault(g.name, (g, {}))[1][f.name] = f
                if i.op in ("call", "invoke"):
                    c = eff.callee(i)
                    if c is not None and c.decl:
                        ok = bool(OUTSIDE.match(c.dem)) or bool(SYNC.match(c.dem))
                        rep.ob("outside-functions", ok, i.loc(), f.dem,
                               "" if ok else "calls %s, which consults or changes what all calls share" % c.dem)
            rep.count("instructions", len(b.instrs))
    for n, g in m.globals.items():
        rep.count("globals")
        if g.const or g.tls or g.decl and not n.startswith("_ZN7ystring"):
            if g.decl and n in used and not g.const and re.match(r"_ZSt4c(in|out|err|log)$|environ$|errno$|stdout$|stderr$", n):
                f = next(iter(used[n][1].values()))
                rep.ob("shared-storage", False, f.name, f.dem, "uses %s, which all calls share" % g.dem)
            elif g.const and n in used:
                rep.ob("shared-storage", True)
            continue
        if n.startswith("_ZGV"):
            continue
        rep.count("writable_globals")
        for f in used.get(n, (g, {}))[1].values():
            if f.name.startswith("__cxx_global_var_init") or f.name.startswith("_GLOBAL__sub_I_"):
                continue
            r = eff.scan(f, {}, g)
            rep.ob("shared-storage", r is None, (r[0].loc() if r and r[0] is not None else f.name), f.dem,
                   "" if r is None else "%s of static duration, which all calls share: %s" % (g.dem, r[1]))
    for f in own:
        inside, uses = once(m, f)
        if inside:
            rep.ob("one-time-initialisation", not uses, uses[0].loc() if uses else f.name, f.dem,
                   "" if not uses else "what is initialised once depends on the call that comes first")
