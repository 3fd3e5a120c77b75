"""Control-flow facts per function: reverse post-order, natural loops,
liveness of SSA values and of stack slots."""


class Loop:
    __slots__ = ("head", "blocks", "parent", "kids", "order", "latches", "id")


class FnInfo:
    pass


def analyse(fn):
    inf = getattr(fn, "_info", None)
    if inf is not None:
        return inf
    inf = FnInfo()
    fn._info = inf
    blocks = fn.blocks
    n = len(blocks)
    # reverse post-order
    seen = [False] * n
    post = []
    stack = [(blocks[0], iter(blocks[0].succs))]
    seen[0] = True
    while stack:
        b, it = stack[-1]
        for s in it:
            if not seen[s.idx]:
                seen[s.idx] = True
                stack.append((s, iter(s.succs)))
                break
        else:
            post.append(b)
            stack.pop()
    rpo = post[::-1]
    num = {b.idx: i for i, b in enumerate(rpo)}
    inf.rpo = rpo
    inf.num = num
    # dominators
    idom = {rpo[0].idx: rpo[0].idx}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            new = None
            for p in b.preds:
                if p.idx in idom:
                    if new is None:
                        new = p.idx
                    else:
                        x, y = p.idx, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b.idx) != new:
                idom[b.idx] = new
                changed = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if idom[b] == b:
                return False
            b = idom[b]
    loops = {}
    inf.irreducible = False
    for b in rpo:
        for s in b.succs:
            if num[s.idx] <= num[b.idx]:
                if not dom(s.idx, b.idx):
                    inf.irreducible = True
                    continue
                lp = loops.get(s.idx)
                if lp is None:
                    lp = loops[s.idx] = Loop()
                    lp.head = s
                    lp.blocks = {s.idx}
                    lp.latches = []
                    lp.kids = []
                    lp.parent = None
                    lp.id = (fn.name, s.idx)
                lp.latches.append(b)
                work = [b]
                while work:
                    x = work.pop()
                    if x.idx in lp.blocks:
                        continue
                    lp.blocks.add(x.idx)
                    work.extend(p for p in x.preds if p.idx in num)
    lst = sorted(loops.values(), key=lambda l: len(l.blocks))
    for i, l in enumerate(lst):
        for m in lst[i + 1:]:
            if l.head.idx in m.blocks and l is not m:
                l.parent = m
                m.kids.append(l)
                break
    inf.loops = lst
    inf.top = [l for l in lst if l.parent is None]
    # processing order of each region: blocks not inside a child loop, with the
    # child loop represented by its head
    inner = {}
    for l in lst:            # innermost first
        for x in l.blocks:
            inner.setdefault(x, l)
    inf.inner = inner
    for l in lst:
        l.order = _order(rpo, l.blocks, l, inner)
    inf.order = _order(rpo, None, None, inner)
    _liveness(fn, inf, rpo)
    _slots(fn, inf, rpo)
    return inf


def _order(rpo, blocks, loop, inner):
    out = []
    for b in rpo:
        if blocks is not None and b.idx not in blocks:
            continue
        il = inner.get(b.idx)
        if il is loop:
            out.append(b)
        elif il is not None:
            # head of an immediate child?
            if il.head is b and _chain_child(il, loop):
                out.append(b)
            else:
                # b may be the head of a deeper loop nested directly
                pass
    return out


def _chain_child(l, parent):
    return l.parent is parent


def _uses(i):
    if i.op in ("call", "invoke"):
        for o in i.ops:
            if o[0] == "L":
                yield o
        if i.x[0][0] == "L":
            yield i.x[0]
        return
    for o in i.ops or ():
        if o[0] == "L":
            yield o


def _liveness(fn, inf, rpo):
    live_in = {b.idx: set() for b in rpo}
    gen = {}
    kill = {}
    for b in rpo:
        g = set()
        k = set()
        for i in b.instrs:
            for u in _uses(i):
                if u not in k:
                    g.add(u)
            k.add(i.name)
        gen[b.idx] = g
        kill[b.idx] = k | {p.name for p in b.phis}
    changed = True
    # live_in includes the block's own phis (they are bound on the edge)
    while changed:
        changed = False
        for b in reversed(rpo):
            out = set()
            for s in b.succs:
                out |= live_in[s.idx] - {p.name for p in s.phis}
                for p in s.phis:
                    v = p.x.get(b.idx)
                    if v and v[0] == "L":
                        out.add(v)
            new = gen[b.idx] | (out - {i.name for i in b.instrs})
            if new != live_in[b.idx]:
                live_in[b.idx] = new
                changed = True
    inf.live_in = live_in
    inf.live_after = {}


def live_after(fn, blk, idx):
    """SSA names live after instruction idx of blk."""
    inf = analyse(fn)
    k = (blk.idx, idx)
    r = inf.live_after.get(k)
    if r is None:
        out = set()
        for s in blk.succs:
            out |= inf.live_in[s.idx] - {p.name for p in s.phis}
            for p in s.phis:
                v = p.x.get(blk.idx)
                if v and v[0] == "L":
                    out.add(v)
        for i in blk.instrs[:idx:-1]:
            out.discard(i.name)
            out.update(_uses(i))
        r = inf.live_after[k] = frozenset(out)
    return r


def _slots(fn, inf, rpo):
    """Backward liveness of stack slots; slots whose address escapes are
    always live."""
    allocas = {}
    for b in rpo:
        for i in b.instrs:
            if i.op == "alloca":
                allocas[i.name] = i
    base = {a: a for a in allocas}
    zero = {a: True for a in allocas}
    changed = True
    while changed:
        changed = False
        for b in rpo:
            for i in b.instrs:
                if i.name in base:
                    continue
                if i.op in ("getelementptr", "bitcast") and i.ops[0] in base:
                    base[i.name] = base[i.ops[0]]
                    zero[i.name] = False
                    changed = True
    esc = set()
    for b in rpo:
        for p in b.phis:
            for v in p.x.values():
                if v in base:
                    esc.add(base[v])
        for i in b.instrs:
            if i.op == "store" and i.ops[0] in base:
                esc.add(base[i.ops[0]])
            elif i.op in ("ret", "select", "ptrtoint", "insertvalue"):
                for o in i.ops:
                    if o in base:
                        esc.add(base[o])
            elif i.op in ("call", "invoke"):
                if i.ty.kind in ("ptr", "struct") or (
                        i.ty.kind == "int" and i.ty.w == 64):
                    for o in i.ops:
                        if o in base:
                            esc.add(base[o])
    # a slot handed to a call together with another slot may be captured by it
    for b in rpo:
        for i in b.instrs:
            if i.op in ("call", "invoke"):
                s = {base[o] for o in i.ops if o in base}
                if len(s) > 1:
                    esc |= s
    inf.slots = allocas
    inf.esc = esc
    cand = set(allocas) - esc
    live = {b.idx: set() for b in rpo}
    if not cand:
        inf.slot_live = live
        inf.slot_cand = cand
        return

    def transfer(b, out):
        cur = set(out)
        for i in reversed(b.instrs):
            if i.op == "store":
                d = i.ops[1]
                if d in base and base[d] in cand:
                    a = base[d]
                    if zero.get(d) and i.x.size >= allocas[a].x.size:
                        cur.discard(a)
                    else:
                        cur.add(a)
                continue
            for o in _uses(i):
                if o in base and base[o] in cand and i.op != "getelementptr":
                    cur.add(base[o])
        return cur
    changed = True
    while changed:
        changed = False
        for b in reversed(rpo):
            out = set()
            for s in b.succs:
                out |= live[s.idx]
            new = transfer(b, out)
            if new != live[b.idx]:
                live[b.idx] = new
                changed = True
    inf.slot_live = live
    inf.slot_cand = cand
