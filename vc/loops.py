"""Loops of library code without an annotated invariant: the engine infers an affine one and proves it.

At the head of a loop every changing value (register or memory cell) is conjectured to be  x(n) = x(0) + n*c  in the n-th
iteration.  The conjecture is found by executing one iteration from the first arrival (nothing is recorded) and proved by
induction: the state after the first arrival (n = 0) and the states after an arbitrary iteration (n = m+1, m arbitrary, the
guard of iteration m holds because that iteration was executed from the conjectured state) are explored with all obligations;
each path that comes back to the head must again be of the conjectured form, for n+1.  Termination: n never exceeds BOUND.
"""
import z3
from .values import V, B, ToolLimit, add, mulc, fresh, trunc

BOUND = 1 << 50


class Arrived(Exception):
    pass


def loops_of(f):
    """{header label: set of labels of the natural loop}"""
    c = getattr(f, "_loops", None)
    if c is not None:
        return c
    succ = {}
    for l, ins in f.blocks.items():
        i = ins[-1]
        if i.op == "br":
            succ[l] = [i.a[1]] if i.a[0] is None else [i.a[1], i.a[2]]
        elif i.op == "switch":
            succ[l] = [i.a[2]] + [x for _, x in i.a[3]]
        elif i.op == "invoke":
            succ[l] = [x for x in i.a if isinstance(x, str) and x in f.blocks]
        else:
            succ[l] = []
    entry = next(iter(f.blocks))
    idx, stack, back = {}, [], []
    on = set()
    todo = [(entry, iter(succ[entry]))]
    idx[entry] = 1
    on.add(entry)
    while todo:
        l, it = todo[-1]
        for s in it:
            if s in on:
                back.append((l, s))
            elif s not in idx:
                idx[s] = 1
                on.add(s)
                todo.append((s, iter(succ[s])))
                break
        else:
            on.discard(l)
            todo.pop()
    pred = {}
    for a, bs in succ.items():
        for b in bs:
            pred.setdefault(b, []).append(a)
    out = {}
    for t, h in back:
        body = out.setdefault(h, {h})
        w = [t]
        while w:
            x = w.pop()
            if x not in body:
                body.add(x)
                w += pred.get(x, [])
    f._loops = out
    return out


def same(a, b):
    if a is b:
        return True
    if isinstance(a, V) and isinstance(b, V):
        return a.key() == b.key()
    if isinstance(a, B) and isinstance(b, B):
        return a.e.eq(b.e)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def low(v):
    """the low bits of a sum are the sum of the low bits"""
    out = V(v.w, v.c)
    for a, k in v.t:
        if a.op == "extract" and a.args[1] == 0:
            src = a.args[0]
            x = V(v.w, src.c)
            for b, l in src.t:
                x = add(x, mulc(trunc(V(src.w, 0, ((b, 1),)), v.w), l))
            out = add(out, mulc(x, k))
        else:
            out = add(out, mulc(V(v.w, 0, ((a, 1),)), k))
    return out


def delta(a, b, what):
    """constant difference of two values or ToolLimit"""
    if isinstance(a, V) and isinstance(b, V) and a.w == b.w:
        d = add(b, mulc(a, -1))
        if not d.conc:
            d = low(d)
        if d.conc:
            return d.c
    raise ToolLimit("loop: %s does not change by a constant amount (%r -> %r)" % (what, a, b))


SKIP = ("_resume", "_loop")


def diff(s0, s1):
    """[(place, constant)] of the changing places; ToolLimit if the states differ otherwise"""
    out = []
    if len(s0.coros) != len(s1.coros) or s0.cur != s1.cur:
        raise ToolLimit("loop: creates or switches contexts")
    for n, (c0, c1) in enumerate(zip(s0.coros, s1.coros)):
        if len(c0.frames) != len(c1.frames):
            raise ToolLimit("loop: frames differ")
        for k, (f0, f1) in enumerate(zip(c0.frames, c1.frames)):
            for key, v in f0.loc.items():
                w = f1.loc.get(key)
                if not same(v, w):
                    out.append((("loc", n, k, key), delta(v, w, key)))
    for rid, r0 in s0.regions.items():
        r1 = s1.regions.get(rid)
        if r1 is None:
            raise ToolLimit("loop: releases memory")
        if r0 is r1 or r0.cells is r1.cells and r0.alive == r1.alive:
            continue
        if r0.alive != r1.alive:
            raise ToolLimit("loop: releases memory")
        for an in set(r0.cells.a) | set(r1.cells.a):
            d0, d1 = r0.cells.a.get(an, {}), r1.cells.a.get(an, {})
            if set(d0) != set(d1):
                # an undefined local that is written before it is read in each iteration
                if r1.kind == "stack" and not d0:
                    continue
                raise ToolLimit("loop: the extent of written memory changes")
            for off, v in d0.items():
                if not same(v, d1[off]):
                    out.append((("cell", rid, an, off), delta(v, d1[off], r0.name)))
    for rid, r1 in s1.regions.items():
        if rid not in s0.regions and r1.alive:
            raise ToolLimit("loop: obtains memory")
    for k in set(s0.ghost) | set(s1.ghost):
        if k not in SKIP and not same(s0.ghost.get(k), s1.ghost.get(k)):
            if not (isinstance(s0.ghost.get(k), (dict, list)) and repr(s0.ghost.get(k)) == repr(s1.ghost.get(k))):
                raise ToolLimit("loop: ghost state %s changes" % k)
    return out


def instantiate(s0, places, n):
    """the conjectured state of iteration n"""
    s = s0.fork()
    for p, c in places:
        if p[0] == "loc":
            f = s.coros[p[1]].frames[p[2]]
            v = f.loc[p[3]]
            f.loc[p[3]] = add(v, mulc(trunc(n, v.w) if v.w < 64 else n, c))
        else:
            r = s.rw(p[1])
            v = r.cells.a[p[2]][p[3]]
            r.cells.a[p[2]][p[3]] = add(v, mulc(trunc(n, v.w) if v.w < 64 else n, c))
    return s


def explore(eng, st, depth):
    """states in which control comes back to the head (nothing is recorded)"""
    from .engine import Fork, PathEnd
    from .prove import Ledger
    led, ff, pt = eng.l, eng.first_fail, eng.paths
    eng.l = Ledger()
    eng.probing = True
    out, work, steps = [], [st], 0
    try:
        while work:
            s = work.pop()
            try:
                while True:
                    if len(s.coros[s.cur].frames) < depth:
                        break
                    try:
                        eng.step(s)
                    except Fork as fk:
                        alts = [(b, t) for b, t in fk.alts if b is True or eng.feasible(s, b)]
                        if not alts:
                            break
                        for b, t in alts[1:]:
                            s2 = s.fork()
                            if b is not True:
                                s2.pc.append(b)
                            s2.ghost["_resume"] = t
                            work.append(s2)
                        if alts[0][0] is not True:
                            s.pc.append(alts[0][0])
                        s.ghost["_resume"] = alts[0][1]
                    steps += 1
                    if steps > 20000:
                        raise ToolLimit("loop: iteration too long")
            except Arrived:
                out.append(s)
            except PathEnd:
                pass
    finally:
        eng.l, eng.first_fail, eng.paths = led, ff, pt
        eng.probing = False
    return out


def at_block(eng, st, fr, label):
    """called whenever control enters block `label` of a library function"""
    depth = len(st.coros[st.cur].frames)
    tag = st.ghost.get("_loop")
    if tag is not None:
        if depth < tag["depth"]:
            st.ghost["_loop"] = tag = None
        elif depth == tag["depth"] and label not in tag["body"]:
            from .engine import PathEnd
            if tag["mode"] == "probe":
                raise PathEnd("loop left")
            st.ghost["_loop"] = tag = None
    ls = loops_of(fr.f)
    if label not in ls:
        return
    if tag is not None:
        if tag["depth"] == depth and tag["head"] == label:
            if tag["mode"] == "probe":
                raise Arrived()
            close(eng, st, tag)
        raise ToolLimit("loop: nested loops")
    base = dict(depth=depth, head=label, body=ls[label])
    while True:
        s0 = st.fork()
        s0.ghost["_loop"] = None
        p = s0.fork()
        p.ghost["_loop"] = dict(base, mode="probe")
        first = explore(eng, p, depth)
        if not first:
            return   # the body is never completed from here
        new = [n for n in first[0].globals if n not in st.globals]
        if not new:
            break
        for n in new:   # a global is given its storage when it is used first
            eng.global_addr(st, n)
    places = diff(s0, first[0])
    if not places:
        eng.obligation(st, False, eng.loop_prop, "loop: it makes progress (termination)", True)
    m = fresh("iteration", 64)
    g = instantiate(s0, places, m)
    g.pc.append(B(z3.ULT(m.z(), z3.BitVecVal(BOUND, 64)), m.roots()))
    g.ghost["_loop"] = dict(base, mode="probe")
    for s in explore(eng, g, depth):
        s.ghost["_loop"] = dict(base, mode="prove", s0=s0, places=places, n=add(m, V(64, 1)))
        eng.extra_work.append(s)
    st.ghost["_loop"] = dict(base, mode="prove", s0=s0, places=places, n=V(64, 0))


def close(eng, st, tag):
    from .engine import PathEnd
    nn = add(tag["n"], V(64, 1))
    want = instantiate(tag["s0"], tag["places"], nn)
    for p, c in diff(want, st):
        if c:
            raise ToolLimit("loop: no affine invariant (%s)" % (p,))
    eng.obligation(st, B(z3.ULE(nn.z(), z3.BitVecVal(BOUND, 64)), nn.roots()), eng.loop_prop, "loop: it terminates (the number of iterations is bounded)")
    eng.obligation(st, True, eng.loop_prop, "loop: the invariant is inductive")
    eng.paths += 1
    raise PathEnd("loop-closed")
