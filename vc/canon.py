"""Canonical form of a symbolic state (equality up to renaming of addresses, unknowns and contexts).

Used at `__vc_loophead`: a state whose canonical form was met before needs no further exploration, so the set of
canonical states reached is an inductive loop invariant of the most general client."""
import hashlib
from .values import V, B, ToolLimit
from .ir import *


def _locs(x, out):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "loc" and isinstance(x[1], str):
            out.add(x[1])
            return
        for y in x:
            _locs(y, out)
    elif isinstance(x, list):
        for y in x:
            _locs(y, out)


def liveness(f):
    """per block: live-in set; per instruction on demand"""
    lv = getattr(f, "_live", None)
    if lv is not None:
        return lv
    use, dfn, succ, phiuse = {}, {}, {}, {}
    iu = {}
    for lab, ins in f.blocks.items():
        u, d = set(), set()
        us = []
        s = set()
        for i in ins:
            x = set()
            if i.op == "phi":
                for v, b in i.a[1]:
                    y = set()
                    _locs(v, y)
                    phiuse.setdefault((b, lab), set()).update(y)
            else:
                _locs(i.a, x)
            us.append(x)
            u |= x - d
            if i.res is not None:
                d.add(i.res)
        t = ins[-1]
        if t.op == "br":
            s = {t.a[1]} if t.a[0] is None else {t.a[1], t.a[2]}
        elif t.op == "switch":
            s = {t.a[2]} | {l for _, l in t.a[3]}
        elif t.op == "invoke":
            s = {t.a[3], t.a[4]}
        use[lab], dfn[lab], succ[lab], iu[lab] = u, d, s, us
    live = {l: set() for l in f.blocks}
    ch = True
    while ch:
        ch = False
        for l in f.blocks:
            o = set()
            for s in succ[l]:
                o |= live[s] | phiuse.get((l, s), set())
            n = use[l] | (o - dfn[l])
            if n != live[l]:
                live[l] = n
                ch = True
    f._live = (live, succ, phiuse, iu)
    return f._live


def live_after(f, lab, idx):
    key = (lab, idx)
    c = getattr(f, "_la", None)
    if c is None:
        c = f._la = {}
    r = c.get(key)
    if r is not None:
        return r
    live, succ, phiuse, iu = liveness(f)
    o = set()
    for s in succ[lab]:
        o |= live[s] | phiuse.get((lab, s), set())
    ins = f.blocks[lab]
    for k in range(len(ins) - 1, idx, -1):
        o = (o - {ins[k].res}) | iu[lab][k]
    # the result of the pending call itself is not known yet
    o = o - {ins[idx].res}
    r = c[key] = tuple(sorted(o))
    return r


class Canon:
    def __init__(self, eng, st):
        self.e, self.st = eng, st
        self.reg = {}
        self.co = {}
        self.atoms = {}
        self.out = []
        self.todo = []

    def rid(self, r):
        n = self.reg.get(r)
        if n is None:
            n = self.reg[r] = len(self.reg)
            self.todo.append(r)
        return n

    def coid(self, c):
        n = self.co.get(c)
        if n is None:
            n = self.co[c] = len(self.co)
            self.todo.append(("co", c))
        return n

    def atom(self, a):
        if isinstance(a.region, tuple):
            return ("f", a.region[1])
        if isinstance(a.region, int) and a.op is None:
            r = self.st.regions.get(a.region)
            if r is not None and r.meta.get("gname"):
                if not r.ro:
                    self.rid(a.region)
                return ("g", r.meta["gname"])
            return ("r", self.rid(a.region))
        n = self.atoms.get(a)
        if n is None:
            n = self.atoms[a] = len(self.atoms)
            if a.op is not None:
                return ("o", n, a.op, tuple(self.v(x) if isinstance(x, V) else repr(x) for x in (a.args or ())))
            kind = "u" if a.name.startswith("undef") else "s"
            return ("n", n, kind)
        return ("a", n)

    def v(self, v):
        if isinstance(v, V):
            if not v.t:
                return v.c
            return (v.w, v.c, tuple((self.atom(a), k) for a, k in v.t))
        if isinstance(v, bool):
            return v
        if isinstance(v, B):
            raise ToolLimit("symbolic truth value at loop head")
        if isinstance(v, list):
            return tuple(self.v(x) for x in v)
        if v is None:
            return None
        raise ToolLimit("canon %r" % (v,))

    def frame(self, fr, after):
        f = fr.f
        la = live_after(f, fr.blk, fr.idx)
        loc = []
        for n in la:
            if n in fr.loc:
                loc.append((n, self.v(fr.loc[n])))
        extra = None
        if isinstance(fr.extra, dict):
            extra = tuple(sorted((k, repr(x)) for k, x in fr.extra.items()))
        return (f.name, fr.blk, fr.idx, tuple(loc), fr.kind is not None, extra)

    def region(self, rid):
        r = self.st.regions[rid]
        n = self.reg[rid]
        if r.kind == "opaque":
            if r.alive:
                return (n, "tok", self.coid(r.meta["co"]) if r.meta["co"] >= 0 else None) + ((self.v(r.meta["shadow"]),) if "shadow" in r.meta else ())
            return (n, "dead-tok")
        if not r.alive:
            return (n, "dead", r.kind)
        if r.meta.get("ended"):
            return (n, "ended", r.kind)
        for co in self.st.coros:
            if co.status != "dead" and (co.stack == rid):
                self.coid(co.id)
        cells = []
        for anchor in sorted(r.cells.a, key=lambda k: (k != r.base.t, repr(k))):
            d = r.cells.a[anchor]
            an = 0 if anchor == r.base.t else self.v(V(64, 0, anchor))
            b0 = r.base.c if anchor == r.base.t else 0
            for o in sorted(d):
                x = d[o]
                # an indeterminate byte is a new unknown wherever it is read
                if len(x.t) == 1 and x.t[0][1] == 1 and x.c == 0 and x.t[0][0].op is None and x.t[0][0].name.startswith("undef"):
                    continue
                cells.append((an, o, x.w, self.v(x)))
        meta = (r.meta.get("ended"), tuple((self.v(x) for x in r.meta["stk"])) if "stk" in r.meta else None)
        return (n, r.kind, self.v(r.size), r.ro, meta, tuple(cells))

    def scrub(self):
        """pointers to released memory and used context handles become unknown (their values are indeterminate)"""
        from .values import fresh
        st = self.st
        dead = {rid for rid, r in st.regions.items() if not r.alive}

        def isdead(x):
            for a, _ in x.t:
                if a.region in dead and isinstance(a.region, int):
                    return True
            return False
        for rid in list(st.regions):
            r = st.regions[rid]
            if not r.alive or r.ro or r.kind == "opaque":
                continue
            bad = [(an, o) for an, d in r.cells.a.items() for o, x in d.items() if x.t and isdead(x)]
            if bad:
                r = st.rw(rid)
                for an, o in bad:
                    r.cells.a[an][o] = fresh("undef_dead", r.cells.a[an][o].w)
        for c in st.coros:
            if c.status == "dead":
                continue
            for fr in c.frames:
                for n, x in list(fr.loc.items()):
                    if isinstance(x, V) and x.t and isdead(x):
                        fr.loc[n] = fresh("undef_dead", x.w)

    def widen(self):
        """a number kept in a variable of the library (or in a context's record) that takes ever more values is generalised to
        any value: what is then proved holds for histories of any length (an obligation that fails is undecided, not violated)"""
        from .values import fresh
        st, e = self.st, self.e
        run = st.ghost.get("runs", 0)
        prev, now = st.ghost.get("_statics") or {}, {}
        hit = False
        for r in list(st.regions.values()):
            g = r.meta.get("gname")
            if not r.alive or r.ro or r.kind not in ("global", "ctxstack", "heap") or r.kind == "global" and g not in e.m.lib_globals:
                continue
            for an, d in list(r.cells.a.items()):
                if an != r.base.t:
                    continue
                for o, x in list(d.items()):
                    if x.w > 64 or any(a.region is not None for a, _ in x.t) or any(a.name.startswith("undef") for a, _ in x.t if a.op is None):
                        continue
                    k = (g or r.kind, o - r.base.c, x.w)
                    if k not in e.widen:
                        if not x.t and not run:
                            s = e.wvals.setdefault(k, set())
                            s.add(x.c)
                            if len(s) > (2 if g else 5):   # in a history other contexts may have changed a variable of the library
                                e.widen.add(k)
                        if g and e.repeating and k not in e.widen:
                            now[k] = x.key()
                            if run >= 3 and k in prev and prev[k] != now[k]:
                                e.widen.add(k)
                    if k in e.widen:
                        st.rw(r.id).cells.a[an][o] = fresh("havoc", x.w)
                        hit = True
        if e.repeating:
            st.ghost["_statics"] = now
        if hit:
            st.ghost["_widened"] = True
            st.pc = [c for c in st.pc if not any(a.name.startswith("havoc") for a in c.roots)]

    def key(self):
        st = self.st
        self.scrub()
        self.widen()
        live = {}
        for r in st.regions.values():
            if r.alive and r.kind not in ("stack", "global", "opaque"):
                live[r.kind] = live.get(r.kind, 0) + 1
        self.out.append(("live", tuple(sorted(live.items()))))
        if st.pc:
            self.out.append(("pc", tuple(str(c.e) for c in st.pc)))
        self.coid(0)
        self.coid(st.cur)
        if "thr" in st.ghost:
            me = st.ghost["thr"]
            self.out.append(("threads", me, tuple(None if c is None else "cur" if k == me else self.coid(c) for k, c in enumerate(st.ghost["tcur"]))))
        for name in sorted(st.globals):
            r = st.regions[st.globals[name]]
            if r.ro or not any(r.cells.a.values()):
                continue
            self.rid(r.id)
            self.out.append(("glob", name, self.reg[r.id]))
        self.drain()
        for c in st.coros:
            if c.status != "dead" and c.id not in self.co:
                self.coid(c.id)
                self.drain()
        g = st.ghost
        self.out.append(("ghost", tuple((k, self.v(g[k]) if isinstance(g[k], V) else g[k]) for k in sorted(g)
                                        if k in ("expect_terminate", "ss_cur", "ss_id", "fail_new", "fail_getcontext", "in_terminate", "win_main", "win_err", "fail_CreateFiber", "fail_map_shadow_stack"))))
        self.out.append(("exc", tuple((e["ti"], e["handlers"], self.v(e["ptr"])) for e in st.exc.values())))
        self.out.append(("caught", tuple((self.v(st.exc[k]["ptr"]), self.coid(c)) for k, c in st.caught)))
        self.out.append(("atexit", tuple(str(x[2]) for x in st.atexit)))
        self.drain()
        return hashlib.sha256(repr(self.out).encode()).digest()

    def drain(self):
        while self.todo:
            x = self.todo.pop(0)
            if isinstance(x, tuple):
                c = self.st.coros[x[1]]
                own = c.extra.get("own")
                self.out.append(("co", self.co[c.id], c.status, None if c.stack is None else self.rid(c.stack), c.fn if c.status == "fresh" else None,
                                 None if own is None else self.v(own),
                                 tuple(self.v(x) for x in c.extra["fp"]) if "fp" in c.extra else None,
                                 None if c.ss is None else self.v(c.ss),
                                 tuple(self.v(c.extra[k]) if c.extra.get(k) is not None else None for k in ("asan", "tsan", "shadow") if k in c.extra),
                                 c.extra.get("asan_gone"),
                                 tuple(self.v(p) for p in (c.pend or ())) if c.status == "fresh" else None,
                                 tuple(self.frame(f, True) for f in c.frames)))
            else:
                self.out.append(self.region(x))
