"""Contracts of the system calls behind shadow stacks (fcontext back-end, -fcf-protection with SHADOW_STACK_SYSCALL).

map_shadow_stack(0, size, SHADOW_STACK_SET_TOKEN) fails (-1) or maps a shadow stack with a restore token at its top; a size
that is no multiple of 8 always fails.  make_fcontext() is given the top of an unused shadow stack in the word below the
context's initial stack pointer (contract proved for the assembler in the other half of C25)."""
from .values import V, add, sub, eq, fresh
from .engine import Fork
from . import builtins as bi

NR, TOKEN = 453, 1


def on(eng):
    return "vc_shstk_on" in eng.m.globals


def c_syscall(eng, st, av, name):
    if not on(eng):
        raise bi.ToolLimit("system call")
    nr, a, n, fl = (list(av) + [None] * 4)[:4]
    eng.obligation(st, eq(nr, V(nr.w, NR)), "C25", "shadow stack: the system call is map_shadow_stack")
    eng.obligation(st, a.conc and a.c == 0, "C25", "shadow stack: the address is left to the system", True)
    eng.obligation(st, fl is not None and fl.conc and fl.c & 0xffffffff == TOKEN, "C25", "shadow stack: a restore token is requested", True)
    n = bi.zext(n, 64)
    eng.obligation(st, bi.band(eq(bi.and_(n, V(64, 7)), V(64, 0)), bi.ule(V(64, 4096), n)), "C25",
                   "shadow stack: the size is a multiple of 8 and at least 4 KiB")

    def ok(s):
        s.log.append(("map_shadow_stack fails", 0)) if s.ghost.get("fail_map_shadow_stack") else None
        r = eng.new_region(s, "shadow stack", 8, "opaque", 4096)
        r.meta["co"] = -1
        r.meta["shadow"] = n
        eng.deliver(s, r.base)

    def bad(s):
        s.log.append(("map_shadow_stack fails", 1))
        eng.deliver(s, V(64, -1))
    if st.ghost.get("fail_map_shadow_stack"):
        raise Fork([(True, ok), (True, bad)])
    ok(st)
    return bi.CONTROL


def of(eng, st, p):
    rs = [st.regions[a.region] for a, k in p.t if k == 1 and isinstance(a.region, int) and a.region in st.regions]
    rs = [r for r in rs if "shadow" in r.meta and r.alive]
    return rs[0] if len(rs) == 1 else None


def c_munmap(eng, st, av, name):
    p, n = av
    r = of(eng, st, p)
    eng.obligation(st, r is not None and p.key() == r.base.key(), "C25", "shadow stack: what is unmapped is a mapped shadow stack", True)
    up = lambda x: bi.and_(add(x, V(64, 4095)), V(64, -4096))
    eng.obligation(st, eq(up(n), up(r.meta["shadow"])), "C25", "shadow stack: it is unmapped as a whole")
    eng.obligation(st, st.co.extra.get("shadow") is None or st.co.extra["shadow"].key() != r.base.key(), "C25",
                   "shadow stack: that of the running context is not unmapped", True)
    eng.kill_region(st, r.id, "shadow stack unmapped")
    return V(32, 0)


def on_make(eng, st, co, sp):
    if not on(eng):
        return
    a = sub(sp, V(64, 8))
    v = eng.load_raw(st, a, 8)
    r = of(eng, st, v)
    eng.obligation(st, r is not None, "C25", "shadow stack: make is given a shadow stack", True)
    eng.obligation(st, eq(v, add(r.base, r.meta["shadow"])), "C25", "shadow stack: make is given the top of the shadow stack")
    eng.obligation(st, r.meta["co"] < 0, "C25", "shadow stack: every context has one of its own", True)
    st.rw(r.id).meta["co"] = co.id
    co.extra["shadow"] = r.base


def on_switch(eng, st, co):
    b = co.extra.get("shadow")
    if b is not None:
        eng.obligation(st, of(eng, st, b) is not None, "C25", "shadow stack: that of the resumed context is mapped", True)


def idle(eng, st):
    """the client runs: no shadow stack without a context"""
    if not on(eng):
        return True
    for r in st.regions.values():
        if r.alive and "shadow" in r.meta:
            co = r.meta["co"]
            if co < 0 or co != st.cur and not any(c.id == co and c.status in ("susp", "fresh", "run") for c in st.coros):
                return False
    return True


def released(eng, st, co):
    b = co.extra.get("shadow")
    if b is not None:
        eng.obligation(st, of(eng, st, b) is None, "C25", "shadow stack: that of a context that ended is unmapped", True)


def install(B):
    B["syscall"] = c_syscall
    old = B["munmap"]
    B["munmap"] = lambda eng, st, av, name: c_munmap(eng, st, av, name) if on(eng) else old(eng, st, av, name)
