"""Contracts of the sanitizers' fiber interface (BOOST_USE_ASAN, BOOST_USE_TSAN; ucontext back-end).

AddressSanitizer: a switch is announced with the bounds of the stack that is resumed; the token of the suspended context's
fake stack is stored, or the fake stack is given up (null) because the context ends.  The resumed context completes the
switch with its own token and learns the bounds of the stack it came from.
ThreadSanitizer: every context has a fiber of its own; a switch is announced with the fiber of the resumed context."""
from .values import V, add, sub
from . import builtins as bi
from . import shstk

MAIN_STACK = 8 << 20


def on(eng, which):
    return ("vc_%s_on" % which) in eng.m.globals


def bounds(eng, st, co):
    r = st.regions.get(co.stack) if co.stack is not None else None
    if r is not None and "stk" in r.meta:
        lo, hi = r.meta["stk"]
        return lo, sub(hi, lo)
    b = co.extra.get("asan_b")
    if b is None:
        b = co.extra["asan_b"] = eng.new_region(st, "thread stack %d" % co.id, MAIN_STACK, "runtime", 4096).base
    return b, V(64, MAIN_STACK)


def token(eng, st, name, co):
    r = eng.new_region(st, name, 8, "opaque", 16)
    r.meta["co"] = co
    return r


def start(eng, st, av, name):
    save, bottom, size = av
    co = st.co
    eng.obligation(st, st.ghost.get("asan_pend") is None and st.ghost.get("asan_arr") is None, "C24", "asan: the previous switch was completed", True)
    if save.conc and save.c == 0:
        co.extra["asan"] = None
        co.extra["asan_gone"] = True
    else:
        r = token(eng, st, "fake stack %d" % co.id, co.id)
        eng.store_raw(st, save, r.base)
        co.extra["asan"] = r.base
    st.ghost["asan_pend"] = (bottom, size)
    return None


def finish(eng, st, av, name):
    fake, bp, sp = av
    co = st.co
    arr = st.ghost.get("asan_arr")
    eng.obligation(st, arr is not None, "C24", "asan: a switch is completed once", True)
    own = co.extra.get("asan")
    eng.obligation(st, fake.key() == (own if own is not None else V(64, 0)).key(), "C24", "asan: the fake stack saved by the resumed context is restored", True)
    if own is not None:
        r, _ = bi.find_region(eng, st, own)
        eng.kill_region(st, r.id, "fake stack restored")
        co.extra["asan"] = None
    lo, n = bounds(eng, st, st.coros[arr])
    if not (bp.conc and bp.c == 0):
        eng.store_raw(st, bp, lo)
    if not (sp.conc and sp.c == 0):
        eng.store_raw(st, sp, n)
    st.ghost["asan_arr"] = None
    return None


def tsan_current(eng, st, av, name):
    co = st.co
    t = co.extra.get("tsan")
    if t is None:
        t = co.extra["tsan"] = token(eng, st, "tsan fiber %d" % co.id, co.id).base
    return t


def tsan_create(eng, st, av, name):
    return token(eng, st, "tsan fiber", -1).base


def fiber_of(eng, st, h, what):
    r, off = (None, 0) if h.conc and h.c == 0 else bi.find_region(eng, st, h)
    eng.obligation(st, r is not None and r.kind == "opaque" and off == 0 and r.alive, "C24", "tsan: %s of a live fiber" % what, True)
    return r


def tsan_switch(eng, st, av, name):
    r = fiber_of(eng, st, av[0], "switch to the fiber")
    eng.obligation(st, st.ghost.get("tsan_pend") is None, "C24", "tsan: a switch is announced once", True)
    st.ghost["tsan_pend"] = r.id
    return None


def tsan_destroy(eng, st, av, name):
    r = fiber_of(eng, st, av[0], "destruction")
    cur = st.co.extra.get("tsan")
    eng.obligation(st, cur is None or cur.key() != r.base.key(), "C24", "tsan: the running fiber is not destroyed", True)
    eng.kill_region(st, r.id, "tsan fiber destroyed")
    return None


def on_switch(eng, st, cur, target):
    if on(eng, "asan"):
        p = st.ghost.get("asan_pend")
        eng.obligation(st, p is not None, "C24", "asan: every switch is announced", True)
        lo, n = bounds(eng, st, target)
        eng.obligation(st, p[0].key() == lo.key() and p[1].key() == n.key(), "C24", "asan: the announced stack is that of the resumed context", True)
        eng.obligation(st, not target.extra.get("asan_gone"), "C24", "asan: a context that gave up its fake stack is not resumed", True)
        st.ghost["asan_pend"] = None
        st.ghost["asan_arr"] = cur.id
    if on(eng, "tsan"):
        rid = st.ghost.get("tsan_pend")
        eng.obligation(st, rid is not None, "C24", "tsan: every switch is announced", True)
        r = st.rw(rid)
        if r.meta["co"] < 0 and target.extra.get("tsan") is None:
            r.meta = dict(r.meta, co=target.id)
            target.extra["tsan"] = r.base
        eng.obligation(st, r.meta["co"] == target.id, "C24", "tsan: the announced fiber is that of the resumed context", True)
        st.ghost["tsan_pend"] = None


def idle(eng, st, av, name):
    return all(st.ghost.get(k) is None for k in ("asan_pend", "asan_arr", "tsan_pend")) and shstk.idle(eng, st)


def released(eng, st, av, name):
    """the stack that begins here is about to be released"""
    s, _ = bi.find_region(eng, st, av[0])
    for co in st.coros:
        if s is None or co.stack != s.id or co.status == "fresh":
            continue
        shstk.released(eng, st, co)
        if on(eng, "asan"):
            eng.obligation(st, co.extra.get("asan") is None, "C24", "asan: the fake stack of a context that ended is given up")
        t = co.extra.get("tsan")
        if t is not None:
            r, _ = bi.find_region(eng, st, t)
            eng.obligation(st, r is None or not r.alive, "C24", "tsan: the fiber of a context that ended is destroyed")
    return None


def install(B):
    B.update({"__sanitizer_start_switch_fiber": start, "__sanitizer_finish_switch_fiber": finish, "__tsan_get_current_fiber": tsan_current,
              "__tsan_create_fiber": tsan_create, "__tsan_switch_to_fiber": tsan_switch, "__tsan_destroy_fiber": tsan_destroy,
              "__vc_san_idle": idle, "__vc_san_released": released})
