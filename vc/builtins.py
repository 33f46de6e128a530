"""Contracts of everything the verified code calls but that is not itself verified here: the assembler switch
primitives (justified by C01-C03), ucontext, split-stack runtime, C++ runtime, and the ghost vocabulary vc.h."""
import re
from . import fpctl
from . import sanit
from . import shstk
from .values import *
from .ir import *
from .engine import CONTROL, PathEnd, Park, Fork, Coro, Region

UC_SIZE, UC_LINK, UC_SP, UC_SZ = 968, 8, 16, 32
MIN_FRAME = 0x50   # make_fcontext writes at most this far below the top it is given (contract proved in C03)


def cstr_at(eng, st, v):
    x = eng.single_base(v)
    if x is None or isinstance(x[0], tuple):
        return "?"
    r = st.regions[x[0]]
    out = []
    o = x[1]
    d = r.cells.a.get(r.base.t, {})
    bo = sgn(r.base.c, 64)
    while True:
        c = d.get(bo + o)
        if c is None or not c.conc or c.c == 0:
            break
        out.append(chr(c.c))
        o += 1
    return "".join(out)


def find_region(eng, st, v):
    x = eng.single_base(v)
    if x and isinstance(x[0], int):
        return st.regions.get(x[0]), x[1]
    rs = [a.region for a, k in v.t if k == 1 and isinstance(a.region, int)]
    if len(rs) == 1:
        return st.regions.get(rs[0]), None
    return None, None


# ---------------------------------------------------------------------------------------------- vc.h
def vc_assert(eng, st, av, name):
    p = cstr_at(eng, st, av[1]) or None
    n = cstr_at(eng, st, av[2])
    eng.obligation(st, av[0], p, n)


def vc_assume(eng, st, av, name):
    b = av[0]
    if not isinstance(b, bool) and not eng.feasible(st, b):
        raise PathEnd("assume-false")
    eng.assume(st, b)


def vc_u64(eng, st, av, name):
    n = cstr_at(eng, st, av[0])
    v = fresh("in:" + n, 64)
    st.log.append((n, v))
    return v


def vc_u32(eng, st, av, name):
    n = cstr_at(eng, st, av[0])
    v = fresh("in:" + n, 32)
    st.log.append((n, v))
    return v


def vc_choice(eng, st, av, name):
    n = av[0].c
    nm = cstr_at(eng, st, av[1])

    def mk(i):
        def th(s):
            s.log.append((nm, i))
            eng.deliver(s, V(32, i))
        return th
    if n == 1:
        return V(32, 0)
    raise Fork([(True, mk(i)) for i in range(n)])


def vc_cover(eng, st, av, name):
    eng.l.cover(eng.unit, cstr_at(eng, st, av[0]), True)


def vc_region(eng, st, av, name):
    kind = cstr_at(eng, st, av[2])
    al = av[1].c
    sz = av[0].c if av[0].conc else av[0]
    r = eng.new_region(st, kind, sz, kind, max(al, 1))
    return r.base


def free_region(eng, st, p, kinds, prop, what):
    """obligation: p is the start of a live block of one of `kinds`; release it"""
    r, off = find_region(eng, st, p)
    ok = r is not None and r.kind in kinds
    if ok and off is None:
        ok = eq(p, r.base)
    elif ok:
        ok = off == sgn(0, 64)
    eng.obligation(st, ok, prop, "release: %s of exactly a block that was obtained" % what, True)
    eng.obligation(st, r.alive, prop, "release: %s only once" % what, True)
    release(eng, st, r, prop, what)


def release(eng, st, r, prop, what):
    for co in st.coros:
        if co.stack == r.id and co.status != "dead":
            eng.obligation(st, co.id != st.cur and co.status != "waits", prop, "release: no code runs on a stack that is released", True)
            bal = not any(cid == co.id for _, cid in st.caught)
            eng.obligation(st, bal, prop, "release: no exception is still being handled on a stack that is released", True)
            co.status = "dead"
            for f in co.frames:
                for a in f.allocas:
                    if st.regions[a].alive:
                        eng.kill_region(st, a, "its stack was released")
            co.frames = []
            if co.token is not None and not isinstance(co.token, V):
                eng.kill_region(st, co.token, "its context is finished")
    eng.kill_region(st, r.id, "released by %s" % what)


def vc_free(eng, st, av, name):
    free_region(eng, st, av[0], (cstr_at(eng, st, av[1]),), cstr_at(eng, st, av[2]), "deallocation")


def vc_live(eng, st, av, name):
    r, off = find_region(eng, st, av[0])
    return bool(r is not None and r.alive and not r.meta.get("ended"))


def vc_region_base(eng, st, av, name):
    r, _ = find_region(eng, st, av[0])
    return r.base if r is not None else V(64, 0)


def vc_region_size(eng, st, av, name):
    r, _ = find_region(eng, st, av[0])
    return r.size if r is not None else V(64, 0)


def vc_end(eng, st, av, name):
    raise PathEnd("return")


def vc_expect_terminate(eng, st, av, name):
    st.ghost["expect_terminate"] = cstr_at(eng, st, av[0])


LEAK_KINDS = ("heap", "malloc", "exception", "ctxstack", "mapping", "splitstack", "fiberstack")


def vc_leakcheck(eng, st, av, name):
    prop = cstr_at(eng, st, av[0])
    live = [r for r in st.regions.values() if r.alive and r.kind in LEAK_KINDS and not r.meta.get("immortal")]
    eng.obligation(st, not live, prop, "release: every memory block, exception object and stack obtained was released"
                   + (" (left: %s)" % ",".join(sorted({r.kind for r in live})) if live else ""))


def vc_runs_on(eng, st, av, name):
    r, _ = find_region(eng, st, av[0])
    s, _ = find_region(eng, st, av[1])
    if r is None or r.kind != "stack" or s is None:
        return False
    co = st.coros[r.ctx]
    return co.stack == s.id and s.alive


def vc_ctx_top(eng, st, av, name):
    return st.ghost["ctx_top"]


def vc_ctx_size(eng, st, av, name):
    return st.ghost["ctx_size"]


def vc_cur_ucontext(eng, st, av, name):
    o = st.co.extra.get("own")
    return o if o is not None else V(64, 0)


def vc_protect(eng, st, av, name):
    r, off = find_region(eng, st, av[0])
    r = st.rw(r.id)
    r.meta["prot"] = r.meta.get("prot", ()) + ((av[0], av[1], av[2].c),)


def vc_print(eng, st, av, name):
    import sys
    sys.stderr.write("[vc] %s\n" % cstr_at(eng, st, av[0]))


def run_tls_dtors(eng, st, av, name):
    st.ghost["tls_done"] = True
    run_dtors(eng, st, lambda s: eng.deliver(s, None))
    return CONTROL


def run_dtors(eng, st, cont):
    """the destructors of the running thread's thread-local objects"""
    me = ("tls", st.ghost.get("thr", 0))
    l = [(f, a) for f, a, c in st.atexit if c == me]
    st.atexit = [x for x in st.atexit if x[2] != me]
    l = list(reversed(l))

    def step(s, todo):
        if not todo:
            cont(s)
            return
        f, a = todo[0]
        eng.push(s, eng.m.funcs[eng.fn_of(s, f)], [a], kind=lambda e, s2, v, x: step(s2, x), extra=todo[1:])
    # registration order: destroyed in reverse
    step(st, l)


# ---------------------------------------------------------------------------------------------- threads
# Sequentialised: exactly one thread runs; another one continues at __vc_yield() or when one ends.  Sound because the
# frame obligation in Engine.resolve() shows that the library has no unsynchronised mutable state outside of the
# objects the client hands over and thread-local storage.
def vc_threads(eng, st, av, name):
    n = av[0].c
    st.ghost["thr"] = 0
    t = [0]
    for k in range(1, n):
        co = Coro(len(st.coros), "thread%d" % k)
        co.status = "tfresh"
        co.fn = "vc_thread_main"
        st.coros.append(co)
        t.append(co.id)
    st.ghost["tcur"] = t


def switch_thread(eng, st, what):
    me = st.ghost["thr"]
    others = [k for k, c in enumerate(st.ghost["tcur"]) if k != me and c is not None]
    if st.caught:
        raise ToolLimit("thread switch while an exception is handled")

    def mk(j, k):
        def th(s):
            if len(others) > 1:
                s.log.append((what, j))
            s.ghost["thr"] = k
            s.cur = s.ghost["tcur"][k]
            co = s.co
            if co.status == "tfresh":
                co.status = "run"
                eng.push(s, eng.m.funcs[co.fn], [V(32, k)], kind=thread_end)
            else:
                co.status = "run"
                eng.deliver(s, None)
        return th
    raise Fork([(True, mk(j, k)) for j, k in enumerate(others)])


def vc_yield(eng, st, av, name):
    st.ghost["tcur"][st.ghost["thr"]] = st.cur
    st.co.status = "waits"
    switch_thread(eng, st, "yield")


def thread_end(eng, st, v, x):
    def fin(s):
        s.ghost["tcur"][s.ghost["thr"]] = None
        s.co.status = "dead"
        for rid in list(s.regions):
            if s.regions[rid].alive and s.regions[rid].meta.get("tls") == s.ghost["thr"]:
                eng.kill_region(s, rid, "the thread ended")
        switch_thread(eng, s, "after the end of a thread")
    run_dtors(eng, st, fin)


def vc_thread(eng, st, av, name):
    return V(32, st.ghost.get("thr", 0))


# ---------------------------------------------------------------------------------------------- fcontext
def token_of(eng, st, to, what):
    if to.conc and to.c == 0:
        eng.obligation(st, False, None, "switch: %s through an empty handle" % what, True)
    x = eng.single_base(to)
    if x is None or isinstance(x[0], tuple) or x[1] != 0:
        if any(a.name.startswith("undef") for a, k in to.t):
            eng.obligation(st, False, None, "switch: %s to an uninitialised context" % what, True)
        if x is None:
            from .values import ToolLimit
            raise ToolLimit("symbolic context handle %r" % (to,))
        eng.obligation(st, False, None, "switch: %s to something that is not a context" % what, True)
    r = st.regions[x[0]]
    if r.kind != "opaque" or "co" not in r.meta or "shadow" in r.meta or r.meta["co"] < 0:
        eng.obligation(st, False, None, "switch: %s to something that is not a context" % what, True)
    if not r.alive:
        eng.obligation(st, False, None, "switch: %s only to a suspended context (%s)" % (what, r.why), True)
    eng.obligation(st, True, None, "switch: %s only to a suspended context" % what)
    return st.coros[r.meta["co"]], r


def new_token(eng, st, co):
    r = eng.new_region(st, "ctx%d" % co.id, 8, "opaque", 16)
    r.meta["co"] = co.id
    co.token = r.id
    return r.base


def make_fcontext(eng, st, av, name):
    sp, size, fn = av
    r, off = find_region(eng, st, sp)
    if r is None:
        if any(a.name.startswith("undef") for a, k in sp.t):
            eng.obligation(st, False, "C04", "make: stack pointer is initialised", True)
        raise ToolLimit("make_fcontext on unknown memory")
    eng.obligation(st, r.alive and r.kind in ("ctxstack", "mapping", "heap", "malloc", "splitstack"), "C04", "make: the context is made on a live stack of the allocator", True)
    o = sub(sp, r.base)
    eng.obligation(st, ule(o, r.size), "C04", "make: the initial stack pointer is inside the stack", True)
    lo = st.ghost.get("bottom")
    eng.obligation(st, ule(size, o), "C04", "make: the stack size does not reach below the stack's bottom")
    eng.obligation(st, ule(V(64, MIN_FRAME), size), "C04", "make: the initial frame fits", True)
    eng.obligation(st, not any(c.stack == r.id and c.status not in ("dead",) for c in st.coros), "C06", "make: a stack serves one context at a time")
    f = eng.fn_of(st, fn)
    st.ghost["ctx_top"] = sp
    st.ghost["ctx_size"] = size
    co = Coro(len(st.coros), "ctx%d" % len(st.coros))
    co.status = "fresh"
    co.stack = r.id
    co.fn = f
    fpctl.inherit(st, co)
    shstk.on_make(eng, st, co, sp)
    st.coros.append(co)
    r = st.rw(r.id)
    # from now on [bottom, top) belongs to the running context: no other access to it
    if off is not None and r.size.conc:
        r.cells.kill(r.base.t, sgn(r.base.c, 64), off)
    r.meta["stk"] = (r.base, sp)
    return new_token(eng, st, co)


def suspend(eng, st):
    cur = st.co
    cur.status = "susp"
    return cur, new_token(eng, st, cur)


def activate(eng, st, co, r):
    eng.kill_region(st, r.id, "the handle was already used")
    co.token = None
    st.cur = co.id
    fresh_ = co.status == "fresh"
    co.status = "run"
    return fresh_


def jump_fcontext(eng, st, av, name):
    to, data = av
    co, r = token_of(eng, st, to, "switch")
    cur, tok = suspend(eng, st)
    shstk.on_switch(eng, st, co)
    if activate(eng, st, co, r):
        eng.push(st, eng.m.funcs[co.fn], [tok, data])
    else:
        eng.deliver(st, [tok, data])
    return CONTROL


def ontop_fcontext(eng, st, av, name):
    to, data, fn = av
    co, r = token_of(eng, st, to, "switch with an on-top function")
    f = eng.fn_of(st, fn)
    cur, tok = suspend(eng, st)
    shstk.on_switch(eng, st, co)
    if activate(eng, st, co, r):
        # documented restriction of ontop_fcontext: the target must have been entered before
        eng.obligation(st, False, None, "switch: an on-top function is only run on a context that was entered before", True)
    b = eng.lookup_builtin(f)
    eng.push(st, eng.m.funcs[f], [tok, data], kind=lambda e, s, v, x: e.deliver(s, v), extra={"ontop": True})
    return CONTROL


# ---------------------------------------------------------------------------------------------- ucontext
def errno_location(eng, st, av, name):
    rid = st.ghost.get("errno")
    if rid is None:
        r = eng.new_region(st, "errno", 4, "runtime", 4)
        r.default = "ext"
        st.ghost["errno"] = rid = r.id
    return st.regions[rid].base


def uc_check(eng, st, p, write, what):
    eng.resolve(st, p, UC_SIZE, write, what)


def getcontext(eng, st, av, name):
    p = av[0]
    uc_check(eng, st, p, True, "getcontext")

    def ok(s):
        uc_havoc(eng, s, p)
        s.ghost.setdefault("uc_init", {})[p.key()] = True
        eng.deliver(s, V(32, 0))

    def bad(s):
        s.log.append(("getcontext fails", 1))
        eng.deliver(s, V(32, -1))
    def ok1(s):
        s.log.append(("getcontext fails", 0))
        ok(s)
    if st.ghost.get("fail_getcontext"):
        raise Fork([(True, ok1), (True, bad)])
    ok(st)
    return CONTROL


def uc_havoc(eng, st, p):
    r, a, o = eng.resolve(st, p, UC_SIZE, True, "getcontext")
    r = st.rw(r.id)
    # flags/link/stack fields and machine state become whatever the current context has
    r.cells.kill(a, o, UC_SIZE)
    r.cells.store(a, o + UC_LINK, fresh("uc_link", 64))


def makecontext(eng, st, av, name):
    p, fn, argc = av[0], av[1], av[2]
    uc_check(eng, st, p, True, "makecontext")
    eng.obligation(st, p.key() in st.ghost.get("uc_init", {}), "C04", "make: makecontext is applied to a record filled by getcontext", True)
    sp = eng.load_raw(st, add(p, V(64, UC_SP)), 8)
    sz = eng.load_raw(st, add(p, V(64, UC_SZ)), 8)
    link = eng.load_raw(st, add(p, V(64, UC_LINK)), 8)
    r, off = find_region(eng, st, sp)
    if r is None:
        eng.obligation(st, False, "C04", "make: the context's stack is a block of the allocator", True)
    eng.obligation(st, r.alive and r.kind in ("ctxstack", "mapping", "heap", "malloc", "splitstack"), "C04", "make: the context is made on a live stack of the allocator", True)
    o = sub(sp, r.base)
    eng.obligation(st, ule(o, r.size), "C04", "make: the stack's bottom is inside the allocator's stack", True)
    eng.obligation(st, ule(sz, sub(r.size, o)), "C04", "make: the initial stack does not reach beyond the allocator's stack", True)
    eng.obligation(st, ule(V(64, 1024), sz), "C04", "make: the initial frame fits", True)
    eng.obligation(st, eq(link, V(64, 0)), "C05", "make: no implicit successor context is set")
    eng.obligation(st, not any(c.stack == r.id and c.status not in ("dead",) for c in st.coros), "C06", "make: a stack serves one context at a time")
    f = eng.fn_of(st, fn)
    co = Coro(len(st.coros), "ctx%d" % len(st.coros))
    co.status = "fresh"
    co.stack = r.id
    co.fn = f
    co.pend = av[3:3 + argc.c]
    co.extra["own"] = p
    co.token = p
    fpctl.inherit(st, co)
    st.coros.append(co)
    r = st.rw(r.id)
    r.meta["stk"] = (sp, add(sp, sz))
    st.ghost["ctx_top"] = add(sp, sz)
    st.ghost["ctx_size"] = sz
    rr, _ = find_region(eng, st, sp)
    for s in st.ghost.get("ss_by_region", {}).items():
        if s[0] == r.id:
            co.ss = s[1]
            co.extra["ssid"] = r.base
    return None


def swapcontext(eng, st, av, name):
    o, u = av
    cur = st.co
    uc_check(eng, st, o, True, "swapcontext")
    uc_check(eng, st, u, False, "swapcontext")
    own = cur.extra.get("own")
    if own is None:
        cur.extra["own"] = own = o
    same = own.key() == o.key()
    eng.obligation(st, same, "C18", "switch: the machine state of the suspended context is stored in its own record", True)
    target = None
    for co in st.coros:
        if isinstance(co.token, V) and co.token.key() == u.key() and co.status in ("susp", "fresh"):
            target = co
    if target is None:
        why = "not a suspended context"
        for co in st.coros:
            w = co.extra.get("own")
            if w is not None and w.key() == u.key():
                why = "context is " + co.status
        eng.obligation(st, False, None, "switch: only to a suspended context (%s)" % why, True)
    eng.obligation(st, True, None, "switch: only to a suspended context")
    sanit.on_switch(eng, st, cur, target)
    cur.status = "susp"
    cur.token = o
    if "ss_cur" in st.ghost or target.ss is not None:
        ssv, sid = st.ghost.get("ss_cur"), st.ghost.get("ss_id")
        tid = target.extra.get("ssid")
        eng.obligation(st, ssv is not None and target.ss is not None and tid is not None and ssv.key() == target.ss.key()
                       and sid.key() == tid.key(), "C13",
                       "switch: the split-stack state of the resumed context is installed before it runs", True)
        nv = fresh("ss", 64)
        st.ghost["ss_cur"] = nv
        target.ss = nv
    st.cur = target.id
    target.token = None
    fr = target.status == "fresh"
    target.status = "run"
    if fr:
        eng.push(st, eng.m.funcs[target.fn], list(target.pend))
    else:
        eng.deliver(st, V(32, 0))
    return CONTROL


# ---------------------------------------------------------------------------------------------- split stacks
SS_SLOTS = 10


def ss_main(eng, st):
    """the running context has split-stack state from the beginning"""
    if "ss_cur" not in st.ghost:
        st.ghost["ss_cur"] = st.co.ss = fresh("ss_main", 64)
        st.ghost["ss_id"] = st.co.extra["ssid"] = eng.new_region(st, "ss_main", 8, "runtime", 8).base


def ss_store(eng, st, p, sid, ver):
    """a split-stack descriptor: slot 0 is the segment list (constant during a context's life), the others change"""
    eng.store_raw(st, p, sid)
    for i in range(1, SS_SLOTS):
        eng.store_raw(st, add(p, V(64, 8 * i)), add(ver, V(64, i)))


def ss_getcontext(eng, st, av, name):
    """__splitstack_getcontext(ctx): stores the running context's split-stack state"""
    ss_main(eng, st)
    ss_store(eng, st, av[0], st.ghost["ss_id"], st.ghost["ss_cur"])
    return None


def vc_segments(eng, st, av, name):
    nv = fresh("ss_new", 64)
    r, _ = find_region(eng, st, av[1])
    ss_store(eng, st, av[0], r.base, nv)
    d = dict(st.ghost.get("ss_by_region", {}))
    d[r.id] = nv
    st.ghost["ss_by_region"] = d
    return None


def vc_fail(eng, st, av, name):
    st.ghost["fail_" + cstr_at(eng, st, av[0])] = av[1].c
    return None


def vc_havoc(eng, st, av, name):
    if not av[1].conc:
        raise ToolLimit("havoc of symbolic length")
    r, a, o = eng.resolve(st, av[0], av[1].c, True, "havoc")
    st.rw(r.id).cells.kill(a, o, av[1].c)
    return None


def ss_setcontext(eng, st, av, name):
    p = av[0]
    ss_main(eng, st)
    st.ghost["ss_id"] = eng.load_raw(st, p, 8)
    st.ghost["ss_cur"] = nv = sub(eng.load_raw(st, add(p, V(64, 8)), 8), V(64, 1))
    for i in range(2, SS_SLOTS):
        w = eng.load_raw(st, add(p, V(64, 8 * i)), 8)
        eng.obligation(st, w.key() == add(nv, V(64, i)).key(), "C13", "switch: the installed split-stack descriptor is complete", True)
    return None


# ---------------------------------------------------------------------------------------------- C++ runtime
def op_new(eng, st, av, name):
    sz = av[0].c if av[0].conc else av[0]
    if st.ghost.get("fail_new") == 2:
        eng.obligation(st, False, "C08", "handle: an operation that needs no memory allocates none", True)
    r = eng.new_region(st, "heap", sz, "heap", 16)

    if st.ghost.get("fail_new"):
        def ok(s):
            s.log.append(("operator new fails", 0))
            eng.deliver(s, r.base)

        def bad(s):
            s.log.append(("operator new fails", 1))
            eng.kill_region(s, r.id, "never allocated")
            throw_std(eng, s, "_ZTISt9bad_alloc")
        raise Fork([(True, ok), (True, bad)])
    return r.base


def throw_std(eng, st, ti):
    e = eng.new_region(st, "exc", 64, "exception", 16)
    st.exc[e.base.key()] = {"ti": ti, "ptr": e.base, "dtor": None, "rid": e.id, "handlers": 0}
    eng.throw(st, e.base.key())


def op_delete(eng, st, av, name):
    if av[0].conc and av[0].c == 0:
        return None
    free_region(eng, st, av[0], ("heap",), "C06", "operator delete")


def c_malloc(eng, st, av, name):
    w = eng.m.funcs.get("__wrap_" + name)
    if w is not None and w.defined:
        eng.push(st, w, av)
        return CONTROL
    raise ToolLimit("no contract for " + name)


def cxa_allocate_exception(eng, st, av, name):
    r = eng.new_region(st, "exc", av[0].c, "exception", 16)
    return r.base


def cxa_free_exception(eng, st, av, name):
    r, _ = find_region(eng, st, av[0])
    eng.kill_region(st, r.id, "exception never thrown")


def cxa_throw(eng, st, av, name):
    p, ti, dt = av
    x = eng.single_base(ti)
    tn = st.regions[x[0]].meta.get("gname")
    r, _ = find_region(eng, st, p)
    st.exc[p.key()] = {"ti": tn, "ptr": p, "dtor": None if dt.conc and dt.c == 0 else dt, "rid": r.id, "handlers": 0}
    eng.throw(st, p.key())
    return CONTROL


def cxa_begin_catch(eng, st, av, name):
    k = av[0].key()
    e = st.exc[k]
    e["handlers"] = 1 - e["handlers"] if e["handlers"] < 0 else e["handlers"] + 1
    st.caught.append((k, st.cur))
    return e["ptr"]


def cxa_get_exception_ptr(eng, st, av, name):
    return av[0]


def end_catch_key(eng, st, k, cont):
    """the last handler of exception k ends"""
    e = st.exc[k]
    neg = e["handlers"] < 0     # it was rethrown meanwhile
    e["handlers"] += 1 if neg else -1
    if e["handlers"] == 0 and not neg:
        def fin(s):
            eng.kill_region(s, e["rid"], "exception object destroyed")
            s.exc.pop(k, None)
            cont(s)
        if e["dtor"] is not None:
            f = eng.fn_of(st, e["dtor"])
            b = eng.lookup_builtin(f)
            if b is not None:
                b(eng, st, [e["ptr"]], f)
                fin(st)
            else:
                eng.push(st, eng.m.funcs[f], [e["ptr"]], kind=lambda g, s, v, x: fin(s))
        else:
            fin(st)
    else:
        cont(st)


def cxa_end_catch(eng, st, av, name):
    eng.obligation(st, bool(st.caught), None, "exceptions: a handler ends that began", True)
    k, cid = st.caught.pop()
    eng.obligation(st, cid == st.cur, None, "exceptions: handlers end on the context they began on", True)
    end_catch_key(eng, st, k, lambda s: eng.deliver(s, None))
    return CONTROL


def cxa_rethrow(eng, st, av, name):
    if not st.caught:
        eng.terminate(st, "rethrow without exception")
    k, cid = st.caught[-1]
    eng.obligation(st, cid == st.cur, None, "exceptions: an exception is rethrown on the context it was caught on", True)
    st.exc[k]["handlers"] = -abs(st.exc[k]["handlers"])
    eng.throw(st, k)
    return CONTROL


def std_terminate(eng, st, av, name):
    eng.terminate(st, "called")


def assert_fail(eng, st, av, name):
    eng.obligation(st, False, None, "assertion: " + cstr_at(eng, st, av[0])[:120], True)


def guard_acquire(eng, st, av, name):
    b = eng.load_raw(st, av[0], 1)
    if b.conc:
        if not b.c:
            st.ghost["guarded"] = st.ghost.get("guarded", 0) + 1   # initialised under the runtime's lock
        return V(32, 0 if b.c else 1)
    raise ToolLimit("guard")


def guard_release(eng, st, av, name):
    eng.store_raw(st, av[0], V(8, 1))
    st.ghost["guarded"] -= 1


def guard_abort(eng, st, av, name):
    st.ghost["guarded"] -= 1


def thread_atexit(eng, st, av, name):
    st.atexit.append((av[0], av[1], ("tls", st.ghost.get("thr", 0))))
    return V(32, 0)


def cxa_atexit(eng, st, av, name):
    st.atexit.append((av[0], av[1], "proc"))
    return V(32, 0)


def nop(eng, st, av, name):
    return None


def system_category(eng, st, av, name):
    rid = st.ghost.get("syscat")
    if rid is None:
        r = eng.new_region(st, "system_category", 8, "runtime", 8)
        st.ghost["syscat"] = rid = r.id
    return st.regions[rid].base


def pure_virtual(eng, st, av, name):
    eng.obligation(st, False, None, "control: a pure virtual function is called", True)


def bad_function_call(eng, st, av, name):
    throw_std(eng, st, "_ZTISt17bad_function_call")
    return CONTROL


def throw_bad_alloc(eng, st, av, name):
    throw_std(eng, st, "_ZTISt9bad_alloc")
    return CONTROL


def proc_exit(eng, st, av, name):
    eng.obligation(st, False, None, "control: the process exits", True)


def memcmp(eng, st, av, name):
    a, b, n = av
    if not n.conc or n.c > 64:
        raise ToolLimit("memcmp")
    for i in range(n.c):
        x = eng.load_raw(st, add(a, V(64, i)), 1)
        y = eng.load_raw(st, add(b, V(64, i)), 1)
        if x.conc and y.conc:
            if x.c != y.c:
                return V(32, 1 if x.c > y.c else -1)
        else:
            return fresh("memcmp", 32)
    return V(32, 0)


def c_memcpy(eng, st, av, name):
    if not av[2].conc:
        raise ToolLimit("memcpy of symbolic length")
    eng.memcpy(st, av[0], av[1], av[2].c)
    return av[0]


def c_strcmp(eng, st, av, name):
    x, y = cstr_at(eng, st, av[0]), cstr_at(eng, st, av[1])
    return V(32, (x > y) - (x < y))


def install(eng):
    B = eng.builtins
    g = globals()
    for n in ("assert", "assume", "u64", "u32", "choice", "cover", "region", "free", "live", "region_base", "region_size",
              "end", "expect_terminate", "leakcheck", "runs_on", "ctx_top", "ctx_size", "cur_ucontext", "protect", "print"):
        B["__vc_" + n] = g["vc_" + n]
    B["__vc_run_tls_dtors"], B["__vc_next"] = run_tls_dtors, vc_end
    B["__vc_loophead"] = vc_loophead
    B["__vc_threads"], B["__vc_yield"], B["__vc_thread"] = vc_threads, vc_yield, vc_thread
    B["__vc_loops"] = vc_loops
    eng.hooks["prefetch"] = prefetch
    B["__vc_segments"], B["__vc_havoc"], B["__vc_fail"] = vc_segments, vc_havoc, vc_fail
    fpctl.install(eng)
    B["jump_fcontext"], B["make_fcontext"], B["ontop_fcontext"] = jump_fcontext, make_fcontext, ontop_fcontext
    B["getcontext"], B["makecontext"], B["swapcontext"] = getcontext, makecontext, swapcontext
    B["__splitstack_getcontext"], B["__splitstack_setcontext"] = ss_getcontext, ss_setcontext
    for n in ("_Znwm", "_Znam"):
        B[n] = op_new
    for n in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm"):
        B[n] = op_delete
    for n in ("malloc", "free", "calloc", "mmap", "munmap", "mprotect", "sysconf", "getrlimit", "__splitstack_makecontext",
              "__splitstack_releasecontext", "__splitstack_block_signals_context", "getpagesize",
              "__splitstack_resetcontext", "posix_memalign", "VirtualAlloc", "VirtualProtect", "VirtualFree", "GetSystemInfo",
              "GetNativeSystemInfo"):
        B[n] = c_malloc
    from . import winfib
    winfib.install(B)
    sanit.install(B)
    shstk.install(B)
    B["__cxa_allocate_exception"] = cxa_allocate_exception
    B["__cxa_free_exception"] = cxa_free_exception
    B["__cxa_throw"] = cxa_throw
    B["__cxa_begin_catch"] = cxa_begin_catch
    B["__cxa_get_exception_ptr"] = cxa_get_exception_ptr
    B["__cxa_end_catch"] = cxa_end_catch
    B["__cxa_rethrow"] = cxa_rethrow
    B["_ZSt9terminatev"] = std_terminate
    B["abort"] = std_terminate
    B["__assert_fail"] = assert_fail
    B["__cxa_guard_acquire"], B["__cxa_guard_release"], B["__cxa_guard_abort"] = guard_acquire, guard_release, guard_abort
    B["__cxa_thread_atexit"] = thread_atexit
    B["__cxa_atexit"] = cxa_atexit
    B["__cxa_pure_virtual"] = pure_virtual
    B["_ZSt25__throw_bad_function_callv"] = bad_function_call
    B["_ZSt17__throw_bad_allocv"] = throw_bad_alloc
    B["_ZSt28__throw_bad_array_new_lengthv"] = throw_bad_alloc
    B["_ZNSt3_V215system_categoryEv"] = system_category
    B["__errno_location"] = errno_location
    B["memcmp"] = memcmp
    B["memcpy"] = B["memmove"] = c_memcpy
    B["strcmp"] = c_strcmp
    for n in ("exit", "_exit", "_Exit", "quick_exit"):
        B[n] = proc_exit
    noops = [r"^std::(system_error|bad_alloc|exception|runtime_error|logic_error|error_category|bad_function_call|length_error)::~?\w+\(",
             r"^std::ios_base::Init::~?Init\(", r"^std::error_code::_M_throw"]
    for p in noops:
        rx = re.compile(p)
        eng.patterns.append((lambda d, rx=rx: rx.search(d) is not None, nop))

    # an empty std::function holds no value: its buffer is indeterminate after it was cleared or created empty
    def empty_function(e, st, av):
        r, o = find_region(e, st, av[0])
        if r is None or not r.alive:
            return
        m = e.load_raw(st, add(av[0], V(64, 16)), 8)
        if m.conc and m.c == 0:
            r, a, o = e.resolve(st, av[0], 16, True, "std::function")
            st.rw(r.id).cells.kill(a, o, 16)
    rx_fn = re.compile(r"^std::function<.*>::(operator=\(decltype\(nullptr\)\)|operator=\(std::nullptr_t\)|function\(\)|function\(std::function<.*&&\)|swap\()")
    eng.post_patterns.append((lambda d: rx_fn.search(d) is not None, empty_function))

    def terminate(e, st, why):
        exp = st.ghost.get("expect_terminate")
        loc = e.loc1(st)
        e.obligation(st, exp is not None, exp, "control: std::terminate is called only where required" if exp is None
                     else "control: std::terminate is called as required", True)
        f = e.m.funcs.get("vc_on_terminate")
        if f is not None and f.defined and not st.ghost.get("in_terminate"):
            st.ghost["in_terminate"] = True

            def done(e2, s, v, x):
                raise PathEnd("return")
            e.push(st, f, [], kind=done)
            raise Fork([(True, lambda s: None)])
        raise PathEnd("return")
    eng.hooks["terminate"] = terminate

    def coro_return(e, st, v):
        e.obligation(st, False, "C05", "control: a finished context hands over control instead of returning off its stack", True)
    eng.hooks["coro_return"] = coro_return


def prefetch(eng, st, av):
    """llvm.prefetch: the harness observes the address"""
    f = eng.m.funcs.get("vc_on_prefetch")
    if f is None or not f.defined:
        return False
    eng.push(st, f, [av[0]], kind=lambda e, s, v, x: e.deliver(s, None))
    return True


def vc_loops(eng, st, av, name):
    eng.loop_prop = cstr_at(eng, st, av[0])


def vc_loophead(eng, st, av, name):
    from .canon import Canon
    k = Canon(eng, st).key()
    if k in eng.seen:
        raise PathEnd("known-state")
    eng.seen.add(k)
    if len(eng.seen) > eng.max_states:
        raise ToolLimit("state limit")
    n = st.ghost["depth"] = st.ghost.get("depth", 0) + 1
    if n % 40 == 0:     # long histories wait until all shorter ones were explored
        st.ghost["_resume"] = lambda s: eng.deliver(s, None)
        raise Park()
