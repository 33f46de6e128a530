"""Contracts of the Win32 fiber functions (the boundary of the Windows-fiber back-end).

A fiber handle is an opaque object.  CreateFiber either fails (null, when the harness enables it) or creates a fiber with
a stack of its own; SwitchToFiber needs a running fiber and a suspended (or new) live target; DeleteFiber releases a fiber
that is not running, once.  Whether the thread was a fiber before is arbitrary."""
from .values import V, fresh
from .engine import Fork, Coro
from . import builtins as bi


def main(st):
    return st.ghost.get("win_fiber")


def handle(eng, st, co):
    r = eng.new_region(st, "fiber%d" % co.id, 8, "opaque", 16)
    r.meta["co"] = co.id
    r.meta["above"] = 0xffff   # the lowest 64 KiB are never mapped; 0x1e00 is what a thread that is no fiber reads
    co.extra["own"] = r.base
    return r.base


def converted(st):
    return st.co.id != 0 or st.ghost.get("win_main") == "fiber"


def ask(eng, st, k):
    """is the thread a fiber already?"""
    if st.co.id != 0 or "win_main" in st.ghost:
        return k(st)

    def alt(v):
        def th(s):
            s.log.append(("thread is a fiber", int(v)))
            s.ghost["win_main"] = "fiber" if v else "thread"
            if v:
                handle(eng, s, s.co)
            r = k(s)
            if r is not bi.CONTROL:
                eng.deliver(s, r)
        return th
    raise Fork([(True, alt(False)), (True, alt(True))])


def is_thread_a_fiber(eng, st, av, name):
    return ask(eng, st, lambda s: V(32, int(converted(s))))


def get_current_fiber(eng, st, av, name):
    eng.obligation(st, converted(st), "C21", "fiber: GetCurrentFiber() is used only in a fiber", True)
    return st.co.extra["own"]


def convert_thread(eng, st, av, name):
    def k(s):
        if converted(s):
            s.ghost["win_err"] = 1280
            return V(64, 0)
        s.ghost["win_main"] = "fiber"
        return handle(eng, s, s.co)
    return ask(eng, st, k)


def convert_fiber(eng, st, av, name):
    eng.obligation(st, converted(st), "C21", "fiber: only a fiber is converted back to a thread", True)
    eng.obligation(st, st.co.id == 0, "C21", "fiber: only the thread's own fiber is converted back", True)
    r, _ = bi.find_region(eng, st, st.co.extra["own"])
    eng.kill_region(st, r.id, "converted back to a thread")
    del st.co.extra["own"]
    st.ghost["win_main"] = "thread"
    return V(32, 1)


def create_fiber(eng, st, av, name):
    size, fn, data = av
    f = eng.fn_of(st, fn)

    def ok(s):
        co = Coro(len(s.coros), "fiber%d" % len(s.coros))
        co.status = "fresh"
        co.stack = eng.new_region(s, "fiber stack", 65536, "fiberstack", 16).id
        co.fn = f
        co.pend = [data]
        s.coros.append(co)
        eng.deliver(s, handle(eng, s, co))

    def ok1(s):
        s.log.append(("CreateFiber fails", 0))
        ok(s)

    def bad(s):
        s.log.append(("CreateFiber fails", 1))
        s.ghost["win_err"] = 8
        eng.deliver(s, V(64, 0))
    if st.ghost.get("fail_CreateFiber"):
        raise Fork([(True, ok1), (True, bad)])
    ok(st)
    return bi.CONTROL


def target_of(eng, st, h, what):
    if h.conc and h.c == 0:
        eng.obligation(st, False, "C21", "fiber: %s of a fiber that was created" % what, True)
    r, off = bi.find_region(eng, st, h)
    ok = r is not None and r.kind == "opaque" and "co" in r.meta and off == 0
    eng.obligation(st, ok, "C21", "fiber: %s of a fiber that was created" % what, True)
    eng.obligation(st, r.alive, "C21", "fiber: %s of a live fiber" % what, True)
    return st.coros[r.meta["co"]], r


def switch_to_fiber(eng, st, av, name):
    eng.obligation(st, converted(st), "C21", "fiber: a thread is converted before it switches", True)
    co, r = target_of(eng, st, av[0], "SwitchToFiber()")
    eng.obligation(st, co.status in ("susp", "fresh"), "C21", "fiber: switch only to a suspended fiber (%s)" % co.status, True)
    st.co.status = "susp"
    st.cur = co.id
    new = co.status == "fresh"
    co.status = "run"
    if new:
        eng.push(st, eng.m.funcs[co.fn], list(co.pend))
    else:
        eng.deliver(st, None)
    return bi.CONTROL


def delete_fiber(eng, st, av, name):
    co, r = target_of(eng, st, av[0], "DeleteFiber()")
    eng.obligation(st, co.id != 0 and co.stack is not None, "C21", "fiber: the thread's own fiber is not deleted", True)
    eng.obligation(st, co.id != st.cur, "C21", "fiber: the running fiber is not deleted (it would end the thread)", True)
    s = st.regions[co.stack]
    bi.release(eng, st, s, "C21", "DeleteFiber()")
    co.status = "dead"
    eng.kill_region(st, r.id, "DeleteFiber()")
    return None


def get_last_error(eng, st, av, name):
    e = st.ghost.get("win_err")
    return V(32, e) if e is not None else fresh("win_err", 32)


def install(B):
    B.update({"IsThreadAFiber": is_thread_a_fiber, "GetCurrentFiber": get_current_fiber, "ConvertThreadToFiber": convert_thread,
              "ConvertFiberToThread": convert_fiber, "CreateFiber": create_fiber, "SwitchToFiber": switch_to_fiber,
              "DeleteFiber": delete_fiber, "GetLastError": get_last_error})
