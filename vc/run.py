"""Build harness modules from /repo's working tree and run verification units over them."""
import os
import re
import subprocess
import time
from . import values as val
from .values import ToolLimit
from .ir import Module
from .engine import Engine, State, Coro, PathEnd
from . import builtins as bi

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = ["clang++", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-fno-discard-value-names", "-S", "-emit-llvm",
         "-I" + REPO + "/include", "-I" + HERE + "/harness", "-Wno-everything", "-DBOOST_CONTEXT_NO_LIB", "-DBOOST_CONTEXT_SOURCE",
         "-DBOOST_CONTEXT_STATIC_LINK"]


class BuildError(ToolLimit):
    pass


class Config:
    def __init__(self, name, std="c++17", defs=(), srcs=(), flags=()):
        self.name, self.std, self.defs, self.srcs, self.flags = name, std, tuple(defs), tuple(srcs), tuple(flags)


FC = ["src/fcontext.cpp"]
UC = ["src/fiber.cpp", "src/continuation.cpp"]


def cfg(back, std="c++17", asserts=False, extra=()):
    defs = [] if asserts else ["NDEBUG"]
    defs += list(extra)
    srcs = []
    if back == "fc":
        srcs = FC
    elif back == "ss":
        defs.append("SHADOW_STACK_SYSCALL=1")
        return Config("%s/%s%s" % (back, std, "/assert" if asserts else ""), std, defs, FC, ["-fcf-protection=full"])
    elif back == "uc":
        defs.append("BOOST_USE_UCONTEXT=")
        srcs = UC
    elif back == "seg":
        defs += ["BOOST_USE_UCONTEXT=", "BOOST_USE_SEGMENTED_STACKS="]
        srcs = UC
    elif back == "win":
        defs += ["BOOST_USE_WINFIB="]
        return Config("%s/%s%s" % (back, std, "/assert" if asserts else ""), std, defs, UC, ["-I" + HERE + "/harness/win"])
    elif back == "wrap":
        srcs = FC
    elif back == "none":
        srcs = []
    elif back == "winos":   # the Windows stack allocator over a stand-in for windows.h
        return Config("%s/%s%s" % (back, std, "/assert" if asserts else ""), std, defs, [], ["-I" + HERE + "/harness/win"])
    elif back == "pool":    # boost::pool replaced by its contract
        return Config("%s/%s%s" % (back, std, "/assert" if asserts else ""), std, defs, [], ["-I" + HERE + "/harness/pool"])
    return Config("%s/%s%s" % (back, std, "/assert" if asserts else ""), std, defs, srcs)


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def compile_module(work, harness, config, extra_srcs=(), mem2reg=True):
    """-> Module of harness + the library sources it is linked with"""
    os.makedirs(work, exist_ok=True)
    lls = []
    procs = []
    for s in [os.path.join(HERE, "harness", harness)] + [os.path.join(REPO, x) for x in tuple(config.srcs) + tuple(extra_srcs)]:
        out = os.path.join(work, re.sub(r"\W", "_", config.name + "_" + os.path.basename(harness) + "_" + os.path.relpath(s, "/")) + ".ll")
        cmd = CLANG + list(config.flags) + ["-std=" + config.std] + ["-D" + d for d in config.defs] + [s, "-o", out]
        procs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True), cmd, out))
    for p, cmd, out in procs:
        _, err = p.communicate()
        if p.returncode:
            raise BuildError("does not compile: %s\n%s" % (" ".join(cmd), err[-3000:]))
        lls.append(out)
    if len(lls) > 1:
        out = os.path.join(work, re.sub(r"\W", "_", config.name + "_" + harness) + "_linked.ll")
        r = sh(["llvm-link", "-S"] + lls + ["-o", out])
        if r.returncode:
            raise BuildError("llvm-link: " + r.stderr[-2000:])
    else:
        out = lls[0]
    if mem2reg:
        o2 = out[:-3] + ".m2r.ll"
        r = sh(["opt", "-S", "-passes=mem2reg", out, "-o", o2])
        if r.returncode:
            raise BuildError("opt: " + r.stderr[-2000:])
        out = o2
    with open(out) as f:
        m = Module(f.read())
    names = set(m.funcs) | set(m.globals) | set(m.aliases)
    d = subprocess.run(["llvm-cxxfilt"], input="\n".join(sorted(names)), capture_output=True, text=True).stdout.split("\n")
    m.demangled = dict(zip(sorted(names), d))
    src = set()     # variables of the library's translation units
    for x in lls[1:] if len(procs) > 1 else []:
        src |= set(re.findall(r'^@"?([\w.$]+)"? = ', open(x).read(), flags=re.M))
    m.lib_globals = {n for n in m.globals if re.sub(r"\.\d+$", "", n) in src or re.search(r"\bboost::", m.demangled.get(n, ""))}
    return m


def global_ctors(m):
    g = m.globals.get("llvm.global_ctors")
    if g is None:
        return []
    m.gparse(g)
    out = []
    for t, v in g.init[1]:
        prio, fn = v[1][0][1], v[1][1][1]
        out.append((prio[1], fn[1]))
    return [f for _, f in sorted(out, key=lambda x: x[0])]


REPEAT = 6


def run_unit(m, fn, prover, ledger, label, setup=None, alias=None, repeat=True, **kw):
    """symbolically execute harness function `fn`; what it leaves behind in static variables is there when it is executed
    again, until no new state is met"""
    from .canon import Canon

    def again(e, s, v, x):
        forget_ghosts(e, s)
        n = s.ghost["runs"] = s.ghost.get("runs", 0) + 1
        drop_unrelated(s)
        k = Canon(e, s).key()
        if k in e.seen:
            raise PathEnd("return")
        e.seen.add(k)
        if n >= REPEAT:
            e.unconverged = True
            raise PathEnd("return")
        e.push(s, m.funcs[fn], [], kind=again)
    eng = Engine(m, prover, ledger, label, **kw)
    eng.demangled = m.demangled
    eng.alias = alias
    eng.repeating = repeat
    bi.install(eng)
    st = State()
    co = Coro(0, "main")
    st.coros = [co]
    if setup:
        setup(eng, st)
    eng.push(st, m.funcs[fn], [], kind=again if repeat else None)
    for c in reversed(global_ctors(m)):
        eng.push(st, m.funcs[c], [], kind=lambda e, s, v, x: None)
    t = time.time()
    eng.run(st)
    eng.seconds = time.time() - t
    ledger.paths += eng.paths
    for n in eng.executed:
        f = m.funcs[n]
        loc = func_file(m, f)
        if loc:
            ledger.functions.add((m.demangled.get(n, n), loc))
    return eng


KEEP = re.compile(r"os_(page|booted|minsig|sig)$")     # facts about the machine


def forget_ghosts(eng, st):
    """the variables of the harness start from scratch, those of the library keep their values"""
    ended = st.ghost.pop("tls_done", False)     # the thread has ended: the next run is in another one
    if ended:
        st.co.extra = {k: x for k, x in st.co.extra.items() if k != "own"}
        st.ghost.pop("win_main", None)
    for n in list(st.globals):
        g = eng.m.globals.get(n)
        if g is not None and g.tls and ended:
            st.regions.pop(st.globals.pop(n), None)
            continue
        if g is None or g.ext or g.const or n in eng.m.lib_globals:
            continue
        d = eng.m.demangled.get(n, n)
        if d.startswith(("std::", "guard variable for std::", "__gnu_cxx::", "typeinfo", "vtable", "VTT")) or KEEP.search(d):
            continue
        rid = st.globals.pop(n)
        st.regions.pop(rid, None)


def drop_unrelated(st):
    """path conditions that say nothing about what is left in memory are forgotten"""
    roots = set()
    for r in st.regions.values():
        if r.alive and not r.ro and r.kind not in ("stack", "opaque"):
            for d in r.cells.a.values():
                for x in d.values():
                    for a, _ in x.t:
                        roots |= a.roots
    todo = [c for c in st.pc]
    keep = []
    go = True
    while go:
        go = False
        for c in list(todo):
            if c.roots & roots:
                roots |= c.roots
                todo.remove(c)
                keep.append(c)
                go = True
    st.pc = [c for c in st.pc if any(c is k for k in keep)]


def func_file(m, f):
    """the /repo file a verified function comes from (None for harness/library code)"""
    try:
        m.body(f)
        for b in f.blocks.values():
            for i in b:
                if i.dbg is not None:
                    l = m.loc(i.dbg)
                    if l.startswith(REPO + "/"):
                        return l[len(REPO) + 1:].split(":")[0]
                    return None
    except Exception:
        return None
    return None


def func_origin(m, f):
    """lib: /repo, harness: /verif, other: everything else (standard library)"""
    try:
        m.body(f)
        for b in f.blocks.values():
            for i in b:
                if i.dbg is not None:
                    l = m.loc(i.dbg)
                    return "lib" if l.startswith(REPO + "/") else "harness" if l.startswith(HERE + "/") or "/vc_" in l else "other"
    except Exception:
        pass
    return "other"


def units(m, prefix="unit_"):
    return sorted(n for n, f in m.funcs.items() if n.startswith(prefix) and f.defined)
