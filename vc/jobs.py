"""What is run for each property."""
from . import asm_other

ALL = "2047&~GUARDOT"


def mgc(back, ops, std="c++17", asserts=False, defs=(), maxf=2, cont=False, cur=False, tiers=("quick", "thorough"), limit=None):
    d = ["OPS=" + ops] + list(defs)
    if maxf != 2:
        d.append("MAXF=%d" % maxf)
    if cont:
        d.append("CONT")
    if cur:
        d.append("CHECKCUR")
    return dict(kind="ir", harness="mgc.cpp", back=back, std=std, asserts=asserts, defs=tuple(d), units=("unit_client",), tiers=tiers,
                limit=limit)


def ir(harness, back, std="c++17", asserts=False, defs=(), units=None, tiers=("quick", "thorough"), extra=(), wraps=()):
    return dict(kind="ir", harness=harness, back=back, std=std, asserts=asserts, defs=tuple(defs), units=units, tiers=tiers,
                extra=tuple(extra), wraps=tuple(wraps))


def asm(want):
    return dict(kind="asm", want=want, tiers=("quick", "thorough"))


T = ("thorough",)
BASE = "NEW|RESUME|FINISH"
BASED = BASE + "|DESTROY"


def mgc_all(ops, **kw):
    """the same client over all back-ends, handle classes and language flavours"""
    return [
        mgc("fc", ops, **kw), mgc("fc", ops, std="c++11", asserts=True, **kw), mgc("fc", ops, cont=True, **kw),
        mgc("fc", ops, std="c++11", asserts=True, cont=True, **kw),
        mgc("uc", ops, **kw), mgc("uc", ops, std="c++11", asserts=True, **kw), mgc("uc", ops, cont=True, **kw),
        mgc("uc", ops, std="c++11", asserts=True, cont=True, **kw),
    ]


THOROUGH = [mgc(b, ALL, std=s, asserts=a, cont=c, tiers=T) for b in ("fc", "uc") for s, a in (("c++17", False), ("c++11", True), ("c++17", True))
            for c in (False, True)] + [mgc("fc", "2047", tiers=T)]

OSW = ("malloc", "calloc", "free", "mmap", "munmap", "mprotect", "sysconf", "getpagesize", "getrlimit")
FLAV = [("fc", "c++17", False), ("fc", "c++11", True), ("uc", "c++17", False), ("uc", "c++11", True)]


def unit(pat, flav=FLAV, conts=(False, True), defs=(), tiers=("quick", "thorough"), harness="units_ctx.cpp", **kw):
    """loop-free contract units over the language flavours"""
    return [ir(harness, b, std=s, asserts=a, defs=tuple(defs) + (("CONT",) if c else ()), units=(pat,), tiers=tiers, **kw)
            for b, s, a in flav for c in conts]


SEG = [("seg", "c++17", False)]
MORE = [("fc", "c++17", True), ("fc", "c++11", False), ("uc", "c++17", True), ("uc", "c++11", False), ("seg", "c++11", True)]


def units(pat, **kw):
    return unit(pat, flav=FLAV + SEG, **kw) + unit(pat, flav=MORE, tiers=T, **kw)


def defunits(pat):
    return unit(pat, harness="units_def.cpp", extra=("src/posix/stack_traits.cpp",), wraps=OSW)


JOBS = {
    "C01": [asm("C01")],
    "C02": [asm("C02")],
    "C03": [asm("C03")],
    "C04": units("unit_c04_(in_)?(small|mid|page|over)") + unit("unit_c04_(in_)?pre_(small|mid)", flav=FLAV[:2]) + unit("unit_c04_(in_)?pre_(page|over)")
    + unit("unit_c04_.*pre_.*", flav=FLAV[2:] + MORE + SEG, tiers=T),
    "C05": units("unit_c05_.*") + defunits("unit_c05_.*") + mgc_all(BASE) + [mgc("fc", BASE, maxf=3), mgc("seg", BASE)] + THOROUGH,
    "C06": units("unit_c06_.*") + defunits("unit_c06_.*") + mgc_all(BASED) + [mgc("fc", BASED + "|ONTOP")] + THOROUGH,
    "C07": units("unit_c07_.*") + mgc_all(BASED + "|GUARD|GUARDD") + [mgc("fc", BASED + "|GUARD|GUARDD", maxf=3)] + THOROUGH,
    "C08": units("unit_c08_.*") + mgc_all(BASED + "|MOVE") + THOROUGH,
    "C09": units("unit_c09_.*") + mgc_all(BASE + "|ONTOP")
    + [mgc("fc", BASE + "|ONTOP|ONTOPX|DESTROY|GUARD|GUARDOT"), mgc("uc", BASE + "|ONTOP|ONTOPX", cont=True),
       mgc("uc", BASE + "|ONTOP|ONTOPX|DESTROY")] + THOROUGH,
    "C17": units("unit_c17_.*") + mgc_all(BASE + "|THROW|DESTROY") + THOROUGH,
    "C18": unit("unit_(c18|c09|c07)_.*", flav=[f for f in FLAV + MORE if f[0] == "uc"] + SEG, defs=("CHECKCUR",))
    + [mgc("uc", BASED + "|GUARD|GUARDD|ONTOP", cur=True), mgc("uc", BASED + "|GUARD|ONTOP|ONTOPX", cur=True, cont=True, std="c++11", asserts=True)],
}


# ---- allocators and helpers
OSWM = OSW + ("posix_memalign",)
ST = ("src/posix/stack_traits.cpp",)
SEGW = ("__splitstack_makecontext", "__splitstack_releasecontext", "__splitstack_block_signals_context", "__splitstack_resetcontext")
STD3 = [("c++17", False), ("c++11", True), ("c++11", False), ("c++17", True)]
MAP = "BOOST_CONTEXT_USE_MAP_STACK"


def stacks(pat, defss=((), (MAP,))):
    return [ir("stacks.cpp", "none", std=s, asserts=a, defs=d, units=(pat,), extra=ST, wraps=OSWM) for s, a in STD3 for d in defss]


JOBS.update({
    "C10": stacks("unit_c10_.*"),
    "C11": stacks("unit_c11_.*", ((),)),
    "C12": [ir("pooled.cpp", "pool", std=s, asserts=a, units=("unit_c12_.*",), extra=ST, wraps=OSWM, tiers=t)
            for (s, a), t in zip(STD3, (("quick", "thorough"), ("quick", "thorough"), T, T))]
    + [ir("pooled_real.cpp", "none", std=s, asserts=a, units=("unit_c12_.*",), defs=d, extra=ST, wraps=OSWM)
       for s, a in STD3[:2] for d in ((), (MAP,))],
    "C13": [ir("seg.cpp", "seg", std=s, asserts=a, units=("unit_c13_.*",), defs=d, extra=ST, wraps=SEGW)
            for s, a in STD3[:2] for d in ((), ("CONT",))]
    + [mgc("seg", BASED), mgc("seg", BASED, std="c++11", asserts=True, cont=True), mgc("seg", BASED + "|MOVE", tiers=T),
       mgc("seg", BASED + "|ONTOP|GUARD", tiers=T)],
    "C14": [dict(j, repeat=False) for j in stacks("unit_c14_.*", ((),))],
    "C23": [ir("winstack.cpp", "winos", std=s, asserts=a, units=("unit_c23_.*",), extra=("src/windows/stack_traits.cpp",),
               wraps=("VirtualAlloc", "VirtualProtect", "VirtualFree", "GetSystemInfo", "GetNativeSystemInfo"))
            for s, a in STD3],
    "C15": [ir("templ.cpp", "none", std=s, asserts=a, units=("unit_c15_.*",)) for s, a in STD3 + [("c++14", False), ("c++20", False)]],
    "C16": [ir("templ.cpp", "none", std=s, asserts=a, units=("unit_c16_.*",)) for s, a in STD3 + [("c++14", False), ("c++20", False)]],
    "C19": [ir("prefetch.cpp", "none", std=s, asserts=a, units=("unit_c19_.*",)) for s, a in STD3 + [("c++14", False), ("c++20", False)]],
})


WRAP = [ir("wrap.cpp", "wrap", std=s, asserts=a, units=("unit_c02_.*",)) for s, a in STD3 + [("c++20", False)]]
FP = ("FPCTL",)
JOBS["C01"] += [mgc("fc", BASED + "|GUARD", defs=FP), mgc("fc", BASE + "|ONTOP", std="c++11", asserts=True, cont=True, defs=FP),
                mgc("uc", BASED + "|GUARD", defs=FP, cont=True), mgc("uc", BASE + "|ONTOP", std="c++11", asserts=True, defs=FP)]
for q in ("C01", "C02", "C03"):
    JOBS[q] = JOBS[q] + WRAP


def as_(prop, js):
    """the obligations of these jobs belong to `prop` as well"""
    return [dict(j, alias=prop) for j in js]


WIN = [("win", "c++17", False), ("win", "c++11", True)]
OLD = ("_WIN32_WINNT=0x0600",)   # no IsThreadAFiber()
JOBS["C21"] = as_("C21", unit("unit_c0[56789]_.*", flav=WIN) + unit("unit_c17_.*|unit_c04_(in_)?(small|mid|page|over)", flav=WIN)
                  + unit("unit_c0[56789]_.*|unit_c17_.*", flav=[("win", "c++17", True), ("win", "c++11", False)], defs=OLD)
                  + unit("unit_c04_(in_)?pre_.*", flav=WIN, tiers=T)
                  + [mgc("win", BASED + "|GUARD|GUARDD", std=s, asserts=a, cont=c) for s, a, c in
                     (("c++17", False, False), ("c++11", True, False), ("c++17", False, True), ("c++11", True, True))]
                  + [mgc("win", BASED + "|MOVE"), mgc("win", BASE + "|ONTOP"), mgc("win", BASE + "|ONTOP|ONTOPX", tiers=T), mgc("win", BASE + "|ONTOP|ONTOPX", cont=True),
                     mgc("win", BASED + "|THROW", defs=OLD), mgc("win", BASED + "|ONTOP|GUARD", std="c++11", asserts=True)]
                  + [mgc("win", ALL, std=s, asserts=a, cont=c, tiers=T) for s, a in (("c++17", False), ("c++11", True)) for c in (False, True)])


JOBS["C20"] = [dict(kind="asmother", port=n, tiers=("quick", "thorough")) for n in asm_other.PORTS]

ASAN, TSAN = ("BOOST_USE_ASAN=",), ("BOOST_USE_TSAN=",)
JOBS["C24"] = [mgc("uc", BASED + "|GUARD", defs=ASAN), mgc("uc", BASED + "|GUARDD|GUARD", std="c++11", asserts=True, defs=ASAN),
               mgc("uc", BASED + "|GUARD", cont=True, defs=ASAN), mgc("uc", BASE + "|ONTOP", defs=ASAN),
               mgc("uc", BASE + "|ONTOP|DESTROY", std="c++11", asserts=True, cont=True, defs=ASAN),
               mgc("uc", BASED + "|GUARD", defs=TSAN), mgc("uc", BASED + "|MOVE", std="c++11", asserts=True, defs=TSAN),
               mgc("uc", BASE + "|ONTOP", defs=TSAN), mgc("uc", BASE + "|ONTOP|ONTOPX|DESTROY", defs=ASAN, tiers=T),
               mgc("uc", ALL, defs=ASAN, tiers=T), mgc("uc", ALL, defs=TSAN, tiers=T), mgc("uc", ALL, defs=ASAN, cont=True, tiers=T)]
JOBS["C24"] += unit("unit_c0[679]_.*", flav=[("uc", "c++17", False)], defs=ASAN)
JOBS["C24"] += unit("unit_c0[679]_.*", flav=[("uc", "c++11", True)], conts=(False,), defs=TSAN)

SS = [("ss", "c++17", False), ("ss", "c++11", True)]
JOBS["C25"] = [asm("C25"), mgc("ss", BASED + "|GUARD"), mgc("ss", BASED + "|GUARD", std="c++11", asserts=True, cont=True),
               mgc("ss", BASE + "|ONTOP", std="c++11", asserts=True), mgc("ss", BASED + "|GUARDD|GUARD", cont=True),
               mgc("ss", ALL, tiers=T), mgc("ss", ALL, cont=True, tiers=T)]
JOBS["C25"] += unit("unit_c06_.*|unit_c04_(in_)?(mid|over)", flav=SS) + unit("unit_c04_(in_)?(pre_mid|pre_page)", flav=SS[:1])

THR = ("THREADS=2",)
TJ = [mgc("fc", BASED, defs=THR), mgc("fc", BASED + "|GUARD", std="c++11", asserts=True, defs=THR, cont=True), mgc("fc", BASE + "|ONTOP", defs=THR),
      mgc("fc", BASED + "|MOVE", cont=True, defs=THR),
      mgc("uc", BASED, defs=THR, cur=True), mgc("uc", BASED, std="c++11", asserts=True, cont=True, defs=THR, cur=True),
      mgc("uc", BASED + "|ONTOP|GUARD", defs=THR, cur=True, maxf=1), mgc("uc", BASE + "|ONTOP", defs=THR, cur=True, tiers=T),
      mgc("uc", BASED + "|GUARD", defs=THR, cur=True, cont=True, tiers=T)]
JOBS["C22"] = as_("C22", TJ + stacks("unit_c1[01]_.*"))
JOBS["C18"] += [j for j in TJ if j["back"] == "uc"][:1]


def weight(j):
    if j["kind"] != "ir":
        return 5
    w = 1.0
    d = " ".join(j["defs"])
    if j["harness"] == "units_ctx.cpp":
        w = 6 if "c04" in j["units"][0] else 3
        if "pre_" in j["units"][0]:
            w *= 8
    if j["back"] not in ("fc", "ss"):
        w *= 2
    for k, f in (("ONTOPX", 2), ("ONTOP", 4), ("2047", 20), ("THREADS=2", 20), ("MAXF=3", 5), ("MOVE", 2)):
        if k in d:
            w *= f
    return w


ASSUME = {}
