"""The floating-point control settings (x87 control word, MXCSR) as state of a context.

A switch keeps them per context (the contract of the primitives, proved by C01/C03 on the assembler code; glibc's for
ucontext); everything else that changes them is modelled here: the inline assembler, the intrinsics and <cfenv>."""
import re
from .values import *
from .ir import PTR

DEFAULT = (0x37f, 0x1f80)


def get(st, co=None):
    co = co or st.co
    x = co.extra.get("fp")
    return x if x is not None else (V(16, DEFAULT[0]), V(32, DEFAULT[1]))


def put(st, cw=None, mx=None):
    a, b = get(st)
    st.co.extra["fp"] = (a if cw is None else cw, b if mx is None else mx)


def inherit(st, co):
    x = st.co.extra.get("fp")
    if x is not None:
        co.extra["fp"] = x


def fp_get(eng, st, av, name):
    a, b = get(st)
    return concat([zext(a, 32), b])      # low half: control word


def fp_set(eng, st, av, name):
    put(st, extract(av[0], 0, 16), extract(av[0], 32, 32))


def ldmxcsr(eng, st, p):
    put(st, mx=eng.load_raw(st, p, 4))


def stmxcsr(eng, st, p):
    eng.store_raw(st, p, get(st)[1])


def fldcw(eng, st, p):
    put(st, cw=eng.load_raw(st, p, 2))


def fnstcw(eng, st, p):
    eng.store_raw(st, p, get(st)[0])


def fninit(eng, st, p):
    put(st, cw=V(16, 0x37f))


def nothing(eng, st, p):
    pass


ASM = {"ldmxcsr": ldmxcsr, "vldmxcsr": ldmxcsr, "stmxcsr": stmxcsr, "vstmxcsr": stmxcsr, "fldcw": fldcw, "fnstcw": fnstcw, "fstcw": fnstcw, "fninit": fninit,
       "finit": fninit, "nop": nothing, "pause": nothing, "mfence": nothing, "lfence": nothing, "sfence": nothing}


def inline_asm(eng, st, i):
    t = i.a[1][1]
    m = re.match(r'asm (?:sideeffect )?(?:inteldialect )?"([^"]*)"', t)
    if not m:
        return False
    code = m.group(1).replace("\\0A", ";").replace("\\09", " ")
    ins = [x.strip() for x in code.split(";") if x.strip()]
    args = re.findall(r"%[-\w.$]+|%\"[^\"]*\"", t[m.end():])
    for x in ins:
        w = x.split()
        if w[0] not in ASM or len(w) > 2 or (len(w) == 2 and not re.fullmatch(r"\$\{?\d+\}?", w[1])):
            return False
    for x in ins:
        w = x.split()
        p = None
        if len(w) == 2:
            k = int(re.sub(r"\D", "", w[1]))
            if k >= len(args):
                return False
            p = eng.val(st, PTR, ("loc", args[k][1:].strip('"')))
        ASM[w[0]](eng, st, p)
    return True


def intrinsic(eng, st, name, av):
    if name == "llvm.x86.sse.ldmxcsr":
        ldmxcsr(eng, st, av[0])
    elif name == "llvm.x86.sse.stmxcsr":
        stmxcsr(eng, st, av[0])
    else:
        return False
    return True


def fegetround(eng, st, av, name):
    return and_(zext(get(st)[0], 32), V(32, 0xc00))


def fesetround(eng, st, av, name):
    r = and_(av[0], V(32, 0xc00))
    cw, mx = get(st)
    put(st, or_(and_(cw, V(16, 0xf3ff)), extract(r, 0, 16)), or_(and_(mx, V(32, 0xffff9fff)), shl(r, V(32, 3))))
    return V(32, 0)


def fegetenv(eng, st, av, name):
    cw, mx = get(st)
    for o in range(0, 28, 4):
        eng.store_raw(st, add(av[0], V(64, o)), fresh("fenv", 32))
    eng.store_raw(st, av[0], cw)
    eng.store_raw(st, add(av[0], V(64, 28)), mx)
    return V(32, 0)


def fesetenv(eng, st, av, name):
    p = av[0]
    if p.conc:       # FE_DFL_ENV, FE_NOMASK_ENV
        nomask = p.c == (1 << 64) - 2
        put(st, V(16, 0x362 if nomask else 0x37f), V(32, 0x1000 if nomask else 0x1f80))
    else:
        put(st, eng.load_raw(st, p, 2), eng.load_raw(st, add(p, V(64, 28)), 4))
    return V(32, 0)


def feholdexcept(eng, st, av, name):
    fegetenv(eng, st, av, name)
    cw, mx = get(st)
    put(st, or_(cw, V(16, 0x3f)), or_(mx, V(32, 0x1f80)))
    return V(32, 0)


def install(eng):
    B = eng.builtins
    B["__vc_fp"], B["__vc_set_fp"] = fp_get, fp_set
    B["fegetround"], B["fesetround"], B["fegetenv"], B["fesetenv"], B["feupdateenv"], B["feholdexcept"] = fegetround, fesetround, fegetenv, fesetenv, fesetenv, feholdexcept
    eng.hooks["inline_asm"] = inline_asm
    eng.hooks["intrinsic"] = intrinsic
