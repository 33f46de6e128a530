"""Contracts of the x86-64 assembler primitives, checked by composing every saver with every restorer."""
import tempfile
import shutil
import z3
from .values import *
from . import values as val
from .asm_x86 import *

import os
REPO = os.environ.get("VERIF_REPO", "/repo")
CONFIGS = {
    "default": [],
    "no-cet": ["-fcf-protection=none"],
    "BOOST_USE_TSX": ["-DBOOST_USE_TSX"],
    "BOOST_CONTEXT_TLS_STACK_PROTECTOR": ["-DBOOST_CONTEXT_TLS_STACK_PROTECTOR"],
}
# C25: the configurations with shadow stacks
SHSTK = {
    "SHADOW_STACK_SYSCALL": ["-fcf-protection", "-DSHADOW_STACK_SYSCALL=1"],
    "SHADOW_STACK_SYSCALL,BOOST_USE_TSX": ["-fcf-protection", "-DSHADOW_STACK_SYSCALL=1", "-DBOOST_USE_TSX"],
    "SHADOW_STACK_SYSCALL,BOOST_CONTEXT_TLS_STACK_PROTECTOR": ["-fcf-protection", "-DSHADOW_STACK_SYSCALL=1", "-DBOOST_CONTEXT_TLS_STACK_PROTECTOR"],
}


class AsmCheck:
    def __init__(self, prover, ledger, workdir, want):
        self.p = prover
        self.l = ledger
        self.wd = workdir
        self.want = want  # set of property ids whose obligations are wanted

    # -- obligation helpers
    def ob(self, prop, name, st, goal, info=None):
        """goal: python bool or B"""
        if self.shstk:
            prop = "C25"
        if prop not in self.want:
            return
        unit = self.unit
        if isinstance(goal, bool):
            if goal:
                self.l.record(unit, name, "", "valid", "normal-form", prop=prop)
            else:
                self.l.record(unit, name, "", "invalid", "normal-form", self.detail(st, None, info), prop=prop)
            return
        r, m = self.p.prove(st.pc, goal.e)
        self.l.record(unit, name, "", r, "z3", None if r == "valid" else self.detail(st, m, info), prop=prop)

    def detail(self, st, model, info):
        return {"info": info, "model": str(model)[:3000] if model is not None else None,
                "trace": st.trace[-60:], "registers": {k: repr(v) for k, v in st.r.items()}}

    def load_config(self, cfg):
        val.reset()
        d = tempfile.mkdtemp(dir=self.wd)
        self.shstk = cfg in SHSTK
        flags = SHSTK[cfg] if self.shstk else CONFIGS[cfg]
        objs = {}
        for n in ("jump", "ontop", "make"):
            objs[n] = Obj(n, "%s/src/asm/%s_x86_64_sysv_elf_gas.S" % (REPO, n), flags, d)
            self.l.functions.add("%s_fcontext [src/asm/%s_x86_64_sysv_elf_gas.S, %s]" % (n, n, cfg))
        self.ex = Exec(objs, self.p)
        self.fp = "BOOST_USE_TSX" not in cfg
        self.guard = "BOOST_CONTEXT_TLS_STACK_PROTECTOR" in cfg

    # -- states
    def start(self, tag):
        """state at the call of a primitive: ABI-aligned stack, everything else arbitrary"""
        s = fresh_state(tag)
        a = fresh("stk_" + tag, 64, align=16)
        s.pc.append(z3.Extract(3, 0, a.z()) == 0)
        s.r["rsp"] = add(a, V(64, 8))
        s.rsp0 = s.r["rsp"]
        # pin the observable initial contents
        s.ret0 = self.ex.ld(s, None, s.r["rsp"], 8, None)
        s.guard0 = self.ex.ld(s, "fs", V(64, 0x28), 8, None)
        s.loads = []
        s.init = dict(s.r)
        s.mx0, s.cw0 = s.mxcsr, s.cw
        s.ssp0 = None
        if self.shstk:
            s.ssp = s.ssp0 = fresh("ssp_" + tag, 64, align=8)
            s.pc.append(z3.Extract(2, 0, s.ssp.z()) == 0)
            s.ss.store(s.ssp.t, sgn(s.ssp.c, 64), s.ret0)  # by the call
        return s

    def shadow(self, what, st, allowed=()):
        """no control-protection fault; shadow memory is written only in allowed = [(base V, lo, hi)]"""
        if not self.shstk:
            return
        for (w, c) in st.faults:
            self.ob("C25", "%s: %s" % (what, w), st, c if isinstance(c, (bool, B)) else bool(c))
        st.faults = []
        for a in st.sstores:
            ok = False
            for b, lo, hi in allowed:
                o = self.off(b, a)
                ok = ok or (o is not None and lo <= o and o + 8 <= hi)
            self.ob("C25", what + ": live shadow-stack entries are left alone", st, ok, info="shadow store at %r" % a)
        st.sstores = []

    def call(self, name, st, tail=None):
        return self.ex.run(st, add(self.ex.objs[name].base, V(64, self.ex.objs[name].entry(name + "_fcontext"))))

    def one(self, prop, what, res, st0, kind="exit"):
        """exactly one feasible path of the expected kind"""
        ok = len(res) >= 1 and all(r[1] == kind for r in res)
        st = res[0][0] if res else st0
        bad = [r for r in res if r[1] != kind]
        self.ob(prop, what, bad[0][0] if bad else st, ok, info="paths end with %s" % [(r[1], str(r[2])) for r in res])
        return [r for r in res if r[1] == kind]

    def off(self, base, a):
        """offset of a from base if it is constant"""
        d = sub(a, base)
        return d.signed() if d.conc else None

    def frame(self, prop, s, rsp0, tgt, rsp_exit, what, extra=None):
        """every store is in the dead area below the caller's rsp or in the consumed part of the target stack"""
        for (a, n, i) in s.stores:
            o = self.off(rsp0, a)
            if o is not None and -WINDOW <= o and o + n <= 0:
                self.ob(prop, what, s, True)
                continue
            if tgt is not None:
                o = self.off(tgt, a)
                e = self.off(tgt, rsp_exit)
                if o is not None and e is not None and -WINDOW <= o and o + n <= e:
                    self.ob(prop, what, s, True)
                    continue
            if extra is not None:
                g = extra(a, n)
                if g is not None:
                    self.ob(prop, what, s, g, info="store %r" % a)
                    continue
            self.ob(prop, what, s, False, info="store of %d bytes to %r by %s" % (n, a, i.raw if i else "?"))

    # -- contract of one saver run; returns the list of saved states
    def saver(self, S):
        s0 = self.start("s")
        init = dict(s0.r)
        vp = s0.r["rsi"]
        fn = s0.r["rdx"]
        res = self.one("C02", "%s_fcontext transfers control to the target context" % S, self.call(S, s0.copy()), s0)
        out = []
        for (s1, k, pc) in res:
            h = s1.r["rdi"]
            o = self.off(s0.rsp0, h)
            self.ob("C01", "%s: handle designates the saved area just below the suspended stack pointer" % S, s1,
                    o is not None and -WINDOW <= o <= 0, info="handle %r, rsp at call %r" % (h, s0.rsp0))
            if S == "jump":
                self.ob("C02", "jump: returned and passed handle agree", s1, eq(s1.r["rax"], h))
                self.ob("C02", "jump: returned data is the given pointer", s1, eq(s1.r["rdx"], vp))
            else:
                self.ob("C02", "ontop: continues in the on-top function", s1, eq(pc, fn), info="pc=%r" % pc)
            self.ob("C02", "%s: passed data is the given pointer" % S, s1, eq(s1.r["rsi"], vp))
            self.frame("C01", s1, s0.rsp0, init["rdi"], s1.r["rsp"], "%s: writes only dead stack memory" % S)
            for (a, n, i) in s1.loads:
                oo = self.off(s0.rsp0, a)
                tt = self.off(init["rdi"], a)
                e = self.off(init["rdi"], s1.r["rsp"])
                ok = (oo is not None and -WINDOW <= oo and oo + n <= 8) or \
                     (tt is not None and e is not None and 0 <= tt and tt + n <= e + 8)
                self.ob("C01", "%s: reads only its own and the target's saved area" % S, s1, ok, info="load %r by %s" % (a, i.raw if i else ""))
            if o is None:
                continue
            s1.h = h
            s1.hoff = o
            if self.shstk:
                # what was stored through the (arbitrary) target is not part of the saved context
                s1.ssp0 = s0.ssp0
                s1.faults = []
                d = [self.off(s0.ssp0, a) for a in s1.sstores]
                lo = min([x for x in d if x is not None and x < 0] + [0])
                self.ob("C25", "%s: live shadow-stack entries are left alone" % S, s1, lo >= -64 and all(x is None or x < 0 for x in d))
                s1.ssdead = add(s0.ssp0, V(64, lo))
                s1.sstores = []
            s1.rsp0, s1.ret0, s1.guard0, s1.mx0, s1.cw0, s1.init = s0.rsp0, s0.ret0, s0.guard0, s0.mx0, s0.cw0, s0.init
            out.append(s1)
        return out

    def later(self, s1, keep):
        """state of some other context that calls a primitive later: everything arbitrary except what keep() says"""
        s2 = self.start("r")
        s2.pc = list(s1.pc) + s2.pc
        for anchor, cells in s1.mem.a.items():
            for o, v in list(cells.items()):
                if keep(anchor, o, v.w // 8):
                    s2.mem.store(anchor, o, v)
        if self.shstk:
            # the suspended context's shadow stack is not touched (its token included)
            anchor, base = s1.ssdead.t, sgn(s1.ssdead.c, 64)
            for o, v in s1.ss.a.get(anchor, {}).items():
                if o >= base:
                    s2.ss.store(anchor, o, v)
        s2.r["rdi"] = s1.h
        s2.init = dict(s2.r)
        return s2

    def regs_back(self, prop, what, st, s1):
        for r in CALLEE_SAVED:
            self.ob(prop, "%s: %s preserved" % (what, r), st, eq(st.r[r], s1.init[r]),
                    info="%s is %r, was %r" % (r, st.r[r], s1.init[r]))
        if self.fp:
            self.ob(prop, "%s: x87 control word preserved" % what, st, eq(st.cw, s1.cw0))
            self.ob(prop, "%s: MXCSR control bits preserved" % what, st,
                    eq(and_(st.mxcsr, V(32, 0xFFC0)), and_(s1.mx0, V(32, 0xFFC0))))
        g = self.ex.ld(st, "fs", V(64, 0x28), 8, None)
        if self.guard:
            self.ob(prop, "%s: stack-protector guard restored" % what, st, eq(g, s1.guard0))

    def guard_kept(self, prop, what, st, s2):
        if not self.guard:
            g = self.ex.ld(st, "fs", V(64, 0x28), 8, None)
            self.ob(prop, "%s: thread-local guard left alone" % what, st, eq(g, s2.guard0))

    def fn_returns(self, st):
        """contract of a C function called at st: callee-saved registers and memory at/above rsp unchanged"""
        s = st.copy()
        ra = self.ex.ld(s, None, s.r["rsp"], 8, None)
        sp = s.r["rsp"]
        for r in R64:
            if r not in CALLEE_SAVED and r != "rsp":
                s.r[r] = fresh(r + "_ret", 64)
        for anchor in list(s.mem.a):
            if anchor == sp.t:
                for o in list(s.mem.a[anchor]):
                    if o < sgn(sp.c, 64):
                        del s.mem.a[anchor][o]
        s.r["rsp"] = add(sp, V(64, 8))
        s.flags = None
        s.memname = st.memname + "'"
        if self.shstk:
            for o in list(s.ss.a.get(s.ssp.t, {})):
                if o < sgn(s.ssp.c, 64):
                    del s.ss.a[s.ssp.t][o]
            s.ss_ret(ra, "the called function's return address is on the shadow stack")
        return s, ra

    def aligned_entry(self, prop, what, st):
        self.ob(prop, what + ": stack is ABI-aligned at function entry", st,
                eq(and_(st.r["rsp"], V(64, 15)), V(64, 8)), info="rsp=%r" % st.r["rsp"])

    def restore(self, S, R, s1):
        """context suspended by S, later resumed by R"""
        what = "%s->%s" % (S, R)
        anchor = s1.rsp0.t
        base = sgn(s1.rsp0.c, 64)
        s2 = self.later(s1, lambda a, o, n: a == anchor and o >= base + s1.hoff)
        res = self.one("C01", what + ": suspended context is resumed", self.call(R, s2.copy()), s2)
        for (s3, k, pc) in res:
            h2 = s3.r["rdi"]
            o2 = self.off(s2.rsp0, h2)
            if R == "jump":
                self.ob("C01", what + ": continues right after the suspending call", s3, eq(pc, s1.ret0), info="pc=%r" % pc)
                self.ob("C01", what + ": stack pointer restored", s3, eq(s3.r["rsp"], add(s1.rsp0, V(64, 8))), info="rsp=%r" % s3.r["rsp"])
                self.ob("C02", what + ": receives the resumer's handle", s3,
                        band(o2 is not None and -WINDOW <= o2 <= 0, eq(s3.r["rax"], h2)), info="rax=%r" % s3.r["rax"])
                self.ob("C02", what + ": receives the resumer's data", s3, eq(s3.r["rdx"], s2.init["rsi"]))
                self.regs_back("C01", what, s3, s1)
                self.frame("C01", s3, s2.rsp0, s1.h, s1.rsp0, what + ": live memory untouched")
                if self.shstk:
                    self.ob("C25", what + ": shadow stack restored", s3, eq(s3.ssp, add(s1.ssp0, V(64, 8))), info="ssp=%r" % s3.ssp)
                    self.shadow(what, s3, [(s2.ssp0, -64, 0), (s1.ssp0, -64, 0)])
            else:
                self.ob("C02", what + ": on-top function is called", s3, eq(pc, s2.init["rdx"]), info="pc=%r" % pc)
                self.ob("C02", what + ": on-top function gets the resumer's handle", s3, o2 is not None and -WINDOW <= o2 <= 0,
                        info="rdi=%r" % h2)
                self.ob("C02", what + ": on-top function gets the data", s3, eq(s3.r["rsi"], s2.init["rsi"]))
                so = self.off(s1.rsp0, s3.r["rsp"])
                self.ob("C02", what + ": on-top function runs on the target's stack", s3, so is not None and -WINDOW <= so <= 0,
                        info="rsp=%r" % s3.r["rsp"])
                self.aligned_entry("C02", what + " on-top", s3)
                self.frame("C01", s3, s2.rsp0, s1.h, s1.rsp0, what + ": live memory untouched")
                s4, ra = self.fn_returns(s3)
                if self.shstk:
                    self.shadow(what, s4, [(s2.ssp0, -64, 0), (s1.ssp0, -64, 0)])
                a, d = s4.r["rax"], s4.r["rdx"]
                s4.stores = []
                for (s5, k5, pc5) in self.one("C01", what + ": resumes after the on-top function", self.ex.run(s4, ra), s4):
                    self.ob("C01", what + ": continues right after the suspending call", s5, eq(pc5, s1.ret0), info="pc=%r" % pc5)
                    self.ob("C01", what + ": stack pointer restored", s5, eq(s5.r["rsp"], add(s1.rsp0, V(64, 8))), info="rsp=%r" % s5.r["rsp"])
                    self.ob("C02", what + ": on-top function's handle is returned", s5, eq(s5.r["rax"], a))
                    self.ob("C02", what + ": on-top function's data is returned", s5, eq(s5.r["rdx"], d))
                    self.regs_back("C01", what, s5, s1)
                    self.frame("C01", s5, s1.rsp0, None, None, what + ": live memory untouched")
                    if self.shstk:
                        self.ob("C25", what + ": shadow stack restored", s5, eq(s5.ssp, add(s1.ssp0, V(64, 8))), info="ssp=%r" % s5.ssp)
                        self.shadow(what, s5, [(s1.ssp0, -64, 0)])
            self.guard_kept("C01", what, s3, s2)
            self.l.cover(self.unit, what, self.p.check(s3.pc)[0] == "sat")

    # -- make
    def make(self):
        s0 = self.start("m")
        sp = s0.r["rdi"]
        size = s0.r["rsi"]
        fn = s0.r["rdx"]
        base = sub(sp, size)
        # precondition: [sp-size, sp) is a stack of at least WINDOW bytes, disjoint from the caller's frame
        s0.pc += [z3.UGE(size.z(), z3.BitVecVal(WINDOW, 64)), z3.ULE(base.z(), sp.z()),
                  z3.UGT(base.z(), z3.BitVecVal(4096, 64)), z3.ULT(sp.z(), z3.BitVecVal(1 << 63, 64))]
        if self.shstk:
            # precondition: the word below the given top is the top of a shadow stack that holds a restore token
            top = fresh("sstop", 64, align=8)
            s0.mem.store(sp.t, sgn(sp.c, 64) - 8, top)
            s0.ss.store(top.t, sgn(top.c, 64) - 8, add(top, V(64, 1)))
        init = dict(s0.r)
        res = self.one("C03", "make_fcontext returns", self.call("make", s0.copy()), s0)
        inside = lambda a, n: B(z3.And(z3.ULE(base.z(), a.z()), z3.ULE(a.z(), sp.z()), z3.ULE(add(a, V(64, n)).z(), sp.z())), a.roots() | sp.roots())
        for (s1, k, pc) in res:
            self.ob("C03", "make: returns to its caller", s1, eq(pc, s0.ret0), info="pc=%r" % pc)
            self.ob("C03", "make: stack pointer restored", s1, eq(s1.r["rsp"], add(s0.rsp0, V(64, 8))))
            for r in CALLEE_SAVED:
                self.ob("C03", "make: %s preserved" % r, s1, eq(s1.r[r], init[r]))
            self.ob("C03", "make: FP control state untouched", s1, band(eq(s1.cw, s0.cw0), eq(s1.mxcsr, s0.mx0)))
            g = self.ex.ld(s1, "fs", V(64, 0x28), 8, None)
            self.ob("C03", "make: thread-local guard untouched", s1, eq(g, s0.guard0))
            self.frame("C03", s1, s0.rsp0, None, None, "make: writes only inside the given stack", extra=inside)
            if self.shstk:
                self.ob("C25", "make: shadow stack restored", s1, eq(s1.ssp, add(s0.ssp0, V(64, 8))), info="ssp=%r" % s1.ssp)
                self.shadow("make", s1, [(s0.ssp0, -64, 0), (top, -128, 0)])
                s1.ssp0 = s0.ssp0
                s1.ssdead = sub(top, V(64, 128))
            h = s1.r["rax"]
            self.ob("C03", "make: handle lies inside the given stack", s1, inside(h, 8), info="rax=%r" % h)
            s1.h = h
            s1.rsp0, s1.ret0, s1.guard0, s1.mx0, s1.cw0, s1.init = s0.rsp0, s0.ret0, s0.guard0, s0.mx0, s0.cw0, s0.init
            own = s0.rsp0.t
            # with shadow stacks a fresh context is entered by jump_fcontext() only (as create_fiber() does)
            for R in ("jump",) if self.shstk else ("jump", "ontop"):
                what = "make->%s" % R
                s2 = self.later(s1, lambda a, o, n: a != own)
                for (s3, k3, pc3) in self.one("C03", what + ": fresh context is entered", self.call(R, s2.copy()), s2):
                    if R == "ontop":
                        h2 = s3.r["rdi"]
                        o2 = self.off(s2.rsp0, h2)
                        self.ob("C02", what + ": on-top function is called", s3, eq(pc3, s2.init["rdx"]), info="pc=%r" % pc3)
                        self.ob("C02", what + ": on-top function gets the resumer's handle", s3, o2 is not None and -WINDOW <= o2 <= 0)
                        self.ob("C02", what + ": on-top function gets the data", s3, eq(s3.r["rsi"], s2.init["rsi"]))
                        self.aligned_entry("C02", what + " on-top", s3)
                        s4, ra = self.fn_returns(s3)
                        rr = self.one("C03", what + ": entry follows the on-top function", self.ex.run(s4, ra), s4)
                    else:
                        rr = [(s3, k3, pc3)]
                    for (s5, k5, pc5) in rr:
                        self.ob("C03", what + ": entry function is called", s5, eq(pc5, fn), info="pc=%r" % pc5)
                        if R == "jump":
                            h2 = s5.r["rdi"]
                            o2 = self.off(s2.rsp0, h2)
                            self.ob("C02", what + ": entry function gets the resumer's handle", s5, o2 is not None and -WINDOW <= o2 <= 0, info="rdi=%r" % h2)
                            self.ob("C02", what + ": entry function gets the data", s5, eq(s5.r["rsi"], s2.init["rsi"]))
                        self.aligned_entry("C03", what, s5)
                        rsp = s5.r["rsp"]
                        self.ob("C03", what + ": entry function runs on the given stack", s5, inside(rsp, 8), info="rsp=%r" % rsp)
                        if self.fp:
                            self.ob("C03", what + ": x87 control word inherited from the maker", s5, eq(s5.cw, s0.cw0))
                            self.ob("C03", what + ": MXCSR control bits inherited from the maker", s5,
                                    eq(and_(s5.mxcsr, V(32, 0xFFC0)), and_(s0.mx0, V(32, 0xFFC0))))
                        if self.guard:
                            gg = self.ex.ld(s5, "fs", V(64, 0x28), 8, None)
                            self.ob("C03", what + ": stack-protector guard set to the maker's", s5, eq(gg, s0.guard0), info="guard %r" % gg)
                        self.frame("C03", s5, s2.rsp0, None, None, what + ": writes only inside the given stack", extra=inside)
                        # entry function returns
                        if self.shstk:
                            o = self.off(top, s5.ssp)
                            self.ob("C25", what + ": entry function runs on the new shadow stack", s5, o is not None and -128 <= o <= -8, info="ssp=%r" % s5.ssp)
                            self.shadow(what, s5, [(s2.ssp0, -64, 0), (top, -128, 0)])
                        s6, ra = self.fn_returns(s5)
                        self.shadow(what + " return", s6)
                        for (s7, k7, sym) in self.one("C03", what + ": returning from the entry function exits the process", self.ex.run(s6, ra), s6, kind="ext"):
                            self.ob("C03", what + ": exit through _exit/exit", s7, sym.split("@")[0] in ("_exit", "exit", "_Exit"), info=sym)
                            self.ob("C03", what + ": exit status is 0", s7, eq(extract(s7.r["rdi"], 0, 32), V(32, 0)), info="rdi=%r" % s7.r["rdi"])
                            self.aligned_entry("C03", what + " exit call", s7)
                        self.l.cover(self.unit, what, self.p.check(s5.pc)[0] == "sat")

    def run(self):
        for cfg in list(SHSTK) if "C25" in self.want else CONFIGS:
            self.unit = "x86_64-sysv-elf/%s" % cfg
            self.load_config(cfg)
            if self.want & {"C01", "C02", "C25"}:
                for S in ("jump", "ontop"):
                    for s1 in self.saver(S):
                        for R in ("jump", "ontop"):
                            self.restore(S, R, s1)
            if self.want & {"C02", "C03", "C25"}:
                self.make()
            self.l.paths += self.ex.n_insn
