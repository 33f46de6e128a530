"""C20: contracts of the assembler primitives of the other ELF / Mach-O ports.

Same method as for x86-64 (asm_x86 / asm_contracts): every run assembles the real .S files for the port's target,
disassembles the object code and executes it on a fully symbolic machine state; the code is (nearly) loop and branch
free, so the strongest postcondition is exact.  Savers and restorers are composed pairwise, the layout of a saved
context is not part of any contract.
"""
import copy
import os
import re
import subprocess
import tempfile
import z3
from .values import *
from . import values as val
from .cells import Cells

REPO = os.environ.get("VERIF_REPO", "/repo")
WINDOW = 512


class Port:
    def __init__(self, name, isa, target, W, sp, callee, args, ret, pas, lr=None, align=16, be=False, fcallee=(), own=0, ctl=(), skew=0, red=(), entry_room=0,
                 flags=(), src=None, dis=(), fresh_ontop=False, desc=False, groups=()):
        self.name, self.isa, self.target, self.W, self.sp, self.callee = name, isa, target, W, sp, list(callee)
        self.args = args          # argument registers, or "stack" (i386)
        self.ret = ret            # (r0, r1): transfer_t returned in registers; "mem": hidden pointer is the first argument
        self.pas = pas            # transfer_t passed: "regs" | "ref" | "stack" | "tail"
        self.lr, self.align, self.be, self.fcallee = lr, align, be, list(fcallee)
        self.own = own            # bytes above the stack pointer at a call that belong to the callee
        self.ctl = list(ctl)      # floating-point control registers the port preserves (name, width)
        self.skew = skew          # stack-pointer value mod align at function entry
        self.red = list(red)      # further caller-frame slots a callee may write: (offset, size)
        self.entry_room = entry_room  # caller frame a function may assume above its stack pointer
        self.flags = list(flags)
        self.src = src or name    # file name infix
        self.dis = list(dis)      # disassembler options
        self.fresh_ontop = fresh_ontop  # on-top function onto a raw, never entered context (no client in the library does it)
        self.groups = list(groups)  # further callee-saved registers judged together: (name, registers, width)
        self.desc = desc          # function pointers designate descriptors (entry, TOC)


def rng(p, a, b, step=1):
    return ["%s%d" % (p, i) for i in range(a, b, step)]


VRS = [("v20-v31", rng("v", 20, 32), 128)]
PORTS = {p.name: p for p in [
    Port("arm64_aapcs_elf", "arm64", "aarch64-linux-gnu", 64, "sp", rng("x", 19, 30), rng("x", 0, 8), ("x0", "x1"), "regs", lr="x30",
         fcallee=rng("d", 8, 16)),
    Port("arm64_aapcs_macho", "arm64", "arm64-apple-darwin", 64, "sp", rng("x", 19, 30), rng("x", 0, 8), ("x0", "x1"), "regs", lr="x30",
         fcallee=rng("d", 8, 16)),
    Port("riscv64_sysv_elf", "riscv", "riscv64-linux-gnu", 64, "sp", rng("s", 0, 12), rng("a", 0, 8), ("a0", "a1"), "regs", lr="ra",
         fcallee=rng("fs", 0, 12), flags=["-march=rv64gc"]),
    Port("loongarch64_sysv_elf", "loong", "loongarch64-linux-gnu", 64, "sp", rng("s", 0, 9) + ["fp"], rng("a", 0, 8), ("a0", "a1"), "regs", lr="ra",
         fcallee=rng("fs", 0, 8)),
    Port("mips64_n64_elf", "mips", "mips64-linux-gnuabi64", 64, "sp", rng("r", 16, 24) + ["fp", "gp"], rng("r", 4, 12), ("r2", "r3"), "regs", lr="ra", be=True,
         fcallee=rng("f", 24, 32)),
    Port("mips32_o32_elf", "mips", "mips-linux-gnu", 32, "sp", rng("r", 16, 24) + ["fp"], rng("r", 4, 8), "mem", "regs", lr="ra", align=8, be=True,
         fcallee=rng("f", 20, 32, 2), own=16, entry_room=16),
    Port("arm_aapcs_elf", "arm", "armv7-linux-gnueabihf", 32, "sp", rng("r", 4, 12), rng("r", 0, 4), "mem", "regs", lr="lr", align=8,
         fcallee=rng("d", 8, 16)),
    Port("arm_aapcs_macho", "arm", "armv7-apple-ios", 32, "sp", rng("r", 4, 12), rng("r", 0, 4), "mem", "regs", lr="lr", align=4,
         fcallee=rng("d", 8, 16), ctl=[("sjlj", 32, 0xFFFFFFFF)], dis=["--mcpu=cortex-a8"]),
    Port("i386_sysv_elf", "x86", "i386-linux-gnu", 32, "esp", ["ebx", "esi", "edi", "ebp"], "stack", "mem", "stack", align=16, own=20, skew=-4,
         ctl=[("mxcsr", 32, 0xFFC0), ("cw", 16, 0xFFFF)]),
    Port("i386_sysv_macho", "x86", "i386-apple-darwin", 32, "esp", ["ebx", "esi", "edi", "ebp"], "stack", ("eax", "edx"), "stack", align=16, own=16, skew=-4,
         fresh_ontop=True,
         ctl=[("mxcsr", 32, 0xFFC0), ("cw", 16, 0xFFFF)]),
    Port("x86_64_sysv_macho", "x86", "x86_64-apple-darwin", 64, "rsp", ["rbx", "rbp", "r12", "r13", "r14", "r15"],
         ["rdi", "rsi", "rdx", "rcx"], ("rax", "rdx"), "regs", align=16, skew=-8, fresh_ontop=True, ctl=[("mxcsr", 32, 0xFFC0), ("cw", 16, 0xFFFF)]),
    Port("s390x_sysv_elf", "s390", "s390x-linux-gnu", 64, "r15", rng("r", 6, 14), rng("r", 2, 7), "mem", "ref", lr="r14", align=8, be=True,
         fcallee=rng("f", 8, 16), own=160, ctl=[("fpc", 32, 0xFFFFFFFF)], entry_room=160),
    Port("ppc64_sysv_elf", "ppc", "powerpc64le-linux-gnu", 64, "r1", rng("r", 14, 32), rng("r", 3, 11), ("r3", "r4"), "regs", lr="lr",
         fcallee=rng("f", 14, 32), red=[(8, 8), (16, 8), (24, 8)], ctl=[("cr", 64, 0x00FFF000)], entry_room=32, groups=VRS),
    Port("ppc64_sysv_elf_v1", "ppc", "powerpc64-linux-gnu", 64, "r1", rng("r", 14, 32), rng("r", 3, 11), "mem", "regs", lr="lr", be=True,
         fcallee=rng("f", 14, 32), red=[(8, 8), (16, 8), (40, 8)], ctl=[("cr", 64, 0x00FFF000)], entry_room=48, src="ppc64_sysv_elf", desc=True, groups=VRS),
    Port("ppc32_sysv_elf", "ppc", "powerpc-linux-gnu", 32, "r1", rng("r", 14, 32), rng("r", 3, 11), "mem", "tail", lr="lr", be=True,
         fcallee=rng("f", 14, 32), red=[(4, 4)], ctl=[("cr", 32, 0x00FFF000), ("fpscr", 64, 0xFF)], entry_room=8, groups=VRS),
    Port("sparc64_sysv_elf", "sparc", "sparc64-linux-gnu", 64, "o6", rng("l", 0, 8) + rng("i", 0, 8), rng("o", 0, 6), ("o0", "o1"), "regs", lr="o7", be=True,
         own=176, entry_room=176),
]}



def variant(base, suffix, flags, **kw):
    p = copy.copy(PORTS[base])
    p.name, p.flags = base + suffix, p.flags + flags
    for k, v in kw.items():
        setattr(p, k, v)
    PORTS[p.name] = p


TSX = ["-DBOOST_USE_TSX"]
variant("i386_sysv_elf", "/tsx", TSX, ctl=[])
variant("i386_sysv_elf", "/guard", ["-DBOOST_CONTEXT_TLS_STACK_PROTECTOR"], ctl=PORTS["i386_sysv_elf"].ctl + [("guard", 32, 0xFFFFFFFF)])
variant("i386_sysv_macho", "/tsx", TSX, ctl=[])
variant("x86_64_sysv_macho", "/tsx", TSX, ctl=[])
variant("mips64_n64_elf", "/soft-float", ["-msoft-float"], fcallee=[])
variant("mips32_o32_elf", "/soft-float", ["-msoft-float"], fcallee=[])
variant("arm_aapcs_elf", "/soft-float", ["-D__SOFTFP__"], fcallee=[])

EXT = "ext:"


class I:
    __slots__ = ("off", "mn", "ops", "rel", "next", "raw")


def split(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "([{":
            d += 1
        if ch in ")]}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Code:
    """text section of one assembler file of the port"""

    def __init__(self, port, name, wd):
        self.name = name
        src = "%s/src/asm/%s_%s_gas.S" % (REPO, name, port.src)
        o = os.path.join(wd, "%s_%s.o" % (port.name.replace("/", "_"), name))
        r = subprocess.run(["clang", "-target", port.target] + port.flags + ["-c", src, "-o", o], capture_output=True, text=True)
        if r.returncode:
            raise ToolLimit("cannot assemble %s: %s" % (src, r.stderr[:400]))
        d = subprocess.run(["llvm-objdump", "-d", "-r", "--no-show-raw-insn"] + port.dis + [o], capture_output=True, text=True)
        if d.returncode:
            raise ToolLimit("llvm-objdump: " + d.stderr[:300])
        self.insns, self.syms, last = {}, {}, None
        for ln in d.stdout.split("\n"):
            m = re.match(r"^([0-9a-f]+) <(.+)>:$", ln)
            if m:
                self.syms[m.group(2)] = int(m.group(1), 16)
                continue
            m = re.match(r"^\s+([0-9a-f]+):\s+\t(.*)$", ln)
            if m:
                i = I()
                i.off = int(m.group(1), 16)
                i.raw = m.group(2).replace("\t", " ").strip()
                t = re.sub(r"\s*(//|;|##|@ ).*$", "", m.group(2)).strip()
                t = re.sub(r" <[^>]*>", "", t)
                p = t.split(None, 1)
                i.mn, i.ops, i.rel, i.next = p[0].rstrip(), split(p[1]) if len(p) > 1 else [], None, None
                self.insns[i.off] = i
                if last is not None:
                    last.next = i.off
                last = i
                continue
            m = re.match(r"^\s+([0-9a-f]+):\s+([A-Z]\S+)\s+(\S+)$", ln)
            if m and last is not None and last.rel is None and m.group(2) not in ("R_RISCV_RELAX",):
                last.rel = (m.group(2), m.group(3))
        if port.desc:       # the global symbol names the function descriptor
            rel = subprocess.run(["llvm-objdump", "-r", o], capture_output=True, text=True).stdout
            m = re.search(r"R_PPC64_ADDR64\s+\.text(?:\+0x([0-9a-f]+))?$", rel, flags=re.M)
            if not m:
                raise ToolLimit("function descriptor of " + name)
            self.syms[name + "_fcontext"] = int(m.group(1) or "0", 16)
        t = subprocess.run(["llvm-nm", o], capture_output=True, text=True).stdout
        for ln in t.split("\n"):
            w = ln.split()
            if len(w) == 3 and w[1] in "tT":
                self.syms.setdefault(w[2], int(w[0], 16))
        self.base = fresh("text_" + name, port.W)
        self.base.t[0][0].align = 4

    def addr(self, off):
        return add(self.base, V(self.base.w, off))

    def entry(self, sym):
        for s in (sym, "_" + sym, "." + sym):
            if s in self.syms:
                return self.addr(self.syms[s])
        raise ToolLimit("symbol %s not found" % sym)


class St:
    def __init__(self):
        self.r, self.ctl, self.mem = {}, {}, Cells()
        self.pc, self.stores, self.loads, self.trace = [], [], [], []
        self.widths = {}
        self.flags = None
        self.wins = []      # SPARC: register windows of the callers still in the register file
        self.memname = "M"

    def copy(self):
        s = St()
        s.r, s.ctl, s.mem = dict(self.r), dict(self.ctl), self.mem.copy()
        s.pc, s.stores, s.loads, s.trace = list(self.pc), list(self.stores), list(self.loads), list(self.trace)
        s.widths = dict(self.widths)
        s.flags, s.wins, s.memname = self.flags, [dict(w) for w in self.wins], self.memname
        return s


class Machine:
    def __init__(self, port, codes, prover):
        self.p, self.codes, self.prover = port, codes, prover
        self.W = port.W
        self.ext = {}
        self.gp = fresh("module_gp", port.W)
        self.tls = fresh("thread_pointer", port.W, align=4)
        self.n = 0
        self.step = getattr(self, "isa_" + port.isa)

    def K(self, v):
        return V(self.W, v)

    def extsym(self, name):
        name = name.split("@")[0].split("+")[0].split("-0x")[0]
        if name not in self.ext:
            self.ext[name] = fresh(EXT + name, self.W)
        return self.ext[name]

    def symaddr(self, code, sym):
        """address of a symbol: local, in another of the three files, or external"""
        s = re.sub(r"[+-]0x[0-9a-f]+$", "", sym.split("@")[0])
        m = re.match(r"^\.text\+0x([0-9a-f]+)$", sym)
        if m:
            return code.addr(int(m.group(1), 16))
        if s == ".text":
            return code.addr(0)
        if s in code.syms:
            return code.addr(code.syms[s])
        return self.extsym(s)

    # registers
    def g(self, st, r):
        if r in ("xzr", "zero", "$zero", "g0", "r0z"):
            return self.K(0)
        if r not in st.r:
            raise ToolLimit("register " + r)
        return st.r[r]

    # memory
    def ld(self, st, a, n, i=None):
        off = sgn(a.c, self.W)
        if a.t == self.tls.t and (off, n) == (0x48, 4):
            return st.ctl["sjlj"]      # the thread's SjLj handler chain
        st.loads.append((a, n, i))
        if self.p.be:
            self.bewidth(st, a.t, off, n, False)
        return st.mem.load(a.t, off, n, lambda o, k: fresh("%s[%r]" % (st.memname, V(self.W, o, a.t)), 8 * k))

    def sto(self, st, a, v, i=None):
        n = v.w // 8
        off = sgn(a.c, self.W)
        if a.t == self.tls.t and (off, n) == (0x48, 4) and "sjlj" in st.ctl:
            st.ctl["sjlj"] = v
            return
        st.stores.append((a, n, i))
        if self.p.be:
            self.bewidth(st, a.t, off, n, True)
        st.mem.store(a.t, off, v)

    def bewidth(self, st, t, off, n, store):
        """big endian: a cell must be read back with the width it was written with"""
        d = st.widths.setdefault(t, {})
        d = st.widths[t] = dict(d)
        for o, k in list(d.items()):
            if o < off + n and off < o + k and (o, k) != (off, n):
                if store:
                    del d[o]
                else:
                    raise ToolLimit("big-endian access of a different width")
        d[off] = n

    def find(self, pc):
        if len(pc.t) == 1 and pc.t[0][1] == 1:
            for c in self.codes.values():
                if c.base.t[0][0] is pc.t[0][0]:
                    return c, sgn(pc.c, self.W)
        return None, None

    def run(self, st, pc, limit=2000):
        work, done, n = [(st, pc)], [], 0
        while work:
            st, pc = work.pop()
            while True:
                n += 1
                if n > limit:
                    done.append((st, "loop", pc))     # the primitives are straight-line code: control never leaves
                    break
                code, off = self.find(pc)
                if code is None:
                    k, x = "exit", pc
                    for nm, v in self.ext.items():
                        if v.t == pc.t and v.c == pc.c:
                            k, x = "ext", nm
                    done.append((st, k, x))
                    break
                i = code.insns.get(off)
                if i is None:
                    done.append((st, "trap", pc))
                    break
                self.n += 1
                st.trace.append("%s+%#x %s" % (code.name, off, i.raw))
                nx = code.addr(i.next) if i.next is not None else None
                r = self.step(st, code, i)
                if r is None:
                    pc = nx
                elif r == "trap":
                    done.append((st, "trap", code.addr(off)))
                    break
                elif isinstance(r, list):     # [(condition, target)], falls through otherwise
                    (cnd, t), = r
                    if cnd is True:
                        pc = t
                    elif cnd is False:
                        pc = nx
                    else:
                        s2 = st.copy()
                        s2.pc.append(z3.Not(cnd.e))
                        st.pc.append(cnd.e)
                        if nx is not None and self.prover.check(s2.pc)[0] != "unsat":
                            work.append((s2, nx))
                        if self.prover.check(st.pc)[0] == "unsat":
                            break
                        pc = t
                else:
                    pc = r
                if pc is None:
                    done.append((st, "trap", code.addr(off)))
                    break
        return done

    def delay(self, st, code, i):
        """execute the instruction in the delay slot"""
        d = code.insns.get(i.next) if i.next is not None else None
        if d is None:
            raise ToolLimit("no delay slot")
        st.trace.append("%s+%#x %s (delay slot)" % (code.name, d.off, d.raw))
        if self.step(st, code, d) is not None:
            raise ToolLimit("branch in a delay slot")

    def imm(self, s):
        return int(s.lstrip("#$"), 0)

    # ------------------------------------------------------------------------------------------ AArch64
    def a64_addr(self, st, ops):
        """-> address; handles [b], [b, #i], [b, #i]!, [b], #i"""
        m = re.match(r"^\[(\w+)(?:, #(-?\w+))?\](!?)$", ops[0])
        if not m:
            raise ToolLimit("operand " + ops[0])
        b = self.g(st, m.group(1))
        a = add(b, self.K(int(m.group(2), 0) if m.group(2) else 0))
        if m.group(3):
            st.r[m.group(1)] = a
        if len(ops) > 1:
            st.r[m.group(1)] = add(b, self.K(self.imm(ops[1])))
        return a

    def isa_arm64(self, st, code, i):
        mn, o = i.mn, i.ops
        if mn in ("nop", "bti", "hint"):
            return None
        if mn in ("stp", "ldp"):
            a = self.a64_addr(st, o[2:])
            for k, r in enumerate(o[:2]):
                if r[0] not in "xd":
                    raise ToolLimit(i.raw)
                if mn == "stp":
                    self.sto(st, add(a, self.K(8 * k)), self.g(st, r), i)
                elif r != "xzr":
                    st.r[r] = self.ld(st, add(a, self.K(8 * k)), 8, i)
            return None
        if mn in ("str", "ldr", "stur", "ldur"):
            if o[0][0] not in "xd":
                raise ToolLimit(i.raw)
            v = self.g(st, o[0]) if mn[0] == "s" else None
            a = self.a64_addr(st, o[1:])
            if mn[0] == "s":
                self.sto(st, a, v, i)
            else:
                st.r[o[0]] = self.ld(st, a, 8, i)
            return None
        if mn in ("add", "sub", "and", "orr", "eor") and len(o) == 3 and o[0][0] in "xs":
            x = self.g(st, o[1])
            y = self.K(self.imm(o[2])) if o[2].startswith("#") else self.g(st, o[2])
            st.r[o[0]] = {"add": add, "sub": sub, "and": and_, "orr": or_, "eor": xor}[mn](x, y)
            return None
        if mn == "mov" and o[0][0] in "xs":
            st.r[o[0]] = self.K(self.imm(o[1])) if o[1].startswith("#") else self.g(st, o[1])
            return None
        if mn == "mov" and o[0][0] == "w" and o[1].startswith("#"):
            st.r["x" + o[0][1:]] = self.K(self.imm(o[1]) & 0xffffffff)
            return None
        if mn in ("adr",):
            st.r[o[0]] = self.symaddr(code, i.rel[1]) if i.rel else code.addr(int(o[1], 0))
            return None
        if mn in ("b", "bl"):
            if mn == "bl":
                st.r["x30"] = code.addr(i.off + 4)
            return self.symaddr(code, i.rel[1]) if i.rel else code.addr(int(o[0], 0))
        if mn in ("br", "blr", "ret"):
            t = self.g(st, o[0] if o else "x30")
            if mn == "blr":
                st.r["x30"] = code.addr(i.off + 4)
            return t
        raise ToolLimit("instruction " + i.raw)

    # ------------------------------------------------------------------------------------------ RISC-V
    def disp(self, st, op):
        m = re.match(r"^(-?\w+)\((\$?\w+)\)$", op)
        if not m:
            raise ToolLimit("operand " + op)
        return add(self.g(st, self.nm(m.group(2))), self.K(int(m.group(1), 0)))

    def nm(self, r):
        return r

    def isa_riscv(self, st, code, i):
        mn, o = i.mn, i.ops
        if mn in ("sd", "fsd"):
            self.sto(st, self.disp(st, o[1]), self.g(st, o[0]), i)
        elif mn in ("ld", "fld"):
            v = self.ld(st, self.disp(st, o[1]), 8, i)
            if o[0] != "zero":
                st.r[o[0]] = v
        elif mn in ("addi", "andi", "ori", "xori"):
            y = self.K(self.imm(o[2]))
            if i.rel:
                raise ToolLimit("relocated " + i.raw)
            st.r[o[0]] = {"addi": add, "andi": and_, "ori": or_, "xori": xor}[mn](self.g(st, o[1]), y)
        elif mn in ("add", "sub", "and", "or", "xor"):
            st.r[o[0]] = {"add": add, "sub": sub, "and": and_, "or": or_, "xor": xor}[mn](self.g(st, o[1]), self.g(st, o[2]))
        elif mn == "mv":
            if i.rel and not i.rel[0].startswith("R_RISCV_PCREL_LO12"):
                raise ToolLimit("relocated " + i.raw)
            st.r[o[0]] = self.g(st, o[1])      # the low part of a pc-relative pair: the pair's value was set by auipc
        elif mn == "li":
            st.r[o[0]] = self.K(self.imm(o[1]))
        elif mn == "auipc":
            if i.rel:
                st.r[o[0]] = self.symaddr(code, i.rel[1])
            else:
                st.r[o[0]] = code.addr(i.off + (self.imm(o[1]) << 12))
        elif mn in ("jr", "jalr", "ret", "j", "jal"):
            if mn == "ret":
                return self.g(st, "ra")
            if mn in ("j", "jal"):
                if mn == "jal":
                    st.r["ra"] = code.addr(i.next)
                return self.symaddr(code, i.rel[1]) if i.rel else code.addr(int(o[-1], 0))
            if len(o) != 1:
                raise ToolLimit(i.raw)
            r = re.match(r"^(\w+)", o[0]).group(1)
            t = self.g(st, r)
            if mn == "jalr":
                st.r["ra"] = code.addr(i.next) if i.next is not None else fresh("after_call", self.W)
            return t
        elif mn == "nop":
            pass
        else:
            raise ToolLimit("instruction " + i.raw)
        return None

    # ------------------------------------------------------------------------------------------ LoongArch
    def isa_loong(self, st, code, i):
        mn = i.mn
        o = [x.lstrip("$") for x in i.ops]
        if mn in ("st.d", "fst.d"):
            self.sto(st, add(self.g(st, o[1]), self.K(int(o[2], 0))), self.g(st, o[0]), i)
        elif mn in ("ld.d", "fld.d"):
            st.r[o[0]] = self.ld(st, add(self.g(st, o[1]), self.K(int(o[2], 0))), 8, i)
        elif mn == "addi.d":
            if i.rel:
                if i.rel[0] != "R_LARCH_PCALA_LO12":
                    raise ToolLimit("relocated " + i.raw)
                st.r[o[0]] = self.g(st, o[1])  # the pair's value was set by pcalau12i
            else:
                st.r[o[0]] = add(self.g(st, o[1]), self.K(int(o[2], 0)))
        elif mn == "pcalau12i":
            if not i.rel:
                raise ToolLimit(i.raw)
            st.r[o[0]] = self.symaddr(code, i.rel[1])
        elif mn == "move":
            st.r[o[0]] = self.g(st, o[1])
        elif mn in ("ori", "andi"):
            st.r[o[0]] = {"ori": or_, "andi": and_}[mn](self.g(st, o[1]), self.K(int(o[2], 0)))
        elif mn == "bstrins.d":
            if o[1] != "zero":
                raise ToolLimit(i.raw)
            hi, lo = int(o[2]), int(o[3])
            st.r[o[0]] = and_(self.g(st, o[0]), self.K(~(((1 << (hi - lo + 1)) - 1) << lo)))
        elif mn == "ret":
            return self.g(st, "ra")
        elif mn == "jr":
            return self.g(st, o[0])
        elif mn in ("b", "bl"):
            if mn == "bl":
                st.r["ra"] = code.addr(i.off + 4)
            return self.symaddr(code, i.rel[1]) if i.rel else code.addr(i.off + int(o[0], 0))
        elif mn == "nop":
            pass
        else:
            raise ToolLimit("instruction " + i.raw)
        return None

    # ------------------------------------------------------------------------------------------ MIPS
    def isa_mips(self, st, code, i):
        mn = i.mn

        def nm(x):
            x = x.lstrip("$")
            return {"zero": "zero", "29": "sp", "28": "gp", "30": "fp", "31": "ra"}.get(x, "r" + x if x.isdigit() else x)
        o = i.ops

        def ad(op):
            m = re.match(r"^(-?\w+)\((\$\w+)\)$", op)
            return add(self.g(st, nm(m.group(2))), self.K(int(m.group(1), 0)))
        w = {"sd": 8, "ld": 8, "sw": 4, "lw": 4, "sdc1": 8, "ldc1": 8}.get(mn)
        if w:
            if mn in ("sw", "lw") and self.W != 32:
                raise ToolLimit(i.raw)
            r = nm(o[0])
            if i.rel:
                if not i.rel[0].startswith(("R_MIPS_CALL16", "R_MIPS_GOT_DISP", "R_MIPS_CALL16/")):
                    raise ToolLimit("relocated " + i.raw)
                m = re.match(r"^(-?\w+)\((\$\w+)\)$", o[1])
                ok = eq(self.g(st, nm(m.group(2))), self.gp)
                if ok is not True:
                    # wrong global pointer: the loaded function address is arbitrary
                    st.r[r] = fresh("got_garbage", self.W)
                    return None
                st.r[r] = self.symaddr(code, i.rel[1])
            elif mn[0] == "s":
                self.sto(st, ad(o[1]), self.g(st, r), i)
            else:
                st.r[r] = self.ld(st, ad(o[1]), w, i)
            return None
        if mn in ("addiu", "daddiu", "addi", "daddi", "lui"):
            if i.rel:
                if i.rel[1] != "_gp_disp":
                    raise ToolLimit("relocated " + i.raw)
                st.r[nm(o[0])] = sub(self.gp, self.extsym("_gp_base"))   # completed by addu with the function's address
                return None
            if mn == "lui":
                st.r[nm(o[0])] = self.K(self.imm(o[1]) << 16)
            else:
                st.r[nm(o[0])] = add(self.g(st, nm(o[1])), self.K(self.imm(o[2])))
            return None
        if mn in ("addu", "daddu", "and", "or"):
            x, y = self.g(st, nm(o[1])), self.g(st, nm(o[2]))
            st.r[nm(o[0])] = {"addu": add, "daddu": add, "and": and_, "or": or_}[mn](x, y)
            return None
        if mn == "move":
            st.r[nm(o[0])] = self.g(st, nm(o[1]))
            return None
        if mn == "nop":
            return None
        if mn in ("jr", "jalr", "b", "bal"):
            if mn in ("b", "bal"):
                raise ToolLimit(i.raw)
            t = self.g(st, nm(o[-1]))
            if mn == "jalr":
                st.r["ra"] = code.addr(i.off + 8)
            self.delay(st, code, i)
            return t
        raise ToolLimit("instruction " + i.raw)

    # ------------------------------------------------------------------------------------------ ARM
    def regset(self, op):
        out = []
        for x in op.strip("{}").split(","):
            x = x.strip()
            m = re.match(r"^([rd])(\d+)-[rd](\d+)$", x)
            out += rng(m.group(1), int(m.group(2)), int(m.group(3)) + 1) if m else [x]
        return out

    def isa_arm(self, st, code, i):
        mn, o = i.mn, i.ops
        AL = {"sp": "sp", "lr": "lr", "pc": "pc", "r13": "sp", "r14": "lr", "r15": "pc", "r12": "r12", "fp": "r11", "ip": "r12"}

        def n(r):
            return AL.get(r, r)

        def rd(r):
            return code.addr(i.off + 8) if n(r) == "pc" else self.g(st, n(r))
        if mn in ("str", "ldr"):
            v = rd(o[0]) if mn == "str" else None
            m = re.match(r"^\[(\w+)(?:, #(-?\w+))?\](!?)$", o[1])
            if not m:
                raise ToolLimit(i.raw)
            b = rd(m.group(1))
            a = add(b, self.K(int(m.group(2), 0) if m.group(2) else 0))
            if m.group(3):
                st.r[n(m.group(1))] = a
            if len(o) > 2:
                st.r[n(m.group(1))] = add(b, self.K(self.imm(o[2])))
            if mn == "str":
                self.sto(st, a, v, i)
                return None
            v = self.ld(st, a, 4, i)
            if n(o[0]) == "pc":
                return v
            st.r[n(o[0])] = v
            return None
        if mn in ("push", "pop", "stmdb", "ldm", "ldmia", "vpush", "vpop", "vstmia", "vldmia", "stm", "stmia"):
            if mn in ("push", "pop", "vpush", "vpop"):
                b, wb, rs = "sp", True, self.regset(o[0])
            else:
                b, wb, rs = n(o[0].rstrip("!")), o[0].endswith("!"), self.regset(o[1])
            rs = [n(r) for r in rs]
            z = 8 if rs[0][0] == "d" else 4
            down = mn in ("push", "stmdb", "vpush")
            a = self.g(st, b)
            if down:
                a = sub(a, self.K(z * len(rs)))
            store = mn in ("push", "stmdb", "vpush", "vstmia", "stm", "stmia")
            t = None
            vals = [(rd(r) if store else None) for r in rs]
            end = a if down else add(a, self.K(z * len(rs)))
            if wb:
                st.r[b] = end
            for k, r in enumerate(rs):
                ak = add(a, self.K(z * k))
                if store:
                    self.sto(st, ak, vals[k], i)
                else:
                    v = self.ld(st, ak, z, i)
                    if r == "pc":
                        t = v
                    else:
                        st.r[r] = v
            return t
        if mn in ("add", "sub", "bic", "and", "orr"):
            x = rd(o[1])
            y = self.K(self.imm(o[2])) if o[2].startswith("#") else rd(o[2])
            f = {"add": add, "sub": sub, "and": and_, "orr": or_, "bic": lambda p, q: and_(p, self.K(~q.c)) if q.conc else None}[mn]
            v = f(x, y)
            if v is None or n(o[0]) == "pc":
                raise ToolLimit(i.raw)
            st.r[n(o[0])] = v
            return None
        if mn in ("mov", "movw"):
            v = self.K(self.imm(o[1])) if o[1].startswith("#") else rd(o[1])
            if n(o[0]) == "pc":
                return v
            st.r[n(o[0])] = v
            return None
        if mn in ("bx", "blx", "b", "bl"):
            if mn in ("bl", "blx"):
                st.r["lr"] = code.addr(i.off + 4)
            if i.rel:
                return self.symaddr(code, i.rel[1])
            if o[0][0] in "rl":
                return rd(o[0])
            return code.addr(int(o[0], 0))
        if mn == "mrc" and [x.lstrip("#") for x in o[:2]] + o[3:6] == ["p15", "0x0", "c13", "c0", "#0x3"]:
            st.r[n(o[2])] = self.tls
            return None
        if mn == "nop":
            return None
        raise ToolLimit("instruction " + i.raw)

    # ------------------------------------------------------------------------------------------ x86 (32 and 64 bit)
    def x_addr(self, st, op):
        m = re.match(r"^(-?0x[0-9a-f]+|-?\d+)?\(%(\w+)\)$", op)
        if not m:
            raise ToolLimit("operand " + op)
        return add(self.g(st, m.group(2)), self.K(int(m.group(1), 0) if m.group(1) else 0))

    def x_get(self, st, op):
        if op.startswith("$"):
            return self.K(int(op[1:], 0))
        if op == "%gs:0x14" and self.W == 32:
            return st.ctl["guard"]
        if op.startswith("%"):
            return self.g(st, op[1:])
        return self.ld(st, self.x_addr(st, op), self.W // 8)

    def isa_x86(self, st, code, i):
        mn, o = i.mn, i.ops
        suf = "q" if self.W == 64 else "l"
        wb = self.W // 8
        sp = self.p.sp

        def put(op, v):
            if op == "%gs:0x14" and self.W == 32:
                st.ctl["guard"] = v
            elif op.startswith("%"):
                if op[1:] not in st.r:
                    raise ToolLimit(i.raw)
                st.r[op[1:]] = v
            else:
                self.sto(st, self.x_addr(st, op), v, i)
        if mn in ("endbr32", "endbr64", "nop", "nopl", "nopw"):
            return None
        if mn == "mov" + suf:
            put(o[1], self.x_get(st, o[0]))
            return None
        if mn == "lea" + suf:
            if o[0] in ("(%rip)",):
                if not i.rel:
                    raise ToolLimit(i.raw)
                put(o[1], self.symaddr(code, i.rel[1]))
            else:
                put(o[1], self.x_addr(st, o[0]))
            return None
        if mn in [x + suf for x in ("add", "sub", "and", "xor", "or")]:
            if i.rel:
                if i.rel[0] == "R_386_GOTPC":
                    put(o[1], self.gp)
                    return None
                if "SECTDIFF" not in i.rel[0]:
                    raise ToolLimit("relocated " + i.raw)
            x, y = self.x_get(st, o[1]), self.x_get(st, o[0])
            if mn[:-1] == "xor" and o[0] == o[1]:
                v = self.K(0)
            else:
                v = {"add": add, "sub": sub, "and": and_, "xor": xor, "or": or_}[mn[:-1]](x, y)
            put(o[1], v)
            return None
        if mn in ("stmxcsr", "ldmxcsr", "fnstcw", "fldcw"):
            k, n = ("mxcsr", 4) if "mxcsr" in mn else ("cw", 2)
            a = self.x_addr(st, o[0])
            if mn in ("stmxcsr", "fnstcw"):
                self.sto(st, a, st.ctl[k], i)
            else:
                st.ctl[k] = self.ld(st, a, n, i)
            return None
        if mn == "push" + suf:
            v = self.x_get(st, o[0])
            st.r[sp] = sub(st.r[sp], self.K(wb))
            self.sto(st, st.r[sp], v, i)
            return None
        if mn == "pop" + suf:
            v = self.ld(st, st.r[sp], wb, i)
            st.r[sp] = add(st.r[sp], self.K(wb))
            put(o[0], v)
            return None
        if mn in ("call" + suf, "jmp" + suf, "jmp"):
            if i.rel:
                t = self.symaddr(code, i.rel[1])
            elif o[0].startswith("*"):
                t = self.x_get(st, o[0][1:])
            else:
                t = code.addr(int(o[0], 0))
            if mn.startswith("call"):
                st.r[sp] = sub(st.r[sp], self.K(wb))
                self.sto(st, st.r[sp], code.addr(i.next), i)
            return t
        if mn == "ret" + suf:
            v = self.ld(st, st.r[sp], wb, i)
            st.r[sp] = add(st.r[sp], self.K(wb + (self.imm(o[0]) if o else 0)))
            return v
        if mn in ("hlt", "ud2"):
            return "trap"
        raise ToolLimit("instruction " + i.raw)

    # ------------------------------------------------------------------------------------------ s390x
    def isa_s390(self, st, code, i):
        mn = i.mn
        o = [x.replace("%", "") for x in i.ops]

        def ad(op):
            m = re.match(r"^(-?\d+)(?:\((\w+)\))?$", op)
            if not m:
                raise ToolLimit(i.raw)
            a = self.K(int(m.group(1)))
            return add(self.g(st, m.group(2)), a) if m.group(2) else a
        if mn in ("stg", "std"):
            self.sto(st, ad(o[1]), self.g(st, o[0]), i)
        elif mn in ("lg", "ld", "ltg"):
            st.r[o[0]] = self.ld(st, ad(o[1]), 8, i)
            if mn == "ltg":
                st.flags = st.r[o[0]]
        elif mn in ("stmg", "lmg"):
            a = ad(o[2])
            x, y = int(o[0][1:]), int(o[1][1:])
            for k, r in enumerate(range(x, y + 1)):
                ak = add(a, self.K(8 * k))
                if mn == "stmg":
                    self.sto(st, ak, self.g(st, "r%d" % r), i)
                else:
                    st.r["r%d" % r] = self.ld(st, ak, 8, i)
        elif mn in ("stfpc", "lfpc"):
            if mn == "stfpc":
                self.sto(st, ad(o[0]), st.ctl["fpc"], i)
            else:
                st.ctl["fpc"] = self.ld(st, ad(o[0]), 4, i)
        elif mn in ("aghi", "agfi"):
            st.r[o[0]] = add(self.g(st, o[0]), self.K(int(o[1])))
        elif mn == "lghi":
            st.r[o[0]] = self.K(int(o[1]))
        elif mn == "lgr":
            st.r[o[0]] = self.g(st, o[1])
        elif mn in ("la", "lay"):
            st.r[o[0]] = ad(o[1])
        elif mn == "nill":
            st.r[o[0]] = and_(self.g(st, o[0]), self.K(0xFFFFFFFFFFFF0000 | int(o[1])))
        elif mn == "mvghi":
            self.sto(st, ad(o[0]), self.K(int(o[1])), i)
        elif mn == "larl":
            st.r[o[0]] = self.symaddr(code, i.rel[1]) if i.rel else code.addr(int(o[1], 0))
        elif mn in ("jne", "jnz", "je", "jz", "jlh", "jnlh"):
            if st.flags is None:
                raise ToolLimit("flags")
            z = eq(st.flags, self.K(0))
            return [(z if mn in ("je", "jz") else bnot(z), code.addr(int(o[0], 0)))]
        elif mn == "br":
            return self.g(st, o[0])
        elif mn in ("basr",):
            t = self.g(st, o[1])
            st.r[o[0]] = code.addr(i.next)
            return t
        elif mn in ("brasl", "jg", "j"):
            if mn == "brasl":
                st.r[o[0]] = code.addr(i.next) if i.next is not None else code.addr(i.off + 6)
            return self.symaddr(code, i.rel[1]) if i.rel else code.addr(int(o[-1], 0))
        elif mn in ("nopr", "nop"):
            pass
        else:
            raise ToolLimit("instruction " + i.raw)
        return None

    # ------------------------------------------------------------------------------------------ PowerPC
    def isa_ppc(self, st, code, i):
        mn, o = i.mn, i.ops

        def r(x):
            return "r" + x

        def ra(x):
            return self.K(0) if x == "0" else self.g(st, r(x))

        def ad(op):
            m = re.match(r"^(-?\d+)\((\d+)\)$", op)
            if not m:
                raise ToolLimit(i.raw)
            return add(ra(m.group(2)), self.K(int(m.group(1))))
        ws = {"std": 8, "ld": 8, "stw": 4, "lwz": 4}.get(mn)
        if ws:
            if ws * 8 != self.W:
                raise ToolLimit(i.raw)
            if mn in ("std", "stw"):
                self.sto(st, ad(o[1]), self.g(st, r(o[0])), i)
            else:
                st.r[r(o[0])] = self.ld(st, ad(o[1]), ws, i)
        elif mn in ("stdu", "stwu"):
            a = ad(o[1])
            self.sto(st, a, self.g(st, r(o[0])), i)
            st.r[r(re.match(r".*\((\d+)\)", o[1]).group(1))] = a
        elif mn in ("stfd", "lfd"):
            if mn == "stfd":
                self.sto(st, ad(o[1]), self.g(st, "f" + o[0]), i)
            else:
                st.r["f" + o[0]] = self.ld(st, ad(o[1]), 8, i)
        elif mn in ("addi", "addis"):
            if i.rel:
                if ".TOC." in i.rel[1] or ".got2" in i.rel[1]:
                    st.r[r(o[0])] = self.gp
                    return None
                raise ToolLimit("relocated " + i.raw)
            k = int(o[2]) << (16 if mn == "addis" else 0)
            st.r[r(o[0])] = add(ra(o[1]), self.K(k))
        elif mn == "li":
            st.r[r(o[0])] = self.K(int(o[1]))
        elif mn == "mr":
            st.r[r(o[0])] = self.g(st, r(o[1]))
        elif mn == "mflr":
            st.r[r(o[0])] = st.r["lr"]
        elif mn == "mtlr":
            st.r["lr"] = self.g(st, r(o[0]))
        elif mn == "mtctr":
            st.r["ctr"] = self.g(st, r(o[0]))
        elif mn == "mfcr":
            st.r[r(o[0])] = st.ctl["cr"]
        elif mn in ("mtcr", "mtcrf"):
            if mn == "mtcrf" and int(o[0]) != 255:
                raise ToolLimit(i.raw)
            st.ctl["cr"] = self.g(st, r(o[-1]))
        elif mn == "mffs":
            st.r["f" + o[0]] = st.ctl["fpscr"]
        elif mn == "mtfsf":
            if int(o[0]) != 255:
                raise ToolLimit(i.raw)
            st.ctl["fpscr"] = self.g(st, "f" + o[1])
        elif mn == "rldicr":
            if o[2] != "0":
                raise ToolLimit(i.raw)
            st.r[r(o[0])] = and_(self.g(st, r(o[1])), self.K(((1 << (int(o[3]) + 1)) - 1) << (63 - int(o[3]))))
        elif mn == "rlwinm":
            if o[2] != "0" or o[3] != "0":
                raise ToolLimit(i.raw)
            st.r[r(o[0])] = and_(self.g(st, r(o[1])), self.K(((1 << (int(o[4]) + 1)) - 1) << (31 - int(o[4]))))
        elif mn in ("bl", "b"):
            if mn == "bl":
                st.r["lr"] = code.addr(i.off + 4)
            return self.symaddr(code, i.rel[1]) if i.rel else code.addr(int(o[0], 0))
        elif mn in ("blr", "bctr", "bctrl", "blrl"):
            t = st.r["ctr" if "ctr" in mn else "lr"]
            if mn.endswith("rl"):
                st.r["lr"] = code.addr(i.off + 4)
            return t
        elif mn in ("cmpdi", "cmpwi"):
            st.flags = (self.g(st, r(o[-2])), self.K(int(o[-1])))
        elif mn in ("bt", "bf", "beq", "bne"):
            if st.flags is None or mn in ("bt", "bf") and o[0] != "2":
                raise ToolLimit(i.raw)
            c = eq(*st.flags)
            return [(c if mn in ("bt", "beq") else bnot(c), code.addr(int(o[-1], 0)))]
        elif mn == "nop":
            pass
        else:
            raise ToolLimit("instruction " + i.raw)
        return None

    # ------------------------------------------------------------------------------------------ SPARC v9
    def isa_sparc(self, st, code, i):
        mn = i.mn
        AL = {"sp": "o6", "fp": "i6", "g0": "g0"}

        def n(x):
            x = x.strip().lstrip("%")
            return AL.get(x, x)

        def ri(x):
            return self.g(st, n(x)) if x.startswith("%") else self.K(int(x, 0))

        def put(x, v):
            if n(x) != "g0":
                st.r[n(x)] = v

        def ad(op):
            m = re.match(r"^\[(%\w+)(?:\+(-?\w+|%\w+))?\]$", op)
            if not m:
                raise ToolLimit(i.raw)
            return add(ri(m.group(1)), ri(m.group(2)) if m.group(2) else self.K(0))
        o = i.ops
        if mn == "save":
            v = add(ri(o[0]), ri(o[1]))
            st.wins.append({k: st.r[k] for k in rng("l", 0, 8) + rng("i", 0, 8)})
            for k in range(8):
                st.r["i%d" % k] = st.r["o%d" % k]
            for k in range(8):
                st.r["l%d" % k] = fresh("l%d_new" % k, 64)
                st.r["o%d" % k] = fresh("o%d_new" % k, 64)
            put(o[2], v)
        elif mn == "restore":
            v = add(ri(o[0]), ri(o[1])) if o else self.K(0)
            for k in range(8):
                st.r["o%d" % k] = st.r["i%d" % k]
            if st.wins:
                w = st.wins.pop()
                st.r.update(w)
            else:      # window underflow: filled from the save area at the new stack pointer
                for k in range(16):
                    a = add(st.r["o6"], self.K(2047 + 8 * k))
                    st.r[("l%d" if k < 8 else "i%d") % (k % 8)] = self.ld(st, a, 8, None)
            if o:
                put(o[2], v)
        elif mn == "flushw":
            # every window of a caller is spilled to the save area at that caller's stack pointer
            sp = st.r["i6"]
            while st.wins:
                w = st.wins.pop()
                for k in range(16):
                    self.sto(st, add(sp, self.K(2047 + 8 * k)), w[("l%d" if k < 8 else "i%d") % (k % 8)], None)
                sp = w["i6"]
        elif mn == "stx":
            self.sto(st, ad(o[1]), self.g(st, n(o[0])), i)
        elif mn == "ldx":
            put(o[1], self.ld(st, ad(o[0]), 8, i))
        elif mn in ("add", "sub", "and", "or"):
            put(o[2], {"add": add, "sub": sub, "and": and_, "or": or_}[mn](ri(o[0]), ri(o[1])))
        elif mn == "mov":
            put(o[1], ri(o[0]))
        elif mn == "rd":
            if o[0] != "%pc":
                raise ToolLimit(i.raw)
            put(o[1], code.addr(i.off))
        elif mn in ("ret", "retl", "jmp", "call"):
            if mn in ("ret", "retl"):
                t = add(st.r["i7" if mn == "ret" else "o7"], self.K(8))
            elif o[0].startswith("%"):
                m = re.match(r"^(%\w+)(?:\+(-?\w+))?$", o[0])
                t = add(ri(m.group(1)), self.K(int(m.group(2), 0) if m.group(2) else 0))
            else:
                t = self.symaddr(code, i.rel[1]) if i.rel else code.addr(int(o[0], 0))
            if mn == "call":
                st.r["o7"] = code.addr(i.off)
            self.delay(st, code, i)
            return t
        elif mn in ("unimp",):
            return "trap"
        elif mn == "nop":
            pass
        else:
            raise ToolLimit("instruction " + i.raw)
        return None


ALLREGS = {
    "arm64": rng("x", 0, 31) + ["sp"] + rng("d", 0, 32),
    "riscv": ["ra", "sp", "gp", "tp"] + rng("t", 0, 7) + rng("s", 0, 12) + rng("a", 0, 8) + rng("fs", 0, 12) + rng("ft", 0, 12) + rng("fa", 0, 8),
    "loong": ["ra", "sp", "tp", "fp", "r21"] + rng("t", 0, 9) + rng("s", 0, 9) + rng("a", 0, 8) + rng("fs", 0, 8) + rng("ft", 0, 16) + rng("fa", 0, 8),
    "mips": rng("r", 1, 28) + ["gp", "sp", "fp", "ra"] + rng("f", 0, 32),
    "arm": rng("r", 0, 13) + ["sp", "lr"] + rng("d", 0, 32),
    "s390": rng("r", 0, 16) + rng("f", 0, 16),
    "ppc": rng("r", 0, 32) + ["lr", "ctr"] + rng("f", 0, 32),
    "sparc": rng("g", 1, 8) + rng("o", 0, 8) + rng("l", 0, 8) + rng("i", 0, 8),
}
X86R = {32: ["eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi"],
        64: ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi"] + rng("r", 8, 16)}


class Check:
    PROP = "C20"

    def __init__(self, port, prover, ledger, wd):
        self.p, self.pr, self.l = port, prover, ledger
        val.reset()
        d = tempfile.mkdtemp(dir=wd)
        self.codes = {}
        for n in ("jump", "ontop", "make"):
            self.codes[n] = Code(port, n, d)
            ledger.functions.add("%s_fcontext [src/asm/%s_%s_gas.S, %s]" % (n, n, port.src, port.target))
        self.m = Machine(port, self.codes, prover)
        self.W, self.B = port.W, port.W // 8
        self.regs = X86R[port.W] if port.isa == "x86" else ALLREGS[port.isa]
        self.unit = port.name
        self.bias = 2047 if port.isa == "sparc" else 0

    def ob(self, name, st, goal, info=None):
        if isinstance(goal, bool):
            self.l.record(self.unit, name, "", "valid" if goal else "invalid", "normal-form", None if goal else self.detail(st, None, info), prop=self.PROP)
            return
        r, m = self.pr.prove(st.pc, goal.e)
        self.l.record(self.unit, name, "", r, "z3", None if r == "valid" else self.detail(st, m, info), prop=self.PROP)

    def detail(self, st, model, info):
        return {"info": info, "model": str(model)[:3000] if model is not None else None, "trace": st.trace[-80:],
                "registers": {k: repr(v) for k, v in st.r.items()}}

    def K(self, v):
        return V(self.W, v)

    def off(self, base, a):
        d = sub(a, base)
        return d.signed() if d.conc else None

    # -- states
    def start(self, tag, n, hidden):
        """at the call of a primitive with n arguments (hidden: a result pointer comes first)"""
        s = St()
        s.memname = "M" + tag
        fl = set(rng("f", 0, 32) + rng("d", 0, 32) + rng("fs", 0, 12) + rng("ft", 0, 16) + rng("fa", 0, 8))
        for r in self.regs:
            s.r[r] = fresh("%s_%s" % (r, tag), 64 if r in fl else self.W)
        for c, w, _ in self.p.ctl:
            s.ctl[c] = fresh("%s_%s" % (c, tag), w)
        if self.p.isa == "x86":
            s.ctl.setdefault("guard", fresh("guard_" + tag, 32))
            s.ctl.setdefault("mxcsr", fresh("mxcsr_" + tag, 32))
            s.ctl.setdefault("cw", fresh("cw_" + tag, 16))
        for _, rs, w in self.p.groups:
            for r in rs:
                s.r[r] = fresh("%s_%s" % (r, tag), w)
        a = fresh("stk_" + tag, self.W, align=self.p.align)
        s.pc.append(z3.Extract({4: 1, 8: 2, 16: 3}[self.p.align], 0, a.z()) == 0)
        s.r[self.p.sp] = add(a, self.K(self.p.skew - self.bias))
        if self.p.isa == "mips":
            s.r["gp"] = self.m.gp   # all callers live in one module (hidden visibility)
        if self.p.isa == "ppc" and self.W == 64 and not self.p.desc:
            s.r["r2"] = self.m.gp
        s.sp0 = s.r[self.p.sp]
        k = 0
        s.hid = None
        args = []
        for j in range(n + (1 if hidden else 0)):
            if self.p.args == "stack":
                args.append(self.m.ld(s, add(s.sp0, self.K(self.B * (j + 1))), self.B))
            else:
                args.append(s.r[self.p.args[j]])
        if hidden:
            s.hid = args.pop(0)
            s.pc.append(s.hid.z() != 0)
        s.args = args
        s.ret0 = self.ret_addr(s)
        s.loads = []
        s.init = dict(s.r)
        s.ctl0 = dict(s.ctl)
        if self.p.isa == "sparc":
            s.wins = []   # windows of outer frames: already spilled or spilled by flushw, not observable here
        return s

    def ret_addr(self, s):
        if self.p.lr:
            return add(s.r[self.p.lr], self.K(8)) if self.p.isa == "sparc" else s.r[self.p.lr]
        return self.m.ld(s, s.r[self.p.sp], self.B)

    def sp_after(self, s0, hidden):
        """stack pointer the caller expects after the call"""
        d = 0
        if not self.p.lr:
            d = self.B + (self.B if hidden and self.p.args == "stack" else 0)
        return add(s0.sp0, self.K(d))

    def inh(self, st, s0):
        for k in ("sp0", "hid", "args", "ret0", "init", "ctl0"):
            if hasattr(s0, k):
                setattr(st, k, getattr(s0, k))
        return st

    def call(self, name, s):
        c = self.codes[name]
        e = c.entry(name + "_fcontext")
        if self.p.isa == "mips" and "r25" in s.r:
            s.r["r25"] = e
            if self.W == 32:
                self.m.ext["_gp_base"] = e
        if self.p.isa == "ppc" and self.W == 64 and not self.p.desc:
            s.r["r12"] = e
        return self.m.run(s, e)

    def one(self, what, res, st0, kind="exit"):
        bad = [r for r in res if r[1] != kind]
        self.ob(what, bad[0][0] if bad else (res[0][0] if res else st0), len(res) >= 1 and not bad,
                info="paths end with %s" % [(r[1], str(r[2])) for r in res])
        return [r for r in res if r[1] == kind]

    @property
    def mem(self):
        return self.p.ret == "mem"

    # -- the transfer delivered to a function being entered (hid: it also gets a result pointer first)
    def passed(self, st, hid):
        """-> (handle, data) as the entered function sees its transfer_t argument"""
        k = 1 if hid else 0
        m = self.m
        if self.p.pas == "regs":
            return st.r[self.p.args[k]], st.r[self.p.args[k + 1]]
        if self.p.pas == "stack":
            a = add(st.r[self.p.sp], self.K(self.B * (1 + k)))
            return m.ld(st, a, self.B), m.ld(st, add(a, self.K(self.B)), self.B)
        p = st.r[self.p.args[k]]
        return m.ld(st, p, self.B), m.ld(st, add(p, self.K(self.B)), self.B)

    def returned(self, st, hid):
        if self.mem:
            return self.m.ld(st, hid, self.B), self.m.ld(st, add(hid, self.K(self.B)), self.B)
        return st.r[self.p.ret[0]], st.r[self.p.ret[1]]

    # -- saving
    def suspend(self, S):
        """some context T calls S on an unknown target: where is T's handle published?"""
        s0 = self.start("s", 3 if S == "ontop" else 2, self.mem)
        res = self.one("%s_fcontext transfers control to the target context" % S,
                       [r if r[1] != "ext" or self.p.pas != "tail" else (r[0], "exit", r[2]) for r in self.call(S, s0.copy())], s0)
        out = []
        for st, k, pc in res:
            cands = []
            for v in list(st.r.values()) + [st.mem.a[a][o] for a in st.mem.a for o in st.mem.a[a] if a != s0.sp0.t]:
                if v.w == self.W and v.t == s0.sp0.t:
                    o = self.off(s0.sp0, v)
                    if o is not None and -WINDOW <= o <= 0 and o not in cands:
                        cands.append(o)
            self.inh(st, s0)
            out.append((st, sorted(cands)))
        return out

    def later(self, s1, n, keep, hidden):
        s2 = self.start("r", n, hidden)
        s2.pc = list(s1.pc) + s2.pc
        for anchor, cells in s1.mem.a.items():
            for o, v in list(cells.items()):
                if keep(anchor, o, v.w // 8):
                    s2.mem.store(anchor, o, v)
                    w = s1.widths.get(anchor, {}).get(o)
                    if w:
                        d = s2.widths[anchor] = dict(s2.widths.get(anchor, {}))
                        d[o] = w
        return s2

    def setarg(self, s, k, v):
        if self.p.args == "stack":
            j = k + 1 + (1 if self.mem else 0)
            self.m.sto(s, add(s.sp0, self.K(self.B * j)), v)
            s.stores = []
        else:
            s.r[self.p.args[k + (1 if self.mem else 0)]] = v
        s.args = list(s.args)
        s.args[k] = v
        s.init = dict(s.r)

    def frame(self, st, sp0, tgt, hid, what, extra=None):
        """stores only to: dead stack below / callee-owned slots above the caller's stack pointer, the consumed part of the
           target's stack (tgt = (anchor sp, low, high)), the target's result slot"""
        for a, n, i in st.stores:
            o = self.off(sp0, a)
            if o is not None:
                o -= self.bias
                ok = (-WINDOW <= o and o + n <= self.p.own + (0 if self.p.lr or self.p.args != "stack" else self.B)) or \
                    any(x <= o and o + n <= x + k for x, k in self.p.red)
                self.ob(what, st, ok, info="store of %d bytes at sp%+d by %s" % (n, o, i.raw if i else "window spill"))
                continue
            if hid is not None and self.off(hid, a) is not None and 0 <= self.off(hid, a) and self.off(hid, a) + n <= 2 * self.B:
                self.ob(what, st, True)
                continue
            if tgt is not None:
                o = self.off(tgt[0], a)
                if o is not None:
                    o -= self.bias
                    ok = (tgt[1] <= o and o + n <= tgt[2]) or any(x <= o and o + n <= x + k for x, k in self.p.red)
                    self.ob(what, st, ok, info="store of %d bytes at target sp%+d by %s" % (n, o, i.raw if i else "?"))
                    continue
            if extra is not None:
                self.ob(what, st, extra(a, n), info="store %r" % a)
                continue
            self.ob(what, st, False, info="store of %d bytes to %r by %s" % (n, a, i.raw if i else "?"))

    def regs_back(self, what, st, s1):
        for r in self.p.callee:
            self.ob("%s: %s preserved" % (what, r), st, eq(st.r[r], s1.init[r]), info="%s is %r, was %r" % (r, st.r[r], s1.init[r]))
        for r in self.p.fcallee:
            self.ob("%s: %s preserved" % (what, r), st, eq(st.r[r], s1.init[r]), info="%s is %r, was %r" % (r, st.r[r], s1.init[r]))
        for g, rs, _ in self.p.groups:
            ok = True
            for r in rs:
                ok = band(ok, eq(st.r[r], s1.init[r]))
            self.ob("%s: %s preserved" % (what, g), st, ok)
        for c, w, mask in self.p.ctl:
            k = V(w, mask)
            self.ob("%s: %s preserved" % (what, c), st, eq(and_(st.ctl[c], k), and_(s1.ctl0[c], k)), info="%r, was %r" % (st.ctl[c], s1.ctl0[c]))

    def own_handle(self, st, s, what, h):
        o = self.off(s.sp0, h)
        self.ob(what + ": handle designates the saved area just below the suspended stack pointer", st, o is not None and -WINDOW <= o <= 0,
                info="handle %r, stack pointer at the call %r" % (h, s.sp0))
        return o

    def fn_returns(self, st, hid, pair):
        """contract of a C function called at st and returning `pair` as its transfer_t"""
        s = self.inh(st.copy(), st)
        sp = s.r[self.p.sp]
        if self.p.lr:
            ra = self.ret_addr(s)
            up = 0
        else:
            ra = self.m.ld(s, sp, self.B)
            up = self.B + (self.B if hid is not None and self.p.args == "stack" else 0)
        for r in self.regs:
            if r not in self.p.callee and r not in self.p.fcallee and r != self.p.sp and not (self.p.isa == "mips" and r == "gp"):
                s.r[r] = fresh(r + "_ret", s.r[r].w)
        for anchor in list(s.mem.a):
            if anchor == sp.t:
                lim = sgn(sp.c, self.W) + self.bias
                for o in list(s.mem.a[anchor]):
                    if o < lim or (self.p.own and o < lim + self.p.own and self.p.isa in ("s390", "mips") and False):
                        del s.mem.a[anchor][o]
        s.r[self.p.sp] = add(sp, self.K(up))
        if pair is not None:
            if self.mem:
                for k in (0, 1):
                    self.m.sto(s, add(hid, self.K(k * self.B)), pair[k])
            else:
                s.r[self.p.ret[0]], s.r[self.p.ret[1]] = pair
        s.stores, s.flags = [], None
        s.memname = st.memname + "'"
        return s, ra

    def aligned(self, what, st):
        sp = add(st.r[self.p.sp], self.K(self.bias))
        self.ob(what + ": stack is ABI-aligned at function entry", st, eq(and_(sp, self.K(self.p.align - 1)), self.K(self.p.skew % self.p.align)),
                info="sp=%r" % sp)

    def is_fn(self, st, pc, fn):
        """control is at the function designated by the function pointer fn"""
        if not self.p.desc:
            return eq(pc, fn)
        return band(eq(pc, self.m.ld(st, fn, 8)), eq(st.r["r2"], self.m.ld(st, add(fn, self.K(8)), 8)))

    def resumed(self, what, st, pc, s1):
        """context suspended in state s1 continues in st"""
        self.ob(what + ": continues right after the suspending call", st, eq(pc, s1.ret0), info="pc=%r" % pc)
        self.ob(what + ": stack pointer restored", st, eq(st.r[self.p.sp], self.sp_after(s1, self.mem)), info="sp=%r" % st.r[self.p.sp])
        self.regs_back(what, st, s1)

    def restore(self, S, R, s1, h):
        what = "%s->%s" % (S, R)
        anchor, base = s1.sp0.t, sgn(s1.sp0.c, self.W)
        ho = self.off(s1.sp0, h)
        s2 = self.later(s1, 3 if R == "ontop" else 2, lambda a, o, n: a == anchor and o >= base + ho + self.bias, self.mem)
        self.setarg(s2, 0, h)
        res = self.call(R, self.inh(s2.copy(), s2))
        if self.p.pas == "tail" and R == "ontop":
            res = [(x, "exit", y) if k == "ext" else (x, k, y) for x, k, y in res]
        tgt = (s1.sp0, ho, self.p.own + (self.B if self.p.args == "stack" else 0))
        for st, k, pc in self.one(what + ": suspended context is resumed", res, s2):
            if R == "jump":
                self.resumed(what, st, pc, s1)
                h2, d2 = self.returned(st, s1.hid)
                self.own_handle(st, s2, what, h2)
                self.ob(what + ": receives the resumer's data", st, eq(d2, s2.args[1]), info="data %r" % d2)
                self.frame(st, s2.sp0, tgt, s1.hid, what + ": live memory untouched")
                self.good.setdefault(R, set()).add(self.off(s2.sp0, h2))
            else:
                if self.p.pas == "tail":
                    # C++ helper ontop_fcontext_tail(hidden, ignored, data, fn, from) is entered by a jump
                    self.ob(what + ": on-top helper is entered", st, pc == "ontop_fcontext_tail", info="%r" % (pc,))
                    self.ob(what + ": on-top helper gets the function", st, eq(st.r[self.p.args[3]], s2.args[2]))
                    h2, d2 = st.r[self.p.args[4]], st.r[self.p.args[2]]
                else:
                    self.ob(what + ": on-top function is called", st, self.is_fn(st, pc, s2.args[2]), info="pc=%r" % pc)
                    h2, d2 = self.passed(st, self.mem)
                self.own_handle(st, s2, what + " on-top", h2)
                self.ob(what + ": on-top function gets the data", st, eq(d2, s2.args[1]), info="%r" % d2)
                if self.mem:
                    hp = self.m.ld(st, add(st.r[self.p.sp], self.K(self.B)), self.B) if self.p.args == "stack" else st.r[self.p.args[0]]
                    self.ob(what + ": on-top function's result goes to the suspended call's result slot", st, eq(hp, s1.hid), info="%r" % hp)
                so = self.off(s1.sp0, st.r[self.p.sp])
                self.ob(what + ": on-top function runs on the target's stack", st, so is not None and -WINDOW <= so <= 0, info="sp=%r" % st.r[self.p.sp])
                self.aligned(what + " on-top", st)
                self.frame(st, s2.sp0, tgt, s1.hid, what + ": live memory untouched")
                self.good.setdefault(R, set()).add(self.off(s2.sp0, h2))
                pair = (fresh("fn_h", self.W), fresh("fn_d", self.W))
                s4, ra = self.fn_returns(st, s1.hid if self.mem else None, pair)
                for s5, k5, pc5 in self.one(what + ": resumes after the on-top function", self.m.run(s4, ra), s4):
                    self.resumed(what, s5, pc5, s1)
                    h5, d5 = self.returned(s5, s1.hid)
                    self.ob(what + ": on-top function's result is returned", s5, band(eq(h5, pair[0]), eq(d5, pair[1])))
                    self.frame(s5, s1.sp0, None, s1.hid, what + ": live memory untouched")
            self.l.cover(self.unit, what, self.pr.check(st.pc)[0] == "sat")

    def make(self):
        s0 = self.start("m", 3, False)
        sp, size, fn = s0.args
        base = sub(sp, size)
        big = self.W - 1
        s0.pc += [z3.UGE(size.z(), z3.BitVecVal(1024, self.W)), z3.ULE(base.z(), sp.z()), z3.UGT(base.z(), z3.BitVecVal(4096, self.W)),
                  z3.ULT(sp.z(), z3.BitVecVal(1 << big, self.W))]

        def inside(a, n, hi=0):
            return B(z3.And(z3.ULE(base.z(), a.z()), z3.ULE(a.z(), sp.z()), z3.ULE(add(a, self.K(n)).z(), sp.z())), a.roots() | sp.roots())
        for st, k, pc in self.one("make_fcontext returns", self.call("make", self.inh(s0.copy(), s0)), s0):
            self.inh(st, s0)
            self.ob("make: returns to its caller", st, eq(pc, s0.ret0), info="pc=%r" % pc)
            self.ob("make: stack pointer restored", st, eq(st.r[self.p.sp], self.sp_after(s0, False)))
            for r in self.p.callee + self.p.fcallee:
                self.ob("make: %s preserved" % r, st, eq(st.r[r], s0.init[r]), info="%r" % st.r[r])
            for c, w, mask in self.p.ctl:
                self.ob("make: %s preserved" % c, st, eq(and_(st.ctl[c], V(w, mask)), and_(s0.ctl0[c], V(w, mask))))
            self.frame(st, s0.sp0, None, None, "make: writes only inside the given stack", extra=inside)
            h = {"arm64": "x0", "riscv": "a0", "loong": "a0", "mips": "r2", "arm": "r0", "s390": "r2", "ppc": "r3", "sparc": "o0"}.get(self.p.isa)
            h = st.r[h or ("rax" if self.W == 64 else "eax")]
            self.ob("make: handle lies inside the given stack", st, inside(add(h, self.K(self.bias)), self.B), info="%r" % h)
            own = s0.sp0.t
            for R in ("jump", "ontop"):
                if R == "ontop" and not self.p.fresh_ontop:
                    continue     # an on-top function onto a raw, never entered context is only supported on x86-64 (no client in the library does it)
                what = "make->%s" % R
                s2 = self.later(st, 3 if R == "ontop" else 2, lambda a, o, n: a != own, self.mem)
                self.setarg(s2, 0, h)
                for s3, k3, pc3 in self.one(what + ": fresh context is entered", self.call(R, self.inh(s2.copy(), s2)), s2):
                    self.inh(s3, s2)
                    if R == "ontop":
                        self.ob(what + ": on-top function is called", s3, self.is_fn(s3, pc3, s2.args[2]), info="pc=%r" % pc3)
                        h2, d2 = self.passed(s3, False)
                        self.own_handle(s3, s2, what + " on-top", h2)
                        self.ob(what + ": on-top function gets the data", s3, eq(d2, s2.args[1]))
                        self.aligned(what + " on-top", s3)
                        pair = (fresh("fn_h", self.W), fresh("fn_d", self.W))
                        s4, ra = self.fn_returns(s3, None, pair)
                        rr = self.one(what + ": entry follows the on-top function", self.m.run(s4, ra), s4)
                    else:
                        rr = [(s3, k3, pc3)]
                    for s5, k5, pc5 in rr:
                        self.inh(s5, s2)
                        self.ob(what + ": entry function is called", s5, self.is_fn(s5, pc5, fn), info="pc=%r" % pc5)
                        if R == "jump":
                            h2, d2 = self.passed(s5, False)
                            self.own_handle(s5, s2, what + " entry", h2)
                            self.ob(what + ": entry function gets the data", s5, eq(d2, s2.args[1]), info="%r" % d2)
                        self.aligned(what, s5)
                        esp = add(s5.r[self.p.sp], self.K(self.bias))
                        room = self.p.entry_room or (0 if self.p.lr else self.B)
                        self.ob(what + ": entry function runs on the given stack", s5, inside(esp, room), info="sp=%r, needs %d bytes above" % (esp, room))
                        for c, w, mask in self.p.ctl:
                            if self.p.isa in ("x86", "s390"):
                                self.ob(what + ": %s inherited from the maker" % c, s5, eq(and_(s5.ctl[c], V(w, mask)), and_(s0.ctl0[c], V(w, mask))))
                        self.frame(s5, s2.sp0, None, None, what + ": writes only inside the given stack", extra=inside)
                        s6, ra = self.fn_returns(s5, None, None)
                        for s7, k7, sym in self.one(what + ": returning from the entry function exits the process", self.m.run(s6, ra), s6, kind="ext"):
                            self.ob(what + ": exit through _exit/exit", s7, sym.lstrip("_") in ("exit", "Exit"), info=sym)
                            st0 = self.m.ld(s7, add(s7.r[self.p.sp], self.K(self.B)), self.B) if self.p.args == "stack" else s7.r[self.p.args[0]]
                            self.ob(what + ": exit status is 0", s7, eq(extract(st0, 0, 32), V(32, 0)), info="%r" % st0)
                        self.l.cover(self.unit, what, self.pr.check(s5.pc)[0] == "sat")

    def deliver(self, susp):
        """offset below the caller's stack pointer of the handle that each primitive hands to the context it resumes
           (found by composing; nothing is recorded here)"""
        keep, out = self.l, {}
        self.l = Null()
        groups, self.p.groups = self.p.groups, []
        try:
            for S, l in susp.items():
                for st, cands in l:
                    for o in cands:
                        for R in ("jump", "ontop"):
                            self.good = {}
                            self.bad = False
                            try:
                                self.restore(S, R, st, add(st.sp0, self.K(o)))
                            except ToolLimit:
                                continue
                            if not self.l.failed:
                                out.setdefault(R, set()).update(x for x in self.good.get(R, ()) if x is not None)
                            self.l.failed = False
        finally:
            self.l = keep
            self.p.groups = groups
        return out

    def run(self):
        susp = {S: self.suspend(S) for S in ("jump", "ontop")}
        d = self.deliver(susp)
        for S, l in susp.items():
            for st, cands in l:
                # if no composition works at all, report the obligations of the lowest published value
                offs = sorted(d.get(S, ())) or cands[:1]
                self.ob("%s: publishes a handle of the suspended context" % S, st, bool(offs))
                for o in offs:
                    for R in ("jump", "ontop"):
                        self.restore(S, R, st, add(st.sp0, self.K(o)))
        self.make()
        self.l.paths += self.m.n


class Null:
    """ledger that only remembers whether something failed"""
    failed = False

    def record(self, unit, name, loc, res, *a, **k):
        if res != "valid":
            self.failed = True

    def cover(self, *a):
        pass


def check(name, prover, ledger, work):
    Check(PORTS[name], prover, ledger, work).run()
