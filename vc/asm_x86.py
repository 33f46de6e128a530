"""Deductive verification of the x86-64 System V assembler primitives (C01, C02, C03).

Every run: assemble the real .S files with the flags of the build, disassemble the object code, execute it
on a fully symbolic machine state (all registers, memory, FP control words, TLS guard symbolic).  The code is
loop free, so this computes exact strongest postconditions; each clause of the contract of jump_fcontext /
ontop_fcontext / make_fcontext is discharged for all states.  The saved-context layout is not part of any
contract: saver and restorer are composed, every pair is checked.
"""
import os
import re
import subprocess
import z3
from .values import *
from . import values as val
from .cells import Cells

R64 = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi"] + ["r%d" % i for i in range(8, 16)]
SUB = {}
for r in R64:
    SUB[r] = (r, 0, 64)
for a, b in (("rax", "eax ax al"), ("rcx", "ecx cx cl"), ("rdx", "edx dx dl"), ("rbx", "ebx bx bl")):
    e, x, l = b.split()
    SUB[e] = (a, 0, 32)
    SUB[x] = (a, 0, 16)
    SUB[l] = (a, 0, 8)
    SUB[l[0] + "h"] = (a, 8, 8)
for a, b in (("rsp", "esp sp spl"), ("rbp", "ebp bp bpl"), ("rsi", "esi si sil"), ("rdi", "edi di dil")):
    e, x, l = b.split()
    SUB[e] = (a, 0, 32)
    SUB[x] = (a, 0, 16)
    SUB[l] = (a, 0, 8)
for i in range(8, 16):
    SUB["r%dd" % i] = ("r%d" % i, 0, 32)
    SUB["r%dw" % i] = ("r%d" % i, 0, 16)
    SUB["r%db" % i] = ("r%d" % i, 0, 8)
CALLEE_SAVED = ["rbx", "rbp", "r12", "r13", "r14", "r15"]
SUFW = {"b": 8, "w": 16, "l": 32, "q": 64}
WINDOW = 512  # dead area below the stack pointer the primitives may use


class Insn:
    __slots__ = ("off", "mn", "ops", "rel", "next", "raw")


class Obj:
    """decoded text section of one assembler file"""

    def __init__(self, name, path, flags, workdir, cc="gcc"):
        self.name = name
        o = os.path.join(workdir, name + ".o")
        r = subprocess.run([cc] + flags + ["-c", path, "-o", o], capture_output=True, text=True)
        if r.returncode:
            raise ToolLimit("cannot assemble %s: %s" % (path, r.stderr[:500]))
        d = subprocess.run(["objdump", "-d", "-r", "-j", ".text", "--no-show-raw-insn", o], capture_output=True, text=True)
        if d.returncode:
            raise ToolLimit("objdump failed: " + d.stderr[:300])
        self.insns = {}
        self.syms = {}
        last = None
        order = []
        for ln in d.stdout.split("\n"):
            m = re.match(r"^([0-9a-f]+) <(.+)>:$", ln)
            if m:
                self.syms[m.group(2)] = int(m.group(1), 16)
                continue
            m = re.match(r"^\s*([0-9a-f]+):\t(.*)$", ln)
            if m and not m.group(2).startswith("R_X86"):
                i = Insn()
                i.off = int(m.group(1), 16)
                txt = m.group(2).split("#")[0].split("<")[0].strip()
                i.raw = m.group(2).strip()
                while True:
                    pre = txt.split(None, 1)
                    if pre and pre[0] in ("notrack", "bnd", "data16", "cs", "ds", "rex.W", "repz", "rep") and len(pre) > 1:
                        txt = pre[1]
                    else:
                        break
                p = txt.split(None, 1)
                i.mn = p[0]
                i.ops = split_ops(p[1]) if len(p) > 1 else []
                i.rel = None
                i.next = None
                self.insns[i.off] = i
                if last:
                    last.next = i.off
                last = i
                continue
            m = re.match(r"^\s*([0-9a-f]+): (R_X86_\w+)\s+(\S+)$", ln)
            if m and last:
                last.rel = (m.group(2), m.group(3))
        # base address of this text section: arbitrary
        self.base = None

    def entry(self, sym):
        if sym not in self.syms:
            raise ToolLimit("symbol %s not defined" % sym)
        return self.syms[sym]


def split_ops(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "(":
            d += 1
        if ch == ")":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class St:
    def __init__(self):
        self.r = {}
        self.mem = Cells()
        self.fs = Cells()
        self.mxcsr = None
        self.cw = None
        self.flags = None
        self.pc = []  # path condition (z3)
        self.roots = frozenset()
        self.stores = []  # (addr V, size, insn)
        self.loads = []
        self.trace = []
        self.memname = "M"
        self.xmm = {}
        self.ssp = None      # shadow stack pointer, None: no shadow stack
        self.ss = Cells()    # shadow memory
        self.sstores = []
        self.faults = []     # (what, condition under which no control-protection fault occurs)
        self.prevtok = None

    def copy(self):
        s = St()
        s.r = dict(self.r)
        s.mem = self.mem.copy()
        s.fs = self.fs.copy()
        s.mxcsr, s.cw, s.flags = self.mxcsr, self.cw, self.flags
        s.pc = list(self.pc)
        s.stores = list(self.stores)
        s.loads = list(self.loads)
        s.trace = list(self.trace)
        s.memname = self.memname
        s.xmm = dict(self.xmm)
        s.ssp, s.ss, s.sstores, s.faults, s.prevtok = self.ssp, self.ss.copy(), list(self.sstores), list(self.faults), self.prevtok
        return s

    # shadow stack (Intel SDM vol. 1 ch. 17, 64-bit mode: the pointer is 8-byte aligned)
    def ss_ld(self, a):
        return self.ss.load(a.t, sgn(a.c, 64), 8, lambda o, k: fresh("SS%s[%r]" % (self.memname, V(64, o, a.t)), 8 * k))

    def ss_sto(self, a, v):
        self.sstores.append(a)
        self.ss.store(a.t, sgn(a.c, 64), v)

    def ss_push(self, v):
        if self.ssp is not None:
            self.ssp = sub(self.ssp, V(64, 8))
            self.ss_sto(self.ssp, v)

    def ss_ret(self, t, what):
        if self.ssp is not None:
            self.faults.append((what, eq(self.ss_ld(self.ssp), t)))
            self.ssp = add(self.ssp, V(64, 8))


def fresh_state(tag):
    s = St()
    for r in R64:
        s.r[r] = fresh("%s_%s" % (r, tag), 64)
    # ABI at a call: rsp = 16n + 8
    s.mxcsr = fresh("mxcsr_" + tag, 32)
    s.cw = fresh("x87cw_" + tag, 16)
    s.memname = "M" + tag
    return s


class Exec:
    def __init__(self, objs, prover):
        self.objs = objs
        for o in objs.values():
            if o.base is None:
                o.base = fresh("text_" + o.name, 64)
        self.prover = prover
        self.n_insn = 0
        self.addrs = set()

    # ---- operands
    def mem_addr(self, st, op, insn):
        seg = None
        if op.startswith("%fs:") or op.startswith("%gs:"):
            seg = op[1:3]
            op = op[4:]
        m = re.match(r"^(-?0x[0-9a-f]+|-?\d+)?(?:\((%\w+)?(?:,(%\w+)(?:,(\d))?)?\))?$", op)
        if not m:
            raise ToolLimit("operand " + op)
        disp = int(m.group(1), 0) if m.group(1) else 0
        a = V(64, disp)
        if m.group(2) == "%rip":
            raise ToolLimit("rip operand in mem_addr")
        if m.group(2):
            a = add(a, st.r[m.group(2)[1:]])
        if m.group(3):
            a = add(a, mulc(st.r[m.group(3)[1:]], int(m.group(4) or 1)))
        return seg, a

    def rip_addr(self, obj, insn, op):
        m = re.match(r"^(-?0x[0-9a-f]+|-?\d+)?\(%rip\)$", op)
        if not m:
            return None
        if insn.rel:
            raise ToolLimit("external rip-relative reference %s" % (insn.rel,))
        disp = int(m.group(1), 0) if m.group(1) else 0
        if insn.next is None:
            raise ToolLimit("rip at end of text")
        return add(obj.base, V(64, insn.next + disp))

    def ld(self, st, seg, a, n, insn):
        if seg:
            if a.t:
                raise ToolLimit("symbolic tls address")
            c = st.fs
            key = ()
            return c.load(key, a.c, n, lambda off, k: fresh("fs_%s_%#x" % (st.memname, off), 8 * k))
        st.loads.append((a, n, insn))
        key = a.t
        off = sgn(a.c, 64)
        return st.mem.load(key, off, n, lambda o, k: fresh("%s[%r]" % (st.memname, V(64, o, key)), 8 * k))

    def sto(self, st, seg, a, v, insn):
        if seg:
            if a.t:
                raise ToolLimit("symbolic tls address")
            st.fs.store((), a.c, v)
            return
        st.stores.append((a, v.w // 8, insn))
        st.mem.store(a.t, sgn(a.c, 64), v)

    def width(self, insn, ops, default=64):
        for o in ops:
            if o.startswith("%") and o[1:] in SUB:
                return SUB[o[1:]][2]
        return default

    def get(self, st, obj, insn, op, w):
        if op.startswith("$"):
            if insn.rel:
                raise ToolLimit("relocated immediate")
            return V(w, int(op[1:], 0))
        if op.startswith("%") and op[1:] in SUB:
            r, lo, rw = SUB[op[1:]]
            return extract(st.r[r], lo, rw)
        ra = self.rip_addr(obj, insn, op)
        if ra is not None:
            raise ToolLimit("load from text/data")
        seg, a = self.mem_addr(st, op, insn)
        return self.ld(st, seg, a, w // 8, insn)

    def put(self, st, obj, insn, op, v):
        if op.startswith("%") and op[1:] in SUB:
            r, lo, rw = SUB[op[1:]]
            if rw == 64:
                st.r[r] = v
            elif rw == 32:
                st.r[r] = zext(v, 64)
            else:
                old = st.r[r]
                parts = []
                if lo:
                    parts.append(extract(old, 0, lo))
                parts.append(v)
                parts.append(extract(old, lo + rw, 64 - lo - rw))
                st.r[r] = concat(parts)
            return
        seg, a = self.mem_addr(st, op, insn)
        self.sto(st, seg, a, v, insn)

    COND = {"e": "z", "z": "z", "ne": "nz", "nz": "nz", "b": "c", "c": "c", "nae": "c", "ae": "nc", "nc": "nc",
            "nb": "nc", "s": "s", "ns": "ns", "l": "l", "nge": "l", "ge": "ge", "nl": "ge", "le": "le", "ng": "le",
            "g": "g", "nle": "g", "be": "be", "na": "be", "a": "a", "nbe": "a"}

    def cond(self, st, cc):
        f = st.flags
        if f is None:
            raise ToolLimit("flags unknown")
        kind, x, y, r = f
        c = self.COND.get(cc)
        if c is None:
            raise ToolLimit("condition " + cc)
        zero = eq(r, V(r.w, 0))
        sign = slt(r, V(r.w, 0))
        if kind == "logic":
            cf, lt = False, sign
        elif kind == "sub":
            cf, lt = ult(x, y), slt(x, y)
        elif kind == "add":
            cf, lt = ult(r, x), None
        else:
            cf = lt = None
        base = {"z": zero, "c": cf, "s": sign, "l": lt}
        if c in base:
            v = base[c]
        elif c == "nz":
            v = bnot(zero)
        elif c == "nc":
            v = None if cf is None else bnot(cf)
        elif c == "ns":
            v = bnot(sign)
        elif c == "ge":
            v = None if lt is None else bnot(lt)
        elif c == "le":
            v = None if lt is None else bor(lt, zero)
        elif c == "g":
            v = None if lt is None else bnot(bor(lt, zero))
        elif c == "be":
            v = None if cf is None else bor(cf, zero)
        else:
            v = None if cf is None else bnot(bor(cf, zero))
        if v is None:
            raise ToolLimit("flag " + cc)
        return v

    def find(self, pc):
        """-> (obj, off) when pc is inside a known text section"""
        if len(pc.t) == 1 and pc.t[0][1] == 1:
            for o in self.objs.values():
                if o.base.t[0][0] is pc.t[0][0]:
                    off = sgn(pc.c, 64)
                    if off in o.insns:
                        return o, off
                    return o, None
        return None, None

    def run(self, st, pc, limit=4000):
        """execute until control leaves the known text; yields (state, kind, info)
           kind: 'exit' (info = pc value) | 'ext' (info = symbol, call to an external function) | 'trap'"""
        work = [(st, pc)]
        done = []
        steps = 0
        while work:
            st, pc = work.pop()
            while True:
                steps += 1
                if steps > limit:
                    raise ToolLimit("asm step limit")
                obj, off = self.find(pc)
                if obj is None:
                    done.append((st, "exit", pc))
                    break
                if off is None:
                    done.append((st, "trap", "jump into the middle of code %r" % pc))
                    break
                i = obj.insns[off]
                self.n_insn += 1
                self.addrs.add((obj.name, off))
                st.trace.append("%s+%#x: %s" % (obj.name, off, i.raw))
                nxt = add(obj.base, V(64, i.next)) if i.next is not None else None
                r = self.step(st, obj, i, nxt)
                if r is None:
                    if nxt is None:
                        done.append((st, "trap", "fell off the end of text"))
                        break
                    pc = nxt
                elif r[0] == "jmp":
                    pc = r[1]
                elif r[0] == "branch":
                    c, tgt = r[1], r[2]
                    if isinstance(c, bool):
                        pc = tgt if c else nxt
                    else:
                        alive = []
                        for b, d in ((c, tgt), (bnot(c), nxt)):
                            q, _ = self.prover.check(st.pc + [bz(b)])
                            if q == "unknown":
                                raise ToolLimit("branch feasibility unknown")
                            if q == "sat":
                                alive.append((b, d))
                        if len(alive) == 2:
                            s2 = st.copy()
                            s2.pc.append(bz(alive[1][0]))
                            work.append((s2, alive[1][1]))
                        st.pc.append(bz(alive[0][0]))
                        pc = alive[0][1]
                else:
                    done.append((st, r[0], r[1]))
                    break
        return done

    def target(self, st, obj, i, op):
        if op.startswith("*"):
            o = op[1:]
            if o.startswith("%") and o[1:] in SUB:
                return st.r[o[1:]]
            seg, a = self.mem_addr(st, o, i)
            return self.ld(st, seg, a, 8, i)
        if i.rel:
            name = re.sub(r"[-+]0x[0-9a-f]+$", "", i.rel[1])
            return name
        return add(obj.base, V(64, int(op, 16)))

    def step(self, st, obj, i, nxt):
        mn, ops = i.mn, i.ops
        if mn in ("endbr64", "nop", "nopw", "nopl", "xchg") and (mn != "xchg" or len(set(ops)) == 1):
            return None
        if mn in ("hlt", "ud2", "int3"):
            return ("trap", mn)
        if mn in ("rdsspq", "incsspq", "rstorssp", "saveprevssp"):
            if st.ssp is None:
                if mn == "rdsspq":
                    return None  # a no-op without shadow stacks
                return ("trap", mn + " without shadow stack")
            if mn == "rdsspq":
                st.r[SUB[ops[0][1:]][0]] = st.ssp
            elif mn == "incsspq":
                n = extract(st.r[SUB[ops[0][1:]][0]], 0, 8)
                if not n.conc:
                    raise ToolLimit("incsspq by a symbolic amount")
                st.ssp = add(st.ssp, V(64, 8 * n.c))
            elif mn == "rstorssp":
                seg, a = self.mem_addr(st, ops[0], i)
                tok = st.ss_ld(a)
                st.faults.append(("rstorssp finds a restore token", band(eq(tok, add(a, V(64, 9))), eq(and_(a, V(64, 7)), V(64, 0)))))
                st.prevtok = st.ssp
                st.ss_sto(a, add(st.ssp, V(64, 3)))
                st.ssp = a
            else:
                st.faults.append(("saveprevssp finds a previous-ssp token", st.prevtok is not None and eq(st.ss_ld(st.ssp), add(st.prevtok, V(64, 3)))))
                if st.prevtok is not None:
                    st.ss_sto(sub(st.prevtok, V(64, 8)), add(st.prevtok, V(64, 1)))
                st.ssp = add(st.ssp, V(64, 8))
                st.prevtok = None
            return None
        if mn in ("jmp", "jmpq"):
            t = self.target(st, obj, i, ops[0])
            if isinstance(t, str):
                for o in self.objs.values():
                    if t in o.syms:
                        return ("jmp", add(o.base, V(64, o.syms[t])))
                return ("ext", t)
            return ("jmp", t)
        if mn in ("call", "callq"):
            t = self.target(st, obj, i, ops[0])
            st.r["rsp"] = sub(st.r["rsp"], V(64, 8))
            if isinstance(t, str) or ops[0].startswith("*") or nxt is None or t.key() != nxt.key():
                st.ss_push(nxt if nxt is not None else V(64, 0))
            self.sto(st, None, st.r["rsp"], nxt if nxt is not None else V(64, 0), i)
            if isinstance(t, str):
                for o in self.objs.values():
                    if t in o.syms:
                        return ("jmp", add(o.base, V(64, o.syms[t])))
                return ("ext", t)
            return ("jmp", t)
        if mn in ("ret", "retq"):
            t = self.ld(st, None, st.r["rsp"], 8, i)
            st.ss_ret(t, "return to the address on the shadow stack")
            st.r["rsp"] = add(st.r["rsp"], V(64, 8 + (int(ops[0][1:], 0) if ops else 0)))
            return ("jmp", t)
        if mn[0] == "j" and mn[1:] in self.COND:
            t = self.target(st, obj, i, ops[0])
            if isinstance(t, str):
                raise ToolLimit("conditional jump to external symbol")
            return ("branch", self.cond(st, mn[1:]), t)
        if mn in ("push", "pushq"):
            v = self.get(st, obj, i, ops[0], 64)
            st.r["rsp"] = sub(st.r["rsp"], V(64, 8))
            self.sto(st, None, st.r["rsp"], v, i)
            return None
        if mn in ("pop", "popq"):
            v = self.ld(st, None, st.r["rsp"], 8, i)
            st.r["rsp"] = add(st.r["rsp"], V(64, 8))
            self.put(st, obj, i, ops[0], v)
            return None
        if mn in ("leave", "leaveq"):
            st.r["rsp"] = st.r["rbp"]
            st.r["rbp"] = self.ld(st, None, st.r["rsp"], 8, i)
            st.r["rsp"] = add(st.r["rsp"], V(64, 8))
            return None
        if mn in ("lea", "leaq"):
            ra = self.rip_addr(obj, i, ops[0])
            if ra is None:
                seg, ra = self.mem_addr(st, ops[0], i)
            w = SUB[ops[1][1:]][2]
            self.put(st, obj, i, ops[1], extract(ra, 0, w))
            return None
        if mn in ("stmxcsr", "vstmxcsr"):
            seg, a = self.mem_addr(st, ops[0], i)
            self.sto(st, seg, a, st.mxcsr, i)
            return None
        if mn in ("ldmxcsr", "vldmxcsr"):
            seg, a = self.mem_addr(st, ops[0], i)
            st.mxcsr = self.ld(st, seg, a, 4, i)
            return None
        if mn in ("fnstcw", "fstcw"):
            seg, a = self.mem_addr(st, ops[0], i)
            self.sto(st, seg, a, st.cw, i)
            return None
        if mn in ("fldcw",):
            seg, a = self.mem_addr(st, ops[0], i)
            st.cw = self.ld(st, seg, a, 2, i)
            return None
        if mn in ("fwait", "fnclex", "fclex"):
            return None
        base, suf = mn, None
        KN = ("mov", "movabs", "add", "sub", "and", "or", "xor", "cmp", "test", "shl", "sal", "shr", "sar", "not", "neg",
              "inc", "dec", "xchg", "imul", "bswap")
        if base not in KN and base[:-1] in KN and base[-1] in SUFW:
            suf = base[-1]
            base = base[:-1]
        if base in KN:
            w = SUFW[suf] if suf else self.width(i, ops)
        if base in ("mov", "movabs"):
            self.put(st, obj, i, ops[1], self.get(st, obj, i, ops[0], w))
            return None
        if base in ("add", "sub", "and", "or", "xor", "cmp", "test"):
            y = self.get(st, obj, i, ops[0], w)
            x = self.get(st, obj, i, ops[1], w)
            f = {"add": add, "sub": sub, "and": and_, "or": or_, "xor": xor, "cmp": sub, "test": and_}[base]
            if base == "xor" and ops[0] == ops[1]:
                r = V(w, 0)
            else:
                r = f(x, y)
            st.flags = ({"add": "add", "sub": "sub", "cmp": "sub"}.get(base, "logic"), x, y, r)
            if base not in ("cmp", "test"):
                self.put(st, obj, i, ops[1], r)
            return None
        if base in ("shl", "sal", "shr", "sar"):
            if len(ops) == 1:
                k = V(w, 1)
            elif ops[0] == "%cl":
                k = and_(zext(extract(st.r["rcx"], 0, 8), w) if w > 8 else extract(st.r["rcx"], 0, 8), V(w, 63 if w == 64 else 31))
            else:
                k = V(w, int(ops[0][1:], 0) & (63 if w == 64 else 31))
            x = self.get(st, obj, i, ops[-1], w)
            r = {"shl": shl, "sal": shl, "shr": lshr, "sar": ashr}[base](x, k)
            st.flags = ("other", x, k, r)
            self.put(st, obj, i, ops[-1], r)
            return None
        if base in ("not", "neg", "inc", "dec"):
            x = self.get(st, obj, i, ops[0], w)
            if base == "not":
                r = sub(V(w, -1), x)
            elif base == "neg":
                r = neg(x)
                st.flags = ("sub", V(w, 0), x, r)
            elif base == "inc":
                r = add(x, V(w, 1))
                st.flags = ("other", x, None, r)
            else:
                r = sub(x, V(w, 1))
                st.flags = ("other", x, None, r)
            self.put(st, obj, i, ops[0], r)
            return None
        if base == "xchg":
            x = self.get(st, obj, i, ops[0], w)
            y = self.get(st, obj, i, ops[1], w)
            self.put(st, obj, i, ops[0], y)
            self.put(st, obj, i, ops[1], x)
            return None
        m = re.match(r"^mov(z|s)([bwl])([wlq])$", mn)
        if m or mn in ("movslq", "movzwl"):
            sw, dw = SUFW[m.group(2)], SUFW[m.group(3)]
            x = self.get(st, obj, i, ops[0], sw)
            self.put(st, obj, i, ops[1], (zext if m.group(1) == "z" else sext)(x, dw))
            return None
        m = re.match(r"^cmov(\w+)$", mn)
        if m and m.group(1) in self.COND:
            w = self.width(i, ops)
            c = self.cond(st, m.group(1))
            x = self.get(st, obj, i, ops[0], w)
            y = self.get(st, obj, i, ops[1], w)
            self.put(st, obj, i, ops[1], ite(c, x, y))
            return None
        if mn in ("movups", "movaps", "movdqu", "movdqa", "movq", "movd", "pxor", "xorps"):
            a, b = ops[0], ops[-1]
            xa, xb = a.startswith("%xmm"), b.startswith("%xmm")
            if mn in ("pxor", "xorps"):
                if a != b:
                    raise ToolLimit(i.raw)
                st.xmm[b] = (V(64, 0), V(64, 0))
                return None
            n = {"movq": 8, "movd": 4}.get(mn, 16)

            def gx(x):
                if x not in st.xmm:
                    st.xmm[x] = (fresh(x[1:] + "lo", 64), fresh(x[1:] + "hi", 64))
                return st.xmm[x]
            if xa and xb:
                st.xmm[b] = gx(a)
            elif xa:
                lo, hi = gx(a)
                if b.startswith("%"):
                    self.put(st, obj, i, b, extract(lo, 0, n * 8))
                else:
                    seg, ad = self.mem_addr(st, b, i)
                    self.sto(st, seg, ad, extract(lo, 0, min(n, 8) * 8), i)
                    if n == 16:
                        self.sto(st, seg, add(ad, V(64, 8)), hi, i)
            else:
                if a.startswith("%"):
                    st.xmm[b] = (zext(self.get(st, obj, i, a, n * 8), 64), V(64, 0))
                else:
                    seg, ad = self.mem_addr(st, a, i)
                    lo = self.ld(st, seg, ad, min(n, 8), i)
                    hi = self.ld(st, seg, add(ad, V(64, 8)), 8, i) if n == 16 else V(64, 0)
                    st.xmm[b] = (zext(lo, 64), hi)
            return None
        raise ToolLimit("unsupported instruction: %s" % i.raw)
