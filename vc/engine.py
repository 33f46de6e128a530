"""Symbolic execution of LLVM IR (the VC generator for the C++ part).

All paths of a harness are explored; every harness input is symbolic or an explicit case split; loops are
unrolled only when their bounds are concrete.  Calls into /repo code are executed as they are; calls that
leave it (assembler primitives, OS, runtime, user types) are contracts implemented here (builtins.py) or as
ghost C++ code in the harness.
"""
import sys
import time
import z3
from . import loops
from .values import *
from . import values as val
from .cells import Cells
from .ir import *

NULLISH = 4096
MEM_MB = 2600      # per process; the sandbox has 32 GB for 8 of them
# a failure of these does not make the execution undefined
GO_ON = ("threads: the library writes", "handle: an operation that needs no memory", "switch: the machine state of", "switch: the installed split-stack", "frame:")
PRIMITIVES = ("jump_fcontext", "ontop_fcontext", "make_fcontext")


class Region:
    __slots__ = ("id", "name", "base", "size", "cells", "alive", "default", "kind", "ro", "owner", "birth", "death",
                 "align", "why", "ctx", "func", "meta", "inits", "zero")

    def __init__(self, rid, name, base, size, kind, align):
        self.id, self.name, self.base, self.size, self.kind, self.align = rid, name, base, size, kind, align
        self.cells = Cells()
        self.alive = True
        self.default = "undef"
        self.ro = False
        self.owner = None
        self.birth = 0
        self.death = None
        self.why = None
        self.ctx = None
        self.func = None
        self.meta = {}
        self.zero = ()

    def clone(self, owner):
        r = Region.__new__(Region)
        for s in Region.__slots__:
            try:
                setattr(r, s, getattr(self, s))
            except AttributeError:
                pass
        r.cells = self.cells.copy()
        r.meta = dict(self.meta)
        r.owner = owner
        return r


class Frame:
    __slots__ = ("f", "blk", "idx", "loc", "allocas", "prev", "kind", "extra", "instr", "visits", "post")

    def __init__(self, f):
        self.post = None
        self.f = f
        self.blk = f.entry
        self.idx = 0
        self.loc = {}
        self.allocas = []
        self.prev = None
        self.kind = None      # how the return value is delivered: None (to the pending call below)
        self.extra = None
        self.visits = {}

    def copy(self):
        n = Frame.__new__(Frame)
        n.f, n.blk, n.idx, n.prev, n.kind, n.extra = self.f, self.blk, self.idx, self.prev, self.kind, self.extra
        n.post = self.post
        n.loc = dict(self.loc)
        n.allocas = list(self.allocas)
        n.visits = dict(self.visits)
        return n


class Coro:
    """one execution context (a call stack)"""
    __slots__ = ("id", "frames", "status", "stack", "name", "fn", "pend", "token", "caught", "ss", "extra")

    def __init__(self, cid, name):
        self.id = cid
        self.name = name
        self.frames = []
        self.status = "run"   # run | susp | fresh | dead
        self.stack = None     # region id of the context stack
        self.fn = None
        self.pend = None
        self.token = None
        self.caught = 0
        self.ss = None
        self.extra = {}

    def copy(self):
        n = Coro(self.id, self.name)
        n.frames = [f.copy() for f in self.frames]
        n.status, n.stack, n.fn, n.pend, n.token, n.caught, n.ss = self.status, self.stack, self.fn, self.pend, self.token, self.caught, self.ss
        n.extra = dict(self.extra)
        return n


class State:
    _n = 0

    def __init__(self):
        State._n += 1
        self.id = State._n
        self.regions = {}
        self.globals = {}
        self.coros = []
        self.cur = 0
        self.pc = []
        self.log = []
        self.ghost = {}
        self.exc = {}       # key of exception object -> dict
        self.caught = []    # stack of (exc key, coroutine id)
        self.clock = 0
        self.atexit = []
        self.outcome = None
        self.steps = 0
        self.pages = {}
        self.dist = set()

    def fork(self):
        n = State.__new__(State)
        State._n += 1
        n.id = State._n
        n.regions = dict(self.regions)
        n.globals = dict(self.globals)
        n.coros = [c.copy() for c in self.coros]
        n.cur = self.cur
        n.pc = list(self.pc)
        n.log = list(self.log)
        n.ghost = {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in self.ghost.items()}
        n.exc = {k: dict(v) for k, v in self.exc.items()}
        n.caught = list(self.caught)
        n.clock = self.clock
        n.atexit = list(self.atexit)
        n.outcome = None
        n.steps = self.steps
        n.pages = dict(self.pages)
        n.dist = set(self.dist)
        # both sides must copy regions before writing
        State._n += 1
        self.id = State._n
        return n

    @property
    def co(self):
        return self.coros[self.cur]

    @property
    def fr(self):
        return self.coros[self.cur].frames[-1]

    def rw(self, rid):
        r = self.regions[rid]
        if r.owner != self.id:
            r = r.clone(self.id)
            self.regions[rid] = r
        return r


class Park(Exception):
    """continue this path later (breadth first)"""


def rss_mb():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) >> 8


class PathEnd(Exception):
    def __init__(self, outcome):
        self.outcome = outcome


class Fork(Exception):
    """raised by a builtin: continue with each (constraint, thunk) alternative"""

    def __init__(self, alts):
        self.alts = alts


class Engine:
    def __init__(self, module, prover, ledger, unit, generic_prop=None, max_paths=20000, max_steps=3000000, time_limit=600, focus=None):
        self.focus, self.first_fail = focus, None
        self.unconverged = False
        self.repeating = False
        self.wvals, self.widen = {}, set()
        self.alias = None       # a further property every obligation of the harness belongs to
        self.m = module
        self.p = prover
        self.l = ledger
        self.unit = unit
        self.max_paths, self.max_steps, self.time_limit = max_paths, max_steps, time_limit
        self.builtins = {}
        self.patterns = []
        self.post, self.post_patterns = {}, []
        self.fregion = {}     # function name -> Atom region object
        self.fbyatom = {}
        self.gbase = {}
        self.typeids = {}
        self.rid = 0
        self.regobj = {}      # region id -> static info (base V)
        self.paths = 0
        self.outcomes = {}
        self.total_steps = 0
        self.executed = set()
        self.loop_bound = 5000
        self.probing = False
        self.loop_prop = None   # property of the loop obligations; set: loops of the library are summarised
        self.extra_work = []
        self._lib = {}
        self._own = {}
        self.atomic = False
        self.details = {}
        self.has_frame = "vc_frame_a" in self.m.globals
        self.hooks = {}
        self.demangled = {}
        self.main_file = ""
        self.seen = set()
        self.max_states = 200000

    # ------------------------------------------------------------------ regions
    def new_region(self, st, name, size, kind, align=16, base=None):
        self.rid += 1
        rid = self.rid
        if base is None:
            a = fresh("&" + name, 64, region=rid, align=align)
        else:
            a = base
        if isinstance(size, int):
            size = V(64, size)
        r = Region(rid, name, a, size, kind, align)
        st.clock += 1
        r.birth = st.clock
        r.owner = st.id
        st.regions[rid] = r
        self.regobj[rid] = r
        return r

    def kill_region(self, st, rid, why):
        r = st.rw(rid)
        r.alive = False
        st.clock += 1
        r.death = st.clock
        r.why = why

    def func_addr(self, name):
        name = self.m.aliases.get(name, name)
        a = self.fregion.get(name)
        if a is None:
            v = fresh("&fn:" + name[:40], 64, align=2 if name.startswith("_ZN") else 1)  # member functions: the C++ ABI uses bit 0
            at = v.t[0][0]
            self.fregion[name] = v
            self.fbyatom[at] = name
            at.region = ("func", name)
            a = v
        return a

    def global_addr(self, st, name):
        name = self.m.aliases.get(name, name)
        if name in self.m.funcs and name not in self.m.globals:
            return self.func_addr(name)
        g = self.m.globals.get(name)
        if g is not None and g.tls and "thr" in st.ghost:
            name = "%s@%d" % (name, st.ghost["thr"])
        rid = st.globals.get(name)
        if rid is None:
            if g is None:
                raise ToolLimit("unknown global " + name)
            self.m.gparse(g)
            gb = self.gbase.get(name)
            try:
                size, al = self.m.sizeal(g.ty)
            except ToolLimit:
                size, al = 64, 16
            if gb is None:
                r = self.new_region(st, name[:40], size, "global", align=max(al, 1))
                self.gbase[name] = (r.id, r.base)
                rid = r.id
            else:
                rid, base = gb
                r = Region(rid, name[:40], base, V(64, size), "global", max(al, 1))
                r.owner = st.id
                st.regions[rid] = r
            st.globals[name] = rid
            r = st.rw(rid)
            r.birth = 0
            if g.ext:
                r.default = "ext"
            elif g.init is not None:
                r.default = "zero"
                self.init_mem(st, r, 0, g.ty, g.init)
            r.ro = g.const
            r.meta["gname"] = name
            if g.tls:
                r.meta["tls"] = st.ghost.get("thr", 0)
        return self.gbase[name][1]

    def init_mem(self, st, r, off, ty, v):
        k = v[0]
        if k in ("zero",):
            return
        if k == "undef":
            return
        if k == "str":
            for i, b in enumerate(v[1]):
                r.cells.store(r.base.t, r.base.c + off + i, V(8, b))
            return
        if k == "agg":
            for i, (et, ev) in enumerate(v[1]):
                o, _ = self.m.field(ty, i)
                self.init_mem(st, r, off + o, et, ev)
            return
        x = self.const_val(st, ty, v)
        self.put_cells(r, r.base.t, sgn(r.base.c, 64) + off, ty, x)

    # ------------------------------------------------------------------ values
    def const_val(self, st, ty, v):
        k = v[0]
        if k == "int":
            if ty == I1:
                return bool(v[1] & 1)
            if ty[0] == "i":
                return V(ty[1], v[1])
            return V(64, v[1])
        if k == "glob":
            return self.global_addr(st, v[1])
        if k == "undef":
            return self.undef(ty)
        if k == "zero":
            return self.zero(ty)
        if k == "gep":
            return self.gep(st, v[1], [(t, self.const_val(st, t, o)) for t, o in v[2]])
        if k == "cast":
            return self.cast(v[1], v[2], self.const_val(st, v[2], v[3]), v[4])
        if k == "bin":
            return self.binop(v[1], v[2], self.const_val(st, v[2], v[3]), self.const_val(st, v[2], v[4]))
        if k == "agg":
            return [self.const_val(st, t, o) for t, o in v[1]]
        if k == "str":
            return [V(8, b) for b in v[1]]
        if k == "fp":
            return self.fpconst(ty, v[1])
        raise ToolLimit("constant %s" % (v,))

    def fpconst(self, ty, t):
        import struct
        if t.startswith("0x"):
            if ty[1] == "double":
                return V(64, int(t, 16))
            if ty[1] == "float":
                d = struct.unpack(">d", struct.pack(">Q", int(t, 16)))[0]
                return V(32, struct.unpack(">I", struct.pack(">f", d))[0])
            raise ToolLimit("fp const")
        d = float(t)
        if ty[1] == "double":
            return V(64, struct.unpack(">Q", struct.pack(">d", d))[0])
        return V(32, struct.unpack(">I", struct.pack(">f", d))[0])

    def undef(self, ty):
        ty = self.m.resolve(ty)
        if ty == I1:
            v = fresh("undef", 8)
            return v2b(v)
        if ty[0] == "i":
            return fresh("undef", ty[1])
        if ty[0] == "ptr":
            return fresh("undef", 64)
        if ty[0] == "fp":
            return fresh("undef", self.m.sizeal(ty)[0] * 8)
        return [self.undef(self.m.field(ty, i)[1]) for i in range(self.m.nfields(ty))]

    def zero(self, ty):
        ty = self.m.resolve(ty)
        if ty == I1:
            return False
        if ty[0] == "i":
            return V(ty[1], 0)
        if ty[0] == "ptr":
            return V(64, 0)
        if ty[0] == "fp":
            return V(self.m.sizeal(ty)[0] * 8, 0)
        return [self.zero(self.m.field(ty, i)[1]) for i in range(self.m.nfields(ty))]

    def val(self, st, ty, o):
        if o[0] == "loc":
            return st.coros[st.cur].frames[-1].loc[o[1]]
        return self.const_val(st, ty, o)

    def gep(self, st, bt, ops):
        a = ops[0][1]
        first = True
        ty = bt
        for t, v in ops[1:]:
            if first:
                s = self.m.sizeal(ty)[0]
                v = sext(v, 64) if v.w < 64 else v
                a = add(a, mulc(v, s))
                first = False
            else:
                r = self.m.resolve(ty)
                if r[0] == "struct":
                    off, ty = self.m.field(ty, v.c)
                    a = add(a, V(64, off))
                else:
                    s, ty = self.m.sizeal(r[2])[0], r[2]
                    v = sext(v, 64) if v.w < 64 else v
                    a = add(a, mulc(v, s))
        return a

    def cast(self, op, ft, v, tt):
        tt = self.m.resolve(tt)
        if op in ("bitcast", "inttoptr", "ptrtoint", "addrspacecast"):
            if op == "ptrtoint" and tt[1] < 64:
                return extract(v, 0, tt[1])
            if op == "inttoptr" and isinstance(v, V) and v.w < 64:
                return zext(v, 64)
            return v
        if op == "trunc":
            if tt == I1:
                return v2b(v)
            return extract(v, 0, tt[1])
        if op == "zext":
            if not isinstance(v, V):
                return b2v(v, tt[1])
            return zext(v, tt[1])
        if op == "sext":
            if not isinstance(v, V):
                return ite(v, V(tt[1], -1), V(tt[1], 0))
            return sext(v, tt[1])
        raise ToolLimit("cast " + op)

    def binop(self, op, ty, a, b):
        if ty == I1:
            f = {"and": band, "or": bor, "xor": bxor}.get(op)
            if f is None:
                raise ToolLimit("i1 " + op)
            return f(a, b)
        f = {"add": add, "sub": sub, "mul": mul, "udiv": udiv, "sdiv": sdiv, "urem": urem, "srem": srem, "shl": shl,
             "lshr": lshr, "ashr": ashr, "and": and_, "or": or_, "xor": xor}[op]
        return f(a, b)

    def icmp(self, st, pred, a, b):
        if isinstance(a, (bool, B)):
            x = bxor(a, b)
            if pred == "eq":
                return bnot(x)
            if pred == "ne":
                return x
            a, b = b2v(a, 8), b2v(b, 8)
        if isinstance(a, list):
            raise ToolLimit("vector icmp")
        if pred in ("eq", "ne"):
            r = self.ptr_eq(st, a, b)
            if r is None:
                r = eq(a, b)
            return r if pred == "eq" else bnot(r)
        f = {"ult": ult, "ule": ule, "slt": slt, "sle": sle}
        if pred in f:
            return f[pred](a, b)
        return f[{"ugt": "ult", "uge": "ule", "sgt": "slt", "sge": "sle"}[pred]](b, a)

    def single_base(self, v):
        """v = region base + concrete offset -> (region id or ('func',..), offset)"""
        if len(v.t) == 1 and v.t[0][1] == 1 and v.t[0][0].region is not None and v.t[0][0].op is None:
            return v.t[0][0].region, sgn(v.c, 64)
        return None

    def ptr_eq(self, st, a, b):
        """fast paths for address comparison"""
        if a.w != 64:
            return None
        if a.t == b.t:
            return a.c == b.c
        if not a.t:
            a, b = b, a
        x = self.single_base(a)
        if x is None:
            return None
        if not b.t and b.c == 0:
            return self.nonnull_base(st, x)
        y = self.single_base(b)
        if y is None:
            return None
        if x[0] == y[0]:
            return x[1] == y[1]
        if isinstance(x[0], tuple) or isinstance(y[0], tuple):
            return False if x[1] == 0 or y[1] == 0 else None
        rx, ry = st.regions.get(x[0]), st.regions.get(y[0])
        if rx is None or ry is None:
            return None
        if rx.size.conc and ry.size.conc and 0 <= x[1] and 0 <= y[1] and x[1] <= rx.size.c and y[1] <= ry.size.c:
            if self.overlap_life(rx, ry) and x[1] < max(rx.size.c, 1) and y[1] < max(ry.size.c, 1):
                return False
        return None

    def nonnull_base(self, st, x):
        rid, off = x
        if isinstance(rid, tuple):
            return False if off == 0 else None
        r = st.regions.get(rid)
        if r is None:
            return None
        if r.size.conc and 0 <= off <= r.size.c:
            return False
        if off == 0:
            return False
        return None

    def overlap_life(self, r1, r2):
        if r1.death is not None and r1.death < r2.birth:
            return False
        if r2.death is not None and r2.death < r1.birth:
            return False
        return True

    # ------------------------------------------------------------------ solver context
    def axioms(self, st, roots):
        out = []
        regs = []
        for a in roots:
            if isinstance(a.region, int):
                r = st.regions.get(a.region) or self.regobj.get(a.region)
                if r is not None:
                    regs.append(r)
            elif isinstance(a.region, tuple):
                out.append(z3.UGT(a.z, z3.BitVecVal(NULLISH, 64)))
        seen = set()
        work = list(regs)
        regs = []
        while work:
            r = work.pop()
            if r.id in seen:
                continue
            seen.add(r.id)
            regs.append(r)
            for a in r.size.roots() | r.base.roots():
                if isinstance(a.region, int) and a.region not in seen and a.region in st.regions:
                    work.append(st.regions[a.region])
        for r in regs:
            b = r.base.z()
            out.append(z3.UGT(b, z3.BitVecVal(r.meta.get("above", NULLISH), 64)))
            out.append(z3.ULT(b, z3.BitVecVal(1 << 63, 64)))
            if not r.size.conc:
                out.append(z3.ULT(r.size.z(), z3.BitVecVal(1 << 62, 64)))
            out.append(z3.ULE(b + r.size.z(), z3.BitVecVal(1 << 63, 64)))
            if r.align > 1:
                out.append(z3.Extract(r.align.bit_length() - 2, 0, b) == 0)
        for i in range(len(regs)):
            for j in range(i):
                r1, r2 = regs[i], regs[j]
                if self.overlap_life(r1, r2):
                    e1 = r1.base.z() + r1.size.z()
                    e2 = r2.base.z() + r2.size.z()
                    out.append(z3.Or(z3.ULT(e1, r2.base.z()), z3.ULT(e2, r1.base.z())))
        return out

    def ctx(self, st, b):
        roots = broots(b)
        # relevant slice: constraints sharing roots (transitively)
        rel = []
        todo = list(st.pc)
        changed = True
        roots = set(roots)
        while changed:
            changed = False
            rest = []
            for c in todo:
                if c.roots & roots or not c.roots:
                    rel.append(c)
                    if not c.roots <= roots:
                        roots |= c.roots
                        changed = True
                else:
                    rest.append(c)
            todo = rest
            # sizes of regions pull in their own roots
            for a in list(roots):
                if isinstance(a.region, int):
                    r = st.regions.get(a.region)
                    if r is not None:
                        for q in r.size.roots():
                            if q not in roots:
                                roots.add(q)
                                changed = True
        return [c.e for c in rel] + self.axioms(st, roots)

    def feasible(self, st, b):
        if isinstance(b, bool):
            return b
        r, _ = self.p.check(self.ctx(st, b) + [b.e])
        if r == "unknown":
            raise ToolLimit("feasibility unknown")
        return r == "sat"

    def must(self, st, b):
        """is b implied?  ('valid'|'invalid'|'unknown', model)"""
        if isinstance(b, bool):
            return ("valid" if b else "invalid"), None
        return self.p.prove(self.ctx(st, b), b.e)

    def assume(self, st, b):
        if isinstance(b, bool):
            if not b:
                raise PathEnd("assume-false")
            return
        st.pc.append(b)

    # ------------------------------------------------------------------ obligations
    def where(self, st):
        """innermost source location outside the harness' own stubs"""
        out = []
        for f in reversed(st.co.frames):
            ins = f.f.blocks[f.blk]
            i = ins[min(f.idx, len(ins) - 1)]
            out.append((f.f.name, self.m.loc(i.dbg)))
        return out

    def loc1(self, st):
        for n, l in self.where(st):
            if "/boost/context/" in l or "/src/" in l:
                return l.split("/repo/")[-1] if "/repo/" in l else l
        w = self.where(st)
        return w[0][1] if w else ""

    def small_model(self, st, cond):
        """a model of the failing path with small inputs (they are replayed natively); None: there is no such path"""
        ins = [x[1] for x in st.log if isinstance(x, tuple) and isinstance(x[1], V) and not x[1].conc]
        roots = set()
        for c in st.pc:
            roots |= c.roots
        for v in ins:
            roots |= set(v.roots())
        if not isinstance(cond, bool):
            roots |= set(broots(cond))
        s = z3.Solver()
        s.set("timeout", 10000)
        for c in [c.e for c in st.pc] + self.axioms(st, roots):
            s.add(c)
        if not isinstance(cond, bool):
            s.add(z3.Not(cond.e))
        r = s.check()
        if r != z3.sat:
            return (r != z3.unsat), None
        m = s.model()
        for v in ins:
            for lim in (1 << 16, 1 << 20, 1 << 29):
                if v.w > 20 and v.w >= lim.bit_length():
                    s.push()
                    s.add(z3.ULT(v.z(), lim))
                    if s.check() == z3.sat:
                        m = s.model()
                        break
                    s.pop()
        return True, m

    def detail(self, st, model, name):
        bt = ["%s (%s)" % (self.demangled.get(n, n)[:160], l) for n, l in self.where(st)][:25]
        inputs = []
        for x in st.log:
            if isinstance(x, tuple):
                n, v = x
                if isinstance(v, V):
                    try:
                        v = v.c if v.conc else (0 if model is None else model.eval(v.z(), model_completion=True).as_long())
                    except Exception:
                        v = 0
                inputs.append((n, int(v)))
        return {"obligation": name, "backtrace": bt, "choices": [(n, repr(v)[:60]) if isinstance(v, V) else (n, v) for n, v in (x for x in st.log if isinstance(x, tuple))],
                "inputs": inputs, "runs": st.ghost.get("runs", 0) + 1,
                "model": None if model is None else str(model)[:4000],
                "path_condition": [str(c.e)[:200] for c in st.pc[-12:]]}

    def obligation(self, st, cond, prop, name, end_on_fail=False):
        if self.alias is not None and prop not in (None, "FRAME", self.alias):
            prop = prop + "," + self.alias
        loc = self.loc1(st)
        status, model = self.must(st, cond)
        backend = "normal-form" if isinstance(cond, bool) else "z3"
        det = None
        if status == "invalid":
            # the path itself must be feasible for the failure to count
            if self.details.get((name, loc), 0) < 5:
                ok, small = self.small_model(st, cond)
                if not ok:
                    raise PathEnd("infeasible")
                self.details[name, loc] = self.details.get((name, loc), 0) + 1
                det = self.detail(st, small or model, name)
        if status == "invalid" and end_on_fail and self.focus is not None and prop is not None and self.focus not in prop.split(","):
            if name.startswith(GO_ON):
                end_on_fail = False
            else:
                prop = prop + "," + self.focus   # nothing is guaranteed beyond this point, for no property
        wide = status == "invalid" and st.ghost.get("_widened")    # not known to be reachable
        self.l.record(self.unit, name, loc, "unknown" if wide else status, backend, det, prop=prop)
        if status == "valid":
            return True
        if status == "unknown":
            return False
        if self.focus is not None and prop is not None and self.focus not in prop.split(",") and not end_on_fail:
            return False   # the path goes on: the property under check may still fail beyond this point
        if status == "invalid" and self.first_fail is None:
            self.first_fail = time.time()
        if self.loop_prop is not None and not self.probing and status == "invalid":
            raise ToolLimit("stopped after the first failed obligation (loop summarisation)")
        if end_on_fail or isinstance(cond, bool):
            raise PathEnd("violation")
        if not self.feasible(st, cond):
            raise PathEnd("violation")
        st.pc.append(cond)
        return False

    # ------------------------------------------------------------------ memory
    def resolve(self, st, addr, n, write, what):
        """-> (region, anchor, offset); n concrete byte count"""
        rs = [(a, r) for a, r in ((a, a.region) for a, k in addr.t if k == 1) if r is not None]
        if not addr.t:
            self.obligation(st, False, None, "memory: %s through a null or invalid pointer" % what, True)
        if len(rs) > 1:
            real = [(a, r) for a, r in rs if isinstance(r, int)]
            rs = real
        if len(rs) != 1 or not isinstance(rs[0][1], int):
            if any(a.name.startswith("undef") for a, k in addr.t):
                self.obligation(st, False, None, "memory: %s through an uninitialised pointer" % what, True)
            if rs and isinstance(rs[0][1], tuple):
                self.obligation(st, False, None, "memory: %s of code memory" % what, True)
            raise ToolLimit("pointer without known provenance: %r at %s" % (addr, self.loc1(st)))
        rid = rs[0][1]
        r = st.regions.get(rid)
        if r is None:
            raise ToolLimit("region vanished")
        if r.kind == "opaque":
            self.obligation(st, False, None, "memory: %s through an opaque handle (%s)" % (what, r.name), True)
        if not r.alive:
            self.obligation(st, False, None, "memory: %s of released memory (%s: %s)" % (what, r.kind, r.why), True)
        if r.meta:
            if r.meta.get("ended"):
                self.obligation(st, False, None, "memory: %s of an object after its lifetime ended" % what, True)
            if "prot" in r.meta:
                for b, sz, mode in r.meta["prot"]:
                    nn = V(64, n)
                    x, y = sub(addr, r.base), sub(b, r.base)
                    c = bor(ule(add(x, nn), y), ule(add(y, sz), x))
                    self.obligation(st, c, None, "memory: %s does not touch an inaccessible page" % what, True)
            stk = r.meta.get("stk")
            if stk is not None and not self.disjoint_fast(st, r, addr, n, stk):
                x = sub(addr, r.base)
                c = bor(ule(add(x, V(64, n)), sub(stk[0], r.base)), ule(sub(stk[1], r.base), x))
                self.obligation(st, c, None, "memory: %s does not touch the stack area of a context" % what, True)
        if write and r.ro:
            self.obligation(st, False, None, "memory: write to constant", True)
        if write and r.kind == "global" and "tls" not in r.meta and not st.ghost.get("guarded") and not self.atomic \
                and r.meta.get("gname") in self.m.lib_globals and self.coros_owner(st) == "lib":
            self.obligation(st, False, "C22", "threads: the library writes no shared state without synchronisation", True)
        if self.has_frame and r.kind in ("ctxstack", "stack") and (st.co.stack != r.id if r.kind == "ctxstack" else r.ctx != st.cur) \
                and self.coros_owner(st) == "lib":
            # the frame that the harness gave for the operation under way
            fr = [self.load_raw(st, self.global_addr(st, g), 8) for g in ("vc_frame_a", "vc_frame_b", "vc_frame_c")]
            sid = r.id if r.kind == "ctxstack" else st.coros[r.ctx].stack
            self.obligation(st, sid is None or any(self.same_region(f, sid) for f in fr), "FRAME", "frame: an operation touches only the contexts it switches between", True)
        d = sub(addr, r.base)
        if d.conc and r.size.conc:
            o = d.signed()
            if not (0 <= o and o + n <= r.size.c):
                self.obligation(st, False, None, "memory: %s out of bounds (%s)" % (what, r.kind), True)
            self.l.record(self.unit, "memory: accesses stay inside live objects", "", "valid", "normal-form")
        else:
            nn = V(64, n)
            c = band(ule(nn, r.size), ule(d, sub(r.size, nn)))
            self.obligation(st, c, None, "memory: %s inside its memory block (%s)" % (what, r.kind), True)
        return r, addr.t, sgn(addr.c, 64)

    @staticmethod
    def same_region(v, rid):
        a = atom_of(v)
        return a is not None and a.region == rid

    def disjoint_fast(self, st, r, addr, n, stk):
        d = sub(addr, stk[1])
        return d.conc and 0 <= d.signed() < (1 << 40)

    def default(self, r, off, k):
        if r.default == "zero":
            return V(8 * k, 0)
        if r.default == "undef":
            return fresh("undef:%s%+d" % (r.name, off), 8 * k)
        return fresh("mem:%s%+d" % (r.name, off), 8 * k)

    def disjoint_others(self, st, r, anchor, off, n, kill):
        """other anchors of the same region: kill cells that may overlap"""
        amb = False
        others = [k for k in r.cells.a if k != anchor and r.cells.a[k]]
        if not others:
            return False
        addr = V(64, off, anchor)
        for k in others:
            d = r.cells.a[k]
            lo = min(d)
            hi = max(o + d[o].w // 8 for o in d)
            if self._disj(st, r, addr, n, V(64, lo, k), hi - lo):
                continue
            for o in list(d):
                sz = d[o].w // 8
                if not self._disj(st, r, addr, n, V(64, o, k), sz):
                    amb = True
                    if kill:
                        del d[o]
        return amb

    def _disj(self, st, r, a, n, b, m):
        x, y = sub(a, r.base), sub(b, r.base)
        c = bor(ule(add(x, V(64, n)), y), ule(add(y, V(64, m)), x))
        s, _ = self.must(st, c)
        return s == "valid"

    def store_raw(self, st, addr, v, what="write"):
        r, anchor, off = self.resolve(st, addr, v.w // 8, True, what)
        r = st.rw(r.id)
        if len(r.cells.a) > (1 if anchor in r.cells.a else 0):
            self.disjoint_others(st, r, anchor, off, v.w // 8, True)
        r.cells.store(anchor, off, v)

    def load_raw(self, st, addr, n, what="read"):
        r, anchor, off = self.resolve(st, addr, n, False, what)
        c = r.cells.a.get(anchor)
        if c is not None:
            v = c.get(off)
            if v is not None and v.w == 8 * n:
                return v
        r = st.rw(r.id)
        if len(r.cells.a) > (1 if anchor in r.cells.a else 0):
            # bytes written through another address expression may alias bytes unknown here
            miss = not self._covered(r.cells, anchor, off, n)
            if miss and self.disjoint_others(st, r, anchor, off, n, False):
                return fresh("mem:%s" % r.name, 8 * n)
        return r.cells.load(anchor, off, n, lambda o, k: self.default(r, o, k))

    def _covered(self, cells, anchor, off, n):
        items = cells.items_in(anchor, off, n)
        return sum(v.w // 8 for _, v in items) == n

    def put_cells(self, r, anchor, off, ty, v):
        ty = self.m.resolve(ty)
        if isinstance(v, list):
            for i, x in enumerate(v):
                o, et = self.m.field(ty, i)
                self.put_cells(r, anchor, off + o, et, x)
            return
        r.cells.store(anchor, off, self.to_mem(ty, v))

    def to_mem(self, ty, v):
        if isinstance(v, (bool, B)):
            return b2v(v, 8)
        if ty[0] == "i" and v.w % 8:
            return zext(v, (v.w + 7) // 8 * 8)
        return v

    def store(self, st, ty, v, addr):
        ty = self.m.resolve(ty)
        if isinstance(v, list):
            for i, x in enumerate(v):
                o, et = self.m.field(ty, i)
                self.store(st, et, x, add(addr, V(64, o)))
            return
        self.store_raw(st, addr, self.to_mem(ty, v))

    def load(self, st, ty, addr):
        ty = self.m.resolve(ty)
        k = ty[0]
        if k == "i":
            n = (ty[1] + 7) // 8
            v = self.load_raw(st, addr, n)
            if ty == I1:
                return v2b(v)
            return extract(v, 0, ty[1])
        if k == "ptr":
            return self.load_raw(st, addr, 8)
        if k == "fp":
            return self.load_raw(st, addr, {"float": 4, "double": 8, "x86_fp80": 10}.get(ty[1], 16))
        return [self.load(st, self.m.field(ty, i)[1], add(addr, V(64, self.m.field(ty, i)[0]))) for i in range(self.m.nfields(ty))]

    def memcpy(self, st, dst, src, n):
        if n == 0:
            return
        rs, sa, so = self.resolve(st, src, n, False, "read")
        rd, da, do = self.resolve(st, dst, n, True, "write")
        items = rs.cells.items_in(sa, so, n)
        have = sum(v.w // 8 for _, v in items)
        gaps = []
        if have < n:
            pos = 0
            for o, v in items:
                if o > pos:
                    gaps.append((pos, o - pos))
                pos = o + v.w // 8
            if pos < n:
                gaps.append((pos, n - pos))
            if rs.default == "undef" and len([k for k in rs.cells.a if rs.cells.a[k]]) <= 1:
                pass  # copying indeterminate bytes: they stay indeterminate
            else:
                for o, k in gaps:
                    p = 0
                    while p < k:
                        q = min(8, k - p)
                        v = self.load_raw(st, add(src, V(64, o + p)), q)
                        items.append((o + p, v))
                        p += q
                gaps = []
        rd = st.rw(rd.id)
        if len(rd.cells.a) > (1 if da in rd.cells.a else 0):
            self.disjoint_others(st, rd, da, do, n, True)
        rd.cells.kill(da, do, n)
        for o, v in items:
            rd.cells.store(da, do + o, v)
        for o, k in gaps:
            if rd.default != "undef":
                p = 0
                while p < k:
                    q = min(8, k - p)
                    rd.cells.store(da, do + o + p, fresh("undef:copy", 8 * q))
                    p += q

    def memset(self, st, dst, b, n):
        if n == 0:
            return
        rd, da, do = self.resolve(st, dst, n, True, "write")
        rd = st.rw(rd.id)
        if len(rd.cells.a) > (1 if da in rd.cells.a else 0):
            self.disjoint_others(st, rd, da, do, n, True)
        rd.cells.kill(da, do, n)
        p = 0
        while p < n:
            q = min(8, n - p)
            if b.conc:
                rd.cells.store(da, do + p, V(8 * q, int.from_bytes(bytes([b.c]) * q, "little")))
            else:
                rd.cells.store(da, do + p, concat([b] * q))
            p += q

    # ------------------------------------------------------------------ calls
    def push(self, st, f, args, kind=None, extra=None):
        if not f.defined:
            raise ToolLimit("call of undefined function " + f.name)
        self.m.body(f)
        fr = Frame(f)
        fr.kind = kind
        fr.extra = extra
        self.executed.add(f.name)
        n = len(f.params)
        if len(args) < n:
            raise ToolLimit("argument count for " + f.name)
        st.co.frames.append(fr)
        if len(st.co.frames) > 400:
            raise ToolLimit("call depth")
        for (ty, pn, at), a in zip(f.params, args):
            if "byval" in at:
                sz = self.m.sizeal(at["byval"])[0]
                r = self.new_region(st, "byval", sz, "stack", 16)
                r.ctx = st.cur
                fr.allocas.append(r.id)
                self.memcpy(st, r.base, a, sz)
                a = r.base
            fr.loc[pn] = a
        return fr

    def pop(self, st):
        fr = st.co.frames.pop()
        for rid in fr.allocas:
            if st.regions[rid].alive:
                self.kill_region(st, rid, "its function returned")
        return fr

    def ret(self, st, v):
        """return v from the current frame to the pending call"""
        fr = self.pop(st)
        if fr.post is not None:
            fr.post[0](self, st, fr.post[1])
        if fr.kind is not None:
            return fr.kind(self, st, v, fr.extra)
        if not st.co.frames:
            h = self.hooks.get("coro_return")
            if st.co.id == 0:
                raise PathEnd("return")
            return h(self, st, v)
        self.deliver(st, v)

    def deliver(self, st, v):
        """complete the call instruction the top frame is waiting at"""
        fr = st.fr
        i = fr.f.blocks[fr.blk][fr.idx]
        if i.op not in ("call", "invoke"):
            raise ToolLimit("return into %s" % i.text)
        if i.res is not None:
            fr.loc[i.res] = v
        if i.op == "invoke":
            self.goto(st, fr, i.a[3])
        else:
            fr.idx += 1

    def goto(self, st, fr, label):
        fr.prev = fr.blk
        fr.blk = label
        fr.idx = 0
        c = fr.visits.get(label, 0) + 1
        fr.visits[label] = c
        if c > self.loop_bound:
            raise ToolLimit("loop bound exceeded in %s" % fr.f.name)
        # phis are evaluated simultaneously
        ins = fr.f.blocks[label]
        vals = []
        k = 0
        while k < len(ins) and ins[k].op == "phi":
            ty, inc = ins[k].a
            for v, b in inc:
                if b == fr.prev:
                    vals.append((ins[k].res, self.val(st, ty, v)))
                    break
            else:
                raise ToolLimit("phi")
            k += 1
        for r, v in vals:
            fr.loc[r] = v
        fr.idx = k
        if self.loop_prop is not None and (self.is_library(fr.f) or fr.f.name.startswith("vc_loop_")):
            loops.at_block(self, st, fr, label)

    def coros_owner(self, st):
        """whose code runs: the library's, or the harness's (ghost code)"""
        for fr in reversed(st.co.frames):
            n = self._own.get(fr.f.name)
            if n is None:
                from .run import func_origin
                n = self._own[fr.f.name] = func_origin(self.m, fr.f)
            if n != "other":
                return n
        return "other"

    def is_library(self, f):
        v = self._lib.get(f.name)
        if v is None:
            from .run import func_file
            v = self._lib[f.name] = func_file(self.m, f) is not None
        return v

    def callee_name(self, st, c):
        if c[0] == "glob":
            return self.m.aliases.get(c[1], c[1])
        if c[0] == "asm":
            return None
        v = self.val(st, PTR, c)
        return self.fn_of(st, v)

    def fn_of(self, st, v):
        a = atom_of(v)
        if a is not None and isinstance(a.region, tuple):
            return a.region[1]
        if v.conc and v.c == 0:
            self.obligation(st, False, None, "control: call through a null function pointer", True)
        if a is not None and a.name.startswith("undef"):
            self.obligation(st, False, None, "control: call through an uninitialised function pointer", True)
        raise ToolLimit("indirect call to unknown target %r" % v)

    def do_call(self, st, i):
        ret, callee, args = i.a[0], i.a[1], i.a[2]
        if callee[0] == "asm":
            h = self.hooks.get("inline_asm")
            if callee[1].startswith('asm sideeffect ""') or (h and h(self, st, i)):
                self.deliver(st, None)
                return
            raise ToolLimit("inline asm " + callee[1][:80])
        name = self.callee_name(st, callee)
        if name.startswith("llvm."):
            return self.intrinsic(st, i, name, args)
        av = [self.val(st, t, a) for t, a, _ in args]
        self.call_fn(st, name, av, i)

    def lookup_builtin(self, name):
        if name in PRIMITIVES and name in self.m.funcs and self.m.funcs[name].defined:
            return None     # the harness has a contract of its own for it
        b = self.builtins.get(name)
        if b is None:
            d = self.demangled.get(name, name)
            for pat, fn in self.patterns:
                if pat(d):
                    b = fn
                    break
            self.builtins[name] = b if b is not None else False
        return b or None

    def call_fn(self, st, name, av, i=None):
        """call function `name`; its result is delivered to the pending call instruction of the current frame"""
        b = self.lookup_builtin(name)
        if b is not None:
            r = b(self, st, av, name)
            if r is not CONTROL:
                self.deliver(st, r)
            return
        f = self.m.funcs.get(name)
        if f is None or not f.defined:
            raise ToolLimit("no contract for external function %s (%s)" % (name, self.demangled.get(name, "")))
        fr = self.push(st, f, av)
        ph = self.post.get(name)
        if ph is None:
            ph = False
            d = self.demangled.get(name, name)
            for pat, fn in self.post_patterns:
                if pat(d):
                    ph = fn
            self.post[name] = ph
        if ph:
            fr.post = (ph, av)

    # ------------------------------------------------------------------ exceptions
    def typeid(self, name):
        return self.typeids.setdefault(name, len(self.typeids) + 1)

    def bases_of(self, st, ti):
        """typeinfo names ti converts to (itself first)"""
        out = [ti]
        g = self.m.globals.get(ti)
        if g is None:
            return out
        self.m.gparse(g)
        if g.init and g.init[0] == "agg":
            for (t, v) in g.init[1][2:]:
                if v[0] == "glob" and v[1].startswith("_ZTI"):
                    out += self.bases_of(st, v[1])
        known = {"_ZTISt9bad_alloc": ["_ZTISt9exception"], "_ZTISt12system_error": ["_ZTISt13runtime_error", "_ZTISt9exception"],
                 "_ZTISt13runtime_error": ["_ZTISt9exception"]}
        return out + known.get(ti, [])

    def handler(self, st, fr, ti):
        """(label, selector) for an exception of type ti propagating into frame fr, or None"""
        i = fr.f.blocks[fr.blk][fr.idx]
        if i.op != "invoke":
            return None
        lab = i.a[4]
        lp = None
        for x in fr.f.blocks[lab]:
            if x.op == "phi":
                continue
            lp = x
            break
        if lp is None or lp.op != "landingpad":
            raise ToolLimit("no landingpad at unwind label")
        ty, cleanup, clauses = lp.a
        bases = self.bases_of(st, ti)
        for kind, v in clauses:
            if kind == "catch":
                if v == ("int", 0):
                    return lab, 1000000, True
                nm = v[1]
                if nm in bases:
                    return lab, self.typeid(nm), True
            else:
                raise ToolLimit("exception specification filter")
        if cleanup:
            return lab, 0, False
        return None

    def throw(self, st, key):
        """two-phase unwinding of exception `key` on the current context"""
        e = st.exc[key]
        ti = e["ti"]
        co = st.co
        found = False
        for fr in reversed(co.frames):
            h = self.handler(st, fr, ti)
            if h and h[2]:
                found = True
                break
            if fr.kind is not None and fr.extra is not None and isinstance(fr.extra, dict) and fr.extra.get("barrier"):
                break
        if not found:
            return self.terminate(st, "uncaught exception " + self.demangled.get(ti, ti))
        return self.unwind(st, key)

    def unwind(self, st, key):
        e = st.exc[key]
        co = st.co
        while co.frames:
            fr = co.frames[-1]
            h = self.handler(st, fr, e["ti"])
            if h:
                lab, sel, _ = h
                self.goto(st, fr, lab)
                st.ghost["inflight"] = (key, sel)
                # the landingpad instruction picks it up
                return
            self.pop(st)
            if fr.kind is not None:
                h2 = self.hooks.get("unwind_through")
                if h2:
                    h2(self, st, fr)
        raise ToolLimit("unwound past the stack bottom")

    def terminate(self, st, why):
        st.log.append("std::terminate: " + why)
        h = self.hooks.get("terminate")
        if h:
            h(self, st, why)
        raise PathEnd("terminate")

    # ------------------------------------------------------------------ main loop
    def run(self, st):
        """explore all paths from st"""
        work = [st]
        parked = []
        t0 = time.time()
        while work or parked:
            if not work:
                work, parked = parked[::-1], []
            st = work.pop()
            try:
                while True:
                    if self.extra_work:
                        work += self.extra_work
                        self.extra_work = []
                    try:
                        self.step(st)
                    except Fork as fk:
                        alts = []
                        for b, thunk in fk.alts:
                            if b is True or self.feasible(st, b):
                                alts.append((b, thunk))
                        if not alts:
                            raise PathEnd("infeasible")
                        for b, thunk in alts[1:]:
                            s2 = st.fork()
                            if b is not True:
                                s2.pc.append(b)
                            # the thunk runs when the forked state is scheduled
                            s2.ghost["_resume"] = thunk
                            work.append(s2)
                        b, thunk = alts[0]
                        if b is not True:
                            st.pc.append(b)
                        st.ghost["_resume"] = thunk
                    st.steps += 1
                    self.total_steps += 1
                    if self.total_steps > self.max_steps:
                        raise ToolLimit("step limit")
                    if (self.total_steps & 1023) == 0:
                        now = time.time()
                        if now - t0 > self.time_limit:
                            raise ToolLimit("time limit")
                        if self.first_fail is not None and now - self.first_fail > 45:
                            raise ToolLimit("stopped 45 s after the first failed obligation")
                        if (self.total_steps & 65535) == 0 and rss_mb() > MEM_MB:
                            raise ToolLimit("memory limit")
            except Park:
                parked.append(st)
            except PathEnd as pe:
                self.paths += 1
                if pe.outcome == "return":
                    h = self.hooks.get("path_end")
                    if h:
                        try:
                            h(self, st)
                        except PathEnd as q:
                            pe = q
                self.outcomes[pe.outcome] = self.outcomes.get(pe.outcome, 0) + 1
                if self.paths > self.max_paths:
                    raise ToolLimit("path limit")

    def step(self, st):
        th = st.ghost.pop("_resume", None)
        if th is not None:
            th(st)
            return
        fr = st.coros[st.cur].frames[-1]
        i = fr.f.blocks[fr.blk][fr.idx]
        getattr(self, "x_" + i.op)(st, fr, i)

    def x_unsupported(self, st, fr, i):
        raise ToolLimit("unsupported instruction: " + i.text[:120])

    def x_alloca(self, st, fr, i):
        ty, n, al = i.a
        sz = self.m.sizeal(ty)[0]
        if n is not None:
            k = self.val(st, n[0], n[1])
            if not k.conc:
                raise ToolLimit("dynamic alloca")
            sz *= k.c
        r = self.new_region(st, i.res if not i.res.isdigit() else "%s:%s" % (fr.f.name[:24], i.res), sz, "stack", max(al or 1, 1))
        r.ctx = st.cur
        fr.allocas.append(r.id)
        fr.loc[i.res] = r.base
        fr.idx += 1

    def x_load(self, st, fr, i):
        ty, p = i.a
        v = self.load(st, ty, self.val(st, PTR, p))
        fr.loc[i.res] = v
        fr.idx += 1

    def x_store(self, st, fr, i):
        ty, v, p = i.a
        self.atomic = i.text.lstrip().startswith("store atomic")
        try:
            self.store(st, ty, self.val(st, ty, v), self.val(st, PTR, p))
        finally:
            self.atomic = False
        fr.idx += 1

    def x_getelementptr(self, st, fr, i):
        bt, ops = i.a
        fr.loc[i.res] = self.gep(st, bt, [(t, self.val(st, t, o)) for t, o in ops])
        fr.idx += 1

    def x_bin(self, st, fr, i):
        op, ty, a, b = i.a
        x, y = self.val(st, ty, a), self.val(st, ty, b)
        if op in ("udiv", "sdiv", "urem", "srem"):
            self.obligation(st, bnot(eq(y, V(y.w, 0))), None, "arithmetic: division by zero", True)
            if not y.conc and op in ("udiv", "urem"):
                y2 = self.pow2(st, y)
                if y2 is not None:
                    y = y2
        fr.loc[i.res] = self.binop(op, ty, x, y)
        fr.idx += 1

    def pow2(self, st, y):
        return None

    def x_cast(self, st, fr, i):
        op, ft, a, tt = i.a
        fr.loc[i.res] = self.cast(op, ft, self.val(st, ft, a), tt)
        fr.idx += 1

    def x_icmp(self, st, fr, i):
        pred, ty, a, b = i.a
        fr.loc[i.res] = self.icmp(st, pred, self.val(st, ty, a), self.val(st, ty, b))
        fr.idx += 1

    def x_br(self, st, fr, i):
        if i.a[0] is None:
            return self.goto(st, fr, i.a[1])
        c = self.val(st, I1, i.a[0])
        self.branch(st, c, i.a[1], i.a[2])

    def branch(self, st, c, t, f):
        if isinstance(c, bool):
            return self.goto(st, st.fr, t if c else f)
        yes = self.feasible(st, c)
        no = self.feasible(st, bnot(c)) if yes else True
        if yes and no:
            raise Fork([(c, lambda s: self.goto(s, s.fr, t)), (bnot(c), lambda s: self.goto(s, s.fr, f))])
        self.goto(st, st.fr, t if yes else f)

    def x_switch(self, st, fr, i):
        ty, v, d, cs = i.a
        x = self.val(st, ty, v)
        if isinstance(x, (bool, B)):
            x = b2v(x, 8)
        if x.conc:
            for c, l in cs:
                if (c & ((1 << x.w) - 1)) == x.c:
                    return self.goto(st, fr, l)
            return self.goto(st, fr, d)
        alts = []
        rest = True
        for c, l in cs:
            e = eq(x, V(x.w, c))
            alts.append((e, (lambda l: lambda s: self.goto(s, s.fr, l))(l)))
            rest = band(rest, bnot(e))
        alts.append((rest, lambda s: self.goto(s, s.fr, d)))
        raise Fork(alts)

    def x_ret(self, st, fr, i):
        ty, v = i.a
        self.ret(st, None if v is None else self.val(st, ty, v))

    def x_unreachable(self, st, fr, i):
        self.obligation(st, False, None, "control: code declared unreachable is reached", True)

    def x_call(self, st, fr, i):
        self.do_call(st, i)

    x_invoke = x_call

    def x_select(self, st, fr, i):
        c, ty, a, b = i.a
        c = self.val(st, I1, c)
        x, y = self.val(st, ty, a), self.val(st, ty, b)
        if isinstance(c, bool):
            fr.loc[i.res] = x if c else y
            fr.idx += 1
            return
        if isinstance(x, (bool, B)):
            fr.loc[i.res] = bor(band(c, x), band(bnot(c), y))
            fr.idx += 1
            return

        def mk(v):
            def th(s):
                s.fr.loc[i.res] = v
                s.fr.idx += 1
            return th
        if isinstance(x, list) or ty == PTR:
            raise Fork([(c, mk(x)), (bnot(c), mk(y))])
        fr.loc[i.res] = ite(c, x, y)
        fr.idx += 1

    def x_extractvalue(self, st, fr, i):
        ty, v, idx = i.a
        x = self.val(st, ty, v)
        for k in idx:
            x = x[k]
        fr.loc[i.res] = x
        fr.idx += 1

    def x_insertvalue(self, st, fr, i):
        ty, v, et, e, idx = i.a
        x = self.val(st, ty, v)
        y = self.val(st, et, e)

        def ins(a, ix):
            a = list(a)
            a[ix[0]] = y if len(ix) == 1 else ins(a[ix[0]], ix[1:])
            return a
        fr.loc[i.res] = ins(x, idx)
        fr.idx += 1

    def x_freeze(self, st, fr, i):
        ty, v = i.a
        fr.loc[i.res] = self.val(st, ty, v)
        fr.idx += 1

    def x_fence(self, st, fr, i):
        fr.idx += 1

    def x_atomicrmw(self, st, fr, i):
        op, p, ty, v = i.a
        a = self.val(st, PTR, p)
        old = self.load(st, ty, a)
        x = self.val(st, ty, v)
        new = {"add": add, "sub": sub, "and": and_, "or": or_, "xor": xor, "xchg": lambda q, w: w}.get(op)
        if new is None:
            raise ToolLimit("atomicrmw " + op)
        self.atomic = True
        try:
            self.store(st, ty, new(old, x), a)
        finally:
            self.atomic = False
        fr.loc[i.res] = old
        fr.idx += 1

    def x_cmpxchg(self, st, fr, i):
        p, ty, c, n = i.a
        a = self.val(st, PTR, p)
        old = self.load(st, ty, a)
        c = self.val(st, ty, c)
        n = self.val(st, ty, n)
        e = self.icmp(st, "eq", old, c)

        def put(s):
            self.atomic = True
            try:
                self.store(s, ty, n, a)
            finally:
                self.atomic = False
        if not isinstance(e, bool):
            def mk(b):
                def th(s):
                    if b:
                        put(s)
                    s.fr.loc[i.res] = [old, b]
                    s.fr.idx += 1
                return th
            raise Fork([(e, mk(True)), (bnot(e), mk(False))])
        if e:
            put(st)
        fr.loc[i.res] = [old, e]
        fr.idx += 1

    def x_phi(self, st, fr, i):
        raise ToolLimit("phi executed")

    def x_landingpad(self, st, fr, i):
        key, sel = st.ghost.pop("inflight")
        e = st.exc[key]
        fr.loc[i.res] = [e["ptr"], V(32, sel)]
        fr.idx += 1

    def x_resume(self, st, fr, i):
        ty, v = i.a
        x = self.val(st, ty, v)
        key = x[0].key()
        if key not in st.exc:
            raise ToolLimit("resume of unknown exception")
        self.pop(st)
        if fr.kind is not None:
            h2 = self.hooks.get("unwind_through")
            if h2:
                h2(self, st, fr)
        self.unwind(st, key)

    # ------------------------------------------------------------------ intrinsics
    def intrinsic(self, st, i, name, args):
        if name.startswith("llvm.lifetime."):
            rg = self.single_base(self.val(st, args[1][0], args[1][1]))
            if rg and isinstance(rg[0], int) and st.regions[rg[0]].kind == "stack":
                r = st.rw(rg[0])
                r.cells = Cells()
                r.meta["ended"] = name.startswith("llvm.lifetime.end")
            return self.deliver(st, None)
        if name.startswith(("llvm.dbg.", "llvm.lifetime.", "llvm.assume", "llvm.invariant.", "llvm.experimental.noalias", "llvm.donothing")):
            return self.deliver(st, None)
        av = [self.val(st, t, a) for t, a, _ in args]
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            if not av[2].conc:
                raise ToolLimit("memcpy of symbolic length")
            self.memcpy(st, av[0], av[1], av[2].c)
            return self.deliver(st, None)
        if name.startswith("llvm.memset"):
            if not av[2].conc:
                raise ToolLimit("memset of symbolic length")
            self.memset(st, av[0], av[1], av[2].c)
            return self.deliver(st, None)
        if name.startswith(("llvm.threadlocal.address", "llvm.launder", "llvm.strip.invariant", "llvm.expect", "llvm.ptr.annotation", "llvm.ssa.copy")):
            return self.deliver(st, av[0])
        if name.startswith("llvm.eh.typeid.for"):
            a = args[0][1]
            return self.deliver(st, V(32, self.typeid(a[1])))
        h = self.hooks.get("intrinsic")
        if h and h(self, st, name, av):
            return self.deliver(st, None)
        if name.startswith("llvm.prefetch"):
            h = self.hooks.get("prefetch")
            if h and h(self, st, av):
                return
            return self.deliver(st, None)
        if name.startswith(("llvm.trap", "llvm.ubsantrap", "llvm.debugtrap")):
            self.obligation(st, False, None, "control: trap reached", True)
        if name.startswith("llvm.is.constant"):
            return self.deliver(st, False)
        if name.startswith("llvm.objectsize"):
            return self.deliver(st, V(av[0].w if False else 64, -1))
        if name.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
            k = name[5:9]
            x, y = av
            c = {"umin": ult(x, y), "umax": ult(y, x), "smin": slt(x, y), "smax": slt(y, x)}[k]
            return self.deliver(st, ite(c, x, y))
        if ".with.overflow" in name:
            x, y = av
            w = x.w
            if name.startswith("llvm.umul"):
                p = mul(zext(x, 2 * w), zext(y, 2 * w))
                return self.deliver(st, [mul(x, y), bnot(eq(extract(p, w, w), V(w, 0)))])
            if name.startswith("llvm.uadd"):
                s = add(x, y)
                return self.deliver(st, [s, ult(s, x)])
            if name.startswith("llvm.usub"):
                return self.deliver(st, [sub(x, y), ult(x, y)])
            signed = {"llvm.sadd": add, "llvm.ssub": sub, "llvm.smul": mul}
            for k, f in signed.items():
                if name.startswith(k):
                    r = f(sext(x, 2 * w), sext(y, 2 * w))
                    t = f(x, y)
                    return self.deliver(st, [t, bnot(eq(r, sext(t, 2 * w)))])
        raise ToolLimit("intrinsic " + name)


class _Control:
    pass


CONTROL = _Control()
