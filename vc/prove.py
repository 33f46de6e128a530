"""Solver front end: every obligation goes through Prover.prove (z3; cvc5 cross-check in thorough mode)."""
import os
import subprocess
import tempfile
import time
import z3


class Prover:
    def __init__(self, timeout_ms=60000):
        self.queries = 0
        self.time = 0.0
        self.timeout = timeout_ms
        self.cross = os.environ.get("VERIF_TIER") == "thorough"
        self.cross_n = 0
        self.cross_disagree = []
        self.cross_unknown = 0
        self.cache = {}

    def check(self, cs):
        """-> ('sat', model) | ('unsat', None) | ('unknown', None)"""
        key = frozenset(c.get_id() for c in cs)
        hit = self.cache.get(key)
        if hit is not None:
            return hit[0]
        t = time.time()
        s = z3.Solver()
        s.set("timeout", self.timeout)
        for c in cs:
            s.add(c)
        r = s.check()
        self.queries += 1
        self.time += time.time() - t
        if r == z3.sat:
            res = ("sat", s.model())
        elif r == z3.unsat:
            res = ("unsat", None)
        else:
            res = ("unknown", None)
        self.cache[key] = (res, list(cs))  # keep the terms alive: ids must stay unique
        return res

    def crosscheck(self, cs):
        """second opinion on an unsat answer (thorough tier)"""
        if not self.cross or self.cross_n > 4000:
            return
        s = z3.Solver()
        for c in cs:
            s.add(c)
        txt = "(set-logic QF_BV)\n" + s.to_smt2()
        self.cross_n += 1
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        try:
            out = subprocess.run(["cvc5", "--tlimit=20000", f.name], capture_output=True, text=True, timeout=40)
            ans = out.stdout.strip().split("\n")[0] if out.stdout.strip() else "unknown"
        except subprocess.TimeoutExpired:
            ans = "unknown"
        finally:
            os.unlink(f.name)
        if ans == "sat":
            self.cross_disagree.append(txt)
        elif ans != "unsat":
            self.cross_unknown += 1

    def prove(self, pc, goal):
        """pc |= goal ?  -> ('valid',None) | ('invalid',model) | ('unknown',None)"""
        r, m = self.check(list(pc) + [z3.Not(goal)])
        if r == "unsat":
            self.crosscheck(list(pc) + [z3.Not(goal)])
            return "valid", None
        if r == "sat":
            return "invalid", m
        return "unknown", None


class Obligation:
    __slots__ = ("prop", "name", "loc", "checked", "discharged", "failures", "unknown", "backend", "unit")

    def __init__(self, prop, name, loc, unit):
        self.prop = prop
        self.name = name
        self.loc = loc
        self.unit = unit
        self.checked = 0
        self.discharged = 0
        self.failures = []
        self.unknown = 0
        self.backend = {"z3": 0, "normal-form": 0}


class Ledger:
    """all obligations of a run: a named obligation is one (unit, name, source location); it is discharged
    when every instance of it on every path was proved"""

    def __init__(self):
        self.obls = {}
        self.covers = {}
        self.tool_limits = []
        self.units = []
        self.functions = set()
        self.assumptions = set()
        self.paths = 0

    def get(self, unit, name, loc, prop=None):
        k = (unit, name, loc, prop)
        o = self.obls.get(k)
        if o is None:
            o = self.obls[k] = Obligation(prop, name, loc, unit)
        return o

    def record(self, unit, name, loc, status, backend, detail=None, prop=None):
        o = self.get(unit, name, loc, prop)
        o.checked += 1
        o.backend[backend] = o.backend.get(backend, 0) + 1
        if status == "valid":
            o.discharged += 1
        elif status == "unknown":
            o.unknown += 1
        else:
            if len(o.failures) < 5:
                o.failures.append(detail)
            else:
                o.failures.append(None)

    def cover(self, unit, name, hit):
        k = (unit, name)
        self.covers[k] = self.covers.get(k, 0) + int(hit)

    def failed(self):
        return [o for o in self.obls.values() if o.failures]

    def unknowns(self):
        return [o for o in self.obls.values() if o.unknown]
