#!/usr/bin/env python3-vt
"""check.py PROPERTY: generate and discharge the proof obligations of one property from /repo's current tree."""
import json
import multiprocessing as mp
from multiprocessing.pool import ThreadPool
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vc import run, prove, jobs as J  # noqa: E402
from vc.values import ToolLimit  # noqa: E402
from vc import values as val  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
STOP = time.time() + (840 if TIER == "quick" else 10 ** 6)   # native runs end by then
DEADLINE = float(os.environ.get("VERIF_BUDGET", "700" if TIER == "quick" else "3000"))


def label(j):
    if j["kind"] == "asm":
        return "asm x86_64"
    if j["kind"] == "asmother":
        return "asm " + j["port"]
    return "%s[%s/%s%s%s]" % (j["harness"], j["back"], j["std"], "/assert" if j["asserts"] else "",
                              "".join(" " + d for d in j["defs"]))


def one_unit(src, unit):
    """the harness with all other units removed"""
    def r(m):
        return m.group(0) if m.group(1) == unit else "\n" * m.group(0).count("\n")
    return re.sub(r'^extern "C" void (unit_\w+)\(\) \{(?:[^\n]*\}\n|.*?^\}\n)', r, src, flags=re.M | re.S)


def modules(j, work, c):
    """-> [(module, unit)], [(unit that does not compile though others do, error)]"""
    want = j["units"]

    def wanted(u):
        return want is None or any(re.fullmatch(w, u) for w in want)
    d = os.path.join(work, "m%d" % j["n"])
    ex = j.get("extra") or ()
    try:
        m = run.compile_module(d, j["harness"], c, ex)
        return [(m, u) for u in run.units(m) if wanted(u)], []
    except run.BuildError as e:
        first = e
    src = open(os.path.join(HERE, "harness", j["harness"])).read()
    ok, bad = [], []
    for u in re.findall(r'^extern "C" void (unit_\w+)\(\) \{', src, flags=re.M):
        if not wanted(u):
            continue
        p = os.path.join(d, "only_" + u, j["harness"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(one_unit(src, u))
        try:
            m = run.compile_module(os.path.dirname(p), p, c, ex)
            if u in run.units(m):
                ok.append((m, u))
        except run.BuildError as e:
            bad.append((u, str(e)))
    if not ok:
        # a client of the public interface that no compiler accepts any more
        if j["harness"] in PUBLIC and "CHECKCUR" not in j["defs"] and gxx_rejects(j, d):
            return [], bad or [(u, str(first)) for u in j["units"] or ()]
        raise first
    return ok, bad


PUBLIC = ("mgc.cpp", "units_ctx.cpp", "units_def.cpp", "stacks.cpp", "seg.cpp")


def gxx_rejects(j, d):
    """g++ accepts the library's sources, but not the harness"""
    c = run.cfg(j["back"], j["std"], j["asserts"], j["defs"])
    base = ["g++", "-fsyntax-only", "-w", "-std=" + j["std"], "-DBOOST_CONTEXT_NO_LIB", "-DBOOST_CONTEXT_SOURCE", "-DBOOST_CONTEXT_STATIC_LINK",
            "-I" + run.REPO + "/include", "-I" + os.path.join(HERE, "harness")] + list(c.flags) + ["-D" + x for x in c.defs]
    rc = [subprocess.run(base + [f], capture_output=True).returncode for f in
          [os.path.join(run.REPO, x) for x in tuple(c.srcs) + tuple(j.get("extra") or ())] + [os.path.join(HERE, "harness", j["harness"])]]
    return not any(rc[:-1]) and rc[-1] != 0


def do_job(a):
    """worker: runs one job -> plain data"""
    j, work, prop = a
    t0 = time.time()
    p = prove.Prover()
    l = prove.Ledger()
    out = {"job": j, "label": label(j), "limits": [], "assumptions": [], "repeated": []}
    try:
        if j["kind"] == "asm":
            from vc.asm_contracts import AsmCheck
            AsmCheck(p, l, work, {j["want"]}).run()
        elif j["kind"] == "asmother":
            from vc import asm_other
            asm_other.check(j["port"], p, l, work)
        else:
            c = run.cfg(j["back"], j["std"], j["asserts"], j["defs"])
            val.reset()
            mods, noncomp = modules(j, work, c)
            for u, err in noncomp:
                loc = re.search(r"(\S+:\d+):\d+: error", err)
                l.record(label(j) + ":" + u, "contract: a client program that has to compile does compile", loc.group(1) if loc else "", "invalid",
                         "normal-form", {"compiler": err[-1500:], "program": u}, prop=prop)
            for m, u in mods:
                try:
                    e = run.run_unit(m, u, p, l, label(j) + ":" + u, max_steps=400000000, max_paths=100000000, focus=prop, alias=j.get("alias"), repeat=j.get("repeat", True),
                                     time_limit=max(20, DEADLINE - (time.time() - j["t0"])))
                    l.units.append((label(j) + ":" + u, e.paths, e.total_steps, len(e.seen)))
                    if e.unconverged:
                        out["repeated"].append("%s: %s" % (label(j), u))
                except ToolLimit as x:
                    out["limits"].append("%s: %s" % (u, str(x)[:1500]))
    except ToolLimit as x:
        out["limits"].append(str(x)[:1500])
    except Exception:
        out["limits"].append("internal error: " + traceback.format_exc()[-1500:])
    out["obls"] = [dict(prop=o.prop, name=o.name, loc=o.loc, unit=o.unit, checked=o.checked, discharged=o.discharged, unknown=o.unknown,
                        nfail=len(o.failures), failures=[f for f in o.failures if f][:3], backend=o.backend) for o in l.obls.values()]
    out["covers"] = [(k[0], k[1], v) for k, v in l.covers.items()]
    out["functions"] = sorted("%s [%s]" % f if isinstance(f, tuple) else f for f in l.functions)
    out["units"] = l.units
    out["paths"] = l.paths
    out["queries"], out["solver_s"] = p.queries, p.time
    out["cross"] = (p.cross_n, len(p.cross_disagree), p.cross_unknown)
    out["wall"] = time.time() - t0
    return out


def child(a, conn):
    try:
        conn.send(do_job(a))
    except BaseException:
        conn.send(None)
    conn.close()


def run_jobs(todo, width=8):
    """each job in a process of its own; one that dies yields no proof"""
    from multiprocessing import connection
    todo = list(todo)[::-1]
    live, res = {}, []
    while todo or live:
        while todo and len(live) < width:
            a = todo.pop()
            r, w = mp.Pipe(False)
            p = mp.Process(target=child, args=(a, w))
            p.start()
            w.close()
            live[r] = (p, a)
        for r in connection.wait(list(live)):
            p, a = live.pop(r)
            try:
                out = r.recv()
            except (EOFError, OSError):
                out = None
            r.close()
            p.join()
            if out is None:
                out = {"job": a[0], "label": label(a[0]), "limits": ["the prover process died (exit code %s)" % p.exitcode], "assumptions": [], "repeated": [], "obls": [],
                       "covers": [], "functions": [], "units": [], "paths": 0, "queries": 0, "solver_s": 0.0, "cross": (0, 0, 0), "wall": 0.0}
            res.append(out)
    return res


# ------------------------------------------------------------------------------------------------ native replay
def native_build(work, j, unit, asan=False, more=()):
    exe = os.path.join(work, "nat%d_%s%s" % (j["n"], unit, "_asan" if asan else "".join("_" + x for x in more)))
    if os.path.exists(exe):
        return exe
    b = j["back"]
    defs = [] if j["asserts"] else ["-DNDEBUG"]
    defs += ["-D" + d for d in j["defs"] if not more or d.split("=")[0] != "MAXF"] + ["-D" + d for d in more] + ["-DVC_UNIT=" + unit, "-DVC_NATIVE"]
    h = os.path.join(HERE, "harness", j["harness"])
    p = os.path.join(work, "m%d" % j["n"], "only_" + unit, j["harness"])
    hobj = exe + ".o"
    srcs = [hobj, os.path.join(HERE, "harness", "vc_native.cpp")]
    srcs += [os.path.join(run.REPO, x) for x in (j.get("extra") or ())]
    wr = list(j.get("wraps") or ())
    R = run.REPO
    if b in ("fc", "ss"):
        defs.append("-DVC_FC")
        if b == "ss":  # the processor cannot execute the shadow-stack instructions: the assembler is built without them
            defs.append("-DVC_SS")
            wr += ["syscall", "munmap"]
        srcs += [R + "/src/fcontext.cpp"] + [R + "/src/asm/%s_x86_64_sysv_elf_gas.S" % n for n in ("make", "jump", "ontop")]
        wr.append("make_fcontext")
    elif b == "wrap":
        defs.append("-DVC_NONE")
        srcs.append(R + "/src/fcontext.cpp")
    elif b in ("uc", "seg"):
        defs.append("-DBOOST_USE_UCONTEXT=")
        if b == "seg":
            defs += ["-DBOOST_USE_SEGMENTED_STACKS=", "-DVC_SEG"]
        srcs += [R + "/src/fiber.cpp", R + "/src/continuation.cpp"]
        wr += ["makecontext", "swapcontext", "getcontext"]
    elif b == "win":
        defs += ["-DBOOST_USE_WINFIB=", "-DVC_WIN", "-I" + HERE + "/harness/win"]
        srcs += [R + "/src/fiber.cpp", R + "/src/continuation.cpp"]
    else:
        defs.append("-DVC_NONE")
        if b in ("pool", "winos"):
            defs.insert(0, "-I" + HERE + "/harness/" + {"winos": "win"}.get(b, b))
    base = ["g++", "-std=" + j["std"], "-O1", "-g", "-w", "-DBOOST_CONTEXT_NO_LIB", "-DBOOST_CONTEXT_SOURCE", "-DBOOST_CONTEXT_STATIC_LINK",
            "-I" + R + "/include", "-I" + HERE + "/harness"] + defs
    if "THREADS=2" in j["defs"]:
        base.insert(1, "-pthread")
    if asan:
        base.insert(1, "-fsanitize=address")
    # the harness' variables in sections of their own
    if subprocess.run(base + (["-fcf-protection=full", "-DSHADOW_STACK_SYSCALL=1"] if b == "ss" else []) + ["-c", p if os.path.exists(p) else h, "-o", hobj], capture_output=True).returncode:
        return None
    subprocess.run(["objcopy", "--rename-section", ".bss=hbss", "--rename-section", ".data=hdata", hobj])
    cmd = base + srcs + ["-o", exe]
    if wr:
        cmd.append("-Wl," + ",".join("--wrap=" + w for w in wr))
    r = subprocess.run(cmd, capture_output=True, text=True)
    return exe if r.returncode == 0 else None


def native_run(exe, env, prop, timeout=20, ok=90):
    """-> (broken?, text)"""
    e = dict(os.environ, VC_PROPS="" if prop in ("", "C21", "C22") else prop, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0", **env)
    try:
        r = subprocess.run([exe], env=e, capture_output=True, text=True, timeout=timeout, errors="replace", cwd="/")
    except subprocess.TimeoutExpired:
        return True, "does not terminate within %d s" % timeout
    txt = (r.stdout[-1500:] + r.stderr[-1500:]).strip()
    if r.returncode in (78, ok):
        return False, txt
    if r.returncode == 0:
        txt += "\nthe process ends: a context function returned into nowhere"
    return True, "exit status %d\n%s" % (r.returncode, txt)


def replay_ir(work, res, prop, o):
    unit = o["unit"].rsplit(":", 1)[1]
    for f in o["failures"]:
        if "compiler" in f:
            if native_build(work, res["job"], unit) is None:
                return {"kind": "program", "program": res["job"]["harness"] + ":" + unit, "native_result": "rejected by g++ as well"}
        if "inputs" not in f:
            continue
        exe = native_build(work, res["job"], unit)
        if not exe:
            return None
        inp = ",".join(str(v & ((1 << 64) - 1)) for _, v in f["inputs"])
        # after undefined behaviour the real code may fail anywhere
        bad, txt = native_run(exe, {"VC_INPUTS": inp, "VC_RUNS": str(f.get("runs", 1))}, prop if o["prop"] == prop else "")
        if bad:
            return {"kind": "inputs", "inputs": f["inputs"], "runs": f.get("runs", 1), "native_result": txt}
    return None


def stress(work):
    """threads that use contexts of their own at the same time, on the real library"""
    R = run.REPO
    for back, defs, srcs in (("fc", [], ["src/fcontext.cpp"] + ["src/asm/%s_x86_64_sysv_elf_gas.S" % n for n in ("make", "jump", "ontop")]),
                             ("uc", ["-DBOOST_USE_UCONTEXT="], ["src/fiber.cpp", "src/continuation.cpp"])):
        for c in ([], ["-DCONT"]):
            exe = os.path.join(work, "stress_%s%d" % (back, len(c)))
            r = subprocess.run(["g++", "-std=c++17", "-O1", "-w", "-pthread", "-DBOOST_CONTEXT_NO_LIB", "-DBOOST_CONTEXT_SOURCE",
                                "-DBOOST_CONTEXT_STATIC_LINK", "-I" + R + "/include"] + defs + c +
                               [HERE + "/harness/stress.cpp", R + "/src/posix/stack_traits.cpp"] + [R + "/" + x for x in srcs] + ["-o", exe],
                               capture_output=True, text=True)
            if r.returncode:
                continue
            for k in range(5):
                bad, txt = native_run(exe, {}, "C22", 30, 0)
                if bad:
                    return {"kind": "parallel threads", "program": "harness/stress.cpp (%s%s)" % (back, "".join(c)), "native_result": txt}
    return None


def battery(work, res, prop, n, unit="unit_client"):
    """bounded: pseudo-random histories of the same harness on the real library"""
    exe = native_build(work, res["job"], unit)
    if not exe:
        return None, 0
    k = 0
    many = native_build(work, res["job"], unit, more=("MAXF=300",))
    for s, x in enumerate((exe, many, exe, many)):
        # long histories and many contexts: something may happen only every so many operations
        if time.time() > STOP or not x:
            continue
        k += 1
        bad, txt = native_run(x, {"VC_SEED": str(SEED * 3001 + s), "VC_LONG": "2000000"}, prop, 90)
        if bad and not txt.startswith("does not terminate"):
            return {"kind": "seed", "seed": SEED * 3001 + s, "long history": 2000000, "contexts": 300 if x is many else None, "native_result": txt}, k
    for s in range(n):
        if time.time() > STOP:
            break
        k += 1
        bad, txt = native_run(exe, {"VC_SEED": str(SEED * 100003 + s)}, prop)
        if bad:
            return {"kind": "seed", "seed": SEED * 100003 + s, "native_result": txt}, k
    return None, k


ASMDEF = {"default": [], "no-cet": ["-fcf-protection=none"], "BOOST_USE_TSX": ["-DBOOST_USE_TSX"],
          "BOOST_CONTEXT_TLS_STACK_PROTECTOR": ["-DBOOST_CONTEXT_TLS_STACK_PROTECTOR"]}


def asm_native(work, prop, cfgs, n=40):
    k = 0
    for cfg in cfgs:
        if cfg not in ASMDEF or prop == "C25":
            continue  # shadow-stack instructions: no processor here executes them
        exe = os.path.join(work, "asmnat_" + re.sub(r"\W", "_", cfg))
        r = subprocess.run(["gcc", "-O1", "-fno-stack-protector", "-w"] + ASMDEF[cfg] + [HERE + "/harness/asm_native.c"] +
                           [run.REPO + "/src/asm/%s_x86_64_sysv_elf_gas.S" % x for x in ("make", "jump", "ontop")] + ["-o", exe],
                           capture_output=True, text=True)
        if r.returncode:
            continue
        for s in range(n):
            k += 1
            try:
                r = subprocess.run([exe, str(SEED * 1000 + s), "400"], capture_output=True, text=True, timeout=20, errors="replace")
            except subprocess.TimeoutExpired:
                return {"kind": "asm-seed", "config": cfg, "seed": SEED * 1000 + s, "native_result": "does not terminate"}, k
            if r.returncode != 0:
                m = re.search(r"OBLIGATION-FAILED (C\d\d)", r.stdout)
                if m and m.group(1) != prop:
                    continue
                return {"kind": "asm-seed", "config": cfg, "seed": SEED * 1000 + s, "native_result": "exit status %d %s" % (r.returncode, r.stdout[-500:])}, k
    return None, k


def main():
    prop = sys.argv[1]
    t0 = time.time()
    js = []
    seen = set()
    for j in J.JOBS[prop]:
        if TIER not in j["tiers"]:
            continue
        k = label(j) + repr(j.get("units")) + repr(j.get("want"))
        if k in seen:
            continue
        seen.add(k)
        j = dict(j)
        j["n"] = len(js)
        j["t0"] = t0
        js.append(j)
    work = tempfile.mkdtemp(prefix="vc_%s_" % prop)
    code = 2
    try:
        # the longest jobs first
        res = run_jobs([(j, work, prop) for j in sorted(js, key=lambda j: -J.weight(j))])
        code = report(prop, res, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def report(prop, res, work, t0):
    res.sort(key=lambda r: r["job"]["n"])
    mine = []
    other = []
    lemma = []
    for r in res:
        for o in r["obls"]:
            (lemma if o["prop"] == "FRAME" else mine if o["prop"] is None or prop in o["prop"].split(",") else other).append((r, o))
    failed = [(r, o) for r, o in mine if o["nfail"]]
    unknown = [(r, o) for r, o in mine if o["unknown"]]
    limits = [(r, x) for r in res for x in r["limits"]]
    known = []
    kf = os.path.join(HERE, "known_findings.txt")
    for line in open(kf) if os.path.exists(kf) else []:
        m = re.match(r"known: property=(\S+) obligation=\"([^\"]*)\"(?: unit=(\S+))? (.*)", line.strip())
        if m and m.group(1) == prop:
            known.append((m.group(2), m.group(3), m.group(4)))
    hit = set()
    bad = []
    for r, o in failed:
        for k in known:
            if o["name"] == k[0] and (not k[1] or k[1] == o["unit"]):
                hit.add(k)
                break
        else:
            bad.append((r, o))
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    rdir = os.path.join(HERE, "evidence", "replay")
    code = 0
    viol = 0
    if bad:
        viol = len(bad)
        rp = None
        for r, o in bad[:6]:
            if r["job"]["kind"] == "ir":
                rp = stress(work) if o["name"].startswith("threads: the library writes") else replay_ir(work, r, prop, o)
            elif r["job"]["kind"] == "asm":
                rp, _ = asm_native(work, prop, [o["unit"].split("/", 1)[1]])
            if rp:
                bad.remove((r, o))
                bad.insert(0, (r, o))
                break
        if not rp:
            # the counterexample of the verifier does not replay: search for a failing history of the real code
            for r in {id(r): r for r, o in bad}.values():
                if r["job"]["kind"] == "ir" and r["job"].get("units") == ("unit_client",):
                    rp, _ = battery(work, r, prop, 300)
                elif r["job"]["kind"] == "ir":
                    rp, _ = scenario_battery(work, r, prop)
                elif r["job"]["kind"] == "asm":
                    rp, _ = asm_native(work, prop, list(ASMDEF))
                if rp:
                    break
        path = write_replay(rdir, prop, bad, rp)
        r, o = bad[0]
        print("%d obligation(s) of %s not discharged, first: [%s] %s at %s (%s)" % (len(bad), prop, o["prop"] or "safety", o["name"], o["loc"], o["unit"]))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if rp else " no-failing-input-found"))
        code = 1
    bounded = []
    if limits or unknown:
        for r, x in limits:
            print("NOTE: %s is outside the verifier's reach: %s" % (r["label"], x.split("\n")[0][:300]))
        for r, o in unknown[:5]:
            print("NOTE: undecided obligation %s (%s)" % (o["name"], o["unit"]))
        if code == 0:
            global STOP
            STOP = min(STOP, time.time() + (180 if TIER == "quick" else 3000))
            rs = {id(r): r for r, _ in limits + unknown}
            for r in rs.values():
                n = 0
                f = None
                if r["job"]["kind"] == "ir":
                    us = r["job"].get("units") or ()
                    if us == ("unit_client",):
                        f, n = battery(work, r, prop, 150)
                    else:
                        f, n = scenario_battery(work, r, prop)
                elif r["job"]["kind"] == "asm":
                    f, n = asm_native(work, prop, list(ASMDEF))
                bounded.append({"unit": r["label"], "what": "bounded stand-in: %d runs of the same harness on the real code" % n})
                if f:
                    und = [(q, o) for q, o in unknown if q is r] or [(r, {"name": "bounded run", "loc": "", "unit": r["label"], "failures": [], "prop": prop})]
                    print("undecided by the verifier, violated by the real code: [%s] %s at %s" % (prop, und[0][1]["name"], und[0][1]["loc"]))
                    path = write_replay(rdir, prop, und, f)
                    print("VIOLATION property=%s replay=%s" % (prop, path))
                    code = 1
                    viol += 1
                    break
    for r, o in lemma:
        if o["nfail"] or o["unknown"]:
            # not a violation: what is lost is the argument that histories with more contexts behave like these
            print("NOTE: the frame lemma fails at %s: proved only for histories with as many contexts as the client has" % o["loc"])
            bounded.append({"unit": o["unit"], "what": "%s fails at %s: the proof is bounded to the number of contexts of the client" % (o["name"], o["loc"])})
    for r in res:
        for x in r["repeated"]:
            bounded.append({"unit": x, "what": "what the unit leaves behind in static variables differs after every run: proved for %d runs" % run.REPEAT})
    nob = len(mine)
    dis = sum(1 for r, o in mine if not o["nfail"] and not o["unknown"])
    inst = sum(o["checked"] for r, o in mine)
    covers = {}
    for r in res:
        for u, n, k in r["covers"]:
            covers["%s: %s" % (u, n)] = covers.get("%s: %s" % (u, n), 0) + k
    if nob == 0 and code == 0:
        print("ERROR: no obligation was generated")
        code = 2
    fns = sorted({f for r in res for f in r["functions"]})
    be = {}
    for r, o in mine:
        for k, v in o["backend"].items():
            be[k] = be.get(k, 0) + v
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "proof", "wall_s": round(time.time() - t0, 2), "violations": viol,
        "coverage": {
            "obligations": nob, "discharged": dis,
            "obligation_instances": inst,
            "checker_cmd": "python3-vt check.py %s (VC generation from clang IR / assembled object code; z3 %s)" % (prop, z3v()),
            "trusted_base": TRUST,
            "back_ends_instances": be, "solver_queries": sum(r["queries"] for r in res), "solver_s": round(sum(r["solver_s"] for r in res), 2),
            "paths": sum(r["paths"] for r in res),
            "units": [dict(unit=u, paths=p, steps=s, invariant_states=n) for r in res for u, p, s, n in r["units"]],
            "jobs": [{"job": r["label"], "wall_s": round(r["wall"], 2)} for r in res],
            "functions_under_contract": fns,
            "reachability_covers": covers,
            "bounded_stand_ins": bounded,
            "frame_lemma": {"sites": len(lemma), "instances": sum(o["checked"] for r, o in lemma), "failed": sum(1 for r, o in lemma if o["nfail"] or o["unknown"])},
            "cvc5_crosschecked": sum(r["cross"][0] for r in res), "cvc5_disagreements": sum(r["cross"][1] for r in res),
            "cvc5_unknown": sum(r["cross"][2] for r in res),
            "named_obligations": sorted({o["name"] for r, o in mine}),
        },
        "assumptions": ASSUME + J.ASSUME.get(prop, []),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d/%d obligations discharged (%d instances), %d jobs, %.1f s" % (prop, dis, nob, inst, len(res), time.time() - t0))
    return code


def scenario_battery(work, r, prop):
    """loop-free units whose verification stopped: run them natively on sampled inputs"""
    j = r["job"]
    names = []
    src = open(os.path.join(HERE, "harness", j["harness"])).read()
    for u in re.findall(r'^extern "C" void (unit_\w+)\(\) \{', src, flags=re.M):
        if j["units"] is None or any(re.fullmatch(w, u) for w in j["units"]):
            names.append(u)
    def one(u):
        if time.time() > STOP:
            return None, 0
        exe = native_build(work, j, u)
        k = 0
        for s in range(40 if exe else 0):
            if time.time() > STOP:
                break
            k += 1
            bad, txt = native_run(exe, {"VC_SEED": str(SEED * 7919 + s), "VC_RUNS": "3" if j.get("repeat", True) else "1"}, prop)
            if bad:
                return {"kind": "seed", "unit": u, "seed": SEED * 7919 + s, "native_result": txt}, k
        for s in range(2 if exe and j.get("repeat", True) else 0):
            if time.time() > STOP:
                break
            k += 1
            bad, txt = native_run(exe, {"VC_SEED": str(SEED * 104729 + s), "VC_RUNS": "70000", "VC_LONG": "100000000"}, prop, 30)
            if bad and not txt.startswith("does not terminate"):
                return {"kind": "seed", "unit": u, "seed": SEED * 104729 + s, "long history": 70000, "native_result": txt}, k
        return None, k
    with ThreadPool(8) as tp:
        res = tp.map(one, names, chunksize=1)
    return next((f for f, _ in res if f), None), sum(k for _, k in res)


def z3v():
    import z3
    return z3.get_version_string()


def write_replay(rdir, prop, bad, rp):
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, prop + ".json")
    with open(path, "w") as f:
        json.dump({"property": prop, "native_replay": rp,
                   "failed_obligations": [dict(name=o["name"], property=o["prop"], location=o["loc"], unit=o["unit"], job=r["label"],
                                               counterexamples=o["failures"]) for r, o in bad[:20]]}, f, indent=1, default=str)
    return os.path.relpath(path, HERE)


TRUST = [
    "vc/ (VC generator: LLVM IR and x86-64 symbolic semantics)", "z3 (bit-vector back end)",
    "clang 18 front end (C++ to unoptimised LLVM IR) and binary tools (assembling, disassembling)",
]
ASSUME = [
    "memory: the engine's model of objects as disjoint regions; machine arithmetic is modelled exactly (bit-vectors)",
    "C++ exception runtime, thread-local storage and operator new/delete follow their specification (contracts in vc/builtins.py)",
]
if __name__ == "__main__":
    main()
