#!/usr/bin/env python3
"""writes MANIFEST.json from the table below (run by hand when the set of checks changes)"""
import json
T_MGC = "deductive verification: VCs of the real sources' LLVM IR, inductive invariant of the most general client"
T_ASM = "deductive verification: VCs from the assembled object code, per-primitive contracts, z3"
T_FN = "deductive verification: per-function contracts on the real sources' LLVM IR, z3"
CH = {
 "C01": (T_ASM, "Proof for all register/memory contents and all saver/restorer pairs, x86-64 SysV ELF, 4 build configurations; trusts the instruction semantics in vc/asm_x86.py and the binutils."),
 "C02": (T_ASM, "Proof for all handles and data values, all combinations of switches, x86-64 SysV ELF, 4 build configurations, and of the C++ entry points over the primitives' contracts."),
 "C03": (T_ASM, "Proof for every stack top, size and entry function; trusts the instruction semantics in vc/asm_x86.py."),
 "C04": (T_FN, "Proof for every stack size, base, alignment of the allocator's top and preallocation, and for callables of 1 to 4096 bytes aligned to 1 to 256; x86-64."),
 "C05": (T_MGC, "Every obligation of the library code under an arbitrary client is discharged over an inductive invariant (state set closed under all operations); histories are unbounded, at most 2 (fcontext base: 3) contexts beside the main one exist at the same time."),
 "C06": (T_MGC, "As C05, plus fault units (failing allocation, failing getcontext); trusts the allocation contracts."),
 "C07": (T_MGC, "As C05, with destruction at every suspension point and destructors that switch."),
 "C08": (T_MGC, "As C05, with every handle operation on every handle in every state."),
 "C09": (T_MGC, "As C05, with on-top functions (returning own, other, empty handle, or throwing)."),
 "C10": (T_FN, "Proof for every size and every outcome of the system calls (ghost OS: malloc, mmap, sysconf, page size any power of two in 4 KiB..64 KiB)."),
 "C11": (T_FN, "Proof for every size and every outcome of the system calls, over the ghost OS."),
 "C12": (T_FN, "Sizes, alignment and failure proved for every argument over a contract of boost::pool and over the installed boost::pool itself for its first chunks; sharing by an inductive invariant over all copy/move/assign/destroy/allocate/deallocate histories of up to 3 allocator objects."),
 "C13": (T_FN, "Per-function proof over the contract of the __splitstack_* run-time functions, plus the inductive invariant of the most general client in the segmented configuration (at most 2 contexts beside the main one)."),
 "C14": (T_FN, "Proof for every answer of sysconf/getrlimit and every order of first uses."),
 "C15": (T_FN, "Proof for all argument values; the shapes of callables and tuples (0 to 4 elements, by value, by reference, move-only, member pointers) are enumerated."),
 "C16": (T_FN, "Proof for all values; tuple shapes of 1 to 5 elements are enumerated (values, references, move-only)."),
 "C17": (T_MGC, "As C05, with escaping exceptions at every point."),
 "C18": (T_MGC, "As C05, ucontext back-end, obligations on the current record at every step."),
 "C19": (T_FN, "Proof for every address and length: the loop's affine invariant is inferred by the engine and proved by induction (termination included); the prefetch instruction itself is the contract boundary."),
 "C20": (T_ASM, "Proof for all register/memory contents and all saver/restorer pairs of 16 ports (23 build configurations) assembled with clang for their targets; trusts the instruction semantics in vc/asm_other.py and clang/llvm-objdump. PE/XCOFF and the ppc Mach-O ports cannot be assembled here and are not covered."),
 "C21": (T_MGC, "As C05-C09 and C17 for the Windows-fiber back-end, compiled against a stand-in for windows.h whose functions are contracts (vc/winfib.py): fiber handles are opaque, CreateFiber may fail."),
 "C22": (T_MGC, "As C05-C09 for two threads that hand contexts to each other at every operation boundary (sequentialised; thread-local variables per thread), plus the frame obligation that library code writes no unsynchronised shared variable, which makes the operation boundaries sufficient. At most 2 contexts beside the threads' own."),
 "C23": (T_FN, "Proof for every size and every outcome of the calls, over contracts of VirtualAlloc, VirtualProtect, VirtualFree and GetSystemInfo (compiled against a stand-in for windows.h); page sizes 4 KiB to 2 MiB."),
 "C24": (T_MGC, "As C05-C09 for the ucontext back-end built with BOOST_USE_ASAN and BOOST_USE_TSAN, over contracts of the sanitizers' fiber interface (vc/sanit.py); at most 2 contexts beside the thread's own. The valgrind hooks are not covered; continuation has no TSan support."),
 "C25": (T_MGC, "As C05-C09 for the fcontext back-end built with shadow stacks, over contracts of map_shadow_stack and munmap, and as C01-C03 for the primitives assembled with shadow stacks (semantics of call, ret, rdssp, incssp, rstorssp, saveprevssp in vc/asm_x86.py; a violation there has no native replay, this machine has no shadow stacks); at most 2 contexts beside the thread's own."),
}
NA = {}
def main():
    ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
    m = {"version": 1, "setup_cmd": "python3-vt -c \"import z3, sys; sys.path.insert(0, '/verif'); import vc.run, vc.jobs\"",
         "checks": [], "not_applicable": [], "notes": "No hooks: the checks read the unmodified sources. See DESIGN.md."}
    for i in ids:
        if i in CH:
            m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3-vt check.py " + i,
                                "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py " + i,
                                "evidence_file": "evidence/%s.json" % i, "technique": CH[i][0], "level": "proof", "level_note": CH[i][1]})
        else:
            m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
    json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
main()
