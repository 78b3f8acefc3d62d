#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
TECH = "deterministic simulation with fault injection: "
T = {
"S01": ("seeded scheduler over real decoder threads with stalls, every call against its lone execution (linearizability of stateless calls)",
        "Seeded search over interleavings of 2-4 threads at every executed edge and every access to writable static memory of the instrumented crate. Then threads of small calls under a seeded scheduler with weak memory emulation (Miri). No switches inside core, alloc and std in the native part."),
"S02": ("seeded histories with damage, repair, buffer reuse and abandoned calls, every call against a fresh process",
        "Seeded search over call histories with dirty image, heap and stack; the oracle is the same code in a fresh process, so a wrong answer that is always the same is out of scope."),
"S03": ("the same run on two memories that differ in every byte (image, heap, stack)",
        "Sound for every explored run: a pixel that keeps its previous content differs between the two memories."),
"F01": ("storage and metadata faults, every call must return", "Seeded search over damaged textures, sizes and footprints, in debug and release builds; panics, aborts, signals and reads beyond the data (guard pages) are seen."),
"F02": ("storage and metadata faults on containers, every call must return", "Seeded search over damaged, repaired-checksum and generated containers, in debug and release builds."),
"F03": ("simulated clock and allocator, budgets linear in data and pixels", "Steps are executed edges of the real code, heap and stack are owned by the simulator; budgets have about a ninefold margin over the largest measured run."),
"F04": ("faults before and during a decode, image compared after each error", "Seeded search over causes of errors; every element of the image is compared."),
"F05": ("faults in the bytes behind the data, canaries behind the image, guard page behind the data", "Seeded search; results are compared over four continuations of the data."),
"F06": ("torn and short reads at seeded cut points against a reference model of sizes", "The model of required sizes is 106 lines, independent of the code; cut points concentrate at the exact boundaries."),
"F07": ("storage faults on chosen blocks, damaged against intact decode, blocks decoded alone", "Seeded search over damaged block sets and positions; the reach of a block is specified by the format's grid."),
"C01": ("the same seed executed in four builds, event logs compared", "Debug and release, with and without alloc, one toolchain, x86-64."),
"C02": ("the same stored, also damaged, object through two equivalent entry points or in two file layouts, outcomes compared",
        "Seeded search; one way is the oracle of the other, so an error that both share is out of scope."),
"C03": ("programs on simulated machines of other byte order and pointer width, with storage and metadata faults, against this machine",
        "Real crate code in Miri's machines for powerpc, i686 and s390x, debug build with all features; a few thousand calls chosen by the native simulation for distinct executed edges. 32 bit and big-endian are each covered by two of the machines."),
"D01": ("storage faults on generated textures, the recorded texels refine an executable reference model of the formats",
        "The model is 1,400 lines written from the specifications, independent of the code; illegal ASTC blocks are left open, BC1-BC5/ATC/EAC rounding is an interval. Seeded search over structured blocks and bit flips in four builds."),
"D02": ("storage faults on generated containers, the recorded texels refine an executable reference model of the container and of its block formats",
        "The model decodes code tables, palettes and block streams on its own (380 lines); nothing is said about containers that no encoder writes, or about other sizes than the container's."),
"A01": ("every allocation refused while the call runs", "The allocator is the simulator's: no allocation in an explored run is missed."),
"B01": ("simulated Python process histories with refused allocations, the native decoder as reference model", "Real CPython and PyO3; allocation failures are injected for the output object."),
}
NA = {
"N04": "Wall-clock performance of one function against another; a simulator replaces exactly the clock that would have to be measured.",
}
m = {"version": 1, "setup_cmd": "./check build",
 "checks": [dict(property=p, quick_cmd="./check %s quick" % p, thorough_cmd="./check %s thorough" % p,
                 technique=TECH + t, level="exploration", level_note=n) for p, (t, n) in T.items()],
 "not_applicable": [dict(property=p, reason=r) for p, r in NA.items()],
 "notes": "No hooks in /repo: the crate is instrumented at compile time (rustc flags set by /verif/sim/rustc-wrap.sh), its sources are used as they are. './check replay FILE' executes a recorded violation again, './check determinism' proves that equal seeds give equal event digests."}
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json")
open(out, "w").write(json.dumps(m, indent=1) + "\n")
