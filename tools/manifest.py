#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules that exist."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from dst import runner   # noqa: E402

NA = {
    "C19": "Acceptance of a source text is a pure function of that text: no schedule, fault, crash or environment takes part. What "
           "can vary under simulation (the verdict being the same in every environment, a damaged source ending in bounded time, a "
           "rejected source touching nothing) is decided by C05, C09 and C11.",
    "C20": "The text of one formatted conversion is a pure function of format and values; a simulator adds nothing over plain "
           "enumeration. The system behaviour around it (order, completeness and faults of what is written) is decided by C17, and "
           "generated programs print with it throughout C01-C03.",
    "C21": "Capacities are a pure function of the source text; nothing a scheduler or fault injector controls has a part in it. "
           "Sources beyond the capacities still run through C11, which decides that nothing is written outside the tables.",
}

DST = "deterministic simulation with fault injection: "
TEXT = {
    "C01": ("seeded search over programs and machine environments; oracle: a second compiler",
            "Every generated or corpus program has to behave as compiled by gcc, for both targets with and without +m, in seeded "
            "machine environments. Sampling: a fault outside the generated language or its sizes can be missed. Trusts the CPU and "
            "kernel simulator and gcc."),
    "C02": ("seeded interrupt schedules on a simulated machine, compared with the undisturbed execution",
            "Interrupts at every instruction of most executions (and random schedules of long ones) destroy everything below the "
            "stack pointer. Exhaustive over interrupt points for the sampled short programs only."),
    "C03": ("seeded I/O fault sequences, histories of four builds of one program compared with each other",
            "Four builds of a program must show one normalised system call history under the same injected faults. A fault common "
            "to all four builds is left to C01 and C16-C18."),
    "C04": ("every store, mapping and system call watched during seeded executions under faults",
            "Monitors are evaluated at every instruction of every simulated execution; programs and environments are sampled."),
    "C05": ("seeded environments of the compiler, results compared byte for byte",
            "Heap and stack residue, block placement, read sizes, environment strings, clock and randomness are controlled and "
            "varied; an influence through anything else is not covered."),
    "C06": ("the self-compiled compiler executed on a simulated machine, compared with the host-built one",
            "Includes the complete bootstrap on both machines; other sources are sampled."),
    "C07": ("seeded write, close, open and space failures in both builds of the compiler",
            "Faults hit any of the calls of the sampled compilations. The self-compiled compiler's close result is not observable "
            "(known finding)."),
    "C08": ("seeded read and open failures, missing and unreadable files",
            "Faults hit any of the calls of the sampled compilations; decided for the host-built compiler (the self-compiled one has a "
            "known finding)."),
    "C09": ("seeded invalid sources and faults among bystander files; all files compared afterwards",
            "The simulated file system is compared as a whole after each compilation."),
    "C10": ("seeded allocation failures with byte-exact bounds on every block and address sanitizer on the rest",
            "Failing single allocations, all from one on, and memory limits, for sampled sources."),
    "C11": ("seeded torn, damaged and oversized sources under a step bound, bounds checks on every access",
            "Sources of at most some hundred kilobytes; stores are checked by the simulator's heap bounds and the address "
            "sanitizer; reads of another object inside one allocation are not seen."),
    "C12": ("seeded kills of the compiler at arbitrary points, then a rerun over what is left",
            "Kill points are basic blocks and system calls of the host-built compiler, instructions and system calls of the self-"
            "compiled one. Nothing buffered survives, everything written does."),
    "C13": ("seeded partitions of sources into files, directory spellings and read sizes",
            "Partitions are made at line boundaries, to a depth of several levels; compared with the unsplit source's executable."),
    "C14": ("seeded option orders, dumps, and failing standard output and dump files",
            "Compared with the plain executable of the same source."),
    "C15": ("seeded initial process states on a simulated kernel, and a strict loader",
            "Argument vectors, environments, auxiliary vectors, stack positions and ways to exit are sampled; the loader's rules "
            "are checked for every image made."),
    "C16": ("seeded allocation histories against a model heap",
            "Histories with failing mappings excluded where a known finding applies; the model checks disjointness, content, "
            "zeroing, alignment of four bytes and bounded growth."),
    "C17": ("seeded output histories with faults against a model of the file system",
            "Formats are limited to those whose text is not in question; the text of conversions is not the subject."),
    "C18": ("seeded input histories with faults against a model of the files",
            "Interleaved character and line reads of several files, cut-short and failing reads."),
}

checks = []
for i in range(1, 22):
    pid = "C%02d" % i
    if pid in NA or not os.path.exists(os.path.join(HERE, "dst/props/%s.py" % pid.lower())):
        continue
    c = runner.load(pid)
    checks.append({
        "property": pid,
        "quick_cmd": "python3 run.py %s quick" % pid,
        "thorough_cmd": "python3 run.py %s thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": DST + TEXT[pid][0],
        "level": c.level,
        "level_note": TEXT[pid][1],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
    "notes": "No hooks in /repo: the compiler's seams are the C library calls below it (replaced at compile time by "
             "sim/host/sim.h) and, for compiled programs, the machine and kernel themselves (sim/guest). Replays: "
             "python3 replay.py FILE.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
