#!/usr/bin/env python3
"""Writes DESIGN.md from the text below, the checks and seeded/caught.txt."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from dst import runner   # noqa: E402

HEAD = r"""# Design

shecc is a small C compiler for ARM and RISC-V that compiles itself, with its
own C library (`lib/c.c`) linked into every program. There are two kinds of
process a user depends on:

1. **the compiler process**: reads sources, allocates memory, writes an ELF
   file and dumps; it runs natively, or compiled by itself on the target;
2. **the compiled program**: starts from whatever the kernel hands it, uses
   raw system calls through `lib/c.c`, is interrupted by signals.

Neither has threads or a network. What is not determined by the source text is
the environment: where memory is placed and what it contains, how I/O is
delivered in pieces or fails, which allocation fails, when the process is
interrupted or killed, what earlier runs left on the disk, what order the
options have. All of that is put under a seeded simulator, for both kinds of
process; the properties C01–C18 are what must hold whatever the simulator
decides. Three properties depend on nothing a simulator controls (C19–C21, see
the end).

## The two simulators

**`sim/host` – the compiler process.** The compiler's sources are compiled
unmodified from /repo's working tree (`sim/host/unit.c`) with the C library
calls below it (`malloc calloc free fopen fgets fgetc fputc fclose printf
remove rename … time rand getenv …`) replaced at compile time by
`sim/host/sim.h`; the runtime `simrt.c` decides all of them. No hook in /repo
is needed: the C library *is* the seam. Basic blocks are counted by
`-fsanitize-coverage=trace-pc`, which gives simulated time, the point of a kill
and the signature of an execution. A second build (`simhosta`) has the address
sanitizer on globals and stack and byte-exact bounds on simulated heap blocks.
Each run is one forked child; its files live in shared memory, so that what was
durable at the moment of a kill is exactly what the next run finds.
Scenario inputs: heap placement and residue, stack residue and address, argv,
environment, clock/pid/random numbers, sizes of read and write pieces,
allocation failures (nth, all from nth on, memory limit), errors of
open/read/write/close/remove/rename (nth or every), disk capacity, state of
standard output (closed, failing after n bytes), kill at basic block n or at /
after the nth call of a kind.

**`sim/guest` – the compiled program and the self-compiled compiler.** An
interpreter for ARMv7-A A32 (integer, user mode) and RV32IM and a simulated
Linux kernel: ELF loader (exact segment sizes, strict variant for C15), files,
mmap/munmap, brk-less heap, exit. Scenario inputs: mapping placement, stack
position, alignment, argv/envp, initial registers, residue, **interrupts** (at
every instruction, in a window, periodically, randomly; each overwrites 4–4096
bytes below sp), failing or short system calls, disk capacity, memory limit,
kill points. It watches stores (code, unmapped memory, below sp), system call
numbers, balance of calls, and can drive library functions directly (C16–C18).

One scenario text = one exactly repeatable execution; every check re-executes
its first scenarios twice and compares signatures (`determinism_self_tests` in
the evidence).

`dst/` holds what generates and judges:
`gen.py` (random programs with one defined meaning, as trees that can be
minimised: integers, chars, pointers, arrays, structs, linked lists, function
pointers, enums, typedefs, macros incl. variadic and function-like, conditional
compilation, recursion, switch, all loops, goto-free control flow, variadic
printf, heap use), `dress.py` (spelling: comments, line breaks, spacing,
continuations), `iogen.py` (programs that do I/O), `odd.py` (extreme constants
and characters), `corpus/` (the programs embedded in the repository's test
driver and 203 programs about a single feature each, `features.json`),
`oracle.py` (the host's gcc with a model of the library), `shrink.py`
(minimises program trees, operation histories and fault lists), `runner.py`
(seeds, pool, evidence, replay files, known findings).

A violation is confirmed by a fresh second execution, minimised, written to
`replays/*.json` and printed; `python3 replay.py FILE` reproduces it.

## Properties

Costs are those of the quick tier on 8 cores; the thorough tier runs 12–60
times as many scenarios. All counts are in the evidence files.

"""

P={
"C01":("output and exit status of the host compiler's executable of the same program (generated programs have one defined meaning: no overflow-dependent, uninitialised or unsequenced behaviour; the generator's restrictions are listed below); recorded results for corpus and feature programs","host environment of the compiler, mapping placement, stack position, initial registers, residue, interrupts at random instructions","programs up to a few hundred lines, at most 50 million instructions","the tests run each program once, in one layout of memory, without interrupts; what is wrong only with one placement, one register content or one combination of constructs is out of their reach"),
"C02":("the program's own undisturbed execution: system call history, output, files, status","interrupts at every instruction / window / period / random, 4–4096 bytes overwritten below sp with random data","every instruction of executions up to ~1 million instructions; random points beyond","no test delivers a signal"),
"C03":("the four configurations against each other: normalised system call histories","open/read/write/close/mmap/munmap errors, short reads and writes","histories of some thousand calls","tests compare the final output per target with a fixed string, never under failing calls"),
"C04":("invariants watched by the machine: stores into code or unmapped memory, munmap/mmap over foreign memory, system call numbers, stack depth per call","failing allocations and calls, placement of mappings","as C01; repetition programs call each function up to thousands of times","a wrong store that hits unused memory passes every test"),
"C05":("one calm execution of the same compiler on the same source","heap/stack residue, placement of blocks, stack address, environment, piece sizes of reads and writes, clock, pid, random numbers","sources up to the compiler's capacities","tests run the compiler in one environment; uninitialised reads see zeros there"),
"C06":("the host-built compiler's executable and verdict","machine environment of the self-compiled compiler (mapping placement, registers, residue)","four self-compiled compilers (2 machines × 2 targets, with and without +m), sources up to 6·10^9 instructions; bootstrap for both","the tests bootstrap one source once"),
"C07":("the undisturbed executable, compared whenever success is reported","open/write/close errors at any call, short writes, full disk at any byte","every nth write of the sampled sources","tests never fill a disk"),
"C08":("the undisturbed executable, compared whenever success is reported","open/read errors at any call, missing, unreadable files, short reads","inclusion trees up to depth 200","as C07"),
"C09":("state of the simulated disk before and after","rejection by every kind of diagnostic, damaged sources, failing reads and writes","every file on the simulated disk is compared byte by byte","tests look at the output file only"),
"C10":("the undisturbed executable; byte-exact heap bounds and the address sanitizer","the nth allocation fails, all from the nth on, memory limits; failing mappings for the self-compiled compiler","one failing point per run, sampled over all allocations","allocations do not fail in tests"),
"C11":("invariants: bound on steps linear in the size, memory bounds, a strict loader on every output","torn, lost, repeated, overwritten, exchanged blocks, flipped bits, lost tokens","sources up to some 10 kB (damage), 120·10^6 + 4000 per byte steps","tests use whole sources"),
"C12":("state of the disk and the undisturbed executable","kill at any basic block / instruction / call, up to three times in a row","kill points sampled, uniformly in steps and at every kind of call","no test kills the compiler"),
"C13":("the executable of the source in one piece","random trees of inclusions, spellings of paths, read pieces, comments of any length","depth up to 200, paths up to 1200 characters","the tests have almost no inclusions"),
"C14":("the executable of the plain command line","closed, failing, short standard output; dump files that cannot be opened, written, closed; little disk space; option orders","as C05","dumps are tested for their content only"),
"C15":("what Python computes from argv, envp and the way of ending; a strict ELF reader","initial stack contents and alignment, registers, residue, mapping placement, interrupts","argument vectors up to some hundred strings","qemu ignores most of the header; tests pass no arguments"),
"C16":("invariants over the history of blocks, kept by the machine and the driver","mapping placement, failing mappings, interrupts","histories up to some hundred operations, blocks up to 1 MB","tests allocate a handful of blocks"),
"C17":("reference model of files and formats in Python","failing open/write/close, full disk, short writes, interrupts","histories up to some dozens of operations on several files","tests compare standard output only"),
"C18":("reference model of files in Python","failing or interrupted reads and opens","as C17","tests read no files"),
}

TAIL = r"""## Not applicable

C19, C20, C21: nothing a scheduler, fault injector or environment decides takes
part in them; they are pure functions of a source text or of a format and its
values (MANIFEST.json has the reason for each). What is variable about them is
decided elsewhere: C05/C09/C11 (verdicts do not depend on the environment,
rejection touches nothing, damaged sources end), C17 (formatted output under
faults), C11 (nothing is written beyond the tables).

## What the generated programs leave out

Restrictions of the language shecc accepts, or differences from C that are
about acceptance (C19) and not about meaning: unbracketed nested `?:`, `p + a *
b` on pointers, string literals longer than about 200 characters, `*p = x;` as
a statement, `++a[i]` in expressions, assignments inside expressions, `- -a`,
`(void)` parameter lists, unknown escapes, global initialisers with `& | ^ ~ !`
or of pointers and arrays, several globals in one declaration, anonymous enums
without typedef, negative case labels, `#define N -5`, `!` and brackets in
`#if`, `struct x` without typedef in local declarations, casts, `**q`,
`sizeof(var)`, comma expressions, function pointers other than structure
members, identifiers of 32 or more characters, macro parameters as the target
of an assignment, directives inside case bodies, macro arguments with calls,
`default` before other labels. Inclusion lines inside comments or inactive
conditional sections are taken as inclusions by the compiler; C13 does not
generate them. Programs that meet one of the compiler's capacities are skipped
(counted in the evidence).

## Defects found

Every genuine defect the checks reported is in `known_findings.txt`: 50-odd
`fixed:` lines with the commit in /repo, and the findings KF1–KF13 that are
recorded and not repaired.

- KF1, KF2, KF3, KF4, KF5, KF6 are in `lib/c.c`. The repository's stable tests
  contain snapshots of the control flow graphs of all functions of `lib/c.c`
  (also unused ones), so that no line of control flow in that file can change
  without failing them. They are matched by the exact call and history that
  shows them (iodrv/c16 models them; a different loss is still a violation).
- KF7–KF13 are about the language (char variables are not truncated, assignment
  to a local after its address was taken, structure assignment copies four
  bytes, pointer difference, adjacent string literals, NUL in a string literal,
  calls through a local function pointer): repairing them means new code
  generation for types the compiler does not track, beyond a small safe fix.
  They are matched by the exact source text of `known/KF*.json`; the generator
  avoids these constructs otherwise.

KF1 has a consequence for planting bugs: the self-compiled compiler overwrites
its older output without truncating it, so a change that makes the compiler's
own code smaller fails the repository's own bootstrap comparison in an
incremental build. Planted changes must not shrink the generated code.

## False alarms corrected

- C11 had a fixed bound on steps; long sources with many labels need more. The
  bound is now linear in the size of the source.
- C12 compared dump files with those of an undisturbed run; dumps contain
  addresses of heap objects, so they are compared for existence only.
- C01: eleven expected outputs of the corpus lacked the final newline.
- The reference compiler turns `x - a / (n + 1)` into `x + a / -(n + 1)` at
  `-O0 -fwrapv`, which traps for INT_MIN / -1; such divisors are not generated.
- The simulator's own limits (arena for heap blocks, number of open files,
  length of paths) were met by long inclusion chains; they were raised above
  what the compiler can reach, and meeting one is reported as an error of the
  check, never as a verdict.
- The self-compiled compiler needs over a gigabyte of address space for the
  bootstrap: mapping placements that break up the address space are not used
  there.
- C02 first reported the compiler's old ARM calling sequence, which kept the
  return address below the stack pointer: that was a genuine defect and is
  fixed (b99c2ca).

## Planted bugs

`seeded/` holds changes that compile, pass all 842 stable tests and break one
property, each with a demonstration. Which quick check catches which:

@TABLE@

Tried and rejected, because the stable tests or the bootstrap notice them or
because they cannot be made to manifest: c03-riscv-div, c01-fold-shift,
c01-riscv-offset, c01-stale-alias, c01-live-fixpoint, c14-dump-peephole,
c01-arm-frame (shrinks the code, KF1), c01-dce-rdf, c05-symbol.

What the planted bugs taught the checks: bare variables and constants at the
edge of instruction formats (c01-zero-shift, c03-riscv-lt), byte arrays with a
global for subscript (c01-cse-global), the same file included again for its
effect (c13-once), descriptors closed at start and given to files
(c14-summary), pages that end right behind the loaded part (c15-filesz).

## Hooks

None in /repo. All seams are the C library below the compiler and the machine
below the compiled program.
"""

out = [HEAD]
props = {}
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    props[p["id"]] = p
for k in sorted(P):
    c = runner.load(k)
    o, f, b, w = P[k]
    out.append("### %s %s\n\n%s\n\n- **Run**: %s\n- **Oracle**: %s.\n- **Decided by the scheduler / injected**: %s.\n"
               "- **Bounds**: %d scenarios quick, %d thorough; %s.\n- **Beyond the tests because**: %s.\n\n" % (
                   k, props[k]["title"], props[k]["statement"], c.rule, o, f, c.count("quick"), c.count("thorough"), b, w))
table = ["| change | breaks | needs | caught by (quick) |", "|---|---|---|---|"]
caught = {}
for line in open(V + "/tools/caught.txt"):
    b, _, t = line.strip().partition(" ")
    caught[b] = t
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, b)))
    table.append("| %s | %s: %s | %s | %s |" % (b, m["property"], m["what_it_breaks"], m["needs"], caught.get(b, "-")))
out.append(TAIL.replace("@TABLE@", "\n".join(table)))
open(V + "/DESIGN.md", "w").write("".join(out))
