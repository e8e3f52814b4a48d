#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ISA = "bounded exhaustive enumeration of programs, lockstep against an explicit-state reference model of the ISA"
ASM = "bounded exhaustive enumeration of source texts, each assembled by the real code and compared with an explicit reference model of the language"
LIM = "bounded exhaustive enumeration of (program, architecture, limit), each run by the real tool and compared with the reference cycle count"
CLI = "bounded exhaustive enumeration of programs and option combinations, each run by the real tool and compared with a reference model of its report"
DBG = "explicit-state exploration of a session model, every transition replayed against the real debug server over its socket; all request sequences to a stated depth"
T = {
 "C01": (ISA, "Every program of the enumerated families (all instruction forms x registers x boundary values, all sequences to a stated length, sweeps of all addresses, tours with every instruction and transfer at every address, condition codes over pairs of operations, ends of memory, long loops) is executed by the real ISA simulator and its final state compared with an independently written reference. Trusts the reference model; constants beyond the alphabets (which include every numeric literal of the sources) are not covered."),
 "C02": (ISA, "All 65536 first-two-byte combinations with extreme operands, register contents and placements (also across the end of memory) and all boundary accesses are run; verdict result/error/no crash compared with the reference. Whole-memory images are bounded to one interesting instruction plus surroundings."),
 "C03": (ISA, "Every cycle of seq_std on all programs of the families (those of C01 and more, tours through all addresses included) compared with the reference: pc, registers, stores, condition codes, termination."),
 "C04": (ISA, "As C03 for seq_plus_std, including all sequences of control transfers up to length 5 (quick) or 6."),
 "C05": (ISA, "Every cycle of pipe_std on all sequences over a 31-symbol hazard alphabet to length 4 (quick) or 5, all producer/consumer/distance/register combinations and two-producer priorities, tours through all addresses, ends of memory; every register-file state must be a state of the reference execution, in order."),
 "C06": (ISA, "Every not-taken branch and return with all pairs (thorough: triples) of 21 junk instructions on the wrong path, all conditions and codes, surroundings, and targets outside memory; the reference never executes the wrong path."),
 "C07": (ISA, "All combinations of instructions before, 20 stopping instructions and instructions behind, and every kind of stop at every address, on all three architectures; registers, memory and condition codes at the stop compared with the reference."),
 "C08": (ISA, "All first-two-byte combinations (quick: function codes below 8), boundary addresses, fetch addresses and every kind of stop at every address, on all three architectures; status compared with the reference; overflow checks and debug assertions on, so any crash is seen."),
 "C09": (ISA, "Cycle counts of all sequences over the hazard, branch, return and transfer families and of tours through all addresses compared with the timing formula evaluated by the reference model."),
 "C10": ("exhaustive exploration of evaluation orders: every pair of independent nodes of each circuit in both orders, all linear extensions of small circuits, each run on the real simulator and compared in every cycle", "All nodes of the three built-in circuits as early and as late as their dependencies allow, on two base orders, for ~140 programs (chained snippets of all families, every way to stop); ~45 generated architectures; every order of three small circuits (one of them: 1M of 7.2M in quick). Runs are repeated in the process and in 12 (48) processes: hash seeds of a process cannot be enumerated. Not every pair is swapped in every context."),
 "C11": ("exhaustive enumeration of circuits (all edge sets over a shape, all interleavings of names, several call orders), each built by the real code and compared with the definition", "All edge sets up to 2^16 (thorough 2^20) over 20 (27) shapes of units, ports, signals and undeclared names; every node declared twice; chains, ladders and fans of every length to 40 (120) nodes and around 256, chains and ladders of 1100 (4200); 95 compiled architectures, among them 45 with a cycle or open input through every place an expression can stand."),
 "C12": ("exhaustive enumeration of HCL definitions compiled by the real macro, each run in lockstep with an independent interpreter of its text over all input valuations of an alphabet and all short histories", "2140 expressions (all with 2-3 operands, brackets and negations; 4-6 operands partly), 192 case lists, every combination of destinations in both notations; 16 boolean x 256 x 8 x 7 byte valuations and boundary words; all histories of length 2 (3) over 48 valuations for architectures with registers. Large descriptions (sets of 66 names, 110 cases, chains of 66 operands, 36 destinations, 40 units, 160 signals in a chain, 14 stages, 60 fields). `!` on numbers and case lists without a match are outside."),
 "C13": ("explicit-state enumeration of register contents, inputs and controls, and of all control histories to a stated length, on the real registers in lockstep with a model", "Declared registers: every (old, input, control, leftover control) over 2-3 values per field; a compiled architecture with three stages: all histories of 27 controls to length 4 (5) and of 48 (with stall and bubble at once) to length 3 (4); 14 stages, and 60 fields in one; every clock edge of the built-in architectures on ~140 programs."),
 "C14": (ASM, "All instruction forms x all registers x boundary constants and label kinds x spacing variants, assembled by the real assembler and compared byte for byte with an independent encoder; spacing bounded to the listed variants. Every 64-bit literal x every instruction with a constant x registers; all triples of mnemonics. Labels of every boundary value up to 2^64 in every position."),
 "C15": (ASM, "All source files of a stated number of lines over a layout alphabet (labels, directives with boundary operands, instructions), all ordered pairs of near-equal label names, files with thousands of labels, compared with a reference layout: every memory byte and every line address."),
 "C16": (ASM, "All literals of a bounded grammar around every width and sign boundary in every position where a number is allowed, plus all strings of six (seven) literal characters."),
 "C17": (ASM, "All token sequences up to a stated length, all single-character edits of a set of base programs, and all short strings over the character alphabet, and texts of 70,000 lines and more than 1 MiB; accept/reject verdict and crash freedom compared with a reference recogniser. Inputs where the language leaves the verdict open are only checked for crashes."),
 "C18": (ASM + "; the listing is reloaded and executed by the real tools and their output compared with the reference", "In process: all sources of the C15 families plus line styles x contents x file shapes, listing compared line by line. Through yas and yis: all pairs of lines over a layout alphabet, with a program that dumps the region, and listings filling memory. All single-character edits of two listings (quick: front columns, 24 characters) for refusal. Edits where the format leaves the verdict open are only checked for crashes."),
 "C19": (DBG, "All states of the session model reachable within a depth x 70 requests (every protocol command, valid, invalid and optional arguments), all request sequences to a stated length, the same sent in one piece and cut at every byte, all closing points of a session, on the three architectures; every response, event, sequence number and the state shown afterwards compared with the model. Requests that do not decode as protocol requests are outside."),
 "C20": (DBG, "All sets of up to two breakpoint lines (also lines outside the file) x starting cycle x cycle limit for twelve programs, all sequences of next/continue/setBreakpoints/launch to length 4-5, refused requests of every kind between the breakpoints and the run, and every breakpoint line of several hundred generated programs, stops after more than 65,536 cycles, a file of 70,000 lines, up to 1,000 breakpoints at once, against the predicted stopping cycle from a plain simulation."),
 "C21": (DBG, "Every stop of every session compared with a plain simulation at the same cycle: registers, every stage signal, line, scopes, sources; 136 constants must be shown in full; thirteen hand-made and several hundred generated programs x three architectures, every cycle, and all session states to a depth including relaunches; files rewritten between two launches, in the same and in another session; stops after more than 65,536 cycles and on lines beyond 65,536. The plain simulation is the same library in another process."),
 "C22": ("all interleavings of two and three concurrent sessions against the real server, each checked against the single-session model", "All interleavings (at request granularity) of all pairs of nine session scripts and of three shortened ones, pairs with requests in flight together at every offset, 23 kinds of misbehaving client x every entry and exit point x three ways to leave, 300 (thorough 800) sessions at once, more clients than the server may open files for at every position of a session, a session running without end next to others. Interleavings inside the server below the granularity of a request are scheduled by the operating system and not controlled."),
 "C23": (LIM, "Every program of a family (1-16 instructions, loops, faults, non-halting) x three architectures x every limit around the stopping cycle, 0-7 and extreme values, as runs of the real ysim; exit status compared with the reference cycle count. The same programs in the real debugger: every limit up to 24 (quick), around 2^15 to 2^20 with programs that run that long, and from 2^31 to 2^64 - 1, continuing from every interesting cycle."),
 "C24": (CLI, "Every instruction form with boundary values in batches, all endings (halt, each invalid byte, each fault), file name x output option x source x verbosity x pre-existing output; the complete output is compared with the report derived from the reference run."),
 "C25": ("exhaustive enumeration of input histories to a stated length, each executed by the real units and compared in every cycle with an explicit-state reference", "Both hardware sets: all inputs of the stateless units over boundary alphabets after poisoned outputs and all pairs of inputs; every address and first byte for the instruction memory; all register-number combinations, all histories of register, condition-code and memory operations to length 3-6, all histories over a mixed alphabet of 22 operations to length 5 (quick) or 6. Values outside the alphabets are not covered."),
 "C26": ("exhaustive enumeration of programs, each given to the real tester, whose verdict is compared with the final states of plain runs", "All sequences of up to 3 (quick) or 4 instructions over a 23-symbol alphabet with agreements, faults and extensions; pairs that differ in exactly one bit of one register, or in exactly one byte of memory at every address; programs around the cycle limit. Programs on which the ISA simulator never ends are outside."),
 "C27": ("exhaustive enumeration of driving schedules and of interleavings of two simulators on the real code, compared in every cycle with the plain execution", "All sequences of four ways to drive the first 5 (quick) or 6 cycles of ~130 short programs, periodic patterns on several hundred long programs, printing on and off, all sequences of six (eight) operations after the end, all interleavings of 10-12 cycles of two simulators; the count over 2^20 (2^24) cycles. Terminal output itself is C24's."),
 "C28": ("exhaustive enumeration of circuits, architecture descriptions and programs, each listing, graph and per-cycle report of the real tools compared with a model of the structure and of the instructions held", "All edge sets over the C11 shapes (listing and graph); 32 generated architectures with titles in every subset of gaps; ysim -I of the built-in ones; every cycle of all sequences over an alphabet of hazards, branches, returns and exceptions, heading, cost, condition codes, signals and pipeline table; 136 constants must be shown in full. Graph layout and wording are open."),
 "C29": ("exhaustive enumeration of sets of files, each built into the real tools, whose lists of names and runs are compared with an explicit model", "All subsets of four architecture files with and without seven kinds of other files, and sets with all names, one architecture with 13 sections (quick: 19 builds); thorough: all subsets of six counters and of three copies, each kind of other file alone (96 builds). Names that are Rust keywords or built in are outside."),
}
checks = []
for k, (tech, note) in T.items():
    checks.append({"property": k, "quick_cmd": f"bash check.sh {k} quick", "thorough_cmd": f"bash check.sh {k} thorough",
                   "technique": tech, "level": "model_checking", "level_note": note})
ids = [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash build.sh mc hook bins", "hooks": {"guard": "cfg(y86_verif), set with RUSTFLAGS='--cfg y86_verif'", "enable": "bash build.sh hook (sets the cfg and Y86_VERIF_INC=/verif/hook/gen.rs, builds into /verif/build/hook)", "source_commits": ["d95ff952499588538a064725153082b806c0ce7a"]},
     "checks": checks,
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in T]}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
