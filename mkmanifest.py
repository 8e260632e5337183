#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per property with a check in checks/."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
RV = "runtime monitoring: "
TECH = {
 "C01": (RV + "generated expressions compiled by the real scc (part of them by an ASan/UBSan build), run on an instrumented 8086 and compared value by value with an independent interpreter", "every statement's value and all side effects are observed; sampled, biased to boundary values"),
 "C02": (RV + "generated control-flow graphs compiled and executed on an instrumented 8086; online monitor of SP/BP/returns, trace compared with an interpreter", "sampled control-flow shapes and jump distances"),
 "C03": (RV + "generated object layouts and access paths executed on an instrumented 8086, whole objects and guard bytes compared with a byte-level memory model", "sampled layouts"),
 "C04": (RV + "generated call graphs executed with a shadow call stack monitor; argument slots, SP/BP and results compared with an interpreter", "sampled call graphs"),
 "C05": (RV + "generated scopes, tags, enumerators and initialisers executed and compared with a reference resolver; addresses checked against the map", "sampled programs"),
 "C06": (RV + "offline checker over image, map and execution of generated programs; recompilation under other names and directories", "sampled programs"),
 "C07": (RV + "metamorphic monitor: re-laid-out sources must give the identical image; literals against a reference lexer", "sampled layouts, every 512-byte buffer phase of sampled tokens"),
 "C08": (RV + "ASan/UBSan builds of scc under mutation fuzzing and limit-boundary programs, with a monitor of exit status and termination", "sampled inputs, every limit at N-1, N, N+1"),
 "C09": (RV + "differential execution of the tools as .com files on an instrumented 8086 against their host builds, including the self-hosting fixpoint", "sampled inputs"),
  "C10": (RV + "wrong programs made from generated correct ones (forbidden pieces, unknown characters, gcc-confirmed syntax errors) given to plain and sanitized builds of scc; monitor of status, diagnosed line and output file", "sampled programs, places and errors"),
 "P01": (RV + "generated macro programs run through the real scpp (a quarter under ASan/UBSan); an offline monitor compares the emitted tokens of every use with an independent preprocessor (gcc's)", "sampled"),
 "P02": (RV + "generated conditional trees checked against an independent evaluator", "sampled"),
 "P03": (RV + "generated include trees checked against an independent preprocessor", "sampled"),
 "P04": (RV + "generated token streams checked token by token against an independent lexer, every buffer phase", "sampled"),
 "P05": (RV + "ASan/UBSan fuzzing of scpp and long define/use/undef histories with a token-pool conservation monitor", "sampled"),
 "S01": (RV + "enumerated and generated instructions assembled by the real sas and judged by nasm/ndisasm as an independent oracle", "all forms enumerated, operand values sampled"),
 "S02": (RV + "generated label programs judged by an independent assembler model", "sampled"),
 "S03": (RV + "generated data programs judged by an independent assembler model", "sampled"),
 "S04": (RV + "ASan/UBSan fuzzing of sas with a monitor of exit status and termination", "sampled"),
 "M01": (RV + "lock-step monitor: the -v trace of the real sim86 is checked step by step against an independent 8086 core", "all implemented opcodes, operand values sampled"),
 "M02": (RV + "generated DOS programs; an offline checker compares output, files, results and exit status with a DOS model", "sampled"),
 "M03": (RV + "the -v trace and -p report of the real sim86 are checked against the access log of an independent core", "sampled"),
 "M04": (RV + "sim86.com on an instrumented 8086 against the host sim86", "sampled"),
 "M05": (RV + "ASan/UBSan fuzzing of sim86 with hostile programs, maps, options and arguments; differently built simulators compared", "sampled"),
 "F01": (RV + "fault injection into every file operation (wrapped calls, kernel limits, failing DOS calls on the instrumented 8086), with a monitor of status, diagnostics and outputs; ASan/UBSan builds", "every operation of each run, inputs sampled"),
 "L01": (RV + "generated lib.h programs run on the host and, compiled by scpp and scc, on an instrumented 8086", "sampled"),
 "W02": (RV + "frame buffer of swar.com on the instrumented 8086, and every picture of the Windows version under ASan/UBSan with a stand-in API, compared with an independent model of the rules", "sampled start times and key histories"),
 "W01": (RV + "swar.com on an instrumented 8086 with random key scripts; memory-write, stack and termination monitors", "sampled key sequences"),
}
checks, na = [], []
for p in props:
    f = "checks/%s.py" % p.lower()
    if os.path.exists(os.path.join(HERE, f)):
        checks.append(dict(property=p, quick_cmd="python3 " + f, thorough_cmd="VERIF_TIER=thorough python3 " + f,
                           technique=TECH[p][0], level="exploration", level_note=TECH[p][1]))
    else:
        na.append(dict(property=p, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
               notes="No hooks were needed in /repo: every monitor sits outside the tools (reference CPU, sanitizer builds, offline checkers)."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
