#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PS = "deterministic simulation with fault injection: seeded random programs and kernels, real compiler, runtime and program on a simulated kernel (ptrace SYSEMU), "
T = {
 "C01": (PS + "history refinement against a reference interpreter", "seeded search over programs and environments"),
 "C02": (PS + "equality of histories across optimisation levels, debug info and staged builds", "seeded search; builds judged against each other"),
 "C03": (PS + "equality of histories between one-file and divided builds", "seeded search over programs, partitions, stages and orders"),
 "C04": (PS + "partial and failing writes, exactly-once in-order delivery against the reference", "seeded search over output sequences and write faults"),
 "C05": (PS + "short, ended and failing reads, exact read sequence against the reference", "seeded search over inputs and read faults"),
 "C06": (PS + "every kernel result for nread and nwrite, exact attempts against the reference", "seeded search over attempts and results"),
 "C07": (PS + "ends of programs under failing input and output against the reference", "seeded search; foreign system calls, crashes and hangs are violations"),
 "C08": (PS + "long loops on a stack bounded by the reference's call depth", "seeded search; leaks under about 6 bytes per iteration escape"),
 "C09": (PS + "calls, recursion and locals on junk-filled stack and registers against the reference", "seeded search over call graphs"),
}
try:
    import mkpipe
    T.update(mkpipe.T)
except ImportError:
    pass
NA = json.load(open(os.path.join(here, "tools", "not_applicable.json")))
m = {"version": 1, "setup_cmd": "sh ./setup.sh", "checks": [
    {"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
     "technique": t, "level": "exploration", "level_note": n} for p, (t, n) in sorted(T.items())],
    "not_applicable": NA}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
