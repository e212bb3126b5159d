#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the plan in check.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check, nbbuild
have = nbbuild.generate()
NOTE = {
 "nbsim_store": "Seeded sampling of kill points, torn writes, disk faults, access histories and interleavings at file-operation granularity; the real stream, data, solver, engine and program code runs, the file system calls go through a simulated disk policy. Assumes that what a completed write() call stored survives the death of the process (power loss is out of scope: the code never syncs).",
 "nbsim_asan": "Seeded sampling of the allocation that fails and of what fails after it, in whole-program runs of the real code built with address sanitizer; allocations inside Qt and the C library are not made to fail.",
 "nbsim_omp": "Seeded sampling of thread and task interleavings at the granularity of instrumented memory accesses and OpenMP runtime calls under a simulated OpenMP runtime; sequentially consistent memory only.",
 "nbsim_cl": "Seeded sampling of device counts, command orders, delays and API failures under a simulated OpenCL runtime that compiles the repository's kernels for the CPU; no real GPU, no vendor driver.",
 "nbsim_cuda": "Seeded sampling of device lists, command orders, delays and API failures under a simulated CUDA runtime; the engines and kernels of the repository are compiled for the CPU (launch syntax rewritten); no real GPU, no NCCL, no device-side floating-point differences.",
 "nbsim_player": "Seeded sampling of worker interleavings, user actions, animation ticks and I/O errors with the real player and recorder code under a simulated thread pool and animation clock; the OpenGL view is a stub that records what it is given.",
}
na = {
 "C40": "No schedule, time, I/O or multi-party behaviour is involved: convergence order is a numerical-analysis statement about a sequential function; no fault or interleaving can decide it.",
 "C42": "A statement about all body sets and opening ratios of a sequential approximation; no schedule, fault or crash point is quantified over.",
 "C43": "Argument parsing is a pure function of the command line; simulation adds nothing to it.",
 "C45": "Needs an OpenGL implementation to render with; the drawing is a sequential function of the bodies with no concurrency or I/O to simulate.",
}
checks, not_app = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in check.PLAN and check.PLAN[i][0] in have:
        b = check.PLAN[i][0]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
            evidence_file=f"evidence/{i}.json", technique="deterministic simulation with fault injection, seeded search",
            level="exploration", level_note=NOTE[b]))
    else:
        not_app.append(dict(property=i, reason=na.get(i, "The simulator for this property is not built yet.")))
m = dict(version=1, setup_cmd="python3 tools/nbbuild.py", hooks=dict(guard="none", enable="no hooks were needed in /repo: every seam is a library or system-call boundary (libc, libgomp, OpenCL, CUDA, Qt)", source_commits=[]),
    checks=checks, not_applicable=not_app, notes="Replay a reported file with: python3 check.py --replay <file> -v")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
