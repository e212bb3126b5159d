#!/usr/bin/env python3
"""One check: build the simulator of a property from /repo's working tree, search seeds, report.

  check.py <property> [quick|thorough]     exit 0: held on everything explored, 1: VIOLATION line printed
  check.py --replay <file> [-v]            repeats a replay file; exit 1 if the violation repeats exactly
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import nbbuild  # noqa: E402

# property: binary, quick (runs, seconds), thorough (runs, seconds)
PLAN = {
    "C01": ("nbsim_store", (10 ** 7, 60), (10 ** 9, 1500)),
    "C02": ("nbsim_store", (10 ** 7, 60), (10 ** 9, 1500)),
    "C03": ("nbsim_store", (10 ** 7, 60), (10 ** 9, 1500)),
    "C04": ("nbsim_store", (10 ** 7, 60), (10 ** 9, 1500)),
    "C05": ("nbsim_store", (10 ** 7, 60), (10 ** 9, 1500)),
    "C06": ("nbsim_store", (10 ** 7, 60), (10 ** 9, 1500)),
    "C07": ("nbsim_store", (10 ** 7, 60), (10 ** 9, 1500)),
    "C08": ("nbsim_store", (10 ** 7, 60), (10 ** 9, 1500)),
    "C09": ("nbsim_asan", (10 ** 7, 60), (10 ** 9, 1500)),
    "C10": ("nbsim_omp", (10 ** 7, 110), (10 ** 9, 1500)),
    "C11": ("nbsim_omp", (10 ** 7, 110), (10 ** 9, 1500)),
    "C12": ("nbsim_omp", (10 ** 7, 110), (10 ** 9, 1500)),
    "C13": ("nbsim_omp", (10 ** 7, 110), (10 ** 9, 1500)),
    "C14": ("nbsim_omp", (10 ** 7, 110), (10 ** 9, 1500)),
    "C15": ("nbsim_omp", (10 ** 7, 110), (10 ** 9, 1500)),
    "C20": ("nbsim_cl", (10 ** 7, 100), (10 ** 9, 1500)),
    "C21": ("nbsim_cl", (10 ** 7, 100), (10 ** 9, 1500)),
    "C22": ("nbsim_cl", (10 ** 7, 100), (10 ** 9, 1500)),
    "C44": ("nbsim_cuda", (10 ** 7, 60), (10 ** 9, 1500)),
    "C46": ("nbsim_cuda", (10 ** 7, 60), (10 ** 9, 1500)),
    "C30": ("nbsim_player", (10 ** 7, 70), (10 ** 9, 1500)),
    "C31": ("nbsim_player", (10 ** 7, 70), (10 ** 9, 1500)),
}
WORKERS = 8
# workers that run the same search with the code under test built with address and undefined-behaviour sanitizers
ASAN_WORKERS = {"C06": 4}


def binaries(prop):
    b = PLAN[prop][0]
    n = ASAN_WORKERS.get(prop, 2) if b == "nbsim_store" else 0
    return [b] * (WORKERS - n) + ["nbsim_asan"] * n


def known_findings(prop):
    """Lines 'finding: property=<id> class=<class> match=<regex> -- <text>' of the committed file."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=(.*?) -- (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def sim(binary):
    return os.path.join(nbbuild.BUILD, binary)


def replay_cmd(path, verbose=False):
    f = json.load(open(path))
    return [sim(f.get("binary", PLAN[f["property"]][0])), "replay", "--file", os.path.abspath(path), "--verbose", "1" if verbose else "0"]


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        f = json.load(open(sys.argv[2]))
        if not nbbuild.build([f.get("binary", PLAN[f["property"]][0])]):
            return 2
        return subprocess.run(replay_cmd(sys.argv[2], "-v" in sys.argv)).returncode
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    binary, quick, deep = PLAN[prop]
    runs, limit = quick if tier == "quick" else deep
    limit = float(os.environ.get("NBSIM_TIME", limit))
    t0 = time.time()
    if not nbbuild.build(sorted(set(binaries(prop)))):
        print(f"check {prop}: the simulator does not build from {nbbuild.REPO}")
        return 2
    t_build = time.time() - t0
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    scratch = tempfile.mkdtemp(prefix="nbcheck.", dir=base)
    env = dict(os.environ, NBSIM_SCRATCH=scratch)
    try:
        return run(prop, tier, seed, binary, runs, limit, scratch, env, t0, t_build)
    finally:
        subprocess.run(["chmod", "-R", "u+rwX", scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(scratch, ignore_errors=True)


def run(prop, tier, seed, binary, runs, limit, scratch, env, t0, t_build):
    info = json.loads(subprocess.run([sim(binary), "info"], stdout=subprocess.PIPE, env=env).stdout)[prop]
    procs = []
    bins = binaries(prop)
    for w in range(WORKERS):
        out = os.path.join(scratch, f"w{w}.json")
        cmd = [sim(bins[w]), "explore", "--prop", prop, "--seed", str(seed), "--start", str(w), "--stride", str(WORKERS),
               "--runs", str(runs), "--time", str(limit), "--tier", tier, "--out", out, "--selfcheck", "50" if tier == "quick" else "200"]
        procs.append((out, subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=open(os.path.join(scratch, f"w{w}.err"), "w"))))
    res, lost = [], 0
    for w, (out, p) in enumerate(procs):
        p.wait()
        try:
            res.append(json.load(open(out)))
            for v in res[-1]["violations"]:
                v["binary"] = bins[w]
        except (OSError, ValueError):
            lost += 1
            sys.stderr.write(open(out[:-5] + ".err").read()[-2000:])
    if lost == WORKERS:
        print(f"check {prop}: no worker finished")
        return 2
    tot = lambda k: sum(r[k] for r in res)
    merge = lambda k: {n: int(sum(r[k].get(n, 0) for r in res)) for n in sorted({n for r in res for n in r[k]})}
    sigs = set().union(*[set(r["sigs"]) for r in res])
    hashes = set().union(*[set(r["hashes"]) for r in res])
    wall = max(r["wall_s"] for r in res)
    counters = merge("counters")
    faults = {k[6:]: v for k, v in counters.items() if k.startswith("fault:")}
    viols = sorted((v for r in res for v in r["violations"]), key=lambda v: v["index"])

    known = known_findings(prop)
    reported, seen, findings, unrepeatable = [], set(), set(), []
    rdir = os.path.join(VERIF, "replays")
    for v in viols:
        hit = next((k for k in known if k[0] == v["class"] and k[1].search(v["message"])), None)
        if hit:
            findings.add(hit[2])
            continue
        if v["class"] in seen or len(reported) >= 3:
            continue
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{v['class']}-{v['seed']}.json")
        budget = 40 if not reported else 15
        s = subprocess.run([sim(v["binary"]), "shrink", "--prop", prop, "--runseed", v["seed"], "--tier", tier, "--time", str(budget), "--out", path],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ok = False
        if s.returncode == 0:
            f = json.load(open(path))
            f["binary"] = v["binary"]
            json.dump(f, open(path, "w"), indent=1)
            r = subprocess.run([sim(v["binary"]), "replay", "--file", path], env=env, stdout=subprocess.PIPE, text=True)
            sys.stdout.write(s.stdout + r.stdout)
            ok = r.returncode == 1
        if not ok:
            # not exactly repeatable (e.g. the defect reads memory it never wrote): accept only if fresh processes agree
            rcs = [subprocess.run([sim(v["binary"]), "one", "--prop", prop, "--runseed", v["seed"], "--tier", tier], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                   for _ in range(3)]
            if all(f"violated=1 " in x.stdout for x in rcs):
                json.dump({"property": prop, "binary": v["binary"], "run_seed": v["seed"], "thorough": tier == "thorough", "exact": False, "class": v["class"],
                           "message": v["message"], "trace": rcs[0].stdout.splitlines()[-400:]}, open(path, "w"), indent=1)
                ok = True
            else:
                unrepeatable.append(v["seed"])
        if ok:
            seen.add(v["class"])
            reported.append((path, v))
    for f in sorted(findings):
        print(f"KNOWN-FINDING: property={prop} {f}")
    for path, v in reported:
        print(f"  seed {v['seed']}: [{v['class']}] {v['message'][:600]}")
        print(f"VIOLATION property={prop} replay={path}")

    evaluations = int(tot("runs"))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(sigs),
            "rule": info["rule"],
            "samples": [s for r in res for s in r.get("samples", [])][:3],
            "simulated_runs_per_hour": int(evaluations / wall * 3600) if wall else 0,
            "seeds_per_hour": int(evaluations / wall * 3600) if wall else 0,
            "simulated_seconds": round(tot("sim_time"), 6),
            "events": int(tot("events")),
            "distinct_histories_by_event_hash": len(hashes),
            "distinct_interleavings_or_fault_histories_by_signature": len(sigs),
            "faults_injected": faults,
            "runs_with": merge("runs_with"),
            "other_counts": {k: v for k, v in counters.items() if not k.startswith("fault:")},
            "fault_kinds_available": info["fault_kinds"],
            "real_code": info["real"],
            "stubs": info["stub"],
            "skipped_runs": int(tot("skipped")),
            "slow_runs_repeated_with_more_time": int(tot("slow_runs_repeated")), "slowest_run_s": round(max(r["slowest_run_s"] for r in res), 2),
            "determinism_selfchecks": int(tot("selfchecked")),
            "determinism_mismatches": int(tot("mismatches")),
            "unrepeatable_violations_not_reported": unrepeatable,
            "workers": WORKERS, "workers_with_sanitizers": bins.count("nbsim_asan"), "workers_lost": lost, "search_wall_s": round(wall, 2), "build_wall_s": round(t_build, 2),
        },
        "assumptions": ["the simulated runtime (see stubs) behaves like the real one where the properties depend on it",
                        "seeded sampling: schedules and fault sequences that were not drawn are not covered"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(reported),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"check {prop} {tier}: {evaluations} runs, {len(sigs)} distinct signatures, {sum(faults.values())} faults, {tot('sim_time'):.1f} simulated s, "
          f"{int(tot('mismatches'))} mismatches of {int(tot('selfchecked'))} repeats, {len(reported)} violations, {time.time() - t0:.0f} s")
    if not reported and evaluations and int(tot("skipped")) >= evaluations:
        print(f"check {prop}: every run was outside the simulated domain, no answer")
        return 2
    return 1 if reported else 0


if __name__ == "__main__":
    sys.exit(main())
