#!/usr/bin/env python3
"""Decides one property by seeded simulation:  check.py C02 [--tier quick|thorough]   or   check.py --replay FILE

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken, minimised and replayed twice.
Exit 2: the check itself failed (build error, violation that does not reproduce, nondeterminism)."""
import json, os, pathlib, re, shutil, subprocess, sys, tempfile, time
import simbuild

VERIF = pathlib.Path(__file__).resolve().parent
WORKERS = int(os.environ.get("SIM_WORKERS", "8"))
import props as P

class NotReproduced(Exception):
    pass

def fail(msg):
    print("check error: " + msg, file=sys.stderr)
    sys.exit(2)

def known_findings(prop):
    """Lines 'finding: property=<id> class=<class> <what fails>'; 'fixed:' lines suppress nothing."""
    out = []
    for l in (VERIF / "known-findings.txt").read_text().splitlines():
        m = re.match(r"finding: property=(\S+) class=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3)))
    return out

def workers(exe, part, seed, count, secs, tmp, known, cpu):
    procs = []
    for w in range(WORKERS):
        cmd = [str(exe), "--prop", part, "--seed", str(seed), "--start", str(w), "--stride", str(WORKERS), "--count", str(count),
               "--secs", str(secs), "--out", str(tmp / ("out%d" % w)), "--dump", str(tmp / ("dump%d" % w)), "--cpu", str(cpu)]
        if known:
            cmd += ["--known", ",".join(known)]
        procs.append(subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=tmp))
    viol, sums, hashes, dump, err = [], [], {}, {}, ""
    for w, p in enumerate(procs):
        e = p.communicate()[1]
        if p.returncode not in (0, 1):
            err = "worker %d ended with %s: %s" % (w, p.returncode, e.decode(errors="replace")[-800:])
            continue
        for l in open(tmp / ("out%d" % w)):
            if l.startswith("VIOLATION "):
                viol.append(json.loads(l[10:]))
            elif l.startswith("SUMMARY "):
                sums.append(json.loads(l[8:]))
        for l in open(tmp / ("dump%d" % w)):
            i, rest = l.split(" ", 1)
            dump[int(i)] = rest.strip()
    if err:
        fail(err)
    return viol, sums, dump

def tape_file(path, part, cls, tape):
    path.write_text("%s\n%s\n%s\n" % (part, cls, " ".join(map(str, tape))))

def run_tape(exe, tmp, part, cls, tape, mode="--replay", secs=60, cpu=20):
    t = tmp / "tape"
    tape_file(t, part, cls, tape)
    o = tmp / "tape.out"
    r = subprocess.run([str(exe), mode, str(t), "--out", str(o), "--secs", str(secs), "--cpu", str(cpu)], stdin=subprocess.DEVNULL,
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=tmp)
    if r.returncode not in (0, 3):
        fail("%s ended with %d: %s" % (mode, r.returncode, r.stderr.decode(errors="replace")[-800:]))
    return json.loads(o.read_text())

def same_failure(a, b):
    # A hang is cut off by CPU time, so the history up to the cut is compared only for the others.
    return a["status"] == b["status"] and a["class"] == b["class"] and (a["hash"] == b["hash"] or a["class"] == "hang")

def report(exe, tmp, prop, part, v, seed):
    """Minimise, then gate: two fresh processes must fail the same way."""
    cpu = 8 if v["class"] == "hang" else 20
    first = run_tape(exe, tmp, part, v["class"], v["tape"], cpu=cpu)
    if not same_failure(first, v):
        raise NotReproduced("run %d of %s reported %s but its tape gives status %d %s: not deterministic" % (v["idx"], part, v["class"], first["status"], first["class"]))
    s = run_tape(exe, tmp, part, v["class"], v["tape"], "--shrink", secs=float(os.environ.get("SIM_SHRINK", "45")), cpu=cpu)
    tape = s["tape"] if s["status"] == 2 and s["class"] == v["class"] else v["tape"]
    while tape and tape[-1] == 0:
        tape = tape[:-1]
    r1 = run_tape(exe, tmp, part, v["class"], tape, cpu=cpu)
    r2 = run_tape(exe, tmp, part, v["class"], tape, cpu=cpu)
    if not (same_failure(r1, r2) and r1["status"] == 2 and r1["class"] == v["class"]):
        raise NotReproduced("the minimised tape of run %d of %s does not reproduce %s" % (v["idx"], part, v["class"]))
    d = VERIF / "replays"
    d.mkdir(exist_ok=True)
    path = d / ("%s-seed%d-run%d.json" % (prop, seed, v["idx"]))
    path.write_text(json.dumps({"property": prop, "scenario": part, "config": next(p["config"] for p in P.PROPS[prop]["parts"] if p["name"] == part),
                                "seed": seed, "run": v["idx"], "class": v["class"], "message": r1["message"], "hash": r1["hash"],
                                "tape": tape, "original_tape_length": len(v["tape"]), "history": r1["log"].splitlines()}, indent=1) + "\n")
    print("%s (%s): %s" % (prop, v["class"], r1["message"]))
    for a in re.findall(r"\+(0x[0-9a-f]+)", r1["message"]):
        where = subprocess.run(["addr2line", "-e", str(exe), "-Cfpi", hex(int(a, 16) - 1)], capture_output=True, text=True).stdout.strip()
        print("    %s: %s" % (a, where.splitlines()[-1] if where else "?"))
    for l in r1["log"].splitlines()[-25:]:
        print("    | " + l)
    print("  %d decisions, minimised to %d; replay: python3 check.py --replay %s" % (len(v["tape"]), len(tape), path))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return path

def replay(path):
    d = json.loads(pathlib.Path(path).read_text())
    exe, _ = simbuild.build(d["config"])
    with tempfile.TemporaryDirectory(prefix="sim-") as t:
        r = run_tape(exe, pathlib.Path(t), d["scenario"], d["class"], d["tape"])
    print(r["log"])
    if r["status"] == 2 and r["class"] == d["class"]:
        exact = r["hash"] == d["hash"] or d["class"] == "hang"
        print("%s: %s%s" % (r["class"], r["message"], "" if exact else " (the history differs from the recorded one: the code has changed)"))
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("does not fail here (status %d %s)" % (r["status"], r["class"]))
    return 0

def check(prop, tier, seed):
    t0 = time.time()
    spec = P.PROPS[prop]
    known = known_findings(prop)
    ev = VERIF / "evidence"
    ev.mkdir(exist_ok=True)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": spec["rule"], "samples": [], "decisions": 0, "simulated_steps": 0,
           "thread_switches": 0, "discarded": 0, "faults": {}, "probes": {}, "components_real": {}, "components_stubbed": spec["stubs"],
           "determinism_rechecked": 0, "parts": {}}
    found, hits, build_s, search_s = None, {}, 0.0, 0.0
    scratch = tempfile.mkdtemp(prefix="sim-")
    tmp = pathlib.Path(scratch)
    try:
        for part in spec["parts"]:
            b0 = time.time()
            try:
                exe, _ = simbuild.build(part["config"])
            except simbuild.BuildError as e:
                fail(str(e))
            build_s += time.time() - b0
            count = part[tier]
            s0 = time.time()
            viol, sums, dump = workers(exe, part["name"], seed, count, part.get("secs", 300 if tier == "quick" else 3000), tmp, [k for k, _ in known], part.get("cpu", 20))
            took = time.time() - s0
            search_s += took
            runs = sum(s["runs"] for s in sums)
            hs = set()
            for s in sums:
                hs.update(s["hashes"])
                cov["discarded"] += s["discarded"]
                cov["decisions"] += s["choices"]; cov["simulated_steps"] += s["steps"]; cov["thread_switches"] += s["switches"]
                for kind, name, tot, nruns in s["counters"]:
                    if kind == "k":
                        hits[name] = hits.get(name, 0) + nruns
                        continue
                    key = {"f": "faults", "p": "probes", "c": "components_real"}[kind]
                    cov[key][name] = cov[key].get(name, 0) + (tot if kind == "f" else nruns)
                if len(cov["samples"]) < 3:
                    cov["samples"] += [dict(scenario=part["name"], run=x["idx"], history=x["log"].splitlines()[:60]) for x in s["samples"][:1]]
            cov["evaluations"] += runs
            cov["distinct_nontrivial"] += len(hs)
            cov["parts"][part["name"]] = {"runs": runs, "distinct_nontrivial": len(hs), "build": part["config"], "seconds": round(took, 2)}
            if viol:
                found = (exe, part["name"], sorted(viol, key=lambda v: v["idx"]))
                break
            # The same runs again, in other processes, in another order and number of workers: the histories must be identical.
            idx = sorted(dump)
            k = min(len(idx), part.get("recheck", 240 if tier == "quick" else 2400))
            if k:
                stride = max(1, count // k) | 1
                sub = [subprocess.Popen([str(exe), "--prop", part["name"], "--seed", str(seed), "--start", str(w * stride), "--stride", str(3 * stride), "--count", str(count),
                                         "--secs", "600", "--out", "/dev/null", "--dump", str(tmp / ("re%d" % w)), "--cpu", str(part.get("cpu", 20))]
                                        + (["--known", ",".join(k2 for k2, _ in known)] if known else []),
                                        stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=tmp) for w in range(3)]
                for p in sub:
                    p.wait()
                for w in range(3):
                    for l in open(tmp / ("re%d" % w)):
                        i, rest = l.split(" ", 1)
                        if int(i) in dump:
                            cov["determinism_rechecked"] += 1
                            if dump[int(i)] != rest.strip():
                                fail("run %s of %s gave %s and then %s: not deterministic" % (i, part["name"], dump[int(i)], rest.strip()))
        if found:
            for v in found[2]:
                try:
                    report(found[0], tmp, prop, found[1], v, seed)
                    break
                except NotReproduced as e:
                    print("not reported: %s" % e, file=sys.stderr)
            else:
                fail("no violation reproduced from its tape: nondeterminism")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for cls, what in known:
        if hits.get(cls):
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    wall = time.time() - t0
    cov["known_finding_hits"] = hits
    cov["runs_per_hour"] = int(cov["evaluations"] * 3600 / max(search_s, 1e-3))
    cov["one_seed_per_run"] = "each run has its own seed, derived from VERIF_SEED, the scenario and the run number"
    cov["distinctness_measure"] = "64-bit hash of the whole event history of a run (operations with arguments, results, faults, task switches)"
    cov["simulated_time"] = "discrete: simulated_steps counts operations, random draws and solver callbacks, and in the threaded build scheduling events; no real clock is read"
    cov["search_seconds"] = round(search_s, 2)
    cov["build_seconds"] = round(build_s, 2)
    missing = [p for p in spec.get("expect", []) if p not in cov["probes"] and p not in cov["faults"]]
    cov["conditions_not_reached"] = missing
    out = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
           "assumptions": spec["assumptions"] + P.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": 1 if found else 0}
    (ev / (prop + ".json")).write_text(json.dumps(out, indent=1) + "\n")
    if not found:
        print("%s held: %d runs, %d distinct non-trivial histories, %d faults, %d histories replayed identically, %.1f s"
              % (prop, cov["evaluations"], cov["distinct_nontrivial"], sum(cov["faults"].values()), cov["determinism_rechecked"], wall))
    return 1 if found else 0

def main():
    a = sys.argv[1:]
    if len(a) >= 2 and a[0] == "--replay":
        return replay(a[1])
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    if not a or a[0] not in P.PROPS or tier not in ("quick", "thorough"):
        fail("usage: check.py <property> [--tier quick|thorough] | --replay FILE")
    return check(a[0], tier, int(os.environ.get("VERIF_SEED", "1")))

if __name__ == "__main__":
    sys.exit(main())
