"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json, props
T = "deterministic simulation with fault injection: seeded search over %s, checked against %s"
TECH = {
 "C01": ("thread interleavings (down to memory accesses) and allocation failures", "single-instance, data-race and deadlock invariants"),
 "C02": ("market operation histories and allocation failures", "a reference map of the market"),
 "C03": ("histories of registrations, changes and throwing observers", "an exactly-once delivery model"),
 "C04": ("re-entrant observer programs", "an exactly-once delivery model, address sanitizer and a growth bound"),
 "C05": ("market histories around long-lived objects", "newly made objects in a market that only had the current values"),
 "C06": ("creation histories and failing allocations", "the requested option, leak balance and unchanged market"),
 "C07": ("interleavings of generators, entropy values and entropy failures", "twin generators"),
 "C08": ("seeds, entropy values and draw mixtures", "distribution support, moments and the engine's own sequence"),
 "C09": ("thread interleavings of pricing runs", "the result of the same run alone, plus race and deadlock detection"),
 "C10": ("placements of market ticks inside a run", "the results of the market states in force during it"),
 "C11": ("failure kind and position inside pricing calls", "a run that never failed"),
 "C12": ("setter, build and failure histories", "a new builder with the current settings"),
 "C13": ("call histories on scripted models", "an independent discounted-mean reference"),
 "C14": ("solve/price/failure histories", "an independent time-stepping reference"),
 "C20": ("histories of payoffs, clones, destructions, comparisons and failing allocations", "a reference of contractual values and equality"),
 "C21": ("histories of uses of shared kernels, with failing allocations", "nodes, polynomials, residuals and optimality conditions"),
 "C22": ("market histories, draws, shared generators and failing paths", "the dynamics applied to the recorded draws, characteristic functions and the martingale property"),
 "C23": ("market histories, generators, grids and failing calls before a price", "closed forms within sampling and discretisation error"),
 "C24": ("orders of creating, dropping and using objects that refer to each other, and process ends", "an equal group that keeps every handle, address sanitizer and growth bounds"),
 "C25": ("thread interleavings of uses of shared objects", "the same uses alone, plus race and deadlock detection"),
 "C26": ("histories of refused and edge-of-range constructions and uses with failing allocations", "the contract of refusal, allocation counts and unchanged objects"),
 "C27": ("long mixed histories of requests, failures, threads and memory reuse in one process", "the answer of a newly forked process to the same request"),
 "C28": ("markets, models, seeds and disturbances between two prices", "the identities and inequalities that join related contracts on equal paths"),
 "C15": ("write/open/close faults and truncated input", "the parsed exported file"),
}
REASON = {}
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 simbuild.py", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the seams are the library's own interfaces plus operator new, malloc, std::random_device, the clock, file system calls and (threaded build) compiler instrumentation, all interposed in /verif/sim. Replay: python3 check.py --replay FILE."}
for i in ids:
    if i in props.PROPS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
                            "technique": T % TECH[i], "level": "exploration",
                            "level_note": "Seeded sampling of whole executions of the real code, each exactly replayable; evidence, not proof. " + " ".join(a + "." for a in props.PROPS[i]["assumptions"])})
    else:
        m["not_applicable"].append({"property": i, "reason": REASON.get(i, "check under construction")})
open("MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
