"""What each check runs: scenarios, run counts per tier, and the words that go into the evidence."""
ASSUMPTIONS = [
    "the compiler, the C++ standard library, Boost and Eigen behave as documented",
    "sampling: a clean batch is evidence for the histories that were run, not a proof for the others",
]
FAULT_RULE = " A run is non-trivial when it reached the situation the property is about (as its scenario states); runs are distinct when their event histories differ."

def part(name, config, quick, thorough, **kw):
    return dict(name=name, config=config, quick=quick, thorough=thorough, **kw)

PROPS = {
    "C02": dict(parts=[part("C02", "asan", 40000, 1500000)], stubs=["observers (harness)"], assumptions=[],
                rule="seeded histories of additions, updates, reads and refused operations on up to six stocks with allocation failures; after every step the whole market is compared with a reference map." + FAULT_RULE),
    "C03": dict(parts=[part("C03", "asan", 40000, 1500000)], stubs=["observers (harness)"], assumptions=[],
                rule="seeded histories of registrations, destructions, purges, updates and explicit notifications with throwing observers; call counts per observer are compared with a reference model after every step." + FAULT_RULE),
    "C04": dict(parts=[part("C04", "asan", 40000, 1500000)], stubs=["observers (harness)"], assumptions=["address sanitizer reports use of freed memory"],
                rule="seeded programs of nested actions run from inside notifications (create, destroy, purge, update, throw), under address sanitizer, with exactly-once bookkeeping; and creation/destruction churn with a live-memory bound." + FAULT_RULE),
    "C06": dict(parts=[part("C06", "asan", 40000, 1500000)], stubs=[], assumptions=[],
                rule="seeded histories of valid and invalid creations through all ten factories with an allocation failing at a seeded position; leak balance, market, and behaviour of every option compared with the request." + FAULT_RULE),
    "C07": dict(parts=[part("C07", "asan", 30000, 1000000)], stubs=["std::random_device (simulated entropy)"], assumptions=[],
                rule="seeded interleavings of draws from several seeded and unseeded generators with entropy changes, entropy failures and failing constructions; twins must agree, different seeds must differ." + FAULT_RULE),
    "C08": dict(parts=[part("C08", "asan", 20000, 600000)], stubs=["std::random_device (simulated entropy)"], assumptions=["Boost's sobol and faure engines define the low-discrepancy sequences"],
                rule="seeded seeds, entropy values, dimensions, distribution parameters and mixtures of draws; support, moments and the order of sequence coordinates are checked." + FAULT_RULE),
    "C05": dict(parts=[part("C05", "asan", 24000, 1000000)], stubs=["number generator (fixed stream)", "reference market (only ever had the current values)"], assumptions=[],
                rule="seeded histories of market changes (updates, refusals, re-additions, allocation failures) and uses of long-lived models, pricers, coefficients, solvers, options and handles; each use is compared with a newly made object in a market that only ever had the current values, and paths with their recurrences." + FAULT_RULE),
    "C10": dict(parts=[part("C10/path", "asan", 24000, 1000000), part("C10/price", "asan", 16000, 600000)], stubs=["number generator (fixed stream that changes the market between draws)", "stock model (C10/price only)"], assumptions=[],
                rule="market changes placed by seed between the random draws of a path or between the paths of a pricing run; the result must equal that of one market state in force during the call." + FAULT_RULE),
    "C11": dict(parts=[part("C11", "asan", 40000, 1500000)], stubs=["the component that is made to fail (generator, model, regression, basis, scheme, coefficient, matrix solver or interpolation) is a simulator-owned wrapper around or stand-in for the real one"], assumptions=["Eigen's own malloc is not failed: its dense storage double-frees when malloc fails"],
                rule="a failure (exception from one dependency at a seeded call, or allocation failure at a seeded position, possibly repeated) inside a pricing or solving call of a seeded configuration; outcome, market and the repeated call are compared with a run that never failed." + FAULT_RULE),
    "C12": dict(parts=[part("C12", "asan", 24000, 800000)], stubs=["recording generators, models, markets and strategies"], assumptions=[],
                rule="seeded histories of setter calls, builds, refused settings and allocation failures on Monte Carlo builders and solvers, and of strategy hand-overs; each built pricer is compared with one from a new builder with the current settings only." + FAULT_RULE),
    "C13": dict(parts=[part("C13", "asan", 40000, 1500000)], stubs=["stock model (scripted paths)", "in American runs optionally basis and regression"], assumptions=["American cases within 1e-6 of an exercise tie are skipped, exact ties are not"],
                rule="seeded sequences of pricing calls, market changes and failing calls on one pricer with scripted paths; each price is compared with the discounted mean payoff computed by an independent reference, and the number and arguments of path requests are counted." + FAULT_RULE),
    "C14": dict(parts=[part("C14", "asan", 40000, 1500000)], stubs=["PDE coefficients in part of the runs", "matrix solver and interpolation wrappers"], assumptions=["explicit schemes are compared as long as the reference stays finite"],
                rule="seeded sequences of solve, price, failing solve and repeated calls on seeded grids, schemes, coefficients and markets; surface and price are compared with an independent time stepping, with a step bound." + FAULT_RULE),
    "C20": dict(parts=[part("C20", "asan", 40000, 1500000)], stubs=[], assumptions=[],
                rule="seeded populations of payoffs (own, cloned, clones of clones, inside options) through creations, clones, failing clones, destructions, comparisons, refusals and evaluations at, next to and far from strikes, against a reference of values and equality." + FAULT_RULE),
    "C21": dict(parts=[part("C21", "asan", 40000, 1200000)], stubs=[], assumptions=["well conditioned systems and regressions"],
                rule="seeded histories of use of shared interpolations, matrix solvers, regressions and bases with seeded grids, systems and samples, failing allocations and refused arguments, against nodes, polynomials, residuals, optimality conditions and recurrences." + FAULT_RULE),
    "C22": dict(parts=[part("C22/path", "asan", 20000, 800000), part("C22/law", "asan", 1500, 60000)], stubs=["number generator (recording stream, C22/path only)"], assumptions=["parameters for which the mean price is finite"],
                rule="C22/path: seeded market histories and failing paths around long-lived models; every path must be the model's recurrence applied to the recorded draws, in logarithms. C22/law: thousands of paths per run, with other models, refused updates and failing allocations in between, against characteristic functions, the martingale property, independence, the bridge law and an independent simulation." + FAULT_RULE),
    "C23": dict(parts=[part("C23/mc", "asan", 1500, 60000), part("C23/fdm", "asan", 600, 20000), part("C23/quantile", "asan", 8000, 300000)], stubs=[], assumptions=[],
                rule="C23/mc: seeded options, generators, builders and market histories, prices against the Black-Scholes formula (or exact lattice, or in-out parity) within the sampling error. C23/fdm: four schemes, solved once in a seeded market, at ten spots against the formula within the order of the discretisation. C23/quantile: quantiles between other draws." + FAULT_RULE),
    "C24": dict(parts=[part("C24", "asan", 24000, 1500000)], stubs=[], assumptions=["address sanitizer reports use of freed memory"],
                rule="seeded groups of markets, options, payoffs, stock data, generators, schemes, models, strategies, builders, pricers, coefficients and solvers whose handles are dropped in any order between uses and market changes; what remains must give what an equal group gives of which every handle is kept. Whole lives are repeated and single objects used over a hundred times with a bound on what stays allocated, and processes end with objects that outlive main." + FAULT_RULE),
    "C26": dict(parts=[part("C26", "asan", 40000, 1500000)], stubs=["number generator of models (recording stream)"], assumptions=["variance-gamma parameters within 1e-6 of an infinite mean are left out: rounding decides there"],
                rule="seeded histories of constructions and uses with one parameter out of range, not a number, missing or exactly on the edge, between market changes and with failing allocations; refusals must be errors without leak, and a pricer and a solver that existed before must give what new ones in a reference market give." + FAULT_RULE),
    "C01": dict(parts=[part("C01", "sched", 60000, 2000000, recheck=3000)], stubs=["thread scheduler, locks, guards and thread creation (simulated; the code runs on real threads, one at a time)"], assumptions=["memory accesses inside the compiled C++ standard library are not scheduling points and not race-checked"],
                rule="seeded schedules of up to five threads obtaining, reading, storing into and dropping the market, directly and through builders and factories, with allocation failures in single threads; preemption at memory accesses, atomics, locks and guards, with happens-before race and deadlock detection." + FAULT_RULE),
    "C09": dict(parts=[part("C09", "sched", 40000, 1200000, recheck=3000)], stubs=["thread scheduler, locks, guards and thread creation (simulated; the code runs on real threads, one at a time)", "PDE coefficients in part of the finite-difference runs"], assumptions=["memory accesses inside the compiled C++ standard library are not scheduling points and not race-checked"],
                rule="seeded schedules of two to four whole pricing runs (all models, generators, option types, builders, finite-difference schemes) with objects of their own; results must be bit-identical to the run alone, with happens-before race and deadlock detection." + FAULT_RULE),
    "C27": dict(parts=[part("C27", "asan", 12000, 600000)], stubs=[], assumptions=["address sanitizer reports use of freed memory; in half of the runs freed addresses are given out again at once, so that they are reused as in production"],
                rule="seeded long lives of one process: requests (pricings, paths, finite differences, fits, systems, interpolations, draws, prints, refusals) in seeded order with failing allocations, other threads, kept and dropped objects and changed entropy between them; each answer is compared with that of a newly forked process, and process-wide settings with those at the start." + FAULT_RULE),
    "C28": dict(parts=[part("C28", "asan", 24000, 1000000)], stubs=[], assumptions=["relations that only hold between equal paths are checked between prices whose models were given the same seeds; the one with prices at maturity only where a test draw shows the same path"],
                rule="seeded markets, models, generators and contracts; the prices of related contracts (in and out, call and put, strikes, barriers, digitals, lookbacks, means, units of money, names, batches) from the same seeds, with failing allocations, refusals, other threads and changes of other stocks between them, must satisfy the identity or inequality that joins them." + FAULT_RULE),
    "C25": dict(parts=[part("C25", "sched", 40000, 1200000, recheck=3000)], stubs=["thread scheduler, locks, guards and thread creation (simulated; the code runs on real threads, one at a time)"], assumptions=["memory accesses inside the compiled C++ standard library are not scheduling points and not race-checked"],
                rule="seeded schedules of two to four threads that use one pool of strategies, schemes, options, payoffs, coefficients, stock data and the market, directly and in whole pricing runs; results must be bit-identical to the same uses alone, with happens-before race and deadlock detection." + FAULT_RULE),
    "C15": dict(parts=[part("C15", "export", 16000, 400000)], stubs=["disk calls (write, writev, fopen, fclose, mkdir) pass through the simulator to files in a scratch folder", "standard streams (simulated)"], assumptions=["the file stream reaches the disk through these calls, as in the installed C++ library"],
                rule="the export program with seeded sizes, malformed or ended input, and failing, short, interrupted or lost writes, failing open, close and mkdir at seeded positions; exit status and message are compared with the file left behind." + FAULT_RULE),
}
