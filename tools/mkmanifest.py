#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: seeded search over call histories and faults"
TECH = {
 "C06": "deterministic simulation: seeded thread scheduler at basic-block granularity, threads dying mid-call, compared with solo runs",
 "C15": "deterministic simulation: replicated group of MPC and dense solvers with crashes, stale/torn warm starts, duplicated deliveries; agreement checked over the history",
 "C16": "deterministic simulation: closed control loop over a lossy network with crashes, corrupted measurements and warm starts; invariants per tick and bounded recovery",
 "C17": "deterministic simulation: seeded operation histories with allocation failures against a reference model",
 "C14": "deterministic simulation: Newton seam observed at every iterate of disturbed histories, against the documented system in long double; the solvers also used directly, in histories of re-factorisation and failed allocations",
 "C05": "deterministic simulation: faulty call histories refined against a fresh solver in a pristine forked process, bit for bit",
 "C19": "deterministic simulation: seeded histories of operator calls, threads sharing data under a seeded scheduler, failing allocations, poisoned heap; long double reference model",
 "C21": "deterministic simulation: seeded operation histories over iterates, residuals and checkers, scheduled threads, failing allocations; long double reference model",
 "C13": "deterministic simulation: virtual clocks with jumps and stalls injected at clock reads and stream calls",
}
NOTE = {
 "C01": "Every Success verdict in the simulated histories is certified from the problem data in long double, including after corrupted Newton steps, failed allocations, throwing streams, hostile guesses.",
 "C02": "Residual, margin, counts and the choice of returned iterate recomputed independently for each simulated call.",
 "C03": "Every infeasibility verdict is checked as a certificate; families with constructed truth decide false verdicts. Truth-based part skips calls whose Newton steps were corrupted.",
 "C04": "Step budgets are enforced by a hard step limit in the simulator (hangs are caught); progress is claimed for constructed well-posed and clearly infeasible families, a single miss is confirmed on eight neighbouring instances before it counts.",
 "C05": "Bitwise refinement against a fresh object in a pristine process; heap contents are adversarial.",
 "C06": "Sequentially consistent interleavings chosen by seed; no weak-memory effects.",
 "C07": "Every allocation and stream call is a possible failure point; the reference run counts them so faults land inside the call.",
 "C08": "Restart on same or fresh object checked bitwise for Success by residual.",
 "C09": "Bitwise comparison across levels, streams, storage flavours and failing output devices.",
 "C10": "The printed text is parsed and checked against counts, limits and recomputed residuals of that call.",
 "C11": "Option values from the whole double range including NaN and infinities, against a model of the documented ranges and a fresh solver.",
 "C12": "Guard bytes, ownership tags per heap block, guard-interleaved mapped buffers, data checksum; reads outside are caught by changing what lies there.",
 "C13": "Virtual monotonic and wall clocks.",
 "C14": "Backward error of each direction against the documented system.",
 "C15": "Verdict and minimiser agreement over replicated histories; a single miss of the iteration is confirmed on neighbouring instances.",
 "C16": "Closed loop with simulated plant; certified plans each tick; bounded recovery once faults stop.",
 "C17": "Reference model of values, aliasing and memory after each operation.",
 "C19": "Every operator call compared with a long double model of the dense form, with an elementwise rounding bound; threads share data objects.",
 "C21": "Every operation compared with a long double model; margins carry an explicit rounding bound through the history; certificate tests use tolerances placed at their thresholds.",
 "C18": "Each sized input is perturbed in one place; rejection must be clean.",
}
checks = []
for i in list(range(1, 20)) + [21]:
    p = f"C{i:02d}"
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p}",
        "thorough_cmd": f"python3 check.py {p} --thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": TECH.get(p, T),
        "level": "exploration",
        "level_note": NOTE[p] + " Exploration: seeded search, no exhaustive claim; trusts the simulator's stubs and g++/Eigen as installed.",
    })
m = {"version": 1, "setup_cmd": "python3 check.py build", "checks": checks,
     "not_applicable": [
         {"property": "C20", "reason": "the sparse wrapper is not part of this build (its QDLDL dependency is not available here) and is a pure data conversion with no schedule, fault or history"}],
     "notes": "No hooks in /repo: the simulator uses the template parameters, allocator, clock, stream and lock seams. Replay a violation with: python3 check.py replay <path>. VERIF_SECONDS overrides the exploration time."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
