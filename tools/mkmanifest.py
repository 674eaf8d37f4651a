"""Write MANIFEST.json from the check modules present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "default": "Explored, not proved: holds on the cases run (counts in the evidence). "
               "Trusts the reference models in pfmon/ref.py and numpy.",
}
TECH = {
    "C01": "runtime monitoring of counting calls with an E1049 list-form reference; exhaustive small alphabets, 20 signal families, dtypes, layouts, long signals",
    "C02": "runtime monitoring of crossing and turning point calls with a scan reference; exhaustive sign patterns",
    "C03": "runtime monitoring with conservation laws and metamorphic transformations of the signal",
    "C04": "runtime monitoring of cycle count views against the rows they derive from",
    "C05": "runtime monitoring of additions: multiset conservation, fold order, list lengths, refusals",
    "C06": "runtime monitoring of scaling: exact factor laws and commutation",
    "C07": "runtime monitoring of LFFD resolution against the count of the concatenated history",
    "C08": "runtime monitoring of export and import round trips",
    "C09": "runtime monitoring of binning with the damage tolerance rule as oracle",
    "C10": "runtime monitoring of mean stress corrections with formula references over all load ratios",
    "C11": "runtime monitoring of S-N evaluation with a branch law reference, inverse and monotonicity",
    "C12": "runtime monitoring of knees and endurance against the curve itself",
    "C13": "runtime monitoring of Palmgren-Miner damage by every route with a plain reference",
    "C14": "runtime monitoring of equivalent stress, moment and Gassner factors with damage equality",
    "C15": "runtime monitoring of nonlinear damage with the block recurrence as reference",
    "C16": "runtime monitoring of table aggregation with a window reference",
    "C17": "runtime monitoring of Paris curves with a segment law reference, inverse and monotonicity",
    "C18": "runtime monitoring of crack growth steps with a step-by-step reference",
    "C19": "runtime monitoring of clustered crack growth against the unrolled history and the table accessor",
    "C20": "runtime monitoring of geometries with an integration reference",
    "C21": "operand monitor (fingerprints before and after every call) and repetition of random call sequences",
    "C22": "runtime monitoring of unit propagation and refusals over pairs of units",
    "C23": "bounds-checking sanitizer, interpreter/compiled cross-run and thread sweep of the kernels",
    "C24": "runtime monitoring of bins and histograms with a per-value reference",
    "C25": "runtime monitoring of the artists drawn on the figures",
    "C26": "runtime monitoring of comparisons with single-datum mutations",
    "C27": "runtime monitoring of synthetic signals and of the global random state",
    "C28": "schedule stress: threads calling on shared operands at once, results against the same calls made alone, operand fingerprints",
    "C29": "runtime monitoring of copies and pickles, in this and in another process, against the original",
    "C30": "runtime monitoring of the warnings raised by like and unlike operations, also with warnings as errors",
    "C31": "metamorphic runtime monitoring of whole workflows run in two unit systems",
    "C32": "runtime monitoring of requests with one wrong part: an error must come, operands keep their fingerprint",
    "C33": "runtime monitoring of process settings, files, threads, figures, live objects and memory around operations",
}


def main():
    with open(os.path.join(HERE, "properties.jsonl")) as fh:
        ids = [json.loads(line)["id"] for line in fh if line.strip()]
    checks, missing = [], []
    for pid in ids:
        if os.path.exists(os.path.join(HERE, "pfmon", "checks", pid.lower() + ".py")):
            checks.append({
                "property": pid,
                "quick_cmd": f"VERIF_TIER=quick ./run.sh {pid}",
                "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {pid}",
                "evidence_file": f"evidence/{pid}.json",
                "technique": TECH[pid],
                "level": "exploration",
                "level_note": NOTES.get(pid, NOTES["default"]),
            })
        else:
            missing.append({"property": pid, "reason": "check not built yet"})
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
           "not_applicable": missing,
           "notes": "No hooks: the monitors sit at the public API. "
                    "Repairs are the fix: commits of /repo, listed in KNOWN_FINDINGS.txt."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
