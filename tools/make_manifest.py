"""Writes /verif/MANIFEST.json from the list of properties and check modules."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "Hypothesis-generated tensors/DRM pairs vs. contraction by definition",
 "C02": "Hypothesis-generated operation histories vs. sketch of the final tensor",
 "C03": "Hypothesis-generated sketches vs. pinv-assembly reference",
 "C04": "Hypothesis-generated low-rank tensors, exact-recovery oracle",
 "C05": "Hypothesis-generated tensors vs. nested-projection reference",
 "C06": "Hypothesis-generated tensors vs. reference algorithm and invariants",
 "C07": "metamorphic PBT: blocked vs. unblocked sketch over random partitions",
 "C08": "metamorphic PBT: transpose/reverse relations and linearity",
 "C09": "differential PBT: DRM slices vs. rows of the full DRM",
 "C10": "PBT over positions/shapes/seeds vs. vectorisation-free relations",
 "C11": "PBT of the sparse-sign structure against its definition",
 "C12": "PBT with independence statistics and fixed thresholds",
 "C13": "differential PBT: repeated, reordered and separate-process runs",
 "C14": "model-based PBT: programs of tensor arithmetic vs. dense model",
 "C15": "differential PBT against dense inner products, norms and errors",
 "C16": "differential PBT against dense indexing, with in-place mutations",
 "C17": "round-trip PBT (transpose, conversion, split) and size counting",
 "C18": "PBT of rounding vs. dense SVD tails and orthogonality invariants",
 "C19": "differential PBT against dense sums; orthogonality invariants",
 "C20": "differential PBT against dense SVDs of the unfoldings",
 "C21": "PBT of TT-SVD vs. dense SVD tails and best approximations",
 "C22": "PBT against closed-form trimmed ranks",
 "C23": "PBT over mutated requests: invalid refused, valid accepted",
 "C24": "differential PBT against dense linear operators",
 "C25": "differential PBT against dense operators; generated cookie problems",
 "C26": "PBT of rounding methods vs. dense sums and error bounds",
 "C27": "PBT over generated linear systems: true residual and stopping rule",
 "C28": "PBT of constructors over requested shapes, ranks and options",
 "C29": "PBT of algebraic identities of the numerical helpers",
 "C31": "statistical PBT: medians over seeds vs. randomised-SVD error bounds",
 "C32": "differential PBT: reported vs. recomputed errors from one random state",
 "C30": "stateful PBT: experiment histories vs. a model log",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.isfile(os.path.join(HERE, "vlib", "props", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": f"python3 run.py {i}",
            "thorough_cmd": f"python3 run.py {i} --tier thorough",
            "technique": "property-based testing: " + TECH[i],
            "level": "exploration",
            "level_note": "Held on every generated case (counts, labels and "
            "samples in the evidence file); nothing is claimed outside the "
            "generated domain. Trusts numpy/scipy and the reference in "
            "vlib/ref.py.",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup_check.py",
           "checks": checks, "not_applicable": na,
           "notes": "Every check copies /repo's working tree to a scratch directory, "
           "builds the Cython extension there and searches generated inputs "
           "(Hypothesis) for a counterexample; a failure is shrunk and written "
           "to replays/ (run.py <ID> --replay FILE)."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
