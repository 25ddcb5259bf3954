"""Writes /verif/MANIFEST.json from properties.jsonl and the existing check modules."""
import json, os
V = "/verif"
TECH = "property-based testing with hypothesis: "
T = {
 "P01": "closed-form reference, round trips, monotonicity", "P02": "closed-form log-Jacobians and automatic/finite differentiation",
 "P03": "differential: batched call versus per-sample calls", "P04": "model-based: interpreter over random bijection expression trees",
 "P05": "metamorphic and dense-Jacobian oracles over random masks and inner bijections", "P06": "round trips and set-partition reference model",
 "P07": "round trips over parameter representations, loop versus vectorised", "P08": "closed-form reference and dense Jacobian",
 "P09": "direct Fourier-matrix reference and dense Jacobian", "P10": "brute-force DFT reference and conversion sequences",
 "P11": "closed-form flows of generated linear and nonlinear equations", "P12": "convergence order against closed-form solutions, order conditions",
 "P13": "group invariants over integration histories, matrix exponentials", "P14": "dense Jacobian trace, symmetry metamorphic relations",
 "P15": "direct periodic summation reference, group-orbit reference model", "P16": "scipy reference densities, sample statistics with exact tails",
 "P17": "log-sum-exp reference, component statistics", "P18": "change-of-variables reference, numerical integration",
 "P19": "stateful model-based testing against a list model", "P20": "replayed transition rule on random histories, exact stationary laws",
 "P21": "group invariants, exact Haar moments with bounded false-alarm probability", "P22": "reference density, quadrature, eigenvalue reconstruction",
 "P23": "finite differences and nested differentiation along exponential curves", "P24": "brute-force plaquette loops, gauge and lattice symmetry relations",
 "P25": "brute-force lattice sums, symmetry relations", "P26": "differential against FlowJAX itself, conversion round trips",
 "P27": "reference formulas, batch and translation metamorphic relations", "P28": "reference formulas and reference shape model",
 "P29": "differential between execution modes (eager, jit, vmap, split/merge)",
 "P30": "difference quotients at several step sizes, closed-form derivatives, mode against mode",
 "P31": "differential: single against double precision with perturbation-based tolerance, laws of samples",
 "P32": "generated consistent and inconsistent specifications: accepted and rejected",
}
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/checks/{i}.py"):
        checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=TECH + T[i], level="exploration",
            level_note="Generated-input search against an explicit oracle; says nothing beyond the cases generated (counts and samples in the evidence). "
                       "Trusts numpy/scipy reference computations and jax automatic differentiation on CPU in double precision."))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="check.sh ID [quick|thorough] [--replay FILE]; every check imports bijx from /repo/src directly (pure Python, nothing to build)."),
    open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
