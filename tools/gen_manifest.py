"""Writes MANIFEST.json from properties.jsonl (run by hand after editing)."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
ORACLE = {
    "P01": ("property-based testing against closed-form Gauss-Newton matrices in numpy",
            "random models x pytree layouts x losses x batches; exact linear-algebra oracle"),
    "P02": ("property-based testing against closed-form Hessians in numpy", "random models and losses; exact oracle"),
    "P03": ("property-based testing: differential (stream vs one batch) over random cuts and reductions",
            "random streams, cuts, reductions and reductions with state; numpy oracle"),
    "P04": ("property-based testing against numpy matrix inverses", "random curvature, priors and layouts"),
    "P05": ("property-based testing against numpy eigenpairs and Krylov projections",
            "random spectra, ranks, forms and precisions"),
    "P06": ("stateful property-based testing with fault injection: invariants after every call of a random history",
            "random call histories, a third of the calls failing; deep snapshots of state and arguments"),
    "P07": ("property-based testing against J C J^T in numpy plus bounded statistical tests of the draws",
            "random models and posteriors; exact oracle; statistical bounds at 6.5 sigma"),
    "P08": ("property-based testing against numpy statistics of the read-out weight ensemble",
            "random models, posteriors, statistics; exact oracle given the draws; statistical bounds for the draws"),
    "P09": ("property-based testing against closed forms plus metamorphic relations", "random logits and covariances"),
    "P10": ("property-based testing against the evidence formula in numpy, value and derivative",
            "random curvature, priors, losses"),
    "P11": ("property-based testing against metric definitions in numpy and metamorphic relations",
            "random predictions and targets of every accepted form"),
    "P12": ("property-based testing against a reference binning with boundary values", "random and boundary confidences"),
    "P13": ("stateful model-based testing: a reference search over recorded objective values",
            "random objectives with plateaus, NaN and errors; all call sequences compared"),
    "P14": ("property-based testing: differential against per-sample evaluation", "random cuts, metrics, reductions"),
    "P15": ("property-based round-trip testing over random pytrees", "random nested containers and layouts"),
    "P16": ("property-based testing against leaf-wise numpy and algebraic laws", "random pytrees"),
    "P17": ("property-based testing against known matrices behind opaque operators", "random operators and batch sizes"),
    "P18": ("property-based testing against a numpy Laplace approximation", "random models, data forms, options"),
    "P19": ("property-based testing: objectives recomputed in numpy; reference grid search", "all valid combinations"),
    "P20": ("property-based testing against metrics of a numpy predictive", "all valid combinations, data forms"),
    "P21": ("stateful model-based testing of registration histories against a reference model",
            "random histories of registrations and uses; numpy model of every method"),
    "P22": ("property-based testing against J(x1) C J(x2)^T in numpy", "random models, posteriors, layouts"),
    "P23": ("metamorphic property-based testing: results with and without performance options",
            "random option settings of every public call"),
    "P24": ("stateful model-based testing of function pipelines against dictionaries", "random pipelines"),
    "P25": ("property-based testing: automatic derivatives against central differences of values and numpy formulas",
            "random models, posteriors, statistics, objectives and modes; maps against single calls"),
    "P26": ("stateful property-based testing: histories over several workspaces against numpy results of each call",
            "random histories with reused buffers and results kept for later"),
}
checks = []
for line in (ROOT / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)["id"]
    tech, note = ORACLE[p]
    checks.append({
        "property": p, "quick_cmd": f"bash check.sh {p}", "thorough_cmd": f"bash check.sh {p} --tier thorough",
        "technique": tech, "level": "exploration",
        "level_note": note + "; a fixed number of generated cases per tier, no proof of absence",
    })
manifest = {
    "version": 1, "setup_cmd": "PYTHONPATH=. /opt/venv/bin/python -m harness.deps",
    "checks": checks, "not_applicable": [],
}
(ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
