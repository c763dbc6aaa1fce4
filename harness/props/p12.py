"""P12 Calibration errors are computed from correctly filled bins."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Sub, close, expect
from laplax.enums import CalibrationErrorNorm
from laplax.eval.metrics import (
    calculate_bin_metrics,
    calibration_error,
    expected_calibration_error,
    maximum_calibration_error,
)

RULE = (
    "Cases: 1-40, sometimes up to 5000 confidences in [0, 1] (random, clustered, exact bin "
    "boundaries, 0 and 1; double, single, half precision and bfloat16), boolean/integer/float "
    "correctness, 1-20, sometimes up to 200 bins, permutations, jit on/off; oracle: an explicit "
    "loop over samples and bins. Non-trivial: at least two filled bins."
)
ASSUMPTIONS = [
    "confidences closer than 1e-6 to an interior bin boundary are only generated where the "
    "boundary is exactly representable (power-of-two bin counts)",
    "half-precision results are held to the accuracy of half precision",
]


def confidences(spec):
    n, B = spec["n"], spec["bins"]
    r = np.random.default_rng(spec["seed"])
    kind = spec["kind"]
    c = r.uniform(size=n)
    if kind == "high":
        c = 1 - 0.2 * r.uniform(size=n) ** 2
    elif kind == "low":
        c = 0.1 * r.uniform(size=n)
    elif kind == "ends":
        c = r.choice([0.0, 1.0, 0.5 + 0.1 / B], size=n)
    elif kind == "edges" and B & (B - 1) == 0:
        c = r.integers(0, B + 1, size=n) / B
    prec = jnp.dtype(spec.get("prec", "float64"))
    c = np.asarray(np.asarray(c, np.float32).astype(prec), float)
    if kind != "edges" or B & (B - 1):
        near = np.abs(c * B - np.round(c * B)) < 1e-5 * B
        inner = near & (c > 1e-4) & (c < 1 - 1e-4)
        if prec.itemsize == 2:  # the centre of the bin may not be representable
            c = c[~inner] if not inner.all() else np.zeros(1)
        else:
            c = np.where(inner, (np.floor(c * B) + 0.5) / B, c)
    n = c.size
    p = {"random": 0.5, "all": 1.0, "none": 0.0}[spec["labels"]]
    ok = r.uniform(size=n) < p
    return r, c, ok


def bins(c, ok, B):
    idx = np.minimum((c * B + 1e-9).astype(int), B - 1)
    prop, conf, acc = np.zeros(B), np.zeros(B), np.zeros(B)
    for b in range(B):
        sel = idx == b
        if sel.any():
            prop[b], conf[b], acc[b] = sel.mean(), c[sel].mean(), ok[sel].mean()
    return prop, conf, acc


def run(spec):
    r, c, ok = confidences(spec)
    B, x64 = spec["bins"], spec["x64"]
    cast = {"bool": ok, "int": ok.astype(int), "float": ok.astype(float)}[spec["dtype"]]
    prec = jnp.dtype(spec.get("prec", "float64"))
    C, K = jnp.asarray(c, prec), jnp.asarray(cast)
    tol = 1e-9 if x64 and prec == jnp.float64 else 1e-5
    if prec.itemsize == 2:
        tol = 2e-2 if prec == jnp.bfloat16 else 3e-3
    prop, conf, acc = bins(c, ok, B)
    f = lambda a, b: calculate_bin_metrics(a, b, B)  # noqa: E731
    if spec["jit"]:
        f = jax.jit(f)
    if B == 15 and spec["default"]:
        f = calculate_bin_metrics
    got = [np.asarray(a, float) for a in f(C, K)]
    for g, e, what in zip(got, (prop, conf, acc), ("proportions", "confidences", "accuracies"), strict=True):
        close(g, e, f"bin {what}", rtol=tol, scale=1.0)
    expect(abs(got[0].sum() - 1) < tol * 10, f"bin proportions sum to {got[0].sum()}")
    gap = np.abs(acc - conf)
    ece, mce = float((prop * gap).sum()), float(gap.max())
    g1 = expected_calibration_error(C, K, B)
    g2 = maximum_calibration_error(C, K, B)
    close(g1, ece, "expected calibration error", rtol=tol, scale=1.0)
    close(g2, mce, "maximum calibration error", rtol=tol, scale=1.0)
    for norm, e in ((CalibrationErrorNorm.L1, ece), (CalibrationErrorNorm.INF, mce), ("l1", ece), ("inf", mce)):
        close(calibration_error(C, K, B, norm), e, f"calibration error with norm {norm}", rtol=tol, scale=1.0)
    expect(-1e-6 <= float(g1) <= float(g2) + 1e-6 and float(g2) <= 1 + 1e-6,
           f"calibration errors {g1}, {g2} outside [0, 1]")
    p = r.permutation(c.size)
    close(expected_calibration_error(confidence=C[p], correctness=K[p], num_bins=B), ece,
          "expected calibration error of permuted samples", rtol=tol, scale=1.0)
    close(maximum_calibration_error(confidence=C[p], correctness=K[p], num_bins=B), mce,
          "maximum calibration error of permuted samples", rtol=tol, scale=1.0)
    # all labels' types agree
    for other in (ok, ok.astype(int), ok.astype(np.float32)):
        close(expected_calibration_error(C, jnp.asarray(other), B), ece, f"error with {other.dtype} labels",
              rtol=tol, scale=1.0)
    # duplicating the samples changes nothing
    close(expected_calibration_error(jnp.concatenate([C, C]), jnp.concatenate([K, K]), B), ece,
          "expected calibration error of doubled samples", rtol=tol, scale=1.0)
    return int((prop > 0).sum()) > 1


SUBS = [
    Sub("bins", st.fixed_dictionaries({
        "n": gen.rarely(st.integers(1, 40), st.sampled_from([130, 257, 300, 520, 1000, 2100, 5000])),
        "bins": gen.rarely(st.sampled_from([1, 2, 3, 4, 5, 8, 10, 15, 15, 16, 20]),
                           st.sampled_from([32, 50, 64, 100, 129, 200])),
        "prec": st.sampled_from(["float64", "float64", "float32", "bfloat16", "float16"]),
        "kind": st.sampled_from(["uniform", "high", "low", "ends", "edges"]),
        "labels": st.sampled_from(["random", "random", "all", "none"]),
        "dtype": st.sampled_from(["bool", "int", "float"]), "jit": st.booleans(),
        "default": st.booleans(), "seed": gen.seeds, "x64": gen.x64s}), run, quick=400,
        examples=({"n": 1000, "bins": 3, "prec": "bfloat16", "kind": "uniform", "labels": "random",
                   "dtype": "bool", "jit": False, "default": False, "seed": 1, "x64": False},
                  {"n": 5000, "bins": 2, "prec": "float16", "kind": "uniform", "labels": "random",
                   "dtype": "float", "jit": True, "default": False, "seed": 2, "x64": False},
                  {"n": 5000, "bins": 15, "prec": "float64", "kind": "uniform", "labels": "random",
                   "dtype": "int", "jit": False, "default": True, "seed": 3, "x64": True})),
]
