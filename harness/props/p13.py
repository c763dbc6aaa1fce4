"""P13 Grid search returns the best value it is allowed to see."""
import math

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Sub, close, expect
from laplax.eval.calibrate import grid_search, optimize_prior_prec

RULE = (
    "Cases: histories of objective values (finite with many ties, increasing runs, NaN, "
    "+-infinity, ValueError at chosen steps; python, numpy or jax scalars, also jitted), grids "
    "of 1-14, sometimes up to 70 points in any order, values a few units in the last place apart or "
    "up to 1e300, every combination of patience 1-14/none and iteration limit; "
    "oracle: a list model of the documented search. Non-trivial: at least two grid points."
)
ASSUMPTIONS = ["patience and iteration limit are at least one"]

TOKENS = {"nan": math.nan, "inf": math.inf, "-inf": -math.inf}


def model(vals, patience, limit):
    """(number of evaluations, index of the returned grid point)."""
    seen, count = [], 0
    for i, v in enumerate(vals):
        v = math.inf if v in ("nan", "error") else TOKENS.get(v, v)
        if seen:
            count = count + 1 if v > seen[-1] else 0
        seen.append(v)
        if patience is not None and count >= patience:
            break
        if limit is not None and i + 1 >= limit:
            break
    return len(seen), seen.index(min(seen))


class Err(ValueError):
    pass


def make(vals, form, calls):
    it = iter(vals)

    def objective(prior_args):
        calls.append(prior_args)
        v = next(it)
        if v == "error":
            raise (Err if len(calls) % 2 else ValueError)("not positive definite")
        v = TOKENS.get(v, v)
        return {"py": float, "np": np.float64, "jnp": jnp.asarray, "jnp32": jnp.float32}[form](v)

    return objective


def grid_of(spec, n):
    r = np.random.default_rng([spec["seed"], 51])
    g = np.exp(r.uniform(-6, 6, size=n))
    if spec["order"] == "up":
        g = np.sort(g)
    elif spec["order"] == "ties":
        g = g[r.integers(0, n, size=n)]
    return g


def as_seen(v, spec):
    """The number the objective returns, in its own precision."""
    if isinstance(v, str):
        return v
    if isinstance(v, list):  # [base, steps]: values a few units in the last place apart
        v = v[0] * (1.0 + v[1] * 2.0 ** -50)
    if spec["form"] == "jnp32" or (spec["form"] == "jnp" and not spec["x64"]):
        return float(np.float32(v))
    return float(v)


def run_search(spec):
    vals = [as_seen(v, spec) for v in spec["vals"]]
    n = len(vals)
    g = grid_of(spec, n)
    calls = []
    obj = make(vals, spec["form"], calls)
    grid = {"jnp": jnp.asarray, "np": np.asarray, "list": lambda a: [float(x) for x in a]}[spec["grid"]](g)
    kw = {}
    if spec["patience"] is not None or spec["explicit"]:
        kw["patience"] = spec["patience"]
    if spec["limit"] is not None or spec["explicit"]:
        kw["max_iterations"] = spec["limit"]
    best = grid_search(grid, obj, **kw)
    k, b = model(vals, spec["patience"], spec["limit"])
    seen = [float(c["prior_prec"]) for c in calls]
    want = [float(x) for x in grid][:k]
    expect(all(set(c) == {"prior_prec"} for c in calls), "objective arguments")
    expect(seen == want, f"objective was evaluated at {seen}, expected {want} for values {vals}, "
                         f"patience {spec['patience']}, limit {spec['limit']}")
    expect(np.ndim(best) == 0 and float(best) == [float(x) for x in grid][b],
           f"returned {best}, expected grid point {b} = {g[b]} for values {vals}")
    return n > 1


def run_default(spec):
    """The log-spaced grid of optimize_prior_prec, with all keyword combinations."""
    lo, hi = spec["lo"], spec["lo"] + spec["width"]
    n = spec["n"]
    r = np.random.default_rng([spec["seed"], 52])
    vals = [float(v) for v in r.permutation(n) // spec["tie"]]
    for i in range(n):
        if r.uniform() < spec["faults"]:
            vals[i] = ["nan", "error", "inf"][r.integers(3)]
    calls = []
    obj = make(vals, "jnp", calls)
    kw = {}
    if not (spec["defaults"] and n == 300):
        kw = {"log_prior_prec_min": lo, "log_prior_prec_max": hi, "grid_size": n}
    if spec["patience"]:
        kw["patience"] = spec["patience"]
    if spec["limit"]:
        kw["max_iterations"] = spec["limit"]
    if spec["pos"] and "grid_size" in kw:
        best = optimize_prior_prec(obj, lo, hi, n, **{k: v for k, v in kw.items() if k in (
            "patience", "max_iterations")})
    else:
        best = optimize_prior_prec(obj, **kw)
    k, b = model(vals, spec["patience"], spec["limit"])
    g = 10.0 ** np.linspace(lo, hi, n)
    seen = np.array([float(c["prior_prec"]) for c in calls])
    expect(len(seen) == k, f"{len(seen)} evaluations, expected {k}")
    # element-wise relative comparison
    close(np.log10(seen), np.log10(g[:k]), "log10 of the grid", rtol=1e-9 if spec["x64"] else 2e-5,
          scale=1.0)
    expect(float(best) == seen[b], f"returned {best}, expected {seen[b]}")
    return n > 1


def run_traced(spec):
    """Smooth jitted objectives: the returned point minimises the objective on the grid."""
    c, n = spec["c"], spec["n"]
    f = lambda t: (jnp.log10(t) - c) ** 2 + spec["w"] * jnp.cos(3 * jnp.log10(t))  # noqa: E731
    fn = np.log10
    obj = lambda a: f(a["prior_prec"])  # noqa: E731
    if spec["jit"]:
        obj = jax.jit(obj)
    g = np.asarray(10.0 ** np.linspace(-3, 3, n))
    best = float(optimize_prior_prec(obj, -3.0, 3.0, n))
    v = (fn(g) - c) ** 2 + spec["w"] * np.cos(3 * fn(g))
    i = int(np.argmin(np.abs(fn(g) - fn(best))))
    expect(abs(fn(g[i]) - fn(best)) < 1e-4, f"{best} is not on the grid")
    tol = 1e-9 if spec["x64"] else 1e-4
    expect(v[i] <= v.min() + tol, f"objective {v[i]} at the returned point, minimum {v.min()}")
    return n > 1


value = st.one_of(st.integers(-3, 3), st.integers(0, 30), st.sampled_from([0.5, -0.5, 1e30, 1e-30]),
                  st.sampled_from(["nan", "inf", "error", "-inf", "nan", "error"]))
ulps = st.tuples(st.sampled_from([1.0, -1.0, 3e7, -2e-7, 1e12]), st.integers(-3, 3)).map(list)
far = st.one_of(st.floats(-1e300, 1e300, allow_nan=False), st.sampled_from([1e-300, -1e-300, 0.0, -0.0]))
# long searches: blocks of (kind, start, length)
blocks = st.lists(st.tuples(st.sampled_from(["up", "down", "flat", "fault"]), st.integers(-20, 20),
                            st.integers(1, 15)), min_size=2, max_size=6).map(
    lambda bs: [x for kind, b, k in bs for x in (
        list(range(b, b + k)) if kind == "up" else list(range(b, b - k, -1)) if kind == "down"
        else [b] * k if kind == "flat" else (["nan", "error", "inf"] * k)[:min(k, 4)])][:70])
finite = st.integers(0, 30)
runs = st.lists(st.tuples(st.integers(-3, 3), st.integers(1, 6)), min_size=1, max_size=4).map(
    lambda rs: [x for b, k in rs for x in range(b, b + k)][:14])
opt = lambda s: st.one_of(st.none(), s)  # noqa: E731
SUBS = [
    Sub("search", st.fixed_dictionaries({
        "vals": st.one_of(st.lists(value, min_size=1, max_size=14), runs,
                          st.lists(finite, min_size=1, max_size=14), blocks,
                          st.lists(st.one_of(ulps, ulps, value), min_size=2, max_size=10),
                          st.lists(far, min_size=2, max_size=10)),
        "patience": opt(gen.counts(1, 5, 14)), "limit": opt(gen.counts(1, 15, 80)),
        "explicit": st.booleans(), "form": st.sampled_from(["py", "np", "jnp", "jnp32"]),
        "grid": st.sampled_from(["jnp", "np", "list"]),
        "order": st.sampled_from(["up", "any", "ties"]), "seed": gen.seeds, "x64": gen.x64s}),
        run_search, quick=2000,
        examples=tuple({"vals": v, "patience": p, "limit": l, "explicit": False, "form": "jnp",
                        "grid": "jnp", "order": "up", "seed": 3, "x64": True}
                       for v, p, l in [(["nan"] * 4, 2, None), (["error", "error", 3, 2], 1, None),
                                       ([1, 2, 3, 4, 0], 3, None), ([1, 2, 3, 4, 0], 4, None),
                                       ([3, 2, 1], None, 2), ([3, 2, 1], 1, 1),
                                       ([1, 2, 2, 3, 0], 2, None), (["inf", "error", "nan"], 1, 2)])),
    Sub("default_grid", st.fixed_dictionaries({
        "lo": st.integers(-5, 3), "width": st.integers(0, 6), "n": gen.counts(1, 25, 90),
        "tie": st.integers(1, 3), "faults": st.sampled_from([0, 0, 0.2, 0.6]),
        "patience": opt(st.integers(1, 4)), "limit": opt(st.integers(1, 26)),
        "defaults": st.just(False), "pos": st.booleans(), "seed": gen.seeds, "x64": gen.x64s}),
        run_default, quick=160,
        examples=({"lo": -5, "width": 11, "n": 300, "tie": 1, "faults": 0, "patience": None,
                   "limit": None, "defaults": True, "pos": False, "seed": 1, "x64": True},)),
    Sub("traced", st.fixed_dictionaries({
        "c": st.integers(-30, 30).map(lambda i: i / 10), "w": st.sampled_from([0.0, 0.1, 1.0]),
        "n": st.integers(1, 40), "jit": st.booleans(), "seed": gen.seeds, "x64": gen.x64s}),
        run_traced, quick=64),
]
