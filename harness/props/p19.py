"""P19 Calibration optimises the objective it names."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.apiref import SPECIAL, Reference, model_any, objective
from harness.core import Sub, close, expect, raises
from harness.post import Post, post_specs
from harness.props import p13
from laplax.api import calibration
from laplax.enums import (
    CalibrationMethod,
    CalibrationObjective,
    CurvApprox,
    LossFn,
    Predictive,
    Pushforward,
)
from laplax.eval.pushforward import (
    lin_pred_mean,
    lin_pred_std,
    lin_pred_var,
    lin_setup,
    nonlin_pred_mean,
    nonlin_pred_std,
    nonlin_setup,
)
from laplax.register import register_calibration_method

RULE = (
    "Cases: formula models, posteriors of all four types, 1-6 points, every valid combination of "
    "objective, predictive and pushforward (regression and classification, index or one-hot "
    "targets), grids, patience, jit options, spellings; oracle: the objective recomputed in "
    "numpy. Non-trivial: at least two points and two grid values."
)
ASSUMPTIONS = [
    "weight draws of the Monte-Carlo predictives are taken from the library (their law is "
    "checked by P07/P08); everything computed from them is recomputed in numpy",
    "cases with predictive deviations below 1e-5, overflowing bridges or confidences on a bin "
    "boundary are skipped",
]
PROBE = {}


def probe(objective, data, **kw):
    """A calibration method that evaluates the objective where it is told to."""
    PROBE["kw"] = kw
    PROBE["vals"] = [objective({"prior_prec": t}, data) for t in kw["taus"]]
    PROBE["data"] = data
    return {"prior_prec": kw["taus"][0], "probe": 1}


def spell(enum, how):
    return {"enum": enum, "str": str(enum.value), "upper": str(enum.value).upper()}[how]


class Case:
    def __init__(self, spec):
        self.spec = spec
        m = gen.Model(spec["model"])
        cls = spec["predictive"] != "none"
        if cls or spec["loss"] == "cross_entropy":
            m = gen.Model({**spec["model"], "o": [max(2, m.K)]})
        self.m, self.cls = m, cls
        self.po = Post({**spec["post"], "s2": None, "ls": 1.0}, m)
        n, seed = spec["n"], spec["seed"]
        self.X = m.inputs(n, seed)
        r = np.random.default_rng([seed, 111])
        obj = spec["objective"]
        if cls:
            if obj == "chi_squared":
                obj = "ece"
            self.labels = np.array([m.f(x).argmax() for x in self.X])
            flip = r.uniform(size=n) < 0.4
            self.labels = np.where(flip, r.integers(0, m.K, size=n), self.labels)
            self.loss = "cross_entropy"
            self.Y = np.eye(m.K)[self.labels]
            hot = obj == "marginal_log_likelihood" or (obj == "ece" and spec["hot"])
            self.target = self.Y if hot else self.labels
        else:
            if obj == "ece":
                obj = "chi_squared"
            self.loss = spec["loss"]
            self.labels = None
            self.Y = gen.targets(m, n, self.loss, seed)
            self.target = self.Y
        self.obj = obj
        self.push = spec["push"]
        if self.push == "nonlinear" and spec["predictive"] in SPECIAL:
            self.push = "linear"
        self.key = jax.random.key(spec["seed"] % 887) if spec["key"] else jax.random.key(0)
        self.N = spec["N"] or 30
        self.ref = Reference(m, self.po, self.push, spec["predictive"], self.key, self.N)

    def data(self):
        a = np.asarray if self.spec["np"] else jnp.asarray
        X, T = a(self.X), a(self.target)
        return {"tuple": (X, T), "list": [X, T], "dict": {"input": X, "target": T}}[self.spec["form"]]

    def kwargs(self):
        s, h = self.spec, self.spec["spell"]
        kw = dict(loss_fn=LossFn(self.loss) if s["enum"] else self.loss, curv_estimate=self.po.est,
                  curv_type=CurvApprox(self.po.spec["curv"]) if s["enum"] else self.po.spec["curv"],
                  calibration_objective=spell(CalibrationObjective(self.obj), h),
                  predictive_type=spell(Predictive(s["predictive"]), h),
                  pushforward_type=spell(Pushforward(self.push), h))
        if not s["expl"]:  # leave defaults away
            for k, v in (("calibration_objective", "nll"), ("predictive_type", "none"),
                         ("pushforward_type", "linear")):
                if str(kw[k]).lower() == v:
                    del kw[k]
        if s["key"]:
            kw["sample_key"] = self.key
        if s["N"]:
            kw["num_samples"] = self.N
        if s["batched"]:
            kw["vmap_over_data"] = False
        if not s["ojit"]:
            kw["objective_jit"] = False
        if s["fns"] and not self.cls:
            kw["pushforward_fns"] = ([lin_setup, lin_pred_mean, lin_pred_var, lin_pred_std]
                                     if self.push == "linear" else
                                     [nonlin_setup, nonlin_pred_mean, nonlin_pred_std])
        return kw

    def call(self, **extra):
        fn = model_any(self.m) if self.spec["batched"] else self.m.fn()
        if self.spec.get("strict"):  # batches only
            fn = self.m.fn(batched=True)
        return calibration(self.po.fn, fn, self.m.params, self.data(), **self.kwargs(), **extra)

    def oracle(self, tau):
        return objective(self.ref, self.obj, self.X, self.Y, self.labels, {"prior_prec": tau}, self.loss,
                         self.spec["seed"])

    def usable(self, tau):
        """The predictive is well conditioned for this prior precision."""
        x64 = self.spec["x64"]
        if self.obj == "marginal_log_likelihood":
            return True
        with np.errstate(all="ignore"):
            p = self.ref(self.X, {"prior_prec": tau})
        if p["pred_std"].min() < (1e-5 if x64 else 1e-2):
            return False
        if not x64 and p["pred_std"].min() < 3e-3 * (1 + np.abs(p["pred_mean"]).max()):
            return False
        if self.cls:
            a = p["pred_act"]
            if not np.all(np.isfinite(a)):
                return False
            if self.spec["predictive"] == "laplace_bridge":
                v = p["pred_var"]
                z = p["map"] / np.sqrt(v.sum(1) / np.sqrt(self.m.K / 2))[:, None]
                if np.abs(z).max() > (200 if x64 else 20):
                    return False
            if self.obj == "ece":
                c = a.max(1) * 15
                if np.any(np.abs(c - np.round(c)) < (1e-5 if x64 else 1e-2)) or np.any(a.max(1) > 1 + 1e-12):
                    return False
                s = np.sort(p["map"], axis=1)
                if np.any(s[:, -1] - s[:, -2] < 1e-5):
                    return False
        return True

    def tol(self, scale):
        if self.spec["x64"]:
            return 1e-7 * scale
        return 5e-3 * scale


def check_predictive(c, make, tau):
    """The constructor returned by calibration uses the requested pushforward."""
    x64 = c.spec["x64"]
    pf = make(prior_arguments={"prior_prec": tau})
    p = c.ref(c.X, {"prior_prec": tau})
    for i, x in enumerate(c.X[:2]):
        r = pf(jnp.asarray(x))
        want = {"map", "pred_mean", "pred_std"} | ({"pred_act"} if c.cls else set())
        expect(want <= set(r), f"predictive entries {sorted(r)}, expected at least {sorted(want)}")
        sc = 1.0 + float(np.abs(p["map"]).max()) + float(p["pred_std"].max())
        for k in ("map", "pred_mean"):
            close(r[k], p[k][i].reshape(c.m.oshape), f"predictive {k}", rtol=1e-8 if x64 else 1e-3, scale=sc)
        close(np.asarray(r["pred_std"]) ** 2, p["pred_var"][i].reshape(c.m.oshape), "squared pred_std",
              rtol=1e-8 if x64 else 1e-3, scale=sc ** 2)
        if c.cls:
            close(r["pred_act"], p["pred_act"][i], "pred_act", rtol=1e-7 if x64 else 5e-3, scale=1.0)


def run_values(spec):
    """Objective values at given prior precisions, through a registered method."""
    c = Case(spec)
    taus = [t for t in spec["taus"] if c.usable(t)]
    if not taus:
        return False
    register_calibration_method("verif_probe", probe)
    args, make = c.call(calibration_method="verif_probe", taus=taus)
    expect(args["prior_prec"] == taus[0] and args.get("probe") == 1, f"returned {args}")
    expect(set(PROBE["kw"]) == {"taus"}, f"method received {sorted(PROBE['kw'])}")
    expect(set(PROBE["data"]) >= {"input", "target"}, "data passed to the method")
    close(PROBE["data"]["input"], c.X, "inputs passed to the method", x64=spec["x64"])
    for t, v in zip(taus, PROBE["vals"], strict=True):
        e, sc = c.oracle(t)
        expect(np.shape(v) == (), f"objective of shape {np.shape(v)}")
        close(float(v) - e, 0.0, f"{c.obj} objective {float(v)!r}, expected {e!r} at prior precision {t} "
              f"({spec['predictive']}, {c.push}): difference", atol=c.tol(sc))
    if not spec.get("strict"):
        check_predictive(c, make, taus[-1])
    return spec["n"] > 1 and len(taus) > 1


def run_grid(spec):
    c = Case(spec)
    lo, w, n = spec["lo"], spec["width"], spec["size"]
    grid = 10.0 ** np.linspace(lo, lo + w, n)
    if not all(c.usable(t) for t in grid):
        return False
    kw = {"log_prior_prec_min": lo, "log_prior_prec_max": lo + w, "grid_size": n}
    if spec["patience"]:
        kw["patience"] = spec["patience"]
    if spec["limit"]:
        kw["max_iterations"] = spec["limit"]
    if spec["method"]:
        kw["calibration_method"] = spell(CalibrationMethod.GRID_SEARCH, spec["spell"])
    vals = [c.oracle(t) for t in grid]
    v = np.array([a for a, _ in vals])
    tol = np.array([c.tol(s) for _, s in vals])
    args, make = c.call(**kw)
    expect(set(args) == {"prior_prec"}, f"prior arguments {sorted(args)}")
    tau = float(args["prior_prec"])
    i = int(np.argmin(np.abs(np.log10(grid) - np.log10(tau))))
    expect(abs(np.log10(grid[i]) - np.log10(tau)) < 1e-5, f"{tau} is not on the grid {grid}")
    clear = n < 2 or np.all(np.abs(v[:, None] - v[None, :])[~np.eye(n, dtype=bool)] > 2 * tol.max())
    if clear:
        _, b = p13.model(list(v), spec["patience"], spec["limit"])
        expect(i == b, f"calibration chose grid point {i} of {grid} with {c.obj} values {v}, expected {b}")
    elif not spec["patience"]:
        v = v[:spec["limit"]]
        expect(i < len(v) and v[i] <= v.min() + 2 * tol.max(), f"calibration chose grid point {i} with value {v[i]}; "
                                                f"{c.obj} values {v}")
    check_predictive(c, make, grid[i])
    return spec["n"] > 1 and n > 1


def run_default_grid(spec):
    """Without grid options: 50 points from 1e-3 to 1e3."""
    c = Case(spec)
    grid = np.logspace(-3, 3, 50)
    if not all(c.usable(t) for t in grid):
        return False
    args, _ = c.call()
    tau = float(args["prior_prec"])
    i = int(np.argmin(np.abs(np.log10(grid) - np.log10(tau))))
    expect(abs(np.log10(grid[i]) - np.log10(tau)) < 1e-5, f"{tau} is not on the default grid")
    vals = [c.oracle(t) for t in grid]
    v, tol = np.array([a for a, _ in vals]), max(c.tol(s) for _, s in vals)
    expect(v[i] <= v.min() + 2 * tol, f"calibration chose {tau} with value {v[i]}, minimum {v.min()}")
    return True


def run_reject(spec):
    m = gen.Model({**spec["model"], "o": [3]})
    po = Post({**spec["post"], "s2": None, "ls": 1.0}, m)
    X = jnp.asarray(m.inputs(2, 1))
    reg, lab = (X, jnp.zeros((2, 3))), (X, jnp.asarray([0, 1]))
    kw = dict(loss_fn="mse", curv_estimate=po.est, curv_type=po.spec["curv"], grid_size=2)
    sp = spec["special"]
    bad = {
        "chi2_cls": (lab, dict(calibration_objective="chi_squared", predictive_type="mc_bridge")),
        "chi2_special": (lab, dict(calibration_objective="chi_squared", predictive_type=sp)),
        "ece_reg": (reg, dict(calibration_objective="ece")),
        "ece_none": (reg, dict(calibration_objective="ECE", predictive_type="NONE")),
        "special_nonlin": (lab, dict(predictive_type=sp, pushforward_type="nonlinear")),
        "special_nonlin_mll": (lab, dict(predictive_type=sp, pushforward_type="nonlinear",
                                         calibration_objective="marginal_log_likelihood")),
        "objective": (reg, dict(calibration_objective="accuracy")),
        "predictive": (reg, dict(predictive_type="probit")),
        "pushforward": (reg, dict(pushforward_type="quadratic")),
        "method": (reg, dict(calibration_method="gradient_descent")),
        "no_estimate": (reg, dict(calibration_objective="marginal_log_likelihood", curv_estimate=None)),
        "data3": ((X, X, X), {}), "data_keys": ({"input": X}, {}), "data_array": (X, {}),
    }[spec["bad"]]
    data, extra = bad
    with raises(ValueError, f"unsupported calibration ({spec['bad']})"):
        calibration(po.fn, m.fn(), m.params, data, **{**kw, **extra})
    return True


pred = ["none", "none", "none", "mc_bridge", "mc_bridge", *SPECIAL]
base = dict(
    model=gen.model_specs(codes=True, max_total=9), post=post_specs, seed=gen.seeds, n=st.integers(1, 6),
    objective=st.sampled_from(["nll", "chi_squared", "marginal_log_likelihood", "ece"]),
    predictive=st.sampled_from(pred), push=st.sampled_from(["linear", "linear", "nonlinear"]),
    loss=st.sampled_from(["mse", "mse", "cross_entropy", "binary_cross_entropy"]), hot=st.booleans(),
    key=st.booleans(), N=st.sampled_from([None, 2, 5]), np=st.booleans(), batched=st.booleans(),
    form=st.sampled_from(["tuple", "list", "dict"]), enum=st.booleans(), expl=st.booleans(),
    spell=st.sampled_from(["enum", "str", "upper"]), ojit=st.booleans(), fns=st.booleans(), x64=gen.x64s)
SUBS = [
    Sub("values", st.fixed_dictionaries({
        **base, "taus": st.lists(gen.log_floats(0.03, 50), min_size=2, max_size=4)}), run_values, quick=120),
    # a model of batches only: the evidence must not be vectorised over the data again
    Sub("batched_evidence", st.fixed_dictionaries({
        **base, "objective": st.just("marginal_log_likelihood"), "push": st.just("linear"),
        "predictive": st.just("none"), "batched": st.just(True), "strict": st.just(True),
        "taus": st.lists(gen.log_floats(0.03, 50), min_size=2, max_size=3)}), run_values, quick=16),
    Sub("grid", st.fixed_dictionaries({
        **base, "lo": st.integers(-2, 1), "width": st.sampled_from([0.5, 1, 2, 3]), "size": gen.counts(1, 6, 20),
        "patience": st.sampled_from([None, None, 1, 2]),
        "limit": st.sampled_from([None, None, 1, 2, 3, 9]), "method": st.booleans()}), run_grid, quick=80),
    Sub("default_grid", st.fixed_dictionaries({
        **base, "x64": st.just(True), "push": st.just("linear"), "N": st.just(2), "ojit": st.just(True),
        "objective": st.sampled_from(["nll", "chi_squared", "marginal_log_likelihood"]),
        "predictive": st.just("none")}), run_default_grid, quick=10, thorough=60),
    Sub("reject", st.fixed_dictionaries({
        "model": gen.model_specs(max_total=6), "post": post_specs, "special": st.sampled_from(SPECIAL),
        "x64": st.just(True), "bad": st.sampled_from([
            "chi2_cls", "chi2_special", "ece_reg", "ece_none", "special_nonlin", "special_nonlin_mll", "objective",
            "predictive", "pushforward", "method", "no_estimate", "data3", "data_keys", "data_array"])}),
        run_reject, quick=48),
]
