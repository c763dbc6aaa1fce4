"""P20 Evaluation reports the metrics of the requested predictive on all data."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.apiref import SPECIAL, Reference
from harness.core import Sub, close, expect, raises
from harness.post import Post, post_specs
from harness.props.p11 import crps, nll
from harness.props.p18 import Loader, Sized
from laplax.api import evaluation
from laplax.enums import DefaultMetrics, Predictive, Pushforward
from laplax.eval.metrics import DEFAULT_REGRESSION_METRICS
from laplax.eval.pushforward import (
    lin_pred_cov,
    lin_pred_mean,
    lin_pred_std,
    lin_pred_var,
    lin_setup,
    nonlin_pred_mean,
    nonlin_pred_std,
    nonlin_pred_var,
    nonlin_setup,
)
from laplax.eval.utils import apply_fns, transfer_entry

RULE = (
    "Cases: formula models, posteriors of all four types with prior arguments, 1-7, sometimes up to 50 points, every "
    "valid predictive/pushforward, default and user metrics in all accepted forms, data as tuple, "
    "list, dictionary, list of batches, loader or one-shot iterator in any cut (also batches sharing one array, "
    "refilled dictionaries), reductions, jit "
    "options, sequences of 1-3 calls; oracle: numpy metrics of the numpy predictive of every "
    "point. Non-trivial: at least two points."
)
ASSUMPTIONS = [
    "weight draws of the Monte-Carlo predictives are taken from the library (P07/P08)",
    "points with a predictive deviation below 1e-5, overflowing bridges or tied classes are skipped",
    "targets of the default classification metrics are class indices",
]
FORMS = ["tuple", "list", "dict", "dict+", "tuples", "dicts", "loader_t", "loader_d", "loader_s", "loader_r",
         "iter_t", "iter_d", "gen_t", "gen_np"]


def make_data(form, X, T, split, shared=None):
    X, T = jnp.asarray(X), jnp.asarray(T)
    if form == "tuple":
        return (X, T)
    if form == "list":
        return [X, T]
    if form == "dict":
        return {"input": X, "target": T}
    if form == "dict+":
        return {"id": jnp.arange(len(X)), "target": T, "input": X}
    if form == "gen_np":
        X, T = np.asarray(X), np.asarray(T)
    sizes = gen.fit_split(split, len(X))
    pairs = list(zip(gen.cut(X, sizes), gen.cut(T, sizes), strict=True))
    if shared is not None:  # all batches hold the same input object
        pairs = [(pairs[0][0], t) for _, t in pairs]
    bs = pairs if form in ("tuples", "loader_t", "loader_s", "iter_t", "gen_t", "gen_np") else [
        {"input": x, "target": t} for x, t in pairs]
    if form == "loader_s":
        return Sized(bs)
    if form.startswith("loader"):
        L = Loader(bs)
        L.reuse = form == "loader_r"
        return L
    if form.startswith("iter"):
        return iter(bs)
    if form.startswith("gen"):
        return (b for b in bs)
    return bs


def m_se(pred_mean, target, **kw):
    return jnp.sum((pred_mean - target) ** 2)


def m_two(map, pred_std, **kw):
    return map + 2 * pred_std


def spell(enum, how):
    return {"enum": enum, "str": str(enum.value), "upper": str(enum.value).upper()}[how]


def metrics_of(kind, cls, spec):
    """(argument, {name: function of one point's numpy predictive})"""
    if kind == "regression":
        arg = spell(DefaultMetrics.REGRESSION, spec["spell"])
        return arg, {
            "rmse": lambda p, y: np.sqrt(np.mean((p["pred_mean"] - y) ** 2)),
            "chi^2": lambda p, y: np.mean(((p["pred_mean"] - y) / p["pred_std"]) ** 2),
            "nll": lambda p, y: np.mean(nll(p["pred_mean"], p["pred_std"], y)),
            "crps": lambda p, y: np.mean(crps(p["pred_mean"], p["pred_std"], y)),
        }
    if kind == "classification":
        arg = spell(DefaultMetrics.CLASSIFICATION, spec["spell"])
        return arg, {
            "confidences_map": lambda p, t: gen.softmax(p["map"]).max(),
            "confidences_pred": lambda p, t: p["pred_act"].max(),
            "correctness_map": lambda p, t: float(p["map"].argmax() == t),
            "correctness_pred": lambda p, t: float(p["pred_mean"].argmax() == t),
            "nll_gaussian": lambda p, t: np.mean(nll(p["pred_mean"], p["pred_std"], np.eye(p["map"].size)[t])),
        }
    table = {
        "se": (apply_fns(m_se, names=["se"]), lambda p, y: np.sum((p["pred_mean"] - y) ** 2)),
        "two": (apply_fns(m_two, names=["two"], map="map", pred_std="pred_std"),
                lambda p, y: p["map"] + 2 * p["pred_std"]),
        "copy": (transfer_entry({"copy": "pred_mean"}), lambda p, y: p["pred_mean"]),
        "t": (transfer_entry({"t": "target"}), lambda p, y: y),
    }
    names = ["se", "two", "copy", "t"][:2 + spec["seed"] % 3]
    if cls:
        names.append("act")
        table["act"] = (apply_fns(lambda pred_act, **kw: pred_act, names=["act"]), lambda p, y: p["pred_act"])
    if kind == "callable":
        names = names[:1]
        arg = table[names[0]][0]
    elif kind == "tuple":
        arg = tuple(table[k][0] for k in names)
    else:
        arg = [table[k][0] for k in names]
    return arg, {k: table[k][1] for k in names}


class Case:
    def __init__(self, spec):
        self.spec = spec
        cls = self.cls = spec["predictive"] != "none"
        m = gen.Model(spec["model"])
        if cls:
            m = gen.Model({**spec["model"], "o": [max(2, m.K)]})
        self.m = m
        self.po = Post({**spec["post"], "ls": 1.0}, m)
        n, seed = spec["n"], spec["seed"]
        self.X = m.inputs(n, seed)
        self.block = None
        if spec["block"] and n >= 2 * spec["block"]:  # equal batches of one input array
            self.block = spec["block"]
            n = n // self.block * self.block
            self.X = np.concatenate([self.X[:self.block]] * (n // self.block))
        r = np.random.default_rng([seed, 121])
        self.T = r.integers(0, m.K, size=n) if cls else gen.targets(m, n, "mse", seed)
        self.push = spec["push"]
        if self.push == "nonlinear" and spec["predictive"] in SPECIAL:
            self.push = "linear"
        self.key = jax.random.key(spec["seed"] % 883) if spec["key"] else jax.random.key(0)
        self.N = spec["N"] or 10
        self.p = Reference(m, self.po, self.push, spec["predictive"], self.key, self.N)(self.X, self.po.prior)

    def data(self, form, split):
        if self.block:
            split = [self.block] * (len(self.X) // self.block)
        return make_data(form, self.X, self.T, split, self.block)

    def usable(self, kind):
        p, x64 = self.p, self.spec["x64"]
        if p["pred_std"].min() < (1e-5 if x64 else 3e-3 * (1 + np.abs(p["pred_mean"]).max())):
            return False
        if self.cls:
            if not np.all(np.isfinite(p["pred_act"])):
                return False
            if self.spec["predictive"] == "laplace_bridge":
                z = p["map"] / np.sqrt(p["pred_var"].sum(1) / np.sqrt(self.m.K / 2))[:, None]
                if np.abs(z).max() > (200 if x64 else 20):
                    return False
            for k in ("map", "pred_mean"):
                s = np.sort(p[k], axis=1)
                if np.any(s[:, -1] - s[:, -2] < (1e-6 if x64 else 1e-3)):
                    return False
        return True

    def point(self, i):
        sh = self.m.oshape
        return {k: (v[i].reshape(sh) if k != "samples" else v[i]) for k, v in self.p.items()}

    def pushforward_args(self):
        s = self.spec
        kw = {"predictive_type": spell(Predictive(s["predictive"]), s["spell"]),
              "pushforward_type": spell(Pushforward(self.push), s["spell"])}
        if not s["expl"]:
            for k, v in (("predictive_type", "none"), ("pushforward_type", "linear")):
                if str(kw[k]).lower() == v:
                    del kw[k]
        if s["key"]:
            kw["sample_key"] = self.key
        if s["N"]:
            kw["num_samples"] = self.N
        if not s["pjit"]:
            kw["predictive_jit"] = False
        if s["fns"] and not self.cls:
            kw["pushforward_fns"] = ([lin_setup, lin_pred_mean, lin_pred_cov, lin_pred_var, lin_pred_std]
                                     if self.push == "linear" else
                                     [nonlin_setup, nonlin_pred_mean, nonlin_pred_var, nonlin_pred_std])
        return kw


REDUCE = {"none": None, "mean": (lambda a: jnp.mean(a, axis=0), lambda a: np.mean(a, axis=0)),
          "sum": (jnp.sum, np.sum), "rev": (lambda a: a[::-1] + 1, lambda a: a[::-1] + 1)}


def run_eval(spec):
    c = Case(spec)
    if not c.usable(None):
        return False
    x64 = spec["x64"]
    before = list(DEFAULT_REGRESSION_METRICS)
    for call in spec["calls"]:
        kind = call["metrics"]
        if kind == "classification" and not c.cls:
            kind = "regression"
        if kind == "regression" and c.cls:
            kind = "classification"
        arg, fns = metrics_of(kind, c.cls, spec)
        kw = c.pushforward_args()
        if not (kind == "regression" and call["default"]):
            kw["metrics"] = arg
        red = REDUCE[call["reduce"]]
        if red:
            kw["reduce"] = red[0]
        data = c.data(call["form"], call["split"])
        res, pf = evaluation(c.po.fn, c.m.fn(), c.m.params, c.po.prior, data, **kw)
        expect(set(res) == set(fns), f"metrics {sorted(res)}, expected {sorted(fns)}")
        for name, f in fns.items():
            e = np.stack([np.asarray(f(c.point(i), c.T[i]), float) for i in range(len(c.X))])
            sc = 1.0 + float(np.abs(e).max())
            if red:
                e = red[1](e)
                sc *= len(c.X)
            close(res[name], e, f"{name} ({spec['predictive']}, {c.push}, data as {call['form']}, "
                  f"reduce {call['reduce']})", rtol=1e-7 if x64 else 2e-3, scale=sc)
        r = pf(jnp.asarray(c.X[-1]))
        p = c.point(len(c.X) - 1)
        for k in ["map", "pred_mean", "pred_std"] + (["pred_act"] if c.cls else []):
            expect(k in r, f"entry {k} missing from the returned predictive")
            close(r[k], p[k], f"returned predictive: {k}", rtol=1e-7 if x64 else 1e-3,
                  scale=1.0 + float(np.abs(p[k]).max()))
    expect(list(DEFAULT_REGRESSION_METRICS) == before, "the default metrics changed")
    return spec["n"] > 1


def run_forms(spec):
    """All data forms give identical results."""
    c = Case(spec)
    if not c.usable(None):
        return False
    kind = "classification" if c.cls else "regression"
    arg, fns = metrics_of(kind, c.cls, spec)
    ref = None
    for form in ["dict", *spec["forms"]]:
        data = c.data(form, spec["split"])
        res, _ = evaluation(c.po.fn, c.m.fn(), c.m.params, c.po.prior, data, metrics=arg, **c.pushforward_args())
        expect(set(res) == set(fns), f"metrics {sorted(res)}, expected {sorted(fns)}")
        if ref is None:
            ref = res
            continue
        for k in ref:
            close(res[k], ref[k], f"{k} for data as {form} and as dict", rtol=1e-9 if spec["x64"] else 1e-2,
                  scale=1.0)
    return spec["n"] > 1


def run_reject(spec):
    m = gen.Model({**spec["model"], "o": [3]})
    po = Post(spec["post"], m)
    X = jnp.asarray(m.inputs(2, 1))
    Y = jnp.zeros((2, 3))
    bad, kw = {
        "metrics_empty": ((X, Y), dict(metrics=[])), "metrics_name": ((X, Y), dict(metrics="accuracy")),
        "metrics_type": ((X, Y), dict(metrics=3)), "triple": ((X, Y, Y), {}), "keys": ({"input": X}, {}),
        "batches": (iter([(X, Y, X)]), {}), "dict_batches": ([{"input": X, "label": Y}], {}),
        "predictive": ((X, Y), dict(predictive_type="probit")),
        "pushforward": ((X, Y), dict(pushforward_type="quadratic")),
        "special": ((X, Y), dict(pushforward_type="nonlinear", predictive_type=spec["special"])),
    }[spec["bad"]]
    with raises(ValueError, f"unsupported evaluation ({spec['bad']})"):
        evaluation(po.fn, m.fn(), m.params, po.prior, bad, **kw)
    return True


pred = ["none", "none", "none", "mc_bridge", "mc_bridge", *SPECIAL]
split = st.lists(st.integers(1, 4), min_size=1, max_size=14)
base = dict(
    model=gen.model_specs(codes=True, max_total=9, wide=24), post=post_specs, seed=gen.seeds, n=gen.counts(1, 7, 50),
    block=st.sampled_from([0, 0, 0, 1, 2, 3]),
    predictive=st.sampled_from(pred), push=st.sampled_from(["linear", "linear", "nonlinear"]),
    key=st.booleans(), N=st.sampled_from([None, 2, 5, 40]), expl=st.booleans(), pjit=st.booleans(),
    fns=st.booleans(), spell=st.sampled_from(["enum", "str", "upper"]), x64=gen.x64s)
SUBS = [
    Sub("eval", st.fixed_dictionaries({**base, "calls": st.lists(st.fixed_dictionaries({
        "metrics": st.sampled_from(["regression", "classification", "list", "tuple", "callable"]),
        "default": st.booleans(), "reduce": st.sampled_from(["none", "none", *sorted(REDUCE)]),
        "form": st.sampled_from(FORMS), "split": split}), min_size=1, max_size=3)}), run_eval, quick=130),
    Sub("forms", st.fixed_dictionaries({
        **base, "split": split, "forms": st.lists(st.sampled_from(FORMS), min_size=1, max_size=3,
                                                  unique=True)}), run_forms, quick=32),
    Sub("reject", st.fixed_dictionaries({
        "model": gen.model_specs(max_total=6), "post": post_specs, "special": st.sampled_from(SPECIAL),
        "x64": st.just(True), "bad": st.sampled_from([
            "metrics_empty", "metrics_name", "metrics_type", "triple", "keys", "batches", "dict_batches",
            "predictive", "pushforward", "special"])}), run_reject, quick=32),
]
