"""P14 Dataset and generator evaluation agree with per-sample evaluation."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Sub, close, expect, raises
from laplax.eval import evaluate_for_given_prior_arguments
from laplax.eval.utils import (
    apply_fns,
    evaluate_metrics_on_dataset,
    evaluate_metrics_on_generator,
    evaluate_on_dataset,
    transfer_entry,
)

RULE = (
    "Cases: prediction functions with 1-3 outputs of shape () to (2,2), 1-9, sometimes up to 300 "
    "points, all cuts into batches (lists, generators, one-shot iterators, tuple or dictionary "
    "batches, jax or numpy arrays, one dictionary refilled for every batch, several batches with "
    "one input or target array), metrics as "
    "list, dictionary or both, several reductions, batch sizes 1 to beyond the number of points; "
    "oracle: numpy per-sample evaluation. Non-trivial: at least two points."
)
ASSUMPTIONS = ["metric functions depend only on the entries they are given"]


class Setup:
    def __init__(self, spec):
        self.spec = spec
        r = np.random.default_rng([spec["seed"], 61])
        n, self.xs, self.os = spec["n"], tuple(spec["x"]), tuple(spec["o"])
        d, K = int(np.prod(self.xs)), int(np.prod(self.os))
        self.A = np.round(r.normal(size=(K, d)), 3)
        self.c = np.round(r.normal(size=K), 3)
        self.X = np.round(r.normal(size=(n, *self.xs)), 3)
        self.Y = np.round(r.normal(size=(n, *self.os)), 3)
        if spec["intx"]:
            self.Y = np.round(self.Y * 3).astype(int)
        self.K = K
        share = spec.get("share", "none")
        if share != "none":  # equally sized batches of one input (or target) array
            b = spec["block"] if n >= 2 * spec["block"] else 1
            m = n // b * b
            self.X, self.Y, self.block = self.X[:m], self.Y[:m], b
            if share in ("input", "both"):
                self.X = np.tile(self.X[:b], (m // b, *[1] * len(self.xs)))
            if share in ("target", "both"):
                self.Y = np.tile(self.Y[:b], (m // b, *[1] * len(self.os)))

    # jax
    def pred(self, x):
        z = jnp.tanh(jnp.asarray(self.A) @ jnp.reshape(x, (-1,))) + jnp.asarray(self.c)
        z = z.reshape(self.os)
        return {"pred_mean": z, "pred_var": 0.1 + z * z, "first": jnp.sum(x)}

    # numpy
    def npred(self, x):
        z = (np.tanh(self.A @ np.reshape(x, -1)) + self.c).reshape(self.os)
        return {"pred_mean": z, "pred_var": 0.1 + z * z, "first": np.sum(x)}

    def data(self):
        return {"input": jnp.asarray(self.X), "target": jnp.asarray(self.Y)}


def sq(pred_mean, target, **kw):
    return jnp.mean((pred_mean - target) ** 2)


def chi(pred_mean, pred_var, target, **kw):
    return (pred_mean - target) ** 2 / pred_var


def count(first, **kw):
    return first * 2


def expected(s: Setup):
    out = {"sq": [], "chi": [], "count": [], "mean_again": [], "y2": []}
    for x, y in zip(s.X, s.Y, strict=True):
        p = s.npred(x)
        out["sq"].append(np.mean((p["pred_mean"] - y) ** 2))
        out["chi"].append((p["pred_mean"] - y) ** 2 / p["pred_var"])
        out["count"].append(p["first"] * 2)
        out["mean_again"].append(p["pred_mean"])
        out["y2"].append(y * 2.0)
    return {k: np.stack(v) for k, v in out.items()}


def metric_args(spec):
    """(keyword arguments, names they report)"""
    lst, dct, names = [], {}, []
    amap = {"pred_mean": "pred_mean", "pred_var": "pred_var", "target": "target", "first": "first"}
    for m in spec["lst"]:
        if m == "mean_again":
            lst.append(transfer_entry({"mean_again": "pred_mean"}))
        elif m == "y2":
            lst.append(apply_fns(lambda t, **kw: t * 2.0, names=["y2"], t="target"))
        else:
            f = {"sq": sq, "chi": chi, "count": count}[m]
            lst.append(apply_fns(f, **amap) if spec["mapped"] else apply_fns(f, names=[m]))
        names.append(m)
    for m in spec["dct"]:
        dct[m] = {"sq": sq, "chi": chi, "count": count,
                  "mean_again": lambda pred_mean, **kw: pred_mean,
                  "y2": lambda target, **kw: target * 2.0}[m]
        names.append(m)
    kw = {}
    if lst or not dct:
        if not lst:
            lst, names = [apply_fns(sq, names=["sq"])], ["sq"]
        kw["metrics"] = lst
    if dct:
        kw["metrics_dict"] = dct
    return kw, sorted(set(names))


def cmp(res, exp, names, x64, what, red=lambda a: a):
    expect(set(res) == set(names), f"{what}: entries {sorted(res)}, expected {names}")
    for k in names:
        close(res[k], red(exp[k]), f"{what}: {k}", x64=x64, scale=1.0)


def copies(kw):
    return {k: type(kw[k])(kw[k]) for k in ("metrics", "metrics_dict") if k in kw}


def alone(kw, before, call, what):
    """Lists and dictionaries of metrics are as before, and report only their own metrics."""
    for k, v in before.items():
        expect(kw[k] == v, f"{what}: the caller's {k} changed")
    if len(before) == 2:
        for k, v in before.items():
            names = set(call(**{k: v}))
            expect(set(call(**{k: kw[k]})) == names, f"{what}: metrics of {k} alone changed after a joint evaluation")


REDUCE = {"none": (None, lambda a: a), "mean": (jnp.mean, np.mean), "sum": (jnp.sum, np.sum),
          "square": (lambda a: a ** 2 + 1, lambda a: a ** 2 + 1),
          "last": (lambda a: a[-1], lambda a: a[-1])}


def bs(spec, own):
    o = {}
    if spec["bs"]:
        o["data_batch_size"] = spec["bs"]
    if spec["own_bs"]:
        o[own] = spec["own_bs"]
    return o


def run_dataset(spec):
    s = Setup(spec)
    x64 = spec["x64"]
    data = s.data()
    exp = expected(s)
    res = evaluate_on_dataset(s.pred, data, **bs(spec, "evaluate_on_dataset_batch_size"))
    P = [s.npred(x) for x in s.X]
    expect(set(res) == {"pred_mean", "pred_var", "first", "target"}, f"entries {sorted(res)}")
    for k in ("pred_mean", "pred_var", "first"):
        close(res[k], np.stack([p[k] for p in P]), f"prediction {k}", x64=x64, scale=1.0)
    close(res["target"], s.Y, "targets", x64=x64)
    kw, names = metric_args(spec)
    before = copies(kw)
    calls = []
    red, nred = REDUCE[spec["reduce"]]
    if red is not None:
        kw["reduce"] = lambda a: (calls.append(np.shape(a)), red(a))[1]
    res = evaluate_metrics_on_dataset(s.pred, data, **kw,
                                      **bs(spec, "evaluate_metrics_on_dataset_batch_size"))
    cmp(res, exp, names, x64, "dataset", nred)
    alone(kw, before, lambda **k: evaluate_metrics_on_dataset(s.pred, data, **k), "dataset")
    if red is not None:
        expect(len(calls) == len(names), f"reduction applied {len(calls)} times to {names}")
    if spec["again"]:  # a second evaluation with the same metric objects
        res = evaluate_metrics_on_dataset(s.pred, data, **{**kw, "reduce": lambda a: a})
        cmp(res, exp, names, x64, "second evaluation")
    return s.spec["n"] > 1


def batches(spec, data, tr):
    n, share = data["input"].shape[0], spec["share"]
    sizes = gen.fit_split(spec["split"], n)
    if share != "none":
        block = spec["block"] if spec["n"] >= 2 * spec["block"] else 1
        sizes = [block] * (n // block)
    if spec["np"]:
        data = {k: np.asarray(v) for k, v in data.items()}
    X, Y = gen.cut(data["input"], sizes), gen.cut(data["target"], sizes)
    if share in ("input", "both"):
        X = [X[0]] * len(X)
    if share in ("target", "both"):
        Y = [Y[0]] * len(Y)
    bs_ = [{"input": a, "target": b} for a, b in zip(X, Y, strict=True)]
    if tr == "tuple":
        bs_ = [(b["input"], b["target"]) for b in bs_]
    elif tr == "renamed":
        bs_ = [{"x": b["input"], "y": b["target"], "id": i} for i, b in enumerate(bs_)]
    return sizes, bs_


def refill(bts):
    """One dictionary object, refilled for every batch."""
    d = {}
    for b in bts:
        d.clear()
        d.update(b)
        yield d


TRANS = {"dict": None, "tuple": lambda b: {"input": b[0], "target": b[1]},
         "renamed": lambda b: {"input": b["x"], "target": b["y"]}}


def run_generator(spec):
    s = Setup(spec)
    x64, tr = spec["x64"], spec["trans"]
    data = s.data()
    exp = expected(s)
    sizes, bts = batches(spec, data, tr)
    kw, names = metric_args(spec)
    before = copies(kw)
    seen = []
    if tr != "dict":
        kw["transform"] = lambda b: (seen.append(b), TRANS[tr](b))[1]
    n_red = []
    form = spec["reduce"]
    if form == "concat":
        kw["reduce"] = lambda parts: (n_red.append(len(parts)), jnp.concatenate(parts))[1]
    elif form == "mean":
        kw["reduce"] = lambda parts: (n_red.append(len(parts)), jnp.mean(jnp.concatenate(parts)))[1]
    if spec["expl"]:
        kw["vmap_over_data"] = True
    src = {"list": lambda: bts, "iter": lambda: iter(bts), "gen": lambda: (b for b in bts),
           "tuple": lambda: tuple(bts), "refill": lambda: bts if tr == "tuple" else refill(bts)}[spec["src"]]()
    res = evaluate_metrics_on_generator(s.pred, src, **kw)
    expect(set(res) == set(names), f"entries {sorted(res)}, expected {names}")
    if tr != "dict":
        expect(len(seen) == len(bts) and (spec["src"] == "refill" or
                                          all(a is b for a, b in zip(seen, bts, strict=True))),
               "batches transformed out of order or not once each")
    for k in names:
        if form == "none":
            expect(len(res[k]) == len(sizes), f"{len(res[k])} batch results for {len(sizes)} batches")
            for i, (a, e) in enumerate(zip(res[k], gen.cut(exp[k], sizes), strict=True)):
                close(a, e, f"batch {i}: {k}", x64=x64, scale=1.0)
            got = np.concatenate([np.asarray(a) for a in res[k]])
            close(got, exp[k], f"concatenated batches: {k}", x64=x64, scale=1.0)
        elif form == "concat":
            close(res[k], exp[k], f"concatenated: {k}", x64=x64, scale=1.0)
        else:
            close(res[k], np.mean(exp[k]), f"mean: {k}", x64=x64, scale=1.0)
    if form != "none":
        expect(n_red == [len(sizes)] * len(names), f"reduction calls {n_red}")
    # the same through the dataset function
    kd = {k: kw[k] for k in ("metrics", "metrics_dict") if k in kw}
    ds = evaluate_metrics_on_dataset(s.pred, data, **kd)
    cmp(ds, exp, names, x64, "dataset")
    alone(kw, before, lambda **k: evaluate_metrics_on_dataset(s.pred, data, **k), "dataset after a generator")
    return spec["n"] > 1


def run_points(spec):
    """Generators of single points (no batch axis), and empty generators."""
    s = Setup(spec)
    exp = expected(s)
    kw, names = metric_args(spec)
    pts = ({"input": jnp.asarray(x), "target": jnp.asarray(y)} for x, y in zip(s.X, s.Y, strict=True))
    res = evaluate_metrics_on_generator(s.pred, pts, vmap_over_data=False, reduce=jnp.stack, **kw)
    cmp(res, exp, names, spec["x64"], "points")
    expect(evaluate_metrics_on_generator(s.pred, iter([]), **kw) == {}, "empty generator")
    with raises(ValueError, "dataset without metrics"):
        evaluate_metrics_on_dataset(s.pred, s.data())
    with raises(ValueError, "generator without metrics"):
        evaluate_metrics_on_generator(s.pred, iter([s.data()]))
    return spec["n"] > 1


def run_prior(spec):
    """Objective values: the metric of all stacked predictions for the given prior."""
    s = Setup(spec)
    x64 = spec["x64"]
    tau, got = spec["tau"], []

    def set_pred(prior_arguments, flag=None, **kw):
        got.append((dict(prior_arguments), flag))

        def pred(x):
            p = s.pred(x)
            return {**p, "pred_std": jnp.sqrt(p["pred_var"] / prior_arguments["prior_prec"])}

        return pred

    kw = bs(spec, "evaluate_for_given_prior_arguments_batch_size")
    mk = {}

    def metric(*, pred_mean, pred_std, target, first, pred_var, **rest):
        mk["rest"], mk["shape"] = sorted(rest), pred_mean.shape
        return jnp.sum((pred_mean - target) ** 2 / pred_std) + 3 * jnp.max(first) + first[0]

    args = dict(data=s.data(), set_prob_predictive=set_pred, prior_arguments={"prior_prec": tau}, **kw)
    if spec["again"]:
        args["flag"] = 7
    f = lambda t: evaluate_for_given_prior_arguments(**{**args, "prior_arguments": {"prior_prec": t}},  # noqa: E731
                                                     metric=metric)
    val = jax.jit(f)(tau) if spec["jit"] else f(tau)
    P = [s.npred(x) for x in s.X]
    mean, var = np.stack([p["pred_mean"] for p in P]), np.stack([p["pred_var"] for p in P])
    first = np.array([p["first"] for p in P])
    e = np.sum((mean - s.Y) ** 2 / np.sqrt(var / tau)) + 3 * first.max() + first[0]
    close(val, e, "metric value", x64=x64, scale=1.0)
    expect(mk["rest"] == [] and mk["shape"] == mean.shape, f"metric arguments {mk}")
    if spec["again"]:
        expect(got[-1][1] == 7, "keyword argument not passed to the predictive")
    val = evaluate_for_given_prior_arguments(**args)
    chi2 = np.mean((mean - s.Y) ** 2 / (var / tau))
    close(val, abs(chi2 - 1), "default metric", x64=x64, scale=max(chi2, 1.0))
    return spec["n"] > 1


M = ["sq", "chi", "count", "mean_again", "y2"]
base = dict(
    n=gen.counts(1, 9, 60), x=st.sampled_from([[1], [2], [], [2, 2]]), o=st.sampled_from([[1], [2], [], [2, 2]]),
    seed=gen.seeds, intx=st.booleans(), lst=st.lists(st.sampled_from(M), max_size=4, unique=True),
    dct=st.lists(st.sampled_from(M), max_size=3, unique=True), mapped=st.booleans(),
    again=st.booleans(), bs=st.one_of(st.none(), gen.counts(1, 12, 64)),
    own_bs=st.one_of(st.none(), st.none(), gen.counts(1, 12, 64)), x64=gen.x64s)
SUBS = [
    Sub("dataset", st.fixed_dictionaries({
        **base, "n": gen.rarely(st.integers(1, 9), st.sampled_from([17, 33, 100, 150, 257, 300])),
        "reduce": st.sampled_from(sorted(REDUCE))}),
        run_dataset, quick=200),
    Sub("generator", st.fixed_dictionaries({
        **base, "split": st.lists(st.integers(1, 5), min_size=1, max_size=9),
        "share": st.sampled_from(["none", "none", "none", "input", "target", "both"]),
        "block": st.integers(1, 3), "np": st.booleans(),
        "trans": st.sampled_from(sorted(TRANS)), "src": st.sampled_from(["list", "iter", "gen", "tuple", "refill"]),
        "reduce": st.sampled_from(["none", "concat", "mean"]), "expl": st.booleans()}),
        run_generator, quick=160),
    Sub("points", st.fixed_dictionaries(base), run_points, quick=40),
    Sub("prior", st.fixed_dictionaries({**base, "tau": gen.log_floats(0.1, 10), "jit": st.booleans()}),
        run_prior, quick=80),
]
