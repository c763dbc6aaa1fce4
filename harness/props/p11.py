"""P11 Regression and scoring metrics equal their definitions."""
import math

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Sub, close, expect, raises
from laplax.eval.metrics import (
    DEFAULT_REGRESSION_METRICS,
    DEFAULT_REGRESSION_METRICS_DICT,
    accuracy,
    chi_squared,
    chi_squared_zero,
    correctness,
    crps_gaussian,
    cross_entropy,
    estimate_rmse,
    multiclass_brier,
    nll_gaussian,
)
from laplax.eval.utils import finalize_fns

RULE = (
    "Cases: predictions/targets of shapes () to 3 axes, scales 1e-8..1e8, standard deviations "
    "over four orders of magnitude, classes 2-7 with index or one-hot targets, ties excluded, "
    "jit/vmap on and off; oracle: numpy definitions (CRPS additionally by numerical "
    "integration). Non-trivial: more than one prediction."
)
ASSUMPTIONS = ["math.erf and trapezoidal integration of the CRPS with error below 1e-5"]


def Phi(z):
    return 0.5 * (1 + np.vectorize(math.erf)(np.asarray(z, float) / math.sqrt(2)))


def phi(z):
    return np.exp(-0.5 * np.asarray(z, float) ** 2) / math.sqrt(2 * math.pi)


def crps(mu, s, y):
    z = (y - mu) / s
    return s * (z * (2 * Phi(z) - 1) + 2 * phi(z) - 1 / math.sqrt(math.pi))


def crps_integral(mu, s, y):
    """integral of (F(t) - 1[t >= y])^2 dt."""
    lo, hi = min(mu - 12 * s, y) - s, max(mu + 12 * s, y) + s
    out = 0.0
    for a, b, step in ((lo, y, 0.0), (y, hi, 1.0)):
        t = np.linspace(a, b, 20001)
        f = (Phi((t - mu) / s) - step) ** 2
        out += float(np.sum((f[1:] + f[:-1]) / 2 * np.diff(t)))
    return out


def nll(mu, s, y):
    return 0.5 * np.log(2 * np.pi) + np.log(s) + 0.5 * ((y - mu) / s) ** 2


def run_regression(spec):
    shape, x64 = tuple(spec["shape"]), spec["x64"]
    r = np.random.default_rng(spec["seed"])
    sc = spec["scale"]
    y = sc * np.round(r.normal(size=shape), 4)
    s = sc * spec["std"] * np.exp(r.uniform(-1, 1, size=shape))
    mu = y.copy() if spec["perfect"] else y + s * np.round(r.normal(size=shape), 3) * spec["err"]
    if not x64:
        y, s, mu = (np.asarray(a, np.float32).astype(float) for a in (y, s, mu))
    J = lambda a: jnp.asarray(a)  # noqa: E731
    wrap = jax.jit if spec["jit"] else (lambda f: f)
    extra = {"map": 0.0, "something": None} if spec["extra"] else {}
    kw = dict(pred_mean=J(mu), pred_std=J(s), target=J(y), **extra)
    n = max(y.size, 1)
    # cancellation of mu - y in single precision
    dz = float(np.max(np.abs(y) / s)) * (1e-15 if x64 else 2e-7)
    z = (mu - y) / s
    zt = (np.abs(z) * dz * 2 + dz ** 2).max() + (1e-9 if x64 else 1e-5) * (1 + (z * z).max())
    chi = (z * z).mean()
    close(wrap(estimate_rmse)(pred_mean=J(mu), target=J(y)), np.sqrt(((mu - y) ** 2).mean()), "rmse",
          rtol=1e-9 if x64 else 1e-4, scale=float(np.abs(y).max()) * (1e-6 if x64 else 1e-2))
    close(estimate_rmse(**kw), np.sqrt(((mu - y) ** 2).mean()), "rmse with extra entries",
          rtol=1e-9 if x64 else 1e-4, scale=float(np.abs(y).max()) * (1e-6 if x64 else 1e-2))
    close(chi_squared(**kw), chi, "chi-squared", atol=zt)
    close(chi_squared(**kw, averaged=True), chi, "averaged chi-squared", atol=zt)
    close(chi_squared(**kw, averaged=False), chi * n, "summed chi-squared", atol=zt * n)
    close(chi_squared_zero(**kw), abs(chi - 1), "zero-centred chi-squared", atol=zt)
    if "averaged" in spec["opts"]:
        close(chi_squared_zero(**kw, averaged=False), abs(chi * n - 1), "summed zero-centred chi-squared",
              atol=zt * n)
    e = nll(mu, s, y)
    t = zt + (1e-10 if x64 else 1e-5) * (1 + np.abs(np.log(s)).max())
    close(nll_gaussian(**kw), e.mean(), "nll", atol=t)
    close(nll_gaussian(**kw, scaled=True), e.mean(), "scaled nll", atol=t)
    close(nll_gaussian(**kw, scaled=False), e.sum(), "summed nll", atol=t * n)
    c = crps(mu, s, y)
    t = ((1e-9 if x64 else 1e-5) * (1 + np.abs(z)) + dz).max() * s.max()
    close(crps_gaussian(**kw), c.mean(), "crps", atol=t)
    close(crps_gaussian(**kw, scaled=False), c.sum(), "summed crps", atol=t * n)
    # orders of the samples do not matter
    if y.ndim:
        p = r.permutation(y.shape[0])
        kp = dict(pred_mean=J(mu[p]), pred_std=J(s[p]), target=J(y[p]))
        for f, exp_, tt in ((nll_gaussian, e.mean(), zt + (1e-10 if x64 else 1e-5) * (1 + np.abs(np.log(s)).max())),
                            (crps_gaussian, c.mean(), t), (chi_squared, chi, zt)):
            close(f(**kp), exp_, f"{f.__name__} of permuted samples", atol=tt)
    # the default lists apply exactly these metrics
    res = finalize_fns(DEFAULT_REGRESSION_METRICS, {}, {"pred_mean": J(mu), "pred_std": J(s),
                                                       "target": J(y), "map": J(mu)})
    expect(set(res) == {"rmse", "chi^2", "nll", "crps"} == set(DEFAULT_REGRESSION_METRICS_DICT),
           f"default metrics {sorted(res)}")
    for k, f in DEFAULT_REGRESSION_METRICS_DICT.items():
        close(res[k], f(pred_mean=J(mu), pred_std=J(s), target=J(y)), f"default metric {k}", x64=x64)
    for k, f in (("rmse", estimate_rmse), ("chi^2", chi_squared), ("nll", nll_gaussian),
                 ("crps", crps_gaussian)):
        close(res[k], f(pred_mean=J(mu), pred_std=J(s), target=J(y)), f"default metric {k}", x64=x64)
    if y.ndim and y.shape[0] > 1:
        for f in (nll_gaussian, crps_gaussian):
            with raises(ValueError, f"{f.__name__} with incompatible shapes"):
                f(pred_mean=J(mu), pred_std=J(s), target=J(y[:-1]))
            with raises(ValueError, f"{f.__name__} with incompatible standard deviations"):
                f(pred_mean=J(mu), pred_std=J(s[:1]), target=J(y))
    return n > 1


def run_offset(spec):
    """Large means and targets whose difference is exact in the arithmetic in use."""
    n, x64 = spec["n"], spec["x64"]
    r = np.random.default_rng(spec["seed"])
    off = float(2 ** spec["log2"])
    y = spec["sign"] * (off + r.integers(-64, 65, size=n) / 64.0)
    mu = y + r.integers(-64, 65, size=n) / 64.0
    s = r.integers(8, 65, size=n) / 32.0
    dt = np.float64 if x64 else np.float32
    expect(np.array_equal(y.astype(dt), y) and np.array_equal(mu.astype(dt), mu), "offset data must be exact")
    kw = dict(pred_mean=jnp.asarray(mu.astype(dt)), pred_std=jnp.asarray(s.astype(dt)), target=jnp.asarray(y.astype(dt)))
    z = (mu - y) / s
    rt = 1e-10 if x64 else 2e-5
    close(estimate_rmse(**kw), np.sqrt(((mu - y) ** 2).mean()), "rmse of offset data", rtol=rt, scale=1.0)
    close(chi_squared(**kw), (z * z).mean(), "chi-squared of offset data", rtol=rt, scale=1.0 + (z * z).max())
    close(nll_gaussian(**kw), nll(mu, s, y).mean(), "nll of offset data", rtol=rt, scale=2.0 + (z * z).max())
    close(crps_gaussian(**kw), crps(mu, s, y).mean(), "crps of offset data", rtol=rt, scale=s.max() * (1 + np.abs(z).max()))
    return off > 100


def run_crps_integral(spec):
    mu, s, y = spec["mu"], spec["s"], spec["mu"] + spec["s"] * spec["z"]
    got = crps_gaussian(jnp.asarray([mu]), jnp.asarray([s]), jnp.asarray([y]))
    close(got, crps_integral(mu, s, y), "crps vs its integral", rtol=1e-5, scale=s)
    close(got, crps(mu, s, y), "crps vs closed form", rtol=1e-9, scale=s)
    return True


def class_data(spec):
    n, C = spec["n"], spec["C"]
    r = np.random.default_rng(spec["seed"])
    logits = spec["scale"] * r.permuted(np.tile(np.arange(C) + r.uniform(-0.3, 0.3), (n, 1)), axis=1)
    lab = r.integers(0, C, size=n)
    if spec["perfect"]:
        lab = logits.argmax(1)
    return r, logits, lab


def run_classification(spec):
    n, C, x64 = spec["n"], spec["C"], spec["x64"]
    r, logits, lab = class_data(spec)
    hot = np.eye(C)[lab]
    targets = {"index": jnp.asarray(lab), "one-hot": jnp.asarray(hot),
               "int one-hot": jnp.asarray(hot.astype(int))}
    L = jnp.asarray(logits)
    corr = logits.argmax(1) == lab
    rank = (logits > logits[np.arange(n), lab][:, None]).sum(1)
    ks = tuple(spec["ks"])
    for name, t in targets.items():
        f = jax.jit(correctness) if spec["jit"] else correctness
        got = np.asarray(f(L, t))
        expect(got.shape == (n,) and np.array_equal(got.astype(bool), corr),
               f"correctness with {name} targets: {got}, expected {corr}")
        acc = accuracy(L, t, top_k=ks)
        expect(len(acc) == len(ks), f"{len(acc)} accuracies for {ks}")
        for k, a in zip(ks, acc, strict=True):
            close(a, 100.0 * np.mean(rank < k), f"top-{k} accuracy with {name} targets", rtol=1e-5,
                  scale=1.0)
        (a1,) = accuracy(L, t)
        close(a1, 100.0 * corr.mean(), f"accuracy with {name} targets", rtol=1e-5, scale=1.0)
        p = np.stack([gen.softmax(row) for row in logits])
        b = multiclass_brier(jnp.asarray(p), t)
        close(b, ((p - hot) ** 2).mean(), f"Brier score with {name} targets",
              rtol=1e-9 if x64 else 1e-5, scale=1.0)
        if spec["perfect"]:
            close(multiclass_brier(jnp.asarray(hot), t), 0.0, "Brier score of perfect predictions")
    perm = r.permutation(n)
    close(multiclass_brier(jnp.asarray(p[perm]), jnp.asarray(lab[perm])), ((p - hot) ** 2).mean(),
          "Brier score of permuted samples", rtol=1e-9 if x64 else 1e-5, scale=1.0)
    close(accuracy(L[perm], jnp.asarray(lab[perm]), top_k=ks), [100.0 * np.mean(rank < k) for k in ks],
          "accuracy of permuted samples", rtol=1e-5, scale=1.0)
    # single samples (as inside vmap)
    one = jax.vmap(lambda a, b: correctness(a, b))(L, jnp.asarray(lab))
    expect(np.array_equal(np.asarray(one).astype(bool), corr), "vmapped correctness")
    return n > 1


def run_cross_entropy(spec):
    x64 = spec["x64"]
    shape, axis = spec["shape"], spec["axis"]
    r = np.random.default_rng(spec["seed"])
    q = r.dirichlet(np.ones(shape[-1]), size=tuple(shape[:-1])) + 1e-3
    p = r.dirichlet(np.ones(shape[-1]), size=tuple(shape[:-1]))
    if spec["hard"]:
        p = np.where(p == p.max(-1, keepdims=True), 1.0, 0.0)
        q = np.where(p == 0, 0.0, q) if spec["hard"] == 2 else q
    if spec["tiny"]:
        # confident models: probabilities far below the rounding of one
        q = np.maximum(q ** spec["tiny"], 1e-290 if x64 else 1e-36)
        q /= q.sum(-1, keepdims=True)
        q = np.maximum(q, 1e-290 if x64 else 1e-36)
    ax = -1 if axis is None else axis % len(shape)
    with np.errstate(all="ignore"):
        e = -np.where(p == 0, 0.0, p * np.log(np.where(p == 0, 1.0, q))).sum(ax)
    kw = {} if axis is None else {"axis": ax}
    close(cross_entropy(jnp.asarray(p), jnp.asarray(q), **kw), e, "cross-entropy",
          rtol=1e-9 if x64 else 1e-4, scale=1.0)
    return p.size > 1


shapes = st.lists(st.integers(1, 5), min_size=0, max_size=3)
SUBS = [
    Sub("regression", st.fixed_dictionaries({
        "shape": gen.rarely(shapes, st.lists(gen.huge(st.integers(1, 150), often=3), min_size=1, max_size=1), 7),
        "scale": gen.rarely(gen.log_floats(1e-3, 1e3), gen.log_floats(1e-8, 1e8), 5), "std": gen.log_floats(0.01, 100),
        "err": gen.rarely(gen.log_floats(0.01, 10), gen.log_floats(10, 1e5)), "perfect": st.sampled_from([False, False, False, True]),
        "jit": st.booleans(), "extra": st.booleans(), "opts": st.sampled_from(["", "averaged"]),
        "seed": gen.seeds, "x64": gen.x64s}), run_regression, quick=160),
    Sub("offset", st.fixed_dictionaries({
        "n": gen.counts(1, 8, 60), "seed": gen.seeds, "log2": st.integers(0, 15), "sign": st.sampled_from([1, -1]),
        "x64": gen.x64s}), run_offset, quick=48),
    Sub("crps_integral", st.fixed_dictionaries({
        "mu": st.floats(-3, 3), "s": gen.log_floats(0.1, 10), "z": st.floats(-5, 5),
        "x64": st.just(True)}), run_crps_integral, quick=60),
    Sub("classification", st.fixed_dictionaries({
        "n": gen.huge(gen.counts(1, 9, 120), often=20), "C": gen.counts(2, 7, 40, 4), "scale": gen.log_floats(0.05, 5),
        "perfect": st.booleans(), "jit": st.booleans(),
        "ks": st.lists(gen.counts(1, 9, 45), min_size=1, max_size=3), "seed": gen.seeds,
        "x64": gen.x64s}), run_classification, quick=160),
    Sub("cross_entropy", st.fixed_dictionaries({
        "shape": gen.rarely(st.lists(st.integers(1, 4), min_size=1, max_size=3),
                            st.lists(st.integers(1, 40), min_size=1, max_size=2), 5),
        "axis": st.one_of(st.none(), st.integers(0, 2)), "hard": st.integers(0, 2),
        "tiny": st.sampled_from([0, 0, 8, 30, 100]),
        "seed": gen.seeds, "x64": gen.x64s}), run_cross_entropy, quick=80),
]
