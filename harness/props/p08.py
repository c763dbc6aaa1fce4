"""P08 Sampling predictive equals statistics of the weight-sample ensemble."""
from functools import partial

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Sub, close, expect, flat, same_structure
from harness.post import Post, check_standard_normal, extreme_specs, identity_model, post_specs
from harness.props.p07 import call
from laplax.eval.pushforward import (
    nonlin_mc_pred_act,
    nonlin_pred_cov,
    nonlin_pred_mean,
    nonlin_pred_std,
    nonlin_pred_var,
    nonlin_samples,
    nonlin_setup,
    set_get_weight_sample,
    set_nonlin_pushforward,
)

RULE = (
    "Cases: non-linear formula models, posteriors of all types, every subset and order of the "
    "statistics, 1-150 weight samples, posteriors of any sharpness, plain/jit/vmap, with and without precomputation and batch "
    "sizes; weights of the ensemble are read out through a model that returns its parameters; "
    "oracle: numpy statistics of the numpy model. Non-trivial: at least two samples."
)
ASSUMPTIONS = [
    "covariance uses the unbiased normalisation, variance and deviation the plain mean unless "
    "the covariance was computed before (documented: its diagonal is used)",
    "statistical sub-check: bounds at 6.5 standard deviations",
]
FNS = {"mean": nonlin_pred_mean, "cov": nonlin_pred_cov, "var": nonlin_pred_var,
       "std": nonlin_pred_std, "samples": nonlin_samples, "mc": nonlin_mc_pred_act}


def weights(m, po, N, key, **kw):
    """Weight samples of the ensemble, through a model that returns its parameters."""
    pf = set_nonlin_pushforward(
        identity_model(m.params), m.params, po.fn, po.prior, key=key, loss_scaling_factor=po.ls,
        pushforward_fns=[nonlin_setup, partial(nonlin_samples, num_samples=N)], num_samples=N, **kw)
    return np.asarray(pf(jnp.zeros(1))["samples"], float)


def run_stats(spec):
    m = gen.Model(spec["model"])
    po = Post(spec["post"], m)
    N, x64 = spec["N"], spec["x64"]
    X = m.inputs(spec["n"], spec["seed"])
    key = jax.random.key(spec["seed"] % 1013)
    stats = [s for s in spec["stats"] if s != "mc" or len(m.oshape) == 1]
    sub = spec["sub"]
    fns = [nonlin_setup] + [
        partial(nonlin_samples, num_samples=sub) if k == "samples" and sub else FNS[k] for k in stats]
    kw = {}
    if spec["pre"] is not None:
        kw["set_get_weight_sample_precompute"] = spec["pre"]
    if spec["wb"]:
        kw[spec["wbname"]] = spec["wb"]
    pf = set_nonlin_pushforward(m.fn(), m.params, po.fn, po.prior, key=key,
                                loss_scaling_factor=po.ls, pushforward_fns=fns, num_samples=N, **kw)
    res = call(pf, X, spec["how"])
    w = weights(m, po, N, key)
    expect(w.shape == (N, m.P), f"{w.shape[0]} weight samples instead of {N}")
    rt = (1e-8 if x64 else 1e-3) * max(m.noise(X, v) for v in w)
    for i, x in enumerate(X):
        F = np.stack([m.f(x, v) for v in w])  # N, K
        # single precision: parameters are rounded, so are the weights
        sc = float(np.abs(F).max()) + 1.0
        c = F - F.mean(0)
        cov1 = c.T @ c / (N - 1) if N > 1 else np.full((m.K, m.K), np.nan)
        var0 = (c * c).mean(0)
        # rounding of the outputs enters the variances once, relative to the spread
        vs = float(np.abs(c).max()) ** 2 + 1e-5 * sc * float(np.abs(c).max()) if x64 else sc ** 2
        close(res["map"][i], m.f(x).reshape(m.oshape), "map", x64=x64, scale=sc)
        have_cov = False
        for k in stats:
            if k == "mean":
                close(res["pred_mean"][i], F.mean(0).reshape(m.oshape), "pred_mean", rtol=rt, scale=sc)
            elif k == "cov":
                have_cov = True
                close(np.reshape(res["pred_cov"][i], (m.K, m.K)), cov1, "pred_cov", rtol=10 * rt, scale=vs)
            elif k == "var":
                e = np.diag(cov1) if have_cov else var0
                close(res["pred_var"][i], e.reshape(m.oshape), "pred_var", rtol=10 * rt, scale=vs)
            elif k == "std":
                got = res["pred_std"][i]
                v = res["pred_var"][i] if "var" in stats[:stats.index("std")] else var0.reshape(m.oshape)
                close(got, np.sqrt(v), "pred_std", rtol=100 * rt if x64 else 0.05, scale=sc)
                close(got ** 2, v, "pred_std squared", rtol=10 * rt, scale=vs)
            elif k == "samples":
                n = min(N, sub or 5)
                close(res["samples"][i], F[:n].reshape(n, *m.oshape), "samples", rtol=rt, scale=sc)
            elif k == "mc":
                n = N
                if "samples" in stats[:stats.index("mc")]:
                    n = min(N, sub or 5)
                p = np.mean([gen.softmax(f) for f in F[:n]], axis=0)
                close(res["mc_pred_act"][i], p, f"mc_pred_act over {n} samples", rtol=10 * rt, scale=1.0)
    return N > 1


def run_ensemble(spec):
    """Statistics against the samples of the same call; outputs far from zero for their spread.

    The model returns its parameters, so that the samples are exact and the tolerance can be tight."""
    m = gen.Model(spec["model"])
    po = Post({**spec["post"], "s2": None, "ls": 1.0}, m)
    N, x64 = spec["N"], spec["x64"]
    r = np.random.default_rng(spec["seed"])
    spread = np.sqrt(np.diag(po.cov()))
    mean = m.tree(spread * spec["ratio"] ** (2 if x64 else 1) * r.choice([-1.0, 1.0], size=m.P))
    stats = spec["stats"]
    pf = set_nonlin_pushforward(
        identity_model(mean), mean, po.fn, po.prior, key=jax.random.key(spec["seed"] % 1013),
        pushforward_fns=[nonlin_setup, *[FNS[k] for k in stats], partial(nonlin_samples, num_samples=N)],
        num_samples=N)
    res = call(pf, jnp.zeros((1, 1)), spec["how"])
    F = np.asarray(res["samples"][0], float)
    expect(F.shape == (N, m.P), f"samples of shape {F.shape}")
    c = F - F.mean(0)
    cov, var = c.T @ c / (N - 1), (c * c).mean(0)
    rt = 1e-4 if x64 else 0.05
    for k in stats:
        got = np.asarray(res["pred_" + k][0], float)
        if k == "mean":
            close(got / F.mean(0), np.ones(m.P), "pred_mean of the samples", rtol=1e-12 if x64 else 5e-5)
        elif k == "cov":
            d = np.sqrt(np.diag(cov))
            close(got.reshape(cov.shape) / np.outer(d, d), cov / np.outer(d, d), "pred_cov of the samples", rtol=rt)
        else:
            # the deviation follows from a variance computed before, that from a covariance
            chain = k == "var" or "var" in stats[:stats.index("std")]
            v = np.diag(cov) if chain and "cov" in stats[:stats.index("var")] else var
            close(got / (v if k == "var" else np.sqrt(v)), np.ones(m.P), f"pred_{k} of the samples", rtol=rt)
    return N > 2


def run_weights(spec):
    """set_get_weight_sample: mean + S z_i, any order of access, precomputed or not."""
    m = gen.Model(spec["model"])
    po = Post(spec["post"], m)
    N = spec["N"]
    post = po.fn(po.prior, po.ls)
    scale = post.scale_mv(post.state)
    key = None if spec["nokey"] else jax.random.key(spec["seed"] % 997)
    kw = {}
    if spec["pre"] is not None:
        kw[spec["prename"]] = spec["pre"]
    if spec["bs"]:
        kw["precompute_list_batch_size"] = spec["bs"]
    get = set_get_weight_sample(key, m.params, scale, N, **kw)
    ref = set_get_weight_sample(jax.random.key(0) if key is None else key, m.params, scale, N)
    r = np.random.default_rng(spec["seed"])
    order = r.permutation(N)
    S = np.stack([flat(scale(m.tree(e))) for e in np.eye(m.P)], axis=1)
    x64 = spec["x64"]
    seen = {}
    for i in order:
        t = get(int(i))
        same_structure(t, m.params, "weight sample")
        seen[int(i)] = flat(t)
        close(seen[int(i)], flat(ref(int(i))), "weight sample with and without options", x64=x64,
              scale=1.0 + float(np.abs(S).max()), rtol=1e-9 if x64 else 1e-4)
    close(flat(get(int(order[0]))), seen[int(order[0])], "second access", x64=x64)
    # traced index
    close(flat(jax.jit(get)(int(order[-1]))), seen[int(order[-1])], "traced access", x64=x64, scale=1.0)
    W = np.stack([seen[i] for i in range(N)])
    z = np.linalg.solve(S, (W - m.v).T).T
    expect(np.abs(z).max() < 8, f"standardised weights as large as {np.abs(z).max()}")
    if N > 1:
        expect(len({tuple(np.round(a, 6)) for a in z}) == N, "two weight samples coincide")
    return N > 1


def run_reproducible(spec):
    m = gen.Model(spec["model"])
    po = Post(spec["post"], m)
    s = spec["seed"] % 1000
    a = weights(m, po, 6, jax.random.key(s))
    b = weights(m, po, 6, jax.random.key(s))
    c = weights(m, po, 6, jax.random.key(s + 1))
    d = weights(m, po, 6, jax.random.key(s), set_get_weight_sample_precompute=False)
    e = weights(m, po, 6, jax.random.key(s), nonlin_setup_batch_size=4)
    f = weights(m, po, 6, jax.random.key(s), weight_batch_size=2)
    g = weights(m, po, 6, jax.random.key(s), precompute=spec["pre"])
    expect(np.array_equal(a, b), "same key, different weights")
    expect(not np.allclose(a, c), "weights do not depend on the key")
    for o, what in ((d, "precompute=False"), (e, "nonlin_setup_batch_size"), (f, "weight_batch_size"),
                    (g, "precompute")):
        close(o, a, f"weights with {what}", x64=spec["x64"], scale=1.0, rtol=1e-9 if spec["x64"] else 1e-4)
    return True


def run_distribution(spec):
    m = gen.Model(spec["model"])
    po = Post(spec["post"], m)
    N = spec["N"]
    kw = {} if spec["pre"] is None else {"set_get_weight_sample_precompute": spec["pre"]}
    w = weights(m, po, N, jax.random.key(spec["seed"]), **kw) - m.v
    L = np.linalg.cholesky(po.cov())
    z = np.linalg.solve(L, w.T).T
    # whitening by L leaves an orthogonal factor: still standard normal
    check_standard_normal(z, "weight samples")
    return True


pre = st.sampled_from([None, True, False])
base = dict(model=gen.model_specs(codes=True, max_total=9, wide=30), post=post_specs, seed=gen.seeds, x64=gen.x64s)
SUBS = [
    Sub("stats", st.fixed_dictionaries({
        **base, "post": extreme_specs, "n": st.integers(1, 2),
        "N": gen.rarely(st.sampled_from([2, 3, 5, 6, 12, 12]), st.sampled_from([17, 33, 65, 130, 257, 300]), 7),
        "stats": st.lists(st.sampled_from(sorted(FNS)), min_size=1, max_size=6, unique=True),
        "how": st.sampled_from(["plain", "jit", "vmap"]), "pre": pre,
        "wb": st.sampled_from([0, 0, 1, 4, 20]),
        "wbname": st.sampled_from(["nonlin_setup_batch_size", "weight_batch_size"]),
        "sub": st.sampled_from([0, 0, 2, 12])}), run_stats, quick=160),
    Sub("ensemble", st.fixed_dictionaries({
        **base, "ratio": st.sampled_from([1.0, 30.0, 300.0, 1000.0, 3000.0]), "N": gen.counts(4, 12, 40),
        "stats": st.lists(st.sampled_from(["mean", "cov", "var", "std"]), min_size=1, max_size=4, unique=True),
        "how": st.sampled_from(["plain", "jit", "vmap"])}), run_ensemble, quick=48),
    Sub("weights", st.fixed_dictionaries({
        **base, "N": gen.huge(gen.counts(1, 9, 150)), "pre": pre,
        "prename": st.sampled_from(["set_get_weight_sample_precompute", "precompute"]),
        "bs": st.sampled_from([0, 0, 2, 4]), "nokey": st.booleans()}), run_weights, quick=56),
    Sub("reproducible", st.fixed_dictionaries({**base, "pre": pre}), run_reproducible, quick=24),
    Sub("distribution", st.fixed_dictionaries({**base, "N": st.sampled_from([300, 800]), "pre": pre}),
        run_distribution, quick=32),
]
