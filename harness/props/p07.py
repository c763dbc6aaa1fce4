"""P07 Linearised predictive is the exact Gaussian pushforward."""
from functools import partial

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Sub, close, expect
from harness.post import Post, check_standard_normal, extreme_specs, identity_model, post_specs
from laplax.eval.pushforward import (
    lin_mc_pred_act,
    lin_pred_cov,
    lin_pred_mean,
    lin_pred_std,
    lin_pred_var,
    lin_samples,
    lin_setup,
    set_lin_pushforward,
    set_prob_predictive,
)
from laplax.eval.pushforward import get_dist_state

RULE = (
    "Cases: formula models with closed-form Jacobians (outputs of shape () to (2,2)), "
    "posteriors of all four types with known covariance, every subset and order of the "
    "statistics, plain / jit / vmap calls; oracle: numpy J C J^T. "
    "Non-trivial: at least two parameters and a non-zero Jacobian."
)
ASSUMPTIONS = [
    "numpy linear algebra; the closed-form Jacobian of the generated model",
    "statistical sub-check: bounds at 6.5 standard deviations",
]
FNS = {"mean": lin_pred_mean, "var": lin_pred_var, "std": lin_pred_std, "cov": lin_pred_cov,
       "samples": lin_samples}


def call(pf, X, how):
    """Results for every input, stacked (numpy)."""
    X = jnp.asarray(X)
    if how == "vmap":
        res = jax.vmap(pf)(X)
    elif how == "jit":
        f = jax.jit(pf)
        rs = [f(x) for x in X]
        res = jax.tree.map(lambda *a: jnp.stack(a), *rs)
    elif how == "map":
        res = jax.lax.map(pf, X)
    else:
        rs = [pf(x) for x in X]
        res = jax.tree.map(lambda *a: jnp.stack(a), *rs)
    return {k: np.asarray(v) for k, v in res.items()}


def cond(po):
    w = np.linalg.eigvalsh(po.cov())
    return w[-1] / max(w[0], 1e-300)


def run_stats(spec):
    m = gen.Model(spec["model"])
    po = Post(spec["post"], m)
    X = m.inputs(spec["n"], spec["seed"])
    S = po.cov()
    fns = [lin_setup] + [FNS[k] for k in spec["stats"]]
    kw = {}
    N = spec["N"]
    x64 = spec["x64"]
    if not x64 and cond(po) > 1e3:
        return False  # the covariance itself is lost in single precision
    if "samples" in spec["stats"] or spec["key"]:
        kw = {"key": jax.random.key(spec["seed"] % 1013), "num_samples": N}
    okw = {**kw, **spec["opts"]}
    if spec["pos"]:
        pf = set_lin_pushforward(m.fn(), m.params, po.fn, po.prior, po.ls, fns, **okw)
    else:
        pf = set_lin_pushforward(model_fn=m.fn(), mean_params=m.params, posterior_fn=po.fn,
                                 prior_arguments=po.prior, loss_scaling_factor=po.ls,
                                 pushforward_fns=fns, **okw)
    res = call(pf, X, spec["how"])
    w = None
    if "samples" in spec["stats"]:
        ident = set_lin_pushforward(identity_model(m.params), m.params, po.fn, po.prior, po.ls,
                                    [lin_setup, lin_samples], **kw)
        w = np.asarray(ident(jnp.zeros(1))["samples"]) - m.v
        expect(w.shape == (N, m.P), f"weight samples of shape {w.shape}")
    big = 0.0
    for i, x in enumerate(X):
        mean, J = m.f(x).reshape(m.oshape), m.jac(x)
        K = J @ S @ J.T
        sc = float(np.abs(J).max() ** 2 * np.abs(S).sum())
        big = max(big, float(np.abs(J).max()))
        ms = float(np.abs(mean).max()) + 1.0
        rt = (1e-8 if x64 else 1e-3) * m.noise([x])
        close(res["map"][i], mean, "map", x64=x64, scale=ms)
        if spec["stats"]:
            for k in res:
                expect(k in ("map", "pred_mean", "pred_var", "pred_std", "pred_cov", "samples"),
                       f"unexpected entry {k}")
        if "mean" in spec["stats"] or "pred_mean" in res:
            close(res["pred_mean"][i], mean, "pred_mean", x64=x64, scale=ms)
        if "cov" in spec["stats"]:
            close(res["pred_cov"][i], K, "pred_cov", x64=x64, rtol=rt, scale=sc)
        if "var" in spec["stats"]:
            close(res["pred_var"][i], np.diag(K).reshape(m.oshape), "pred_var", x64=x64, rtol=rt,
                  scale=sc)
        if "std" in spec["stats"]:
            got = res["pred_std"][i]
            expect(got.shape == m.oshape, f"pred_std of shape {got.shape}")
            # single precision may turn a zero variance into a tiny negative number
            if np.all(np.diag(K) > 1e-6 * sc):
                close(got ** 2, np.diag(K).reshape(m.oshape), "pred_std squared", x64=x64,
                      rtol=2 * rt, scale=sc)
                if x64:
                    close(got.reshape(-1) / np.sqrt(np.diag(K)), np.ones(m.K), "pred_std entry-wise",
                          rtol=1e-6)
                expect(np.all(got >= 0), "negative standard deviation")
        if "samples" in spec["stats"]:
            exp = (mean.reshape(-1) + w @ J.T).reshape(N, *m.oshape)
            close(res["samples"][i], exp, "linearised samples", x64=x64, rtol=rt,
                  scale=ms + float(np.abs(J).max() * np.abs(w).sum(1).max()))
            if x64:  # the spread around the mean, however small
                dev = np.abs(J).max() * np.abs(w).sum(1).max()
                close(res["samples"][i] - mean, exp - mean, "spread of the linearised samples",
                      rtol=1e-8, scale=float(dev) + 1e-5 * ms * m.noise([x]) + 1e-5 * np.abs(m.v).max())
    for k in spec["stats"]:
        name = {"samples": "samples"}.get(k, "pred_" + k)
        expect(name in res, f"{name} missing from {sorted(res)}")
    return m.P > 1 and big > 0


def run_order(spec):
    """Any order of the statistics gives the same values; the default list gives them all."""
    m = gen.Model(spec["model"])
    po = Post(spec["post"], m)
    x = jnp.asarray(m.inputs(1, spec["seed"])[0])
    kw = {"key": jax.random.key(spec["seed"] % 1013), "num_samples": 5}
    args = (m.fn(), m.params, po.fn, po.prior, po.ls)
    a = set_lin_pushforward(*args, [lin_setup] + [FNS[k] for k in spec["order"]], **kw)(x)
    b = set_lin_pushforward(*args, **kw)(x)
    expect(set(a) == set(b), f"entries {sorted(a)} and {sorted(b)}")
    for k in a:
        close(a[k], b[k], f"{k} in another order", x64=spec["x64"], rtol=1e-8 if spec["x64"] else 1e-3,
              scale=1e-3 + float(np.nanmax(np.abs(np.asarray(b["pred_cov"])))) ** (
                  0.5 if k == "pred_std" else 1))
    # the same predictive assembled from its parts
    ds = get_dist_state(m.params, m.fn(), po.fn(po.prior, po.ls), linearized=True, **kw)
    c = set_prob_predictive(m.fn(), m.params, ds, [lin_setup, lin_pred_cov, lin_samples])(x)
    for k in ("pred_cov", "samples"):
        close(c[k], b[k], f"{k} assembled from parts", x64=spec["x64"], scale=1.0)
    return m.P > 1


def run_scale(spec):
    """Curvature and prior precision times c: variances over c, deviations over its root."""
    m = gen.Model(spec["model"])
    x = jnp.asarray(m.inputs(1, spec["seed"])[0])
    c, x64 = 10.0 ** spec["decades"], spec["x64"]
    fns = [lin_setup] + [FNS[k] for k in spec["stats"]]

    def run(scale):
        po = Post({**spec["post"], "scale": scale}, m)
        pf = set_lin_pushforward(m.fn(), m.params, po.fn, po.prior, po.ls, fns,
                                 key=jax.random.key(spec["seed"] % 1013), num_samples=4)
        return {k: np.asarray(v, float) for k, v in pf(x).items()}

    a, b = run(1.0), run(c)
    po = Post(spec["post"], m)
    J = m.jac(x)
    K = J @ po.cov() @ J.T
    sc = float(np.abs(J).max() ** 2 * np.abs(po.cov()).sum())
    rt = (1e-8 if x64 else 1e-3) * m.noise([x])
    for k, power in (("pred_var", 1.0), ("pred_cov", 1.0), ("pred_std", 0.5)):
        if k not in b:
            continue
        exp = a[k] * c ** -power
        if k == "pred_std":
            if not np.all(np.diag(K) > 1e-4 * sc):
                continue
            close(b[k] * c ** 0.5, np.sqrt(np.diag(K)).reshape(m.oshape), f"pred_std at scale {c:g}",
                  x64=x64, rtol=100 * rt, scale=float(np.sqrt(sc)))
        else:
            full = K if k == "pred_cov" else np.diag(K).reshape(m.oshape)
            close(b[k] * c, full, f"{k} at scale {c:g}", x64=x64, rtol=rt, scale=sc)
        close(b[k] * c ** power, exp * c ** power, f"{k} at scale {c:g} and at scale 1", x64=x64,
              rtol=rt * (100 if k == "pred_std" else 1), scale=float(sc ** power))
    if "samples" in b:
        dev = [r["samples"] - r["pred_mean"] for r in (a, b)] if "pred_mean" in b else [
            r["samples"] - r["map"] for r in (a, b)]
        ms = float(np.abs(b["map"]).max()) + float(np.abs(m.v).max(initial=0)) * float(np.abs(J).max(initial=0))
        size = float(np.abs(dev[0]).max())
        # rounding of mean + deviation, magnified by root c
        noise = (1e-13 if x64 else 1e-5) * ms * max(1.0, c ** 0.5) * m.noise([x])
        if noise < 0.1 * size:
            close(dev[1] * c ** 0.5, dev[0], f"spread of the samples at scale {c:g}", rtol=1e-6 if x64 else 1e-2,
                  scale=size + noise * (1e6 if x64 else 1e2))
    return m.P > 1 and float(np.abs(J).max()) > 0


def run_reproducible(spec):
    """Same key: same samples; other key: other samples; each sample keeps its index."""
    m = gen.Model(spec["model"])
    po = Post(spec["post"], m)
    X = m.inputs(2, spec["seed"])

    def samples(key, n, **kw):
        pf = set_lin_pushforward(m.fn(), m.params, po.fn, po.prior, po.ls, [lin_setup, lin_samples],
                                 key=jax.random.key(key), num_samples=n, **kw)
        return [np.asarray(pf(jnp.asarray(x))["samples"]) for x in X]

    s = spec["seed"] % 1000
    a, b = samples(s, 4), samples(s, 4)
    c = samples(s + 1, 4)
    moved = False
    for i, x in enumerate(X):
        expect(a[i].shape == (4, *m.oshape), f"samples of shape {a[i].shape}")
        expect(np.array_equal(a[i], b[i]), "samples differ for the same key")
        J = m.jac(x)
        K = J @ po.cov() @ J.T
        if np.diag(K).max() > 1e-4:
            moved = True
            expect(not np.allclose(a[i], c[i], rtol=1e-6, atol=1e-9), "samples do not depend on the key")
            flat_ = a[i].reshape(4, -1)
            expect(len({tuple(r) for r in np.round(flat_, 9)}) == 4, "samples repeat")
    return moved


def run_distribution(spec):
    """Weight samples are N(0, C): whitened draws are standard normal."""
    m = gen.Model(spec["model"])
    po = Post(spec["post"], m)
    N = spec["N"]
    pf = set_lin_pushforward(identity_model(m.params), m.params, po.fn, po.prior, po.ls,
                             [lin_setup, lin_samples], key=jax.random.key(spec["seed"]),
                             num_samples=N)
    w = np.asarray(pf(jnp.zeros(1))["samples"], float) - m.v
    expect(w.shape == (N, m.P), f"samples of shape {w.shape}")
    L = np.linalg.cholesky(po.cov())
    check_standard_normal(np.linalg.solve(L, w.T).T, "linearised weight samples")
    return True


def run_mc(spec):
    """Monte-Carlo softmax of the linearised samples."""
    m = gen.Model(spec["model"])
    po = Post(spec["post"], m)
    x = jnp.asarray(m.inputs(1, spec["seed"])[0])
    kw = {"key": jax.random.key(spec["seed"] % 1013), "num_samples": spec["N"]}
    fns = [lin_setup, lin_samples, lin_mc_pred_act] if spec["first"] else [lin_setup, lin_mc_pred_act]
    if spec["mid"]:
        fns = [lin_setup, lin_pred_cov, *fns[1:], partial(lin_pred_var)]
    r = set_lin_pushforward(m.fn(), m.params, po.fn, po.prior, po.ls, fns, **kw)(x)
    s = np.asarray(r["samples"], float)
    expect(s.shape == (spec["N"], m.K), f"samples of shape {s.shape}")
    p = np.mean([gen.softmax(row) for row in s], axis=0)
    close(r["mc_pred_act"], p, "mc_pred_act", x64=spec["x64"], scale=1.0)
    close(np.sum(np.asarray(r["mc_pred_act"])), 1.0, "sum of mc_pred_act", x64=spec["x64"])
    return True


models = gen.model_specs(codes=True, max_total=9, wide=30)
OPTS = [{}, {}, {}, {"lin_samples_batch_size": 2}, {"weight_batch_size": 3}, {"mv_jittable": False},
        {"set_get_weight_sample_precompute": False}, {"precompute": True},
        {"precompute_list_batch_size": 2}, {"lin_samples_batch_size": 500}]
base = dict(model=models, post=post_specs, seed=gen.seeds, x64=gen.x64s)
order = st.permutations(sorted(FNS))
SUBS = [
    Sub("stats", st.fixed_dictionaries({
        **base, "post": extreme_specs, "n": st.integers(1, 3),
        "N": gen.rarely(st.sampled_from([7, 7, 7, 1, 2]), st.sampled_from([33, 65, 130, 257, 300]), 9),
        "opts": st.sampled_from(OPTS), "stats": st.lists(
            st.sampled_from(sorted(FNS)), min_size=1, max_size=5, unique=True),
        "how": st.sampled_from(["plain", "jit", "vmap", "map"]), "key": st.booleans(),
        "pos": st.booleans()}), run_stats, quick=170),
    Sub("order", st.fixed_dictionaries({**base, "order": order}), run_order, quick=40),
    Sub("scale", st.fixed_dictionaries({
        **base, "stats": st.lists(st.sampled_from(sorted(FNS)), min_size=2, max_size=5, unique=True),
        "decades": st.integers(-16, 16)}), run_scale, quick=64),
    Sub("reproducible", st.fixed_dictionaries(base), run_reproducible, quick=32),
    Sub("distribution", st.fixed_dictionaries({**base, "N": st.sampled_from([300, 800])}),
        run_distribution, quick=32),
    Sub("mc", st.fixed_dictionaries({
        **base, "model": gen.model_specs(max_total=9, out_shapes="class"),
        "N": st.sampled_from([1, 3, 11]), "first": st.booleans(), "mid": st.booleans()}),
        run_mc, quick=40),
]
