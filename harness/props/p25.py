"""P25 Results are differentiable in prior arguments and inputs."""
from functools import partial

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Sub, close, expect, flat
from harness.post import Post, post_specs
from harness.props.p10 import evidence, total_loss
from laplax.eval import evaluate_for_given_prior_arguments, marginal_log_likelihood
from laplax.eval.metrics import (
    chi_squared,
    chi_squared_zero,
    cross_entropy,
    crps_gaussian,
    estimate_rmse,
    multiclass_brier,
    nll_gaussian,
)
from laplax.eval.pushforward import (
    lin_mc_pred_act,
    lin_pred_cov,
    lin_pred_mean,
    lin_pred_std,
    lin_pred_var,
    lin_samples,
    lin_setup,
    lin_special_pred_act,
    nonlin_mc_pred_act,
    nonlin_pred_cov,
    nonlin_pred_mean,
    nonlin_pred_std,
    nonlin_pred_var,
    nonlin_samples,
    nonlin_setup,
    set_lin_pushforward,
    set_nonlin_pushforward,
    set_posterior_gp_kernel,
)

RULE = (
    "Cases: formula models, posteriors of all four types, predictives of every kind, objectives "
    "and metrics, seen as functions of the logarithms of prior precision, noise variance and loss "
    "scaling factor or of the input; oracle: extrapolated central differences of the values (and, "
    "for covariance, predictive variance and evidence, of the numpy formula); forward and reverse "
    "mode, plain, compiled and mapped over several prior precisions. Non-trivial: a derivative "
    "that is not zero."
)
ASSUMPTIONS = [
    "double precision; the values themselves are compared with numpy by the other properties",
    "points where the function has a kink or a zero deviation are skipped",
]


def differences(f, z, h=2e-3):
    """Jacobian by central differences, extrapolated twice (error about h^6)."""
    cols = []
    for i in range(z.size):
        def c(s, i=i):
            d = np.zeros_like(z)
            d[i] = s
            return (np.asarray(f(z + d), float).reshape(-1) - np.asarray(f(z - d), float).reshape(-1)) / (2 * s)
        a, b, e = c(h), c(h / 2), c(h / 4)
        ab, be = (4 * b - a) / 3, (4 * e - b) / 3
        cols.append((16 * be - ab) / 15)
    return np.stack(cols, axis=1)


def check(f, z, what, spec, oracle=None, h=2e-3, tol=2e-6):
    """f: vector -> flat vector; True when some derivative is not zero."""
    z = np.asarray(z, float)
    g = (lambda t: jnp.ravel(f(t)))
    y = np.asarray(jax.jit(g)(jnp.asarray(z)), float)
    if not np.all(np.isfinite(y)):
        return False
    ref = differences(oracle or jax.jit(g), z, h)
    size = float(np.abs(y).max(initial=0.0)) + float(np.abs(ref).max(initial=0.0)) + 1e-6
    noise = 1e-12 * size / h  # rounding of the differenced values
    modes = {"reverse": jax.jacrev, "forward": jax.jacfwd}
    for name in spec["modes"]:
        d = modes[name](g)
        d = jax.jit(d) if spec["jit"] else d
        got = np.asarray(d(jnp.asarray(z)), float)
        expect(np.all(np.isfinite(got)), f"{what}: derivative ({name} mode) is not finite at {z}: {got.reshape(-1)[:6]}")
        close(got, ref, f"{what}: derivative ({name} mode)", rtol=tol, scale=size + noise / tol)
    return float(np.abs(ref).max(initial=0.0)) > 1e-6


def prior_of(z, keys):
    d = {k: jnp.exp(z[i]) for i, k in enumerate(keys)}
    ls = d.pop("ls", 1.0)
    return d, ls


def point(po, spec):
    """(log parameters, their names)"""
    keys = ["prior_prec"]
    vals = [po.spec["tau"]]
    if po.spec["s2"] is not None:
        keys.append("sigma_squared")
        vals.append(po.spec["s2"])
    if spec["dls"]:
        keys.append("ls")
        vals.append(po.ls)
    return np.log(vals), keys


def ncov(po, z, keys):
    d = dict(zip(keys, np.exp(z), strict=True))
    return d.get("ls", 1.0) * np.linalg.inv(
        d.get("sigma_squared", 1.0) * po.curvature + d["prior_prec"] * np.eye(po.P))


def run_posterior(spec):
    m = gen.Model(spec["model"])
    po = Post(spec["post"], m)
    z, keys = point(po, spec)
    v = gen.vec(m.P, spec["seed"])
    jv = m.tree(v)

    def cov(t):
        p = po.fn(*prior_of(t, keys))
        return jnp.concatenate([jnp.ravel(l) for l in jax.tree.leaves(p.cov_mv(p.state)(jv))])

    def scale(t):
        p = po.fn(*prior_of(t, keys))
        s = p.scale_mv(p.state)(jv)
        return jnp.concatenate([jnp.ravel(l) for l in jax.tree.leaves(s)])

    a = check(cov, z, "covariance product", spec, oracle=lambda t: ncov(po, np.asarray(t), keys) @ v)
    b = check(scale, z, "scale product", spec)
    taus = np.exp(z[0]) * np.array([0.5, 1.0, 3.0])
    f = lambda t: cov(jnp.asarray(z).at[0].set(jnp.log(t)))  # noqa: E731
    many = jax.vmap(f)(jnp.asarray(taus))
    for i, t in enumerate(taus):
        zi = z.copy()
        zi[0] = np.log(t)
        c = ncov(po, zi, keys)
        close(many[i], c @ v, f"covariance product mapped over prior precisions ({t})", rtol=1e-8,
              scale=float(np.abs(c).max() * np.abs(v).sum()))
    return a and b


def run_predictive(spec):
    m = gen.Model(spec["model"])
    po = Post(spec["post"], m)
    z, keys = point(po, spec)
    lin = spec["lin"]
    N = spec["N"]
    x = m.inputs(1, spec["seed"])[0]
    table = ({"mean": lin_pred_mean, "var": lin_pred_var, "std": lin_pred_std, "cov": lin_pred_cov,
              "samples": lin_samples, "mc": lin_mc_pred_act} if lin else
             {"mean": nonlin_pred_mean, "var": nonlin_pred_var, "std": nonlin_pred_std, "cov": nonlin_pred_cov,
              "samples": partial(nonlin_samples, num_samples=N), "mc": nonlin_mc_pred_act})
    vec = len(m.oshape) == 1 and m.K > 1
    stats = [s for s in spec["stats"] if s in table and (s != "mc" or vec) and (s != "cov" or lin or N > 1)]
    fns = [lin_setup if lin else nonlin_setup] + [table[s] for s in stats]
    special = spec["special"] if lin and vec else None
    if special:
        fns.append(partial(lin_special_pred_act, special_pred_type=special))
    make = set_lin_pushforward if lin else set_nonlin_pushforward

    def predict(t, x):
        pr, ls = prior_of(t, keys)
        return make(model_fn=m.fn(), mean_params=m.params, posterior_fn=po.fn, prior_arguments=pr,
                    loss_scaling_factor=ls, pushforward_fns=fns, key=jax.random.key(spec["seed"] % 71),
                    num_samples=N)(x)

    y = predict(jnp.asarray(z), jnp.asarray(x))
    S = ncov(po, z, keys)
    J = m.jac(x)
    var = np.diag(J @ S @ J.T) if lin else np.asarray(y.get("pred_var", np.ones(1)), float).reshape(-1)
    std_ok = var.min() > 1e-6 * max(1.0, var.max()) and (lin or N > 1)
    moved = False
    for k in y:
        if k == "pred_std" and not std_ok:
            continue
        if k == "special_pred_act" and (not std_ok or not np.all(np.isfinite(np.asarray(y[k])))
                                        or spec["special"] == "laplace_bridge" and float(
                                            (np.abs(m.f(x)) / np.sqrt(var.sum())).max()) > 6):
            continue
        oracle = None
        if lin and k == "pred_var":
            def oracle(t):
                return np.diag(J @ ncov(po, np.asarray(t), keys) @ J.T)
        moved |= check(lambda t, k=k: predict(t, jnp.asarray(x))[k], z, f"{k} in the prior arguments", spec,
                       oracle=oracle, tol=2e-6 if std_ok else 1e-4)
        if m.d and spec["dx"]:
            o = None
            if lin and k == "pred_var":
                def o(t):
                    j = m.jac(np.asarray(t).reshape(m.xshape))
                    return np.diag(j @ S @ j.T)
            if k == "map":
                def o(t):
                    return m.f(np.asarray(t).reshape(m.xshape))
            check(lambda t, k=k: predict(jnp.asarray(z), t.reshape(m.xshape))[k], x.reshape(-1),
                  f"{k} in the input", spec, oracle=o, tol=2e-6 if std_ok else 1e-4)
    # mapped over prior precisions
    taus = np.exp(z[0]) * np.array([0.4, 1.0, 2.5])
    f = lambda t: predict(jnp.asarray(z).at[0].set(jnp.log(t)), jnp.asarray(x))  # noqa: E731
    many = jax.vmap(f)(jnp.asarray(taus))
    for i, t in enumerate(taus):
        one = f(t)
        for k in one:
            a, b = np.asarray(many[k][i]), np.asarray(one[k])
            if "std" in k:
                a, b = a ** 2, b ** 2
            if np.all(np.isfinite(b)) and (k != "special_pred_act" or std_ok):
                close(a, b, f"{k} mapped over prior precisions ({t})", rtol=1e-7, scale=1.0 + float(np.abs(b).max()))
    return moved


def run_evidence(spec):
    m = gen.Model(spec["model"])
    kind = spec["loss"]
    if kind == "cross_entropy" and len(m.oshape) != 1:
        m = gen.Model({**spec["model"], "o": [m.K]})
    po = Post(spec["post"], m)
    z, keys = point(po, spec)
    n = spec["n"]
    X, Y = m.inputs(n, spec["seed"]), gen.targets(m, n, kind, spec["seed"])
    data = {"input": jnp.asarray(X), "target": jnp.asarray(Y)}
    L = total_loss(m, X, Y, kind, spec["seed"])
    loss = kind
    if kind == "custom":
        per = gen.custom_loss(m.K, spec["seed"])
        loss = lambda p, t: jnp.sum(jax.vmap(per)(p, t))  # noqa: E731

    def f(t):
        pr, ls = prior_of(t, keys)
        return marginal_log_likelihood(po.est, pr, data, m.fn(), m.params, loss, po.spec["curv"],
                                       vmap_over_data=True, loss_scaling_factor=ls)[None]

    def oracle(t):
        d = dict(zip(keys, np.exp(np.asarray(t)), strict=True))
        p = {"tau": d["prior_prec"], "sigma": None, "s2": d.get("sigma_squared"), "ls": d.get("ls", 1.0)}
        return np.array([evidence(L, m.v, po.curvature, p)])

    moved = check(f, z, f"evidence ({kind})", spec, oracle=oracle)
    taus = np.exp(z[0]) * np.array([0.4, 1.0, 2.5])
    many = jax.vmap(lambda t: f(jnp.asarray(z).at[0].set(jnp.log(t))))(jnp.asarray(taus))
    for i, t in enumerate(taus):
        zi = z.copy()
        zi[0] = np.log(t)
        close(many[i], oracle(zi), f"evidence mapped over prior precisions ({t})", rtol=1e-8, scale=1.0 + abs(L))
    return moved


METRICS = {"nll": nll_gaussian, "chi2_zero": chi_squared_zero, "chi2": chi_squared, "crps": crps_gaussian,
           "rmse": estimate_rmse}


def run_objective(spec):
    """The documented calibration by gradient descent."""
    m = gen.Model(spec["model"])
    po = Post(spec["post"], m)
    z, keys = point(po, {**spec, "dls": False})
    n, lin = spec["n"], spec["lin"]
    X, Y = m.inputs(n, spec["seed"]), gen.targets(m, n, "mse", spec["seed"])
    data = {"input": jnp.asarray(X), "target": jnp.asarray(Y)}
    N = 7
    make = set_lin_pushforward if lin else set_nonlin_pushforward
    fns = ([lin_setup, lin_pred_mean, lin_pred_var, lin_pred_std] if lin else
           [nonlin_setup, nonlin_pred_mean, nonlin_pred_var, nonlin_pred_std])
    spp = partial(make, model_fn=m.fn(), mean_params=m.params, posterior_fn=po.fn, pushforward_fns=fns,
                  key=jax.random.key(3), num_samples=N)
    metric = METRICS[spec["metric"]]

    def f(t):
        return evaluate_for_given_prior_arguments(
            data=data, set_prob_predictive=spp, metric=metric, prior_arguments=prior_of(t, keys)[0],
            loss_scaling_factor=po.ls)[None]

    pr = {k: float(v) for k, v in zip(keys, np.exp(z), strict=True)}
    std = np.stack([np.asarray(spp(prior_arguments=pr, loss_scaling_factor=po.ls)(jnp.asarray(x))["pred_std"]).reshape(-1)
                    for x in X])
    if std.min() < 1e-3 * max(1.0, std.max()):
        return False
    v = float(f(jnp.asarray(z))[0])
    if spec["metric"] in ("chi2_zero", "rmse") and v < 0.02:
        return False
    return check(f, z, f"objective {spec['metric']}", spec, tol=1e-5)


def run_metrics(spec):
    r = np.random.default_rng([spec["seed"], 141])
    shape = (spec["n"], spec["k"])
    mu, sd, y = r.normal(size=shape), 0.2 + r.uniform(size=shape), r.normal(size=shape)
    M = jnp.asarray(mu)
    moved = False
    for name, f in METRICS.items():
        kw = {"pred_std": jnp.asarray(sd)} if name != "rmse" else {}
        if name == "chi2_zero" and abs(float(f(pred_mean=M, target=jnp.asarray(y), **kw))) < 0.02:
            continue
        if name == "rmse" and float(f(pred_mean=M, target=jnp.asarray(y))) < 0.02:
            continue
        g = lambda t, f=f, kw=kw: f(pred_mean=t.reshape(shape), target=jnp.asarray(y), **kw)[None]  # noqa: E731
        moved |= check(g, mu.reshape(-1), f"{name} in the mean", spec)
        if kw:
            g = lambda t, f=f: f(pred_mean=M, target=jnp.asarray(y), pred_std=jnp.exp(t).reshape(shape))[None]  # noqa: E731
            check(g, np.log(sd).reshape(-1), f"{name} in the deviation", spec)
    if spec["k"] > 1:
        lab = r.integers(0, spec["k"], size=spec["n"])
        hot = np.eye(spec["k"])[lab]
        for name, f in (("brier", multiclass_brier), ("cross_entropy", lambda p, t: cross_entropy(t, p))):
            for t_ in (hot,) if name == "cross_entropy" else (hot, lab):
                check(lambda t, f=f, t_=t_: jnp.atleast_1d(f(jax.nn.softmax(t.reshape(shape)), jnp.asarray(t_))),
                      mu.reshape(-1), f"{name} in the logits", spec)
    return moved


def run_kernel(spec):
    m = gen.Model(spec["model"])
    po = Post(spec["post"], m)
    z, keys = point(po, spec)
    X = m.inputs(2, spec["seed"])

    def k(t, a, b):
        pr, ls = prior_of(t, keys)
        return set_posterior_gp_kernel(m.fn(), m.params, po.fn, pr, ls, dense=True, output_layout=m.K)[0](
            a.reshape(m.xshape), b.reshape(m.xshape))

    A, B = jnp.asarray(X[0]), jnp.asarray(X[1])
    S = ncov(po, z, keys)
    moved = check(lambda t: k(t, A, B), z, "kernel in the prior arguments", spec,
                  oracle=lambda t: m.jac(X[0]) @ ncov(po, np.asarray(t), keys) @ m.jac(X[1]).T)
    check(lambda t: k(jnp.asarray(z), t, B), X[0].reshape(-1), "kernel in the first input", spec,
          oracle=lambda t: m.jac(np.asarray(t).reshape(m.xshape)) @ S @ m.jac(X[1]).T)
    check(lambda t: k(jnp.asarray(z), A, t), X[1].reshape(-1), "kernel in the second input", spec,
          oracle=lambda t: m.jac(X[0]) @ S @ m.jac(np.asarray(t).reshape(m.xshape)).T)
    return moved


base = dict(model=gen.model_specs(max_total=8, max_out=3), post=post_specs, seed=gen.seeds, x64=st.just(True),
            modes=st.sampled_from([["reverse"], ["forward"], ["reverse", "forward"]]), jit=st.booleans(),
            dls=st.booleans())
vecm = gen.model_specs(max_total=8, max_out=3, out_shapes="vec")
SUBS = [
    Sub("posterior", st.fixed_dictionaries(base), run_posterior, quick=40),
    Sub("predictive", st.fixed_dictionaries({
        **base, "model": st.one_of(base["model"], vecm), "lin": st.booleans(), "N": st.integers(1, 7),
        "dx": st.booleans(), "special": st.sampled_from(
            [None, "laplace_bridge", "mean_field_0", "mean_field_1", "mean_field_2"]),
        "stats": st.lists(st.sampled_from(["mean", "var", "std", "cov", "samples", "mc"]), min_size=1, max_size=3,
                          unique=True)}), run_predictive, quick=64),
    Sub("evidence", st.fixed_dictionaries({
        **base, "loss": st.sampled_from(gen.LOSSES[:3] + ["custom"]), "n": st.integers(1, 5)}), run_evidence, quick=40),
    Sub("objective", st.fixed_dictionaries({
        **base, "n": st.integers(1, 5), "lin": st.sampled_from([True, True, False]),
        "metric": st.sampled_from(sorted(METRICS))}), run_objective, quick=40),
    Sub("metrics", st.fixed_dictionaries({
        "seed": gen.seeds, "n": st.integers(1, 4), "k": st.integers(1, 4), "x64": st.just(True),
        "modes": base["modes"], "jit": st.booleans()}), run_metrics, quick=24),
    Sub("kernel", st.fixed_dictionaries({**base, "model": vecm}), run_kernel, quick=24),
]
