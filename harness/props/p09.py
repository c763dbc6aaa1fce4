"""P09 Classification predictives follow their closed forms."""
from functools import partial

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Sub, close, expect
from harness.post import Post, post_specs
from harness.props.p08 import weights
from laplax.enums import Predictive
from laplax.eval.predictives import (
    dirichlet_predictive,
    laplace_bridge,
    mean_field_0_predictive,
    mean_field_1_predictive,
    mean_field_2_predictive,
)
from laplax.eval.pushforward import (
    lin_mc_pred_act,
    lin_pred_cov,
    lin_pred_mean,
    lin_pred_std,
    lin_pred_var,
    lin_setup,
    lin_special_pred_act,
    nonlin_mc_pred_act,
    nonlin_pred_cov,
    nonlin_pred_mean,
    nonlin_pred_std,
    nonlin_pred_var,
    nonlin_setup,
    nonlin_special_pred_act,
    set_lin_pushforward,
    set_nonlin_pushforward,
)

RULE = (
    "Cases: 2-40 classes, logits and covariances over many orders of magnitude (also zero "
    "covariance), permutations of the classes, all predictives alone, vmapped and inside linear "
    "and non-linear pushforwards; oracle: the documented closed forms in numpy. "
    "Non-trivial: distinct logits."
)
ASSUMPTIONS = ["logit spreads for which the exponentials do not overflow"]
L0 = np.pi / 8
TYPES = ["laplace_bridge", "mean_field_0", "mean_field_1", "mean_field_2"]


def lb(mean, var, corr):
    C = len(mean)
    if corr:
        c = var.sum() / np.sqrt(C / 2)
        mean, var = mean / np.sqrt(c), var / c
    a = (1 - 2 / C + np.exp(mean) * np.exp(-mean).sum() / C ** 2) / var
    return a / a.sum()


def mf0(mean, var):
    return gen.softmax(mean / np.sqrt(1 + L0 * var))


def mf(mean, s):
    """1 / sum_j exp((m_j - m_i)/sqrt(1 + L0 s_ij))."""
    d = (mean[None, :] - mean[:, None]) / np.sqrt(1 + L0 * s)
    return 1 / np.exp(np.clip(d, -700, 700)).sum(1)


def closed(kind, mean, cov, corr=True):
    var = np.diag(cov)
    if kind == "laplace_bridge":
        return lb(mean, var, corr)
    if kind == "mean_field_0":
        return mf0(mean, var)
    if kind == "mean_field_1":
        return mf(mean, var[:, None] + var[None, :])
    return mf(mean, var[:, None] + var[None, :] - 2 * cov)


def apply(kind, mean, cov, corr=True, extra=False):
    mean, cov = jnp.asarray(mean), jnp.asarray(cov)
    if kind == "laplace_bridge":
        return laplace_bridge(mean, jnp.diag(cov), use_correction=corr)
    kw = {"use_correction": corr} if extra else {}
    if kind == "mean_field_0":
        return mean_field_0_predictive(mean, jnp.diag(cov), **kw)
    if kind == "mean_field_1":
        return mean_field_1_predictive(mean, jnp.diag(cov), **kw)
    return mean_field_2_predictive(mean, cov)


def spread(kind, mean, cov, corr):
    if kind == "laplace_bridge" and corr:
        mean = mean / np.sqrt(np.diag(cov).sum() / np.sqrt(len(mean) / 2))
    return float(mean.max() - mean.min()) if kind != "laplace_bridge" else float(2 * np.abs(mean).max())


def valid(kind, p, what):
    p = np.asarray(p, float)
    expect(np.all(np.isfinite(p)) and p.min() >= -1e-6 and p.max() <= 1 + 1e-6,
           f"{what}: values outside [0, 1]: {p}")
    if kind in ("laplace_bridge", "mean_field_0", "mc"):
        expect(abs(p.sum() - 1) < 1e-5, f"{what}: sums to {p.sum()}")


def run_closed(spec):
    C, x64 = spec["C"], spec["x64"]
    r = np.random.default_rng(spec["seed"])
    mean = np.asarray(np.round(spec["ms"] * r.normal(size=C), 4), float if x64 else np.float32).astype(float)
    A = r.normal(size=(C, C))
    cov = spec["vs"] * (A @ A.T / C + 0.2 * np.eye(C))
    if spec["diag"]:
        cov = np.diag(np.diag(cov))
    tol = 1e-8 if x64 else 1e-4
    perm = r.permutation(C)
    nt = False
    for kind in TYPES:
        corr = spec["corr"]
        if kind == "laplace_bridge" and spread(kind, mean, cov, corr) > (500 if x64 else 60):
            continue
        nt = True
        p = apply(kind, mean, cov, corr, spec["extra"])
        valid(kind, p, kind)
        close(p, closed(kind, mean, cov, corr), kind, rtol=tol, scale=1.0)
        q = apply(kind, mean[perm], cov[np.ix_(perm, perm)], corr)
        close(q, np.asarray(p)[perm], f"{kind} of permuted classes", rtol=tol, scale=1.0)
        if kind != "laplace_bridge":
            z = apply(kind, mean, np.zeros((C, C)))
            close(z, gen.softmax(mean), f"{kind} with zero covariance", rtol=tol, scale=1.0)
        if C == 2 and kind in ("mean_field_1", "mean_field_2"):
            expect(abs(float(np.sum(p)) - 1) < 1e-4, f"{kind} of two classes sums to {np.sum(p)}")
    a = np.exp(r.normal(size=C))
    close(dirichlet_predictive(jnp.asarray(a)), a / a.sum(), "Dirichlet mean", x64=x64, scale=1.0)
    return nt


def run_batch(spec):
    """vmap / jit over a batch of logits equals one by one."""
    C, n, x64 = spec["C"], spec["n"], spec["x64"]
    r = np.random.default_rng(spec["seed"])
    means = 2 * r.normal(size=(n, C))
    A = r.normal(size=(n, C, C))
    covs = A @ A.transpose(0, 2, 1) / C + 0.3 * np.eye(C)
    for kind in TYPES:
        f = lambda m, c, kind=kind: apply(kind, m, c, spec["corr"])  # noqa: E731
        got = np.asarray(jax.jit(jax.vmap(f))(jnp.asarray(means), jnp.asarray(covs)))
        exp = np.stack([closed(kind, m, c, spec["corr"]) for m, c in zip(means, covs, strict=True)])
        close(got, exp, f"vmapped {kind}", rtol=1e-8 if x64 else 1e-4, scale=1.0)
    return n > 1


def run_push(spec):
    """Special predictives inside a pushforward."""
    m = gen.Model(spec["model"])
    po = Post(spec["post"], m)
    x = m.inputs(1, spec["seed"])[0]
    kind, corr, x64 = spec["kind"], spec["corr"], spec["x64"]
    pre = spec["pre"]
    kw = {} if corr is None else {"use_correction": corr}
    eff = True if corr is None else corr
    name = Predictive(kind) if spec["enum"] else kind
    if spec["lin"]:
        table = {"mean": lin_pred_mean, "var": lin_pred_var, "std": lin_pred_std, "cov": lin_pred_cov}
        fns = [lin_setup] + [table[k] for k in pre]
        fns.append(partial(lin_special_pred_act, special_pred_type=name))
        pf = set_lin_pushforward(m.fn(), m.params, po.fn, po.prior, po.ls, fns, **kw)
        J = m.jac(x)
        mean, cov = m.f(x), J @ po.cov() @ J.T
    else:
        table = {"mean": nonlin_pred_mean, "var": nonlin_pred_var, "std": nonlin_pred_std,
                 "cov": nonlin_pred_cov}
        N = 9
        key = jax.random.key(spec["seed"] % 701)
        fns = [nonlin_setup] + [table[k] for k in pre]
        fns.append(partial(nonlin_special_pred_act, special_pred_type=name))
        pf = set_nonlin_pushforward(m.fn(), m.params, po.fn, po.prior, key=key,
                                    loss_scaling_factor=po.ls, pushforward_fns=fns, num_samples=N, **kw)
        F = np.stack([m.f(x, v) for v in weights(m, po, N, key)])
        mean = F.mean(0)
        c = F - mean
        cov = c.T @ c / (N - 1)
        if kind != "mean_field_2":
            # without a covariance computed before, the plain variance is used
            before = pre[:pre.index("var")] if "var" in pre else pre
            if "cov" not in before:
                cov = c.T @ c / N
    if spec["jit"]:
        pf = jax.jit(pf)
    res = pf(jnp.asarray(x))
    close(res["map"], m.f(x), "map", x64=x64, scale=1.0)
    d = np.diag(cov)
    if kind == "laplace_bridge" and (d.min() < 1e-3 * max(1.0, d.max())):
        return False
    if spread(kind, mean, cov, eff) > (200 if x64 else 20):
        return False
    p = res["special_pred_act"]
    expect(p.shape == (m.K,), f"special_pred_act of shape {p.shape}")
    valid(kind, p, kind)
    close(p, closed(kind, mean, cov, eff), f"{kind} in a pushforward", rtol=1e-6 if x64 else 5e-3,
          scale=1.0)
    return True


def run_mc(spec):
    """Monte-Carlo bridge converges to the Gaussian softmax average."""
    m = gen.Model(spec["model"])
    po = Post(spec["post"], m)
    x = m.inputs(1, spec["seed"])[0]
    N = 600
    pf = set_lin_pushforward(m.fn(), m.params, po.fn, po.prior, po.ls, [lin_setup, lin_mc_pred_act],
                             key=jax.random.key(spec["seed"]), num_samples=N)
    p = np.asarray(pf(jnp.asarray(x))["mc_pred_act"], float)
    valid("mc", p, "mc_pred_act")
    J = m.jac(x)
    cov = J @ po.cov() @ J.T
    w, V = np.linalg.eigh(cov)
    r = np.random.default_rng(5)
    z = r.normal(size=(20000, m.K)) * np.sqrt(np.maximum(w, 0))
    f = m.f(x) + z @ V.T
    e = np.exp(f - f.max(1, keepdims=True))
    s = e / e.sum(1, keepdims=True)
    ref, sd = s.mean(0), s.std(0)
    err = np.abs(p - ref)
    expect(np.all(err <= 7 * sd * (1 / np.sqrt(N) + 1 / np.sqrt(20000)) + 1e-5),
           f"Monte-Carlo softmax {p}, expected {ref}")
    return bool(sd.max() > 1e-3)


def run_mc_average(spec):
    """Monte-Carlo class probabilities of given samples: the average of their softmax."""
    N, C, x64 = spec["N"], spec["C"], spec["x64"]
    r = np.random.default_rng(spec["seed"])
    f = np.round(spec["scale"] * r.normal(size=(N, C)), 3)
    f[N // 2:, 0] += 2 * spec["scale"]  # early and late samples differ
    p = np.mean([gen.softmax(row) for row in f], axis=0)
    J = jnp.asarray(f)
    if spec["lin"]:
        before = {"samples": J, "map": J[0], "pred_mean": J[0]}
        res, _ = lin_mc_pred_act(results=before, aux={})
    else:
        before = {"samples": J} if spec["given"] else {}
        res, _ = nonlin_mc_pred_act(results=before, aux={"pred_ensemble": J})
    close(res["mc_pred_act"], p, f"average softmax of {N} samples", x64=x64, scale=1.0)
    close(res["samples"], f, "samples", x64=x64)
    return N > 1


classes = gen.model_specs(codes=True, max_total=9, out_shapes="class", wide=20)
SUBS = [
    Sub("closed", st.fixed_dictionaries({
        "C": gen.huge(gen.counts(2, 6, 40), 300),
        "ms": gen.rarely(gen.log_floats(0.01, 100), gen.log_floats(1e-4, 1e3), 3),
        "vs": gen.rarely(gen.log_floats(0.01, 100), gen.log_floats(1e-6, 1e6), 3),
        "diag": st.booleans(), "corr": st.booleans(), "extra": st.booleans(), "seed": gen.seeds,
        "x64": gen.x64s}), run_closed, quick=160),
    Sub("batch", st.fixed_dictionaries({
        "C": gen.counts(2, 5, 20), "n": gen.counts(1, 5, 40), "corr": st.booleans(), "seed": gen.seeds,
        "x64": gen.x64s}), run_batch, quick=40),
    Sub("push", st.fixed_dictionaries({
        "model": classes, "post": post_specs, "kind": st.sampled_from(TYPES), "lin": st.booleans(),
        "pre": st.lists(st.sampled_from(["mean", "var", "std", "cov"]), max_size=4, unique=True),
        "corr": st.sampled_from([None, True, False]), "enum": st.booleans(), "jit": st.booleans(),
        "seed": gen.seeds, "x64": gen.x64s}), run_push, quick=160),
    Sub("mc_average", st.fixed_dictionaries({
        "N": gen.rarely(st.integers(1, 40), st.integers(41, 900), 2), "C": gen.counts(2, 6, 40), "lin": st.booleans(),
        "given": st.booleans(), "scale": st.sampled_from([0.1, 1.0, 10.0, 100.0]), "seed": gen.seeds,
        "x64": gen.x64s}), run_mc_average, quick=60),
    Sub("mc", st.fixed_dictionaries({
        "model": classes, "post": post_specs, "seed": gen.seeds, "x64": st.just(True)}), run_mc, quick=32),
]
