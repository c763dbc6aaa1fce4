"""Reference predictives and objectives for the one-call interface (numpy)."""
from __future__ import annotations

import jax
import jax.numpy as jnp
import numpy as np

from harness import gen
from harness.post import identity_model
from harness.props.p09 import closed
from harness.props.p10 import evidence, total_loss
from harness.props.p11 import nll
from harness.props.p12 import bins
from laplax.eval.pushforward import (
    lin_samples,
    lin_setup,
    nonlin_samples,
    nonlin_setup,
    set_lin_pushforward,
    set_nonlin_pushforward,
)

SPECIAL = ["laplace_bridge", "mean_field_0", "mean_field_1", "mean_field_2"]


def model_any(m):
    """One model function for single inputs and for batches."""
    one, many = m.fn(), m.fn(batched=True)

    def model_fn(input, params):
        return (many if jnp.ndim(input) > len(m.xshape) else one)(input, params)

    return model_fn


class Reference:
    """Predictive of a posterior for any prior arguments, in numpy.

    The weight draws are read out through a model that returns its parameters.
    """

    def __init__(self, m, po, push, predictive, key, N):
        self.m, self.po, self.push, self.predictive, self.N = m, po, push, predictive, N
        from functools import partial

        if push == "linear":
            def draw(prior):
                pf = set_lin_pushforward(identity_model(m.params), m.params, po.fn, prior, 1.0,
                                         [lin_setup, lin_samples], key=key, num_samples=N)
                return pf(jnp.zeros(1))["samples"]
        else:
            def draw(prior):
                pf = set_nonlin_pushforward(
                    identity_model(m.params), m.params, po.fn, prior, key=key,
                    pushforward_fns=[nonlin_setup, partial(nonlin_samples, num_samples=N)], num_samples=N)
                return pf(jnp.zeros(1))["samples"]
        self._draw = jax.jit(draw)

    def cov(self, prior):
        s2 = prior.get("sigma_squared", 1.0)
        return np.linalg.inv(s2 * self.po.curvature + prior["prior_prec"] * np.eye(self.m.P))

    def __call__(self, X, prior):
        """Dict of stacked arrays (flat outputs) for all inputs."""
        m = self.m
        out = {"map": np.stack([m.f(x) for x in X])}
        w = None
        if self.push == "nonlinear" or self.predictive == "mc_bridge":
            w = np.asarray(self._draw({k: jnp.asarray(float(v)) for k, v in prior.items()}), float)
        if self.push == "linear":
            S = self.cov(prior)
            J = [m.jac(x) for x in X]
            K = np.stack([j @ S @ j.T for j in J])
            out["pred_mean"] = out["map"]
            out["pred_var"] = np.stack([np.diag(k) for k in K])
            if self.predictive == "mc_bridge":
                out["samples"] = np.stack([f + (w - m.v) @ j.T for f, j in zip(out["map"], J, strict=True)])
            elif self.predictive in SPECIAL:
                out["pred_act"] = np.stack([closed(self.predictive, f, k)
                                            for f, k in zip(out["map"], K, strict=True)])
        else:
            F = np.stack([[m.f(x, v) for v in w] for x in X])
            out["pred_mean"] = F.mean(1)
            out["pred_var"] = F.var(1)
            if self.predictive == "mc_bridge":
                out["samples"] = F
        if self.predictive == "mc_bridge":
            out["pred_act"] = np.stack([np.mean([gen.softmax(r) for r in s], axis=0) for s in out["samples"]])
        out["pred_std"] = np.sqrt(np.maximum(out["pred_var"], 0))
        return out


def ece(p, t):
    conf = p["pred_act"].max(1)
    ok = p["map"].argmax(1) == t
    prop, c, a = bins(conf, ok, 15)
    return float(np.sum(prop * np.abs(c - a)))


def objective(ref, kind, X, Y, labels, prior, loss, seed):
    """(value, size of the terms) of a calibration objective."""
    m = ref.m
    if kind == "marginal_log_likelihood":
        L = total_loss(m, X, Y, loss, seed)
        p = {"tau": prior["prior_prec"], "sigma": None, "s2": None, "ls": 1.0}
        return -evidence(L, m.v, ref.po.curvature, p), abs(L) + 0.5 * p["tau"] * m.v @ m.v + 8.0 * m.P
    p = ref(X, prior)
    if kind == "ece":
        return ece(p, labels), 1.0
    mu, s = p["pred_mean"], p["pred_std"]
    y = Y.reshape(len(X), -1) if labels is None else np.eye(m.K)[labels]
    z2 = ((mu - y) / s) ** 2
    if kind == "chi_squared":
        return abs(z2.mean() - 1), z2.mean() + 1
    return nll(mu, s, y).mean(), z2.mean() + np.abs(np.log(s)).max() + 1
