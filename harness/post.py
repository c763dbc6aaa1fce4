"""Posteriors with a known covariance, and statistics of random draws."""
from __future__ import annotations

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Violation, expect
from laplax.curv.cov import set_posterior_fn
from laplax.curv.utils import LowRankTerms

CURVS = ["full", "diagonal", "lanczos", "lobpcg"]

post_specs = st.fixed_dictionaries({
    "curv": st.sampled_from(CURVS), "rank": st.integers(0, 12), "kind": st.sampled_from(
        ["random", "repeated"]), "seed": gen.seeds, "tau": gen.log_floats(0.1, 20),
    "s2": st.one_of(st.none(), gen.log_floats(0.2, 5)),
    "ls": st.one_of(st.just(1.0), gen.log_floats(0.3, 5)),
})
# now and then very sharp, very broad or very badly scaled posteriors
extreme_specs = gen.rarely(post_specs, st.fixed_dictionaries({
    "curv": st.sampled_from(CURVS), "rank": st.integers(0, 50),
    "kind": st.just("random"), "seed": gen.seeds, "tau": gen.log_floats(1e-3, 1e9),
    "s2": st.one_of(st.none(), gen.log_floats(0.2, 5)),
    "ls": st.one_of(st.just(1.0), gen.log_floats(1e-4, 1e4)),
}), 4)


class Post:
    """posterior_fn with its covariance in numpy."""

    def __init__(self, spec: dict, model: gen.Model) -> None:
        self.spec, P = spec, model.P
        # "scale" multiplies curvature and prior precision: the covariance is divided by it
        C = gen.psd(P, spec["rank"], spec["seed"], spec["kind"]) * spec.get("scale", 1.0)
        tau = spec["tau"] * spec.get("scale", 1.0)
        ct = spec["curv"]
        if ct == "full":
            est = jnp.asarray(C)
        elif ct == "diagonal":
            est, C = jnp.asarray(np.diag(C).copy()), np.diag(np.diag(C))
        else:
            w, U = np.linalg.eigh(C)
            R = max(1, min(spec["rank"], P))
            U, w = U[:, ::-1][:, :R], np.maximum(w[::-1][:R], 0)
            est = LowRankTerms(U=jnp.asarray(U), S=jnp.asarray(w), scalar=jnp.asarray(0.0))
            C = (U * w) @ U.T
        self.curvature, self.est = C, est
        self.fn = set_posterior_fn(ct, est, layout=model.params)
        self.prior = {"prior_prec": tau}
        if spec["s2"] is not None:
            self.prior["sigma_squared"] = spec["s2"]
        self.ls = spec["ls"]
        self.P = P

    def cov(self, tau=None) -> np.ndarray:
        s2 = 1.0 if self.spec["s2"] is None else self.spec["s2"]
        tau = self.prior["prior_prec"] if tau is None else tau
        return self.ls * np.linalg.inv(s2 * self.curvature + tau * np.eye(self.P))


def identity_model(template):
    """A 'model' that returns its parameters as one flat vector."""
    del template

    def model_fn(input, params):
        return jnp.concatenate([jnp.reshape(l, (-1,)) for l in jax.tree.leaves(params)]) \
            + 0.0 * jnp.sum(input)

    return model_fn


def check_standard_normal(z: np.ndarray, what: str, sigma: float = 6.5) -> None:
    """Rows of z are independent draws of N(0, I)  (bounds at `sigma` standard deviations)."""
    N, P = z.shape
    expect(np.all(np.isfinite(z)), f"{what}: draws are not finite")
    m = z.mean()
    if abs(m) > sigma / np.sqrt(N * P):
        raise Violation(f"{what}: mean of the whitened draws is {m} (N={N}, P={P})")
    v = np.mean(z ** 2)
    if abs(v - 1) > sigma * np.sqrt(2 / (N * P)) * 1.1:
        raise Violation(f"{what}: variance of the whitened draws is {v} (N={N}, P={P})")
    pm = np.abs(z.mean(0)).max()
    if pm > sigma / np.sqrt(N):
        raise Violation(f"{what}: a whitened coordinate has mean {pm}")
    C = z.T @ z / N
    off = C - np.diag(np.diag(C))
    if np.abs(off).max(initial=0) > (sigma + 0.5) / np.sqrt(N):
        raise Violation(f"{what}: whitened coordinates correlate ({np.abs(off).max()})")
    if np.abs(np.diag(C) - 1).max() > 1.2 * sigma * np.sqrt(2 / N):
        raise Violation(f"{what}: whitened coordinate variances {np.diag(C)}")
    # draws with neighbouring indices are independent
    if N > 2:
        lag = np.sum(z[1:] * z[:-1]) / np.sqrt((N - 1) * P)
        if abs(lag) > sigma + 0.5:
            raise Violation(f"{what}: draws with neighbouring indices correlate ({lag} sigma)")
