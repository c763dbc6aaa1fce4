"""P10 Marginal log-likelihood equals the Laplace evidence formula."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Sub, close, expect
from laplax.curv.cov import estimate_curvature
from laplax.curv.ggn import create_ggn_mv
from laplax.curv.utils import LowRankTerms, concatenate_model_and_loss_fn
from laplax.enums import CurvApprox, LossFn
from laplax.eval.likelihood import joint_log_likelihood, marginal_log_likelihood

RULE = (
    "Cases: formula models, batches of 1-30 points, precisions and curvatures over many orders of magnitude, losses mse/cross_entropy/binary/custom, "
    "curvature given as full matrix, diagonal or low-rank terms of any rank, or estimated from "
    "the Gauss-Newton product; prior precision, sigma, sigma_squared, loss scale; oracle: "
    "numpy evidence formula and its derivative. Non-trivial: non-zero curvature, two parameters."
)
ASSUMPTIONS = ["numpy slogdet; the formula documented for each curvature type"]
CURVS = ["full", "diagonal", "lanczos", "lobpcg"]


def total_loss(m, X, Y, kind, seed):
    return sum(gen.loss_value(kind, m.f(x), y, seed) for x, y in zip(X, Y, strict=True))


def joint(loss, v, p):
    P, tau = v.size, p["tau"]
    sigma = 1.0 if p["sigma"] is None else p["sigma"]
    return (-loss / (2 * sigma) - 0.5 * tau * v @ v - 0.5 * P * (np.log(2 * np.pi) - np.log(tau)))


def evidence(loss, v, C, p):
    s2 = 1.0 if p["s2"] is None else p["s2"]
    prec = (s2 * C + p["tau"] * np.eye(len(C))) / p["ls"]
    return (joint(loss, v, p) + 0.5 * v.size * np.log(2 * np.pi) - 0.5 * np.linalg.slogdet(prec)[1])


def prior(p):
    d = {"prior_prec": jnp.asarray(p["tau"]) if p["arr"] else p["tau"]}
    if p["s2"] is not None:
        d["sigma_squared"] = p["s2"]
    if p["sigma"] is not None:
        d["sigma"] = p["sigma"]
    return d


def estimate(curv, C, R):
    """Curvature of the given type, and its matrix."""
    P = len(C)
    if curv == "full":
        return jnp.asarray(C), C
    if curv == "diagonal":
        return jnp.asarray(np.diag(C).copy()), np.diag(np.diag(C))
    w, U = np.linalg.eigh(C)
    R = max(1, min(R, P))
    U, w = U[:, ::-1][:, :R], np.maximum(w[::-1][:R], 0)
    return (LowRankTerms(U=jnp.asarray(U), S=jnp.asarray(w), scalar=jnp.asarray(0.0)), (U * w) @ U.T)


def setup(spec):
    m = gen.Model(spec["model"])
    kind, seed, n = spec["loss"], spec["seed"], spec["n"]
    if kind == "cross_entropy" and len(m.oshape) != 1:
        m = gen.Model({**spec["model"], "o": [m.K]})
    X, Y = m.inputs(n, seed), gen.targets(m, n, kind, seed)
    data = {"input": jnp.asarray(X), "target": jnp.asarray(Y)}
    if kind == "custom":
        per = gen.custom_loss(m.K, seed)
        loss = lambda p, t: jnp.sum(jax.vmap(per)(p, t))  # noqa: E731
    else:
        loss = LossFn(kind) if spec["enum"] else kind
    return m, X, Y, data, loss


def run_given(spec):
    m, X, Y, data, loss = setup(spec)
    seed, x64, batched = spec["seed"], spec["x64"], spec["batched"]
    C = gen.psd(m.P, spec["rank"], seed, spec["kind"]) * spec["cscale"]
    L = total_loss(m, X, Y, spec["loss"], seed)
    ct = spec["curv"]
    est, Ce = estimate(ct, C, spec["R"])
    name = CurvApprox(ct) if spec["enum"] else ct

    def mll(est, name, p, pr):
        kw = {} if p["ls"] == 1.0 else {"loss_scaling_factor": p["ls"]}
        return marginal_log_likelihood(est, pr, data, m.fn(batched=batched), m.params, loss, name,
                                       vmap_over_data=not batched, **kw)

    for p in spec["priors"]:
        cond = 1 + (p["s2"] or 1.0) * float(np.linalg.norm(Ce, 2)) / p["tau"]
        if cond > (1e9 if x64 else 1e3):
            continue
        exp = evidence(L, m.v, Ce, p)
        sc = (abs(L) / (2 * (p["sigma"] or 1.0)) + 0.5 * p["tau"] * m.v @ m.v + m.P * 8.0)
        rt = (1e-9 if x64 else 1e-4) * m.noise(X) + 1e-16 * cond
        got = mll(est, name, p, prior(p))
        expect(np.shape(got) == (), f"marginal log-likelihood of shape {np.shape(got)}")
        close(got, exp, f"marginal log-likelihood ({ct})", rtol=rt, scale=sc)
        f = lambda tau, p=p: mll(est, name, p, {**prior({**p, "arr": False}), "prior_prec": tau})  # noqa: E731
        if spec["jit"]:
            close(jax.jit(f)(p["tau"]), exp, "jitted marginal log-likelihood", rtol=rt, scale=sc)
        if spec["grad"] and cond < 1e6:
            s2 = 1.0 if p["s2"] is None else p["s2"]
            inv = np.linalg.inv(s2 * Ce + p["tau"] * np.eye(m.P))
            de = -0.5 * m.v @ m.v + m.P / (2 * p["tau"]) - 0.5 * np.trace(inv)
            g = jax.grad(f)(float(p["tau"]))
            close(g, de, "derivative in the prior precision", rtol=1e-8 + 1e-14 * cond if x64 else 1e-3,
                  scale=0.5 * m.v @ m.v + m.P / p["tau"])
        # consistency of the representations
        for other in ("full", "diagonal", "lanczos"):
            if other == ct:
                continue
            if other == "diagonal" and not np.allclose(Ce, np.diag(np.diag(Ce))):
                continue
            oe, oc = estimate(other, Ce, m.P)
            close(mll(oe, other, p, prior(p)), evidence(L, m.v, oc, p),
                  f"{other} representation of the same curvature", rtol=rt, scale=sc)
        fit = concatenate_model_and_loss_fn(m.fn(batched=batched), loss, vmap_over_data=not batched)
        close(joint_log_likelihood(fit, prior(p), m.params, data), joint(L, m.v, p),
              "joint log-likelihood", rtol=rt, scale=sc)
    return m.P > 1 and np.abs(Ce).max() > 0


def run_fitted(spec):
    """Curvature estimated from the Gauss-Newton product of the same data."""
    m, X, Y, data, loss = setup({**spec, "enum": False})
    G = gen.ggn(m, X, spec["loss"], 1.0, spec["seed"])
    mv = create_ggn_mv(m.fn(), m.params, data, spec["loss"], vmap_over_data=True)
    L = total_loss(m, X, Y, spec["loss"], spec["seed"])
    x64 = spec["x64"]
    ct = spec["curv"]
    kw = {"rank": m.P, "key": jax.random.key(1)} if ct == "lanczos" else {}
    if ct == "lanczos" and not x64:
        return False
    est = estimate_curvature(ct, mv, layout=m.params, **kw)
    C = np.diag(np.diag(G)) if ct == "diagonal" else G
    for p in spec["priors"]:
        exp = evidence(L, m.v, C, p)
        sc = (abs(L) / (2 * (p["sigma"] or 1.0)) + 0.5 * p["tau"] * m.v @ m.v + m.P * 8.0)
        got = marginal_log_likelihood(est, prior(p), data, m.fn(), m.params, spec["loss"], ct,
                                      vmap_over_data=True, loss_scaling_factor=p["ls"])
        close(got, exp, f"marginal log-likelihood of the fitted {ct} curvature",
              rtol=(1e-6 if x64 else 1e-3) * m.noise(X), scale=sc)
    return m.P > 1 and np.abs(G).max() > 1e-6


opt = lambda s: st.one_of(st.none(), s)  # noqa: E731
priors = st.lists(st.fixed_dictionaries({
    "tau": gen.rarely(gen.log_floats(0.05, 50), gen.log_floats(1e-4, 1e9), 2),
    "s2": opt(gen.log_floats(0.1, 10)), "sigma": opt(gen.log_floats(0.1, 10)), "ls": st.one_of(st.just(1.0), gen.log_floats(0.2, 20)),
    "arr": st.booleans()}), min_size=1, max_size=2)

def run_magnitudes(spec):
    """Parameters and residuals of any size."""
    P, n, x64, ct = spec["P"], spec["n"], spec["x64"], spec["curv"]
    r = np.random.default_rng([spec["seed"], 37])
    v = np.round(r.normal(size=P + 1), 3) * spec["pscale"]
    c = np.round(r.normal(size=P + 1), 3)
    X, Y = np.round(r.normal(size=n), 3), np.round(r.normal(size=n), 3) * spec["yscale"]
    params = {"b": jnp.asarray(v[0]), "w": jnp.asarray(v[1:])}

    def model(input, params):
        u = params["b"] * c[0] + jnp.sum(params["w"] * c[1:].astype(params["w"].dtype))
        return spec["yscale"] * jnp.tanh(u / spec["pscale"]) * input

    f = spec["yscale"] * np.tanh(v @ c / spec["pscale"]) * X
    L = float(((f - Y) ** 2).sum())
    est, Ce = estimate(ct, gen.psd(P + 1, P + 1, spec["seed"], "random"), P)
    data = {"input": jnp.asarray(X), "target": jnp.asarray(Y)}
    for tau in spec["taus"]:
        exp = evidence(L, v, Ce, {"tau": tau, "s2": None, "sigma": None, "ls": 1.0})
        sc = L + tau * v @ v + 8.0 * (P + 1)
        got = marginal_log_likelihood(est, {"prior_prec": tau}, data, model, params, "mse", ct, vmap_over_data=True)
        close(got, exp, f"marginal log-likelihood ({ct}, parameters of size {spec['pscale']})",
              rtol=1e-11 if x64 else 3e-5, scale=sc)
    return spec["pscale"] != 1.0


base = dict(model=gen.model_specs(codes=True, max_total=9, wide=60), seed=gen.seeds, n=gen.huge(gen.counts(1, 4, 30)), x64=gen.x64s,
            priors=priors)
SUBS = [
    Sub("given", st.fixed_dictionaries({
        **base, "loss": st.sampled_from(["mse", "cross_entropy", "binary_cross_entropy", "custom"]),
        "curv": st.sampled_from(CURVS), "rank": gen.counts(0, 9, 60),
        "R": gen.counts(1, 9, 60), "cscale": gen.rarely(st.just(1.0), gen.log_floats(1e-6, 1e6), 3),
        "kind": st.sampled_from(["random", "repeated", "decay", "wide"]), "jit": st.booleans(),
        "grad": st.booleans(), "enum": st.booleans(), "batched": st.booleans()}), run_given, quick=160),
    Sub("fitted", st.fixed_dictionaries({
        **base, "loss": st.sampled_from(["mse", "cross_entropy", "binary_cross_entropy"]),
        "curv": st.sampled_from(["full", "diagonal", "lanczos"])}), run_fitted, quick=48),
    Sub("magnitudes", st.fixed_dictionaries({
        "P": gen.counts(1, 7, 60), "n": gen.counts(1, 5, 30), "curv": st.sampled_from(CURVS), "seed": gen.seeds,
        "pscale": gen.log_floats(1e-5, 1e5), "yscale": gen.log_floats(1e-3, 1e4),
        "taus": st.lists(gen.log_floats(1e-2, 1e2), min_size=1, max_size=3), "x64": gen.x64s}),
        run_magnitudes, quick=32),
]
