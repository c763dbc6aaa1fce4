"""P22 Posterior GP kernel equals J(x1) C J(x2)^T."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Sub, close, expect, raises
from harness.post import Post, post_specs
from laplax.eval.pushforward import lin_pred_cov, lin_setup, set_lin_pushforward, set_posterior_gp_kernel

RULE = (
    "Cases: formula models with outputs of shape () to (2,2), posteriors of all four types with "
    "known covariance, 2-4, sometimes 7 inputs (also equal ones), product and dense forms, plain and jitted; "
    "oracle: numpy J(x1) C J(x2)^T. Non-trivial: two different inputs and two parameters."
)
ASSUMPTIONS = ["numpy linear algebra; closed-form Jacobians of the generated model"]


def setup(spec):
    m = gen.Model(spec["model"])
    po = Post(spec["post"], m)
    X = m.inputs(spec["n"], spec["seed"])
    if spec["equal"] and len(X) > 1:
        X[1] = X[0]
    S = po.cov()
    J = [m.jac(x) for x in X]
    sc = max(float(np.abs(j).max()) for j in J) ** 2 * float(np.abs(S).sum()) + 1e-3
    return m, po, X, S, J, dict(scale=sc, rtol=1e-8 if spec["x64"] else 5e-5)


def kernel(spec, m, po, **kw):
    if spec["pos"]:
        return set_posterior_gp_kernel(m.fn(), m.params, po.fn, po.prior, po.ls, **kw)
    if po.ls == 1.0:
        return set_posterior_gp_kernel(model_fn=m.fn(), mean=m.params, posterior_fn=po.fn,
                                       prior_arguments=po.prior, **kw)
    return set_posterior_gp_kernel(model_fn=m.fn(), mean=m.params, posterior_fn=po.fn,
                                   prior_arguments=po.prior, loss_scaling_factor=po.ls, **kw)


def run_mv(spec):
    m, po, X, S, J, tol = setup(spec)
    k, ds = kernel(spec, m, po)
    kv = (lambda v, a, b: k(v, a, b, ds))
    if spec["jit"]:
        kv = jax.jit(kv)
    r = np.random.default_rng([spec["seed"], 101])
    Xj = [jnp.asarray(x) for x in X]  # one object per input, or one per argument
    other = Xj if spec["same"] else [jnp.array(x) for x in X]
    for i in range(len(X)):
        for j in range(len(X)):
            v = np.round(r.normal(size=m.oshape), 3)
            got = kv(jnp.asarray(v), Xj[i], other[j])
            e = (J[i] @ S @ J[j].T @ v.reshape(-1)).reshape(m.oshape)
            close(got, e, f"kernel product for inputs {i}, {j}", x64=spec["x64"], **tol)
            # u^T K(x1,x2) v = v^T K(x2,x1) u
            u = np.round(r.normal(size=m.oshape), 3)
            back = kv(jnp.asarray(u), Xj[j], other[i])
            close(np.sum(np.asarray(got) * u), np.sum(np.asarray(back) * v), "swapped inputs",
                  x64=spec["x64"], rtol=tol["rtol"] * 5, scale=tol["scale"] * m.K)
    return m.P > 1 and len(X) > 1 and not spec["equal"]


def run_dense(spec):
    m, po, X, S, J, tol = setup(spec)
    x64 = spec["x64"]
    layout = {"int": m.K, "array": jnp.zeros(m.oshape), "struct": jnp.ones(m.K)}[spec["layout"]]
    k, ds = kernel(spec, m, po, dense=True, output_layout=layout)
    kd = jax.jit(k) if spec["jit"] else k
    n, K = len(X), m.K
    Xj = [jnp.asarray(x) for x in X]
    other = Xj if spec["same"] else [jnp.array(x) for x in X]
    G = np.zeros((n * K, n * K))
    for i in range(n):
        for j in range(n):
            M = np.asarray(kd(Xj[i], other[j]))
            close(M, J[i] @ S @ J[j].T, f"dense kernel for inputs {i}, {j}", x64=x64, **tol)
            G[i * K:(i + 1) * K, j * K:(j + 1) * K] = M
    close(G, G.T, "symmetry of the Gram matrix", x64=x64, **tol)
    w = np.linalg.eigvalsh((G + G.T) / 2)
    expect(w.min() >= -10 * tol["rtol"] * tol["scale"] * n * K, f"Gram matrix has eigenvalue {w.min()}")
    # kernel at one input is the linearised predictive covariance
    pf = set_lin_pushforward(m.fn(), m.params, po.fn, po.prior, po.ls, [lin_setup, lin_pred_cov])
    for i in range(n):
        c = np.asarray(pf(jnp.asarray(X[i]))["pred_cov"]).reshape(K, K)
        close(G[i * K:(i + 1) * K, i * K:(i + 1) * K], c, "kernel at one input and predictive covariance",
              x64=x64, **tol)
    # product form of the same posterior
    kv, ds2 = kernel(spec, m, po)
    e = jnp.asarray(gen.vec(K, spec["seed"]))
    close(kv(e, jnp.asarray(X[0]), jnp.asarray(X[-1]), ds2), J[0] @ S @ J[-1].T @ np.asarray(e),
          "product form", x64=x64, **tol)
    # the returned state belongs to this posterior
    close(kv(e, jnp.asarray(X[0]), jnp.asarray(X[-1]), ds), J[0] @ S @ J[-1].T @ np.asarray(e),
          "product form with the state of the dense kernel", x64=x64, **tol)
    with raises(ValueError, "dense kernel without output layout"):
        kernel(spec, m, po, dense=True)
    return m.P > 1 and n > 1 and not spec["equal"]


def run_vmap(spec):
    """Gram matrices by vmap over pairs of inputs."""
    m, po, X, S, J, tol = setup(spec)
    k, _ = kernel(spec, m, po, dense=True, output_layout=m.K)
    Xj = jnp.asarray(X)
    G = jax.vmap(lambda a: jax.vmap(lambda b: k(a, b))(Xj))(Xj)
    e = np.stack([[ji @ S @ jj.T for jj in J] for ji in J])
    close(G, e, "vmapped Gram matrix", x64=spec["x64"], **tol)
    return len(X) > 1


base = dict(model=gen.model_specs(codes=True, max_total=9, wide=40), post=post_specs, seed=gen.seeds, n=gen.counts(2, 4, 7),
            equal=st.sampled_from([False, False, False, True]), jit=st.booleans(), pos=st.booleans(),
            same=st.booleans(), x64=gen.x64s)
vecm = gen.model_specs(codes=True, max_total=9, out_shapes="vec", wide=40)
SUBS = [
    Sub("mv", st.fixed_dictionaries(base), run_mv, quick=96),
    Sub("dense", st.fixed_dictionaries({**base, "model": vecm, "layout": st.sampled_from(
        ["int", "array", "struct"])}), run_dense, quick=80),
    Sub("vmap", st.fixed_dictionaries({**base, "model": vecm}), run_vmap, quick=32),
]
