"""P02 Hessian product equals the exact Hessian of the summed loss."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Sub, close, expect, flat, raises, same_structure
from laplax.curv.hessian import create_hessian_mv, create_hessian_mv_without_data, hvp
from laplax.enums import LossFn

RULE = (
    "Cases: random closed-form models (with curvature in the parameters), batches of 1-40 "
    "points, saturated logits, sometimes inputs of very different size, losses mse/cross_entropy (one-hot, soft or index targets)/binary_cross_entropy/none/"
    "custom, sample counts, per-sample or whole-batch models; oracle: dense "
    "J^T H J + sum_k grad_k Hess f_k in numpy. Non-trivial: expected product not zero."
)
ASSUMPTIONS = ["numpy float64 closed-form first and second derivatives are correct"]


def hessian(m, X, Y, kind, factor, seed):
    if kind == "none":  # no loss: the (summed) model output itself
        return factor * sum(m.hess(x).sum(0) for x in X)
    return gen.loss_hessian(m, X, Y, kind, factor, seed)


def tols(m, X, H, kind, factor, x64):
    """Scale and tolerance: the summands may be much larger than their sum."""
    parts = m.jac_scale(X) + sum(float(np.abs(m.hess(x)).sum((0, 2)).max()) for x in X)
    sc = max(float(np.abs(H).sum(1).max()), factor * parts * (1e-4 if x64 else 0.1), factor)
    return sc, (1e-8 if x64 else 2e-4) * m.noise(X)


def run(spec):
    kind, seed, n, x64 = spec["loss"], spec["seed"], spec["n"], spec["x64"]
    m = gen.Model(spec["model"])
    if kind == "cross_entropy" and len(m.oshape) != 1:
        m = gen.Model({**spec["model"], "o": [m.K]})
    X = m.uneven_inputs(n, seed, spec["uneven"])
    soft = spec.get("soft", False)
    Y = gen.targets(m, n, kind, seed, soft=soft and not spec["int_targets"])
    T = Y
    if kind == "cross_entropy" and spec["int_targets"]:
        T = Y.argmax(-1)
    if kind == "binary_cross_entropy" and spec["int_targets"]:
        T = Y.astype("int32")
    data = {"input": jnp.asarray(X), "target": jnp.asarray(T)}
    batched = spec["batched"]
    if kind == "custom":
        per = gen.custom_loss(m.K, seed)
        loss = lambda p, t: jnp.sum(jax.vmap(per)(p, t))  # noqa: E731
    else:
        loss = LossFn(kind) if spec["enum"] else kind
    kw = {}
    if spec["nc"] is not None:
        kw["num_curv_samples"] = spec["nc"]
    if spec["nt"] is not None:
        kw["num_total_samples"] = spec["nt"]
    nc = spec["nc"] if spec["nc"] is not None else n
    nt = spec["nt"] if spec["nt"] is not None else nc
    mv = create_hessian_mv(m.fn(batched=batched), m.params, data, loss,
                           vmap_over_data=not batched, **kw)
    if spec["jit"]:
        mv = jax.jit(mv)
    H = hessian(m, X, Y, kind, nt / nc, seed)
    v, w = gen.vec(m.P, seed), gen.vec(m.P, seed + 1)
    sc, rt = tols(m, X, H, kind, nt / nc, x64)
    got = mv(m.tree(v))
    same_structure(got, m.params, "Hessian product")
    close(flat(got), H @ v, f"Hessian product ({kind})", scale=sc, rtol=rt)
    gw = mv(m.tree(w))
    expect(abs(v @ flat(gw) - w @ flat(got))
           <= 5 * rt * sc * (1 + np.abs(v).max() * np.abs(w).sum()),
           "Hessian product is not symmetric")
    return np.abs(H @ v).max() > 1e-6


def run_without_data(spec):
    kind, seed, x64 = spec["loss"], spec["seed"], spec["x64"]
    sizes = spec["sizes"]
    m = gen.Model(spec["model"])
    X = m.inputs(sum(sizes), seed)
    Y = gen.targets(m, sum(sizes), kind, seed)
    mv = create_hessian_mv_without_data(m.fn(), m.params, kind, spec["factor"])
    v = gen.vec(m.P, seed)
    tot = 0
    for xb, yb in zip(gen.cut(X, sizes), gen.cut(Y, sizes), strict=True):
        got = flat(mv(m.tree(v), {"input": jnp.asarray(xb), "target": jnp.asarray(yb)}))
        Hb = hessian(m, xb, yb, kind, spec["factor"], seed)
        sc, rt = tols(m, xb, Hb, kind, spec["factor"], x64)
        close(got, Hb @ v, "Hessian product of one batch", scale=sc, rtol=rt)
        tot = tot + got
    H = hessian(m, X, Y, kind, spec["factor"], seed)
    sc, rt = tols(m, X, H, kind, spec["factor"], x64)
    close(tot, H @ v, "sum of batch Hessian products", scale=sc, rtol=rt)
    return len(sizes) > 1


def run_shared(spec):
    """One operator, several batches that share arrays or the dictionary."""
    m = gen.Model(spec["model"])
    n, seed, kind = spec["n"], spec["seed"], spec["loss"]
    Xs = [m.inputs(n, seed), m.inputs(n, seed + 1)]
    Ts = [gen.targets(m, n, kind, seed), 1.0 - gen.targets(m, n, kind, seed)]
    jX, jT = [jnp.asarray(x) for x in Xs], [jnp.asarray(t) for t in Ts]
    mv = create_hessian_mv_without_data(m.fn(), m.params, kind, 1.5)
    if spec["jit"]:
        mv = jax.jit(mv)
    reused = {}
    for i, (a, b) in enumerate(spec["order"]):
        data = reused if spec["reuse"] else {}
        data["input"], data["target"] = jX[a], jT[b]
        v = gen.vec(m.P, seed + i % 2)
        H = hessian(m, Xs[a], Ts[b], kind, 1.5, seed)
        sc, rt = tols(m, Xs[a], H, kind, 1.5, spec["x64"])
        close(flat(mv(m.tree(v), data)), H @ v, f"Hessian product of batch {i} (input {a}, target {b})",
              scale=sc, rtol=rt)
    return len(set(map(tuple, spec["order"]))) > 1


def run_hvp(spec):
    """hvp of a plain scalar function of a pytree."""
    m = gen.Model(spec["model"])
    x = m.inputs(1, spec["seed"])[0]
    f = m.fn()
    wts = gen.vec(m.K, spec["seed"] + 3)
    fun = lambda p: jnp.reshape(f(x, p), (-1,)) @ wts.astype(jnp.result_type(float))  # noqa: E731
    v = gen.vec(m.P, spec["seed"])
    got = hvp(fun, m.params, m.tree(v))
    same_structure(got, m.params, "hvp")
    H = np.einsum("k,kpq->pq", wts, m.hess(x))
    close(flat(got), H @ v, "hvp", scale=float(np.abs(H).sum(1).max()) + 1,
          rtol=(1e-8 if spec["x64"] else 2e-4) * m.noise([x]))
    return np.abs(H @ v).max() > 1e-6


def run_errors(spec):
    m = gen.Model(spec["model"])
    X = m.inputs(1, 0)
    with raises(ValueError, "unknown loss"):
        mv = create_hessian_mv(m.fn(), m.params, {"input": jnp.asarray(X), "target": jnp.asarray(X)},
                               spec["bad"])
        mv(m.params)
    return True


opt = st.one_of(st.none(), st.integers(1, 60))
ms = gen.model_specs(codes=True, acts=["quad", "tanh", "lin"], wide=40,
                     scales=(1.0, 1.0, 1.0, 1.0, 4.0, 12.0))
SUBS = [
    Sub("product", st.fixed_dictionaries({
        "model": ms, "n": gen.huge(gen.counts(1, 4, 40)), "seed": gen.seeds, "x64": gen.x64s,
        "uneven": gen.rarely(st.just(0.0), st.sampled_from([1.0, 2.0]), 4), "loss": st.sampled_from(gen.LOSSES), "nc": opt, "nt": opt, "jit": st.booleans(),
        "enum": st.booleans(), "int_targets": st.booleans(), "soft": st.booleans(), "batched": st.booleans()}),
        run, quick=320),
    Sub("additive", st.fixed_dictionaries({
        "model": ms, "seed": gen.seeds, "x64": gen.x64s,
        "loss": st.sampled_from(["mse", "binary_cross_entropy", "none"]),
        "sizes": st.lists(gen.counts(1, 3, 12), min_size=1, max_size=3),
        "factor": gen.log_floats(0.1, 50)}), run_without_data, quick=60),
    Sub("shared", st.fixed_dictionaries({
        "model": ms, "n": gen.counts(1, 3, 12), "seed": gen.seeds, "x64": gen.x64s,
        "loss": st.sampled_from(["mse", "binary_cross_entropy"]),
        "order": st.lists(st.tuples(st.integers(0, 1), st.integers(0, 1)), min_size=1, max_size=4),
        "reuse": st.booleans(), "jit": st.booleans()}), run_shared, quick=48),
    Sub("hvp", st.fixed_dictionaries({"model": ms, "seed": gen.seeds, "x64": gen.x64s}),
        run_hvp, quick=80),
    Sub("errors", st.fixed_dictionaries({
        "model": ms, "bad": st.sampled_from(["", "foo", "MSE loss"])}), run_errors, quick=8),
]
