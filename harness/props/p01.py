"""P01 Gauss-Newton product equals factor * sum of J^T H J v."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Sub, close, expect, flat, raises, same_structure
from laplax.api import GGN
from laplax.curv.ggn import (
    create_ggn_mv,
    create_ggn_mv_without_data,
    create_loss_hessian_mv,
)

RULE = (
    "Cases: random closed-form models (pytree layout, input/output shape, activation), "
    "batches of 1-40 points, saturated logits, sometimes inputs of very different size, losses mse/cross_entropy/binary_cross_entropy/none/custom/"
    "user Hessian product, sample counts, vectors; oracle: dense J^T H J in numpy. "
    "Non-trivial: the expected product is not (close to) zero."
)
ASSUMPTIONS = ["numpy float64 closed-form Jacobians and loss Hessians are correct"]

base = dict(
    model=gen.model_specs(codes=True, wide=40, scales=(1.0, 1.0, 1.0, 1.0, 4.0, 12.0)),
    n=gen.huge(gen.counts(1, 5, 40)), seed=gen.seeds, x64=gen.x64s,
    uneven=gen.rarely(st.just(0.0), st.sampled_from([1.0, 3.0]), 4),
)


def _loss(kind, model, seed):
    if kind == "custom":
        return gen.custom_loss(model.K, seed)
    return kind


def _case(spec):
    m = gen.Model(spec["model"])
    X = m.uneven_inputs(spec["n"], spec["seed"], spec["uneven"])
    kind = spec.get("loss", "mse")
    Y = gen.targets(m, spec["n"], kind, spec["seed"], soft=spec.get("soft", False))
    data = {"input": jnp.asarray(X), "target": jnp.asarray(Y)}
    v = gen.vec(m.P, spec["seed"])
    return m, X, Y, kind, data, v


def tols(m, X, G, factor, x64):
    """Scale and tolerance of a product with G (saturated losses cancel to almost zero)."""
    sc = max(float(np.abs(G).sum(1).max()), factor * m.jac_scale(X) * (1e-4 if x64 else 0.1))
    return sc, (1e-8 if x64 else 2e-4) * m.noise(X)


def run_ggn(spec):
    m, X, Y, kind, data, v = _case(spec)
    if kind in ("cross_entropy",) and len(m.oshape) != 1:
        m = gen.Model({**spec["model"], "o": [m.K]})
        Y = Y.reshape(len(X), m.K)
        data["target"] = jnp.asarray(Y)
    if kind == "cross_entropy" and spec.get("int_targets"):
        data["target"] = jnp.asarray(Y.argmax(-1))
    elif kind == "binary_cross_entropy" and spec.get("int_targets") and not spec.get("soft"):
        data["target"] = jnp.asarray(Y.astype(spec.get("tdtype", "int32")))
    kw = {}
    nc, nt = spec.get("nc"), spec.get("nt")
    if nc is not None:
        kw["num_curv_samples"] = nc
    if nt is not None:
        kw["num_total_samples"] = nt
    nc_eff = nc if nc is not None else spec["n"]
    nt_eff = nt if nt is not None else nc_eff
    loss = _loss(kind, m, spec["seed"])
    if spec.get("enum") and isinstance(loss, str):
        from laplax.enums import LossFn

        loss = LossFn(loss)
    if spec["user_hess"]:
        Hs = {"jv": None}
        lhm = create_loss_hessian_mv(loss)
        # a user-supplied product: three times the built-in one
        user = lambda jv, pred, target, **k: 3.0 * lhm(jv, pred=pred, target=target)  # noqa: E731
        mv = create_ggn_mv(m.fn(), m.params, data, loss_hessian_mv=user, **kw)
        fac = 3.0
        del Hs
    else:
        mv = create_ggn_mv(m.fn(), m.params, data, loss_fn=loss, **kw)
        fac = 1.0
    G = gen.ggn(m, X, kind, fac * nt_eff / nc_eff, spec["seed"])
    if spec["jit"]:
        mv = jax.jit(mv)
    got = mv(m.tree(v))
    same_structure(got, m.params, "GGN product")
    x64 = spec["x64"]
    sc, rt = tols(m, X, G, fac * nt_eff / nc_eff, x64)
    close(flat(got), G @ v, f"GGN product ({kind})", x64=x64, scale=sc, rtol=rt)
    # linearity: scaling and zero
    got0 = mv(jax.tree.map(jnp.zeros_like, m.params))
    close(flat(got0), np.zeros(m.P), "GGN product of zero", x64=x64)
    w = gen.vec(m.P, spec["seed"] + 1)
    gw = flat(mv(m.tree(w)))
    expect(abs(v @ gw - w @ flat(got)) <= 5 * rt * (sc * (1 + np.abs(v).max() * np.abs(w).sum())),
           "GGN product is not symmetric")
    return np.abs(G @ v).max() > 1e-6


def run_batched(spec):
    """vmap_over_data=False with a model that takes the whole batch."""
    m, X, Y, kind, data, v = _case(spec)
    if kind == "cross_entropy" and len(m.oshape) != 1:
        m = gen.Model({**spec["model"], "o": [m.K]})
        data["target"] = jnp.asarray(Y.reshape(len(X), m.K))
    if kind == "custom":
        per = gen.custom_loss(m.K, spec["seed"])
        loss = lambda p, t: jnp.sum(jax.vmap(per)(p, t))  # noqa: E731
    else:
        loss = kind
    mv = create_ggn_mv(m.fn(batched=True), m.params, data, loss_fn=loss,
                       vmap_over_data=False, num_total_samples=spec["nt"])
    G = gen.ggn(m, X, kind, (spec["nt"] or spec["n"]) / spec["n"], spec["seed"])
    got = mv(m.tree(v))
    same_structure(got, m.params, "GGN product")
    sc, rt = tols(m, X, G, (spec["nt"] or spec["n"]) / spec["n"], spec["x64"])
    close(flat(got), G @ v, f"GGN product on a batched model ({kind})", scale=sc, rtol=rt)
    return np.abs(G @ v).max() > 1e-6


def run_without_data(spec):
    """Same operator applied to several batches: additive, factor applied once."""
    m, X, Y, kind, data, v = _case({**spec, "n": sum(spec["sizes"])})
    mv = create_ggn_mv_without_data(m.fn(), m.params, kind, spec["factor"])
    tot = 0
    for xb, yb in zip(gen.cut(X, spec["sizes"]), gen.cut(Y, spec["sizes"]), strict=True):
        got = mv(m.tree(v), {"input": jnp.asarray(xb), "target": jnp.asarray(yb)})
        Gb = gen.ggn(m, xb, kind, spec["factor"])
        sc, rt = tols(m, xb, Gb, spec["factor"], spec["x64"])
        close(flat(got), Gb @ v, "GGN product of one batch", scale=sc, rtol=rt)
        tot = tot + flat(got)
    G = gen.ggn(m, X, kind, spec["factor"])
    sc, rt = tols(m, X, G, spec["factor"], spec["x64"])
    close(tot, G @ v, "sum of batch products", scale=sc, rtol=rt)
    mv2 = GGN(m.fn(), m.params, data, loss_fn=kind, factor=spec["factor"], verbose_logging=False)
    close(flat(mv2(m.tree(v))), G @ v, "api GGN product", scale=sc, rtol=rt)
    return len(spec["sizes"]) > 1 and np.abs(G @ v).max() > 1e-6


def run_shared(spec):
    """One operator, several batches that share arrays or the dictionary; loss curvature depends on the target."""
    m = gen.Model(spec["model"])
    n, seed = spec["n"], spec["seed"]
    Xs = [m.inputs(n, seed), m.inputs(n, seed + 1)]
    Ts = [gen.targets(m, n, "mse", seed), gen.targets(m, n, "mse", seed + 1)]
    jX, jT = [jnp.asarray(x) for x in Xs], [jnp.asarray(t) for t in Ts]

    def loss(pred, target):
        return 0.5 * jnp.sum((1 + target ** 2) * pred ** 2) + jnp.sum(target)

    mv = create_ggn_mv_without_data(m.fn(), m.params, loss, 1.5)
    if spec["jit"]:
        mv = jax.jit(mv)
    reused = {}
    for i, (a, b) in enumerate(spec["order"]):
        data = reused if spec["reuse"] else {}
        data["input"], data["target"] = jX[a], jT[b]
        v = gen.vec(m.P, seed + i % 2)
        G = np.zeros((m.P, m.P))
        for x, t in zip(Xs[a], Ts[b], strict=True):
            J = m.jac(x)
            G += 1.5 * J.T @ ((1 + np.reshape(t, (-1, 1)) ** 2) * J)
        sc, rt = tols(m, Xs[a], G, 1.5 * (1 + max(float(np.max(t ** 2)) for t in Ts)), spec["x64"])
        close(flat(mv(m.tree(v), data)), G @ v, f"GGN product of batch {i} (input {a}, target {b})",
              scale=sc, rtol=rt)
    return len(set(map(tuple, spec["order"]))) > 1


def run_labels(spec):
    """A custom loss that indexes with its integer targets."""
    m = gen.Model(spec["model"])
    n, seed, factor = spec["n"], spec["seed"], 1.5
    X = m.inputs(n, seed)
    r = np.random.default_rng([seed, 31])
    y = r.integers(0, m.K, size=n)
    w = np.round(r.uniform(0.2, 3.0, size=m.K), 3)  # class weights
    T = y.astype(spec["tdtype"])
    T = np.stack([T, T[::-1]], axis=1) if spec["pair"] else T  # first column: the label

    def loss(pred, target):
        t = target[0] if spec["pair"] else target
        p = jnp.reshape(pred, (-1,))
        return jnp.asarray(w)[t] * (jax.scipy.special.logsumexp(p) - p[t])

    data = {"input": jnp.asarray(X), "target": jnp.asarray(T)}
    G = np.zeros((m.P, m.P))
    for x, t in zip(X, y, strict=True):
        J = m.jac(x)
        G += factor * w[t] * J.T @ gen.loss_hess("cross_entropy", m.f(x)) @ J
    v = gen.vec(m.P, seed)
    if spec["how"] == "data":
        f = create_ggn_mv(m.fn(), m.params, data, loss_fn=loss, num_curv_samples=2, num_total_samples=3)
        got = f(m.tree(v))
    elif spec["how"] == "api":
        got = GGN(m.fn(), m.params, data, loss_fn=loss, factor=factor, verbose_logging=False)(m.tree(v))
    else:
        got = create_ggn_mv_without_data(m.fn(), m.params, loss, factor)(m.tree(v), data)
    sc, rt = tols(m, X, G, 3 * factor, spec["x64"])
    close(flat(got), G @ v, "GGN product of a loss with integer targets", scale=sc, rtol=rt)
    return np.abs(G @ v).max() > 1e-6


def run_loss_hessian(spec):
    """Loss Hessian products on their own, one sample."""
    K, kind, seed = spec["K"], spec["loss"], spec["seed"]
    r = np.random.default_rng(seed)
    f = np.round(r.normal(size=K) * spec["scale"], 3)
    jv = np.round(r.normal(size=K), 3)
    t = np.eye(K)[r.integers(K)]
    loss = gen.custom_loss(K, seed) if kind == "custom" else kind
    mv = create_loss_hessian_mv(loss)
    H = gen.loss_hess(kind, f, seed)
    got = mv(jnp.asarray(jv), pred=jnp.asarray(f), target=jnp.asarray(t))
    close(got, H @ jv, f"loss Hessian product ({kind})", x64=spec["x64"], scale=1.0)
    if kind == "cross_entropy":
        one = mv(jnp.ones(K), pred=jnp.asarray(f), target=jnp.asarray(t))
        close(one, np.zeros(K), "softmax cross-entropy Hessian on the all-ones vector",
              x64=spec["x64"], scale=1.0)
    return K > 1


def run_errors(spec):
    m, X, Y, kind, data, v = _case(spec)
    with raises(ValueError, "create_ggn_mv without loss"):
        create_ggn_mv(m.fn(), m.params, data)
    with raises(ValueError, "create_ggn_mv with loss and Hessian product"):
        create_ggn_mv(m.fn(), m.params, data, loss_fn="mse",
                      loss_hessian_mv=create_loss_hessian_mv("mse"))
    with raises(ValueError, "unknown loss"):
        create_loss_hessian_mv(spec["bad"])
    with raises(ValueError, "no loss"):
        create_loss_hessian_mv(None)
    return True


opt = st.one_of(st.none(), st.integers(1, 60))
SUBS = [
    Sub("product", st.fixed_dictionaries({
        **base, "loss": st.sampled_from(gen.LOSSES), "nc": opt, "nt": opt,
        "user_hess": st.sampled_from([False, False, False, True]), "jit": st.booleans(),
        "enum": st.booleans(), "int_targets": st.booleans(), "soft": st.booleans(),
        "tdtype": st.sampled_from(["int32", "bool"])}), run_ggn, quick=280),
    Sub("batched_model", st.fixed_dictionaries({
        **base, "loss": st.sampled_from(gen.LOSSES), "nt": opt}), run_batched, quick=120),
    # logits of very different size within one batch
    Sub("batched_logits", st.fixed_dictionaries({
        **base, "model": gen.model_specs(codes=True, max_total=8, out_shapes="class", in_shapes="vec", scales=(1.0, 12.0)),
        "n": gen.counts(2, 5, 12), "uneven": st.sampled_from([2.0, 3.0, 4.0]), "nt": opt,
        "loss": st.sampled_from(["cross_entropy", "cross_entropy", "binary_cross_entropy"])}), run_batched, quick=60),
    Sub("additive", st.fixed_dictionaries({
        **base, "loss": st.sampled_from(["mse", "binary_cross_entropy", "none"]),
        "sizes": st.lists(gen.counts(1, 3, 12), min_size=1, max_size=4),
        "factor": gen.log_floats(0.1, 50)}), run_without_data, quick=80),
    Sub("shared", st.fixed_dictionaries({
        "model": base["model"], "n": gen.counts(1, 3, 12), "seed": gen.seeds, "x64": gen.x64s,
        "order": st.lists(st.tuples(st.integers(0, 1), st.integers(0, 1)), min_size=1, max_size=4),
        "reuse": st.booleans(), "jit": st.booleans()}), run_shared, quick=48),
    Sub("labels", st.fixed_dictionaries({
        "model": gen.model_specs(max_total=8, out_shapes="class"), "n": gen.counts(1, 4, 12), "seed": gen.seeds,
        "x64": gen.x64s, "tdtype": st.sampled_from(["int32", "uint8"]), "pair": st.booleans(),
        "how": st.sampled_from(["data", "api", "stream"])}), run_labels, quick=40),
    Sub("loss_hessian", st.fixed_dictionaries({
        "K": gen.huge(gen.counts(1, 7, 40)), "loss": st.sampled_from(gen.LOSSES), "seed": gen.seeds,
        "scale": st.sampled_from([0.0, 1.0, 5.0, 30.0, 100.0, 700.0]), "x64": gen.x64s}),
        run_loss_hessian, quick=200),
    Sub("errors", st.fixed_dictionaries({**base, "bad": st.sampled_from(["", "foo", "MSE loss", 3])}),
        run_errors, quick=8),
]
