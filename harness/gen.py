"""Generators: specs (JSON-able hypothesis strategies) and what is built from them.

The model family is given by closed formulas so that outputs, Jacobians and second
derivatives are computed in numpy, independently of jax and of the code under test:

    a_h(x, v) = (A v)_h * g_h(x)            g_h(x) = 1 + (B x)_h
    f_k(x, v) = sum_h C_kh act(a_h)  +  (E_k . x + e_k) * (D v)_k

with v the flattened parameter pytree (leaves in pytree order, C order) and
act one of identity, tanh, square.
"""
from __future__ import annotations

import collections
import dataclasses
import math
from typing import Any

import numpy as np
from hypothesis import strategies as st

Pair = collections.namedtuple("Pair", ["second", "first"])

seeds = st.integers(0, 2**31 - 1)
x64s = st.sampled_from([True, True, True, False])


def log_floats(lo: float, hi: float):
    """Positive floats, log-uniform, rounded to 4 significant digits."""
    return st.integers(0, 400).map(
        lambda i: float(f"{math.exp(math.log(lo) + (math.log(hi) - math.log(lo)) * i / 400):.4g}")
    )


def counts(lo: int, hi: int, wide: int, often: int = 5):
    """Integers in [lo, hi], one time in `often` + 1 in (hi, wide]."""
    return st.tuples(st.integers(0, often), st.integers(lo, hi), st.integers(hi + 1, wide)).map(
        lambda t: t[2] if t[0] == often else t[1])


HUGE = [65, 100, 128, 129, 200, 255, 256, 257, 300, 513]


def huge(common, top: int = 600, often: int = 30):
    """`common`, one time in `often` + 1 a size beyond usual block sizes."""
    return rarely(common, st.sampled_from([h for h in HUGE if h <= top]), often)


def rarely(common, rare, often: int = 5):
    """`common`, one time in `often` + 1 `rare`."""
    return st.tuples(st.integers(0, often), common, rare).map(
        lambda t: t[2] if t[0] == often else t[1])


# ------------------------------------------------------------------ pytrees

KINDS = ["dict", "list", "tuple", "nested", "namedtuple", "single"]


def leaf_shapes(max_leaves: int = 4, max_total: int = 14, scalars: bool = True):
    shape = st.lists(st.integers(1, 4), min_size=0 if scalars else 1, max_size=3)

    def trim(shapes):
        out, tot = [], 0
        for s in shapes:
            n = math.prod(s)
            if tot + n > max_total:
                s = []if scalars else [1]
                n = 1
                if tot + n > max_total:
                    continue
            out.append(list(s))
            tot += n
        return out

    return st.lists(shape, min_size=1, max_size=max_leaves).map(trim)


def trees(max_leaves: int = 4, max_total: int = 14, scalars: bool = True, kinds=KINDS):
    return st.fixed_dictionaries({
        "kind": st.sampled_from(kinds),
        "shapes": leaf_shapes(max_leaves, max_total, scalars),
    })


def wide_trees(max_leaves: int = 8, max_total: int = 48, kinds=KINDS):
    """Larger layouts: more leaves, more and unequal entries per leaf."""
    dims = st.lists(st.sampled_from([1, 2, 3, 4, 5, 6, 8, 17]), min_size=0, max_size=3)

    def trim(shapes):
        out, tot = [], 0
        for s in shapes:
            while tot + math.prod(s) > max_total:
                if not s:
                    return out
                s = s[:-1]
            out.append(list(s))
            tot += math.prod(s)
        return out

    shapes = st.lists(dims, min_size=2, max_size=max_leaves).map(trim)
    if max_total >= 30:  # now and then beyond usual block sizes
        big = st.tuples(st.sampled_from(HUGE), st.sampled_from(["flat", "matrix", "last"])).map(
            lambda t: {"flat": [[t[0]], [3]], "matrix": [[2], [t[0] // 5, 5], []],
                       "last": [[1, 2], [3], [t[0]]]}[t[1]])
        shapes = rarely(shapes, big, 3)
    return st.fixed_dictionaries({"kind": st.sampled_from(kinds), "shapes": shapes})


KEYS = ["w", "b", "z10", "a", "z9", "Kernel", "bias", "c", "d", "k"]


def build_tree(tspec: dict, leaves: list) -> Any:
    """Arrange `leaves` (already in pytree order!) as the requested container."""
    import jax

    template = skeleton(tspec)
    return jax.tree.unflatten(jax.tree.structure(template), leaves)


def skeleton(tspec: dict) -> Any:
    n = len(tspec["shapes"])
    kind = tspec["kind"]
    ids = [object() for _ in range(n)]
    if kind == "single" and n == 1:
        return ids[0]
    if kind == "list":
        return list(ids)
    if kind == "tuple":
        return tuple(ids)
    if kind == "namedtuple" and n == 2:
        return Pair(ids[0], ids[1])
    if kind == "nested" and n >= 2:
        return {"layer1": {"w": ids[0], "b": ids[1]}, "layer0": list(ids[2:])}
    return dict(zip([*KEYS, *(f"p{i}" for i in range(n))][:n], ids, strict=True))


def ordered_shapes(tspec: dict) -> list[tuple]:
    """Leaf shapes in pytree order (assigned positionally to the tree's leaves)."""
    return [tuple(s) for s in tspec["shapes"]]


def tree_from_flat(tspec: dict, v: np.ndarray, dtype=None) -> Any:
    import jax.numpy as jnp

    leaves, i = [], 0
    for s in ordered_shapes(tspec):
        n = math.prod(s)
        leaves.append(jnp.asarray(np.asarray(v[i:i + n]).reshape(s), dtype=dtype))
        i += n
    return build_tree(tspec, leaves)


def tree_size(tspec: dict) -> int:
    return sum(math.prod(s) for s in tspec["shapes"])


# ------------------------------------------------------------------- models

ACTS = ["lin", "tanh", "quad"]


def model_specs(
    max_total: int = 12, max_out: int = 4, acts=ACTS, out_shapes: str = "any",
    max_leaves: int = 4, in_shapes: str = "any", wide: int = 0, scales=(1.0,), codes: bool = False,
):
    """`wide` > 0: one time in ten a layout of up to `wide` entries; `scales`: output scales;
    `codes`: one time in eight the inputs are integers which the model looks up in a table."""
    if out_shapes == "any":
        oshape = st.sampled_from([[1], [2], [3], [2, 2], [], [1, 3], [4]])
        if wide:
            oshape = rarely(oshape, st.sampled_from([[9], [12], [3, 4], [2, 1, 3], [20]]), 9)
    elif out_shapes == "vec":
        oshape = (counts(1, max_out, 20, 9) if wide else st.integers(1, max_out)).map(lambda k: [k])
    elif out_shapes == "class":
        oshape = (counts(2, max_out, 20, 9) if wide else st.integers(2, max_out)).map(lambda k: [k])
    else:
        oshape = st.just([1])
    xshape = (
        st.sampled_from([[1], [2], [3], [2, 2], []]) if in_shapes == "any"
        else st.integers(1, 3).map(lambda k: [k])
    )
    return st.fixed_dictionaries({
        "tree": rarely(trees(max_leaves, max_total), wide_trees(8, wide), 9) if wide
        else trees(max_leaves, max_total),
        **({"scale": st.sampled_from(scales)} if len(scales) > 1 else {}),
        **({"codes": rarely(st.just(False), st.just(True), 7)} if codes else {}),
        "x": xshape,
        "o": oshape,
        "act": st.sampled_from(acts),
        "unused": st.booleans(),
        "seed": seeds,
    })


@dataclasses.dataclass
class Model:
    spec: dict

    def __post_init__(self):
        s = self.spec
        r = np.random.default_rng([s["seed"], 11])
        self.P = tree_size(s["tree"])
        self.d = math.prod(s["x"])
        self.K = math.prod(s["o"])
        self.H = 3
        f = lambda *sh: np.round(r.normal(size=sh), 3)  # noqa: E731
        self.A = f(self.H, self.P) * 0.6
        self.B = f(self.H, self.d) * 0.5
        self.C = f(self.K, self.H)
        self.D = f(self.K, self.P) * 0.7
        self.E = f(self.K, self.d)
        self.e = f(self.K) * 0.3
        self.v = f(self.P) * 0.8
        if s.get("unused") and len(s["tree"]["shapes"]) > 1:
            n = math.prod(s["tree"]["shapes"][0])
            self.A[:, :n] = 0
            self.D[:, :n] = 0
        if s.get("scale", 1.0) != 1.0:  # larger outputs (saturated logits)
            self.C, self.D = self.C * s["scale"], self.D * s["scale"]
        self.xshape, self.oshape = tuple(s["x"]), tuple(s["o"])
        self.table = np.round(np.random.default_rng([s["seed"], 15]).normal(size=16), 3) if s.get("codes") else None

    def _x(self, x):
        """The numbers behind one input or several."""
        return np.asarray(x, float) if self.table is None else self.table[np.asarray(x).astype(int)]

    # ---- the jax side
    @property
    def params(self):
        return tree_from_flat(self.spec["tree"], self.v)

    def tree(self, v):
        return tree_from_flat(self.spec["tree"], v)

    def fn(self, batched: bool = False):
        """model_fn(input, params); batched=True accepts a leading batch axis."""
        import jax
        import jax.numpy as jnp

        A, B, C, D, E, e = (np.asarray(m) for m in (self.A, self.B, self.C, self.D, self.E, self.e))
        act = {"lin": lambda a: a, "tanh": jnp.tanh, "quad": lambda a: a * a}[self.spec["act"]]
        oshape, table = self.oshape, self.table

        def model_fn(input, params):
            leaves = jax.tree.leaves(params)
            if table is not None:  # integers only
                input = jnp.asarray(table)[input]
            dt = leaves[0].dtype
            v = jnp.concatenate([jnp.reshape(l, (-1,)) for l in leaves])
            if batched:
                x = jnp.reshape(input, (input.shape[0], -1)).astype(dt)
                a = (A.astype(dt) @ v) * (1 + x @ B.T.astype(dt))
                out = act(a) @ C.T.astype(dt) + (x @ E.T.astype(dt) + e.astype(dt)) * (D.astype(dt) @ v)
                return out.reshape((input.shape[0], *oshape))
            x = jnp.reshape(input, (-1,)).astype(dt)
            a = (A.astype(dt) @ v) * (1 + B.astype(dt) @ x)
            out = C.astype(dt) @ act(a) + (E.astype(dt) @ x + e.astype(dt)) * (D.astype(dt) @ v)
            return out.reshape(oshape)

        return model_fn

    # ---- the numpy side
    def _act(self, a, order):
        k = self.spec["act"]
        if k == "lin":
            return [a, np.ones_like(a), np.zeros_like(a)][order]
        if k == "quad":
            return [a * a, 2 * a, 2 * np.ones_like(a)][order]
        t = np.tanh(a)
        return [t, 1 - t * t, -2 * t * (1 - t * t)][order]

    def f(self, x, v=None):
        """Output (flat, K) at one input."""
        v = self.v if v is None else v
        x = self._x(x).reshape(-1)
        a = (self.A @ v) * (1 + self.B @ x)
        return self.C @ self._act(a, 0) + (self.E @ x + self.e) * (self.D @ v)

    def jac(self, x, v=None):
        v = self.v if v is None else v
        x = self._x(x).reshape(-1)
        g = 1 + self.B @ x
        a = (self.A @ v) * g
        return (self.C * (self._act(a, 1) * g)) @ self.A + (self.E @ x + self.e)[:, None] * self.D

    def hess(self, x, v=None):
        """Second derivatives, (K, P, P)."""
        v = self.v if v is None else v
        x = self._x(x).reshape(-1)
        g = 1 + self.B @ x
        a = (self.A @ v) * g
        w = self.C * (self._act(a, 2) * g * g)
        return np.einsum("kh,hp,hq->kpq", w, self.A, self.A)

    def noise(self, X, v=None) -> float:
        """Factor by which rounding errors of the outputs exceed those of order-one sums."""
        v = self.v if v is None else v
        big = 0.0
        for x in self._x(X):
            x = x.reshape(-1)
            a = (np.abs(self.A) @ np.abs(v)) * (1 + np.abs(self.B) @ np.abs(x))
            act = np.minimum(a, 1) if self.spec["act"] == "tanh" else self._act(a, 0)
            out = np.abs(self.C) @ act + (np.abs(self.E) @ np.abs(x) + np.abs(self.e)) * (
                np.abs(self.D) @ np.abs(v))
            big = max(big, float(out.max()))
        return max(1.0, big / 50)

    def jac_scale(self, X) -> float:
        """Row-sum norm of sum |J|^T |J|."""
        return float(sum((np.abs(self.jac(x)).T @ np.abs(self.jac(x)).sum(1)).max() for x in X))

    def inputs(self, n: int, seed: int):
        r = np.random.default_rng([seed, 12])
        if self.table is not None:
            return r.integers(0, 16, size=(n, *self.xshape)).astype(np.int32)
        return np.round(r.normal(size=(n, *self.xshape)), 3)

    def uneven_inputs(self, n: int, seed: int, decades: float):
        """Inputs whose sizes differ by up to that many powers of ten."""
        if self.table is not None:
            return self.inputs(n, seed)
        f = 10.0 ** np.random.default_rng([seed, 14]).uniform(0, decades, size=n)
        return self.inputs(n, seed) * f.reshape(n, *[1] * len(self.xshape))


# ------------------------------------------------------------------- losses

LOSSES = ["mse", "cross_entropy", "binary_cross_entropy", "none", "custom"]


def softmax(z):
    z = z - z.max()
    e = np.exp(z)
    return e / e.sum()


def sigmoid(z):
    return np.exp(-np.logaddexp(0, -np.asarray(z)))


def custom_q(K: int, seed: int):
    r = np.random.default_rng([seed, 13])
    q = np.round(r.normal(size=(K, K)), 3)
    return q @ q.T


def custom_loss(K: int, seed: int):
    """0.5 (p-t)^T Q (p-t) + sum log cosh p  (per sample, any output shape)."""
    import jax.numpy as jnp

    Q = custom_q(K, seed)

    def loss(pred, target):
        d = jnp.reshape(pred, (-1,)) - jnp.reshape(target, (-1,))
        q = Q.astype(d.dtype)
        p = jnp.reshape(pred, (-1,))
        return 0.5 * d @ (q @ d) + jnp.sum(jnp.logaddexp(p, -p) - jnp.log(2.0).astype(d.dtype))

    return loss


def loss_value(kind: str, f, t, seed: int = 0) -> float:
    f, t = np.asarray(f, float).reshape(-1), np.asarray(t, float).reshape(-1)
    if kind == "mse":
        return float(np.sum((f - t) ** 2))
    if kind == "cross_entropy":
        return float(-np.sum(t * (f - f.max() - np.log(np.exp(f - f.max()).sum()))))
    if kind == "binary_cross_entropy":
        return float(np.sum(np.logaddexp(0, f) - t * f))
    if kind == "custom":
        Q = custom_q(f.size, seed)
        return float(0.5 * (f - t) @ Q @ (f - t) + np.sum(np.logaddexp(f, -f) - np.log(2.0)))
    raise ValueError(kind)


def loss_grad(kind: str, f, t, seed: int = 0):
    f, t = np.asarray(f, float).reshape(-1), np.asarray(t, float).reshape(-1)
    if kind == "mse":
        return 2 * (f - t)
    if kind == "cross_entropy":
        return softmax(f) * t.sum() - t
    if kind == "binary_cross_entropy":
        return sigmoid(f) - t
    if kind == "custom":
        return custom_q(f.size, seed) @ (f - t) + np.tanh(f)
    raise ValueError(kind)


def loss_hess(kind: str, f, seed: int = 0):
    f = np.asarray(f, float).reshape(-1)
    if kind == "mse":
        return 2 * np.eye(f.size)
    if kind == "none":
        return np.eye(f.size)
    if kind == "cross_entropy":
        p = softmax(f)
        return np.diag(p) - np.outer(p, p)
    if kind == "binary_cross_entropy":
        return np.diag(sigmoid(f) * sigmoid(-f))
    if kind == "custom":
        return custom_q(f.size, seed) + np.diag(1 - np.tanh(f) ** 2)
    raise ValueError(kind)


def targets(model: Model, n: int, kind: str, seed: int, soft: bool = False):
    """`soft`: class probabilities instead of labels."""
    r = np.random.default_rng([seed, 14])
    if soft and kind == "cross_entropy":
        return r.dirichlet(np.ones(model.K), size=n).reshape((n, *model.oshape))
    if soft and kind == "binary_cross_entropy":
        return np.round(r.uniform(size=(n, *model.oshape)), 3)
    if kind == "cross_entropy":
        return np.eye(model.K)[r.integers(0, model.K, size=n)].reshape((n, *model.oshape))
    if kind == "binary_cross_entropy":
        return r.integers(0, 2, size=(n, *model.oshape)).astype(float)
    return np.round(r.normal(size=(n, *model.oshape)), 3)


def ggn(model: Model, X, kind: str, factor: float = 1.0, seed: int = 0) -> np.ndarray:
    G = np.zeros((model.P, model.P))
    for x in X:
        J = model.jac(x)
        G += J.T @ loss_hess(kind, model.f(x), seed) @ J
    return factor * G


def loss_hessian(model: Model, X, Y, kind: str, factor: float = 1.0, seed: int = 0):
    H = np.zeros((model.P, model.P))
    for x, y in zip(X, Y, strict=True):
        f = model.f(x)
        J = model.jac(x)
        H += J.T @ loss_hess(kind, f, seed) @ J
        H += np.einsum("k,kpq->pq", loss_grad(kind, f, y, seed), model.hess(x))
    return factor * H


# ------------------------------------------------------------------ matrices


def psd(P: int, rank: int, seed: int, kind: str = "random") -> np.ndarray:
    """Random PSD matrix of the given rank with eigenvalues in about [0.1, 10]."""
    r = np.random.default_rng([seed, 15])
    q, _ = np.linalg.qr(r.normal(size=(P, P)))
    ev = np.zeros(P)
    rank = min(rank, P)
    if kind == "repeated":
        ev[:rank] = r.choice([0.5, 2.0, 5.0], size=rank)
    elif kind == "decay":
        ev[:rank] = 10.0 * 0.5 ** np.arange(rank)
    elif kind == "wide":
        ev[:rank] = np.exp(r.uniform(np.log(1e-3), np.log(1e5), size=rank))
    else:
        ev[:rank] = np.exp(r.uniform(np.log(0.1), np.log(10), size=rank))
    return (q * ev) @ q.T


def vec(P: int, seed: int) -> np.ndarray:
    return np.round(np.random.default_rng([seed, 16]).normal(size=P), 3)


def splits(n: int):
    """Ways of cutting n items into consecutive non-empty batches: list of sizes."""
    return st.lists(st.integers(1, max(n, 1)), min_size=1, max_size=n).map(
        lambda sizes: fit_split(sizes, n))


def fit_split(sizes, n):
    out, left = [], n
    for s in sizes:
        if left <= 0:
            break
        s = min(s, left)
        out.append(s)
        left -= s
    if left > 0:
        out.append(left)
    return out


def cut(arr, sizes):
    out, i = [], 0
    for s in sizes:
        out.append(arr[i:i + s])
        i += s
    return out
