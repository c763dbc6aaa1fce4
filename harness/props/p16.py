"""P16 Pytree arithmetic and statistics match flat array arithmetic."""
import math

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Sub, close, expect, flat, same_structure
from harness.post import check_standard_normal
from harness.props.p15 import KINDS, pos, tree_of, trim, wide_shape
from laplax.util import tree as T

RULE = (
    "Cases: pairs of pytrees of 1-6 (sometimes up to 14) leaves of different shapes (scalars to 4 "
    "axes, up to 400 entries), 1-6 (up to 80) samples, all values "
    "and scalars (also zero, negative, arrays), keyword options of the statistics, jit on/off; "
    "matrices structured as pytree blocks; oracle: numpy on the flattened leaves. Random trees: "
    "statistics over 400-1500 draws at 6.5 standard deviations. Non-trivial: two leaves or axes."
)
ASSUMPTIONS = ["block matrices list, for each input leaf, the blocks of all output leaves"]


def values(spec, salt, positive=False, extra=()):
    r = np.random.default_rng([spec["seed"], salt])
    ls = [spec["scale"] * np.round(r.normal(size=(*extra, *s)), 4) for s in spec["shapes"]]
    return [np.abs(a) + 0.0 for a in ls] if positive else ls


def mk(spec, ls):
    return tree_of(spec, [jnp.asarray(a) for a in ls])


def per_leaf(spec, got, exp, what, **kw):
    g = jax.tree.leaves(got)
    expect(len(g) == len(exp), f"{what}: {len(g)} leaves, expected {len(exp)}")
    ref = mk(spec, [np.zeros(0)] * len(exp))
    expect(jax.tree.structure(got) == jax.tree.structure(ref), f"{what}: structure")
    for a, e in zip(g, exp, strict=True):
        close(a, e, what, x64=spec["x64"], **kw)


def run_arith(spec):
    x64 = spec["x64"]
    A, B = values(spec, 81), values(spec, 82)
    a, b = mk(spec, A), mk(spec, B)
    A, B = ([np.asarray(l, float) for l in jax.tree.leaves(t)] for t in (a, b))
    w = jax.jit if spec["jit"] else (lambda f: f)
    sc = dict(scale=spec["scale"])
    per_leaf(spec, w(T.add)(a, b), [x + y for x, y in zip(A, B, strict=True)], "add", **sc)
    per_leaf(spec, w(T.sub)(a, b), [x - y for x, y in zip(A, B, strict=True)], "sub", **sc)
    per_leaf(spec, w(T.neg)(a), [-x for x in A], "neg", **sc)
    s = spec["scalar"]
    for c in (s, jnp.asarray(s), np.float64(s)):
        per_leaf(spec, w(T.mul)(c, a), [s * x for x in A], "mul", scale=spec["scale"] * abs(s))
    R = mk(spec, values(spec, 83, positive=True))
    per_leaf(spec, w(T.sqrt)(R), [np.sqrt(np.asarray(x, float)) for x in jax.tree.leaves(R)], "sqrt",
             rtol=1e-9 if x64 else 1e-5)
    # algebra
    close(flat(T.sub(T.add(a, b), b)), flat(a), "a + b - b", x64=x64, **sc)
    close(flat(T.add(a, T.neg(a))), 0 * flat(a), "a + (-a)", x64=x64)
    close(flat(T.add(a, b)), flat(T.add(b, a)), "a + b and b + a", x64=x64)
    # comparison
    ok = T.allclose(a, a)
    expect(bool(ok) is True, "a tree is not close to itself")
    k = spec["pick"] % len(A)
    for d, want in ((1e-2 * spec["scale"] + 1.0, False), (0.0, True)):
        C = [x.copy() for x in A]
        C[k].reshape(-1)[spec["pick2"] % C[k].size] += d * (1 + np.abs(C[k]).max())
        for p, q in ((a, mk(spec, C)), (mk(spec, C), a)):
            expect(bool(T.allclose(p, q)) is want, f"allclose of trees differing by {d} in one element")
    # around the tolerance of jnp.allclose (1e-5 relative, 1e-8 absolute)
    big = [np.asarray(np.where(x == 0, 1.0, x) * (spec["gain"] / spec["scale"])) for x in A]
    for d, want in ((3e-3, False), (1e-3, False), (1e-4, False), (3e-6, True), (1e-6, True)):
        C = [x.copy() for x in big]
        j = spec["pick2"] % C[k].size
        if abs(C[k].reshape(-1)[j]) < 1e-3:
            continue
        C[k].reshape(-1)[j] *= 1 + d
        for p, q in ((big, C), (C, big)):
            expect(bool(T.allclose(mk(spec, p), mk(spec, q))) is want, f"allclose of trees, relative difference {d}")
    return len(A) > 1 or any(x.ndim > 1 for x in A)


def run_stats(spec):
    x64, n = spec["x64"], spec["n"]
    A = values(spec, 84, extra=(n,))
    # values far from zero compared with their spread
    off = 0.0 if spec["off"] is None else spec["scale"] * spec["off"] * (100.0 if x64 else 1.0)
    a = mk(spec, [x + off for x in A])
    L = [np.asarray(l, float) for l in jax.tree.leaves(a)]
    w = (lambda f: jax.jit(f)) if spec["jit"] else (lambda f: f)
    kw = {} if spec["axis"] is None else {"axis": spec["axis"]}
    if spec["keep"]:
        kw["keepdims"] = True
    sc = spec["scale"]
    per_leaf(spec, w(lambda t: T.mean(t, **kw))(a), [np.mean(l, **kw) for l in L], "mean", scale=sc + abs(off))
    # deviations from a mean that carries the rounding error of a sum of n values
    eps = 2e-16 if x64 else 1.2e-7
    sc = max(sc, (max(l.size for l in L) * eps * off) * (1e4 if x64 else 70.0))
    if spec["ddof"] and n > 1 and spec["axis"] != -1:
        kw["ddof"] = 1
    if spec["axis"] is not None or n > 1:
        per_leaf(spec, w(lambda t: T.var(t, **kw))(a), [np.var(l, **kw) for l in L], "var", scale=sc ** 2)
        got = w(lambda t: T.std(t, **kw))(a)
        per_leaf(spec, jax.tree.map(lambda l: l ** 2, got), [np.var(l, **kw) for l in L], "std squared",
                 scale=sc ** 2)
        expect(flat(got).min() >= 0, "negative standard deviation")
    # covariance of flattened samples
    if n > 1:
        M = [l.reshape(n, -1) for l in L]
        m = mk(spec, M) if len(M) == len(A) else None
        ckw = {"rowvar": False}
        if spec["ddof"]:
            ckw["ddof"] = 0
        per_leaf(spec, w(lambda t: T.cov(t, **ckw))(m), [np.cov(l, **ckw) for l in M], "cov", scale=sc ** 2)
        per_leaf(spec, T.cov(m), [np.cov(l) for l in M], "cov of rows", scale=sc ** 2)
    return n > 1


def run_matvec(spec):
    """A matrix given as pytree of pytrees of blocks."""
    x64 = spec["x64"]
    V = values(spec, 85)
    v = mk(spec, V)
    L = [np.asarray(l, float) for l in jax.tree.leaves(v)]
    n = sum(l.size for l in L)
    r = np.random.default_rng([spec["seed"], 86])
    M = np.round(r.normal(size=(n, n)), 3)
    off = np.cumsum([0] + [l.size for l in L])

    def block(i, j):  # input leaf i -> output leaf j
        b = M[off[j]:off[j + 1], off[i]:off[i + 1]]
        return jnp.asarray(b.reshape((*L[j].shape, *L[i].shape)))

    k = len(L)
    ids = [object() for _ in range(k)]
    outer = tree_of(spec, ids)
    rows = [tree_of(spec, [block(i, j) for j in range(k)]) for i in range(k)]
    nested = jax.tree.unflatten(jax.tree.structure(outer), rows)
    f = jax.jit(T.tree_matvec) if spec["jit"] else T.tree_matvec
    got = f(nested, v)
    same_structure(got, v, "matrix-vector product")
    close(flat(got), M @ flat(v), "matrix-vector product", x64=x64, scale=spec["scale"])
    # products per leaf
    c = spec["c"]
    P = [np.round(r.normal(size=(*l.shape, c)), 3) for l in L]
    z = np.round(r.normal(size=c), 3)
    f = jax.jit(T.tree_partialmatvec) if spec["jit"] else T.tree_partialmatvec
    per_leaf(spec, f(mk(spec, P), jnp.asarray(z)), [p @ z for p in P], "partial product", scale=1.0)
    # identity as blocks
    eye = T.eye_like(v)
    if all(l.ndim <= 1 for l in L) and k == 1 and L[0].ndim == 1:
        close(flat(T.tree_matvec(eye, v)), flat(v), "identity product", x64=x64)
    return k > 1


def run_random(spec):
    ls = values(spec, 87)
    t = mk(spec, ls)
    P = sum(np.size(l) for l in ls)
    N = spec["N"]
    key = jax.random.key(spec["seed"])
    a, b = T.randn_like(key, t), T.randn_like(key, t)
    c = T.randn_like(jax.random.key(spec["seed"] + 1), t)
    for x in (a, b, c):
        same_structure(x, t, "random tree")
    expect(np.array_equal(flat(a), flat(b)), "same key, different tree")
    expect(not np.array_equal(flat(a), flat(c)), "different keys, same tree")
    # the template's values do not matter
    expect(np.array_equal(flat(T.randn_like(key, T.mul(3.0, t))), flat(a)), "draw depends on the values")
    keys = jax.random.split(jax.random.key(spec["seed"] + 2), N)
    tr = jax.vmap(lambda k: T.randn_like(k, t))(keys)
    Z = np.concatenate([np.asarray(l, float).reshape(N, -1) for l in jax.tree.leaves(tr)], axis=1)
    check_standard_normal(Z, "random trees")
    expect(len(set(np.round(flat(a), 7))) == P, "elements of one random tree repeat")
    # scaled and shifted draws
    s = spec["scalar"] or 1.0
    A = np.round(np.random.default_rng([spec["seed"], 88]).normal(size=(P, P)), 2)
    fl = lambda q: jnp.concatenate([jnp.ravel(l) for l in jax.tree.leaves(q)])  # noqa: E731

    def scale_mv(q):
        out, i, leaves = jnp.asarray(A) @ fl(q), 0, []
        for l in jax.tree.leaves(q):
            leaves.append(out[i:i + l.size].reshape(l.shape))
            i += l.size
        return jax.tree.unflatten(jax.tree.structure(q), leaves)

    x64 = spec["x64"]
    got = T.normal_like(key, t, lambda q: T.mul(s, q))
    same_structure(got, t, "normal tree")
    close(flat(got), flat(t) + s * flat(a), "mean + scale * draw", x64=x64, scale=spec["scale"] + abs(s))
    got = T.normal_like(key, t, scale_mv)
    close(flat(got), flat(t) + A @ flat(a), "mean + S draw", x64=x64, scale=spec["scale"] + 3.0 * P)
    return len(ls) > 1


def shapes(cap, leaves=14):
    return gen.rarely(st.lists(st.lists(pos, max_size=4), min_size=1, max_size=6).map(trim),
                      st.lists(wide_shape, min_size=2, max_size=leaves).map(lambda s: trim(s, cap)), 9)


base = dict(shapes=shapes(400),
            kind=st.sampled_from(KINDS), seed=gen.seeds, jit=st.booleans(), x64=gen.x64s,
            scale=gen.rarely(gen.log_floats(1e-2, 1e2), gen.log_floats(1e-6, 1e6)))
scalar = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 2.0]), gen.log_floats(1e-2, 1e2))
SUBS = [
    Sub("arith", st.fixed_dictionaries({
        **base, "scalar": scalar, "gain": gen.log_floats(1.0, 1e4), "pick": st.integers(0, 5), "pick2": st.integers(0, 50)}),
        run_arith, quick=160),
    Sub("stats", st.fixed_dictionaries({
        **base, "shapes": shapes(150), "n": gen.huge(gen.counts(1, 6, 80)), "axis": st.sampled_from([0, 0, None, -1]),
        "off": gen.rarely(st.none(), gen.log_floats(30, 3000), 2), "keep": st.booleans(),
        "ddof": st.booleans()}), run_stats, quick=120),
    Sub("matvec", st.fixed_dictionaries({**base, "shapes": shapes(80, 9), "c": st.integers(1, 4)}), run_matvec, quick=100),
    Sub("random", st.fixed_dictionaries({
        **base, "shapes": gen.rarely(
            st.lists(st.lists(pos, max_size=3), min_size=1, max_size=5).map(lambda s: trim(s, 14)),
            st.lists(wide_shape, min_size=2, max_size=14).map(lambda s: trim(s, 60)), 9), "scalar": scalar, "N": st.sampled_from([400, 1500])}),
        run_random, quick=64),
]
