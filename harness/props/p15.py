"""P15 Pytree flattening and layouts round-trip without loss."""
import math

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Sub, close, expect, flat, same_structure
from laplax.util.flatten import (
    create_partial_pytree_flattener,
    create_pytree_flattener,
    cumsum,
    flatten_function,
    full_flatten,
    unravel_array_into_pytree,
    wrap_factory,
    wrap_function,
)
from laplax.util.tree import (
    basis_vector_from_index,
    eye_like,
    eye_like_with_basis_vector,
    get_size,
    ones_like,
    tree_slice,
    tree_vec_get,
    zeros_like,
)

RULE = (
    "Cases: pytrees of 1-6 (sometimes up to 30) leaves of shape () to 4 axes (also empty leaves), "
    "up to 40, sometimes 900 entries, dict/list/tuple/nested/named containers and None entries, "
    "leaves of seven dtypes (half precision to double, integers, booleans), eager, jit and "
    "vmap; oracle: numpy ravel/concatenate of the leaves in pytree order. "
    "Non-trivial: at least two leaves or two axes."
)
ASSUMPTIONS = ["jax.tree leaf order is the layout order"]
DT = {"f64": np.float64, "f32": np.float32, "i32": np.int32, "bool": np.bool_, "f16": np.float16,
      "bf16": jnp.bfloat16, "i8": np.int8}


def leaves_of(spec, dtypes=None, extra=()):
    r = np.random.default_rng([spec["seed"], 71])
    out = []
    for i, s in enumerate(spec["shapes"]):
        a = np.round(r.normal(size=(*extra, *s)) * 3, 3)
        d = (dtypes or spec["dtypes"])[i % len(dtypes or spec["dtypes"])]
        out.append(jnp.asarray(a.astype(DT[d])))
    return out


def tree_of(spec, leaves):
    n = len(leaves)
    kind = spec["kind"]
    ids = [object() for _ in range(n)]
    if kind == "none":
        skel = {"a": None, "b": ids[:1], "c": {"d": None, "e": tuple(ids[1:])}}
    elif kind == "deep":
        skel = ids[0]
        for i in ids[1:]:
            skel = {"z": skel, "a": [i]}
    else:
        skel = gen.skeleton({"kind": kind, "shapes": spec["shapes"]})
    return jax.tree.unflatten(jax.tree.structure(skel), leaves)


def exact(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    expect(a.shape == b.shape, f"{what}: shape {a.shape}, expected {b.shape}")
    expect(np.array_equal(a, b), f"{what}: {a.reshape(-1)[:8]}, expected {b.reshape(-1)[:8]}")


def nflat(leaves):
    return np.concatenate([np.asarray(l).astype(np.float64).reshape(-1) for l in leaves])


def run_roundtrip(spec):
    ls = leaves_of(spec)
    t = tree_of(spec, ls)
    n = sum(l.size for l in ls)
    order = jax.tree.leaves(t)
    ref = nflat(order)
    template = t
    if spec["abstract"]:
        template = jax.tree.map(lambda l: jax.ShapeDtypeStruct(l.shape, l.dtype), t)
    elif spec["np_template"]:
        template = jax.tree.map(np.asarray, t)
    flatten, unflatten = create_pytree_flattener(template)
    if spec["jit"]:
        flatten, unflatten = jax.jit(flatten), jax.jit(unflatten)
    v = flatten(t)
    expect(v.ndim == 1, f"flat vector of shape {v.shape}")
    exact(v, ref, "flatten")
    exact(full_flatten(t), ref, "full_flatten")
    back = unflatten(v)
    same_structure(back, t, "unflatten")
    for a, b in zip(jax.tree.leaves(back), order, strict=True):
        exact(a, b, "leaf after flatten and unflatten")
        if len({l.dtype for l in order}) == 1:
            expect(a.dtype == b.dtype, f"dtype {a.dtype} after the round trip, was {b.dtype}")
    w = np.arange(n, dtype=np.float32) + 0.5
    t2 = unflatten(jnp.asarray(w))
    same_structure(t2, t, "unflatten")
    exact(flatten(t2), w, "unflatten and flatten")
    i = 0
    expect(all(a.dtype == jnp.float32 for a in jax.tree.leaves(t2)),
           "dtype of leaves unflattened from a single-precision vector")
    for a, l in zip(jax.tree.leaves(t2), order, strict=True):
        exact(a, w[i:i + l.size].reshape(l.shape), "leaf of an unflattened vector")
        i += l.size
    # other values in the same layout
    if spec["vmap"] and n:
        M = np.arange(3 * n, dtype=np.float32).reshape(3, n)
        tt = jax.vmap(unflatten)(jnp.asarray(M))
        exact(jax.vmap(flatten)(tt), M, "vmapped round trip")
    expect(get_size(t) == n, f"get_size {get_size(t)}, expected {n}")
    sizes = [l.size for l in ls]
    expect(list(cumsum(s for s in sizes)) == list(np.cumsum(sizes)), "cumsum")
    for i in range(0, n, max(1, n // 5)):
        expect(np.asarray(tree_vec_get(t, i)) == ref[i], f"element {i}")
    for j in (np.random.default_rng(spec["seed"]).integers(0, max(n, 1), size=2) if n else []):
        expect(np.asarray(tree_vec_get(t, jnp.asarray(j))) == ref[j], f"element {j}")
    for f, val in ((ones_like, 1), (zeros_like, 0)):
        o = f(t)
        same_structure(o, t, f.__name__)
        for a, b in zip(jax.tree.leaves(o), order, strict=True):
            exact(a, np.full(b.shape, val, b.dtype), f.__name__)
            expect(a.dtype == b.dtype, f"{f.__name__}: dtype {a.dtype}")
    return len(ls) > 1 or any(l.ndim > 1 for l in ls)


def run_basis(spec):
    ls = leaves_of(spec, ["f64"])
    t = tree_of(spec, ls)
    n = sum(l.size for l in ls)
    if n == 0:
        return False
    eye = np.eye(n)
    bv = jax.jit(basis_vector_from_index) if spec["jit"] else basis_vector_from_index
    idx = range(n) if n <= 6 else np.random.default_rng(spec["seed"]).permutation(n)[:6].tolist() + [0, n - 1]
    for i in idx:
        b = bv(i, t)
        same_structure(b, t, "basis vector")
        exact(flat(b), eye[i], f"basis vector {i}")
    for name, f in (("eye_like", eye_like), ("eye_like_with_basis_vector", eye_like_with_basis_vector)):
        e = f(t)
        expect(jax.tree.structure(e) == jax.tree.structure(t), f"{name}: structure")
        for a, l in zip(jax.tree.leaves(e), jax.tree.leaves(t), strict=True):
            expect(a.shape == (n, *l.shape), f"{name}: leaf of shape {a.shape} for {l.shape}")
        rows = np.stack([flat(jax.tree.map(lambda a, i=i: a[i], e)) for i in range(n)])
        exact(rows, eye, name)
    # slicing along the first axis
    a, b = sorted(spec["ab"])
    ls3 = leaves_of(spec, ["f32"], extra=(5,))
    t3 = tree_of(spec, ls3)
    s = tree_slice(t3, a, b)
    expect(jax.tree.structure(s) == jax.tree.structure(t3), "slice: structure")
    for x, y in zip(jax.tree.leaves(s), jax.tree.leaves(t3), strict=True):
        exact(x, np.asarray(y)[a:b], f"slice {a}:{b}")
    return n > 1


def run_partial(spec):
    """Leaves whose last axis are columns."""
    c = spec["cols"]
    r = np.random.default_rng([spec["seed"], 72])
    ls = [jnp.asarray(np.round(r.normal(size=(*s, c)), 3)) for s in spec["shapes"]]
    t = tree_of(spec, ls)
    flatten, unflatten = create_partial_pytree_flattener(t)
    if spec["jit"]:
        flatten, unflatten = jax.jit(flatten), jax.jit(unflatten)
    order = jax.tree.leaves(t)
    ref = np.concatenate([np.asarray(l).reshape(-1, c) for l in order], axis=0)
    M = flatten(t)
    exact(M, ref, "partial flatten")
    back = unflatten(M)
    same_structure(back, t, "partial unflatten")
    for a, b in zip(jax.tree.leaves(back), order, strict=True):
        exact(a, b, "leaf after the partial round trip")
    W = np.arange(ref.size, dtype=np.float32).reshape(ref.shape) * 0.5
    t2 = unflatten(jnp.asarray(W))
    exact(flatten(t2), W, "partial unflatten and flatten")
    # each column is a flat vector in the usual order
    fl, unfl = create_pytree_flattener(jax.tree.map(lambda a: a[..., 0], t))
    for j in range(c):
        exact(fl(jax.tree.map(lambda a, j=j: a[..., j], t)), ref[:, j], f"column {j}")
        col = unfl(jnp.asarray(W[:, j]))
        for a, b in zip(jax.tree.leaves(col), jax.tree.leaves(t2), strict=True):
            exact(a, np.asarray(b)[..., j], f"column {j} of the unflattened matrix")
    return len(ls) > 1


def run_unravel(spec):
    """Splitting an axis of an array into a pytree."""
    ls = leaves_of(spec, ["f64"])
    t = tree_of(spec, ls)
    n = sum(l.size for l in ls)
    if n == 0:
        return False
    pre, post = spec["pre"], spec["post"]
    shape = (*pre, n, *post)
    ax = len(pre)
    r = np.random.default_rng([spec["seed"], 73])
    arr = np.round(r.normal(size=shape), 3)
    axis = ax - len(shape) if spec["neg"] else ax
    f = lambda a: unravel_array_into_pytree(t, axis, a)  # noqa: E731
    out = (jax.jit(f) if spec["jit"] else f)(jnp.asarray(arr))
    expect(jax.tree.structure(out) == jax.tree.structure(t), "structure of the split array")
    i = 0
    for a, l in zip(jax.tree.leaves(out), jax.tree.leaves(t), strict=True):
        part = np.take(arr, np.arange(i, i + l.size), axis=ax).reshape((*pre, *l.shape, *post))
        close(a, part, f"split along axis {axis}", x64=spec["x64"])
        i += l.size
    # putting the parts back together
    back = np.concatenate([np.asarray(a).reshape((*pre, -1, *post)) for a in jax.tree.leaves(out)], axis=ax)
    close(back, arr, "reassembled array", x64=spec["x64"])
    return len(ls) > 1


def run_wrap(spec):
    """Wrapped functions equal the composition."""
    ls = leaves_of(spec, ["f64"])
    t = tree_of(spec, ls)
    n = sum(l.size for l in ls)
    if n == 0:
        return False
    flatten, unflatten = create_pytree_flattener(t)
    A = np.round(np.random.default_rng([spec["seed"], 74]).normal(size=(n, n)), 3)
    Aj = jnp.asarray(A)

    def mv(p):  # pytree -> pytree
        return unflatten(Aj @ flatten(p))

    v = np.round(np.random.default_rng([spec["seed"], 75]).normal(size=n), 3)
    x64 = spec["x64"]
    g = flatten_function(mv, t)
    close(g(jnp.asarray(v)), A @ v, "flattened function", x64=x64, scale=1.0)
    for inp, outp in ((True, True), (True, False), (False, True), (False, False)):
        for extra in (0, 1, 2):
            def fn(*args, extra=extra, k=1.0):
                vals = [a for i, a in enumerate(args) if i != extra]
                return jax.tree.map(lambda l: l * k + sum(vals), mv(args[extra]))

            w = wrap_function(fn, unflatten if inp else None, flatten if outp else None, argnums=extra) \
                if spec["pos"] else wrap_function(
                    fn, **({"input_fn": unflatten} if inp else {}),
                    **({"output_fn": flatten} if outp else {}), argnums=extra)
            arg = jnp.asarray(v) if inp else unflatten(jnp.asarray(v))
            args = [10.0 * (i + 1) for i in range(3)]
            args[extra] = arg
            got = w(*args, extra=extra, k=2.0)
            e = 2.0 * (A @ v) + sum(10.0 * (i + 1) for i in range(3) if i != extra)
            if not outp:
                same_structure(got, t, "wrapped function")
            close(flat(got), e, f"wrapped function (argnums={extra})", x64=x64, scale=60.0)
    # factories
    def factory(state, c=1.0):
        return lambda p: jax.tree.map(lambda l: c * state * l, mv(p))

    close(wrap_factory(factory, unflatten, flatten)(3.0, c=0.5)(jnp.asarray(v)), 1.5 * (A @ v),
          "wrapped factory", x64=x64, scale=1.0)
    close(flat(wrap_factory(factory)(3.0)(unflatten(jnp.asarray(v)))), 3 * (A @ v), "plain factory",
          x64=x64, scale=1.0)
    fv = lambda p: flatten(mv(unflatten(p)))  # noqa: E731
    w = wrap_factory(lambda: fv, flatten, unflatten)()
    close(flat(w(unflatten(jnp.asarray(v)))), A @ v, "factory lifted to pytrees", x64=x64, scale=1.0)
    return n > 1


dim = st.sampled_from([1, 1, 2, 2, 3, 4, 0])
pos = st.sampled_from([1, 1, 2, 3, 4])
KINDS = [*gen.KINDS, "none", "deep"]


wide_shape = st.lists(st.sampled_from([1, 2, 3, 5, 8, 13, 40, 128]), max_size=3)


def base(d=pos, wide=900):
    shapes = st.lists(st.lists(d, max_size=4), min_size=1, max_size=6).map(trim)
    many = st.lists(wide_shape, min_size=1, max_size=30).map(lambda s: trim(s, wide))
    return dict(shapes=gen.rarely(shapes, many, 9),
                kind=st.sampled_from(KINDS), seed=gen.seeds, jit=st.booleans(), x64=gen.x64s)


def trim(shapes, cap=40):
    out, tot = [], 0
    for s in shapes:
        while math.prod(s) + tot > cap and s:
            s = s[:-1]
        out.append(s)
        tot += math.prod(s)
    return out


SUBS = [
    Sub("roundtrip", st.fixed_dictionaries({
        **base(dim), "dtypes": st.lists(st.sampled_from(sorted(DT)), min_size=1, max_size=3),
        "abstract": st.booleans(), "np_template": st.booleans(), "vmap": st.booleans()}),
        run_roundtrip, quick=300),
    Sub("basis", st.fixed_dictionaries({
        **base(wide=150), "ab": st.lists(st.integers(0, 9), min_size=2, max_size=2)}), run_basis, quick=100),
    Sub("partial", st.fixed_dictionaries({**base(), "cols": st.integers(1, 4)}), run_partial, quick=100),
    Sub("unravel", st.fixed_dictionaries({
        **base(), "pre": st.lists(st.integers(1, 3), max_size=2),
        "post": st.lists(st.integers(1, 3), max_size=2), "neg": st.booleans()}), run_unravel, quick=160),
    Sub("wrap", st.fixed_dictionaries({**base(), "pos": st.booleans()}), run_wrap, quick=80),
]
