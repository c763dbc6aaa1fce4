"""P17 Dense matrices and diagonals extracted from operators are exact."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Sub, close, expect, flat, raises
from harness.props.p15 import KINDS, pos, tree_of, trim, wide_shape
from laplax.curv.cov import estimate_curvature
from laplax.enums import CurvApprox
from laplax.util.flatten import create_pytree_flattener, wrap_function
from laplax.util.loader import DataLoaderMV, input_target_split, reduce_add
from laplax.util.mv import diagonal, to_dense
from laplax.util.tree import basis_vector_from_index, get_size, tree_vec_get

RULE = (
    "Cases: non-symmetric random matrices up to 12x12, sometimes up to 513x1026 (rectangular for "
    "densification, entries up to 1e4 apart) behind flat and pytree callables, host callbacks that cannot be traced, arrays and data-loader "
    "operators; batch sizes 1 to beyond the dimension, jit options; oracle: the matrix itself. "
    "Non-trivial: dimension at least two."
)
ASSUMPTIONS = ["pytree outputs are compared leaf-wise for leaves with at most one axis"]


def operator(spec, M, t=None):
    """The matrix as function; on pytrees when a template is given."""
    Mj = jnp.asarray(M)
    host = spec["host"]

    def flatmv(v):
        if host:  # opaque to the tracer, evaluated in numpy
            out = jax.ShapeDtypeStruct((M.shape[0],), v.dtype)
            return jax.pure_callback(lambda a: (M @ np.asarray(a, float)).astype(a.dtype), out, v,
                                     vmap_method="sequential")
        return Mj.astype(v.dtype) @ v

    if t is None:
        return flatmv

    shapes, td = [l.shape for l in jax.tree.leaves(t)], jax.tree.structure(t)

    def treemv(p):
        v = flatmv(jnp.concatenate([jnp.ravel(l) for l in jax.tree.leaves(p)]))
        out, i = [], 0
        for s in shapes:
            n = int(np.prod(s))
            out.append(v[i:i + n].reshape(s))
            i += n
        return jax.tree.unflatten(td, out)

    return treemv


def matrix(n, m, spec):
    r = np.random.default_rng([spec["seed"], 91])
    M = spec["scale"] * np.round(r.normal(size=(n, m)), 4)
    if spec["uneven"]:  # rows and columns of very different size
        M = M * 10.0 ** -r.integers(0, 3, size=n)[:, None] * 10.0 ** -r.integers(0, 3, size=m)
    return M


def template(spec):
    r = np.random.default_rng([spec["seed"], 92])
    return tree_of(spec, [jnp.asarray(r.normal(size=s)) for s in spec["shapes"]])


def run_flat(spec):
    n, m, x64 = spec["n"], spec["m"], spec["x64"]
    A = matrix(n, n, spec)
    B = matrix(m, n, spec)
    kw = {"to_dense_batch_size": spec["bs"]} if spec["bs"] else {}
    dkw = {"diagonal_batch_size": spec["bs"]} if spec["bs"] else {}
    sc = spec["scale"]
    for M in (A, B):
        f = operator(spec, M)
        D = to_dense(f, n, **kw) if spec["pos"] else to_dense(f, layout=n, **kw)
        close(D, M, "dense matrix", x64=x64, scale=sc)
        v = gen.vec(n, spec["seed"])
        close(np.asarray(D) @ v, f(jnp.asarray(v)), "dense matrix times vector", x64=x64, scale=sc)
        if spec["jit"]:
            close(jax.jit(lambda f=f: to_dense(f, n, **kw))(), M, "dense matrix inside jit", x64=x64, scale=sc)
    f = operator(spec, A)
    if spec["mvj"] is not None:
        dkw["mv_jittable"] = spec["mvj"]
    d = diagonal(f, n, **dkw) if spec["pos"] else diagonal(f, layout=n, **dkw)
    close(d, np.diag(A), "diagonal", x64=x64, scale=sc)
    close(diagonal(jnp.asarray(A)), np.diag(A), "diagonal of an array", x64=x64, scale=sc)
    if spec["jit"]:
        close(jax.jit(lambda: diagonal(f, n, **dkw))(), np.diag(A), "diagonal inside jit", x64=x64, scale=sc)
    close(d, np.diag(np.asarray(to_dense(f, layout=n))), "diagonal of the dense matrix", x64=x64, scale=sc)
    # array valued layouts behave like the size
    z = jnp.zeros(n)
    close(to_dense(f, layout=z, **kw), A, "dense matrix, array layout", x64=x64, scale=sc)
    close(diagonal(f, z, **dkw), np.diag(A), "diagonal, array layout", x64=x64, scale=sc)
    with raises(TypeError, "diagonal of a function without a layout"):
        diagonal(f)
    return n > 1


def run_tree(spec):
    t = template(spec)
    n, x64, sc = get_size(t), spec["x64"], spec["scale"]
    expect(n == sum(int(np.prod(s)) for s in spec["shapes"]), f"get_size {n}")
    A = matrix(n, n, spec)
    f = operator(spec, A, t)
    dkw = {"diagonal_batch_size": spec["bs"]} if spec["bs"] else {}
    kw = {"to_dense_batch_size": spec["bs"]} if spec["bs"] else {}
    if spec["mvj"] is not None:
        dkw["mv_jittable"] = spec["mvj"]
    close(diagonal(f, t, **dkw), np.diag(A), "diagonal on pytrees", x64=x64, scale=sc)
    flatten, unflatten = create_pytree_flattener(t)
    D = to_dense(wrap_function(f, input_fn=unflatten, output_fn=flatten), n, **kw)
    close(D, A, "dense matrix of the flattened function", x64=x64, scale=sc)
    # pytree in, vector out
    B = matrix(spec["m"], n, spec)
    g = operator(spec, B)
    D = to_dense(lambda p: g(flatten(p)), t, **kw)
    close(D, B, "dense matrix of a function from pytrees to vectors", x64=x64, scale=sc)
    out = to_dense(f, t, **kw)
    expect(jax.tree.structure(out) == jax.tree.structure(t), "structure of the dense pytree")
    i = 0
    for a, l in zip(jax.tree.leaves(out), jax.tree.leaves(t), strict=True):
        expect(a.shape[-1] == n and a.size == l.size * n, f"dense leaf of shape {a.shape} for {l.shape}")
        if l.ndim <= 1:
            close(np.asarray(a).reshape(l.size, n), A[i:i + l.size], "dense leaf", x64=x64, scale=sc)
        i += l.size
    # curvature estimates
    for ct, e in ((CurvApprox.FULL, A), ("full", A), ("diagonal", np.diag(A)), (CurvApprox.DIAGONAL, np.diag(A))):
        close(estimate_curvature(ct, f, layout=t), e, f"{ct} curvature of pytree products", x64=x64, scale=sc)
        close(estimate_curvature(ct, operator(spec, A), layout=n), e, f"{ct} curvature of flat products",
              x64=x64, scale=sc)
    if spec["bs"]:
        close(estimate_curvature("diagonal", f, layout=t, **dkw), np.diag(A), "diagonal curvature in batches",
              x64=x64, scale=sc)
    v = gen.vec(n, spec["seed"])
    close(flat(f(unflatten(jnp.asarray(v)))), np.asarray(estimate_curvature("full", f, layout=t)) @ v,
          "full curvature times vector", x64=x64, scale=sc)
    return n > 1


class CountingLoader:
    def __init__(self, batches):
        self.batches = batches

    def __iter__(self):
        return iter(self.batches)


def run_loader(spec):
    """Operators that stream over data: sum_i a_i b_i^T (non-symmetric)."""
    t = template(spec)
    n, x64 = get_size(t), spec["x64"]
    flatten, unflatten = create_pytree_flattener(t)
    r = np.random.default_rng([spec["seed"], 93])
    N = spec["N"]
    a, b = np.round(r.normal(size=(N, n)), 3), np.round(r.normal(size=(N, n)), 3)
    A = a.T @ b
    sizes = gen.fit_split(spec["split"], N)
    batches = list(zip(gen.cut(jnp.asarray(a), sizes), gen.cut(jnp.asarray(b), sizes), strict=True))

    def mv(vec, data):
        return unflatten(data["input"].T @ (data["target"] @ flatten(vec)))

    L = DataLoaderMV(mv, CountingLoader(batches), transform=input_target_split, reduce=reduce_add,
                     verbose_logging=False)
    sc = float(N)
    close(flat(L(unflatten(jnp.asarray(gen.vec(n, 1))))), A @ gen.vec(n, 1), "streamed product", x64=x64, scale=sc)
    d = diagonal(L, t)
    close(flat(d), np.diag(A), "diagonal of a streamed operator", x64=x64, scale=sc)
    dkw = {} if spec["mvj"] is None else {"mv_jittable": spec["mvj"]}
    if spec["bs"]:
        dkw["diagonal_batch_size"] = spec["bs"]
    close(flat(diagonal(L, layout=t, **dkw)), np.diag(A), "diagonal of a streamed operator, options",
          x64=x64, scale=sc)
    # flat operators of the same loader
    F = wrap_function(L, input_fn=unflatten, output_fn=flatten)
    tkw = {"to_dense_batch_size": spec["bs"]} if spec["bs"] else {}
    close(to_dense(F, layout=n, **tkw), A, "dense matrix of a streamed operator", x64=x64, scale=sc)
    close(diagonal(F, layout=n, **dkw), np.diag(A), "diagonal of a flat streamed operator", x64=x64, scale=sc)
    close(F(jnp.asarray(gen.vec(n, 2))), A @ gen.vec(n, 2), "flat streamed product", x64=x64, scale=sc)
    for ct, e in (("full", A), ("diagonal", np.diag(A))):
        got = estimate_curvature(ct, L, layout=t)
        close(flat(got).reshape(e.shape), e, f"{ct} curvature of a streamed operator", x64=x64, scale=sc)
    return n > 1


def run_giant(spec):
    """Diagonals of operators on tens of thousands of parameters."""
    shapes, x64 = [tuple(s) for s in spec["shapes"]], spec["x64"]
    n = sum(int(np.prod(s)) for s in shapes)
    e = (np.arange(n) * spec["mult"] % 10007) / 8.0
    leaves = [a.reshape(s) for a, s in zip(np.split(e, np.cumsum([int(np.prod(s)) for s in shapes])[:-1]), shapes,
                                           strict=True)]
    t = {f"l{i}": jnp.asarray(a) for i, a in enumerate(leaves)} if spec["tree"] else jnp.asarray(e)
    kw = {"diagonal_batch_size": spec["bs"]} if spec["bs"] else {}
    got = diagonal(lambda v: jax.tree.map(jnp.multiply, t, v), t if spec["tree"] else n, **kw)
    close(flat(got), e, f"diagonal of an operator on {n} parameters", x64=x64, scale=1.0)
    for i in {0, n - 1, 32767, 32768, 65535, 65536, int(np.prod(shapes[0]))} & set(range(n)):
        b = basis_vector_from_index(i, t)
        close(flat(b), np.eye(1, n, i)[0], f"basis vector {i} of {n} parameters", x64=x64)
        close(tree_vec_get(t, i), e[i], f"entry {i} of {n} parameters", x64=x64)
    return True


# input and output dimension
sizes = gen.rarely(
    st.tuples(st.integers(1, 12), st.integers(1, 5)),
    st.tuples(st.sampled_from([33, 64, 65, 100, 129, 200, 257, 300, 513]), st.sampled_from([0, 0.5, 1, 1.02, 2])).map(
        lambda t: (t[0], max(1, round(t[0] * t[1])))), 3)
base = dict(seed=gen.seeds, scale=gen.rarely(gen.log_floats(1e-2, 1e2), gen.log_floats(1e-7, 1e7)),
            uneven=st.booleans(), host=st.sampled_from([False, False, False, True]),
            bs=st.one_of(st.none(), gen.huge(gen.counts(1, 17, 70))), mvj=st.sampled_from([None, True, False]),
            m=st.integers(1, 5), x64=gen.x64s)
tr = dict(shapes=gen.rarely(
    st.lists(st.lists(pos, max_size=3), min_size=1, max_size=5).map(lambda s: trim(s, 12)),
    st.lists(wide_shape, min_size=2, max_size=12).map(lambda s: trim(s, 130))),
          kind=st.sampled_from(KINDS))
SUBS = [
    Sub("flat", st.tuples(st.fixed_dictionaries({**base, "pos": st.booleans(), "jit": st.booleans()}), sizes).map(
        lambda t: {**t[0], "n": t[1][0], "m": t[1][1]}), run_flat, quick=120),
    Sub("tree", st.fixed_dictionaries({**base, **tr}), run_tree, quick=110),
    Sub("loader", st.fixed_dictionaries({
        **tr, "seed": gen.seeds, "N": gen.counts(1, 6, 40), "x64": gen.x64s,
        "bs": base["bs"], "mvj": base["mvj"],
        "split": st.lists(st.integers(1, 3), min_size=1, max_size=6)}), run_loader, quick=40),
    Sub("giant", st.fixed_dictionaries({
        "shapes": st.lists(st.sampled_from([[], [1], [7], [129, 3], [100, 257], [33000], [2, 150, 111], [66000]]),
                           min_size=1, max_size=3).filter(lambda l: 1000 < sum(int(np.prod(s)) for s in l) < 100000),
        "mult": st.sampled_from([1, 7919, 5003]), "tree": st.sampled_from([True, True, False]),
        "bs": st.sampled_from([None, None, 64]), "x64": gen.x64s, "seed": gen.seeds}), run_giant, quick=8),
]
